// Arrays of strings: joining, and holding strings as values
#include	"strgen.h"

namespace c23 {
using namespace strgen;
typedef std::vector<Text> Model;

struct History
{
	Gen& g; Ctx& c;
	std::vector<StringArray> pool; std::vector<Model> model;
	std::vector<StrVal> strs; std::vector<Text> texts;
	bool	quiet = false;		// do not look (it would fill caches)
	int	many = 0, longest = 0;	// Not 0: arrays of so many strings, or strings so long
	static std::string show(const std::string& s) { return s.size() > 1000 ? ref::show(s.substr(0, 60)) + "..." + ref::show(s.substr(s.size()-60)) + " (" + std::to_string(s.size()) + " bytes)" : ref::show(s); }
	static std::string show(const Text& t) { return show(ref::enc(t)); }

	std::string show(const Model& m) { std::string s = "["; for (size_t i = 0; i < m.size() && i < 50; i++) s += show(m[i]) + " "; return s + (m.size() > 50 ? "... " + std::to_string(m.size()) + " elements]" : "]"); }
	void	check(const char* op)
	{
		if (quiet) return;
		for (size_t k = 0; k < pool.size(); k++)
		{
			PCHECK(pool[k].length() == model[k].size(), "after " << op << " array " << k << " has " << pool[k].length() << " elements, not " << model[k].size());
			for (size_t i = 0; i < model[k].size(); i++)
			{
				StrVal s = g.coin() ? pool[k][i] : pool[k].elem(i);
				PCHECK(s.length() == model[k][i].size() && bytes(s) == ref::enc(model[k][i]), "after " << op << " element " << i << " of array " << k << " is " << show(bytes(s)) << ", not " << show(model[k][i]));
			}
		}
		for (size_t i = 0; i < strs.size(); i++)
			PCHECK(bytes(strs[i]) == ref::enc(texts[i]) && strs[i].length() == texts[i].size(), "after " << op << " string " << i << " is " << show(bytes(strs[i])) << ", not " << show(texts[i]));
	}
	// A string of the pool: its number
	int	str()
	{
		if (strs.empty() || g.chance(1, 4))
		{
			Text	t = longest && g.coin() ? long_text(g, longest) : text(g, 6, STRAY|WIDE|(g.chance(1, 12) ? NUL : 0));
			if (strs.size() >= 8) { strs.erase(strs.begin()); texts.erase(texts.begin()); }
			if (!has_nul(t) && g.chance(1, 4)) strs.push_back(StrVal(ref::enc(t).c_str())); else strs.push_back(val(t));
			texts.push_back(t);
			PLOG(c, "string " << strs.size()-1 << " = " << show(t));
			return strs.size()-1;
		}
		int	k = g.raw(strs.size());
		if (g.chance(1, 2))
		{	// a slice of one, often adjacent to another slice
			int at = g.chance(1, 2) ? 0 : g.range(0, texts[k].size()), len = g.range(0, texts[k].size()-at);
			StrVal s = strs[k].substr(at, len); Text t = sub(texts[k], at, len);
			if (strs.size() >= 8) { strs.erase(strs.begin()); texts.erase(texts.begin()); }
			strs.push_back(s); texts.push_back(t);
			PLOG(c, "string " << strs.size()-1 << " = slice of " << k << " at " << at << " of " << len);
			return strs.size()-1;
		}
		return k;
	}
	void	add(StringArray a, const Model& m)
	{
		if (pool.size() >= 5) { int k = g.raw(5); pool[k] = a; model[k] = m; } else { pool.push_back(a); model.push_back(m); }
	}
	void	join(int k, StrVal joiner, const Text& jt)
	{
		Text	want;
		for (size_t i = 0; i < model[k].size(); i++)
		{
			if (i) want.insert(want.end(), jt.begin(), jt.end());
			want.insert(want.end(), model[k][i].begin(), model[k][i].end());
		}
		PLOG(c, "join " << k << " " << show(model[k]) << " with " << show(jt));
		StrVal	r = pool[k].join(joiner);
		PCHECK(r.length() == want.size() && bytes(r) == ref::enc(want), "join of " << show(model[k]) << " with " << show(jt) << " is " << show(bytes(r)) << " of length " << r.length() << ", not " << show(want));
		const char* z = r.asUTF8(); std::string e = ref::enc(want);
		PCHECK(!memcmp(z, e.c_str(), e.size()+1), "asUTF8 of a joined string");
		PCHECK(bytes(joiner) == ref::enc(jt), "join changed the joiner");
		if (g.coin()) { r += 'x'; PCHECK(bytes(joiner) == ref::enc(jt), "the joined string shares storage it writes to with the joiner"); }
		else { if (strs.size() >= 8) { strs.erase(strs.begin()); texts.erase(texts.begin()); } strs.push_back(r); texts.push_back(want); }
		c.label(model[k].size() == 0 ? "join of none" : model[k].size() == 1 ? "join of one" : "join of several");
		if (model[k].size() > 1) c.nontrivial = true;
	}
	void	run()
	{
		int	n = g.range(1, c.max_size);
		for (int step = 0; step < n && !(g.exhausted() && step > 3); step++)
		{
			int	kind = pool.empty() ? g.raw(3) : g.weighted({1, 2, 1, 2, 2, 6, 2, 2, 2, 7, 2, 2, 2, 2});
			int	k = pool.empty() ? 0 : g.raw(pool.size());
			int	len = pool.empty() ? 0 : model[k].size();
			const char* op = "";
			switch (kind)
			{
			case 0: PLOG(c, "empty array"); add(StringArray(), Model()); op = "construct empty"; break;
			case 1:
			{
				std::vector<StrVal> d; Model m;
				int	repeat = many && g.coin() ? g.range(1, many/4) : 1;
				for (int i = g.range(0, 5); i > 0; i--) { int s = str(); for (int r = 0; r < repeat; r++) d.push_back(strs[s]), m.push_back(texts[s]); }
				int	al = g.chance(1, 4) ? g.range(0, 8) : 0;
				PLOG(c, "array from " << m.size() << " strings " << show(m));
				add(StringArray(d.data(), d.size(), al), m); op = "construct from strings"; break;
			}
			case 2:
			{
				std::vector<std::string> own; Model m;
				for (int i = g.range(0, 4); i > 0; i--) { Text t = text(g, 4); m.push_back(t); own.push_back(ref::enc(t)); }
				std::vector<const char*> p; for (auto& s : own) p.push_back(s.c_str());
				PLOG(c, "array from C strings " << show(m));
				Array<const char*> a(p.data(), p.size());
				add(StringArray(a), m); op = "construct from C strings"; break;
			}
			case 3: { PLOG(c, "copy " << k); StringArray a = pool[k]; Model m = model[k]; add(a, m); op = "copy"; break; }
			case 4: { int at = g.range(0, len), l = g.range(0, len-at); PLOG(c, "slice " << k << " at " << at << " of " << l); StringArray a = pool[k].slice(at, l); Model m(model[k].begin()+at, model[k].begin()+at+l); add(a, m); op = "slice"; break; }
			case 5: { int s = str(); PLOG(c, "append string " << s << " to " << k); Text t = texts[s]; if (g.coin()) pool[k].append(strs[s]); else pool[k] << strs[s]; model[k].push_back(t); op = "append"; break; }
			case 6: { if (!len) break; PLOG(c, "pull " << k); StrVal s = pool[k].pull(); PCHECK(bytes(s) == ref::enc(model[k].back()), "pull returned " << show(bytes(s)) << ", not " << show(model[k].back())); model[k].pop_back(); op = "pull"; break; }
			case 7: { if (!len) break; int i = g.raw(len); PLOG(c, "delete " << i << " of " << k); StrVal s = pool[k].delete_at(i); PCHECK(bytes(s) == ref::enc(model[k][i]), "delete_at returned " << show(bytes(s)) << ", not " << show(model[k][i])); model[k].erase(model[k].begin()+i); op = "delete_at"; break; }
			case 8: { if (!len) break; PLOG(c, "last of " << k); StrVal s = pool[k].last(); PCHECK(bytes(s) == ref::enc(model[k].back()), "last returned " << show(bytes(s))); op = "last"; break; }
			case 9:
			{
				if (len && g.chance(1, 4)) { int i = g.raw(len); Text jt = model[k][i]; join(k, pool[k][i], jt); op = "join"; break; }	// joined by one of its elements
				int s = g.chance(1, 4) ? -1 : str();
				if (s < 0) join(k, StrVal(), Text()); else { Text jt = texts[s]; join(k, strs[s], jt); }
				op = "join"; break;
			}
			case 10:	// an element is a value: changing a copy must not change it
			{
				if (!len) break;
				int i = g.raw(len); PLOG(c, "change a copy of element " << i << " of " << k);
				StrVal s = pool[k][i]; s += 'Z'; s.insert(0, "q"); op = "changing a copy of an element"; break;
			}
			case 11: { int s = str(); U u = one_char(g); PLOG(c, "string " << s << " += " << ref::hex(u)); strs[s] += (UCS4)u; texts[s].push_back(u); op = "string +="; break; }
			case 12: { int s = str(); if (!len) break; int i = g.raw(len); PLOG(c, "set " << i << " of " << k << " to string " << s); pool[k].set(i, strs[s]); model[k][i] = texts[s]; op = "set"; break; }
			case 13: { int j = g.raw(pool.size()); PLOG(c, "append array " << j << " to " << k); Model m = model[j]; pool[k] += pool[j]; model[k].insert(model[k].end(), m.begin(), m.end()); if ((int)model[k].size() > std::max(40, many)) { pool[k].clear(); model[k].clear(); } op = "append array"; break; }
			}
			check(op);
		}
	}
};
static void	run(Gen& g, Ctx& c)
{
	History h{g, c};
	int	kind = g.weighted({2500, 4, 4}), saved = c.max_size;
	if (kind == 1) { c.label("many strings"); h.many = 600; c.max_size = std::min(saved, 8); }
	if (kind == 2) { c.label("long strings"); h.longest = 4100; c.max_size = std::min(saved, 8); }
	h.run();
	c.max_size = saved;
}

static Property	prop()
{
	Property p;
	p.id = "C23"; p.fn = run;
	p.rule = "Histories of 1 to max_size operations over pools of string arrays and strings that share storage, all compared with their models after every operation. Non-trivial: two or more strings were joined.";
	return p;
}
}
#ifndef PBT_NO_MAIN
PBT_MAIN(c23::prop)
#endif
