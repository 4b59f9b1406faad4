// Case conversion and transformation, over a pool of strings that share storage
#include	"strgen.h"
#include	"c05_ref.h"
#include	<unordered_map>

namespace c06 {
using namespace strgen;
typedef StrBody SBody;

static const CharRow* row(U u)
{
	static const auto m = []() { std::unordered_map<U, const CharRow*> m; for (auto& r : char_rows) m[r.c] = &r; return m; }();
	auto i = m.find(u);
	return i == m.end() ? 0 : i->second;
}
static U	upper(U u) { const CharRow* r = row(u); return r ? r->up : u; }
static U	lower(U u) { const CharRow* r = row(u); return r ? r->lo : u; }

// Characters whose upper or lower case has an encoding of another length
static U	resized(Gen& g)
{
	static const std::vector<U> v = []() { std::vector<U> v; for (auto& r : char_rows) if (ref::enc(Text(1, r.up)).size() != ref::enc(Text(1, r.c)).size() || ref::enc(Text(1, r.lo)).size() != ref::enc(Text(1, r.c)).size()) v.push_back(r.c); return v; }();
	return v[g.raw(v.size())];
}

struct History
{
	Gen& g; Ctx& c;
	std::vector<StrVal> pool; std::vector<Text> model;
	std::vector<std::unique_ptr<std::string>> borrowed; std::vector<std::string> borrowed_copy;
	std::vector<std::unique_ptr<SBody>> bodies;
	~History() { pool.clear(); }
	bool	quiet = false;		// do not look (it would fill caches)
	int	longest = 0;		// Not 0: there are texts of about this length
	static std::string show(const std::string& s) { return s.size() > 1000 ? ref::show(s.substr(0, 60)) + "..." + ref::show(s.substr(s.size()-60)) + " (" + std::to_string(s.size()) + " bytes)" : ref::show(s); }
	static std::string show(const Text& t) { return show(ref::enc(t)); }

	void	check(const char* op)
	{
		if (quiet) return;
		for (size_t k = 0; k < pool.size(); k++)
		{
			const Text& m = model[k];
			const StrVal& s = pool[k];
			std::string e = ref::enc(m);
			PCHECK(s.length() == m.size(), "after " << op << " string " << k << " has " << s.length() << " characters, not " << m.size());
			PCHECK(bytes(s) == e, "after " << op << " string " << k << " is " << show(bytes(s)) << ", not " << show(e));
			size_t step = m.size() > 3000 ? m.size()/1000 : 1;
			for (size_t i = 0; i < m.size(); i += step) PCHECK(s[i] == m[i], "after " << op << " character " << i << " of string " << k << " is " << ref::hex(s[i]) << ", not " << ref::hex(m[i]));
		}
		for (size_t i = 0; i < borrowed.size(); i++) PCHECK(*borrowed[i] == borrowed_copy[i], "after " << op << " borrowed text has changed");
	}
	Text	fresh(int max)
	{
		Text	t;
		int	flags = STRAY|WIDE|(g.chance(1, 12) ? NUL : 0);
		int	style = g.raw(4);
		if (longest && g.coin())
		{
			t = long_text(g, longest, flags);
			for (U& u : t) if (u == t[0] && style) u = char_rows[style == 1 ? g.raw(120) : g.raw(sizeof char_rows/sizeof *char_rows)].c; else if (style) break;
			return t;
		}
		for (int n = g.range(0, max); n > 0; n--)
			if (style && g.chance(1, 20))
				t.push_back(resized(g));
			else if (style && g.chance(2, 3))
				t.push_back(char_rows[style == 1 ? g.raw(120) : g.raw(sizeof char_rows/sizeof *char_rows)].c);	// has a mapping or class
			else
				t.push_back(one_char(g, flags));
		return t;
	}
	void	add(StrVal s, const Text& t)
	{
		if (pool.size() >= 6) { int k = g.raw(6); pool[k] = s; model[k] = t; }
		else { pool.push_back(s); model.push_back(t); }
	}
	void	run()
	{
		int	n = g.range(1, c.max_size);
		for (int step = 0; step < n && !(g.exhausted() && step > 3); step++)
		{
			int	kind = pool.empty() ? 0 : g.weighted({3, 3, 3, 3, 3, 2, 6, 2, 2});
			int	k = pool.empty() ? 0 : g.raw(pool.size());
			const char* op = "";
			switch (kind)
			{
			case 0:
			{
				Text	t = fresh(10);
				if (g.chance(1, 3) && !has_nul(t))
				{	// borrowed
					borrowed.emplace_back(new std::string(ref::enc(t))); borrowed_copy.push_back(*borrowed.back());
					if (g.coin()) bodies.emplace_back(new SBody(borrowed.back()->c_str(), StrStatic));
					else bodies.emplace_back(new SBody(borrowed.back()->c_str(), StrStatic, borrowed.back()->size(), t.size()));
					PLOG(c, "string of borrowed " << show(t));
					add(StrVal(bodies.back().get()), t);
				}
				else { PLOG(c, "new " << show(t)); add(val(t), t); }
				op = "construct"; break;
			}
			case 1: { PLOG(c, "copy " << k); StrVal s = pool[k]; Text t = model[k]; add(s, t); op = "copy"; break; }
			case 2:
			{
				int at = g.range(0, model[k].size()), len = g.range(0, model[k].size()-at);
				PLOG(c, "slice " << k << " at " << at << " of " << len);
				StrVal s = pool[k].substr(at, len); Text t = sub(model[k], at, len); add(s, t); op = "slice"; break;
			}
			case 3: case 4:
			{
				bool	up = kind == 3;
				PLOG(c, (up ? "toUpper " : "toLower ") << k);
				Text	t; for (U u : model[k]) t.push_back(up ? upper(u) : lower(u));
				if (t != model[k]) c.nontrivial = true;
				c.label(ref::enc(t).size() != ref::enc(model[k]).size() ? "case change with another encoded length" : t != model[k] ? "case changed" : "case not changed");
				StrVal& r = up ? pool[k].toUpper() : pool[k].toLower();
				PCHECK(&r == &pool[k], "toUpper/toLower must return the string itself");
				model[k] = t; op = up ? "toUpper" : "toLower"; break;
			}
			case 5:
			{
				bool	up = g.coin();
				PLOG(c, (up ? "asUpper " : "asLower ") << k);
				Text	t; for (U u : model[k]) t.push_back(up ? upper(u) : lower(u));
				StrVal	s = up ? pool[k].asUpper() : pool[k].asLower();
				add(s, t); op = "asUpper/asLower"; break;
			}
			case 6: transform(k); op = "transform"; break;
			case 7: { U u = one_char(g); PLOG(c, k << " += " << show(Text(1, u))); pool[k] += (UCS4)u; model[k].push_back(u); op = "append"; break; }
			case 8: { int i = g.range(0, model[k].size()); PLOG(c, "look at " << k << "[" << i << "]"); (void)pool[k][i]; (void)pool[k].asUTF8(); op = "asUTF8"; break; }
			}
			check(op);
		}
	}
	void	transform(int k)
	{
		// A copy of the model's bytes says what text each call must see
		Text	t = model[k], out;
		std::string all = ref::enc(t);
		int	after = g.chance(1, 2) ? -1 : g.range(-1, t.size()+1);
		int	stop_at = g.chance(1, 3) ? g.range(0, 4) : 1000;	// the call which consumes nothing
		size_t	at = std::min<size_t>(after+1, t.size());		// next character the function will be given
		size_t	start = at, seen = 0, byte = 0;		// the text of all from this byte is from this character
		out = sub(t, 0, at);
		int	calls = 0; bool stopped = false, bad = false; std::string why;
		bool	passed_after = g.coin() || after != -1;
		PLOG(c, "transform " << k << " after " << after);
		auto	f = [&](const char*& cp, const char* ep) -> StrVal
		{
			if (bad) return StrVal();
			if (stopped) { bad = true; why = "called again after a call that consumed nothing"; return StrVal(); }
			size_t	skip = 0; for (U u : Text(t.begin()+seen, t.begin()+at)) skip += ref::enc(Text(1, u)).size();
			byte += skip; seen = at;
			std::string rest(all, byte);
			if (at >= t.size()) { bad = true; why = "called with no text left"; return StrVal(); }
			if (ep < cp || (size_t)(ep-cp) != rest.size() || memcmp(cp, rest.data(), rest.size())) { bad = true; why = "the text given to call " + std::to_string(calls) + " is " + show(std::string(cp, ep > cp ? ep-cp : 0)) + ", not " + show(rest); return StrVal(); }
			int	eat = calls++ == stop_at ? 0 : g.weighted({0, 8, 3, 1});
			if (longest && calls > 3) eat = g.range(1, t.size()/4+1);
			if (at+eat > t.size()) eat = t.size()-at;
			cp += ref::enc(sub(t, at, eat)).size();
			Text	r;
			StrVal	rv;
			switch (g.weighted({3, 3, 2, 1, 2}))
			{
			case 0: break;
			case 1: r = fresh(3); rv = val(r); break;
			case 2: r = sub(t, at, eat); rv = val(r); break;		// unchanged
			case 3: r = fresh(30); rv = val(r); break;
			case 4: { int j = g.raw(pool.size()); if (j == k) break; int a = g.range(0, model[j].size()); r = sub(model[j], a, 3); rv = pool[j].substr(a, 3); break; }	// a slice of some other string
			}
			PLOG(c, "  call consumes " << eat << ", returns " << show(r));
			out.insert(out.end(), r.begin(), r.end());
			at += eat;
			if (eat == 0) stopped = true;
			return rv;
		};
		StrVal&	res = passed_after ? pool[k].transform(f, after) : pool[k].transform(f);
		PCHECK(&res == &pool[k], "transform must return the string itself");
		PCHECK(!bad, "transform of " << show(t) << " after " << after << ": " << why);
		PCHECK(stopped || at == t.size(), "transform of " << show(t) << " after " << after << " stopped calling the function at character " << at);
		out.insert(out.end(), t.begin()+at, t.end());
		if (at > start && out != t) c.nontrivial = true;
		c.label(stopped ? "transform stopped" : calls ? "transform to the end" : "transform without calls");
		model[k] = out;
	}
};
static void	run(Gen& g, Ctx& c)
{
	History h{g, c};
	int	kind = g.weighted({2500, 4, 1}), saved = c.max_size;
	if (kind)
	{
		c.label(kind == 1 ? "long strings" : "very long strings");
		h.longest = std::min(kind == 1 ? 4100 : 66000, most());
		c.max_size = std::min(saved, 8);
	}
	h.run();
	c.max_size = saved;
}

static Property	prop()
{
	Property p;
	p.id = "C06"; p.fn = run;
	p.rule = "Histories of 1 to max_size operations over a pool of strings that share storage, every string compared with its model after every operation. Non-trivial: a case conversion or a transformation changed a string.";
	return p;
}
}
#ifndef PBT_NO_MAIN
PBT_MAIN(c06::prop)
#endif
