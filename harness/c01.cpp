// Strings as values: a pool of strings that share, slice and extend each other's storage, against vectors of characters
#include	"strgen.h"

namespace c01 {
using namespace strgen;

struct History
{
	struct Borrowed { std::string data, copy; std::unique_ptr<StrBody> body; };
	Gen&	g; Ctx& c;
	std::vector<std::unique_ptr<Borrowed>> borrowed;
	std::vector<StrVal>	pool;
	std::vector<Text>	model;
	int			shared_writes = 0;
	bool			wide = false;
	bool	quiet = false;		// do not look (it would fill caches)
	size_t	cap = 300;		// longer strings are cleared before they are used again
	int	longest = 0;		// not 0: new strings are often about so long

	static std::string show(const std::string& s) { return s.size() > 1500 ? ref::show(s.substr(0, 60)) + "..." + ref::show(s.substr(s.size()-60)) + " (" + std::to_string(s.size()) + " bytes)" : ref::show(s); }
	static std::string show(const Text& t) { return show(ref::enc(t)); }
	History(Gen& _g, Ctx& _c) : g(_g), c(_c) { pool.reserve(16); }

	void	verify_one(size_t k, const char* op)
	{
		const StrVal& s = pool[k]; const Text& m = model[k];
		std::string want = ref::enc(m);
		PCHECK(s.length() == m.size(), "after " << op << " string " << k << " has length " << s.length() << ", expected " << m.size() << " " << show(want));
		StrValIndex n; const char* p = s.asUTF8(n);
		PCHECK(std::string(p, n) == want, "after " << op << " string " << k << " is " << show(std::string(p, n)) << ", expected " << show(want));
		PCHECK(s.numBytes() == want.size(), "numBytes of string " << k);
		PCHECK(s.isEmpty() == m.empty() && (bool)s == !m.empty(), "isEmpty of string " << k);
		// The way in which it was looked at determines the bookmark that the next operation finds
		size_t	n_look = m.size(), mul = 1, start = 0;
		switch (g.raw(5))
		{
		case 0: break;
		case 1: start = m.size()-1; mul = m.size()-1; break;			// backwards
		case 2: n_look = g.range(0, 3); mul = g.range(0, 1<<16); start = g.range(0, 1<<16); break;	// here and there
		case 3: n_look = 0; break;
		case 4: n_look *= 2; mul = m.size()/2+1; start = g.range(0, 1<<16); break;	// to and fro
		}
		bool	keep = g.coin();
		if (m.empty()) n_look = 0;
		if (n_look > 3000) n_look = 3000;
		for (size_t l = 0; l < n_look; l++)
		{
			size_t	i = (start + l*mul) % m.size();
			U	ch = keep ? pool[k][i] : s[i];		// which saves the bookmark, or not
			PCHECK(ch == m[i], "after " << op << " string " << k << "[" << i << "] is " << ref::hex(ch) << ", expected " << ref::hex(m[i]) << " of " << show(want));
		}
		PCHECK(s[m.size()] == 0, "string " << k << " at its length is not NUL");
		PCHECK(s[m.size()+1] == UCS4_NONE && s[-1] == UCS4_NONE, "string " << k << " outside its range is not UCS4_NONE");
	}
	void	verify(const char* op) { if (quiet) return; for (size_t k = 0; k < pool.size(); k++) verify_one(k, op); }
	void	add(const StrVal& s, const Text& m)
	{
		if (pool.size() < 7) { pool.push_back(s); model.push_back(m); PLOG(c, "   into string " << pool.size()-1); }
		else { size_t k = g.raw(pool.size()); pool[k] = s; model[k] = m; PLOG(c, "   into string " << k); }
	}
	Text	fresh(int max = 14)
	{
		if (longest && g.coin()) return long_text(g, longest);
		return text(g, max, STRAY|WIDE|(g.chance(1, 12) ? NUL : 0));
	}
	void	wrote(size_t k) { for (size_t j = 0; j < pool.size(); j++) if (j != k && model[j].size() && model[k].size()) { shared_writes++; break; } }

	void	run()
	{
		int	n = g.range(1, c.max_size);
		{ Text t = fresh(); PLOG(c, "string 0 = " << show(t)); pool.push_back(val(t)); model.push_back(t); }
		for (int i = 0; i < n; i++) step();
		while (pool.size() > 1)
		{
			size_t k = g.raw(pool.size());
			pool.erase(pool.begin()+k); model.erase(model.begin()+k);
			verify("destroying another string");
		}
		pool.clear();
		for (auto& b : borrowed) PCHECK(b->data == b->copy, "borrowed text was changed to " << show(b->data) << " from " << show(b->copy));
		c.nontrivial = shared_writes > 0;
	}
	void	step()
	{
		size_t	k = g.raw(pool.size()), j = g.raw(pool.size());
		size_t	len = model[k].size();
		const char* op = "";
		if (len > cap) { pool[k] = StrVal(); model[k].clear(); len = 0; }
		Text	mk = model[k], mj = model[j];
		switch (g.weighted({3,2,2,3,4, 7,2,2,2, 4,2,2,1, 4,3,2,3,2,8,4, 2,4,2,2,3}))
		{
		case 0:
		{
			Text t = fresh(); std::string b = ref::enc(t);
			int how = has_nul(t) ? 1+g.raw(2) : g.raw(3), al = g.range(0, 60);
			PLOG(c, "new string " << show(t) << (how == 0 ? " from NUL-terminated text" : how == 1 ? " from counted bytes" : " from counted bytes with preallocation ") << (how == 2 ? al : 0));
			std::unique_ptr<char[]> mem(new char[b.size() + (how == 0)]); memcpy(mem.get(), b.c_str(), b.size() + (how == 0));
			if (how == 0) add(StrVal(mem.get()), t);
			else if (how == 1) add(StrVal(mem.get(), (StrValIndex)b.size()), t);
			else add(StrVal(mem.get(), (StrValIndex)b.size(), (size_t)al), t);
			op = "construct"; break;
		}
		case 1: PLOG(c, "new empty string"); if (g.coin()) add(StrVal(), {}); else add(StrVal(""), {}); op = "construct empty"; break;
		case 2: { U ch = one_char(g, STRAY|WIDE|NUL); PLOG(c, "new string of one character " << ref::hex(ch)); add(StrVal((UCS4)ch), {ch}); op = "construct from character"; break; }
		case 3:
		{
			if (borrowed.size() >= 4) return;
			Text t = text(g, 12); if (t.empty()) t.push_back('x');
			std::unique_ptr<Borrowed> b(new Borrowed);
			b->data = ref::enc(t);
			size_t bytes = b->data.size();
			int tail = g.raw(3);	// what follows the borrowed text
			if (tail) b->data += tail == 1 ? "Z" : "\xA9";
			b->copy = b->data;
			b->body.reset(new StrBody(b->data.data(), StrStatic, (StrValIndex)bytes));
			PLOG(c, "new string borrowing " << show(t) << (tail ? " (not terminated)" : ""));
			borrowed.push_back(std::move(b));
			if (tail == 0 && !has_nul(t) && g.chance(1, 3)) { add(StrVal(borrowed.back()->data.c_str(), StrStatic), t); op = "construct from static text"; break; }
			if (g.coin()) add(StrVal(borrowed.back()->body.get()), t);
			else		// shares the borrowed storage
			{
				StrVal s(borrowed.back()->body.get());
				if (pool.size() < 7) { pool.push_back(StrVal()); model.push_back(Text()); }
				k = pool.size()-1;
				pool[k] = s; model[k] = t;
				PLOG(c, "   assigned to string " << k);
			}
			op = "construct borrowing"; break;
		}
		case 4:
			if (g.coin()) { PLOG(c, "assign string " << k << " = string " << j); pool[k] = pool[j]; model[k] = mj; op = "assign"; }
			else if (g.coin()) { PLOG(c, "copy string " << k); add(pool[k], mk); op = "copy"; }
			else { PLOG(c, "string from a reference to string " << k); StrRef r = pool[k]; StrRef r2; r2 = r; add(StrVal(r2), mk); op = "copy through StrRef"; }
			break;
		case 5:
		{
			int at = beyond(g, 0, len+1), l = beyond(g, -1, len+2);
			Text r = l == -1 ? sub(mk, at, len) : sub(mk, at, l);
			bool in = g.coin();
			PLOG(c, "substr(" << at << ", " << l << ") of string " << k << (in ? ", assigned back" : ""));
			if (in) { pool[k] = pool[k].substr(at, l); model[k] = r; }
			else add(pool[k].substr(at, l), r);
			op = "substr"; break;
		}
		case 6: { int l = beyond(g, 0, len+2); PLOG(c, "head(" << l << ") of string " << k); add(pool[k].head(l), sub(mk, 0, l)); op = "head"; break; }
		case 7: { size_t l = beyond(g, 0, len+2); PLOG(c, "tail(" << l << ") of string " << k); add(pool[k].tail(l), l >= len ? mk : sub(mk, len-l, l)); op = "tail"; break; }
		case 8: { size_t l = beyond(g, 0, len+2); PLOG(c, "shorter(" << l << ") of string " << k); add(pool[k].shorter(l), l >= len ? Text() : sub(mk, 0, len-l)); op = "shorter"; break; }
		case 9: { PLOG(c, "string " << k << " + string " << j); Text r = mk; r.insert(r.end(), mj.begin(), mj.end()); add(pool[k]+pool[j], r); op = "operator+"; break; }
		case 10: { U ch = one_char(g, STRAY|WIDE|NUL); PLOG(c, "string " << k << " + character " << ref::hex(ch)); Text r = mk; r.push_back(ch); add(pool[k]+(UCS4)ch, r); op = "operator+ character"; break; }
		case 11: { Text t = text(g, 6); PLOG(c, "string " << k << " + literal " << show(t)); Text r = mk; r.insert(r.end(), t.begin(), t.end()); add(pool[k]+ref::enc(t).c_str(), r); op = "operator+ literal"; break; }
		case 12: { Text t = text(g, 6); PLOG(c, "literal " << show(t) << " + string " << k); Text r = t; r.insert(r.end(), mk.begin(), mk.end()); add(ref::enc(t).c_str()+pool[k], r); op = "literal + string"; break; }
		case 13: { PLOG(c, "string " << k << " += string " << j); wrote(k); pool[k] += pool[j]; model[k].insert(model[k].end(), mj.begin(), mj.end()); op = "operator+="; break; }
		case 14: { U ch = one_char(g, STRAY|WIDE|NUL); PLOG(c, "string " << k << " += character " << ref::hex(ch)); wrote(k); pool[k] += (UCS4)ch; model[k].push_back(ch); op = "operator+= character"; break; }
		case 15: { Text t = text(g, 10); PLOG(c, "string " << k << " += literal " << show(t)); wrote(k); pool[k] += ref::enc(t).c_str(); model[k].insert(model[k].end(), t.begin(), t.end()); op = "operator+= literal"; break; }
		case 16: { PLOG(c, "append string " << j << " to string " << k); wrote(k); pool[k].append(pool[j]); model[k].insert(model[k].end(), mj.begin(), mj.end()); op = "append"; break; }
		case 17: { PLOG(c, "prepend string " << j << " to string " << k); wrote(k); pool[k].prepend(pool[j]); model[k].insert(model[k].begin(), mj.begin(), mj.end()); op = "prepend"; break; }
		case 18:
		{
			int pos = g.range(0, len); wrote(k);
			if (g.coin())
			{
				Text t = fresh(6); PLOG(c, "insert " << show(t) << " into string " << k << " at " << pos);
				pool[k].insert(pos, val(t)); model[k].insert(model[k].begin()+pos, t.begin(), t.end());
			}
			else
			{
				PLOG(c, "insert string " << j << " into string " << k << " at " << pos);
				pool[k].insert(pos, pool[j]); model[k].insert(model[k].begin()+pos, mj.begin(), mj.end());
			}
			op = "insert"; break;
		}
		case 19:	// pieces of one string put together again
		{
			int at = g.range(0, len), at2 = g.range(at, len), gap = g.range(0, 1) && at2 < (int)len ? 1 : 0;
			int how = g.raw(3);
			Text r = sub(mk, at, at2-at), r2 = sub(mk, at2+gap, len); r.insert(r.end(), r2.begin(), r2.end());
			PLOG(c, "substr [" << at << "," << at2 << ") " << (how == 0 ? "+" : how == 1 ? "+=" : "append") << " substr [" << at2+gap << ",end) of string " << k);
			StrVal a = pool[k].substr(at, at2-at), b = pool[k].substr(at2+gap);
			if (at2 == at) a = StrVal();
			if (how == 0) add(a+b, r);
			else if (how == 1) { a += b; add(a, r); }
			else { a.append(b); add(a, r); }
			op = "join slices"; break;
		}
		case 20:
		{
			int n = len && len < 12 && g.raw(8) == 0 ? g.range(5, 70) : g.range(0, 4);
			PLOG(c, "string " << k << " * " << n);
			Text r; for (int i = 0; i < n; i++) r.insert(r.end(), mk.begin(), mk.end());
			add(pool[k]*n, r); op = "operator*"; break;
		}
		case 21:
		{
			PLOG(c, "asUTF8 of string " << k);
			const char* p = pool[k].asUTF8();
			std::string want = ref::enc(mk);
			PCHECK(!memcmp(p, want.c_str(), want.size()+1), "asUTF8 of string " << k << " is " << show(std::string(p, want.size()+1)) << ", expected " << show(want) << " and a NUL");
			op = "asUTF8"; break;
		}
		case 22: PLOG(c, "string " << k << " = null"); pool[k] = g.coin() ? StrVal::null : StrVal(""); model[k].clear(); op = "clear"; break;
		case 23: { PLOG(c, "pass string " << k << " by value and append to the parameter"); auto f = [](StrVal s) { s += "!"; s.prepend("?"); return s; };
			Text r = mk; r.push_back('!'); r.insert(r.begin(), '?'); add(f(pool[k]), r); op = "pass by value"; break; }
		case 24:
		{
			PLOG(c, "compare string " << k << " with string " << j);
			PCHECK((pool[k] == pool[j]) == (ref::enc(mk) == ref::enc(mj)), "operator== of strings " << k << " and " << j);
			StrVal copy(pool[k]); PCHECK(copy == pool[k] && !(copy != pool[k]), "a copy differs from its original");
			op = "compare"; break;
		}
		}
		verify(op);
	}
};

static void	run(Gen& g, Ctx& c)
{
	History h(g, c);
	int	kind = g.weighted({1600, 4, 1}), saved = c.max_size;
	if (kind)
	{
		c.label(kind == 1 ? "long strings" : "very long strings");
		h.longest = std::min(kind == 1 ? 4100 : 66000, most());
		h.cap = h.longest+200;
		c.max_size = std::min(saved, 10);
	}
	h.run();
	c.max_size = saved;
}

static Property	prop()
{
	Property p;
	p.id = "C01"; p.fn = run;
	p.rule = "Histories of 1 to max_size operations over a pool of up to 7 strings (1- to 6-byte characters, NUL, stray bytes; owned, sliced and borrowed storage), every string compared with its model after every operation through length, every index, UTF-8 bytes and out-of-range indexing. Non-trivial: at least one non-empty string was modified while other non-empty strings existed.";
	return p;
}
}
#ifndef PBT_NO_MAIN
PBT_MAIN(c01::prop)
#endif
