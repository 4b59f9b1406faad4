// String search, slicing and comparison against their definitions on vectors of characters
#include	"strgen.h"

namespace c02 {
using namespace strgen;

static std::string show(const Text& t)
{
	if (t.size() <= 400) return ref::show(t);
	return ref::show(sub(t, 0, 30)) + "..." + ref::show(sub(t, t.size()-30, 30)) + " (" + std::to_string(t.size()) + " characters)";
}

// A text related to t: equal, a prefix, an edit of one place, a piece of it, or unrelated
static Text	relative(Gen& g, const Text& t, int max, int flags)
{
	Text	r;
	switch (g.weighted({3, 3, 3, 2, 3, 1}))
	{
	case 0: return text(g, max, flags);
	case 1: { size_t at = g.range(0, t.size()); return sub(t, at, g.chance(1, 8) ? g.range(0, t.size()) : g.range(0, 4)); }	// a piece
	case 2: r = t; if (r.size()) r[g.raw(r.size())] = one_char(g, flags); return r;
	case 3: r = sub(t, 0, g.range(0, t.size())); return r;
	case 4: { size_t at = g.range(0, t.size()); r = sub(t, at, g.chance(1, 8) ? g.range(0, t.size()) : g.range(0, 6)); if (r.size()) r.back() = one_char(g, flags); return r; }
	default: r = t; r.push_back(one_char(g, flags)); return r;
	}
}

static void	expect(long got, long want, const char* op, const Text& t, const std::string& arg, long pos)
{
	PCHECK(got == want, op << "(" << arg << ", " << pos << ") of " << show(t) << " returned " << got << ", not " << want);
}

static void	run(Gen& g, Ctx& c)
{
	int	flags = STRAY|WIDE|(g.chance(1, 6) ? NUL : 0);
	std::vector<StrVal> keep;
	int	max = g.chance(1, 12) ? 60 : 12;
	int	kind = g.weighted({3000, 5, 1});
	if (kind) c.label(kind == 1 ? "long text" : "very long text");
	Text	t = kind == 0 ? text(g, max, flags) : long_text(g, std::min(kind == 1 ? 4100 : 66000, most()), flags);
	if (kind == 0 && t.size() && g.chance(1, 3))
	{	// few distinct characters, so that partial matches are common
		std::vector<U> few; for (int i = 0, n = g.range(1, 3); i < n; i++) few.push_back(t[g.raw(t.size())]);
		for (U& u : t) u = g.pick(few);
	}
	StrVal	s = sliced(g, t, keep, flags);
	PLOG(c, "s = " << show(t));
	PCHECK(s.length() == t.size(), "length of " << show(t) << " is " << s.length());
	int	len = t.size();
	// A text to compare or search for: on its own, or a slice of the same string
	auto	operand = [&](Text& p, const std::function<void()>& choose) -> StrVal {
		if (kind == 0 && g.chance(1, 4))
		{
			int	at = g.range(0, len), n = g.chance(1, 4) ? len : g.range(0, 4);
			p = sub(t, at, n);
			PLOG(c, "characters " << at << " to " << at+(int)p.size() << " of it:");
			return s.substr(at, n);
		}
		choose();
		return sliced(g, p, keep, flags);
	};
	for (int ops = g.range(1, 6); ops > 0; ops--)
	{
		int	pos = g.weighted({3, 5, 1}) == 0 ? -1 : g.chance(1, 8) ? std::min(beyond(g, len, len+2), 0x7FFFFFFE) : g.range(0, len);
		// Move the bookmark about, so that positions are found from everywhere
		if (g.chance(1, 3)) { int i = g.range(0, len); U u = s[i]; PCHECK(u == (i < len ? t[i] : 0), "character " << i << " of " << show(t) << " is " << std::hex << u); }
		switch (g.weighted({4, 5, 4, 5, 5}))
		{
		case 0:		// a character
		{
			U	ch = len && g.coin() ? t[g.raw(len)] : one_char(g, flags);
			int	f = -1, r = -1;
			for (int i = len-1; i > pos; i--) if (t[i] == ch) f = i;
			for (int i = 0; i < (pos == -1 ? len : std::min(pos, len)); i++) if (t[i] == ch) r = i;
			PLOG(c, "find/rfind char " << std::hex << ch << std::dec << " from " << pos);
			expect(s.find(ch, pos), f, "find", t, show(Text(1, ch)), pos);
			expect(s.rfind(ch, pos), r, "rfind", t, show(Text(1, ch)), pos);
			if (pos == -1) { expect(s.find(ch), f, "find", t, show(Text(1, ch)), pos); expect(s.rfind(ch), r, "rfind", t, show(Text(1, ch)), pos); }
			c.label(f >= 0 ? "char found" : "char not found");
			if (f >= 0 || r >= 0) c.nontrivial = true;
			break;
		}
		case 1:		// a substring
		{
			Text	p;
			StrVal	ps = operand(p, [&]{ p = relative(g, t, 3, flags); });
			if (kind == 2 && p.size() > 300 && p.size()+300 < t.size()) { p.resize(300); ps = val(p); }	// or the search takes long
			int	pl = p.size(), f = -1, r = -1;
			for (int i = len-pl; i > pos && i >= 0; i--) if (std::equal(p.begin(), p.end(), t.begin()+i)) f = i;
			for (int i = 0; i <= len-pl && (pos == -1 || i < pos); i++) if (std::equal(p.begin(), p.end(), t.begin()+i)) r = i;
			PLOG(c, "find/rfind " << show(p) << " from " << pos);
			expect(s.find(ps, pos), f, "find", t, show(p), pos);
			expect(s.rfind(ps, pos), r, "rfind", t, show(p), pos);
			if (pos == -1) { expect(s.find(ps), f, "find", t, show(p), pos); expect(s.rfind(ps), r, "rfind", t, show(p), pos); }
			PCHECK(ps.length() == p.size() && bytes(ps) == ref::enc(p), "searching changed the text searched for");
			c.label(f >= 0 ? "substring found" : "substring not found");
			if (f >= 0 || r >= 0) c.nontrivial = true;
			break;
		}
		case 2:		// any character in, or not in, a set
		{
			Text	p;
			StrVal	ps = operand(p, [&]{
				p = !g.chance(1, 8) ? text(g, 4, flags) : text(g, 40, flags);	// A few sets are larger
				if (kind == 0 && g.coin()) p = relative(g, t, 4, flags);
			});
			auto	in = [&](int i) { return std::find(p.begin(), p.end(), t[i]) != p.end(); };
			int	f = -1, r = -1, nf = -1, nr = -1;
			for (int i = len-1; i > pos; i--) { if (in(i)) f = i; else nf = i; }
			for (int i = 0; i < (pos == -1 ? len : std::min(pos, len)); i++) { if (in(i)) r = i; else nr = i; }
			PLOG(c, "findAny/Not " << show(p) << " from " << pos);
			expect(s.findAny(ps, pos), f, "findAny", t, show(p), pos);
			expect(s.rfindAny(ps, pos), r, "rfindAny", t, show(p), pos);
			expect(s.findNot(ps, pos), nf, "findNot", t, show(p), pos);
			expect(s.rfindNot(ps, pos), nr, "rfindNot", t, show(p), pos);
			if (pos == -1)
			{
				expect(s.findAny(ps), f, "findAny", t, show(p), pos); expect(s.rfindAny(ps), r, "rfindAny", t, show(p), pos);
				expect(s.findNot(ps), nf, "findNot", t, show(p), pos); expect(s.rfindNot(ps), nr, "rfindNot", t, show(p), pos);
			}
			c.label(f >= 0 && nf >= 0 ? "set splits the text" : "set does not split the text");
			if (f >= 0 && nf >= 0) c.nontrivial = true;
			break;
		}
		case 3:		// slices
		{
			int	at = beyond(g, 0, len+2), n = g.chance(1, 3) ? -1 : beyond(g, 0, len+2);
			Text	want; StrVal got;
			const char* op;
			switch (g.raw(4))
			{
			case 0:	op = "substr"; got = n == -1 && g.coin() ? s.substr(at) : s.substr(at, n); want = sub(t, at, n < 0 ? t.size() : n); break;
			case 1: op = "head"; n = beyond(g, 0, len+2); got = s.head(n); want = sub(t, 0, n); break;
			case 2: op = "tail"; n = beyond(g, 0, len+2); got = s.tail(n); want = Text(t.end()-std::min(n, len), t.end()); break;
			default: op = "shorter"; n = beyond(g, 0, len+2); got = s.shorter(n); want = Text(t.begin(), t.end()-std::min(n, len)); break;
			}
			PLOG(c, op << " " << at << "," << n);
			PCHECK(got.length() == want.size() && bytes(got) == ref::enc(want), op << "(" << at << ", " << n << ") of " << show(t)
				<< " has length " << got.length() << " and bytes " << ref::show(bytes(got)) << ", not " << show(want));
			for (size_t i = 0; i < want.size() && i < 3000; i++) PCHECK(got[i] == want[i], "character " << i << " of " << op);
			PCHECK(got[want.size()] == 0, "character after the end of " << op);
			const char* z = got.asUTF8();
			std::string e = ref::enc(want);
			PCHECK(memcmp(z, e.data(), e.size()) == 0 && z[e.size()] == 0, "asUTF8 of " << op << " is not its own text and a NUL");
			PCHECK(bytes(s) == ref::enc(t), op << " changed the string it took a part of");
			if (want.size() && want.size() < t.size()) c.nontrivial = true;
			c.label("slice");
			if (g.chance(1, 3)) { keep.push_back(s); s = got; t = want; len = t.size(); }	// go on with the slice
			break;
		}
		default:	// comparison
		{
			Text	p;
			StrVal	ps = operand(p, [&]{ p = relative(g, t, 12, flags); });
			Text	old = t;
			StrVal	whole = s;
			if (g.chance(1, 4))	// Compare just a part of it
			{
				int	at = g.range(0, len), n = g.range(0, 4);
				t = sub(t, at, n); s = s.substr(at, n);
			}
			std::string a = ref::enc(t), b = ref::enc(p);
			int	want = a.compare(b); want = want < 0 ? -1 : want > 0;	// UTF-8 keeps code point order
			int	x = s.compare(ps), y = ps.compare(s);
			PLOG(c, "compare with " << show(p));
			PCHECK((x < 0 ? -1 : x > 0) == want, "compare of " << show(t) << " with " << show(p) << " gives " << x);
			PCHECK((y < 0 ? -1 : y > 0) == -want, "compare of " << show(p) << " with " << show(t) << " gives " << y);
			PCHECK((s == ps) == (want == 0) && (s != ps) == (want != 0), "equality of " << show(t) << " and " << show(p));
			PCHECK((s < ps) == (want < 0) && (s <= ps) == (want <= 0) && (s > ps) == (want > 0) && (s >= ps) == (want >= 0), "order of " << show(t) << " and " << show(p));
			PCHECK(StrVal::compare(s, ps) + StrVal::compare(ps, s) + StrVal::equiv(s, ps) == 1, "the ordering of " << show(t) << " and " << show(p) << " for maps");
			PCHECK(StrVal::equiv(s, ps) == (want == 0), "equiv of " << show(t) << " and " << show(p));
			c.label(want ? "compare unequal" : "compare equal");
			if (t.size() && p.size()) c.nontrivial = true;
			t = old; s = whole;
			break;
		}
		}
	}
	PCHECK(bytes(s) == ref::enc(t), "the string searched has changed");
}

static Property	prop()
{
	Property p;
	p.id = "C02"; p.fn = run;
	p.rule = "a search found something, a set split the text, a slice was a proper part, or two non-empty strings were compared";
	return p;
}
}
#ifndef PBT_NO_MAIN
PBT_MAIN(c02::prop)
#endif
