// String to integer conversion against a reference that computes with saturating 128-bit arithmetic
#include	"strgen.h"
#include	"c05_ref.h"
#include	<unordered_map>

namespace c08 {
using namespace strgen;

// The library's own idea of a blank (C05 checks it)
static bool	white(U v) { return v == 0x20 || v == 9 || v == 10 || v == 13 || v == 0xA0 || (v >= 0x2000 && v <= 0x200B) || v == 0x2028 || v == 0x2029 || v == 0x3000; }
static int	decimal(U u)
{
	static std::unordered_map<U, int> m;
	if (m.empty()) for (auto& r : char_rows) if (r.digit >= 0) m[r.c] = r.digit;
	auto i = m.find(u);
	return i == m.end() ? -1 : i->second;
}
static int	digit(U u, int radix)
{
	int	d = decimal(u);
	if (d < 0) d = u >= 'a' && u <= 'z' ? u-'a'+10 : u >= 'A' && u <= 'Z' ? u-'A'+10 : -1;
	return d < radix ? d : -1;
}
enum Err { OK, TRAIL, NODIGITS, OVERFLOW_, NOTNUM, BADRADIX };
static const char* names[] = { "no error", "trailing text", "no digits", "out of range", "not a number", "illegal radix" };
struct Want { Err err; int64_t value; size_t scanned, min_scanned; };

static Want	reference(const Text& t, int radix)
{
	if (radix < 0 || radix > 36) return { BADRADIX, 0, 0, 0 };
	size_t	i = 0, n = t.size();
	bool	neg = false;
	while (i < n && white(t[i])) i++;
	if (i < n && (t[i] == '+' || t[i] == '-'))
	{
		neg = t[i++] == '-';
		while (i < n && white(t[i])) i++;
	}
	if (i == n) return { NODIGITS, 0, n, n };
	int	base = radix ? radix : 10;
	if (decimal(t[i]) == 0 && i+1 < n)
	{
		U	p = t[i+1] | 0x20;
		bool	ascii = t[i+1] < 0x80;
		if (ascii && p == 'b' && (radix == 0 || radix == 2)) { base = 2; i += 2; }
		else if (ascii && p == 'x' && (radix == 0 || radix == 16)) { base = 16; i += 2; }
		else if (radix == 0) base = 8;
		if (i == n) return { NODIGITS, 0, n, n };
	}
	if (digit(t[i], base) < 0) return { NOTNUM, 0, i, i };
	size_t	first = i+1;
	unsigned __int128 v = 0;
	for (int d; i < n && (d = digit(t[i], base)) >= 0; i++)
		if (v < ((unsigned __int128)1<<100)) v = v*base+d;
	if (v > (unsigned __int128)(neg ? 0x80000000u : 0x7FFFFFFFu)) return { OVERFLOW_, 0, n, first };
	int64_t	r = neg ? -(int64_t)v : (int64_t)v;
	while (i < n && white(t[i])) i++;
	return { i == n ? OK : TRAIL, r, i, i };
}

static U	blank(Gen& g) { static const U t[] = { ' ', '\t', '\n', '\r', 0xA0, 0x2003, 0x3000, 0x2028, 0x1680 }; return g.pick(t); }
static U	digit_char(Gen& g, int d)
{
	if (d > 9) return (g.coin() ? 'a' : 'A')+d-10;
	if (!g.chance(1, 10)) return '0'+d;
	std::vector<U> v; for (auto& r : char_rows) if (r.digit == d) v.push_back(r.c);
	return g.pick(v);
}

static int	run_of(Gen& g) { return g.chance(1, 200) ? g.range(3, g.chance(1, 10) ? 1000 : 70) : g.weighted({4, 1, 1}); }

static void	run(Gen& g, Ctx& c)
{
	int	radix = g.weighted({4, 3, 2, 2, 3, 1}) ;
	switch (radix) { case 0: radix = 0; break; case 1: radix = 10; break; case 2: radix = 16; break; case 3: radix = 2; break; case 4: radix = g.range(2, 36); break; default: { static const int b[] = { -1, 37, 38, 100, -36, INT_MIN, INT_MAX }; radix = g.pick(b); } }
	Text	t;
	if (g.chance(3, 4))
	{	// spell a number
		for (int n = run_of(g); n > 0; n--) t.push_back(blank(g));
		switch (g.weighted({3, 2, 1, 1})) { case 1: t.push_back('-'); break; case 2: t.push_back('+'); break; case 3: t.push_back(g.coin() ? '-' : '+'); t.push_back(blank(g)); break; default: break; }
		int	base = radix;
		if (radix == 0 || ((radix == 2 || radix == 16) && g.coin()))
			switch (g.weighted({3, 2, 2, 2}))
			{
			case 0: if (radix == 0) base = 10; break;
			case 1: t.push_back('0'); t.push_back(g.coin() ? 'x' : 'X'); base = radix ? radix : 16; break;
			case 2: t.push_back('0'); t.push_back(g.coin() ? 'b' : 'B'); base = radix ? radix : 2; break;
			case 3: t.push_back('0'); base = radix ? radix : 8; break;
			}
		if (base < 2 || base > 36) base = 10;
		unsigned __int128 v;
		switch (g.weighted({3, 4, 2, 2, 1}))
		{
		case 0: v = g.range(0, 40); break;
		case 1: v = 0x7FFFFFFFull + g.range(-3, 4); break;
		case 2: v = g.u32(); break;
		case 3:
		{	// about a power of the word size, where arithmetic wraps
			static const int sh[] = { 31, 32, 33, 62, 63, 64, 65, 66, 68 };
			v = ((unsigned __int128)1<<g.pick(sh)); v = v*g.range(1, 3) + g.range(0, 40)-20; break;
		}
		default: v = ((unsigned __int128)g.u32()<<64) | ((uint64_t)g.u32()<<32) | g.u32(); break;
		}
		Text	d;
		do { d.insert(d.begin(), digit_char(g, (int)(v%base))); v /= base; } while (v);
		if (base != 8 && g.chance(1, 8) && (radix || base != 10)) for (int n = g.range(1, g.chance(1, 20) ? 600 : 40); n > 0; n--) d.insert(d.begin(), '0');
		t.insert(t.end(), d.begin(), d.end());
		for (int n = run_of(g); n > 0; n--) t.push_back(blank(g));
		if (g.chance(1, 6)) t.push_back(g.coin() ? one_char(g) : g.range('0', '9'));
		if (t.size() && g.chance(1, 12)) t[g.raw(t.size())] = one_char(g);
		if (t.size() && g.chance(1, 12)) t.erase(t.begin()+g.raw(t.size()));
		if (t.size() > 1 && g.chance(1, 12)) t.resize(g.range(1, t.size()));
	}
	else
	{
		static const U soup[] = { ' ', '+', '-', '0', '1', '2', '7', '8', '9', 'a', 'b', 'B', 'x', 'X', 'f', 'z', 'Z', 0x660, 0x3000, '.', '\t', 0x3007, '@', '[', '`', '{', '/', ':' };
		for (int n = g.range(0, 8); n > 0; n--) t.push_back(g.pick(soup));
	}
	std::vector<StrVal> keep;
	StrVal	s = sliced(g, t, keep);
	Want	w = reference(t, radix);
	PLOG(c, "asInt32 of " << ref::show(t) << " radix " << radix << ": expect " << names[w.err] << " " << w.value);
	ErrNum	e(77, 7); StrValIndex scanned = 12345;
	int32_t	v = s.asInt32(&e, radix, &scanned);
	ErrNum	want = w.err == OK ? ErrNum() : w.err == TRAIL ? ErrNum(1, 1) : w.err == NODIGITS ? ErrNum(1, 2) : w.err == OVERFLOW_ ? ErrNum(1, 3) : w.err == NOTNUM ? ErrNum(1, 4) : ErrNum(1, 5);
	auto	what = [&]() { return "asInt32 of " + ref::show(t) + " in radix " + std::to_string(radix); };
	PCHECK(e == want, what() << " reports error " << e.set() << ":" << e.msg() << " with value " << v << "; expected " << names[w.err]);
	if (w.err == OK || w.err == TRAIL)
		PCHECK(v == w.value, what() << " is " << v << ", not " << w.value);
	PCHECK(scanned >= w.min_scanned && scanned <= w.scanned, what() << " scanned " << scanned << " characters, not " << w.scanned);
	// The optional results make no difference
	PCHECK(s.asInt32(0, radix) == v, what() << " differs without error and scanned");
	ErrNum	e2; StrValIndex sc2 = 0;
	PCHECK(s.asInt32(&e2, radix) == v && e2 == e, what() << " differs without scanned");
	PCHECK(s.asInt32(0, radix, &sc2) == v && sc2 == scanned, what() << " differs without error");
	if (radix == 0) PCHECK(s.asInt32() == v, what() << " differs by default");
	PCHECK(s.length() == t.size() && bytes(s) == ref::enc(t), what() << " changed the string");
	c.label(names[w.err]);
	if (w.err == OK ? w.value != 0 : w.err == TRAIL || w.err == OVERFLOW_) c.nontrivial = true;
}

static Property	prop()
{
	Property p;
	p.id = "C08"; p.fn = run;
	p.rule = "One string and radix. Non-trivial: it spells a number other than zero, or a number with trailing text, or one out of range.";
	return p;
}
}
#ifndef PBT_NO_MAIN
PBT_MAIN(c08::prop)
#endif
