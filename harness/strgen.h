#pragma once
// Generated text: vectors of UCS4 and the matching StrVal, for the drivers that work on strings
#include	"pbt.h"
#include	"refutf8.h"
#include	<strval.h>
#include	<memory>

namespace strgen {
using namespace pbt;
using ref::U;
typedef std::vector<U> Text;

enum { NUL = 1, STRAY = 2, WIDE = 4, ASCII_ONLY = 8 };

// One character. Stray continuation bytes are the only illegal bytes: a fragment that could combine with its
// neighbours when strings are joined would change the number of characters, by design.
inline U one_char(Gen& g, int flags = STRAY|WIDE)
{
	if (flags & ASCII_ONLY) return g.range('a', 'f');
	switch (g.weighted({8, 4, 3, 3, 3, flags&WIDE ? 1 : 0, flags&STRAY ? 2 : 0, flags&NUL ? 1 : 0}))
	{
	case 0: return g.range('a', 'f');
	case 1: return g.range(0x20, 0x7E);
	case 2: { static const U t[] = { 0xE9, 0xDF, 0x100, 0x3B1, 0x7FF, 0x80, 0xFF }; return g.pick(t); }
	case 3: { static const U t[] = { 0x800, 0x20AC, 0x4E2D, 0xFFFD, 0xD7FF, 0x1E9E }; return g.pick(t); }
	case 4: { static const U t[] = { 0x10000, 0x1F600, 0x10FFFF, 0x20000 }; return g.pick(t); }
	case 5: { static const U t[] = { 0x110000, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x4000000, 0x7FFFFFFF, 0x80000100 }; return g.pick(t); }
	case 6: return 0x80000080u + g.raw(0x40);
	default: return 0;
	}
}
inline Text	text(Gen& g, int max, int flags = STRAY|WIDE)
{
	Text	t;
	int	n = g.range(0, max);
	if (g.chance(1, 4)) flags = ASCII_ONLY;		// the library has fast paths for ASCII
	for (int i = 0; i < n; i++) t.push_back(one_char(g, flags));
	return t;
}
// A text of very many characters, made of a few that are repeated with a few others thrown in
inline Text	long_text(Gen& g, int max, int flags = STRAY|WIDE)
{
	static const int edge[] = {127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 16384, 32767, 32768, 32769, 65527, 65534, 65535, 65536, 65537};
	int	n = g.coin() ? edge[g.raw(sizeof(edge)/sizeof(edge[0]))] : g.range(100, 6000);
	if (n > max) n = max;
	if (g.coin()) flags = ASCII_ONLY;
	Text	unit, t;
	int	u = g.range(1, 6);
	for (int i = 0; i < u; i++) unit.push_back(one_char(g, flags));
	for (int i = 0; i < n; i++) t.push_back(unit[(i + i/31) % u]);
	for (int k = g.range(0, 4); k && n; k--) t[g.range(0, n-1)] = one_char(g, flags);
	return t;
}
inline bool	has_nul(const Text& t) { return std::find(t.begin(), t.end(), 0u) != t.end(); }
inline std::string bytes(StrVal s) { StrValIndex n; const char* p = s.asUTF8(n); return std::string(p, n); }
// A StrVal for the text (in storage of exactly its size)
inline StrVal	val(const Text& t) { std::string s = ref::enc(t); return s.empty() ? StrVal() : StrVal(s.data(), (StrValIndex)s.size()); }
inline Text	sub(const Text& t, size_t at, size_t len) { if (at >= t.size()) return Text(); return Text(t.begin()+at, t.begin()+std::min(t.size(), at+len)); }

// A StrVal that holds t as a slice of storage that may go on before and after it, sometimes shared with keep
inline StrVal	sliced(Gen& g, const Text& t, std::vector<StrVal>& keep, int flags = STRAY|WIDE)
{
	if (t.empty() || g.chance(1, 3)) return val(t);
	Text	pre = text(g, 3, flags), post = text(g, 4, flags), all = pre;
	all.insert(all.end(), t.begin(), t.end()); all.insert(all.end(), post.begin(), post.end());
	StrVal	whole = val(all);
	if (g.coin()) keep.push_back(whole);
	StrVal	r;
	r = whole.substr(pre.size(), t.size());
	return r;
}
// A count or position that is within reach, or far beyond
static inline int	beyond(Gen& g, int lo, int hi)
{
	static const int far[] = { 0x7FFFFFFF, 0x7FFFFFFE, 0x7FFFFFF0, 0x40000000, 0x10000, 0xFFFF, 256, 1000 };
	return g.chance(1, 10) ? far[g.raw(sizeof far/sizeof *far)] : g.range(lo, hi);
}
}
