// Scanning a string takes time in proportion to its length.
// The same scan is timed over a text and over one 16 times as long, made of the same characters.
#include	"strgen.h"
#include	<char_encoding.h>

namespace c28 {
using namespace strgen;

static double	cpu_now() { struct timespec ts; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &ts); return ts.tv_sec + ts.tv_nsec*1e-9; }
static U	scan_char(Gen& g) { static const U t[] = { 'a', 'z', 0xE9, 0x3B1, 0x7FF, 0x20AC, 0x4E2D, 0x1F600, 0x10FFFF, 0x80000080u+5 }; return g.pick(t); }
static volatile uint32_t sink;

enum { Find, RFind, FindStr, RFindStr, FindAny, RFindAny, FindNot, RFindNot, Up, Down, ToAndFro, Pairs, Compare, Words, Measure, NumKinds };
static const char* names[] = { "find", "rfind", "find a string", "rfind a string", "findAny", "rfindAny", "findNot", "rfindNot",
	"indexing upwards", "indexing downwards", "indexing upwards then downwards", "indexing neighbours", "compare", "taking the words", "measuring" };

struct Scan
{
	int	kind, step; size_t lead, trail;		// the text scanned is a slice without the first lead and the last trail characters
	StrVal	absent, set, others;	// Not in the text; a set that misses it; a set of all that is in it
	UCS4	ch;
	StrVal	sep;
	double	run(StrVal whole, Ctx& c)
	{
		StrVal	s = whole.substr(lead, whole.length()-lead-trail);
		StrVal	again(s);
		int	n = s.length(), r = 0; uint32_t sum = 0;
		double	b = cpu_now();
		switch (kind)
		{
		case Find: r = s.find(ch); break;
		case RFind: r = s.rfind(ch); break;
		case FindStr: r = s.find(absent); break;
		case RFindStr: r = s.rfind(absent); break;
		case FindAny: r = s.findAny(set); break;
		case RFindAny: r = s.rfindAny(set); break;
		case FindNot: r = s.findNot(others); break;
		case RFindNot: r = s.rfindNot(others); break;
		case Up: for (int i = 0; i < n; i += step) sum += s[i]; break;
		case Down: for (int i = n-1; i >= 0; i -= step) sum += s[i]; break;
		case ToAndFro: for (int i = 0; i < n; i += step) sum += s[i]; for (int i = n-1; i >= 0; i -= step) sum += s[i]; break;
		case Pairs: for (int i = 0; i+1 < n; i += step) sum += s[i+1] ^ s[i]; break;
		case Compare: r = s.compare(again) - 1; break;
		case Words: // Every piece between the few separators
			for (int from = 0, at; ; from = at+1) { at = s.find(sep, from-1); StrVal w = s.substr(from, at < 0 ? -1 : at-from); sum += w.length(); if (at < 0) break; } r = -1; break;
		case Measure: sum += s.numBytes(); sum += s.length(); break;
		}
		sink = sum;
		double	took = cpu_now()-b;
		if (kind < Up) PCHECK(r == -1, names[kind] << " found what is not there at " << r << " of " << n);
		return took;
	}
};

static void	prop(Gen& g, Ctx& c)
{
	Scan	s; s.kind = g.raw(NumKinds); s.step = g.chance(1, 3) ? g.range(1, 7) : 1;
	static const size_t cuts[] = { 0, 0, 1, 3, 100, 1000 };
	s.lead = g.pick(cuts); s.trail = g.pick(cuts);
	int	nu = g.range(1, 6);
	Text	unit; for (int i = 0; i < nu; i++) unit.push_back(scan_char(g));
	bool	wide = false; for (U u : unit) wide |= u >= 0x80;
	Text	absent(unit), set, all(unit);
	s.ch = g.coin() ? 0x1E9E : 'q';		// not one of those that scan_char makes
	set.push_back(s.ch); for (int i = g.range(0, 3); i > 0; i--) set.push_back(0x410+i);
	if (g.coin()) absent.push_back(s.ch); else absent = Text(1, s.ch);
	if (absent.size() > 3) absent.erase(absent.begin(), absent.end()-3);
	s.absent = val(absent); s.set = val(set); s.others = val(all); s.sep = val(Text(1, ';'));
	int	words = s.kind == Words ? g.range(2, 6) : 0;
	PLOG(c, names[s.kind] << (s.step > 1 ? " with steps" : "") << " over long texts of " << ref::show(ref::enc(unit)) << ", without the first " << s.lead << " and the last " << s.trail);
	enum { Small = 4000, Times = 16 };
	StrVal	text[2];
	for (int i = 0; i < 2; i++)
	{
		Text	t; size_t n = s.lead + s.trail + (i ? Small*Times : Small); t.reserve(n);
		for (size_t k = 0; k < n; k++) t.push_back(words && k % (n/words) == n/words-1 ? ';' : unit[k % nu]);
		text[i] = val(t);
	}
	double	ratio = 0, began = cpu_now();
	for (int attempt = 0; attempt < 8 && cpu_now()-began < 5; attempt++)
	{
		double	took[2] = { 1e9, 1e9 };
		for (int k = 0; k < 3; k++) took[0] = std::min(took[0], s.run(text[0], c));
		took[1] = s.run(text[1], c);
		// A time below 30 us is not told from that
		ratio = took[1]/std::max(took[0], 3e-5);
		if (ratio < Times*5) { c.label(names[s.kind]); if (wide) { c.label("with characters of several bytes"); c.nontrivial = true; } return; }
	}
	PFAIL(names[s.kind] << " takes " << ratio << " times as long over " << (int)Times << " times the text");
}
static Property	property()
{
	Property p; p.id = "C28"; p.fn = prop; p.cpu_limit_s = 30;
	p.rule = "A scan of a text of 4,000 and one of 64,000 characters, not all of them ASCII, was timed";
	return p;
}
}
PBT_MAIN(c28::property)
