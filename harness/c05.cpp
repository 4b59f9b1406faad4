// Character classification and case mapping, in every order of asking
#include	"pbt.h"
#include	"refutf8.h"
#include	"c05_ref.h"
#include	<char_encoding.h>
#include	<thread>
#include	<atomic>

namespace c05 {
using namespace pbt;
using ref::U;

static const int num_rows = sizeof(char_rows)/sizeof(char_rows[0]);
static std::vector<uint16_t>& index_()
{
	static std::vector<uint16_t> ix;
	if (ix.empty())
	{
		std::vector<uint16_t> t(0x10000, 0);
		for (int i = 0; i < num_rows; i++) t[char_rows[i].c] = i+1;
		ix = t;
	}
	return ix;
}
static const CharRow* row(U v) { if (v >= 0x10000) return 0; int i = index_()[v]; return i ? &char_rows[i-1] : 0; }

enum { UP, LO, TI, DI, HEX, AL, WH, OV, NOPS };
static const char* op_names[] = { "UCS4ToUpper", "UCS4ToLower", "UCS4ToTitle", "UCS4Digit", "UCS4HexDigit", "UCS4IsAlphabetic", "UCS4IsWhite/ASCII/Latin1/Unicode", "ctype overloads" };

static bool white(U v)
{
	return v == 0x20 || v == 9 || v == 10 || v == 13 || v == 0xA0 || (v >= 0x2000 && v <= 0x200B) || v == 0x2028 || v == 0x2029 || v == 0x3000;
}

// Returns an error or an empty string
static const char* check(U v, int op, int64_t& got, int64_t& want)
{
	const CharRow* r = row(v);
	switch (op)
	{
	case UP: got = UCS4ToUpper((UCS4)v); want = r ? r->up : v; break;
	case LO: got = UCS4ToLower((UCS4)v); want = r ? r->lo : v; break;
	case TI: got = UCS4ToTitle((UCS4)v); want = r ? r->ti : v; break;
	case DI: got = UCS4Digit((UCS4)v); want = r ? r->digit : -1; break;
	case HEX: got = UCS4HexDigit((UCS4)v);
		want = r && r->digit >= 0 ? r->digit : v >= 'a' && v <= 'f' ? (int)(v-'a'+10) : v >= 'A' && v <= 'F' ? (int)(v-'A'+10) : -1; break;
	case AL: got = UCS4IsAlphabetic((UCS4)v); want = r ? r->alpha : 0; break;
	case WH:
		got = UCS4IsWhite((UCS4)v) | UCS4IsASCII((UCS4)v) << 1 | UCS4IsASCIIPrintable((UCS4)v) << 2 | UCS4IsLatin1((UCS4)v) << 3 | UCS4IsUnicode((UCS4)v) << 4
			| UCS4IsDecimal((UCS4)v) << 5;
		want = white(v) | (v < 0x80) << 1 | (v >= 0x20 && v < 0x7F) << 2 | (v < 0x100) << 3 | (v <= 0x10FFFF) << 4 | (r && r->digit >= 0) << 5;
		got = got*100 + ASCIIDigit((UCS4)v); want = want*100 + (v >= '0' && v <= '9' ? (int)(v-'0') : -1);
		break;
	case OV:
	{
		int	alpha = r ? r->alpha : 0, digit = r && r->digit >= 0;
		got = isalpha((UCS4)v) | isdigit((UCS4)v) << 1 | isalnum((UCS4)v) << 2 | isspace((UCS4)v) << 3;
		want = alpha | digit << 1 | (alpha || digit) << 2 | white(v) << 3;
		got = (got << 32) + toupper((UCS4)v) ; want = (want << 32) + (r ? r->up : v);
		got += (int64_t)tolower((UCS4)v)*7; want += (int64_t)(r ? r->lo : v)*7;
		break;
	}
	}
	return got == want ? 0 : op_names[op];
}
static void	ask(U v, int op)
{
	int64_t	got, want;
	const char* e = check(v, op, got, want);
	PCHECK(!e, e << "(" << ref::hex(v) << ") gave " << got << " (0x" << std::hex << got << "), expected " << std::dec << want << " (0x" << std::hex << want << ")");
}

static U	any_char(Gen& g)
{
	switch (g.weighted({2, 8, 3, 2, 1, 1}))
	{
	case 0: return g.raw(0x80);
	case 1: return char_rows[g.raw(num_rows)].c + g.range(-2, 2);		// a listed character or a neighbour
	case 2: return g.raw(0x3100);
	case 3: return g.raw(0x10000);
	case 4: return g.range(0x10000, 0x10FFFF);
	// values whose low 16 bits hit the tables, and extremes
	default: { U hi = g.coin() ? 0x10000*g.range(1, 0x10) : g.u32() & 0xFFFF0000u; return hi + (g.coin() ? char_rows[g.raw(num_rows)].c : g.raw(0x10000)); }
	}
}

static void	run(Gen& g, Ctx& c)
{
	switch (g.weighted({60, 20, 1}))
	{
	case 0:
	{
		int	n = g.range(1, 40);
		c.label("history of queries");
		U	last = 0;
		for (int i = 0; i < n; i++)
		{
			U	v = i && g.coin() ? last + g.range(-34, 34) : any_char(g);
			int	op = g.raw(NOPS);
			PLOG(c, op_names[op] << "(" << ref::hex(v) << ")");
			ask(v, op);
			last = v;
			if (row(v)) c.nontrivial = true;
		}
		break;
	}
	case 1:
	{
		U	base = g.raw(0x110000/128)*128;
		if (g.coin()) base %= 0x3100;
		int	first = g.raw(NOPS);
		bool	down = g.coin();
		PLOG(c, "all queries on " << ref::hex(base) << " .. +127" << (down ? " downwards" : ""));
		c.label("block of characters");
		for (int o = 0; o < NOPS; o++)
			for (int i = 0; i < 128; i++)
				ask(base + (down ? 127-i : i), (first+o) % NOPS);
		c.nontrivial = true;
		break;
	}
	case 2:
	{
		// Threads asking about characters of different ranges, so that the memo is changing all the time
		int	op = g.weighted({2, 2, 2, 2, 1, 1});
		uint64_t seed = g.u32();
		PLOG(c, "[threads] 4 threads call " << op_names[op]);
		c.label("concurrent queries");
		std::atomic<int> bad(0); std::atomic<uint64_t> bv(0); std::atomic<bool> go(false);
		std::vector<std::thread> t;
		for (int k = 0; k < 4; k++)
			t.emplace_back([&, k]() {
				uint64_t r = seed*4+k;
				while (!go) {}
				for (int i = 0; i < 4000 && !bad; i++)
				{
					r = mix64(r+i);
					U v = (r & 1) ? char_rows[(r>>8) % num_rows].c : "ab09\xE0"[(r>>8) % 5] & 0xFF;
					int64_t got, want;
					if (check(v, op, got, want)) { bv = v; bad = 1; }
				}
			});
		go = true;
		for (auto& x : t) x.join();
		PCHECK(!bad, "[threads] " << op_names[op] << "(" << ref::hex(bv) << ") was wrong while other threads were asking too");
		c.nontrivial = true;
		break;
	}
	}
}

static Property	prop()
{
	Property p;
	p.id = "C05"; p.fn = run;
	p.rule = "Histories of 1 to 40 queries over listed characters, their neighbours and characters of all planes; blocks of 128 consecutive characters asked upwards or downwards; and four threads asking at once; against tables cross-checked with Java's Unicode data. Non-trivial: a listed character was asked about, or a block or thread run.";
	return p;
}
}
#ifndef PBT_NO_MAIN
PBT_MAIN(c05::prop)
#endif
