// UTF-16: every scalar value round-trips in both byte orders, alone and in sequences
#include	"pbt.h"
#include	"refutf8.h"
#include	<char_encoding.h>
#include	<memory>

namespace c04 {
using namespace pbt;
using ref::U;

static uint16_t	swab(unsigned x) { return (uint16_t)((x % 256)*256 + x / 256); }
static std::vector<uint16_t> encode(U v, bool swap)
{
	std::vector<uint16_t> r;
	if (v < 0x10000) r.push_back(v);
	else { U w = v-0x10000; r.push_back(0xD800 + w/1024); r.push_back(0xDC00 + w%1024); }
	if (swap) for (auto& x : r) x = swab(x);
	return r;
}
static std::string show(const uint16_t* p, size_t n)
{
	std::ostringstream o;
	for (size_t i = 0; i < n; i++) { char b[8]; snprintf(b, sizeof b, "%04X ", p[i]); o << b; }
	return o.str();
}

static U	scalar(Gen& g)
{
	U	v;
	switch (g.weighted({2, 3, 3, 3}))
	{
	case 0: v = g.raw(0x100); break;
	case 1: v = g.raw(0x10000); break;
	case 2: v = 0x10000 + g.raw(0x100000); break;
	default: { static const U e[] = { 0, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x103FF, 0x10400, 0x1FFFF, 0x20000, 0xFFFFF, 0x100000, 0x10FFFF, 0x10FC00, 0xFFFD }; v = g.pick(e); }
	}
	if (v >= 0xD800 && v < 0xE000) v -= 0x1000;
	return v;
}

static void	run(Gen& g, Ctx& c)
{
	switch (g.weighted({3, 3, 1}))
	{
	case 0:
	{
		U	base = g.raw(0x110000/64)*64;
		bool	swap = g.coin();
		PLOG(c, "scalar values " << ref::hex(base) << " .. +63" << (swap ? " swapped" : ""));
		c.label("block of values");
		for (U v = base; v < base+64; v++)
		{
			if (v >= 0xD800 && v < 0xE000) continue;
			std::vector<uint16_t> want = encode(v, swap);
			uint16_t buf[6] = { 0x5555, 0x5555, 0x5555, 0x5555, 0x5555, 0x5555 };
			UTF16*	op = buf+1;
			UTF16Put(op, (UCS4)v, swap);
			PCHECK((size_t)(op-buf-1) == want.size() && !memcmp(buf+1, want.data(), want.size()*2) && buf[0] == 0x5555 && buf[1+want.size()] == 0x5555,
				"UTF16Put(" << ref::hex(v) << ", " << swap << ") wrote " << show(buf+1, op-buf-1) << "expected " << show(want.data(), want.size()));
			PCHECK(UTF16Len((UCS4)v) == (int)want.size(), "UTF16Len(" << ref::hex(v) << ") is " << UTF16Len((UCS4)v));
			PCHECK(UTF16Len((const UTF16*)buf+1, swap) == (int)want.size(), "UTF16Len of the first unit of " << ref::hex(v) << " is " << UTF16Len((const UTF16*)buf+1, swap));
			const UTF16* cp = buf+1;
			U	got = UTF16Get(cp, swap);
			PCHECK(got == v && cp == op, "UTF16Get of " << ref::hex(v) << " gave " << ref::hex(got) << " consuming " << cp-buf-1);
			if (!swap)
			{			// Saying nothing about the byte order means the native order
				uint16_t nat[2] = { 0, 0 };
				UTF16* np = nat;
				UTF16Put(np, (UCS4)v);
				PCHECK((size_t)(np-nat) == want.size() && !memcmp(nat, want.data(), want.size()*2), "UTF16Put(" << ref::hex(v) << ") wrote " << show(nat, np-nat) << "expected " << show(want.data(), want.size()));
				PCHECK(UTF16Len((const UTF16*)nat) == (int)want.size(), "UTF16Len of the first native unit of " << ref::hex(v) << " is " << UTF16Len((const UTF16*)nat));
				const UTF16* nc = nat;
				U	back = UTF16Get(nc);
				PCHECK(back == v && nc == np, "UTF16Get of native " << ref::hex(v) << " gave " << ref::hex(back) << " consuming " << nc-nat);
			}
			if (v >= 0x10000)
			{
				PCHECK(UCS4HighSurrogate((UCS4)v) == 0xD800 + (v-0x10000)/1024, "UCS4HighSurrogate(" << ref::hex(v) << ")");
				PCHECK(UCS4LowSurrogate((UCS4)v) == 0xDC00 + v%1024, "UCS4LowSurrogate(" << ref::hex(v) << ")");
			}
			PCHECK(UCS4IsUTF16((UCS4)v) == (v < 0x10000), "UCS4IsUTF16(" << ref::hex(v) << ")");
			c.nontrivial = true;
		}
		break;
	}
	case 1:
	{
		bool	swap = g.coin();
		int	n = g.range(0, 20);
		std::vector<U> vals; std::vector<uint16_t> want;
		for (int i = 0; i < n; i++)
		{
			U v = scalar(g);
			vals.push_back(v);
			for (uint16_t u : encode(v, swap)) want.push_back(u);
		}
		if (c.verbose) { std::ostringstream o; for (U v : vals) o << ' ' << ref::hex(v); PLOG(c, "sequence" << (swap ? " (swapped)" : "") << o.str()); }
		std::unique_ptr<uint16_t[]> buf(new uint16_t[want.size()]);	// exact size
		UTF16*	op = buf.get();
		for (U v : vals) UTF16Put(op, (UCS4)v, swap);
		PCHECK((size_t)(op-buf.get()) == want.size(), "sequence took " << op-buf.get() << " units, expected " << want.size());
		PCHECK(!memcmp(buf.get(), want.data(), want.size()*2), "sequence encoded as " << show(buf.get(), want.size()) << "expected " << show(want.data(), want.size()));
		const UTF16* cp = buf.get();
		for (size_t i = 0; i < vals.size(); i++)
		{
			const UTF16* at = cp;
			int l = UTF16Len(cp, swap);
			U got = UTF16Get(cp, swap);
			PCHECK(got == vals[i], "element " << i << " decoded as " << ref::hex(got) << ", expected " << ref::hex(vals[i]));
			PCHECK(cp-at == l, "UTF16Len " << l << " but " << cp-at << " units consumed");
		}
		PCHECK(cp == op, "decoding did not end where encoding did");
		c.label("sequence");
		c.nontrivial |= n > 1;
		break;
	}
	case 2:
	{
		unsigned base = g.raw(1024)*64;
		PLOG(c, "classify units " << std::hex << base << " .. +63");
		for (unsigned u = base; u < base+64; u++)
		{
			bool hi = u >= 0xD800 && u <= 0xDBFF, lo = u >= 0xDC00 && u <= 0xDFFF;
			PCHECK(UTF16IsSurrogate(u) == (hi || lo), "UTF16IsSurrogate(" << ref::hex(u) << ")");
			PCHECK(UTF16Is1st(u) == hi, "UTF16Is1st(" << ref::hex(u) << ")");
			PCHECK(UTF16Is2nd(u) == lo, "UTF16Is2nd(" << ref::hex(u) << ")");
			PCHECK(UTF16Swab(u) == swab(u), "UTF16Swab(" << ref::hex(u) << ")");
			UTF16 one = u, other = swab(u);
			PCHECK(UTF16Len(&one) == (hi ? 2 : 1), "UTF16Len of unit " << ref::hex(u));
			PCHECK(UTF16Len(&other, true) == (hi ? 2 : 1), "UTF16Len of swapped unit " << ref::hex(u));
		}
		c.label("unit classes");
		c.nontrivial = true;
		break;
	}
	}
}

static Property	prop()
{
	Property p;
	p.id = "C04"; p.fn = run;
	p.rule = "Blocks of 64 consecutive scalar values, sequences of up to 20 scalar values in exact-size buffers, and blocks of 64 units to classify; native and swapped order; against independent arithmetic. Non-trivial: at least one scalar value or unit block was checked, or the sequence has two or more characters.";
	return p;
}
}
#ifndef PBT_NO_MAIN
PBT_MAIN(c04::prop)
#endif
