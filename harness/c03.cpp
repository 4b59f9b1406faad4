// UTF-8: every 32-bit character round-trips; any byte string decodes and backs up consistently
#include	"pbt.h"
#include	"refutf8.h"
#include	<char_encoding.h>
#include	<memory>

namespace c03 {
using namespace pbt;
using ref::U;

// One character value: encode, measure, decode, peek, back up
static void	check_value(U v, Ctx& c)
{
	if (v == 0xFFFFFFFFu) return;			// UCS4_NONE marks "no character"
	std::string	want = ref::encode(v);
	char		buf[16]; memset(buf, 0x55, sizeof buf);
	char*		op = buf+1;
	UTF8Put(op, (UCS4)v);
	PCHECK(op-(buf+1) == (long)want.size() && !memcmp(buf+1, want.data(), want.size()),
		"UTF8Put(" << ref::hex(v) << ") wrote " << ref::show(std::string(buf+1, op)) << ", expected " << ref::show(want));
	PCHECK(buf[0] == 0x55 && buf[1+want.size()] == 0x55, "UTF8Put(" << ref::hex(v) << ") wrote outside its bytes");
	PCHECK(UTF8Len((UCS4)v) == (int)want.size(), "UTF8Len(" << ref::hex(v) << ") = " << UTF8Len((UCS4)v) << ", expected " << want.size());
	if (ref::is_escape(v))
	{
		PCHECK(UCS4IsIllegal((UCS4)v), "UCS4IsIllegal(" << ref::hex(v) << ") is false");
		if ((v & 0xFF) < 0x80) return;		// encodes as an ordinary ASCII byte
		*op = 0;
		const char* cp = buf+1;
		U	got = UTF8Get(cp);
		PCHECK(got == v && cp == buf+2, "illegal byte " << ref::hex(v) << " decoded to " << ref::hex(got) << " consuming " << cp-buf-1);
		return;
	}
	PCHECK(!UCS4IsIllegal((UCS4)v), "UCS4IsIllegal(" << ref::hex(v) << ") is true");
	*op = 0;
	const char*	cp = buf+1;
	PCHECK((U)UTF8Peek(cp) == v && cp == buf+1, "UTF8Peek at " << ref::hex(v) << " is wrong or moves");
	U	got = UTF8Get(cp);
	PCHECK(got == v && cp == op, "UTF8Get of the encoding of " << ref::hex(v) << " gave " << ref::hex(got) << " consuming " << cp-buf-1 << " of " << want.size());
	PCHECK(UTF8Len((const char*)buf+1) == (int)want.size(), "UTF8Len at the encoding of " << ref::hex(v));
	PCHECK(UTF8CorrectLen(buf[1]) == (int)want.size(), "UTF8CorrectLen of the lead byte of " << ref::hex(v) << " is " << UTF8CorrectLen(buf[1]));
	PCHECK(UTF8Backup(op, buf+1) == buf+1, "UTF8Backup over " << ref::hex(v) << " gave offset " << UTF8Backup(op, buf+1)-buf-1);
	for (size_t i = 0; i < want.size(); i++)
		PCHECK(UTF8Is1st(buf[1+i]) == (i == 0) && UTF8Is2nd(buf[1+i]) == (i != 0), "UTF8Is1st/2nd wrong within " << ref::hex(v));
	c.nontrivial = true;
}

static U	any_value(Gen& g)
{
	switch (g.weighted({3, 3, 3, 3, 2, 2, 1, 2, 1}))
	{
	case 0: return g.raw(0x80);
	case 1: return g.range(0x80, 0x7FF);
	case 2: return g.range(0x800, 0xFFFF);
	case 3: return g.range(0x10000, 0x10FFFF);
	case 4: return g.range(0x110000, 0x1FFFFF);
	case 5: return g.range(0x200000, 0x3FFFFFF);
	case 6: return g.range(0x4000000, 0x7FFFFFFF);
	case 7: { static const U edge[] = { 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x4000000, 0x7FFFFFFF, 0x80000100, 0xFFFFFFFE, 0xD800, 0xDFFF, 0xFFFD }; return edge[g.raw(16)]; }
	default: { U v = g.u32(); return ref::is_escape(v) || v == 0xFFFFFFFFu ? 0x41 : v; }
	}
}

static unsigned char	any_byte(Gen& g)
{
	switch (g.weighted({3, 4, 2, 2, 2, 1, 1, 1}))
	{
	case 0: return g.range('a', 'd');
	case 1: return g.range(0x80, 0xBF);
	case 2: return g.range(0xC0, 0xDF);
	case 3: return g.range(0xE0, 0xEF);
	case 4: return g.range(0xF0, 0xF7);
	case 5: return g.range(0xF8, 0xFB);
	case 6: return g.range(0xFC, 0xFF);
	default: return g.range(1, 0x7F);
	}
}

static void	run(Gen& g, Ctx& c)
{
	switch (g.weighted({4, 6, 2, 1}))
	{
	case 0:		// a block of consecutive characters
	{
		U	base;
		if (g.coin()) base = g.raw(0x110000/64)*64;
		else base = any_value(g);
		PLOG(c, "values " << ref::hex(base) << " .. +63: encode, measure, decode, back up");
		c.label("block of values");
		for (U i = 0; i < 64; i++) check_value(base+i, c);
		break;
	}
	case 1:		// arbitrary bytes: legal characters, truncated ones, stray bytes
	{
		std::string s;
		int	n = g.range(0, 24);
		for (int i = 0; i < n; i++)
			switch (g.weighted({3, 3, 2}))
			{
			case 0: s += (char)any_byte(g); break;
			case 1: { U v = any_value(g); if (v == 0) v = 'z'; s += ref::encode(v); break; }
			case 2: { U v = any_value(g); std::string e = ref::encode(v ? v : 0x80); s += e.substr(0, g.range(1, e.size())); break; }
			}
		PLOG(c, "decode the bytes " << ref::show(s));
		c.label("byte string");
		// exact-sized copy: reading past the NUL is an error
		std::unique_ptr<char[]> mem(new char[s.size()+1]);
		memcpy(mem.get(), s.c_str(), s.size()+1);
		const char*	start = mem.get();
		const char*	end = start+s.size();
		const char*	cp = start;
		std::vector<const char*> bounds(1, start);
		std::string	again, canon;
		bool		illegal = false, overlong = false;
		while (cp < end)
		{
			ref::Step	want = ref::decode((const unsigned char*)cp);
			const char*	at = cp;
			PCHECK((U)UTF8Peek(at) == want.value && at == cp, "UTF8Peek at offset " << cp-start);
			int		l = UTF8Len(cp);
			PCHECK(l == want.len, "UTF8Len at offset " << cp-start << " is " << l << ", expected " << want.len);
			U		got = UTF8Get(cp);
			PCHECK(got == want.value, "UTF8Get at offset " << at-start << " gave " << ref::hex(got) << ", expected " << ref::hex(want.value));
			PCHECK(cp-at == want.len, "UTF8Get at offset " << at-start << " consumed " << cp-at << ", expected " << want.len);
			PCHECK(UCS4IsIllegal((UCS4)got) == (ref::is_escape(got) || got == 0xFFFFFFFFu), "UCS4IsIllegal(" << ref::hex(got) << ")");
			if (ref::is_escape(got) && want.len == 1)
			{
				illegal = true;
				PCHECK((U)UTF8EncodeIllegal(*at) == got, "UTF8EncodeIllegal disagrees with UTF8Get");
			}
			std::string e = ref::encode(want.value);
			if ((int)e.size() != want.len) overlong = true;
			char	b[8]; char* op = b; UTF8Put(op, (UCS4)got);
			again += std::string(b, op); canon += e;
			bounds.push_back(cp);
		}
		PCHECK(cp == end, "decoding ran past the end");
		PCHECK(again == canon, "re-encoding what was decoded gave " << ref::show(again) << ", expected " << ref::show(canon));
		if (!overlong) PCHECK(again == s, "round trip of bytes gave " << ref::show(again));
		// Backing up from every boundary reaches the boundary before it
		for (size_t i = bounds.size()-1; i > 0; i--)
		{
			const char* b = UTF8Backup(bounds[i], start);
			PCHECK(b == bounds[i-1], "UTF8Backup from offset " << bounds[i]-start << " went to " << (b ? b-start : -1) << ", going forward the previous character started at " << bounds[i-1]-start);
			if (bounds[i]-start >= 6)
			{
				b = UTF8Backup(bounds[i]);
				PCHECK(b == bounds[i-1], "UTF8Backup without a limit from offset " << bounds[i]-start << " went to " << (b ? b-start : -1));
			}
		}
		PCHECK(UTF8Backup(start, start) == 0, "UTF8Backup at the limit did not return null");
		if (illegal) { c.label("with illegal bytes"); }
		if (overlong) c.label("with overlong sequences");
		c.nontrivial |= bounds.size() > 2;
		break;
	}
	case 2:		// the limit is never crossed
	{
		std::string s;
		int	n = g.range(1, 5);
		for (int i = 0; i < n; i++) { U v = any_value(g); s += ref::encode(v ? v : 'q'); }
		std::unique_ptr<char[]> mem(new char[s.size()+1]);
		memcpy(mem.get(), s.c_str(), s.size()+1);
		int	from = g.range(0, s.size()), lim = g.range(0, from);
		PLOG(c, "bytes " << ref::show(s) << ": back up from offset " << from << " with limit " << lim);
		const char* b = UTF8Backup(mem.get()+from, mem.get()+lim);
		if (from == lim) PCHECK(b == 0, "UTF8Backup at its limit returned non-null");
		else PCHECK(b >= mem.get()+lim && b < mem.get()+from, "UTF8Backup left [limit, cp): offset " << b-mem.get());
		c.label("limited backup");
		c.nontrivial = true;
		break;
	}
	case 3:		// padded zero
	{
		int	len = g.range(0, 6);
		char	buf[10]; memset(buf, 0x55, sizeof buf);
		char*	op = buf+1;
		PLOG(c, "UTF8PutPaddedZero length " << len);
		UTF8PutPaddedZero(op, len);
		int	want = len < 1 ? 1 : len;
		PCHECK(op-buf-1 == want, "UTF8PutPaddedZero(" << len << ") wrote " << op-buf-1 << " bytes");
		PCHECK(buf[0] == 0x55 && buf[1+want] == 0x55, "UTF8PutPaddedZero wrote outside");
		*op = 'x';
		const char* cp = buf+1;
		U	v = UTF8Get(cp);
		PCHECK(v == 0 && cp == op, "UTF8PutPaddedZero(" << len << ") decodes as " << ref::hex(v) << " in " << cp-buf-1 << " bytes, expected zero in " << want);
		c.label("padded zero");
		c.nontrivial = true;
		break;
	}
	}
}

static Property	prop()
{
	Property p;
	p.id = "C03"; p.fn = run;
	p.rule = "Blocks of 64 consecutive UCS4 values (all magnitudes, boundary values), byte strings of up to 24 legal, truncated or stray pieces in exact-size heap blocks, limited backups and padded zeroes, against an independent encoder/decoder. Non-trivial: at least one non-marker value was round-tripped, or the byte string has two or more characters.";
	return p;
}
}
#ifndef PBT_NO_MAIN
PBT_MAIN(c03::prop)
#endif
