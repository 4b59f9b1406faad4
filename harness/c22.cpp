// Guarded character pointers against positions in a vector of characters
#include	"strgen.h"
#include	<char_ptr.h>
#include	<utf8_ptr.h>
#include	<climits>

namespace c22 {
using namespace strgen;

template<class P> struct Kind;
template<> struct Kind<NulGuardedCharPtr> { enum { utf8 = 0, origin = 0 }; static const char* name() { return "NulGuardedCharPtr"; } };
template<> struct Kind<GuardedCharPtr> { enum { utf8 = 0, origin = 1 }; static const char* name() { return "GuardedCharPtr"; } };
template<> struct Kind<NulGuardedUTF8Ptr> { enum { utf8 = 1, origin = 0 }; static const char* name() { return "NulGuardedUTF8Ptr"; } };
template<> struct Kind<GuardedUTF8Ptr> { enum { utf8 = 1, origin = 1 }; static const char* name() { return "GuardedUTF8Ptr"; } };

template<class P, bool O> struct Bot { static int at(P&) { return -1; } };
template<class P> struct Bot<P, true> { static int at(P& p) { return p.at_bot(); } };
template<class P, bool U8> struct Chars
{
	static U	get(P& p) { return (unsigned char)*p; }
	static int	len(P& p) { return 1; }
};
template<class P> struct Chars<P, true>
{
	static U	get(P& p) { return *p; }
	static int	len(P& p) { PCHECK(p.is1st() == P::is1st((const char*)p), "is1st"); return p.len(); }
};

static std::string shown(const std::string& s) { return ref::show(s.size() > 300 ? s.substr(0, 60)+"..." : s); }
static std::string raw_text(Gen& g)
{
	std::string s;
	for (int n = g.chance(1, 150) ? g.range(8, g.chance(1, 8) ? 70000 : 700) : g.range(0, 8); n > 0; n--)
		switch (g.weighted({4, 3, 2, 2, 1}))
		{
		case 0: s += (char)g.range('a', 'f'); break;
		case 1: s += ref::encode(one_char(g)); break;
		case 2: s += (char)g.range(0x80, 0xBF); break;		// a continuation byte on its own, perhaps
		case 3: s += (char)g.range(0xC0, 0xFF); break;		// a lead byte which may want more than there is
		case 4: { static const char* z[] = { "\xC0\x80", "\xE0\x80\x80", "\xF0\x80\x80\x80", "\xC1\x81" }; s += g.pick(z); break; }	// padded
		}
	return s;
}

template<class P> static void test(Gen& g, Ctx& c)
{
	typedef Kind<P> K;
	std::string s = raw_text(g);
	int	pre = K::origin ? 0 : 8;	// only a pointer that knows its start may be asked to go before it
	std::vector<char> buf(pre+s.size()+1);
	memset(buf.data(), 'p', pre); memcpy(buf.data()+pre, s.c_str(), s.size()+1);
	const char* text = buf.data()+pre;
	std::vector<int> at; std::vector<U> ch;		// where each character starts
	for (size_t i = 0; i < s.size(); )
	{
		at.push_back(i);
		if (!K::utf8) { ch.push_back((unsigned char)s[i++]); continue; }
		ref::Step d = ref::decode((const unsigned char*)s.c_str()+i);
		ch.push_back(d.value); i += d.len;
	}
	at.push_back(s.size()); ch.push_back(0);
	int	n = at.size()-1;		// characters
	PLOG(c, K::name() << " into " << shown(s) << " (" << n << " characters)");

	std::vector<P> pool; std::vector<int> pos;
	pool.push_back(P(text)); pos.push_back(0);
	auto	check = [&](P& p, int want, const std::string& op)
	{
		long off = (const char*)p - text;
		PCHECK(off == at[want], K::name() << " into " << shown(s) << ": after " << op << " it is at byte " << off << ", not " << at[want] << " (character " << want << " of " << n << ")");
		PCHECK(p.at_eof() == (want == n), K::name() << " into " << shown(s) << ": at_eof is " << p.at_eof() << " at character " << want << " of " << n);
		int b = Bot<P, K::origin>::at(p);
		PCHECK(b < 0 || b == (want == 0), K::name() << " into " << shown(s) << ": at_bot is " << b << " at character " << want);
		U u = Chars<P, K::utf8>::get(p);
		PCHECK(u == ch[want], K::name() << " into " << shown(s) << ": character " << want << " reads as " << ref::hex(u));
		if (want < n) PCHECK((Chars<P, K::utf8>::len(p)) == at[want+1]-at[want], K::name() << " len of character " << want);
	};
	auto	clamp = [&](long v) { return v < 0 ? 0 : v > n ? n : (int)v; };
	for (int ops = g.range(1, 12); ops > 0; ops--)
	{
		int	k = g.raw(pool.size());
		P	q; int want = 0;
		int	by = g.chance(1, 40) ? g.chance(1, 4) ? INT_MAX-g.raw(2) : g.range(0, 140000) : g.chance(1, 8) ? g.range(0, 40) : g.range(0, n+2);
		if (g.coin()) by = -by;
		if (!K::origin && by < -pos[k]) by = -pos[k];
		int	kind = g.weighted({3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 1});
		if (!K::origin && pos[k] == 0 && (kind == 6 || kind == 7)) kind = 4;
		std::string op;
		long	dest = (long)pos[k]+by; int to = clamp(dest);
		if (by && kind < 4) { c.label(to == dest ? "moved within the text" : to == n ? "stopped at the end" : "stopped at the start"); c.nontrivial = true; }
		std::ostringstream o; o << "pointer " << k << " at " << pos[k] << " ";
		switch (kind)
		{
		case 0: o << "+= " << by; pool[k] += by; pos[k] = to; break;
		case 1: o << "-= " << -by; pool[k] -= -by; pos[k] = to; break;
		case 2: o << "+ " << by; q = P(pool[k]+by); check(q, to, o.str()); break;
		case 3: o << "- " << -by; q = P(pool[k]-(-by)); check(q, to, o.str()); break;
		case 4: { o << "++x"; auto& r = ++pool[k]; pos[k] = clamp(pos[k]+1); PCHECK((const char*)r == (const char*)pool[k], "++x returns something else"); break; }
		case 5: { o << "x++"; auto r = pool[k]++; q = P(r); check(q, pos[k], o.str() + " (result)"); pos[k] = clamp(pos[k]+1); break; }
		case 6: { o << "--x"; auto& r = --pool[k]; pos[k] = clamp(pos[k]-1); PCHECK((const char*)r == (const char*)pool[k], "--x returns something else"); break; }
		case 7: { o << "x--"; auto r = pool[k]--; PCHECK((const char*)r - text == at[pos[k]], "x-- returns byte " << (const char*)r - text); pos[k] = clamp(pos[k]-1); break; }
		case 8:
		{
			int j = g.raw(pool.size());
			o << "- pointer " << j;
			long d = pool[k]-pool[j], d2 = pool[k]-(const char*)pool[j];
			PCHECK(d == at[pos[k]]-at[pos[j]] && d2 == d, K::name() << ": difference of characters " << pos[k] << " and " << pos[j] << " is " << d << ", not " << at[pos[k]]-at[pos[j]]);
			break;
		}
		case 9: { o << "copied"; if (pool.size() < 4) { pool.push_back(pool[k]); pos.push_back(pos[k]); } else { int j = g.raw(4); pool[j] = pool[k]; pos[j] = pos[k]; } break; }
		case 10:	// a chain of moves on temporaries: the result of each is guarded as well
			if (!K::origin) break;
			o << "(x++ " << by << ")";
			{ auto r = pool[k]++; pos[k] = clamp(pos[k]+1); (void)r; auto r2 = pool[k]+by; q = P(pool[k]); (void)r2; q -= 60+n; check(q, 0, o.str() + " - 60"); auto t = pool[k]; t -= 1000+n; PCHECK((const char*)t == text, "-= 1000"); t += 2000+n; PCHECK((const char*)t == text+s.size(), "+= 2000"); }
			break;
		}
		PLOG(c, o.str());
		check(pool[k], pos[k], o.str());
	}
	for (size_t k = 0; k < pool.size(); k++) check(pool[k], pos[k], "the whole history");
}

static void	run(Gen& g, Ctx& c)
{
	switch (g.raw(4))
	{
	case 0: test<GuardedUTF8Ptr>(g, c); break;
	case 1: test<NulGuardedUTF8Ptr>(g, c); break;
	case 2: test<GuardedCharPtr>(g, c); break;
	case 3: test<NulGuardedCharPtr>(g, c); break;
	}
}

static Property	prop()
{
	Property p;
	p.id = "C22"; p.fn = run;
	p.rule = "Up to 12 moves of a pool of pointers into one text in exactly sized storage, position and ends checked after every move. Non-trivial: some pointer was moved by an integer other than 0.";
	return p;
}
}
#ifndef PBT_NO_MAIN
PBT_MAIN(c22::prop)
#endif
