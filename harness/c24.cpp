// Error numbers and reference-counted error values
#include	"pbt.h"
#include	<error.h>

namespace c24 {
using namespace pbt;

static void	numbers(Gen& g, Ctx& c)
{
	auto	pick = [&](int bits) { int top = (1<<bits)-1; switch (g.weighted({2, 3, 2})) { case 0: return (int)g.range(0, 5); case 1: return (int)g.range(0, top); default: { int b = 1<<g.raw(bits); return (b + (int)g.range(-1, 1)) & top; } } };
	for (int n = g.range(1, 8); n > 0; n--)
	{
		int	set = pick(16), msg = pick(14), set2 = g.coin() ? set : pick(16), msg2 = g.coin() ? msg : pick(14);
		PLOG(c, "ErrNum(" << set << ", " << msg << "), other (" << set2 << ", " << msg2 << ")");
		ErrNum	e(set, msg), f(set2, msg2);
		bool	same = set == set2 && msg == msg2;
		PCHECK(e.set() == set && e.msg() == msg, "ErrNum(" << set << ", " << msg << ") has set " << e.set() << " and message " << e.msg());
		int32_t	i = e, j = f;
		PCHECK(i != 0 && i < 0 && j < 0, "ErrNum(" << set << ", " << msg << ") is " << i << ", not negative");
		PCHECK((e == f) == same && (e != f) == !same && (i == j) == same, "equality of ErrNum(" << set << ", " << msg << ") and (" << set2 << ", " << msg2 << ")");
		PCHECK(e == i && (e == j) == same, "equality of an ErrNum and its integer");
		PCHECK(e < 0 && !(e > 0) && !(e == 0), "an ErrNum must compare as less than 0");
		PCHECK((e < j) == (i < j) && (e > j) == (i > j), "order of ErrNum and integer");
		ErrNum	back(i), copy(e), other;
		PCHECK(back == e && (int32_t)back == i && back.set() == set && back.msg() == msg, "ErrNum(" << set << ", " << msg << ") does not survive conversion to integer and back");
		PCHECK(copy == e && copy.set() == set && copy.msg() == msg, "a copy differs");
		PCHECK((int32_t)other == 0 && other == 0 && other != e && !(other < 0), "no error is not zero");
		other = f; PCHECK(other == f && other.set() == set2 && other.msg() == msg2, "assignment");
		other = ErrNum(); PCHECK(other == 0 && (int32_t)ErrNum(0) == 0, "assignment of no error");
		// The parts alone, without the flag bits, are completed
		if (set || msg) { ErrNum bare((int32_t)(set<<14|msg)); PCHECK(bare == e, "ErrNum(" << set << "<<14|" << msg << ") is not ErrNum(" << set << ", " << msg << ")"); }
		// bits beyond the 16 and 14 take no part
		PCHECK(ErrNum(set|0x30000, msg) == e && ErrNum(set, msg|0x7C000) == e, "excess bits");
		if (set || msg) c.nontrivial = true;
	}
	c.label("numbers");
}

struct Model { int32_t num; const char* text; const void* parm; };
static void	values(Gen& g, Ctx& c)
{
	struct Slot { Error* e; Model m; };
	std::vector<Slot> pool;
	// Text and parameters which belong to the caller: exactly sized, never to be written or freed by an Error
	std::vector<std::string> texts; for (int i = 0; i < 4; i++) texts.push_back("text of error " + std::to_string(i) + ": %s");
	std::vector<std::string> was = texts;
	int	parms[4] = { 1, 2, 3, 4 };
	auto	check = [&](const char* op)
	{
		for (size_t k = 0; k < pool.size(); k++)
		{
			const Error& e = *pool[k].e; const Model& m = pool[k].m;
			PCHECK((int32_t)e == m.num, "after " << op << " error " << k << " has number " << (int32_t)e << ", not " << m.num);
			ErrNum n = e.operator ErrNum();
			PCHECK((int32_t)n == m.num, "after " << op << " the ErrNum of error " << k << " is " << (int32_t)n);
			PCHECK(e.default_text() == m.text, "after " << op << " the text of error " << k << " is another");
			PCHECK(e.parameters() == m.parm, "after " << op << " the parameters of error " << k << " are another");
			if (m.num == 0) PCHECK(!(int32_t)e, "no error is not zero");
		}
		PCHECK(texts == was, "after " << op << " the caller's text has changed");
	};
	auto	add = [&](Error* e, Model m) { if (pool.size() >= 6) { int k = g.raw(6); delete pool[k].e; pool[k] = {e, m}; } else pool.push_back({e, m}); };
	auto	fresh = [&](Model& m) -> Error
	{
		if (g.chance(1, 6)) { m = {0, 0, 0}; return Error(); }
		int	set = g.range(0, 65535), msg = g.range(0, 16383), t = g.raw(4), p = g.raw(4), how = g.raw(4);
		if (how == 3) { m = {0, texts[t].c_str(), &parms[p]}; return Error(0, m.text, m.parm); }	// no error, with text
		m.num = ErrNum(set, msg);
		if (g.chance(1, 6)) { m.text = 0; m.parm = &parms[p]; return Error(m.num, 0, m.parm); }
		m.text = how >= 1 ? texts[t].c_str() : 0; m.parm = how >= 2 ? &parms[p] : 0;
		if (how == 0) return Error(m.num);
		if (how == 1) return Error(g.coin() ? m.num : (int32_t)ErrNum(set, msg), m.text);
		return Error(ErrNum(set, msg), m.text, m.parm);
	};
	int	n = g.range(1, c.max_size);
	for (int i = 0; i < n; i++)
	{
		int	k = pool.empty() ? 0 : g.raw(pool.size());
		switch (pool.empty() ? 0 : g.weighted({3, 3, 4, 2, 2, 1}))
		{
		case 0: { Model m; Error* e = new Error(fresh(m)); PLOG(c, "new error " << m.num); add(e, m); check("construction"); break; }
		case 1: { PLOG(c, "copy " << k); Error* e = new Error(*pool[k].e); Model m = pool[k].m; add(e, m); check("copying"); c.nontrivial = true; break; }
		case 2: { int j = g.raw(pool.size()); PLOG(c, "assign " << j << " to " << k); Error& r = (*pool[k].e = *pool[j].e); PCHECK(&r == pool[k].e, "assignment returns another object"); pool[k].m = pool[j].m; check(j == k ? "self-assignment" : "assignment"); c.nontrivial = true; break; }
		case 3: { Model m; Error e = fresh(m); PLOG(c, "assign a new error " << m.num << " to " << k); *pool[k].e = e; pool[k].m = m; check("assignment of a temporary"); break; }
		case 4: { PLOG(c, "destroy " << k); delete pool[k].e; pool.erase(pool.begin()+k); check("destruction"); break; }
		case 5: { auto f = [](Error e) -> Error { Error r; r = e; return r; }; PLOG(c, "pass " << k << " by value"); *pool[k].e = f(*pool[k].e); check("passing by value"); break; }
		}
	}
	for (auto& s : pool) delete s.e;
	c.label("values");
}
static void	run(Gen& g, Ctx& c) { if (g.chance(2, 3)) values(g, c); else numbers(g, c); }

static Property	prop()
{
	Property p;
	p.id = "C24"; p.fn = run; p.leak_check = true;
	p.rule = "A history of error values, or up to 8 pairs of error numbers. Non-trivial: an error value was copied or assigned, or a number had a set or message other than 0.";
	return p;
}
}
#ifndef PBT_NO_MAIN
PBT_MAIN(c24::prop)
#endif
