// Regular expression matching finds the leftmost longest match
#include	"rxref.h"

namespace c19 {
using namespace rxref;

struct Program
{
	char*	nfa = 0;
	std::unique_ptr<RxProgram> p;
	Program(const Text& re, uint32_t features, Gen& g)
	{
		Compiler	c(strval(re), features);
		bool	ok = c.compile(nfa);
		PCHECK(ok, "it is rejected: " << (c.errorMessage() ? c.errorMessage() : "(no message)") << " at " << c.errorOffset());
		bool	own = g.coin();
		p.reset(new RxProgram(nfa, own));
		if (own) nfa = 0;
	}
	~Program() { p.reset(); delete[] nfa; }
};

static void	check(const RxResult& r, bool found, size_t from, size_t to, const char* what, size_t start)
{
	PCHECK(r.succeeded() == found, what << " from " << start << (found ? " fails but there is a match " : " reports a match ") << (found ? from : (size_t)r.offset()) << "-" << (found ? to : (size_t)(r.offset()+r.length())));
	if (found)
		PCHECK(r.offset() == from && r.offset()+r.length() == to, what << " from " << start << " reports " << r.offset() << "-" << r.offset()+r.length() << " instead of " << from << "-" << to);
	else
		PCHECK(r.length() == 0, what << " from " << start << " fails with length " << r.length());
}

// Expressions that make a backtracking matcher, or one that repeats threads, take exponential time
static void	blowup(Gen& g, Ctx& c)
{
	static const char* const unit[] = { "(a|a)", "a?", "(a*)*", "(a|aa)+", "(|)", "(a?|b?)", "((a+)+)+", "(a*|b*)", "(a|b|ab)*", "(.*)*", "(a?){2}", "(a|a?)+" };
	std::string re;
	int	n = g.range(1, 40);
	const char* u = g.pick(unit);
	for (int i = 0; i < n; i++) re += g.chance(1, 4) ? (u = g.pick(unit)) : u;
	if (g.coin()) re += "c";
	int	len = g.range(50, 300);
	Text	t; for (int i = 0; i < len; i++) t.push_back(g.chance(1, 10) ? 'b' : 'a');
	if (g.coin()) t.push_back('c');
	PLOG(c, "expression " << re << "\ntext of " << t.size() << " characters");
	Program	p(ref::dec(re), AllFeatures, g);
	RxResult r = p.p->matchAfter(strval(t));
	PCHECK(!r.succeeded() || r.offset()+r.length() <= t.size(), "the match is outside the text");
	c.label("many paths");
	c.nontrivial = n > 5;
}
static double	cpu_now() { struct timespec ts; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &ts); return ts.tv_sec + ts.tv_nsec*1e-9; }
// Time proportional to the length of the text: 32 times the text may not take 200 times as long
static void	linear(Gen& g, Ctx& c)
{
	Shape	s; s.budget = g.range(1, 3); s.look = s.counted = false;
	Regex	r = gen_regex(g, s);
	Render	rn(g, false);
	Text	re = rn.regex(r);
	U	ch = g.coin() ? (U)'a' : (U)0x3B1;
	PLOG(c, "expression " << ref::show(ref::enc(re)) << " on long texts of U+" << std::hex << ch);
	Program	p(re, AllFeatures, g);
	StrVal	text[2];
	for (int i = 0; i < 2; i++)
	{
		Text	t; for (int k = 0; k < (i ? 64000 : 2000); k++) t.push_back(k % 7 == 3 ? 'b' : ch);
		text[i] = strval(t);
	}
	double	ratio = 0;
	for (int attempt = 0; attempt < 5; attempt++)
	{
		double	took[2];
		for (int i = 0; i < 2; i++)
		{
			double	b = cpu_now();
			for (int k = 0; k < (i ? 1 : 3); k++) p.p->matchAfter(text[i]);
			took[i] = (cpu_now()-b) / (i ? 1 : 3);
		}
		ratio = took[1]/(took[0] > 1e-5 ? took[0] : 1e-5);
		if (ratio < 200) { c.label("long texts"); c.nontrivial = true; return; }
	}
	PFAIL("32 times the text takes " << ratio << " times as long");
}

static bool	looks(const std::vector<Seq>& a) { for (auto& q : a) for (auto& n : q) if (n.kind == NegLook || looks(n.alts)) return true; return false; }
// Whether anything in it is repeated: then there are many ways to count, which the matcher follows one by one
static bool	repeats(const std::vector<Seq>& a) { for (auto& q : a) for (auto& n : q) if (n.rep || repeats(n.alts)) return true; return false; }
// An element that must occur a large number of times, and texts with about that many
static Regex	many(Gen& g, std::vector<Text>& texts)
{
	Regex	r;
	Shape	s; s.used = &r.names; s.big = s.look = false;
	s.budget = g.range(0, 2);
	Seq	before; if (g.coin()) before = gen_seq(g, s);
	Node	n;
	s.budget = g.range(1, 3); s.depth = 3; s.counted = false;
	if (g.coin()) { n.kind = Group; n.alts = gen_alts(g, s); }
	else n.ch = lit(g);
	n.rep = true;
	static const int edge[] = { 62, 63, 64, 65, 125, 126, 127, 128, 129, 191, 192, 253, 254 };
	bool	ways = repeats(n.alts);
	auto	num = [&]() { int x = g.coin() ? g.pick(edge) : (int)g.range(2, 254); return ways ? std::min(x, std::max(4, 129/states(n.alts))) : x; };
	int	a = num(), b = num();
	if (a > b) std::swap(a, b);
	switch (g.raw(4)) { case 0: n.min = n.max = b; break; case 1: n.min = b; n.max = -1; break; case 2: n.min = 0; n.max = b; break; case 3: n.min = a; n.max = b; break; }
	s.depth = 0; s.counted = true; s.budget = g.range(0, 2);
	Seq	after; if (g.coin()) after = gen_seq(g, s);
	Seq	all(before); all.push_back(n); all.insert(all.end(), after.begin(), after.end());
	r.alts.push_back(all);
	if (g.chance(1, 4)) { s.budget = 2; r.alts.push_back(gen_seq(g, s)); }
	int	k = g.range(1, 3);
	while (k--)
	{
		int	times = (g.coin() || n.max < 0 ? n.min : n.max) + (int)g.range(-2, 2);
		Text	t; sample(g, std::vector<Seq>(1, before), t, 10);
		Node	one(n); one.rep = false;
		Text	el; sample(g, one, el, 6);
		while (times-- > 0)
		{
			if (g.chance(1, 8)) { el.clear(); sample(g, one, el, 6); }
			t.insert(t.end(), el.begin(), el.end());
			if (t.size() > (ways ? 270 : 520)) break;
		}
		sample(g, std::vector<Seq>(1, after), t, 1000);
		texts.push_back(t);
	}
	return r;
}
static void	prop(Gen& g, Ctx& c)
{
	std::vector<Text> given;
	bool	counts = false;
	switch (g.weighted({600, 3, 1, 3}))
	{
	case 1: return blowup(g, c);
	case 2: return linear(g, c);
	case 3: counts = true; break;
	}
	Shape	s; s.budget = g.range(1, c.max_size);
	if (g.chance(1, 16)) { s.pad = 3; s.look = s.big = false; }
	bool	padded = s.pad > 0;
	Regex	r;
	if (counts) { r = many(g, given); c.label("large counts"); }
	else r = gen_regex(g, s);
	bool	ext = g.chance(1, 4);
	Render	rn(g, ext);
	Text	re = rn.regex(r);
	PLOG(c, "expression " << ref::show(ref::enc(re)) << (ext ? " (extended)" : ""));
	Program	p(re, AllFeatures | (ext ? Extended : 0), g);
	int	texts = counts ? (int)given.size() : (int)g.range(1, 3);
	bool	useful = false;
	for (int k = 0; k < texts; k++)
	{
		Text	t = counts ? given[k] : gen_text(g, r, padded && g.chance(1, 12) ? 300 : 40);
		size_t	ahead = 0;
		{ Text a = gen_ahead(g); ahead = a.size(); t.insert(t.begin(), a.begin(), a.end()); if (ahead) c.label("long text before"); }
		if (ref::dec(ref::enc(t)) != t) { c.label("text not preserved by encoding"); continue; }
		size_t	start = ahead && g.chance(1, 6) ? g.raw(ahead) : ahead + (g.chance(1, 3) ? g.raw(t.size()-ahead+1) : 0);
		start = std::max(start, ahead-std::min<size_t>(ahead, (looks(r.alts) ? 300 : 8000)/(states(r.alts)*(1+count(r.alts)))));	// not too long a way for a matcher that follows many states
		PLOG(c, "text " << ref::show(ref::enc(t)) << " from " << start);
		Eval	e(t, counts ? 500000 : 200000);
		bool	here = false, found = false;
		size_t	here_to = 0, from = 0, to = 0;
		try {
			Ends	ends = e.alts(r.alts, start);
			if ((here = !ends.empty())) here_to = *ends.rbegin();
			for (from = start; from <= t.size(); from++)
			{
				Ends	x = e.alts(r.alts, from);
				if (x.empty()) continue;
				found = true; to = *x.rbegin();
				break;
			}
		} catch (TooLong&) { c.label("too long"); continue; }
		StrVal	target = strval(t);
		if (t.size() && g.chance(1, 5))		// A slice of a longer string
		{
			Text	lead(1, 'a'); if (g.coin()) { int n = g.chance(1, 8) ? g.range(2, 300) : g.range(2, 10); while (n-- > 0) { U u = lit(g); lead.push_back(u ? u : 'z'); } }
			Text	all(t); all.insert(all.begin(), lead.begin(), lead.end()); all.push_back('b'); all.push_back(0xE9);
			target = strval(all).substr(lead.size(), t.size());
		}
		check(p.p->matchAfter(target, start), found, from, to, "the search", start);
		check(p.p->matchAt(target, start), here, start, here_to, "the match", start);
		if (found && to > from && count(r.alts) >= 2) useful = true;
		c.label(here ? "matches here" : found ? "found later" : "no match");
	}
	c.nontrivial = useful;
}
static Property	property()
{
	Property p; p.id = "C19"; p.fn = prop; p.cpu_limit_s = 30;
	p.rule = "an expression of at least two elements that matches some text of at least one character, or a long text, or an expression with many paths";
	return p;
}
}
#ifndef PBT_NO_MAIN
PBT_MAIN(c19::property)
#endif
