// Any text offered as a regular expression compiles or is rejected with a message
#include	"rxref.h"

namespace c20 {
using namespace rxref;

static uint32_t	features(Gen& g)
{
	uint32_t	f = AllFeatures;
	switch (g.weighted({5, 4, 2}))
	{
	case 1: { int n = g.range(1, 4); while (n--) f &= ~(1u << g.raw(20)); break; }
	case 2: f = 0; for (int b = 0; b < 20; b++) if (g.coin()) f |= 1u << b; break;
	}
	if (g.chance(1, 8)) f |= bit(RxFeature::AnyIsQuest);
	if (g.chance(1, 8)) f |= bit(RxFeature::ZeroOrMoreAny);
	if (g.chance(1, 4)) f |= Extended;
	return f;
}
static void	soup(Gen& g, Text& t, int n)
{
	static const char* const piece[] = {
		"(", ")", "|", "*", "+", "?", "{", "}", "[", "]", "^", "$", ".", "\\", "-", ",", "a", "b", " ", "#", "\n", "<", ">", ":", "!",
		"(?<n>", "(?<m>", "(?:", "(?!", "(?", "(?<", "(?<>", "(?x", "[^", "[]", "[a-c]", "[^-]", "[a-", "[]a]", "\\x4", "\\x", "\\u", "\\u0041", "\\101", "\\8", "\\p{Alpha}",
		"\\p", "\\p{", "\\p{}", "\\s", "\\d", "\\h", "\\n", "\\b", "{2}", "{0}", "{1,}", "{,2}", "{2,1}", "{0,0}", "{254}", "{255}", "{1,300}", "{,}", "{}", "{ 1 , 2 }", "{-1}", "{x}",
		"{99999999999}", "{2", "{2,", "()", "(|)", "(a|b)", "a*", "\\(", "\\*", "\\\\", "\\x00", "\\u10FFFF", "\\777", " # c\n", "\\^", "[\\]", "[a\\-z]", "[--a]", "[z-a]" };
	for (; n > 0; n--)
		if (g.chance(1, 12)) t.push_back(lit(g));
		else for (const char* c = g.pick(piece); *c; c++) t.push_back((unsigned char)*c);
}
static void	mutate(Gen& g, Text& t)
{
	int	n = g.range(1, 3);
	for (; n > 0; n--)
	{
		size_t	at = g.raw(t.size()+1);
		switch (g.weighted({4, 4, 2, 1}))
		{
		case 0: if (at < t.size()) t.erase(t.begin()+at); break;
		case 1: { Text x; soup(g, x, 1); t.insert(t.begin()+at, x.begin(), x.end()); break; }
		case 2: t.resize(at); break;
		case 3: t.insert(t.begin()+at, g.coin() ? 0 : lit(g)); break;
		}
	}
}
static Text	large(Gen& g)
{
	Text	t;
	auto	put = [&](const char* s) { while (*s) t.push_back((unsigned char)*s++); };
	int	n = g.range(1, 260);
	switch (g.raw(5))
	{
	case 0:			// Many names
		n = g.pick((int[]){ 1, 100, 126, 127, 128, 253, 254, 255, 300 });
		for (int i = 0; i < n; i++) put(("(?<"+std::to_string(i)+">"+(g.coin() ? "a" : "b|")+")").c_str());
		break;
	case 1:			// Deep groups
		n = g.range(1, 16);
		for (int i = 0; i < n; i++) put(g.coin() ? "(a" : "(?:b|");
		for (int i = 0; i < n; i++) put(g.coin() ? ")" : ")*");
		break;
	case 2:			// Many alternates
		for (int i = 0; i < n; i++) { if (i) put("|"); if (g.coin()) put("a"); else soup(g, t, 1); }
		break;
	case 3:			// Many classes
		for (int i = 0; i < n; i++) put(g.coin() ? "[a-z0-9]" : "[^a]?");
		break;
	case 4:			// A long text, in a group that repeats
		put("("); n *= g.range(1, 20);
		for (int i = 0; i < n; i++) t.push_back(i%8 == 7 ? lit(g) : 'a');
		put(")"); put(g.pick((const char*[]){ "*", "+", "?", "{2,3}", "|b" }));
		break;
	}
	return t;
}
static std::string	bits(uint32_t f) { char b[20]; snprintf(b, sizeof b, "%08X", f); return b; }

static void	prop(Gen& g, Ctx& c)
{
	Text	re;
	uint32_t f = features(g), rej = 0;
	if (g.chance(1, 4)) { int n = g.range(1, 3); while (n--) rej |= 1u << g.raw(20); if (g.chance(1, 6)) rej |= Extended; }
	Regex	shape;
	switch (g.weighted({8, 5, 5, 1}))
	{
	case 0: soup(g, re, g.range(0, c.max_size)); break;
	case 1: case 2:
	{
		Shape	s; s.budget = g.range(1, c.max_size); s.names = 3;
		if (g.chance(1, 10)) s.pad = 3;
		shape = gen_regex(g, s);
		Render	rn(g, (f & Extended) != 0);
		re = rn.regex(shape);
		if (g.coin()) mutate(g, re);
		break;
	}
	case 3: re = large(g); if (g.chance(1, 4)) mutate(g, re); break;
	}
	if (g.chance(1, 20))		// Not UTF-8
		re.insert(re.begin()+g.raw(re.size()+1), 0x80000080u + g.raw(0x40));
	std::string bytes = ref::enc(re);
	PLOG(c, "expression " << ref::show(bytes.size() > 400 ? bytes.substr(0, 400)+"..." : bytes) << "\nfeatures " << bits(f) << " rejected " << bits(rej));

	StrVal	text = placed(g, c, bytes);
	Compiler compiler(text, f, rej);
	char*	nfa = (char*)1;
	bool	ok = compiler.compile(nfa);
	std::unique_ptr<char[]>	hold(ok ? nfa : 0);
	int	size = ok ? compiler.size() : 0;
	StrValIndex	length = text.length();
	const char*	message = compiler.errorMessage();
	int	offset = compiler.errorOffset();
	if (ok)
	{
		PCHECK(nfa != 0 && size > 0, "it compiles but there is no program");
		PCHECK(message == 0, "it compiles but there is a message: " << message);
	}
	else
	{
		PCHECK(nfa == 0, "it is rejected but there is a program");
		PCHECK(message != 0 && *message, "it is rejected without a message");
		PCHECK(offset >= 0 && offset <= (int)length, "the error is said to be at " << offset << " of " << length);
	}

	Verdict	v;
	if (ref::dec(bytes) == re) v = Parser(re, f, rej).parse(); else c.label("not settled: encoding");
	switch (v.kind)
	{
	case Verdict::Accept: PCHECK(ok, "it is rejected: " << message << " at " << offset); c.label("accepted"); break;
	case Verdict::Reject:
		PCHECK(!ok, "it is accepted, in spite of " << v.why << " between " << v.from << " and " << v.to);
		PCHECK(offset >= (int)v.from && offset <= (int)v.to, "the error (" << message << ") is said to be at " << offset << " but " << v.why << " is between " << v.from << " and " << v.to);
		c.label("rejected: " + v.why);
		break;
	case Verdict::Open: c.label("not settled: " + v.why); break;
	}
	c.nontrivial = bytes.size() > 2 && v.kind != Verdict::Open;

	// It is always the same
	{
		bool	same = g.coin();
		Compiler again(text, f, rej);
		char*	nfa2 = 0;
		Compiler& which = same ? compiler : again;
		bool	ok2 = which.compile(nfa2);
		std::unique_ptr<char[]>	hold2(ok2 ? nfa2 : 0);
		PCHECK(ok2 == ok, "compiled again, it is " << (ok2 ? "accepted" : "rejected"));
		if (ok) PCHECK(which.size() == size && memcmp(nfa, nfa2, size) == 0, "compiled again, the program differs");
		else PCHECK(which.errorMessage() && std::string(which.errorMessage()) == message && which.errorOffset() == offset, "compiled again, the error differs");
	}
	if (!ok) return;

	std::unique_ptr<char[]> exact(new char[size]);	// Reading beyond the program shows
	memcpy(exact.get(), nfa, size);
	RxProgram p(exact.get(), false);
	for (int k = g.range(1, 2); k > 0; k--)
	{
		Text	t = v.kind == Verdict::Accept && g.chance(3, 4) ? gen_text(g, v.re, 60) : gen_text(g, shape, 30);
		if (ref::dec(ref::enc(t)) != t) continue;
		size_t	start = g.chance(1, 4) ? g.raw(t.size()+1) : 0;
		PLOG(c, "text " << ref::show(ref::enc(t)) << " from " << start);
		StrVal	target = placed(g, c, ref::enc(t));
		RxResult after = p.matchAfter(target, start), at = p.matchAt(target, start);
		for (RxResult* r : { &after, &at })
			if (r->succeeded())
				PCHECK(r->offset() >= (int)start && r->length() >= 0 && r->offset()+r->length() <= (int)t.size(), "a match at " << r->offset() << " of " << r->length() << " is outside the text");
		PCHECK(!at.succeeded() || (at.offset() == (int)start && after.succeeded() && after.offset() == (int)start), "the anchored match and the search disagree");
		if (v.kind != Verdict::Accept || v.re.unknown_property) continue;
		Eval	e(t, 60000);
		try {
			Ends	ends = e.alts(v.re.alts, start);
			PCHECK(at.succeeded() == !ends.empty(), "the match " << (at.succeeded() ? "succeeds" : "fails") << " which is not what the expression says");
			if (at.succeeded()) PCHECK(at.length() == (int)(*ends.rbegin()-start), "the match is of " << at.length() << " but the expression matches " << *ends.rbegin()-start);
			c.label(at.succeeded() ? "ran: matches" : "ran: does not");
		} catch (TooLong&) {}
	}
}
static Property	property()
{
	Property p; p.id = "C20"; p.fn = prop; p.cpu_limit_s = 30;
	p.rule = "an expression of more than two bytes whose acceptance or rejection is settled by the reference parser";
	return p;
}
}
#ifndef PBT_NO_MAIN
PBT_MAIN(c20::property)
#endif
