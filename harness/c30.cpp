// Matching a regular expression takes memory that depends on the expression, not on the text.
// The most memory in use at once is measured over a text and over one many times as long.
#define PBT_NO_MAIN
#include	"c19.cpp"

namespace c30 {
using namespace rxref;

struct Use { long peak; bool found; size_t from, to; };
static Use	measure(const RxProgram& p, StrVal text, bool search, StrValIndex start)
{
	Use	u;
	Meter	m;
	{
		RxResult r = search ? p.matchAfter(text, start) : p.matchAt(text, start);
		m.stop();
		u.found = r.succeeded(); u.from = r.offset(); u.to = r.offset()+r.length();
	}
	u.peak = m.peak;
	return u;
}
static void	prop(Gen& g, Ctx& c)
{
	Regex	r;
	Text	re;
	bool	look = false;		// A look-ahead may look as far as the end, for every character: then the texts are shorter
	std::vector<Text> units;
	if (g.chance(1, 5))		// Expressions with many ways to match
	{
		static const char* const unit[] = { "(a|a)", "a?", "(a*)*", "(a|aa)+", "(|)", "(a?|b?)", "((a+)+)+", "(a*|b*)", "(a|b|ab)*", "(.*)*", "(a?){2}", "(a|a?)+", "(?<x>a|b)*", "(?<y>a*)b?" };
		std::string s;
		for (int n = g.range(1, 12); n > 0; n--) { const char* u = g.pick(unit); if (s.find(u) == std::string::npos || u[1] != '?') s += u; }
		re = ref::dec(s);
		for (int k = g.range(1, 3); k > 0; k--) { Text t; for (int n = g.range(1, 9); n > 0; n--) t.push_back(g.chance(1, 4) ? 'b' : 'a'); units.push_back(t); }
		c.label("many paths");
	}
	else
	{
		Shape	s; s.budget = g.range(1, std::min(c.max_size, 16)); s.names = g.range(0, 4); s.used = &r.names; s.big = false;
		look = g.chance(1, 5); s.look = look; s.counted = !look;
		r = gen_regex(g, s);
		Render	rn(g, false);
		re = rn.regex(r);
		for (int k = g.range(1, 3); k > 0; k--) units.push_back(gen_text(g, r));
	}
	if (g.coin()) units.push_back(Text(1, g.coin() ? 'a' : 0x20AC));
	if (g.coin())			// Not to match until the end of the text
	{
		re.insert(re.begin(), '('); re.push_back(')'); re.push_back('~');
	}
	PLOG(c, "expression " << ref::show(ref::enc(re)));
	c19::Program	p(re, AllFeatures, g);
	Text	unit;
	for (auto& u : units) unit.insert(unit.end(), u.begin(), u.end());
	if (unit.empty()) unit.push_back('b');
	if (unit.size() > 60) unit.resize(60);
	PLOG(c, "long texts of " << ref::show(ref::enc(unit)));
	const size_t Times = 6, Short = ((look ? 80 : 150)/unit.size()+1)*unit.size();		// both end alike
	StrVal	text[2];
	for (int i = 0; i < 2; i++)
	{
		Text	t; for (size_t k = 0; k < (i ? Short*Times : Short); k++) t.push_back(unit[k % unit.size()]);
		text[i] = strval(t);
	}
	for (int search = 0; search < 2; search++)
	{
		StrValIndex start = g.chance(1, 3) ? g.range(0, 20) : 0;
		measure(*p.p, text[0], search, start);			// so that what is made once is made
		Use	u[2] = { measure(*p.p, text[0], search, start), measure(*p.p, text[1], search, start) };
		PCHECK(u[1].peak <= u[0].peak + u[0].peak/4 + 2048, (search ? "searching from " : "matching at ") << start << " uses " << u[1].peak << " bytes for a text of " << Short*Times << " characters, but " << u[0].peak << " for one of " << Short);
		if (!u[1].found || u[1].to > Short) { c.label(u[1].found ? "a long match" : "no match"); c.nontrivial = c.nontrivial || u[1].peak > 0 && (search || u[1].found); }
		else c.label("a short match");
	}
}
static Property	property()
{
	Property p; p.id = "C30"; p.fn = prop; p.meter = true; p.cpu_limit_s = 40;
	p.rule = "A search through a text of 900 characters (480 if there is a look-ahead) that finds nothing, or a match of more than a sixth of that, with the memory in use measured against that for a text of a sixth";
	return p;
}
}
PBT_MAIN(c30::property)
