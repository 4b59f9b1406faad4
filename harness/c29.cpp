// Pegular expressions match, and PEG parsers without captures parse, without allocating memory.
// The cases are those of C15 and C17; here what each match allocates is counted.
#define PBT_NO_MAIN
#define PBT_METERED
#include	"c15.cpp"
#include	"c17.cpp"

namespace c29 {
using namespace pbt;

static void	prop(Gen& g, Ctx& c)
{
	bool	peg = g.coin();
	c.label(peg ? "parsers" : "expressions");
	PLOG(c, (peg ? "parser" : "expression"));
	try { if (peg) c17::prop(g, c); else c15::prop(g, c); }
	catch (Failure& f) { if (f.msg.find("allocation(s)") != std::string::npos) throw; c.label("set aside: another property fails"); }
}
static Property	property()
{
	Property p; p.id = "C29"; p.fn = prop; p.meter = true;
	p.rule = "an expression of at least two atoms that matches some text, or a grammar that accepts one with a rule calling another";
	return p;
}
}
PBT_MAIN(c29::property)
