// Values shared between threads stay correct without locking
#include	"c14.h"
#include	"rxref.h"
#include	<error.h>

namespace c14 {
void	strings(Gen& g, Ctx& c);
void	transformations(Gen& g, Ctx& c);
void	characters(Gen& g, Ctx& c);
void	arrays(Gen& g, Ctx& c);
void	maps(Gen& g, Ctx& c);
void	variants(Gen& g, Ctx& c);
void	string_arrays(Gen& g, Ctx& c);

struct Errors
{
	struct Model { int32_t num; const char* text; const void* parm; };
	Gen& g; Ctx& c;
	bool quiet = false;
	std::vector<Error> pool; std::vector<Model> model;
	void	step()
	{
		static const char* const text[] = { "one", "two" };
		int	k = pool.empty() ? 0 : g.raw(pool.size()), j = pool.empty() ? 0 : g.raw(pool.size());
		switch (pool.empty() ? 0 : g.raw(5))
		{
		case 0: { int num = ErrNum(g.range(0, 100), g.range(0, 100)); Model m = { num, g.pick(text), this }; pool.push_back(Error(num, m.text, m.parm)); model.push_back(m); break; }
		case 1: { Error e(pool[k]); Model m = model[k]; pool.push_back(e); model.push_back(m); break; }
		case 2: pool[k] = pool[j]; model[k] = model[j]; break;
		case 3: pool.erase(pool.begin()+k); model.erase(model.begin()+k); break;
		case 4: { auto f = [](Error e) -> Error { return e; }; pool[k] = f(pool[j]); model[k] = model[j]; break; }
		}
		for (size_t i = 0; i < pool.size(); i++)
			PCHECK((int32_t)pool[i] == model[i].num && pool[i].default_text() == model[i].text && pool[i].parameters() == model[i].parm, "an error has changed");
	}
};
static void	errors(Gen& g, Ctx& c)
{
	typedef Errors H;
	auto	some = [](H& h) { h.pool.reserve(64); for (int i = h.g.range(1, h.c.max_size); i > 0; i--) h.step(); };
	concurrent<H>(g, c, some, [](H& from, H& h) { h.pool = from.pool; h.model = from.model; }, some);
}
// A compiled expression "can run matches in multiple threads simultaneously"
struct Matching
{
	Gen& g; Ctx& c;
	bool quiet = false;
	std::shared_ptr<RxProgram> program;
	std::vector<StrVal> pool; std::vector<rxref::Text> model;
	std::vector<RxResult> results, expected;
	void	run()
	{
		for (int i = g.range(1, c.max_size); i > 0; i--)
		{
			size_t	k = g.raw(pool.size());
			RxResult r = program->matchAfter(pool[k], 0), want = expected[k];
			PCHECK(r.succeeded() == want.succeeded() && r.offset() == want.offset() && r.length() == want.length(), "the match differs from that of a single thread");
			for (int n = 2; r.succeeded() && n < 2*want.captureMax(); n++)
				PCHECK(r.capture(n) == want.capture(n), "capture " << n << " differs from that of a single thread");
			if (g.coin()) { results.push_back(want); if (want.succeeded() && want.captureMax() > 1) { results.back().captureSet(2, 77); PCHECK(results.back().capture(2) == 77, "a capture that was set is another"); } }
			if (g.chance(1, 4)) results.clear();
		}
	}
};
static void	matching(Gen& g, Ctx& c)
{
	typedef Matching H;
	rxref::Shape s; s.budget = g.range(1, 8); s.names = 2; s.big = false;
	rxref::Regex re = rxref::gen_regex(g, s);
	rxref::Render rn(g, false);
	rxref::Text t = rn.regex(re);
	PLOG(c, "expression " << ref::show(ref::enc(t)));
	rxref::Compiler	compiler(rxref::strval(t));
	char*	nfa;
	if (!compiler.compile(nfa)) return;
	concurrent<H>(g, c, [&](H& h) {
			h.program.reset(new RxProgram(nfa, true));
			for (int i = g.range(1, 3); i > 0; i--)
			{
				rxref::Text x = rxref::gen_text(g, re);
				PLOG(c, "text " << ref::show(ref::enc(x)));
				h.model.push_back(x); h.pool.push_back(rxref::strval(x));
				h.expected.push_back(h.program->matchAfter(rxref::strval(x)));
			}
		},
		[](H& from, H& h) { h.program = from.program; h.pool = from.pool; h.model = from.model; h.expected = from.expected; },
		[](H& h) { h.run(); });
}
static void	prop(Gen& g, Ctx& c)
{
	switch (g.weighted({5, 3, 2, 5, 4, 5, 3, 2, 2}))
	{
	case 0: c.label("strings"); return strings(g, c);
	case 1: c.label("transformations"); return transformations(g, c);
	case 2: c.label("characters"); return characters(g, c);
	case 3: c.label("arrays"); return arrays(g, c);
	case 4: c.label("maps"); return maps(g, c);
	case 5: c.label("variants"); return variants(g, c);
	case 6: c.label("arrays of strings"); return string_arrays(g, c);
	case 7: c.label("errors"); return errors(g, c);
	case 8: c.label("matching"); return matching(g, c);
	}
}
static Property	property()
{
	Property p; p.id = "C14"; p.fn = prop; p.nondeterministic = true; p.cpu_limit_s = 30;
	most() = 500;
	p.rule = "two to four threads ran histories from copies of the same values, of which there was at least one";
	return p;
}
}
PBT_MAIN(c14::property)
