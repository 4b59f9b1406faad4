// Part of c14.cpp: strings and characters
#define PBT_NO_MAIN
#include	"c14.h"
#include	"c01.cpp"
#include	"c05.cpp"
#include	"c06.cpp"

namespace c14 {
void	strings(Gen& g, Ctx& c)
{
	typedef c01::History H;
	concurrent<H>(g, c,
		[&](H& h) { h.pool.push_back(StrVal("start")); h.model.push_back({'s', 't', 'a', 'r', 't'}); for (int i = g.range(1, 8); i > 0; i--) h.step(); },
		[](H& from, H& h) { h.pool = from.pool; h.model = from.model; },
		[](H& h) { h.run(); });
}
void	transformations(Gen& g, Ctx& c)
{
	typedef c06::History H;
	concurrent<H>(g, c, [](H& h) { h.run(); },
		[](H& from, H& h) { h.pool = from.pool; h.model = from.model; },
		[](H& h) { h.run(); });
}
struct Characters
{
	Gen& g; Ctx& c;
	bool quiet = false;
	std::vector<int> pool, model;
};
void	characters(Gen& g, Ctx& c)
{
	typedef Characters H;
	(void)c05::index_();		// not to be made by several threads
	concurrent<H>(g, c, [](H& h) { h.pool.push_back(0); },
		[](H&, H&) {},
		[](H& h) { c05::prop().fn(h.g, h.c); });
}
}
