// Part of c14.cpp: maps, variants and arrays of strings
#define PBT_NO_MAIN
#include	"c14.h"
#include	"c11.cpp"
#include	"c12.cpp"
#include	"c23.cpp"

namespace c14 {
template<class H> void	go(Gen& g, Ctx& c)
{
	concurrent<H>(g, c, [](H& h) { h.run(); },
		[](H& from, H& h) { h.pool = from.pool; h.model = from.model; },
		[](H& h) { h.run(); });
}
void	maps(Gen& g, Ctx& c)
{
	switch (g.raw(3))
	{
	case 0: c.label("map of int by int"); go<c11::History<int, int>>(g, c); break;
	case 1: c.label("map of StrVal by StrVal"); go<c11::History<StrVal, StrVal>>(g, c); break;
	case 2: c.label("map of std::string by StrVal"); go<c11::History<std::string, StrVal>>(g, c); break;
	}
}
void	variants(Gen& g, Ctx& c)
{
	typedef c12::History H;
	concurrent<H>(g, c, [](H& h) { h.may_fork = false; h.run(); },
		[](H& from, H& h) { h.pool = from.pool; h.model = from.model; h.may_fork = false; },
		[](H& h) { h.run(); });
}
void	string_arrays(Gen& g, Ctx& c)
{
	typedef c23::History H;
	concurrent<H>(g, c, [](H& h) { h.run(); },
		[](H& from, H& h) { h.pool = from.pool; h.model = from.model; h.strs = from.strs; h.texts = from.texts; },
		[](H& h) { h.run(); });
}
}
