// Part of c14.cpp: arrays
#define PBT_NO_MAIN
#include	"c14.h"
#include	"c09.cpp"

namespace c14 {
// Counts those that are alive
struct Counted
{
	static std::atomic<long>& live() { static std::atomic<long> n; return n; }
	int	value;
	Counted() : value(-77) { live()++; }
	Counted(int v) : value(v) { live()++; }
	Counted(const Counted& o) : value(o.value) { live()++; }
	Counted& operator=(const Counted& o) { value = o.value; return *this; }
	~Counted() { live()--; }
	bool	operator==(const Counted& o) const { return value == o.value; }
};
inline int	val(const Counted& t) { return t.value; }
template<class E> void	of(Gen& g, Ctx& c)
{
	typedef c09::History<E> H;
	concurrent<H>(g, c,
		[&](H& h) { E e[3] = { E(c09::make<E>(1)), E(c09::make<E>(2)), E(c09::make<E>(3)) }; h.pool.push_back(Array<E>(e, 3)); h.model.push_back({1, 2, 3}); for (int i = g.range(1, 8); i > 0; i--) h.step(); },
		[](H& from, H& h) { h.pool = from.pool; h.model = from.model; },
		[](H& h) { h.run(); });
}
void	arrays(Gen& g, Ctx& c)
{
	switch (g.raw(3))
	{
	case 0: c.label("array of int"); of<int>(g, c); break;
	case 1: c.label("array of std::string"); of<std::string>(g, c); break;
	case 2:
	{
		c.label("array of counted values");
		long	before = Counted::live();
		of<Counted>(g, c);
		PCHECK(Counted::live() == before, Counted::live()-before << " elements are still alive after every array was destroyed");
	}
	}
}
}
