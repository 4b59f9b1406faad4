// Array searches, comparisons and functional operations against their definitions
#include	"pbt.h"
#include	<array.h>

namespace c10 {
using namespace pbt;
typedef std::vector<int> V;

// An element with nothing but == and <
struct Item { int v; Item(int x = 0) : v(x) {} bool operator==(const Item& o) const { return v == o.v; } bool operator<(const Item& o) const { return v < o.v; } };
inline int	val(const Item& i) { return i.v; }
inline int	val(int i) { return i; }
inline int	val(const std::string& s) { return s.size(); }
template<class E> E make(int i) { return E(i); }
template<> inline std::string make<std::string>(int i) { return std::string(i, 'x'); }

static std::string show(const V& v)
{
	std::string s = "[";
	for (size_t i = 0; i < v.size(); i++)
	{
		if (i == 12 && v.size() > 60) { s += "... "; i = v.size()-8; }
		s += std::to_string(v[i]) + " ";
	}
	return s + "]" + (v.size() > 60 ? " (" + std::to_string(v.size()) + " elements)" : "");
}

template<class E, class I = ArrayIndex> struct Test
{
	typedef Array<E, I> A;
	Gen& g; Ctx& c;
	int	longest = 0;		// Not 0: arrays are of this order
	std::vector<A> keep;

	int	size(int max)
	{
		static const int edge[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 32767, 32768, 65520, 65528, 65535, 65536};
		if (!longest) return g.range(0, max);
		int	n = g.coin() ? edge[g.raw(sizeof(edge)/sizeof(edge[0]))] : g.range(10, longest);
		return n > longest ? longest : n;
	}
	// An array or slice holding exactly m
	A	build(V& m, int max, int top, bool sorted)
	{
		int	n = size(max);
		int	pre = g.range(0, 3), post = g.range(0, 3);
		V	all;
		if (longest)
		{
			int	a = g.range(0, top), b = g.range(0, top);
			for (int i = 0; i < pre+n+post; i++) all.push_back((i*a + i/(top+1) + b) % (top+1));
			for (int k = g.range(0, 3); k; k--) all[g.range(0, all.size()-1)] = g.range(0, top);
		}
		else
			for (int i = 0; i < pre+n+post; i++) all.push_back(g.range(0, top));
		if (sorted) std::sort(all.begin(), all.end());
		m.assign(all.begin()+pre, all.begin()+pre+n);
		if (n == 0 && g.coin()) { PLOG(c, "default array"); return A(); }
		std::vector<E> e; for (int i : all) e.push_back(make<E>(i));
		A	whole(e.data(), e.size());
		if (g.coin()) keep.push_back(whole);
		A	r = whole;
		if (n) r = whole.slice(pre, n);
		else { r = whole; r.clear(); }
		PLOG(c, "slice " << show(m) << " of " << show(all));
		return r;
	}
	void	unchanged(const A& a, const V& m, const char* op)
	{
		PCHECK(a.length() == m.size(), op << " changed the length");
		for (size_t i = 0; i < m.size(); i++) PCHECK(val(a[i]) == m[i], op << " changed element " << i);
	}
	V	vals(const A& a) { V r; for (size_t i = 0; i < a.length(); i++) r.push_back(val(a[i])); return r; }

	void	run()
	{
		V	m, m2;
		int	top = g.range(1, 6);
		switch (g.weighted({5, 5, 4, 4}))
		{
		case 0:
		{
			A	a = build(m, 10, top, false);
			int	n = m.size(), key = g.range(0, top), mod = g.range(1, 3);
			int	pos = g.raw(20) == 0 ? g.range(0, sizeof(I) == 2 ? 65534 : 0x7FFFFFFE) :	// No further than an index goes
				  g.range(-1, n+2);
			bool	fn = g.coin();
			auto	pred = [&](int x) { return fn ? (x+key)%(mod+1) == 0 : x == key; };
			std::function<bool(const E&)> match = [&](const E& e) { return pred(val(e)); };
			int	want = -1, rwant = -1, first = -1;
			for (int i = 0; i < n; i++) if (pred(m[i])) { if (first < 0) first = i; if (i > pos && want < 0) want = i; if (pos == -1 || i < pos) rwant = i; }
			PLOG(c, "find and rfind " << (fn ? "by function " : "element ") << key << " from " << pos);
			int	f = fn ? a.find(match, pos) : a.find(make<E>(key), pos);
			PCHECK(f == want, "find after " << pos << " returned " << f << ", expected " << want);
			int	r = fn ? a.rfind(match, pos) : a.rfind(make<E>(key), pos);
			PCHECK(r == rwant, "rfind before " << pos << " returned " << r << ", expected " << rwant);
			if (pos == -1)
			{
				f = fn ? a.find(match) : a.find(make<E>(key)); PCHECK(f == first, "find returned " << f << ", expected " << first);
				r = fn ? a.rfind(match) : a.rfind(make<E>(key)); PCHECK(r == rwant, "rfind returned " << r << ", expected " << rwant);
			}
			if (fn) { int d = a.detect(match); PCHECK(d == first, "detect returned " << d << ", expected " << first); }
			unchanged(a, m, "searching");
			c.label("search"); c.nontrivial = n > 1;
			break;
		}
		case 1:
		{
			A	a = build(m, 8, top, false);
			int	n = m.size(), mod = g.range(1, 4), rem = g.range(0, 3);
			auto	pred = [&](int x) { return x%mod == rem; };
			V	seen; int k = 0;
			for (int x : m) k += pred(x);
			auto	spy = [&](const E& e) { seen.push_back(val(e)); return pred(val(e)); };
			auto	prefix = [&](const char* op, bool whole) {
				PCHECK(seen.size() <= m.size() && std::equal(seen.begin(), seen.end(), m.begin()) && (!whole || seen.size() == m.size()), op << " visited " << show(seen) << " of " << show(m));
				seen.clear(); unchanged(a, m, op);
			};
			PLOG(c, "functional operations with x%" << mod << "==" << rem);
			const A* self = &a.each([&](const E& e) { seen.push_back(val(e)); });
			PCHECK(self == &a, "each did not return its subject"); prefix("each", true);
			PCHECK(a.all(spy) == (k == n), "all is wrong"); prefix("all", k == n);
			PCHECK(a.any(spy) == (k > 0), "any is wrong"); prefix("any", k == 0);
			PCHECK(a.one(spy) == (k == 1), "one is wrong"); prefix("one", k < 2);
			A	s = a.select(spy); prefix("select", true);
			V	want; for (int x : m) if (pred(x)) want.push_back(x);
			PCHECK(vals(s) == want, "select gave " << show(vals(s)) << ", expected " << show(want));
			Array<int> mp = a.template map<Array<int>, int>([&](const E& e) -> int { seen.push_back(val(e)); return val(e)*3+1; }); prefix("map", true);
			PCHECK(mp.length() == m.size(), "map gave " << mp.length() << " elements");
			for (int i = 0; i < n; i++) PCHECK(mp[i] == m[i]*3+1, "map element " << i << " is " << mp[i]);
			A	same = a.template map<A, E>([&](const E& e) -> E { return e; });
			PCHECK(vals(same) == m, "identity map gave " << show(vals(same)));
			long	j = a.template inject<long>(g.range(0, 5), [&](long& acc, const E& e) -> long { seen.push_back(val(e)); return acc*7 + val(e); });
			V	s2 = seen; prefix("inject", true);
			(void)s2;
			long	w = j; (void)w;
			// recompute with the same start
			long	start = g.range(0, 5), jw = start; for (int x : m) jw = jw*7+x;
			j = a.template inject<long>(start, [&](long& acc, const E& e) -> long { return acc*7 + val(e); });
			PCHECK(j == jw, "inject gave " << j << ", expected " << jw);
			c.label("functional"); c.nontrivial = n > 1;
			break;
		}
		case 2:
		{
			int	range = longest ? g.range(1, longest) : 12;
			A	a = build(m, 12, longest ? range : g.range(1, 12), true);
			int	n = m.size(), key = g.range(-1, range+1), steps = 0;
			int	scale = g.raw(4) ? 1 : g.range(1, 0x7FFFFFFF/(range+2));	// What the comparison returns is not only -1, 0 or 1
			const E* lo = a.asElements(); const E* hi = lo+n;
			bool	outside = false;
			PLOG(c, "bsearch for " << key);
			int	r = a.bsearch([&](const E& e) {
					if (&e < lo || &e >= hi) { outside = true; return 0; }
					steps++;
					if (steps > 1000) throw std::runtime_error("bsearch does not terminate");
					return (val(e) - key)*scale;
				});
			PCHECK(!outside, "bsearch looked at an element outside its slice");
			bool	there = std::find(m.begin(), m.end(), key) != m.end();
			PCHECK(there ? r >= 0 && r < n && m[r] == key : r == -1, "bsearch for " << key << " in " << show(m) << " returned " << r);
			unchanged(a, m, "bsearch");
			c.label("binary search"); c.nontrivial = n > 1;
			break;
		}
		case 3:
		{
			A	a = build(m, 6, 2, false), b;
			int	how = g.raw(longest ? 6 : 5);
			if (how == 4)	// Two slices of one array, anywhere in it
			{
				V	all;
				A	whole = build(all, 10, g.range(0, 2), false);
				auto	part = [&](V& m) -> A {
					int	at = g.range(0, all.size()), n = g.range(0, all.size()-at);
					m.assign(all.begin()+at, all.begin()+at+n);
					return whole.slice(at, n);
				};
				a = part(m); b = part(m2);
				if (g.coin() && m.size() > m2.size()) { m.resize(m2.size()); a = a.head(m2.size()); }
				else if (g.coin() && m2.size() > m.size()) { m2.resize(m.size()); b = b.head(m.size()); }
			}
			else if (how == 5)
			{
				m2 = m;
				if (m2.size()) m2[g.range(0, m2.size()-1)] = g.range(0, 2);
				std::vector<E> e; for (int i : m2) e.push_back(make<E>(i));
				b = A(e.data(), e.size());
			}
			else if (how == 0) { b = a; m2 = m; }
			else if (how == 1) { int k = g.range(0, m.size()); b = a.slice(0, k); m2.assign(m.begin(), m.begin()+k); PLOG(c, "and its head of " << k); }
			else b = build(m2, 6, 2, false);
			int	x = a.compare(b), y = b.compare(a);
			int	want = m < m2 ? -1 : m2 < m ? 1 : 0;
			auto	sgn = [](int v) { return v < 0 ? -1 : v > 0 ? 1 : 0; };
			PLOG(c, "compare " << show(m) << " with " << show(m2));
			PCHECK(sgn(x) == want, "compare gave " << x << ", expected " << want);
			PCHECK(sgn(y) == -want, "reversed compare gave " << y << ", expected " << -want);
			PCHECK((a == b) == (m == m2) && (a != b) == (m != m2) && (b == a) == (m == m2), "equality of " << show(m) << " and " << show(m2));
			unchanged(a, m, "compare"); unchanged(b, m2, "compare");
			c.label("comparison"); c.nontrivial = m.size() && m2.size();
			break;
		}
		}
	}
};

static void	run(Gen& g, Ctx& c)
{
	switch (g.weighted({300, 300, 300, 50, 20, 1, 1}))
	{
	case 3: { c.label("16-bit index"); Test<int, uint16_t> t{g, c}; t.run(); break; }
	case 4: { c.label("larger"); Test<int> t{g, c}; t.longest = 600; t.run(); break; }
	case 5: { c.label("large"); Test<int> t{g, c}; t.longest = most(); t.run(); break; }
	case 6: { c.label("large, 16-bit index"); Test<int, uint16_t> t{g, c}; t.longest = 65520; t.run(); break; }
	case 0: { Test<int> t{g, c}; t.run(); break; }
	case 1: { Test<Item> t{g, c}; t.run(); break; }
	case 2: { Test<std::string> t{g, c}; t.run(); break; }
	}
}

static Property	prop()
{
	Property p;
	p.id = "C10"; p.fn = run;
	p.rule = "Arrays and slices of up to 12 elements, in some cases up to 600 or 70,000, (of storage that extends beyond them, shared or not, or null), random search keys, predicates and start positions, compared with direct definitions; callbacks record what they were given. Non-trivial: at least two elements (for comparison: both sides non-empty).";
	return p;
}
}
#ifndef PBT_NO_MAIN
PBT_MAIN(c10::prop)
#endif
