// Arrays as values: a pool of arrays that share and slice each other's storage, against std::vector
#include	"pbt.h"
#include	<array.h>
#include	<limits>
#include	<memory>
#include	<set>

namespace c09 {
using namespace pbt;

// An element that knows whether it is alive
struct Tracked
{
	static std::set<const Tracked*>& live() { static std::set<const Tracked*> s; return s; }
	static long&	errors() { static long e; return e; }
	int		value;
	void		born() { if (!live().insert(this).second) errors()++; }
	void		alive() const { if (!live().count(this)) errors()++; }
	Tracked() : value(-77) { born(); }
	Tracked(int v) : value(v) { born(); }
	Tracked(const Tracked& o) : value(o.value) { o.alive(); born(); }
	Tracked& operator=(const Tracked& o) { alive(); o.alive(); value = o.value; return *this; }
	~Tracked() { if (!live().erase(this)) errors()++; value = -88; }
	bool operator==(const Tracked& o) const { alive(); o.alive(); return value == o.value; }
};
inline int	val(const Tracked& t) { t.alive(); return t.value; }
inline int	val(int i) { return i; }
inline int	val(const std::string& s) { return s.empty() ? 0 : atoi(s.c_str()); }
template<class E> E make(int i) { return E(i); }
template<> inline std::string make<std::string>(int i) { return i ? std::to_string(i) + "------------------------------" : std::string(); }

template<class E, class I = ArrayIndex> struct History
{
	typedef Array<E, I>	A;
	typedef ArrayBody<E, I>	B;
	struct Borrowed { std::vector<E> data, copy; std::unique_ptr<B> body; };
	Gen&			g;
	Ctx&			c;
	std::vector<std::unique_ptr<Borrowed>> borrowed;	// destroyed after the arrays that use them
	std::vector<A>		pool;
	std::vector<std::vector<int>> model;
	bool			shared_write = false;
	bool	quiet = false;		// do not look (it would fill caches)
	size_t	cap = 200;		// No array gets longer than this

	History(Gen& _g, Ctx& _c) : g(_g), c(_c) { pool.reserve(16); }

	static std::string show(const std::vector<int>& v) 
	{
		std::string s = "[";
		for (size_t i = 0; i < v.size(); i++)
		{
			if (i == 12 && v.size() > 400) { s += "... "; i = v.size()-8; }
			s += std::to_string(v[i]) + " ";
		}
		return s + "]" + (v.size() > 400 ? " (" + std::to_string(v.size()) + " elements)" : "");
	}
	void	verify_one(size_t k, const char* op)
	{
		const A& a = pool[k]; const std::vector<int>& m = model[k];
		PCHECK(a.length() == m.size(), "after " << op << " array " << k << " has length " << a.length() << ", expected " << show(m));
		PCHECK(a.isEmpty() == m.empty(), "isEmpty of array " << k);
		for (size_t i = 0; i < m.size(); i++)
		{
			int v = val(a[i]);
			if (v != m[i])
			{
				std::vector<int> got; for (size_t j = 0; j < m.size(); j++) got.push_back(val(a[j]));
				PFAIL("after " << op << " array " << k << " is " << show(got) << ", expected " << show(m));
			}
		}
		const E* p = a.asElements();
		if (m.size()) PCHECK(val(p[0]) == m[0] && val(p[m.size()-1]) == m.back(), "asElements of array " << k << " after " << op);
	}
	void	verify(const char* op)
	{
		if (quiet) return;
		for (size_t k = 0; k < pool.size(); k++) verify_one(k, op);
	}
	void	add(const A& a, const std::vector<int>& m)
	{
		if (pool.size() < 7) { pool.push_back(a); model.push_back(m); }
		else { size_t k = g.raw(pool.size()); pool[k] = a; model[k] = m; PLOG(c, "   into array " << k); return; }
		PLOG(c, "   into array " << pool.size()-1);
	}
	int	fresh() { return g.range(0, 30); }
	static size_t	max() { return std::numeric_limits<I>::max(); }
	size_t	most = 0;		// No body holds more elements than this
	bool	room(size_t n)		// Is there room to make any array n longer? A slice is changed in its body, which must have room for all
	{
		if (most+n > max()) return false;
		most += n;
		return true;
	}
	int	big_size()
	{
		static const int edge[] = {255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65519, 65528, 65529, 65534, 65535, 65536, 65537};
		int	n = g.coin() ? edge[g.raw(sizeof(edge)/sizeof(edge[0]))] : g.range(100, 5000);
		return (size_t)n > cap ? cap : n;
	}
	std::vector<int> some(int max)
	{
		std::vector<int> v;
		if (cap > 200 && g.raw(2) == 0)
		{
			int n = big_size(), a = g.range(1, 30), b = g.range(0, 30);
			for (int i = 0; i < n; i++) v.push_back((i*a + i/31 + b) % 31);
			return v;
		}
		int n = g.range(0, max); for (int i = 0; i < n; i++) v.push_back(fresh()); return v; }
	void	note(const A& a) { if (a.isShared() && a.length()) shared_write = true; }

	void	run()
	{
		int	n = g.range(1, c.max_size);
		{ std::vector<int> v = some(6); std::vector<E> e; for (int i : v) e.push_back(make<E>(i)); PLOG(c, "array 0 = " << show(v)); most = v.size(); pool.push_back(v.empty() ? A() : A(e.data(), e.size())); model.push_back(v); }
		for (int i = 0; i < n; i++) step();
		// Destroy in a generated order, checking the survivors
		while (pool.size() > 1)
		{
			size_t k = g.raw(pool.size());
			pool.erase(pool.begin()+k); model.erase(model.begin()+k);
			verify("destroying another array");
		}
		pool.clear(); model.clear();
		for (auto& b : borrowed)
			for (size_t i = 0; i < b->data.size(); i++)
				PCHECK(val(b->data[i]) == val(b->copy[i]), "borrowed data was changed at element " << i);
		borrowed.clear();
	}
	void	step()
	{
		size_t	k = g.raw(pool.size());
		size_t	len = model[k].size();
		std::vector<int>& m = model[k];
		const char* op = "";
		switch (g.weighted({2,1,1,2,3, 6,2,2,1, 3,2, 5,2,3,2, 6,3, 3,2,2, 2,2,2,5,1, 1,2,2}))
		{
		case 0: { std::vector<int> v = some(12); std::vector<E> e; for (int x : v) e.push_back(make<E>(x)); most = std::max(most, v.size()); int al = g.range(0, 20);
			PLOG(c, "new array of " << show(v) << " allocate " << al); add(A(e.data(), e.size(), al), v); op = "construct"; break; }
		case 1: PLOG(c, "new empty array"); add(A(), {}); op = "construct empty"; break;
		case 2: { int v = fresh(); PLOG(c, "new single element array " << v); add(A(make<E>(v)), {v}); op = "construct single"; break; }
		case 3:
		{
			std::vector<int> v = some(8); if (v.size() < cap) v.push_back(fresh()); most = std::max(most, v.size());
			if (borrowed.size() >= 4) return;
			std::unique_ptr<Borrowed> b(new Borrowed);
			for (int x : v) { b->data.push_back(make<E>(x)); b->copy.push_back(make<E>(x)); }
			b->body.reset(new B(b->data.data(), false, (I)v.size()));
			PLOG(c, "new array borrowing " << show(v));
			borrowed.push_back(std::move(b));
			add(A(borrowed.back()->body.get()), v);
			op = "construct borrowing";
			break;
		}
		case 4:
		{
			size_t j = g.raw(pool.size());
			if (g.coin()) { PLOG(c, "assign array " << k << " = array " << j); std::vector<int> mj = model[j]; pool[k] = pool[j]; model[k] = mj; op = "assign"; }
			else { PLOG(c, "copy array " << k); add(pool[k], std::vector<int>(m)); op = "copy"; }
			break;
		}
		case 5:
		{
			int at = g.range(0, std::min<size_t>(len+1, max())), l = g.range(-1, std::min<size_t>(len+2, max()));
			PLOG(c, "slice(" << at << ", " << l << ") of array " << k);
			std::vector<int> r;
			for (size_t i = at; i < len && (l < 0 || i < (size_t)at+l); i++) r.push_back(m[i]);
			if (g.coin()) { A s = l == -1 && g.coin() ? pool[k].slice(at) : pool[k].slice(at, l); pool[k] = s; model[k] = r; }	// the original may now be released
			else add(pool[k].slice(at, l), r);
			op = "slice";
			break;
		}
		case 6: { int l = g.range(0, std::min<size_t>(len+2, max())); PLOG(c, "head(" << l << ") of array " << k); add(pool[k].head(l), std::vector<int>(m.begin(), m.begin()+std::min<size_t>(l, len))); op = "head"; break; }
		case 7: { int l = g.range(0, std::min<size_t>(len+2, max())); PLOG(c, "tail(" << l << ") of array " << k); size_t q = std::min<size_t>(l, len); add(pool[k].tail(l), std::vector<int>(m.end()-q, m.end())); op = "tail"; break; }
		case 8: { int l = g.range(0, std::min<size_t>(len+2, max())); PLOG(c, "shorter(" << l << ") of array " << k); size_t q = std::min<size_t>(l, len); add(pool[k].shorter(l), std::vector<int>(m.begin(), m.end()-q)); op = "shorter"; break; }
		case 9:
		{
			size_t j = g.raw(pool.size());
			PLOG(c, "array " << k << " + array " << j);
			std::vector<int> r = m; r.insert(r.end(), model[j].begin(), model[j].end());
			if (r.size() > cap || !room(model[j].size())) return;
			add(pool[k]+pool[j], r); op = "operator+";
			break;
		}
		case 10: { if (len >= cap || !room(1)) return; int v = fresh(), own = len && g.chance(1, 5) ? (int)g.raw(len) : -1; if (own >= 0) v = m[own]; PLOG(c, "array " << k << " + element " << v << (own >= 0 ? " of its own" : "")); std::vector<int> r = m; r.push_back(v); add(own >= 0 ? pool[k]+pool[k].elem_ref(own) : pool[k]+make<E>(v), r); op = "operator+ element"; break; }
		case 11:
		{
			if (len >= cap || !room(1)) return;
			int v = fresh(), how = g.raw(4), own = len && g.chance(1, 5) ? (int)g.raw(len) : -1; if (own >= 0) v = m[own];
			PLOG(c, "push " << v << (own >= 0 ? " (its element " + std::to_string(own) + ")" : std::string()) << " onto array " << k << " spelling " << how); note(pool[k]);
			E ex = make<E>(v); const E& e = own >= 0 ? pool[k].elem_ref(own) : ex;
			if (how == 0) pool[k].push(e); else if (how == 1) pool[k] << e; else if (how == 2) pool[k] += e; else pool[k].append(e);
			m.push_back(v); op = "push"; break;
		}
		case 12: { if (len >= cap || !room(1)) return; int v = fresh(), own = len && g.chance(1, 5) ? (int)g.raw(len) : -1; if (own >= 0) v = m[own];
			PLOG(c, "unshift " << v << (own >= 0 ? " (its element " + std::to_string(own) + ")" : std::string()) << " onto array " << k); note(pool[k]);
			if (own >= 0) pool[k].unshift(pool[k].elem_ref(own)); else pool[k].unshift(make<E>(v)); m.insert(m.begin(), v); op = "unshift"; break; }
		case 13:
		{
			size_t j = g.raw(pool.size()); int how = g.raw(2);
			if (len + model[j].size() > cap || !room(model[j].size())) return;
			PLOG(c, "append array " << j << " to array " << k); note(pool[k]);
			std::vector<int> r = model[j];
			if (how) pool[k] += pool[j]; else pool[k].append(pool[j]);
			m.insert(m.end(), r.begin(), r.end()); op = "append array";
			break;
		}
		case 14:	// pieces of one array put together again
		{
			int at = g.range(0, len), at2 = g.range(at, len);
			PLOG(c, "array " << k << " = slices [" << at << "," << at2 << ") and [" << at2 << ",end) joined at the " );
			if (!room(len)) return;
			A a = pool[k].slice(at, at2-at), b = pool[k].slice(at2);
			std::vector<int> r(m.begin()+at, m.end());
			if (g.coin()) { if (a.isEmpty()) a = A(); a.append(b); add(a, r); }
			else { b.insert(0, a); add(b, r); }
			op = "join slices";
			break;
		}
		case 15:
		{
			size_t j = g.raw(pool.size()); int pos = g.range(0, len);
			if (len + model[j].size() > cap || !room(model[j].size())) return;
			PLOG(c, "insert array " << j << " into array " << k << " at " << pos); note(pool[k]);
			std::vector<int> r = model[j];
			pool[k].insert(pos, pool[j]); m.insert(m.begin()+pos, r.begin(), r.end()); op = "insert";
			break;
		}
		case 16:
		{
			if (!len || len*2 > cap || !room(len)) return;
			int at = g.range(0, len-1), l = g.range(1, len), pos = g.range(0, len);
			PLOG(c, "insert slice(" << at << "," << l << ") of array " << k << " into itself at " << pos); note(pool[k]);
			std::vector<int> r; for (size_t i = at; i < len && i < (size_t)(at+l); i++) r.push_back(m[i]);
			pool[k].insert(pos, pool[k].slice(at, l)); m.insert(m.begin()+pos, r.begin(), r.end()); op = "insert own slice";
			break;
		}
		case 17: { if (!len) return; int i = g.range(0, len-1), v = fresh(); PLOG(c, "set element " << i << " of array " << k << " to " << v); note(pool[k]);
			int own = g.chance(1, 5) ? (int)g.raw(len) : -1; if (own >= 0) { v = m[own]; PLOG(c, "which is its element " << own); }
			const E& r = own >= 0 ? pool[k].set(i, pool[k].elem_ref(own)) : pool[k].set(i, make<E>(v)); PCHECK(val(r) == v, "set returned " << val(r)); m[i] = v; op = "set"; break; }
		case 18: { if (!len) return; int i = g.range(0, len-1), v = fresh(); PLOG(c, "elem_mut(" << i << ") of array " << k << " = " << v); note(pool[k]); pool[k].elem_mut(i) = make<E>(v); m[i] = v; op = "elem_mut"; break; }
		case 19: { if (!len) return; int v = fresh(); PLOG(c, "last_mut of array " << k << " = " << v); note(pool[k]);
			PCHECK(val(pool[k].last()) == m.back() && val(pool[k].last_ref()) == m.back() && val(pool[k].elem_ref(0)) == m[0], "last or last_ref of array " << k);
			pool[k].last_mut() = make<E>(v); m.back() = v; op = "last_mut"; break; }
		case 20: { if (!len) return; PLOG(c, "pull from array " << k); int v = val(pool[k].pull()); PCHECK(v == m.back(), "pull returned " << v << ", expected " << m.back()); m.pop_back(); op = "pull"; break; }
		case 21: { if (!len) return; PLOG(c, "shift from array " << k); int v = val(pool[k].shift()); PCHECK(v == m[0], "shift returned " << v << ", expected " << m[0]); m.erase(m.begin()); op = "shift"; break; }
		case 22: { if (!len) return; int i = g.range(0, len-1); PLOG(c, "delete_at(" << i << ") of array " << k); note(pool[k]); int v = val(pool[k].delete_at(i)); PCHECK(v == m[i], "delete_at returned " << v << ", expected " << m[i]); m.erase(m.begin()+i); op = "delete_at"; break; }
		case 23: { int at = g.range(0, len), l = g.range(-1, len-at); PLOG(c, "remove(" << at << ", " << l << ") from array " << k); note(pool[k]); if (l == -1 && g.coin()) pool[k].remove(at); else pool[k].remove(at, l); m.erase(m.begin()+at, l < 0 ? m.end() : m.begin()+at+l); op = "remove"; break; }
		case 24: PLOG(c, "clear array " << k); pool[k].clear(); m.clear(); op = "clear"; break;
		case 25: { int l = g.range(0, len); PLOG(c, "drop(" << l << ") of array " << k); add(pool[k].drop(l), std::vector<int>(m.begin()+l, m.end())); op = "drop"; break; }
		case 26: PLOG(c, "reverse array " << k); note(pool[k]); pool[k].reverse(); std::reverse(m.begin(), m.end()); op = "reverse"; break;
		case 27:
		{
			int mod = g.range(1, 4), rem = g.range(0, 3);
			PLOG(c, "delete_if x%" << mod << "==" << rem << " from array " << k); note(pool[k]);
			std::vector<int> asked, before = m;
			pool[k].delete_if([&](const E& e) { asked.push_back(val(e)); return val(e)%mod == rem; });
			PCHECK(asked == before, "delete_if asked about " << show(asked) << ", expected " << show(before));
			m.erase(std::remove_if(m.begin(), m.end(), [&](int x) { return x%mod == rem; }), m.end()); op = "delete_if";
			break;
		}
		}
		verify(op);
	}
};

template<class I> static bool big(Gen& g, Ctx& c, size_t cap)
{
	History<int, I> h(g, c);
	h.cap = cap;
	int	saved = c.max_size;
	c.max_size = std::min(saved, 10);
	h.run();
	c.max_size = saved;
	return h.shared_write;
}

static void	run(Gen& g, Ctx& c)
{
	bool	wrote;
	switch (g.weighted({200, 200, 200, 60, 1, 1}))
	{
	case 3: { c.label("16-bit index"); PLOG(c, "int elements, 16-bit index"); History<int, uint16_t> h(g, c); h.run(); wrote = h.shared_write; break; }
	case 4: { c.label("large arrays"); PLOG(c, "int elements, large arrays"); wrote = big<ArrayIndex>(g, c, most()); break; }
	case 5: { c.label("large arrays, 16-bit index"); PLOG(c, "int elements, large arrays, 16-bit index"); wrote = big<uint16_t>(g, c, std::min(65535, most())); break; }
	case 0: { c.label("int elements"); PLOG(c, "int elements"); History<int> h(g, c); h.run(); wrote = h.shared_write; break; }
	case 1:
	{
		c.label("tracked elements"); PLOG(c, "tracked elements");
		Tracked::live().clear(); Tracked::errors() = 0;
		{ History<Tracked> h(g, c); h.run(); wrote = h.shared_write; }
		PCHECK(Tracked::errors() == 0, "an element was used before construction, after destruction, or destroyed twice (" << Tracked::errors() << " times)");
		PCHECK(Tracked::live().empty(), Tracked::live().size() << " elements were never destroyed");
		break;
	}
	default: { c.label("string elements"); PLOG(c, "string elements"); History<std::string> h(g, c); h.run(); wrote = h.shared_write; break; }
	}
	c.nontrivial = wrote;
	if (wrote) c.label("wrote to shared storage");
}

static Property	prop()
{
	Property p;
	p.id = "C09"; p.fn = run;
	p.rule = "Histories of 1 to max_size operations over a pool of up to 7 arrays and slices sharing storage (int, instrumented and heap-owning elements; owned and borrowed bodies), every array compared with a std::vector model after every operation. Non-trivial: at least one operation wrote to a non-empty array whose storage was shared at that moment.";
	return p;
}
}
#ifndef PBT_NO_MAIN
PBT_MAIN(c09::prop)
#endif
