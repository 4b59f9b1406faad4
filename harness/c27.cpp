// Values are cheap: copies and slices share storage, reading allocates nothing, and a change copies at most the value that changes.
// What each operation allocates is counted, over histories of values that share storage.
#include	"strgen.h"
#include	<array.h>
#include	<cowmap.h>
#include	<variant.h>

namespace c27 {
using namespace strgen;

struct Cost { long count, bytes; };
template<class F> static Cost cost(F f) { Meter m; f(); m.stop(); Cost r = { m.count, m.bytes }; return r; }
template<class F> static void free_of(const char* op, F f)
{
	Cost k = cost(f);
	PCHECK(k.count == 0, op << " made " << k.count << " allocation(s), of " << k.bytes << " bytes");
}
template<class F> static void within(const char* op, long count, long bytes, F f)
{
	Cost k = cost(f);
	PCHECK(k.count <= count, op << " made " << k.count << " allocations, where " << count << " are enough");
	PCHECK(k.bytes <= bytes, op << " allocated " << k.bytes << " bytes, where " << bytes << " are enough");
}
static int	size_of(Gen& g) { return g.chance(1, 4) ? (int)g.range(200, g.chance(1, 10) ? 20000 : 2000) : g.range(0, 60); }
template<class T> static void	by_value(T t) { (void)t.length(); }
static int	log2up(long n) { int r = 1; while (n > 1) { n /= 2; r++; } return r; }

// Which values share a body
typedef std::shared_ptr<int> Id;
static Id	fresh() { return std::make_shared<int>(0); }

struct Strings
{
	Gen& g; Ctx& c;
	struct S { StrVal s; Id id; long bytes; };	// bytes: those of its own text
	std::vector<S>	pool;
	static long	measure(const StrVal& s) { StrValIndex n; s.asUTF8(n); return n; }
	void	add(const StrVal& s, Id id)
	{
		S	n = { s, id, measure(s) };
		if (pool.size() < 6) pool.push_back(n); else pool[g.raw(pool.size())] = n;
	}
	Text	words() { int n = size_of(g); return n > 200 ? long_text(g, n) : text(g, n); }
	void	make() { Text t = words(); PLOG(c, "new string of " << t.size()); add(val(t), fresh()); }
	void	read(S& e)
	{
		StrVal&	s = e.s; const StrVal& cs = s; StrVal& o = pool[g.raw(pool.size())].s; StrVal out, ch('a');
		size_t	n = s.length(), at = g.range(0, n); int len = g.range(-1, n+1), a = n ? (int)g.range(-1, n-1) : -1, r;
		UCS4	u = one_char(g); bool b; StrValIndex k; const char* p; ErrNum en;
		switch (g.raw(14))
		{
		case 0: PLOG(c, "copy"); free_of("copying a string", [&]() { StrVal t(s); out = t; }); add(out, e.id); break;
		case 1: PLOG(c, "pass by value"); free_of("passing a string by value", [&]() { by_value<StrVal>(s); }); break;
		case 2: PLOG(c, "substr " << at << "," << len); free_of("substr", [&]() { out = s.substr(at, len); }); add(out, e.id); break;
		case 3: PLOG(c, "head " << at); free_of("head", [&]() { out = s.head(at); }); add(out, e.id); break;
		case 4: PLOG(c, "tail " << at); free_of("tail", [&]() { out = s.tail(at); }); add(out, e.id); break;
		case 5: PLOG(c, "shorter " << at); free_of("shorter", [&]() { out = s.shorter(at); }); add(out, e.id); break;
		case 6: PLOG(c, "compare"); free_of("comparing strings", [&]() { b = s == o; b = s < o; r = s.compare(o); }); break;
		case 7: PLOG(c, "find"); free_of("searching a string for a character", [&]() { r = s.find(u, a); r = s.rfind(u, a); }); break;
		case 8: PLOG(c, "find string"); if (o.length() < 100 || n < 200) free_of("searching a string for a string", [&]() { r = s.find(o, a); r = s.rfind(o, a); }); break;
		case 9: PLOG(c, "find set"); if (o.length() < 10 || n < 100) free_of("searching a string for a set", [&]() { r = s.findAny(o, a); r = s.rfindAny(o, a); r = s.findNot(o, a); r = s.rfindNot(o, a); }); break;
		case 10: PLOG(c, "characters"); free_of("reading characters", [&]() { for (size_t i = 0; i < n; i++) u = s[i]; u = cs[at]; k = s.length(); b = s.isEmpty(); k = s.numBytes(); }); break;
		case 11: PLOG(c, "bytes"); free_of("fetching the bytes of a string", [&]() { p = s.asUTF8(k); }); break;
		case 12: PLOG(c, "number"); free_of("converting a string to a number", [&]() { r = s.asInt32(&en, 0, &k); }); break;
		case 13: // The two halves together again
			PLOG(c, "halves at " << at); if (at == 0 || at == n) break;
			{ StrVal h = s.head(at), t = s.substr(at); free_of("joining adjacent slices", [&]() { out = h+t; h += t; }); add(g.coin() ? out : h, e.id); break; }
		}
		c.label("read a string");
	}
	void	write(S& e)
	{
		S&	from = pool[g.raw(pool.size())];
		StrVal	o = from.s;		// which shares its storage
		long	own = e.bytes, added = from.bytes, room = 400 + 4*(own+added);
		size_t	at = g.range(0, e.s.length());
		UCS4	u = one_char(g); StrVal out; const char* p;
		if (own+added > 100000) { e = S{ StrVal(), fresh(), 0 }; return; }
		bool	shared = e.id.use_count() > 1;
		switch (g.raw(9))
		{
		case 0: PLOG(c, "append character"); within("appending a character", 5, room, [&]() { e.s += u; }); break;
		case 1: PLOG(c, "append"); within("appending a string", 5, room, [&]() { e.s += o; }); break;
		case 2: PLOG(c, "insert at " << at); within("inserting a string", 5, room, [&]() { e.s.insert(at, o); }); break;
		case 3: PLOG(c, "prepend"); within("prepending a string", 5, room, [&]() { e.s.prepend(o); }); break;
		case 4: PLOG(c, "add"); within("adding strings", 6, room, [&]() { out = e.s + o; }); add(out, fresh()); return;
		case 5: PLOG(c, "asUTF8"); within("fetching terminated text", 3, room, [&]() { p = e.s.asUTF8(); }); break;
		case 6:
			if (own > 3000) return;
			PLOG(c, "change case"); within("changing case", 20+own*4, 1000+own*200, [&]() { if (g.coin()) e.s.toUpper(); else e.s.toLower(); }); break;
		case 7: PLOG(c, "assign"); free_of("assigning a string", [&]() { e.s = o; }); e.id = from.id; e.bytes = from.bytes; return;
		case 8: // Many appends to a string that is not shared
		{
			int	n = g.range(1, g.chance(1, 15) ? 20000 : 600); Text t = words(); StrVal mine = val(t); long start = measure(mine);
			PLOG(c, n << " characters onto a new string of " << t.size());
			Cost	k = cost([&]() { for (int i = 0; i < n; i++) mine += u; });
			long	end = measure(mine);
			PCHECK(k.count <= 8+4*log2up(n+4), "appending " << n << " characters one by one to a string that shares with none made " << k.count << " allocations");
			PCHECK(k.bytes <= 1000+12*end, "appending " << n << " characters one by one to a string of " << start << " bytes that shares with none allocated " << k.bytes << " bytes");
			add(mine, fresh()); c.label("many appends"); return;
		}
		}
		e.id = fresh(); e.bytes = measure(e.s);
		if (shared) { c.label("wrote a string that shared storage"); c.nontrivial = true; }
	}
	void	run()
	{
		make();
		for (int n = g.range(2, c.max_size); n > 0; n--)
		{
			int	what = g.weighted({3, 8, 5}), i = g.raw(pool.size());
			PLOG(c, "string " << i << ":");
			pool.reserve(8);
			if (what == 0) make(); else if (what == 1) { S e = pool[i]; read(e); } else write(pool[i]);
		}
	}
};

template<class E> struct Arrays
{
	Gen& g; Ctx& c;
	typedef Array<E> A;
	struct S { A a; };
	static const void* body_of(const A& a) { return a.asElements() ? (const void*)&*a : 0; }
	bool	shares(const A& a) { int n = 0; if (body_of(a)) for (auto& e : pool) n += body_of(e.a) == body_of(a); return n > 1; }
	std::vector<S>	pool;
	static E	elem(Gen& g) { return value(g.range(0, 9), (E*)0); }
	static int	value(int n, int*) { return n; }
	static StrVal	value(int n, StrVal*) { static const StrVal* v[10]; if (!v[n]) v[n] = new StrVal(std::string(n+1, 'a'+n).c_str()); return *v[n]; }
	void	add(const A& a) { S n = { a }; if (pool.size() < 6) pool.push_back(n); else pool[g.raw(pool.size())] = n; }
	void	make()
	{
		std::vector<E> v; int n = size_of(g); for (int i = 0; i < n; i++) v.push_back(value(i*7%10, (E*)0));
		PLOG(c, "new array of " << n);
		A a; within("making an array", 2, 300+(n+16)*(long)sizeof(E), [&]() { a = A(v.data(), (ArrayIndex)n); }); add(a);
	}
	void	read(S& e)
	{
		A&	a = e.a; A& o = pool[g.raw(pool.size())].a; A out; int n = a.length(), at = g.range(0, n), len = g.range(-1, n+1), r; bool b; long sum = 0;
		const E k = elem(g);
		switch (g.raw(13))
		{
		case 0: PLOG(c, "copy"); free_of("copying an array", [&]() { A t(a); out = t; }); add(out); break;
		case 1: PLOG(c, "pass by value"); free_of("passing an array by value", [&]() { by_value<A>(a); }); break;
		case 2: PLOG(c, "slice " << at << "," << len); free_of("slice", [&]() { out = a.slice(at, len); }); add(out); break;
		case 3: PLOG(c, "head, tail, shorter " << at);
			free_of("head, tail and shorter", [&]() { A h = a.head(at), t = a.tail(at), s = a.shorter(at); out = h; out = t; out = s; }); add(out); break;
		case 4: PLOG(c, "compare"); free_of("comparing arrays", [&]() { b = a == o; b = a != o; r = a.compare(o); }); break;
		case 5: PLOG(c, "find"); free_of("searching an array", [&]() { r = a.find(k); r = a.rfind(k); }); break;
		case 6: PLOG(c, "functions"); free_of("each, all, any, one and searches by function", [&]() {
				a.each([&](const E& x) { sum++; });
				b = a.all([&](const E& x) { return true; }); b = a.any([&](const E& x) { return false; }); b = a.one([&](const E& x) { return false; });
				std::function<bool(const E&)> is = [&](const E& x) { return x == k; };
				r = a.find(is); r = a.rfind(is); r = a.detect(is);
				r = a.bsearch([&](const E& x) { return 1; });
				sum = a.template inject<long>(0, [&](long& l, const E& x) { return l+1; });
			}); break;
		case 7: PLOG(c, "elements"); free_of("reading elements", [&]() { for (int i = 0; i < n; i++) { E x = a[i]; const E& y = a.elem_ref(i); b = x == y; } b = a.isEmpty(); b = a.isShared(); const E* p = a.asElements(); if (n) E z = a.last(); }); break;
		case 8: PLOG(c, "halves at " << at); if (at == 0 || at == n) break;
			{ A h = a.head(at), t = a.slice(at), h2 = h, t2 = t; free_of("joining adjacent slices", [&]() { out = h+t; h2.append(t); h += t; }); add(g.coin() ? out : h); break; }
		case 9: PLOG(c, "shorten at both ends"); if (n < 3) break;
			free_of("taking elements off the ends of an array", [&]() { E x = a.pull(); x = a.shift(); A d = a.drop(1); a = d; }); break;
		case 10: PLOG(c, "remove an end"); if (!at) break;
			free_of("removing the start or the end of an array", [&]() { if (g.coin()) a.remove(0, at); else a.remove(n-at); }); break;
		case 11: PLOG(c, "delete_if, none"); free_of("delete_if that deletes none", [&]() { a.delete_if([&](const E& x) { return false; }); }); break;
		case 12: PLOG(c, "map"); within("map", 3, 400+(n+16)*(long)sizeof(E), [&]() { out = a.template map<A, E>([&](const E& x) { return x; }); }); add(out); break;
		}
		c.label("read an array");
	}
	void	write(S& e)
	{
		S&	from = pool[g.raw(pool.size())];
		A	o = from.a; A& a = e.a; int n = a.length(), at = g.range(0, n);
		const E k = elem(g);
		bool	shared = shares(a) || (body_of(a) && body_of(a) == body_of(o));
		if (n + o.length() > 100000) { e = S{ A() }; return; }
		const void* body = body_of(a);
		long	grows = !shared && body ? a->length() : n;	// A body that is not shared may grow in place
		long	room = 400 + 4*(long)sizeof(E)*(grows + o.length() + 16);
		switch (g.raw(10))
		{
		case 0: PLOG(c, "set"); if (n == at) return; if (shared) within("setting an element", 2, 400+(n+16)*(long)sizeof(E), [&]() { a.set(at, k); }); else free_of("setting an element of an array that shares with none", [&]() { a.set(at, k); }); break;
		case 1: PLOG(c, "reverse"); if (shared) within("reversing an array", 2, room, [&]() { a.reverse(); }); else free_of("reversing an array that shares with none", [&]() { a.reverse(); }); if (!n) return; break;
		case 2: PLOG(c, "remove from the middle"); if (n < 3) return; if (shared) within("removing elements", 2, room, [&]() { a.remove(1, 1); }); else free_of("removing elements of an array that shares with none", [&]() { a.remove(1, 1); }); break;
		case 3: PLOG(c, "append element"); within("appending an element", 3, room, [&]() { a << k; }); break;
		case 4: PLOG(c, "append array"); within("appending an array", 3, room, [&]() { a.append(o); }); break;
		case 5: PLOG(c, "insert at " << at); within("inserting an array", 3, room, [&]() { a.insert(at, o); }); break;
		case 6: PLOG(c, "unshift"); within("inserting an element at the start", 3, room, [&]() { a.unshift(k); }); break;
		case 7: PLOG(c, "delete_if"); within("delete_if", shared ? 2 : 0, room, [&]() { a.delete_if([&](const E& x) { return x == k; }); }); break;
		case 8: { PLOG(c, "add"); A out; within("adding arrays", 4, room, [&]() { out = a + o; }); add(out); return; }
		case 9: // Many appends to one that is not shared
		{
			int	m = g.range(1, g.chance(1, 15) ? 100000 : 1000); A mine; std::vector<E> v(g.range(0, 30), k); if (v.size()) mine = A(v.data(), v.size());
			PLOG(c, m << " elements onto a new array of " << v.size());
			Cost	t = cost([&]() { for (int i = 0; i < m; i++) mine << k; });
			PCHECK(t.count <= 8+3*log2up(m+4), "appending " << m << " elements one by one to an array that shares with none made " << t.count << " allocations");
			PCHECK(t.bytes <= 1000+8*(long)sizeof(E)*mine.length(), "appending " << m << " elements one by one to an array of " << v.size() << " that shares with none allocated " << t.bytes << " bytes");
			add(mine); c.label("many appends"); return;
		}
		}
		if (shared && body_of(a) != body) { c.label("wrote an array that shared storage"); c.nontrivial = true; }
	}
	void	run()
	{
		make();
		for (int n = g.range(2, c.max_size); n > 0; n--)
		{
			int	what = g.weighted({3, 8, 5}), i = g.raw(pool.size());
			PLOG(c, "array " << i << ":");
			pool.reserve(8);
			if (what == 0) make(); else if (what == 1) { S e = pool[i]; read(e); } else write(pool[i]);
		}
	}
};

struct Maps
{
	Gen& g; Ctx& c;
	typedef CowMap<StrVal> M;
	struct S { M m; Id id; };
	std::vector<S>	pool;
	StrVal	key() { return Arrays<StrVal>::value(g.range(0, 9), (StrVal*)0); }
	void	add(const M& m, Id id) { S n = { m, id }; if (pool.size() < 5) pool.push_back(n); else pool[g.raw(pool.size())] = n; }
	void	make()
	{
		M	m; int n = size_of(g)/4;
		PLOG(c, "new map of about " << n);
		for (int i = 0; i < n; i++) m.put(StrVal(std::to_string(i*37%1000).c_str()), key());
		add(m, fresh());
	}
	void	step()
	{
		int	i = g.raw(pool.size());
		S&	e = pool[i]; M& m = e.m; M out; StrVal v; bool b; long n = m.size(), sum = 0;
		StrVal	k = n && g.coin() ? std::next(m.begin(), g.range(0, n-1))->first : key();
		bool	shared = e.id.use_count() > 1, has = m.contains(k);
		const long node = 200, all = (n+4)*node;
		PLOG(c, "map " << i << " of " << n << (shared ? ", shared:" : ":"));
		switch (g.raw(11))
		{
		case 0: PLOG(c, "copy"); free_of("copying a map", [&]() { M t(m); out = t; }); add(out, e.id); break;
		case 1: PLOG(c, "assign"); { S& from = pool[g.raw(pool.size())]; free_of("assigning a map", [&]() { m = from.m; }); e.id = from.id; break; }
		case 2: PLOG(c, "look up"); free_of("looking up a key", [&]() { v = m[k]; b = m.contains(k); b = m.find(k) == m.end(); n = m.size(); }); break;
		case 3: PLOG(c, "iterate"); free_of("iterating over a map", [&]() { for (auto it = m.begin(); it != m.end(); it++) { StrVal k = it->first, v = it->second; sum += v.length(); } }); break;
		case 4: PLOG(c, "functions"); free_of("each, all, any, one and inject of a map", [&]() {
				m.each([&](const StrVal& k, const StrVal& v) { sum++; });
				b = m.all([&](const StrVal& k, const StrVal& v) { return true; }); b = m.any([&](const StrVal& k, const StrVal& v) { return false; });
				b = m.one([&](const StrVal& k, const StrVal& v) { return false; });
				sum = m.inject<long>(0, [&](long& l, const StrVal& k, const StrVal& v) { return l+1; });
			}); break;
		case 5: { PLOG(c, "keys, values"); Array<StrVal> a; within("keys", 3, 400+(n+16)*(long)sizeof(StrVal), [&]() { a = m.keys(); }); within("values", 3, 400+(n+16)*(long)sizeof(StrVal), [&]() { a = m.values(); }); break; }
		case 6: PLOG(c, "put"); v = key(); if (shared) within("putting a key into a map that shares", n+4, all, [&]() { m.put(k, v); }); else within("putting a key into a map that shares with none", 2, 2*node, [&]() { m.put(k, v); });
			e.id = fresh(); goto wrote;
		case 7: PLOG(c, "insert"); v = key(); if (shared) within("inserting a key into a map that shares", n+4, all, [&]() { m.insert(k, v); }); else within("inserting a key into a map that shares with none", 2, 2*node, [&]() { m.insert(k, v); });
			e.id = fresh(); goto wrote;
		case 8: PLOG(c, "remove"); if (shared) within("removing a key from a map that shares", n+4, all, [&]() { m.remove(k); }); else free_of("removing a key from a map that shares with none", [&]() { m.remove(k); });
			e.id = fresh(); goto wrote;
		case 9: PLOG(c, "clear"); within("clearing a map", 2, 300, [&]() { m.clear(); }); e.id = fresh(); break;
		case 10: { PLOG(c, "as a variant's"); StrVariantMap vm; vm.put(k, v); Variant a(vm), z; free_of("copying a variant of a map", [&]() { Variant t(a); z = t; StrVariantMap back = z.as_variant_map(); }); break; }
		wrote:	if (shared) { c.label("wrote a map that shared storage"); c.nontrivial = true; }
		}
		c.label("map");
	}
	void	run() { pool.reserve(8); make(); for (int n = g.range(2, c.max_size); n > 0; n--) if (g.chance(1, 6)) make(); else step(); }
};

// Variants, which may hold each other
static Variant	make_variant(Gen& g, int depth)
{
	switch (g.raw(depth > 3 ? 5 : 8))
	{
	case 0: return Variant();
	case 1: return Variant((int)g.u32());
	case 2: return Variant((long)g.u32());
	case 3: return Variant((long long)g.u32());
	case 4: return Variant(val(text(g, size_of(g))));
	case 5: { StringArray a; for (int n = g.range(0, 10); n > 0; n--) a << val(text(g, 8)); return Variant(a); }
	case 6: { VariantArray a; for (int n = g.range(0, 5); n > 0; n--) a << make_variant(g, depth+1); return Variant(a); }
	default: { StrVariantMap m; for (int n = g.range(0, 5); n > 0; n--) m.put(val(text(g, 4)), make_variant(g, depth+1)); return Variant(m); }
	}
}
static void	take(Variant v) { (void)v.type(); }
static void	variants(Gen& g, Ctx& c)
{
	std::vector<Variant> pool;
	pool.push_back(make_variant(g, 0));
	for (int n = g.range(2, c.max_size); n > 0; n--)
	{
		if (pool.size() < 5 && g.chance(1, 3)) { PLOG(c, "new variant"); pool.push_back(make_variant(g, 0)); continue; }
		int	i = g.raw(pool.size()), j = g.raw(pool.size()); Variant out; bool b; const char* p;
		PLOG(c, "variants " << i << " (" << pool[i].type_name() << ") and " << j << " (" << pool[j].type_name() << ")");
		switch (g.raw(4))
		{
		case 0: free_of("copying a variant", [&]() { Variant t(pool[i]); out = t; take(out); }); break;
		case 1: free_of("assigning a variant", [&]() { pool[i] = pool[j]; }); break;
		case 2:	free_of("looking at a variant", [&]() { b = pool[i].is_null(); p = pool[i].type_name(); }); break;
		case 3:
		{
			const Variant& v = pool[i];
			free_of("fetching the value of a variant", [&]() {
				switch (v.type())
				{
				case Variant::Integer: v.as_int(); break;
				case Variant::Long: v.as_long(); break;
				case Variant::LongLong: v.as_longlong(); break;
				case Variant::String: { StrVal s = v.as_strval(); b = s.isEmpty(); } break;
				case Variant::StrArray: { StringArray a = v.as_string_array(); for (int k = 0; k < (int)a.length(); k++) StrVal e = a[k]; } break;
				case Variant::VarArray: { VariantArray a = v.as_variant_array(); for (int k = 0; k < (int)a.length(); k++) Variant e = a[k]; } break;
				case Variant::StrVarMap: { StrVariantMap m = v.as_variant_map(); for (auto it = m.begin(); it != m.end(); it++) Variant e = it->second; } break;
				default: break;
				}
			});
			break;
		}
		}
		if (pool[i].type() >= Variant::String) { c.label(std::string("variant of ") + pool[i].type_name()); c.nontrivial = true; }
	}
}

static void	prop(Gen& g, Ctx& c)
{
	switch (g.weighted({4, 3, 2, 3, 2}))
	{
	case 0: { PLOG(c, "strings"); Strings t{g, c}; t.run(); break; }
	case 1: { PLOG(c, "arrays of integers"); Arrays<int> t{g, c}; t.run(); break; }
	case 2: { PLOG(c, "arrays of strings"); Arrays<StrVal> t{g, c}; t.run(); break; }
	case 3: { PLOG(c, "maps"); Maps t{g, c}; t.run(); break; }
	case 4: { PLOG(c, "variants"); variants(g, c); break; }
	}
}
static Property	property()
{
	Property p; p.id = "C27"; p.fn = prop; p.meter = true;
	p.rule = "a history of up to 16 operations, each with its allocations counted, in which a value that shared storage was changed, or a variant of more than an integer was used";
	return p;
}
}
PBT_MAIN(c27::property)
