// Copy-on-write maps against std::map, over a pool of maps that share storage
#include	"strgen.h"
#include	<array.h>
#include	<cowmap.h>
#include	<set>

namespace c11 {
using namespace strgen;

// A value that knows whether it is alive
struct Tracked
{
	static std::set<const Tracked*>& live() { static std::set<const Tracked*> s; return s; }
	static long&	errors() { static long e; return e; }
	int		value;
	void		born() { if (!live().insert(this).second) errors()++; }
	void		alive() const { if (!live().count(this)) errors()++; }
	Tracked() : value(0) { born(); }
	Tracked(int v) : value(v) { born(); }
	Tracked(const Tracked& o) : value(o.value) { o.alive(); born(); }
	Tracked& operator=(const Tracked& o) { alive(); o.alive(); value = o.value; return *this; }
	~Tracked() { if (!live().erase(this)) errors()++; value = -88; }
	bool operator==(const Tracked& o) const { return value == o.value; }
	bool operator<(const Tracked& o) const { alive(); o.alive(); return value < o.value; }
};
// Conversions between small integers and keys or values; order is preserved for keys
template<class T> struct Of;
template<> struct Of<int> { static int make(int i) { return i; } static int num(const int& i) { return i; } };
template<> struct Of<Tracked> { static Tracked make(int i) { return Tracked(i); } static int num(const Tracked& i) { i.alive(); return i.value; } };
template<> struct Of<StrVal>
{
	static StrVal make(int i) { if (!i) return StrVal(); std::string s; s += (char)('a'+i/16); s += (char)('a'+i%16); if (i%3) s += "\xC3\xA9"; s += "0123456789ABCDEF"; return StrVal(s.c_str()); }
	static int num(const StrVal& s) { return s.length() ? (s[0]-'a')*16 + s[1]-'a' : 0; }
};
template<> struct Of<std::string> { static std::string make(int i) { return i ? std::string(1, 'a'+i/16) + std::string(1, 'a'+i%16) + "--------------------------" : std::string(); } static int num(const std::string& s) { return s.empty() ? 0 : (s[0]-'a')*16 + s[1]-'a'; } };

typedef std::map<int,int> M;
typedef std::vector<std::pair<int,int>> Seq;
static std::string show(const M& m) { std::string s = "{"; for (auto& e : m) s += std::to_string(e.first) + ":" + std::to_string(e.second) + " "; return s + "}"; }

template<class V, class K> struct History
{
	typedef CowMap<V, K> Map;
	Gen& g; Ctx& c;
	std::vector<Map> pool; std::vector<M> model;
	int	top = g.chance(1, 10) ? g.chance(1, 8) ? 400 : 60 : 7;	// keys are 0 to this
	bool	quiet = false;		// do not look (it would fill caches)

	K	key(int i) { return Of<K>::make(i); }
	V	val(int i) { return Of<V>::make(i); }
	Seq	seq(const M& m) { return Seq(m.begin(), m.end()); }
	Seq	seq(const Map& m) { Seq s; for (auto it = m.begin(); it != m.end(); it++) s.push_back({Of<K>::num(it->first), Of<V>::num(it->second)}); return s; }
	void	check(const char* op)
	{
		if (quiet) return;
		for (size_t k = 0; k < pool.size(); k++)
		{
			PCHECK(pool[k].size() == model[k].size(), "after " << op << " map " << k << " has size " << pool[k].size() << ", not " << model[k].size());
			PCHECK(seq(pool[k]) == seq(model[k]), "after " << op << " map " << k << " iterates otherwise than " << show(model[k]));
			int	i = g.range(0, top);
			bool	has = model[k].count(i);
			PCHECK(pool[k].contains(key(i)) == has, "after " << op << " map " << k << " contains(" << i << ") is " << !has << "; it is " << show(model[k]));
			V	v = pool[k][key(i)];
			PCHECK(v == (has ? val(model[k][i]) : V()), "after " << op << " map " << k << " at " << i << " is " << Of<V>::num(v) << "; it is " << show(model[k]));
			auto	it = pool[k].find(key(i));
			PCHECK((it != pool[k].end()) == has && (!has || (Of<K>::num(it->first) == i && it->second == val(model[k][i]))), "after " << op << " find(" << i << ") in map " << k);
			PCHECK(pool[k].size() == model[k].size(), "looking something up in map " << k << " changed its size");
		}
		PCHECK(Tracked::errors() == 0, "after " << op << " a value was used while not alive");
	}
	void	add(const Map& m, const M& r) { if (pool.size() >= 5) { int k = g.raw(5); pool[k] = m; model[k] = r; } else { pool.push_back(m); model.push_back(r); } }
	bool	shared(int k) { for (size_t j = 0; j < model.size(); j++) if ((int)j != k && model[j] == model[k] && model[k].size()) return true; return false; }
	const char* mutate(int k)
	{
		int i = g.range(0, top), v = g.range(1, 20);
		if (shared(k)) { c.nontrivial = true; c.label("changed a map that shared storage"); }
		switch (g.weighted({4, 4, 4, 1, 1}))
		{
		case 0: PLOG(c, "map " << k << " insert " << i << ":" << v); pool[k].insert(key(i), val(v)); model[k].insert({i, v}); return "insert";
		case 1:
		{
			PLOG(c, "map " << k << " put " << i << ":" << v);
			K	r = pool[k].put(key(i), val(v));
			PCHECK(r == key(i), "put returned another key");
			model[k][i] = v; return "put";
		}
		case 2: PLOG(c, "map " << k << " remove " << i); pool[k].remove(key(i)); model[k].erase(i); return "remove";
		case 3: PLOG(c, "map " << k << " clear"); pool[k].clear(); model[k].clear(); return "clear";
		case 4:		// a key (and value) that the map itself holds
		{
			if (model[k].empty()) return "";
			auto it = pool[k].begin(); int n = g.raw(model[k].size()); while (n--) it++;
			int	kk = Of<K>::num(it->first), vv = Of<V>::num(it->second);
			switch (g.raw(3))
			{
			case 0: PLOG(c, "map " << k << " put its own key " << kk << ":" << v); pool[k].put(it->first, val(v)); model[k][kk] = v; return "put of its own key";
			case 1: PLOG(c, "map " << k << " remove its own key " << kk); pool[k].remove(it->first); model[k].erase(kk); return "remove of its own key";
			default: PLOG(c, "map " << k << " put its own value " << vv << " at " << i); pool[k].put(key(i), it->second); model[k][i] = vv; return "put of its own value";
			}
		}
		}
		return "";
	}
	const char* functional(int k)
	{
		const Map& m = pool[k]; const M& r = model[k];
		int	mod = g.range(1, 4), at = g.range(0, 3);
		auto	cond = [=](const K& kk, const V& v) { return (Of<K>::num(kk)*3 + Of<V>::num(v)) % mod == at; };
		auto	rcond = [=](const std::pair<const int,int>& e) { return (e.first*3 + e.second) % mod == at; };
		Seq	seen;
		int	hits = 0; for (auto& e : r) hits += rcond(e);
		if (r.size() > 1) c.nontrivial = true;
		switch (g.raw(9))
		{
		case 0: { PLOG(c, "keys of " << k); Array<K> a = m.keys(); PCHECK(a.length() == r.size(), "keys has " << a.length() << " elements"); int i = 0; for (auto& e : r) { PCHECK(Of<K>::num(a[i]) == e.first, "keys[" << i << "]"); i++; } return "keys"; }
		case 1: { PLOG(c, "values of " << k); Array<V> a = m.values(); PCHECK(a.length() == r.size(), "values has " << a.length() << " elements"); int i = 0; for (auto& e : r) { PCHECK(Of<V>::num(a[i]) == e.second, "values[" << i << "]"); i++; } return "values"; }
		case 2: { PLOG(c, "each of " << k); m.each([&](const K& kk, const V& v) { seen.push_back({Of<K>::num(kk), Of<V>::num(v)}); }); PCHECK(seen == seq(r), "each visits otherwise than " << show(r)); return "each"; }
		case 3: { PLOG(c, "all of " << k); PCHECK(m.all(cond) == (hits == (int)r.size()), "all() of " << show(r)); return "all"; }
		case 4: { PLOG(c, "any of " << k); PCHECK(m.any(cond) == (hits > 0), "any() of " << show(r)); return "any"; }
		case 5: { PLOG(c, "one of " << k); PCHECK(m.one(cond) == (hits == 1), "one() of " << show(r) << " with " << hits << " satisfying"); return "one"; }
		case 6: { PLOG(c, "select of " << k); Map s = m.select(cond); M rs; for (auto& e : r) if (rcond(e)) rs.insert(e); PCHECK(seq(s) == seq(rs), "select of " << show(r)); add(s, rs); return "select"; }
		case 7:
		{
			PLOG(c, "map of " << k);
			CowMap<int, int> s = m.template map<int, int>([&](const K& kk, const V& v) { seen.push_back({Of<K>::num(kk), Of<V>::num(v)}); return std::pair<int,int>(100-Of<K>::num(kk), Of<V>::num(v)*2); });
			Seq want, got; for (auto& e : r) want.insert(want.begin(), {100-e.first, e.second*2});
			for (auto it = s.begin(); it != s.end(); it++) got.push_back(*it);
			PCHECK(seen == seq(r), "map visits otherwise than " << show(r)); PCHECK(got == want, "map of " << show(r)); return "map";
		}
		default:
		{
			PLOG(c, "inject of " << k);
			std::function<std::string(std::string&, const K&, const V&)> f = [](std::string& a, const K& kk, const V& v) { return a + std::to_string(Of<K>::num(kk)) + ":" + std::to_string(Of<V>::num(v)) + " "; };
			std::string s = m.template inject<std::string>(std::string("{"), f);
			PCHECK(s + "}" == show(r), "inject gives " << s << " for " << show(r)); return "inject";
		}
		}
	}
	void	run()
	{
		int	n = g.range(1, c.max_size);
		for (int step = 0; step < n && !(g.exhausted() && step > 3); step++)
		{
			int	k = pool.empty() ? 0 : g.raw(pool.size());
			const char* op = "";
			switch (pool.empty() ? (g.coin() ? 1 : 0) : g.weighted({1, 2, 4, 2, 12, 3, 3}))
			{
			case 0: PLOG(c, "empty map"); add(Map(), M()); op = "construction"; break;
			case 1:
			{
				std::vector<K> ks; std::vector<V> vs; M r;
				for (int i = g.range(0, top > 60 ? 500 : top > 7 ? 80 : 6); i > 0; i--) { int a = g.range(0, top), b = g.range(1, 20); ks.push_back(key(a)); vs.push_back(val(b)); r.insert({a, b}); }
				PLOG(c, "map from arrays " << show(r));
				add(Map(ks.data(), vs.data(), ks.size()), r); op = "construction from arrays"; break;
			}
			case 2: { PLOG(c, "copy " << k); Map m = pool[k]; M r = model[k]; add(m, r); op = "copying"; break; }
			case 3: { int j = g.raw(pool.size()); PLOG(c, "assign " << j << " to " << k); Map& r = (pool[k] = pool[j]); PCHECK(&r == &pool[k], "assignment returns another object"); model[k] = model[j]; op = "assignment"; break; }
			case 4: op = mutate(k); break;
			case 5: op = functional(k); break;
			case 6:		// an iteration of a copy goes on undisturbed by changes to the original
			{
				PLOG(c, "iterate over a copy of " << k << " while changing it");
				Map	copy = pool[k]; M r = model[k]; Seq seen;
				if (g.coin())
					for (auto it = copy.begin(); it != copy.end(); it++) { seen.push_back({Of<K>::num(it->first), Of<V>::num(it->second)}); mutate(k); }
				else
					copy.each([&](const K& kk, const V& v) { mutate(k); seen.push_back({Of<K>::num(kk), Of<V>::num(v)}); });
				PCHECK(seen == seq(r), "iterating over a copy of " << show(r) << " while the original changed visited other entries");
				PCHECK(seq(copy) == seq(r), "changing the original changed the copy");
				op = "iteration"; break;
			}
			}
			check(op);
		}
	}
};
template<class V, class K> static void go(Gen& g, Ctx& c)
{
	size_t	live = Tracked::live().size(); long errors = Tracked::errors();
	{ History<V, K> h{g, c}; h.run(); }
	PCHECK(Tracked::live().size() == live, Tracked::live().size()-live << " values were never destroyed");
	PCHECK(Tracked::errors() == errors, "a value was used or destroyed while not alive");
}
static void	run(Gen& g, Ctx& c)
{
	Tracked::live().clear(); Tracked::errors() = 0;
	switch (g.raw(4))
	{
	case 0: c.label("int by int"); go<int, int>(g, c); break;
	case 1: c.label("tracked value by string"); go<Tracked, StrVal>(g, c); break;
	case 2: c.label("string by tracked key"); go<std::string, Tracked>(g, c); break;
	case 3: c.label("string by string"); go<StrVal, StrVal>(g, c); break;
	}
}

static Property	prop()
{
	Property p;
	p.id = "C11"; p.fn = run;
	p.rule = "Histories of 1 to max_size operations over a pool of maps that share storage, every map compared with its model after each. Non-trivial: a map was changed while another held the same entries, or a functional operation visited two or more.";
	return p;
}
}
#ifndef PBT_NO_MAIN
PBT_MAIN(c11::prop)
#endif
