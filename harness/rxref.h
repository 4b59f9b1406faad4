#pragma once
// Reference for regular expressions: a syntax tree, a parser that honours the feature masks, a renderer, and an
// evaluator that works on sets of positions.
#include	"pbt.h"
#include	"refutf8.h"
#include	<strregex.h>
#include	<set>
#include	<memory>

namespace rxref {
using namespace pbt;
using ref::U;
typedef std::vector<U> Text;

enum Kind { Char, Any, Class, Prop, Bol, Eol, Group, Named, NegLook };
struct Node;
typedef std::vector<Node> Seq;
struct Node
{
	Kind	kind = Char;
	U	ch = 0;			// Char, Prop
	bool	neg = false;		// Class
	std::vector<std::pair<U,U>> ranges;
	std::vector<Seq> alts;		// Group, Named, NegLook
	int	name = 0;		// Named: number of the group, from 1
	bool	rep = false;
	int	min = 1, max = 1;	// max < 0: no limit
};
struct Regex
{
	std::vector<Seq> alts;
	std::vector<std::string> names;
	bool	unknown_property = false;	// \p{...}: nothing is said of what it matches
};

inline bool	white(U c) { return UCS4IsWhite(c); }		// C05 decides these
inline bool	digit(U c) { return UCS4Digit(c) >= 0; }

struct TooLong {};
typedef std::set<size_t> Ends;

struct Eval
{
	const Text&	t;
	long		steps = 0, limit;
	std::map<std::pair<const Node*, size_t>, Ends> memo;

	Eval(const Text& _t, long _limit = 200000) : t(_t), limit(_limit) {}

	void	work(size_t n) { steps += n; if (steps > limit) throw TooLong(); }
	bool	one(const Node& n, U c)
	{
		switch (n.kind)
		{
		case Char: return c == n.ch;
		case Any: return true;
		case Class:
		{
			bool	in = false;
			for (auto& r : n.ranges) if (c >= r.first && c <= r.second) in = true;
			return in != n.neg;
		}
		case Prop:
			return n.ch == 's' ? white(c) : n.ch == 'd' ? digit(c) : (digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'));
		default: return false;
		}
	}
	// Where a single occurrence can end
	Ends	once(const Node& n, size_t p)
	{
		if (++steps > limit) throw TooLong();
		switch (n.kind)
		{
		case Bol: if (p == 0 || t[p-1] == '\n') return Ends{p}; return Ends();
		case Eol: if (p == t.size() || t[p] == '\n') return Ends{p}; return Ends();
		case Group: case Named: return alts(n.alts, p);
		case NegLook: if (alts(n.alts, p).empty()) return Ends{p}; return Ends();
		default:
			if (p < t.size() && one(n, t[p])) return Ends{p+1};
			return Ends();
		}
	}
	const Ends& single(const Node& n, size_t p)
	{
		auto	k = std::make_pair(&n, p);
		auto	f = memo.find(k);
		if (f != memo.end()) return f->second;
		Ends	e = once(n, p);
		return memo[k] = e;
	}
	Ends	node(const Node& n, size_t p)
	{
		if (!n.rep) return single(n, p);
		Ends	now{p}, result;
		int	k = 0;
		auto	step = [&]() {
			Ends	next;
			for (size_t q : now) { const Ends& e = single(n, q); work(1+e.size()/4); next.insert(e.begin(), e.end()); }
			if (steps > limit) throw TooLong();
			now.swap(next);
			k++;
		};
		while (k < n.min && !now.empty()) step();	// now: the places after just k
		if (n.max < 0)
		{			// All that can be reached from here
			std::vector<size_t> todo(now.begin(), now.end());
			result = now;
			while (!todo.empty())
			{
				size_t	q = todo.back(); todo.pop_back();
				const Ends& e = single(n, q); work(e.size()/4);
				for (size_t x : e) if (result.insert(x).second) todo.push_back(x);
			}
			return result;
		}
		result = now;
		while (k < n.max && !now.empty()) { step(); result.insert(now.begin(), now.end()); }
		return result;
	}
	Ends	seq(const Seq& s, size_t p)
	{
		Ends	now{p};
		for (auto& n : s)
		{
			Ends	next;
			for (size_t q : now) { Ends e = node(n, q); work(1+e.size()/4); next.insert(e.begin(), e.end()); }
			if (steps > limit) throw TooLong();
			now.swap(next);
			if (now.empty()) break;
		}
		return now;
	}
	Ends	alts(const std::vector<Seq>& a, size_t p)
	{
		Ends	r;
		for (auto& s : a) { Ends e = seq(s, p); r.insert(e.begin(), e.end()); }
		return r;
	}
};

// As above, but with what each named group last matched
typedef std::vector<std::pair<size_t,size_t>> Caps;	// by group number-1; (0,0) if it took no part
typedef std::pair<size_t, Caps> Place;
typedef std::set<Place> Places;
struct CapEval
{
	Eval&	e;
	long	steps = 0, limit;
	CapEval(Eval& _e, long _limit = 15000) : e(_e), limit(_limit) {}
	Places	once(const Node& n, const Place& p)
	{
		if (++steps > limit) throw TooLong();
		if (n.kind != Group && n.kind != Named)
		{
			Places	r;
			for (size_t q : e.single(n, p.first)) r.insert(Place(q, p.second));
			return r;
		}
		Places	r = alts(n.alts, p);
		if (n.kind == Group) return r;
		Places	named;
		for (auto q : r) { q.second[n.name-1] = {p.first, q.first}; named.insert(q); }
		return named;
	}
	Places	node(const Node& n, const Place& p)
	{
		if (!n.rep) return once(n, p);
		Places	now{p}, result;
		if (n.min == 0) result = now;
		std::set<Places> seen;
		for (int k = 1; n.max < 0 || k <= n.max; k++)
		{
			Places	next;
			for (auto& q : now) { Places x = once(n, q); next.insert(x.begin(), x.end()); }
			if (k >= n.min)
			{
				result.insert(next.begin(), next.end());
				if (n.max < 0 && !seen.insert(next).second) break;
			}
			if (next.empty()) break;
			if (next == now && k >= n.min) break;
			now = next;
		}
		return result;
	}
	Places	seq(const Seq& s, const Place& p)
	{
		Places	now{p};
		for (auto& n : s)
		{
			Places	next;
			for (auto& q : now) { Places x = node(n, q); next.insert(x.begin(), x.end()); }
			now.swap(next);
			if (now.empty()) break;
		}
		return now;
	}
	Places	alts(const std::vector<Seq>& a, const Place& p)
	{
		Places	r;
		for (auto& s : a) { Places x = seq(s, p); r.insert(x.begin(), x.end()); }
		return r;
	}
};

// --- features ---
inline uint32_t	bit(RxFeature f) { return (uint32_t)f; }
static const uint32_t	AllFeatures = (uint32_t)RxFeature::AllFeatures;
static const uint32_t	Extended = (uint32_t)RxFeature::ExtendedRE;

// --- parsing ---
// What a text means as an expression, if that is settled
struct Verdict
{
	enum { Accept, Reject, Open } kind = Open;
	Regex	re;
	size_t	from = 0, to = 0;	// Reject: what is wrong is between these
	std::string why;
};
struct Parser
{
	const Text& p; uint32_t on, rejected;
	size_t	i = 0;
	Regex	re;
	struct Stop { bool reject; size_t from, to; std::string why; };
	Parser(const Text& _p, uint32_t f, uint32_t r) : p(_p), on(f & ~r), rejected(r) {}

	bool	enabled(RxFeature f) { return (on & bit(f)) != 0; }
	bool	sup(RxFeature f, size_t from, size_t to) { if (rejected & bit(f)) reject(from, to, "rejected feature"); return enabled(f); }
	void	reject(size_t from, size_t to, const char* why) { throw Stop{true, from, to, why}; }
	void	open(const char* why) { throw Stop{false, 0, 0, why}; }
	U	at(size_t k) { return k < p.size() ? p[k] : 0; }
	static int	val(U c) { return c >= '0' && c <= '9' ? c-'0' : c >= 'a' && c <= 'f' ? c-'a'+10 : c >= 'A' && c <= 'F' ? c-'A'+10 : 99; }

	struct Frame { Kind kind; int name; std::vector<Seq> alts; bool repeatable; };
	std::vector<Frame> stack;
	void	add(const Node& n) { stack.back().alts.back().push_back(n); stack.back().repeatable = n.kind != Bol && n.kind != Eol; }
	void	chr(U c) { Node n; n.ch = c; add(n); }
	void	repeat(int min, int max, size_t from, size_t to)	// max<0: none
	{
		if (!stack.back().repeatable) reject(from, to, "nothing to repeat");
		Node&	n = stack.back().alts.back().back();
		n.rep = true; n.min = min; n.max = max;
		stack.back().repeatable = false;
	}
	// blanks, digits, blanks. -1: there are no digits
	int	number(size_t from, size_t to, size_t start)
	{
		auto	blank = [](U c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; };
		while (from < to && blank(p[from])) from++;
		while (to > from && blank(p[to-1])) to--;
		if (from == to) return -1;
		long	n = 0;
		for (; from < to; from++)
		{
			if (p[from] < '0' || p[from] > '9') open("a count that is not a number");
			n = n*10 + p[from]-'0';
			if (n > 1000000) n = 1000000;
		}
		return n;
	}
	void	count(size_t start)
	{
		size_t	close = i;
		while (close < p.size() && p[close] != '}') close++;
		if (close >= p.size()) reject(start, p.size(), "unclosed count");
		size_t	comma = i;
		while (comma < close && p[comma] != ',') comma++;
		int	min = number(i, comma, start), max;
		if (comma < close)
		{
			max = number(comma+1, close, start);
			if (min < 0 && max < 0) open("{,}");
		}
		else
		{
			if (min < 0) open("{}");
			max = min;
		}
		i = close+1;
		if (!stack.back().repeatable || max == 0 || min > 254 || max > 254 || (max > 0 && max < min)) reject(start, close+1, "bad count");
		repeat(min < 0 ? 0 : min, max, start, close+1);
	}
	void	escape(size_t start)
	{
		if (i >= p.size()) reject(start, p.size(), "trailing backslash");
		U	c = p[i++];
		static const char	letter[] = "befntr", named[] = "\b\033\f\n\t\r";
		const char* e = c && c < 0x80 ? strchr(letter, c) : 0;
		if (e) { if (sup(RxFeature::CEscapes, start, i)) c = (unsigned char)named[e-letter]; return chr(c); }
		if (c >= '0' && c <= '7')
		{
			if (!sup(RxFeature::OctalChar, start, i)) return chr(c);
			U	v = c-'0';
			for (int k = 1; k < 3 && val(at(i)) < 8; k++) v = v*8 + val(p[i++]);
			return chr(v);
		}
		if (c == 'x' || c == 'u')
		{
			if (!sup(c == 'x' ? RxFeature::HexChar : RxFeature::UnicodeChar, start, i)) return chr(c);
			int	max = c == 'x' ? 2 : 5, k;
			U	v = 0;
			for (k = 0; k < max && val(at(i)) < 16; k++) v = v*16 + val(p[i++]);
			if (k == 0) reject(start, i+1, "no digits");
			return chr(v);
		}
		if (c == 's' || c == 'd' || c == 'h')
		{
			if (!sup(RxFeature::Shorthand, start, i)) return chr(c);
			Node	n; n.kind = Prop; n.ch = c;
			return add(n);
		}
		if (c == 'p')
		{
			if (!sup(RxFeature::PropertyChars, start, i)) return chr(c);
			size_t	close = i;
			while (close < p.size() && p[close] != '}') close++;
			if (at(i) != '{' || close >= p.size() || close == i+1) reject(start, close+1, "bad property");
			i = close+1;
			re.unknown_property = true;
			Node	n; n.kind = Prop; n.ch = 'p';
			return add(n);
		}
		chr(c);
	}
	U	class_char(size_t start)
	{
		if (i >= p.size()) reject(start, p.size(), "unclosed class");
		if (p[i] == '\\' && ++i >= p.size()) reject(start, p.size(), "unclosed class");
		if (p[i] == 0) open("NUL in a class");
		return p[i++];
	}
	void	cls(size_t start)
	{
		Node	n; n.kind = Class;
		if (at(i) == '^' && i < p.size()) { n.neg = true; i++; }
		if (i < p.size() && (p[i] == '-' || p[i] == ']')) { n.ranges.push_back({p[i], p[i]}); i++; }
		while (true)
		{
			if (i >= p.size()) reject(start, p.size(), "unclosed class");
			if (p[i] == ']') break;
			U	a = class_char(start), b = a;
			if (at(i) == '-' && i+1 >= p.size()) reject(start, p.size(), "unclosed class");
			if (at(i) == '-' && at(i+1) != ']') { i++; b = class_char(start); }
			n.ranges.push_back({a, b});
		}
		i++;
		add(n);
	}
	void	group(size_t start)
	{
		Frame	f{Group, 0, std::vector<Seq>(1), false};
		bool	any = enabled(RxFeature::Capture) || enabled(RxFeature::NonCapture) || enabled(RxFeature::NegLookahead);
		if (at(i) == '?' && !any && (rejected & (bit(RxFeature::Capture)|bit(RxFeature::NonCapture)|bit(RxFeature::NegLookahead)))) open("all group types are rejected");
		if (at(i) == '?' && any)
		{
			i++;
			U	c = at(i); i++;
			if (c == '<' && sup(RxFeature::Capture, start, i))
			{
				size_t	close = i;
				while (close < p.size() && p[close] != '>') close++;
				if (close >= p.size() || close == i) reject(start, p.size(), "bad name");
				std::string nm = ref::enc(Text(p.begin()+i, p.begin()+close));
				i = close+1;
				if (std::find(re.names.begin(), re.names.end(), nm) != re.names.end()) reject(start, i, "duplicate name");
				if (re.names.size() >= 254) reject(start, i, "too many names");
				re.names.push_back(nm);
				f.kind = Named; f.name = re.names.size();
			}
			else if (c == ':' && sup(RxFeature::NonCapture, start, i)) ;
			else if (c == '!' && sup(RxFeature::NegLookahead, start, i)) f.kind = NegLook;
			else reject(start, i, "bad group type");
		}
		if (stack.size() > 8) open("deep nesting");
		stack.push_back(f);
	}
	void	run()
	{
		bool	ext = (on & Extended) != 0, anyquest = enabled(RxFeature::AnyIsQuest);
		stack.push_back(Frame{Group, 0, std::vector<Seq>(1), false});
		while (i < p.size())
		{
			size_t	s = i;
			U	c = p[i++];
			Node	n;
			switch (c)
			{
			case '^': if (!sup(RxFeature::BOL, s, i)) break; n.kind = Bol; add(n); continue;
			case '$': if (!sup(RxFeature::EOL, s, i)) break; n.kind = Eol; add(n); continue;
			case '.': if (anyquest) break; n.kind = Any; add(n); continue;
			case '?':
				if (anyquest) { n.kind = Any; add(n); continue; }
				if (!sup(RxFeature::ZeroOrOneQuest, s, i)) break;
				repeat(0, 1, s, i);
				continue;
			case '*':
				if (!sup(RxFeature::ZeroOrMore, s, i))
				{
					if (enabled(RxFeature::ZeroOrMoreAny)) open("* means any, but is not enabled");
					break;
				}
				if (enabled(RxFeature::ZeroOrMoreAny)) { n.kind = Any; add(n); }
				repeat(0, -1, s, i);
				continue;
			case '+': if (!sup(RxFeature::OneOrMore, s, i)) break; repeat(1, -1, s, i); continue;
			case '{': if (!sup(RxFeature::CountRepetition, s, i)) break; count(s); continue;
			case '\\': escape(s); continue;
			case '[': if (!sup(RxFeature::CharClasses, s, i)) break; cls(s); continue;
			case '|':
				if (!sup(RxFeature::Alternates, s, i)) break;
				stack.back().alts.push_back(Seq()); stack.back().repeatable = false;
				continue;
			case '(': if (!sup(RxFeature::Group, s, i)) break; group(s); continue;
			case ')':
			{
				if (!enabled(RxFeature::Group)) { if (rejected & bit(RxFeature::Group)) open("a ) where ( is rejected"); break; }
				if (stack.size() == 1) reject(s, i, "unmatched )");
				Frame	f = stack.back(); stack.pop_back();
				n.kind = f.kind; n.name = f.name; n.alts = f.alts;
				add(n);
				continue;
			}
			case ' ': case '\t': case '\n': case '\r':
				if (!ext) break;
				if (at(i) == '#') { while (i < p.size() && p[i] != '\n') i++; if (i < p.size()) i++; }
				continue;
			case '#': if (ext) open("# without a blank before it"); break;
			}
			chr(c);
		}
		if (stack.size() > 1) reject(0, p.size(), "unclosed group");
		re.alts = stack[0].alts;
	}
	Verdict	parse()
	{
		Verdict	v;
		try { run(); v.kind = Verdict::Accept; v.re = re; }
		catch (Stop& s) { v.kind = s.reject ? Verdict::Reject : Verdict::Open; v.from = s.from; v.to = s.to; v.why = s.why; }
		return v;
	}
};

// --- generation ---
struct Shape
{
	int	budget = 10;
	int	names = 0;		// how many named groups may be made
	bool	look = true, counted = true, big = true;
	int	depth = 0;
	int	pad = 0;		// how many long runs may be made
	std::vector<std::string>* used = 0;
};
inline U	lit(Gen& g)
{
	switch (g.weighted({16, 3, 2, 1, 1}))
	{
	case 0: return g.range('a', 'c');
	case 1: { static const U t[] = { '|', '(', ')', '*', '+', '?', '{', '}', '.', '^', '$', '\\', '[', ']', '-', '_', ',', '#', '<', '>', ':', '!', '1' }; return g.pick(t); }
	case 2: { static const U t[] = { '\n', '\t', ' ', '\r', '\f', 033, '\b' }; return g.pick(t); }
	case 3: { static const U t[] = { 0xE9, 0x3B1, 0x660, 0x20AC, 0x1F600, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000 }; return g.pick(t); }
	default: return g.range('0', '9');
	}
}
inline std::vector<Seq>	gen_alts(Gen& g, Shape& s);
// How many states the counters of a part of an expression may have. A matcher may have to follow each of them
inline int	states(const std::vector<Seq>& a);
inline int	states(const Node& n) { return states(n.alts)*(n.kind == NegLook ? 4 : 1)*(n.rep && (n.min > 1 || n.max > 1) ? std::max(n.min, n.max) : 1); }
inline int	states(const std::vector<Seq>& a)
{
	int	most = 1;
	for (auto& q : a) for (auto& n : q) most = std::max(most, states(n));
	return most;
}
enum { MaxStates = 300 };
inline Node	gen_node(Gen& g, Shape& s)
{
	Node	n;
	s.budget--;
	bool	deep = s.depth < 6 && s.budget > 0;
	switch (g.weighted({12, 3, 3, 1, 1, 1, deep ? 5 : 0, deep && s.names > 0 ? 6 : 0, deep && s.look ? 1 : 0}))
	{
	case 0: n.kind = Char; n.ch = lit(g); break;
	case 1: n.kind = Any; break;
	case 2:
	{
		n.kind = Class; n.neg = g.chance(1, 4);
		int	k = g.range(1, 3);
		while (k--)
		{
			U	a = lit(g), b = a;
			if (g.coin()) b = a + g.range(0, 3);
			if (b < a) std::swap(a, b);
			n.ranges.push_back({a, b});
		}
		break;
	}
	case 3: n.kind = Prop; n.ch = "sdh"[g.raw(3)]; break;
	case 4: n.kind = Bol; break;
	case 5: n.kind = Eol; break;
	case 6: n.kind = Group; s.depth++; n.alts = gen_alts(g, s); s.depth--; break;
	case 7:
	{
		n.kind = Named; s.names--;
		static const char* const name[] = { "a", "foo", "b1", "A name", "x-y", "\xC3\xA9t\xC3\xA9", "(", "n" };
		std::string	nm;
		do nm = std::string(g.pick(name)) + (g.coin() ? std::to_string(s.used->size()) : ""); while (std::find(s.used->begin(), s.used->end(), nm) != s.used->end() && (nm += "_" + std::to_string(s.used->size()), false));
		s.used->push_back(nm);
		n.name = s.used->size();
		s.depth++; n.alts = gen_alts(g, s); s.depth--;
		break;
	}
	case 8: n.kind = NegLook; s.depth++; n.alts = gen_alts(g, s); s.depth--; break;
	}
	if (n.kind != Bol && n.kind != Eol && g.chance(2, 5))
	{
		n.rep = true;
		switch (g.weighted({3, 3, 3, s.counted ? 4 : 0, s.counted && s.big && s.depth == 0 ? 1 : 0}))
		{
		case 0: n.min = 0; n.max = -1; break;
		case 1: n.min = 1; n.max = -1; break;
		case 2: n.min = 0; n.max = 1; break;
		case 3:
			n.min = g.range(0, 4);
			n.max = g.chance(1, 4) ? -1 : n.min + (int)g.range(0, 3);
			if (n.max == 0) n.max = 1;
			break;
		case 4:
			n.min = g.range(0, 254);
			n.max = g.chance(1, 4) ? -1 : (int)g.range(n.min ? n.min : 1, 254);
			break;
		}
		int	may = states(n.alts) > 1 ? MaxStates/2 : MaxStates;
		if (states(n) > may)
		{
			int	most = std::max(may/states(n.alts), 1);
			n.min = std::min(n.min, most); n.max = std::min(n.max, most);
		}
	}
	return n;
}
inline Seq	gen_seq(Gen& g, Shape& s)
{
	Seq	q;
	int	n = g.weighted({1, 4, 4, 3, 2});
	if (s.pad > 0 && g.coin())	// Make offsets that need more bytes
	{
		s.pad--;
		int	len = 0;		// An offset takes another byte at 64 and at 1024, and a character takes 2
		switch (g.weighted({6, 2, 2}))
		{
		case 0: len = g.range(22, 34); break;
		case 1: len = g.range(498, 514); break;
		case 2: len = g.range(1, 260); break;
		}
		Node	f; f.ch = g.range('a', 'c');
		while (len-- > 0) q.push_back(f);
	}
	for (int i = 0; i < n && s.budget > 0; i++) q.push_back(gen_node(g, s));
	return q;
}
inline std::vector<Seq>	gen_alts(Gen& g, Shape& s)
{
	std::vector<Seq> a(1, gen_seq(g, s));
	while (s.budget > 0 && a.size() < 20 && g.chance(1, 4)) a.push_back(gen_seq(g, s));
	return a;
}
inline Regex	gen_regex(Gen& g, Shape& s)
{
	Regex	r; s.used = &r.names;
	r.alts = gen_alts(g, s);
	return r;
}
// A text that has a good chance to match
inline void	sample(Gen& g, const std::vector<Seq>& a, Text& t, size_t max);
inline void	sample(Gen& g, const Node& n, Text& t, size_t max)
{
	int	k = 1;
	if (n.rep)
	{
		k = n.min + (g.coin() ? (int)g.range(0, 2) : 0);
		if (n.max >= 0 && k > n.max && !g.chance(1, 6)) k = n.max;
	}
	for (; k > 0 && t.size() < max; k--)
		switch (n.kind)
		{
		case Char: t.push_back(n.ch); break;
		case Any: t.push_back(lit(g)); break;
		case Class: if (n.neg) t.push_back(lit(g)); else { auto& r = n.ranges[g.raw(n.ranges.size())]; t.push_back(r.first + g.range(0, std::min<U>(r.second-r.first, 3))); } break;
		case Prop: { static const U sp[] = { ' ', '\n', 0x2003, 0x3000 }, dg[] = { '0', '7', 0x660, 0x96F }, hx[] = { 'a', 'F', '9', 'f' }; t.push_back(n.ch == 's' ? g.pick(sp) : n.ch == 'd' ? g.pick(dg) : g.pick(hx)); break; }
		case Bol: if (t.size() && t.back() != '\n' && g.coin()) t.push_back('\n'); break;
		case Eol: break;
		case Group: case Named: sample(g, n.alts, t, max); break;
		case NegLook: break;
		}
}
inline void	sample(Gen& g, const std::vector<Seq>& a, Text& t, size_t max)
{
	if (a.empty()) return;
	for (auto& n : a[g.raw(a.size())]) sample(g, n, t, max);
}
inline Text	gen_text(Gen& g, const Regex& r, size_t max = 40)
{
	Text	t;
	if (g.chance(1, 3)) { int n = g.range(1, 4); while (n--) t.push_back(lit(g)); }
	int	k = g.weighted({1, 6, 2});
	while (k-- && t.size() < max) sample(g, r.alts, t, max);
	if (g.chance(1, 3)) { int n = g.range(1, 4); while (n--) t.push_back(lit(g)); }
	if (t.size() && g.chance(1, 5)) t[g.raw(t.size())] = lit(g);
	if (t.size() && g.chance(1, 8)) t.erase(t.begin()+g.raw(t.size()));
	if (g.chance(1, 12)) t.insert(t.begin()+g.raw(t.size()+1), g.coin() ? 0 : '\n');
	return t;
}

// Text that goes before: usually none, seldom long
inline Text	gen_ahead(Gen& g)
{
	Text	t;
	if (!g.chance(1, 60)) return t;
	int	n = g.chance(1, 12) ? g.range(60000, 140000) : g.range(7, 1500), every = g.range(1, 5);
	U	often = lit(g), seldom = lit(g);
	for (int i = 0; i < n; i++) t.push_back(i % every == 0 ? seldom : often);
	return t;
}

// --- rendering ---
struct Render
{
	Gen&	g;
	bool	ext;
	Text	out;
	Render(Gen& _g, bool _ext) : g(_g), ext(_ext) {}
	void	put(const char* s) { while (*s) out.push_back((unsigned char)*s++); }
	void	put(const std::string& s) { Text t = ref::dec(s); out.insert(out.end(), t.begin(), t.end()); }
	void	space()
	{
		if (!ext || !g.chance(1, 4)) return;
		static const U w[] = { ' ', '\t', '\n', '\r' };
		int	n = g.range(1, 2); while (n--) out.push_back(g.pick(w));
		if (g.chance(1, 3)) { out.push_back(' '); put("#"); put(g.coin() ? "note (|*\n" : "x\n"); }
	}
	void	hex(const char* prefix, U c, int min_digits, int max_digits)
	{
		char	b[20]; snprintf(b, sizeof b, g.coin() ? "%X" : "%x", c);
		std::string h(b);
		// unless all the digits are there, a following digit would join them; so always give them all
		while ((int)h.size() < max_digits) h = "0"+h;
		put(prefix); put(h); (void)min_digits;
	}
	void	literal(U c)
	{
		static const char meta[] = "|()*+?{.^$\\[";
		bool	special = c < 0x80 && c && strchr(meta, c);
		if (ext && (c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '#')) special = true;
		static const char	named[] = "\b\033\f\n\t\r", letter[] = "befntr";
		const char* e = c && c < 0x80 ? strchr(named, c) : 0;
		switch (g.weighted({8, e ? 6 : 0, c < 0400 ? 1 : 0, c < 0x100 ? 1 : 0, c <= 0xFFFFF ? 1 : 0}))
		{
		case 1: out.push_back('\\'); out.push_back(letter[e-named]); return;
		case 2: { char b[8]; snprintf(b, sizeof b, "\\%03o", c); put(b); return; }
		case 3: hex("\\x", c, 1, 2); return;
		case 4: hex("\\u", c, 1, 5); return;
		}
		if (special || (!(c < 0x80 && ::isalnum((int)c)) && c > ' ' && c < 0x7F && g.chance(1, 5))) out.push_back('\\');
		out.push_back(c);
	}
	void	class_char(U c, bool first, bool last)
	{
		if (c == ']' || c == '\\' || c == '-' || (c == '^' && first)) out.push_back('\\');
		else if (!(c < 0x80 && ::isalnum((int)c)) && c > ' ' && c < 0x7F && g.chance(1, 6)) out.push_back('\\');
		out.push_back(c); (void)last;
	}
	void	number(int n) { if (g.chance(1, 6)) out.push_back(' '); put(std::to_string(n)); if (g.chance(1, 6)) out.push_back(' '); }
	void	rep(const Node& n)
	{
		space();
		bool	plain = g.chance(3, 4);
		if (n.min == 0 && n.max < 0 && plain) { put("*"); return; }
		if (n.min == 1 && n.max < 0 && plain) { put("+"); return; }
		if (n.min == 0 && n.max == 1 && plain) { put("?"); return; }
		put("{");
		if (n.min || g.coin() || n.max < 0) number(n.min);
		if (n.max != n.min)
		{
			put(",");
			if (n.max >= 0) number(n.max);
		}
		put("}");
	}
	void	node(const Node& n)
	{
		space();
		switch (n.kind)
		{
		case Char: literal(n.ch); break;
		case Any: put("."); break;
		case Class:
		{
			put("["); if (n.neg) put("^");
			bool	first = true;
			for (auto& r : n.ranges)
			{
				if (first && r.first == r.second && (r.first == '-' || r.first == ']') && g.coin()) out.push_back(r.first);
				else if (&r == &n.ranges.back() && !first && r.first == '-' && r.second == '-' && g.coin()) out.push_back('-');
				else
				{
					class_char(r.first, first && !n.neg, false);
					if (r.first != r.second || g.chance(1, 8)) { put("-"); class_char(r.second, false, false); }
				}
				first = false;
			}
			put("]");
			break;
		}
		case Prop: out.push_back('\\'); out.push_back(n.ch); break;
		case Bol: put("^"); break;
		case Eol: put("$"); break;
		case Group: put(g.coin() ? "(" : "(?:"); alts(n.alts); put(")"); break;
		case Named: put("(?<"); put(names[n.name-1]); put(">"); alts(n.alts); put(")"); break;
		case NegLook: put("(?!"); alts(n.alts); put(")"); break;
		}
		if (n.rep) rep(n);
	}
	void	seq(const Seq& s) { for (auto& n : s) node(n); space(); }
	void	alts(const std::vector<Seq>& a) { bool f = true; for (auto& s : a) { if (!f) put("|"); f = false; seq(s); } }
	std::vector<std::string> names;
	Text	regex(const Regex& r) { names = r.names; alts(r.alts); return out; }
};

inline StrVal	strval(const Text& t) { std::string s = ref::enc(t); return s.empty() ? StrVal() : StrVal(s.data(), (StrValIndex)s.size()); }
// The string of these bytes: one of its own, or a slice of a longer string
inline StrVal	placed(Gen& g, Ctx& c, const std::string& bytes)
{
	StrVal	whole = bytes.empty() ? StrVal() : StrVal(bytes.data(), (StrValIndex)bytes.size());
	if (!g.chance(1, 5)) return whole;
	static const char* const around[] = { "a", "\xC3\xA9", "(", "}", "1", "\\", "z\xE2\x82\xAC", "]", "\n" };
	std::string	pre = g.pick(around), post = g.pick(around);
	std::string	all = pre+bytes+post;
	StrVal	longer(all.data(), (StrValIndex)all.size());
	StrVal	before(pre.data(), (StrValIndex)pre.size());
	PLOG(c, "as a slice, between " << ref::show(pre) << " and " << ref::show(post));
	return longer.substr(before.length(), whole.length());
}
inline int	count(const std::vector<Seq>& a) { int n = 0; for (auto& s : a) for (auto& k : s) n += 1 + count(k.alts); return n; }
struct Compiler : RxCompiler
{
	Compiler(StrVal re, uint32_t f = AllFeatures, uint32_t r = 0) : RxCompiler(re, (RxFeature)f, (RxFeature)r) {}
	int	size() const { return nfa_size; }
};
}
