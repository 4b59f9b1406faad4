#pragma once
// Pegular expressions as trees: generated, rendered as text, and given their meaning by direct evaluation
#include	"pbt.h"
#include	"refutf8.h"
#include	"c05_ref.h"
#include	<memory>
#include	<unordered_map>

namespace pegref {
using namespace pbt;
using ref::U;
typedef std::vector<U> Text;

struct Node;
typedef std::vector<Node> Seq;
enum Kind { Lit, Prop, Class, Any, Bol, Eol, Group, Alts, Rep, Look, Call };
struct Item { int prop = 0; U lo = 0, hi = 0; bool range = false; std::string text; };
struct Node
{
	Kind		kind = Lit;
	U		ch = 0;			// Lit, Prop (the letter), Rep ?*+, Look &!
	bool		negated = false;	// Class
	std::vector<Item> items;
	std::vector<Seq> seqs;			// Group (one), Alts, Rep and Look (one, of one node)
	std::string	label;			// with a label, if not empty
	std::string	rule;			// Call
	int		form = 0;		// how it is to be written
	int		id = 0;
	mutable size_t	at = 0;			// offset of this atom in the pattern, once rendered
	mutable size_t	end = 0;		// and of its end, before any label
};

// --- characters ---
struct Mode { bool bytes = false; bool peg = false; };	// peg: few characters, and matches start at the start; text is of bytes; patterns may call rules
inline const CharRow*	row(U c)
{
	static std::unordered_map<U, const CharRow*>* rows;
	if (!rows) { rows = new std::unordered_map<U, const CharRow*>; for (auto& r : char_rows) (*rows)[r.c] = &r; }
	auto i = rows->find(c);
	return i == rows->end() ? 0 : i->second;
}
inline bool	white(U c) { return c == ' ' || c == 9 || c == 10 || c == 13 || c == 0xA0 || (c >= 0x2000 && c <= 0x200B) || c == 0x2028 || c == 0x2029 || c == 0x3000; }
inline bool	has_prop(int p, U c, const Mode& m)
{
	bool	up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', dig = c >= '0' && c <= '9', alpha = up || lo;
	if (!m.bytes && c >= 0x80)
		if (const CharRow* r = row(c)) { alpha = r->alpha; dig = r->digit >= 0; up = r->up == c && r->lo != c; lo = r->lo == c && r->up != c; }
	switch (p)
	{
	case 'a': return alpha;
	case 'd': return dig;
	case 'h': return dig || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
	case 'L': return lo;
	case 'U': return up;
	case 's': return m.bytes ? c == ' ' || (c >= 9 && c <= 13) : white(c);
	case 'w': return alpha || dig;
	}
	return false;
}
inline U	one(Gen& g, const Mode& m)
{
	switch (m.peg ? g.weighted({22, 4, 1, 1, 1}) : g.weighted({10, 4, 3, 2, 3}))
	{
	case 0: return g.range('a', 'c');
	case 1: { static const U t[] = { '1', 'A', ' ', '\n', 'x', '_', '-', '0', 'f' }; return g.pick(t); }
	case 2: { static const U t[] = { '\n', '\n', '\t', '\r', 8, 27, 12, 1, 11, 0x7F, 0x1F }; return g.pick(t); }
	case 3: { static const char t[] = "^$.\\[]?*+{()}|&!~@#%_;<`:>,'\"/="; return t[g.raw(sizeof t-1)]; }
	default:
		if (m.bytes) { static const U t[] = { 0xE9, 0x80, 0xFF, 0xC3, 'd', 'z' }; return g.pick(t); }
		static const U t[] = { 0xE9, 0xC9, 0x3B1, 0x391, 0x436, 0x416, 0x4E2D, 0x5D0, 0x664, 0xFF15, 0x3000, 0xA0, 0x20AC, 0x1F600, 0x10FFFF };
		return g.pick(t);
	}
}
// In byte mode characters compare as (signed) bytes
inline long	ord(U c, const Mode& m) { return m.bytes ? (long)(signed char)c : (long)c; }

// --- generation ---
struct Shape { Mode m; int budget = 12; int labels = 0; std::vector<std::string> rules; bool words = false; };
inline std::string label_name(Gen& g, int kinds) { static const char* n[] = { "x", "y", "lab", "lab2", "A_1", "name", "na", "_", "0", "x1", "Z9_z", "label_of_twenty_char", "label_of_twenty_char2", "TOP" }; return n[g.raw(kinds)]; }
enum { all_labels = 14 };
inline Seq	gen_seq(Gen& g, Shape& s, int depth, bool alts, bool allow_empty);
inline void	gen_class(Gen& g, Shape& s, Node& n)
{
	n.negated = g.chance(1, 3);
	for (int k = g.weighted({1, 5, 4, 3, 2}); k > 0; k--)
	{
		Item	i;
		if (g.chance(1, 4)) i.prop = "adhLUsw"[g.raw(7)];
		else
		{
			i.lo = i.hi = one(g, s.m);
			if (g.chance(2, 5))
			{
				i.range = true; i.hi = g.coin() ? one(g, s.m) : i.lo + g.range(0, 6);
				if (s.m.bytes) i.hi &= 0xFF;
				if (!i.hi) i.hi = 'z';
				if (ord(i.hi, s.m) < ord(i.lo, s.m) && !g.chance(1, 6)) std::swap(i.lo, i.hi);
			}
		}
		i.text = std::string(1, (char)g.raw(12));
		n.items.push_back(i);
	}
}
// swallow: an unbracketed set of alternates may stand here, because nothing of its sequence follows
inline Node	gen_node(Gen& g, Shape& s, int depth, bool swallow)
{
	Node	n;
	s.budget--;
	bool	deep = depth < 5 && s.budget > 0;
	int	k = g.weighted({10, 2, 3, 2, 1, 1, deep ? 3 : 0, deep && swallow ? 2 : 0, deep ? 6 : 0, deep ? 2 : 0, s.rules.size() ? 8 : 0});
	n.kind = (Kind)k;
	n.form = g.raw(12);
	switch (n.kind)
	{
	case Lit: n.ch = one(g, s.m); break;
	case Prop: n.ch = "adhLUsw"[g.raw(7)]; break;
	case Class: gen_class(g, s, n); break;
	case Group: n.seqs.push_back(gen_seq(g, s, depth+1, true, true)); break;
	case Alts:
		for (int i = g.range(1, 3); i > 0; i--)
			n.seqs.push_back(gen_seq(g, s, depth+1, false, i == 1));
		break;
	case Rep: n.ch = "?*+"[g.raw(3)]; n.seqs.push_back(Seq(1, gen_node(g, s, depth+1, swallow))); break;
	case Look: n.ch = "&!"[g.raw(2)]; n.seqs.push_back(Seq(1, gen_node(g, s, depth+1, swallow))); break;
	case Call: n.rule = g.pick(s.rules); break;
	default: break;
	}
	if (s.labels && k != Alts && k != Rep && k != Look && g.chance(1, 3)) n.label = label_name(g, s.labels);
	return n;
}
inline Seq	gen_seq(Gen& g, Shape& s, int depth, bool alts, bool allow_empty)
{
	Seq	q;
	int	len = allow_empty ? g.weighted({1, 4, 4, 2, 1}) : 1+g.weighted({4, 3, 2});
	for (int i = 0; i < len; i++) q.push_back(gen_node(g, s, depth, alts && i == len-1));
	return q;
}

// --- rendering, from the right so that each token knows what follows it ---
inline bool	hexdig(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
inline std::string hex(U v, int width, bool upper) { char b[16]; snprintf(b, sizeof b, upper ? "%0*X" : "%0*x", width, v); return b; }
// One character; rest is what follows. special: those that cannot stand for themselves here
inline std::string char_text(U c, int form, const std::string& rest, const char* special, const Mode& m)
{
	int	next = rest.empty() ? 0 : (unsigned char)rest[0];
	bool	plain = c < 0x80 && !strchr(special, (int)c);
	if (m.bytes && c >= 0x80) plain = true;
	switch (form)
	{
	case 7: if (c <= 0xFF) { std::string d; char b[8]; snprintf(b, sizeof b, "%o", c); if (strlen(b) < 3 && next >= '0' && next <= '7') snprintf(b, sizeof b, "%03o", c); if (c < 0400) return std::string("\\")+b; } break;
	case 8: if (c <= 0xFF) return "\\x" + hex(c, hexdig(next) || (next == '{') ? 2 : 1, next&1); break;
	case 9: if (c <= 0xFF) return "\\x{" + hex(c, 1 + (c&1), c&2) + "}"; break;
	case 10: if (c <= 0xFFFF && (!m.bytes || c < 0x80)) return "\\u" + hex(c, hexdig(next) ? 4 : 1+(c&3), c&4); break;
	case 11: if (!m.bytes || c < 0x80) return "\\u{" + hex(c, 1+(c&7), c&8) + "}"; break;
	case 6:
		switch (c) { case '\n': return "\\n"; case '\t': return "\\t"; case '\r': return "\\r"; case 8: return "\\b"; case 27: return "\\e"; case 12: return "\\f"; }
		if (c < 0x80 && c >= ' ' && !strchr("adhLUswntrbefxu01234567", c)) return std::string("\\") + (char)c;
		break;
	}
	if (plain) return std::string(1, (char)c);
	if (c < 0x80) return std::string("\\") + (char)c;
	return "\\u{" + hex(c, 1, false) + "}";
}
inline const char* specials(const Mode& m) { return m.peg ? "^$.\\[]?*+{()}|&!<:`" : "^$.\\[]?*+{()}|&!:`"; }
// Escaped control characters other than those with a letter: \ followed by the character itself
inline std::string render_seq(const Seq& q, std::string rest, const Mode& m);
// The text of the node followed by rest. Offsets are recorded from the end of the whole, and converted later
inline std::string render_node(const Node& n, std::string rest, const Mode& m)
{
	if (!n.label.empty())
	{
		int	next = rest.empty() ? 0 : (unsigned char)rest[0];
		bool	needed = next == ':' || next == '_' || (next < 0x80 && isalnum(next));
		rest = ":" + n.label + (needed || (n.form&1) ? ":" : "") + rest;
	}
	n.end = rest.size();
	std::string r;
	switch (n.kind)
	{
	case Lit: r = char_text(n.ch, n.form, rest, specials(m), m) + rest; break;
	case Prop: r = std::string("\\") + (char)n.ch + rest; break;
	case Class:
	{
		std::string t = "]";
		for (size_t i = n.items.size(); i-- > 0;)
		{
			auto&	it = n.items[i];
			bool	first = i == 0, after_prop = i > 0 && n.items[i-1].prop;
			if (it.prop) { t = std::string("\\") + (char)it.prop + t; continue; }
			if (it.range)
			{
				t = char_text(it.hi, (it.text[0]*7+3)%12, t, "]\\", m) + t;
				t = "-" + t;
			}
			std::string sp = "]\\";
			if (first && !n.negated) sp += "^";
			// A hyphen stands for itself at the start, or after a property
			if (!(first || after_prop)) sp += "-";
			// After a single character a hyphen would make a range; the next item never starts with a plain one
			t = char_text(it.lo, it.text[0], t, sp.c_str(), m) + t;
		}
		r = std::string("[") + (n.negated ? "^" : "") + t + rest;
		break;
	}
	case Any: r = "." + rest; break;
	case Bol: r = "^" + rest; break;
	case Eol: r = "$" + rest; break;
	case Group: r = "(" + render_seq(n.seqs[0], ")" + rest, m); break;
	case Alts:
		r = rest;
		for (size_t i = n.seqs.size(); i-- > 0;) r = "|" + render_seq(n.seqs[i], r, m);
		break;
	case Rep: case Look: r = std::string(1, (char)n.ch) + render_node(n.seqs[0][0], rest, m); break;
	case Call: r = "<" + n.rule + ">" + rest; break;
	}
	n.at = r.size();
	return r;
}
inline std::string render_seq(const Seq& q, std::string rest, const Mode& m)
{
	for (size_t i = q.size(); i-- > 0;) rest = render_node(q[i], rest, m);
	return rest;
}
inline void	fix_offsets(const Seq& q, size_t total)
{
	for (auto& n : q) { n.at = total-n.at; n.end = total-n.end; for (auto& s : n.seqs) fix_offsets(s, total); }
}
inline std::string render(const Seq& q, const Mode& m) { std::string r = render_seq(q, "", m); fix_offsets(q, r.size()); return r; }

// --- text that has a chance of matching ---
typedef std::function<void(const std::string&, Text&, int)> CallText;
struct Sampling { int longest = 150, steps = 4000, many = 100; };	// limits of the sampled text
inline Sampling& sampling() { static thread_local Sampling s; return s; }
inline void	sample(Gen& g, const Seq& q, Text& t, const Mode& m, int depth, const CallText& call)
{
	for (auto& n : q)
	{
		if ((int)t.size() > sampling().longest || --sampling().steps < 0) return;
		switch (n.kind)
		{
		case Lit: t.push_back(n.ch); break;
		case Prop: { static const U c[] = { 'a', 'b', '1', 'A', ' ', 'f', 0xE9, 0x416, 0x664, '\n' }; for (int i = 0; i < 6; i++) { U u = g.pick(c); if (m.bytes && u > 0xFF) u = 'c'; if (has_prop(n.ch, u, m)) { t.push_back(u); break; } } break; }
		case Class:
			if (n.negated || n.items.empty()) t.push_back(one(g, m));
			else { auto& i = g.pick(n.items); if (i.prop) t.push_back(i.prop == 's' ? ' ' : i.prop == 'U' ? 'A' : i.prop == 'd' || i.prop == 'h' ? '1' : 'a'); else t.push_back(g.coin() ? i.lo : i.hi); }
			break;
		case Any: t.push_back(one(g, m)); break;
		case Bol: if (t.size() && t.back() != '\n' && g.coin()) t.push_back('\n'); break;
		case Eol: if (g.coin()) t.push_back('\n'); break;
		case Group: sample(g, n.seqs[0], t, m, depth, call); break;
		case Alts: sample(g, g.pick(n.seqs), t, m, depth, call); break;
		case Rep: { int k = n.ch == '?' ? g.raw(2) : (n.ch == '+') + g.weighted({30, 30, 20, 10, 1}); if (k > 3 && g.chance(1, 4)) k = sampling().many; while (k-- > 0) sample(g, n.seqs[0], t, m, depth, call); break; }
		case Look: break;
		case Call: if (call && depth > 0) call(n.rule, t, depth-1); break;
		}
	}
}
inline Text	gen_text(Gen& g, const Seq& q, const Mode& m, const CallText& call = CallText())
{
	Text	t;
	sampling() = Sampling();
	if (g.chance(1, 300)) { sampling().longest = 3000; sampling().steps = 20000; sampling().many = 2500; }
	int	noise = g.weighted({4, 2, 1, 1});
	int	depth = call && g.chance(1, 30) ? g.range(7, 200) : 6;
	if (!g.chance(1, 4)) noise = 0;
	if (!m.peg || g.chance(1, 10)) for (int i = g.weighted({4, 2, 1, 1}); i > 0; i--) t.push_back(one(g, m));
	if (!g.chance(1, 12)) sample(g, q, t, m, depth, call);
	if (g.chance(1, 6)) sample(g, q, t, m, 6, call);
	for (int i = g.weighted({4, 2, 1, 1}); i > 0; i--) t.push_back(one(g, m));
	for (; noise > 0 && t.size(); noise--)
		switch (g.raw(3))
		{
		case 0: t.erase(t.begin()+g.raw(t.size())); break;
		case 1: t[g.raw(t.size())] = one(g, m); break;
		case 2: t.insert(t.begin()+g.raw(t.size()), one(g, m)); break;
		}
	if (!m.bytes && g.chance(1, 12) && t.size()) t[g.raw(t.size())] = 0x80000080u + g.raw(0x40);	// a stray continuation byte
	for (auto& u : t) if (!u) u = 'a';
	return t;
}

// Text that goes before: usually none, seldom very long, with many lines or long ones
inline Text	gen_ahead(Gen& g, const Mode& m)
{
	Text	t;
	if (!g.chance(1, 8)) return t;
	int	n = g.chance(1, 60) ? g.chance(1, 4) ? g.range(60000, 140000) : g.range(250, 5000) : g.range(1, 6);
	U	often = one(g, m), seldom = one(g, m);
	int	every = g.chance(1, 3) ? 0 : g.range(1, 5);
	for (int i = 0; i < n; i++) t.push_back(n < 7 ? one(g, m) : every && i % every == 0 ? seldom : often);
	return t;
}
// The same expression inside many groups
inline Seq	deepen(Gen& g, Seq q, Shape& s)
{
	for (int n = g.chance(1, 4) ? g.range(20, 200) : g.range(1, 20); n > 0; n--)
	{
		Node	group; group.kind = Group; group.seqs.push_back(q);
		if (s.labels && g.chance(1, 8)) group.label = label_name(g, s.labels);
		q = Seq(1, group);
		if (g.chance(1, 8)) { Node l; l.ch = one(g, s.m); q.insert(q.begin(), l); }
		if (g.chance(1, 12)) { Node l, o; l.ch = one(g, s.m); o.kind = Rep; o.ch = '?'; o.seqs.push_back(Seq(1, l)); q.push_back(o); }
	}
	return q;
}

// --- meaning ---
struct Tree;
struct Capture { std::string label; size_t from, to; bool rep; std::shared_ptr<Tree> tree; };
struct TooLong {};
struct Eval
{
	const Text&	t; Mode m;
	size_t		origin = 0;		// where the source started: a line starts there
	std::vector<Capture> caps;
	int		look = 0, rep = 0;
	long		own_steps = 0, limit = 20000; long* steps = &own_steps;
	// For the rules of a grammar
	std::function<bool(const Node&, size_t&)> call;
	std::function<void(const Node&, size_t)> failed;	// an atom failed there
	std::function<bool(const std::string&, size_t, size_t)> wanted;	// is that capture wanted
	Eval(const Text& text, Mode mode) : t(text), m(mode) {}

	bool	in_class(const Node& n, U c)
	{
		bool	in = false;
		for (auto& i : n.items)
			in |= i.prop ? has_prop(i.prop, c, m) : ord(c, m) >= ord(i.lo, m) && ord(c, m) <= ord(i.hi, m);
		return in != n.negated;
	}
	bool	seq(const Seq& q, size_t& p)
	{
		size_t	c = caps.size(), at = p;
		for (auto& n : q)
			if (!node(n, p)) { caps.resize(c); p = at; return false; }
		return true;
	}
	bool	node(const Node& n, size_t& p)
	{
		if (++*steps > limit) throw TooLong();
		size_t	c = caps.size(), at = p;
		bool	ok = false;
		switch (n.kind)
		{
		case Lit: ok = p < t.size() && t[p] == n.ch; if (ok) p++; break;
		case Prop: ok = p < t.size() && has_prop(n.ch, t[p], m); if (ok) p++; break;
		case Class: ok = p < t.size() && in_class(n, t[p]); if (ok) p++; break;
		case Any: ok = p < t.size(); if (ok) p++; break;
		case Bol: ok = p == origin || t[p-1] == '\n'; break;
		case Eol: ok = p == t.size() || t[p] == '\n'; break;
		case Group: ok = seq(n.seqs[0], p); break;
		case Alts: for (auto& s : n.seqs) if ((ok = seq(s, p))) break; break;
		case Rep:
			rep += n.ch != '?';
			for (int k = 0; ; k++)
			{
				if (n.ch == '?' && k == 1) { ok = true; break; }
				size_t	b = p;
				if (!node(n.seqs[0][0], p)) { ok = k > 0 || n.ch != '+'; break; }
				if (p == b)			// No progress: it would go on for ever
				{
					ok = true;
					if (n.ch == '+' && k == 0)	// It is tried once more. That only matters to the number of steps
						{ size_t cc = caps.size(), q = p; node(n.seqs[0][0], q); caps.resize(cc); }
					break;
				}
			}
			rep -= n.ch != '?';
			break;
		case Look:
		{
			look++;
			size_t	b = p;
			ok = node(n.seqs[0][0], b) == (n.ch == '&');
			look--;
			caps.resize(c);
			break;
		}
		case Call: ok = call(n, p); break;
		}
		if (!ok)
		{
			p = at; caps.resize(c);
			if (failed && (n.kind == Lit || n.kind == Class)) failed(n, at);
			return false;
		}
		if (n.kind != Call && !n.label.empty() && look == 0 && (!wanted || wanted(n.label, at, p))) caps.push_back({n.label, at, p, rep > 0});
		return true;
	}
};

inline int	size(const Seq& q) { int n = 0; for (auto& x : q) { n++; for (auto& s : x.seqs) n += size(s); } return n; }
inline std::string	encode(const Text& t, const Mode& m) { if (!m.bytes) return ref::enc(t); std::string s; for (U u : t) s += (char)u; return s; }

// Text in a buffer of exactly its size
struct Exact
{
	char*	p; size_t n;
	Exact(const std::string& s) : p((char*)malloc(s.size()+1)), n(s.size()) { memcpy(p, s.c_str(), n+1); }
	~Exact() { free(p); }
	Exact(const Exact&) = delete;
};
}
