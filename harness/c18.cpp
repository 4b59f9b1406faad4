// Parse trees hold the captures asked for, and failures say where
#include	"pbt.h"
#include	<set>
#include	"grammar.h"
#include	<variant.h>
#include	<peg.h>
#include	<peg_ast.h>

namespace c18 {
using namespace pegref;
typedef Peg<PegMemorySource, PegMatch, PegContext> Ast;

struct Strings		// names and patterns in buffers of exactly their size
{
	std::vector<Exact*> all;
	const char*	keep(const std::string& s) { all.push_back(new Exact(s)); return all.back()->p; }
	~Strings() { for (auto e : all) delete e; }
};
static std::string	str(const StrVal& s) { StrVal t(s); StrValIndex n; const char* p = t.asUTF8(n); return std::string(p, n); }
static std::string	between(const Text& t, size_t a, size_t b) { return ref::enc(Text(t.begin()+a, t.begin()+b)); }

// Both trees as text, so that they can be compared and shown
static std::string	show(const Tree& t, const Text& text);
static std::string	show(const Tree::Value& v, const Text& text) { return v.tree ? show(*v.tree, text) : ref::show(between(text, v.from, v.to)); }
static std::string	show(const Tree& t, const Text& text)
{
	std::string r = "{";
	for (auto& e : t.e)
	{
		r += " " + e.first + ": ";
		if (e.second.list) { r += "["; for (auto& v : e.second.v) r += " " + show(v, text); r += " ]"; }
		else r += show(e.second.v[0], text);
	}
	return r + " }";
}
static std::string	show(const Variant& v)
{
	switch (v.type())
	{
	case Variant::String: return ref::show(str(v.as_strval()));
	case Variant::VarArray: { std::string r = "["; const VariantArray a = v.as_variant_array(); for (int i = 0; i < (int)a.length(); i++) r += " " + show(a[i]); return r + " ]"; }
	case Variant::StrVarMap:
	{
		const StrVariantMap m = v.as_variant_map();
		std::map<std::string, std::string> sorted;
		for (auto i = m.begin(); i != m.end(); ++i) sorted[str(i->first)] = show(i->second);
		std::string r = "{"; for (auto& e : sorted) r += " " + e.first + ": " + e.second;
		return r + " }";
	}
	default: return "a variant of type " + std::to_string(v.type());
	}
}

static void	prop(Gen& g, Ctx& c)
{
	int	labels = g.chance(1, 4) ? (int)all_labels : g.range(1, 7);
	Grammar	gr = gen_grammar(g, c.max_size, labels);
	Strings	keep;
	std::vector<std::vector<const char*>*> capture_lists;
	struct Clean { std::vector<std::vector<const char*>*>& v; ~Clean() { for (auto p : v) delete p; } } clean{capture_lists};
	std::vector<Ast::Rule> rules;
	std::map<const char*, const Rule*> by_pattern;
	for (auto& r : gr.rules)
	{
		// Labels and rules that this rule captures, and some that it does not have
		std::set<std::string> want;
		for (auto& o : gr.rules) if (g.chance(3, 4)) want.insert(o.name);
		for (int i = 0; i < all_labels; i++) { std::string l = label_name(g, all_labels); if (g.chance(3, 5)) want.insert(l); }
		r.captures.assign(want.begin(), want.end());
		for (size_t i = r.captures.size(); i-- > 1;) std::swap(r.captures[i], r.captures[g.raw(i+1)]);
		bool	none = g.chance(1, 8);
		if (none) r.captures.clear();
		auto*	list = new std::vector<const char*>; capture_lists.push_back(list);
		for (auto& l : r.captures) list->push_back(keep.keep(l));
		list->push_back(0);
		const char* p = keep.keep(r.pattern);
		by_pattern[p] = &r;
		rules.push_back(Ast::Rule(keep.keep(r.name), p, none && g.coin() ? 0 : list->data()));
		if (c.verbose) { std::string l; for (auto& x : r.captures) l += " " + x; PLOG(c, "rule " << r.name << " = " << ref::show(r.pattern) << " captures" << l); }
	}
	Ast	peg(rules.data(), rules.size());
	for (int k = g.range(1, 3); k > 0; k--)
	{
		Text	t = gen_ahead(g, gr.m); size_t start = t.size();
		{ Text u = grammar_text(g, gr); t.insert(t.end(), u.begin(), u.end()); }
		if (start) c.label("starts inside the text");
		std::string text = ref::enc(t);
		if (ref::dec(text) != t) continue;
		Parser	p(gr, t, start); p.capturing = true;
		size_t	at = start; std::vector<Capture> caps; bool ok;
		try { ok = p.rule(*gr.find("TOP"), at, 0, caps); } catch (TooLong&) { c.label("too long"); continue; }
		PLOG(c, "text " << ref::show(text) << (ok ? " accepted to " : " rejected ") << at);
		Exact	buf(text);
		PegMemorySource source((const char*)buf.p);
		for (size_t i = 0; i < start; i++) source.get_char();
		PegMatch m = peg.parse(source);
		PCHECK(m.is_failure() == !ok, "the parse " << (ok ? "fails" : "succeeds"));
		if (ok)
		{
			auto	tree = make_tree(caps);
			std::string want = show(*tree, t), got = show(m.var);
			PCHECK(got == want, "the tree is " << got << " instead of " << want);
			PCHECK(source.current_byte() == (off_t)between(t, 0, at).size(), "the source is at " << source.current_byte());
			if (caps.size() > 100) c.label("many captures");
			if (p.deepest > 50) c.label("nested very deeply");
			if (caps.size()) { c.nontrivial = true; c.label("captures"); }
			for (auto& x : caps) if (x.tree) { c.label("sub-trees"); break; }
		}
		else PCHECK(m.var.type() == Variant::None, "a failed parse has the value " << show(m.var));
		// The furthest failures
		size_t	line = 1, column = 1;
		for (size_t i = 0; i < p.f.furthest; i++) if (t[i] == '\n') line++, column = 1; else column++;
		off_t	byte = between(t, 0, p.f.furthest).size();
		auto&	s = m.furthermost_success;
		PCHECK(!s.is_null() && s.current_byte() == byte && s.current_line() == (off_t)line && s.current_column() == (off_t)column,
			"the furthest failure is reported at byte " << s.current_byte() << " line " << s.current_line() << " column " << s.current_column()
			<< " instead of byte " << byte << " line " << line << " column " << column);
		std::set<std::pair<std::string, size_t>> seen;
		for (int i = 0; i < (int)m.failures.length(); i++)
		{
			PegFailure f = m.failures[i];
			const Rule* r = 0; size_t off = 0;
			for (auto& b : by_pattern) if (f.atom >= b.first && f.atom < b.first + b.second->pattern.size()) { r = b.second; off = f.atom-b.first; }
			PCHECK(r, "a failure is reported for something that is not an atom of the grammar");
			std::string what = "atom " + ref::show(r->pattern.substr(off, f.atom_len)) + " at " + std::to_string(off) + " of rule " + r->name;
			auto	want = p.f.atoms.find({r->name, off});
			PCHECK(want != p.f.atoms.end(), "a failure is reported for " << what << ", which did not fail there");
			PCHECK(seen.insert({r->name, off}).second, "a failure is reported twice for " << what);
			size_t	end = p.f.ends[{r->name, off}];
			PCHECK(f.atom_len >= 1 && (end == 0 || off+f.atom_len == end), "the failed " << what << " is reported with length " << f.atom_len << " instead of " << end-off);
			std::vector<std::string> path; for (int j = 0; j < (int)f.path.length(); j++) path.push_back(f.path[j]);
			std::string ps; for (auto& x : path) ps += " " + x;
			PCHECK(want->second.count(path), "the path to " << what << " is reported as" << ps);
		}
		PCHECK(seen.size() == p.f.atoms.size(), seen.size() << " failed atoms are reported instead of " << p.f.atoms.size());
		if (p.f.atoms.size() > 1) { c.label("several failures"); c.nontrivial = true; }
	}
}
static Property	property()
{
	Property p; p.id = "C18"; p.fn = prop;
	p.rule = "a parse that captures something, or that is stopped by at least two atoms";
	return p;
}
}
#ifndef PBT_NO_MAIN
PBT_MAIN(c18::property)
#endif
