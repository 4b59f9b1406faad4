// A PEG parser recognises the language of its grammar
#include	"pbt.h"
#include	<set>
#include	"grammar.h"
#include	<variant.h>
#include	<peg.h>
#include	<peg_ast.h>

namespace c17 {
using namespace pegref;

struct Strings		// names and patterns in buffers of exactly their size
{
	std::vector<Exact*> all;
	const char*	keep(const std::string& s) { all.push_back(new Exact(s)); return all.back()->p; }
	~Strings() { for (auto e : all) delete e; }
};
typedef Peg<> Plain;
typedef Peg<PegMemorySource, PegMatch, PegContext> Ast;
static auto	parse_with(Plain& peg, PegexpDefaultSource& s) -> decltype(peg.parse(s)) { return unallocating("parsing", [&]() { return peg.parse(s); }); }
static auto	parse_with(Ast& peg, PegMemorySource& s) -> decltype(peg.parse(s)) { return peg.parse(s); }		// which captures
template<class PegT, class Source> static void	parse(PegT& peg, const std::string& text, size_t start, bool ok, size_t end_byte, const char* what)
{
	Exact	buf(text);
	Source	source((const char*)buf.p);
	while (start-- > 0) source.get_char();
	size_t	start_byte = source.current_byte();
	auto	m = parse_with(peg, source);
	PCHECK(m.is_failure() == !ok, what << ": the parse " << (ok ? "fails" : "succeeds"));
	size_t	at = source.current_byte();
	PCHECK(at == (ok ? end_byte : start_byte), what << ": the parse " << (ok ? "succeeds" : "fails") << " and leaves the source at byte " << at << " instead of " << (ok ? end_byte : start_byte));
}
template<class Rule> static Rule	make_rule(const char* n, const char* p);
template<> Plain::Rule	make_rule<Plain::Rule>(const char* n, const char* p) { return Plain::Rule(n, p); }
template<> Ast::Rule	make_rule<Ast::Rule>(const char* n, const char* p) { return Ast::Rule(n, p, 0); }

template<class PegT, class Source> static void	run(const Grammar& gr, const std::vector<std::string>& texts, const std::vector<size_t>& starts, const std::vector<std::pair<bool, size_t>>& want, const char* what)
{
	Strings	keep;
	std::vector<typename PegT::Rule> rules;
	for (auto& r : gr.rules) rules.push_back(make_rule<typename PegT::Rule>(keep.keep(r.name), keep.keep(r.pattern)));
	PegT	peg(rules.data(), rules.size());
	for (size_t i = 0; i < texts.size(); i++)
		parse<PegT, Source>(peg, texts[i], starts[i], want[i].first, want[i].second, what);
	for (auto& r : gr.rules)
	{
		auto*	f = peg.lookup(r.name.c_str());
		PCHECK(f && r.name == f->name, what << ": looking up rule " << r.name << " finds " << (f ? f->name : "none"));
	}
}
static void	prop(Gen& g, Ctx& c)
{
	Grammar	gr = gen_grammar(g, c.max_size, g.chance(1, 4) ? all_labels : 0);
	if (c.verbose) for (auto& r : gr.rules) PLOG(c, "rule " << r.name << " = " << ref::show(r.pattern));
	std::vector<std::string> texts; std::vector<size_t> starts; std::vector<std::pair<bool, size_t>> want;
	for (int k = g.range(1, 4); k > 0; k--)
	{
		Text	t = gen_ahead(g, gr.m); size_t start = t.size();
		{ Text u = grammar_text(g, gr); t.insert(t.end(), u.begin(), u.end()); }
		if (start) c.label("starts inside the text");
		std::string text = ref::enc(t);
		if (ref::dec(text) != t) continue;
		try {
			Parser	p(gr, t, start);
			size_t	at = start; std::vector<Capture> caps;
			bool	ok = p.rule(*gr.find("TOP"), at, 0, caps);
			Text	used(t.begin(), t.begin()+at);
			PLOG(c, "text " << ref::show(text) << (ok ? " accepted to " : " rejected ") << at);
			texts.push_back(text); starts.push_back(start); want.push_back({ok, ok ? ref::enc(used).size() : 0});
			if (ok && at > start && p.calls) c.nontrivial = true;
			if (p.left_recursions) c.label("left recursion");
			if (p.deepest > 4) c.label(p.deepest > 50 ? "nested very deeply" : "nested deeply");
			c.label(ok ? "accepted" : "rejected");
		} catch (TooLong&) { c.label("too long"); }
	}
	if (g.coin()) run<Plain, PegexpDefaultSource>(gr, texts, starts, want, "without captures");
	else run<Ast, PegMemorySource>(gr, texts, starts, want, "with trees");
}
static Property	property()
{
	Property p; p.id = "C17"; p.fn = prop;
	p.rule = "a text is accepted, at least one character of it is consumed, and at least one rule was called by another";
	return p;
}
}
#ifndef PBT_NO_MAIN
PBT_MAIN(c17::property)
#endif
