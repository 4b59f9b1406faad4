#pragma once
// Grammars of rules that are pegular expressions: generated, and parsed by direct evaluation
#include	"pegref.h"

namespace pegref {
struct Rule { std::string name; Seq q; std::string pattern; std::vector<std::string> captures; };
struct Grammar
{
	std::vector<Rule> rules; Mode m;
	const Rule*	find(const std::string& n) const { for (auto& r : rules) if (r.name == n) return &r; return 0; }
};
inline Grammar	gen_grammar(Gen& g, int size, int labels)
{
	Grammar	gr; gr.m.peg = true;
	// Names that begin alike, and continue with characters before and after '>' and '_'
	static const std::vector<std::string> names = { "a", "ab", "a1", "a_1", "abc", "a10", "aB", "name", "name2", "Name", "nam", "TOPS", "TO", "T", "x", "x0", "TOP1",
		"_", "0", "A_1", "a_long_name_of_a_rule_that_ends_in_1", "a_long_name_of_a_rule_that_ends_in_2", "a_long_name_of_a_rule", "a_long_name_of_a_rule_that_ends_in_12" };
	std::vector<std::string> use(1, "TOP"), pool = names;
	int	n = g.chance(1, 10) ? g.range(6, 20) : g.range(1, 5);
	bool	chain = g.chance(1, 12);	// Each rule can start with a call of the next, and the last perhaps with the first
	for (int i = 0; i < n; i++) { size_t k = g.raw(pool.size()); use.push_back(pool[k]); pool.erase(pool.begin()+k); }
	std::vector<std::string> callable = use;
	callable.erase(callable.begin());
	{ std::vector<std::string> c = callable; for (int i = 0; i < 3; i++) callable.insert(callable.end(), c.begin(), c.end()); }
	callable.push_back("TOP");
	if (g.chance(1, 6)) callable.push_back(pool[g.raw(pool.size())]);	// a rule that does not exist: a call of it fails
	std::vector<std::string> next = use;
	if (g.chance(2, 3)) next.push_back(next[g.raw(next.size())]);
	// The order of the rules in the table is any
	for (size_t i = use.size(); i-- > 1;) std::swap(use[i], use[g.raw(i+1)]);
	for (auto& u : use)
	{
		Shape	s; s.m = gr.m; s.budget = g.range(1, size); s.labels = labels; s.rules = callable;
		Rule	r; r.name = u; r.q = gen_seq(g, s, 0, true, true);
		size_t	at = std::find(next.begin(), next.end(), u)-next.begin();
		if (chain && at+1 < next.size())
		{
			Node	call; call.kind = Call; call.rule = next[at+1];
			if (g.coin())
			{
				Node	a, rest; a.kind = Alts; rest.kind = Group; rest.seqs.push_back(r.q);
				a.seqs.push_back(Seq(1, call));
				if (g.coin()) { Node l; l.ch = one(g, gr.m); a.seqs[0].push_back(l); }
				a.seqs.push_back(Seq(1, rest));
				r.q = Seq(1, a);
			}
			else r.q.insert(r.q.begin(), call);
		}
		r.pattern = render(r.q, gr.m);
		gr.rules.push_back(r);
	}
	return gr;
}
inline Text	grammar_text(Gen& g, const Grammar& gr)
{
	CallText call;
	call = [&](const std::string& name, Text& t, int depth) { if (const Rule* r = gr.find(name)) sample(g, r->q, t, gr.m, depth, call); };
	return gen_text(g, gr.find("TOP")->q, gr.m, call);
}

// A capture is text, or the tree of a rule that itself captured; a label captured repeatedly is a list
struct Tree { struct Value { size_t from, to; std::shared_ptr<Tree> tree; }; struct Entry { bool list; std::vector<Value> v; }; std::map<std::string, Entry> e; };
inline std::shared_ptr<Tree> make_tree(const std::vector<Capture>& caps)
{
	auto	t = std::make_shared<Tree>();
	for (auto& c : caps)
	{
		auto	i = t->e.find(c.label);
		if (i == t->e.end()) t->e[c.label] = {c.rep, {{c.from, c.to, c.tree}}};
		else { i->second.list = true; i->second.v.push_back({c.from, c.to, c.tree}); }
	}
	return t;
}

struct Failures
{
	size_t	furthest = 0;
	std::map<std::pair<std::string, size_t>, std::set<std::vector<std::string>>> atoms;	// (rule, offset in its pattern): the paths that led there
	std::map<std::pair<std::string, size_t>, size_t> ends;
};
struct Parser
{
	const Grammar&	gr; const Text& t;
	long		steps = 0; bool capturing = false; int deepest = 0, left_recursions = 0, calls = 0;
	struct Frame { const Rule* r; size_t p; };
	std::vector<Frame> stack;
	Failures	f;
	long		limit = sampling().longest > 150 ? 100000 : 20000;	// of steps
	size_t		origin;		// where the parse starts in the text
	Parser(const Grammar& g, const Text& text, size_t from = 0) : gr(g), t(text), origin(from) { f.furthest = from; }
	bool	rule(const Rule& r, size_t& p, int look, std::vector<Capture>& caps)
	{
		stack.push_back({&r, p});
		if (stack.size() > 400) throw TooLong();
		deepest = std::max(deepest, (int)stack.size());
		Eval	e(t, gr.m); e.limit = limit; e.look = look; e.steps = &steps;
		e.wanted = [&](const std::string& l, size_t from, size_t to) { return !capturing || (to > from && std::count(r.captures.begin(), r.captures.end(), l)); };
		e.failed = [&](const Node& n, size_t at)
		{
			if (e.look || at < f.furthest) return;
			// Escaped characters, and those that could be extensions, are not reported
			char	op = r.pattern[n.at];
			if (strchr("~@#%_;<`)^$.\\?*+(|&!", op)) return;
			if (at > f.furthest) { f.furthest = at; f.atoms.clear(); f.ends.clear(); }
			std::vector<std::string> path; for (auto& s : stack) path.push_back(s.r->name);
			f.atoms[{r.name, n.at}].insert(path);
			f.ends[{r.name, n.at}] = n.kind == Class && at == t.size() ? 0 : n.end;
		};
		e.call = [&](const Node& n, size_t& at) -> bool
		{
			const Rule* sub = gr.find(n.rule);
			if (!sub) return false;
			calls++;
			for (auto& s : stack) if (s.p == at && s.r == sub) { left_recursions++; return false; }
			size_t	from = at;
			std::vector<Capture> sc;
			if (!rule(*sub, at, e.look, sc)) return false;
			std::string l = n.label.empty() ? n.rule : n.label;
			if (capturing && e.look == 0 && std::count(r.captures.begin(), r.captures.end(), l) && (sc.size() || at > from))
				e.caps.push_back({l, from, at, e.rep > 0, sc.size() ? make_tree(sc) : nullptr});
			return true;
		};
		bool	ok = e.seq(r.q, p);
		if (ok) caps = e.caps;
		stack.pop_back();
		return ok;
	}
};
}
