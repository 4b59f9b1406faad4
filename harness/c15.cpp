// Pegular expressions match what their definition says
#include	"pegref.h"
#include	<pegexp.h>
#include	<utf8_ptr.h>
#include	<char_ptr.h>

namespace c15 {
using namespace pegref;

struct Want { bool here; size_t here_end; bool found; size_t from, to; };

template<class Source> void	run(const std::string& pattern, const std::string& text, const std::vector<size_t>& offset, size_t start, const Want& w, const char* what, Gen& g, bool search_too)
{
	typedef PegexpDefaultMatch<PegexpState<Source>>	Match;
	typedef PegexpDefaultContext<Match>	Context;
	Exact		pat(pattern), txt(text);
	Pegexp<Context>	pegexp(pat.p);
	Context		context;
	Source		origin((const char*)txt.p);
	for (size_t i = 0; i < start; i++) origin.get_char();
	auto	char_at = [&](off_t byte) -> long { for (size_t i = 0; i < offset.size(); i++) if ((off_t)offset[i] == byte) return i; return -1; };
	for (int k = 0; k < 1+(search_too ? 1 : 0); k++)
	{
		Source	source(origin);
		Match	m = unallocating("matching", [&]() { return pegexp.match_here(source, &context); });
		PCHECK(m.is_failure() == !w.here, what << ": matching at " << start << " " << (m.is_failure() ? "fails" : "succeeds"));
		if (w.here)
		{
			long	f = char_at(m.from.source.current_byte()), t = char_at(m.to.source.current_byte());
			PCHECK(f == (long)start && t == (long)w.here_end, what << ": matching at " << start << " matches from " << f << " to " << t << " instead of " << start << " to " << w.here_end);
			PCHECK(char_at(source.current_byte()) == (long)w.here_end && source.same(m.to.source), what << ": the source is left at " << char_at(source.current_byte()));
		}
		else
			PCHECK(source.current_byte() == origin.current_byte() && source.same(origin), what << ": a failed match has moved the source");
		if (!search_too) break;
		Source	search(origin);
		Match	s = unallocating("searching", [&]() { return pegexp.match(search, &context); });
		PCHECK(s.is_failure() == !w.found, what << ": the search from " << start << " " << (s.is_failure() ? "fails" : "succeeds"));
		if (w.found)
		{
			long	f = char_at(s.from.source.current_byte()), t = char_at(s.to.source.current_byte());
			PCHECK(f == (long)w.from && t == (long)w.to, what << ": the search from " << start << " finds " << f << " to " << t << " instead of " << w.from << " to " << w.to);
		}
	}
	PCHECK(memcmp(pat.p, pattern.c_str(), pat.n+1) == 0 && memcmp(txt.p, text.c_str(), txt.n+1) == 0, what << ": the pattern or the text was written");
}

static void	prop(Gen& g, Ctx& c)
{
	Shape	s; s.m.bytes = g.chance(1, 4); s.budget = g.range(1, c.max_size); s.labels = g.chance(1, 3) ? g.chance(1, 4) ? all_labels : 3 : 0;
	Seq	q = gen_seq(g, s, 0, true, true);
	if (g.chance(1, 100)) { q = deepen(g, q, s); c.label("nested deeply"); }
	std::string pattern = render(q, s.m);
	int	texts = g.range(1, 3);
	PLOG(c, "pegexp " << ref::show(pattern) << (s.m.bytes ? " on bytes" : ""));
	bool	useful = false;
	for (int k = 0; k < texts; k++)
	{
		Text	t = gen_ahead(g, s.m); size_t ahead = t.size() < 7 ? 0 : t.size();
		{ Text u = gen_text(g, q, s.m); t.insert(t.end(), u.begin(), u.end()); }
		if (t.size() > 1000) c.label("long text");
		std::string text = encode(t, s.m);
		if (!s.m.bytes && ref::dec(text) != t) { c.label("text not preserved by encoding"); continue; }
		std::vector<size_t> offset(1, 0);
		for (U u : t) offset.push_back(offset.back() + (s.m.bytes ? 1 : ref::encode(u).size()));
		size_t	start = ahead + (g.chance(1, 4) ? g.raw(t.size()-ahead+1) : 0);
		PLOG(c, "text " << ref::show(text) << " from " << start);
		Want	w{};
		bool	searched = true;
		try {
			Eval	e(t, s.m);
			if (t.size()-ahead > 200) e.limit = 100000;
			size_t	p = start;
			w.here = e.seq(q, p); w.here_end = p;
			for (size_t f = start; f <= t.size(); f++)
			{
				size_t p = f;
				if (e.seq(q, p)) { w.found = true; w.from = f; w.to = p; break; }
			}
		} catch (TooLong&) { c.label("too long"); continue; }
		if (s.m.bytes)
		{
			run<PegexpPointerSource<const char*, char>>(pattern, text, offset, start, w, "bytes", g, searched);
		}
		else
		{
			run<PegexpPointerSource<>>(pattern, text, offset, start, w, "characters", g, searched);
			switch (g.raw(3))
			{
			case 1: run<PegexpPointerSource<GuardedUTF8Ptr>>(pattern, text, offset, start, w, "guarded", g, searched); break;
			case 2: run<PegexpPointerSource<NulGuardedUTF8Ptr>>(pattern, text, offset, start, w, "NUL guarded", g, searched); break;
			}
		}
		if (size(q) >= 2 && ((w.here && w.here_end > start) || (w.found && w.to > w.from))) useful = true;
		c.label(w.here ? "matches here" : w.found ? "found later" : "no match");
	}
	if (useful) c.nontrivial = true;
	c.label(s.m.bytes ? "bytes" : "characters");
}
static Property	property()
{
	Property p; p.id = "C15"; p.fn = prop;
	p.rule = "an expression of at least two atoms that matches some text of at least one character";
	return p;
}
}
#ifndef PBT_NO_MAIN
PBT_MAIN(c15::property)
#endif
