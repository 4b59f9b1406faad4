// Named groups report text that the group really matched
#include	"rxref.h"

namespace c21 {
using namespace rxref;

static void	unname(std::vector<Seq>& a) { for (auto& s : a) for (auto& n : s) { if (n.kind == Named) n.kind = Group; unname(n.alts); } }
static void	groups(const std::vector<Seq>& a, std::vector<const Node*>& by_name)
{
	for (auto& s : a)
		for (auto& n : s)
		{
			if (n.kind == Named) by_name[n.name-1] = &n;
			groups(n.alts, by_name);
		}
}
static std::string show(const Caps& c)
{
	std::string s;
	for (auto& p : c) s += (s.empty() ? "" : " ") + (p == std::make_pair((size_t)0, (size_t)0) ? std::string("none") : std::to_string(p.first)+"-"+std::to_string(p.second));
	return s;
}
struct Compiled
{
	char*	nfa = 0;
	std::unique_ptr<RxProgram> p;
	Compiled(const Text& re, uint32_t f)
	{
		Compiler	c(strval(re), f);
		PCHECK(c.compile(nfa), "it is rejected: " << (c.errorMessage() ? c.errorMessage() : "(no message)") << " at " << c.errorOffset());
		p.reset(new RxProgram(nfa, true));
	}
};
struct Held { RxResult r; bool ok; size_t from, to; Caps caps; };
static Caps	captures(const RxResult& r, size_t n)
{
	Caps	c;
	for (size_t i = 1; i <= n; i++) c.push_back({(size_t)r.capture(2*i), (size_t)r.capture(2*i+1)});
	return c;
}
static void	still(const Held& h, const char* when)
{
	PCHECK(h.r.succeeded() == h.ok, when << ", a result has changed: it " << (h.ok ? "no longer succeeds" : "succeeds"));
	if (!h.ok) return;
	PCHECK(h.r.offset() == h.from && h.r.offset()+h.r.length() == h.to && h.r.capture(0) == h.from && h.r.capture(1) == h.to, when << ", a result's place has changed");
	Caps	now = captures(h.r, h.caps.size());
	PCHECK(now == h.caps, when << ", a result's captures were " << show(h.caps) << " and are " << show(now));
}

static void	prop(Gen& g, Ctx& c)
{
	Shape	s; s.budget = g.range(1, c.max_size); s.names = g.range(1, 5);
	Regex	r = gen_regex(g, s);
	if (r.names.empty() && g.chance(4, 5))	// It should have a name
	{
		Node	n; n.kind = Named; n.name = 1; n.alts = r.alts;
		r.names.push_back("all");
		r.alts.assign(1, Seq(1, n));
	}
	bool	lots = g.chance(1, 60);
	if (lots)		// About as many groups as there can be
	{
		static const int edge[] = { 31, 32, 62, 63, 64, 125, 126, 127, 128, 129, 253, 254 };
		int	k = g.coin() ? g.pick(edge) : (int)g.range(20, 254);
		r = Regex();
		Seq	q;
		for (int i = 1; i <= k; i++)
		{
			r.names.push_back((g.chance(1, 10) ? "group number " : "g") + std::to_string(i));
			Node	ch, nm; ch.ch = 'a' + i%3;
			if (g.chance(1, 6)) { ch.kind = Class; ch.ranges.push_back({ch.ch, ch.ch}); ch.ranges.push_back({'x', 'z'}); }
			nm.kind = Named; nm.name = i; nm.alts.assign(1, Seq(g.range(1, 2), ch));
			if (g.chance(1, 20)) { nm.rep = true; nm.min = 0; nm.max = 1; }
			if (g.chance(1, 20)) { Node o; o.kind = Group; o.alts.assign(1, Seq(1, nm)); q.push_back(o); }
			else q.push_back(nm);
		}
		r.alts.assign(1, q);
		c.label("many groups");
	}
	size_t	n = r.names.size();
	Render	rn(g, false);
	Text	re = rn.regex(r);
	PLOG(c, "expression " << ref::show(ref::enc(re)));
	std::unique_ptr<Compiled> named(new Compiled(re, AllFeatures)), plain;
	{
		Regex	u = r; unname(u.alts); u.names.clear();
		Render	rp(g, false);
		plain.reset(new Compiled(rp.regex(u), AllFeatures));
	}
	for (size_t i = 0; i <= n+1; i++)
	{
		StrVal	nm = named->p->group_name(i);
		StrValIndex	len; const char* b = nm.asUTF8(len);
		std::string got(b, len), want = i >= 1 && i <= n ? r.names[i-1] : "";
		PCHECK(got == want, "group " << i << " is named " << ref::show(got) << " and not " << ref::show(want));
	}
	std::vector<const Node*> group(n, (const Node*)0);
	groups(r.alts, group);

	std::vector<Held> held;
	int	rounds = g.range(1, 5), took_part = 0;
	for (int k = 0; k < rounds; k++)
	{
		const char*	when = "after a match";
		switch (held.empty() ? 0 : g.weighted({6, 3, 2, 1, 1, 2, 1}))
		{
		case 0:
		{
			if (!named) break;
			Text	t = gen_text(g, r, lots ? 600 : 30);
			size_t	ahead = 0;
			{ Text a = gen_ahead(g); ahead = a.size(); t.insert(t.begin(), a.begin(), a.end()); if (ahead) c.label("long text before"); }
			if (ref::dec(ref::enc(t)) != t) break;
			size_t	start = ahead + (g.chance(1, 4) ? g.raw(t.size()-ahead+1) : 0);
			bool	search = g.coin();
			PLOG(c, (search ? "search " : "match ") << ref::show(ref::enc(t)) << " from " << start);
			Eval	e(t);
			CapEval	ce(e, lots ? 2000 : 15000);
			bool	found = false;
			size_t	from = start, to = 0;
			Places	places;
			try {
				for (; from <= (search ? t.size() : start); from++)
				{
					Ends	ends = e.alts(r.alts, from);
					if (ends.empty()) continue;
					found = true; to = *ends.rbegin();
					break;
				}
			} catch (TooLong&) { c.label("too long"); break; }
			StrVal	target = placed(g, c, ref::enc(t));
			RxResult res = search ? named->p->matchAfter(target, start) : named->p->matchAt(target, start);
			RxResult other = search ? plain->p->matchAfter(strval(t), start) : plain->p->matchAt(strval(t), start);
			PCHECK(res.succeeded() == other.succeeded() && res.offset() == other.offset() && res.length() == other.length(), "with the names " << (res.succeeded() ? "it matches " : "it fails ") << res.offset() << "-" << res.offset()+res.length() << " and without " << (other.succeeded() ? "it matches " : "it fails ") << other.offset() << "-" << other.offset()+other.length());
			PCHECK(res.succeeded() == found, "the match " << (found ? "fails" : "succeeds"));
			Held	h{res, found, from, to, Caps()};
			if (found)
			{
				PCHECK(res.offset() == from && res.offset()+res.length() == to, "it matches " << res.offset() << "-" << res.offset()+res.length() << " and not " << from << "-" << to);
				PCHECK(res.capture(0) == from && res.capture(1) == to, "captures 0 and 1 are " << res.capture(0) << " and " << res.capture(1));
				h.caps = captures(res, n);
				for (size_t i = 0; i < n; i++)
				{
					auto	p = h.caps[i];
					if (p == std::make_pair((size_t)0, (size_t)0)) continue;
					took_part++;
					PCHECK(p.first >= from && p.first <= p.second && p.second <= to, "group " << r.names[i] << " is at " << p.first << "-" << p.second << " and the match at " << from << "-" << to);
					bool	can;
					try { can = e.alts(group[i]->alts, p.first).count(p.second) > 0; } catch (TooLong&) { can = true; }
					PCHECK(can, "group " << r.names[i] << " is at " << p.first << "-" << p.second << " which it does not match");
				}
				try {
					for (auto& p : ce.alts(r.alts, Place(from, Caps(n)))) if (p.first == to) places.insert(p);
					PCHECK(places.count(Place(to, h.caps)), "no way to match captures " << show(h.caps) << "; " << places.size() << " ways, such as " << show(places.begin()->second));
					c.label(places.size() > 1 ? "captures: several ways" : "captures: one way");
				} catch (TooLong&) { c.label("captures: too many ways"); }
			}
			held.push_back(h);
			still(held.back(), "when copied");
			break;
		}
		case 1: { size_t i = g.raw(held.size()); PLOG(c, "copy of result " << i); Held h = held[i]; held.push_back(h); when = "after a copy"; break; }
		case 2: { size_t i = g.raw(held.size()), j = g.raw(held.size()); PLOG(c, "result " << i << " = result " << j); held[i] = held[j]; when = "after an assignment"; break; }
		case 3: { size_t i = g.raw(held.size()); PLOG(c, "clear result " << i); held[i].r.clear(); held[i].ok = false; when = "after clear()"; break; }
		case 4: { size_t i = g.raw(held.size()); PLOG(c, "destroy result " << i); held.erase(held.begin()+i); when = "after another was destroyed"; break; }
		case 5:
		{
			size_t	i = g.raw(held.size());
			if (!held[i].ok || n == 0) break;
			size_t	k = g.raw(n); bool end = g.coin();
			size_t	v = g.chance(1, 8) ? g.u32() : g.raw(100);
			PLOG(c, "set capture " << 2*(k+1)+end << " of result " << i << " to " << v);
			held[i].r.captureSet(2*(k+1)+end, v);
			(end ? held[i].caps[k].second : held[i].caps[k].first) = v;
			when = "after captureSet";
			break;
		}
		case 6: PLOG(c, "destroy the program"); named.reset(); when = "after the program was destroyed"; break;
		}
		for (auto& h : held) still(h, when);
	}
	c.nontrivial = took_part > 0;
}
static Property	property()
{
	Property p; p.id = "C21"; p.fn = prop; p.cpu_limit_s = 30;
	p.rule = "a named group took part in a match";
	return p;
}
}
#ifndef PBT_NO_MAIN
PBT_MAIN(c21::property)
#endif
