// Locations and captures of matches
#include	"pegref.h"
#include	<pegexp.h>
#include	<variant.h>
#include	<peg_ast.h>
#include	<utf8_ptr.h>
#include	<char_ptr.h>

namespace c16 {
using namespace pegref;

struct Places		// the truth about every position
{
	std::vector<size_t> byte, line, column;
	Places(const Text& t, const Mode& m)
	{
		size_t	b = 0, l = 1, c = 1;
		for (size_t i = 0; ; i++)
		{
			byte.push_back(b); line.push_back(l); column.push_back(c);
			if (i == t.size()) break;
			b += m.bytes ? 1 : ref::encode(t[i]).size();
			if (t[i] == '\n') { l++; c = 1; } else c++;
		}
	}
};
template<class S> static void	check_at(const S& s, size_t p, const Places& w, const char* what)
{
	PCHECK((size_t)s.current_byte() == w.byte[p] && (size_t)s.current_line() == w.line[p] && (size_t)s.current_column() == w.column[p],
		what << " at character " << p << " reports byte " << s.current_byte() << " line " << s.current_line() << " column " << s.current_column()
		<< " instead of byte " << w.byte[p] << " line " << w.line[p] << " column " << w.column[p]);
	PCHECK(s.at_bol() == (w.column[p] == 1), what << " at character " << p << " says " << s.at_bol() << " to being at the start of a line");
	PCHECK(s.at_eof() == (p+1 == w.byte.size()), what << " at character " << p << " says " << s.at_eof() << " to being at the end");
	PCHECK(!s.is_null(), what << " says it is null");
}

// --- histories of sources ---
template<class S> static void	sources(Gen& g, Ctx& c, const Mode& m, const char* what)
{
	Text	t = g.chance(1, 6) ? gen_ahead(g, m) : Text();
	bool	large = t.size() > 6;
	if (large) c.label("long text");
	for (int n = g.range(0, c.max_size*2); n > 0; n--) { U u = g.chance(1, 4) ? '\n' : one(g, m); if (!m.bytes && g.chance(1, 12)) u = 0x80000080u + g.raw(0x40); t.push_back(u); }
	std::string text = encode(t, m);
	if (!m.bytes && ref::dec(text) != t) return;
	Places	w(t, m);
	Exact	buf(text);
	struct Slot { S s; size_t p; };
	std::vector<Slot> pool; pool.push_back({S((const char*)buf.p), 0});
	PLOG(c, what << " of " << ref::show(text));
	S	null;
	PCHECK(null.is_null() && null.at_eof(), "a null source is not null, or not at its end");
	int	moved = 0;
	for (int n = g.range(1, c.max_size*2); n > 0; n--)
	{
		size_t	k = g.raw(pool.size()), j = g.raw(pool.size());
		switch (g.weighted({8, 3, 2, 3, 2, large ? 3 : 0}))
		{
		case 0:
			for (int r = g.weighted({3, 2, 1})+1; r > 0; r--)
			{
				PLOG(c, "move " << k << " from " << pool[k].p);
				auto	ch = pool[k].s.get_char();
				if (pool[k].p == t.size()) { PCHECK(m.bytes ? (U)ch == 0 : (U)ch == 0xFFFFFFFFu, "a character past the end is " << ref::hex((U)ch)); }
				else
				{
					U	want = t[pool[k].p];
					PCHECK(m.bytes ? (unsigned char)ch == want : (U)ch == want, "character " << pool[k].p << " is " << ref::hex((U)ch) << " instead of " << ref::hex(want));
					pool[k].p++; moved++;
				}
				check_at(pool[k].s, pool[k].p, w, what);
			}
			break;
		case 1: PLOG(c, "copy " << k); { Slot s = pool[k]; if (pool.size() < 6) pool.push_back(s); else pool[j] = s; } break;
		case 2: PLOG(c, "assign " << k << " to " << j); pool[j].s = pool[k].s; pool[j].p = pool[k].p; break;
		case 3:
		{
			size_t	a = pool[k].p, b = pool[j].p;
			PCHECK(pool[k].s.same(pool[j].s) == (a == b), "same() of characters " << a << " and " << b);
			PCHECK((pool[k].s < pool[j].s) == (a < b), "< of characters " << a << " and " << b);
			PCHECK(pool[k].s - pool[j].s == (off_t)w.byte[a]-(off_t)w.byte[b], "the difference of characters " << a << " and " << b << " is " << (pool[k].s-pool[j].s));
			if (a <= b)
			{
				PCHECK(pool[j].s.bytes_from(pool[k].s) == w.byte[b]-w.byte[a], "bytes from " << a << " to " << b);
				StrVal	s = pool[k].s.string_to(pool[j].s);
				StrValIndex len; const char* p = s.asUTF8(len);
				PLOG(c, "text from " << a << " to " << b);
				PCHECK(std::string(p, len) == text.substr(w.byte[a], w.byte[b]-w.byte[a]), "the text from character " << a << " to " << b << " is " << ref::show(std::string(p, len)));
			}
			break;
		}
		case 5:
		{
			size_t	r = g.raw(t.size()-pool[k].p+1); PLOG(c, "move " << k << " from " << pool[k].p << " by " << r);
			while (r-- > 0) { pool[k].s.get_char(); pool[k].p++; }
			break;
		}
		case 4: if (pool[k].p < t.size() && m.bytes) { char ch = pool[k].s.get_byte(); PCHECK((unsigned char)ch == t[pool[k].p], "a byte"); pool[k].p++; } break;
		}
		for (auto& s : pool) check_at(s.s, s.p, w, what);
	}
	if (moved > 1) c.nontrivial = true;
	c.label("sources");
}

// --- captures ---
struct Got { std::string label; size_t byte, line, column, to, to_line, to_column; std::string text; bool rep; };
template<class S> struct Recorder
{
	typedef PegexpDefaultMatch<PegexpState<S>>	Match;
	typedef S		Source;
	typedef PegexpState<S>	State;
	int		capture_disabled = 0, repetition_nesting = 0;
	std::vector<Got> got; int most = 0, failures = 0;
	const char*	pattern = 0; size_t pattern_len = 0; std::string trouble;
	int		capture_count() const { return got.size(); }
	int		capture(PatternP name, int len, Match m, bool rep)
	{
		S&	f = m.from.source; S& t = m.to.source;
		StrVal	s = f.string_to(t); StrValIndex n; const char* p = s.asUTF8(n);
		got.push_back({std::string(name, len), (size_t)f.current_byte(), (size_t)f.current_line(), (size_t)f.current_column(),
			(size_t)t.current_byte(), (size_t)t.current_line(), (size_t)t.current_column(), std::string(p, n), rep});
		if ((int)got.size() > most) most = got.size();
		return got.size();
	}
	void		rollback_capture(int count) { if (count < (int)got.size()) got.resize(count); }
	void		record_failure(PatternP op, PatternP end, S at)
	{
		failures++;
		if (op < pattern || op >= pattern+pattern_len+1 || end < op || end > pattern+pattern_len) trouble = "a failure is reported outside the expression";
	}
	Match		match_result(State f, State t) { return Match(f, t); }
	Match		match_failure(State at) { return Match(at, at); }
};
static bool	kept(const Capture& k) { return !(k.rep && k.from == k.to); }	// an empty iteration may count once or twice
template<class S> static void	compare(Recorder<S>& r, size_t base, const std::vector<Capture>& want, const Places& w, const std::string& text, const char* what)
{
	std::vector<Got> g; for (size_t i = base; i < r.got.size(); i++) if (!(r.got[i].rep && r.got[i].byte == r.got[i].to)) g.push_back(r.got[i]);
	std::vector<Capture> e; for (auto& k : want) if (kept(k)) e.push_back(k);
	auto	list = [&]() { std::ostringstream o; for (auto& x : g) o << " " << x.label << "=" << ref::show(x.text); o << ", expected"; for (auto& x : e) o << " " << x.label << "=" << ref::show(text.substr(w.byte[x.from], w.byte[x.to]-w.byte[x.from])); return o.str(); };
	PCHECK(g.size() == e.size(), what << ": captured" << list());
	for (size_t i = 0; i < g.size(); i++)
	{
		auto&	a = g[i]; auto& b = e[i];
		PCHECK(a.label == b.label && a.byte == w.byte[b.from] && a.to == w.byte[b.to], what << ": captured" << list());
		PCHECK(a.line == w.line[b.from] && a.column == w.column[b.from] && a.to_line == w.line[b.to] && a.to_column == w.column[b.to],
			what << ": " << a.label << " is from line " << a.line << " column " << a.column << " to line " << a.to_line << " column " << a.to_column
			<< " instead of " << w.line[b.from] << "," << w.column[b.from] << " to " << w.line[b.to] << "," << w.column[b.to]);
		PCHECK(a.text == text.substr(w.byte[b.from], w.byte[b.to]-w.byte[b.from]), what << ": captured" << list());
		PCHECK(a.rep == b.rep, what << ": the capture of " << a.label << " is " << (a.rep ? "" : "not ") << "said to be in a repetition");
	}
	PCHECK(r.capture_disabled == 0 && r.repetition_nesting == 0, what << ": afterwards captures are disabled " << r.capture_disabled << " times, and repetitions nested " << r.repetition_nesting);
	PCHECK(r.trouble.empty(), what << ": " << r.trouble);
}
template<class S> static void	run(Recorder<S>& r, Pegexp<Recorder<S>>& pegexp, const std::string& text, const char* buf, size_t start, bool here, size_t end, const std::vector<Capture>& caps,
	bool found, size_t from, size_t to, const std::vector<Capture>& fcaps, const Places& w, bool search)
{
	S	source(buf);
	for (size_t i = 0; i < start; i++) source.get_char();
	size_t	base = r.got.size();
	if (!search)
	{
		auto	m = pegexp.match_here(source, &r);
		PCHECK(m.is_failure() == !here, "matching at " << start << (here ? " fails" : " succeeds"));
		compare(r, base, here ? caps : std::vector<Capture>(), w, text, "match");
		if (here) { check_at(m.from.source, start, w, "start of match"); check_at(m.to.source, end, w, "end of match"); check_at(source, end, w, "source after match"); }
		else check_at(source, start, w, "source after failed match");
	}
	else
	{
		auto	m = pegexp.match(source, &r);
		PCHECK(m.is_failure() == !found, "the search from " << start << (found ? " fails" : " succeeds"));
		compare(r, base, found ? fcaps : std::vector<Capture>(), w, text, "search");
		if (found) { check_at(m.from.source, from, w, "start of match"); check_at(m.to.source, to, w, "end of match"); }
	}
}
template<class S> static void	captures(Gen& g, Ctx& c, const Mode& m)
{
	Shape	s; s.m = m; s.budget = g.range(2, c.max_size); s.labels = g.chance(1, 4) ? all_labels : g.range(1, 7);
	Seq	q = gen_seq(g, s, 0, true, true);
	if (g.chance(1, 100)) { q = deepen(g, q, s); c.label("nested deeply"); }
	std::string pattern = render(q, s.m);
	Exact	pat(pattern);
	PLOG(c, "pegexp " << ref::show(pattern) << (m.bytes ? " on bytes" : ""));
	Recorder<S> r; r.pattern = pat.p; r.pattern_len = pat.n;
	Pegexp<Recorder<S>> pegexp(pat.p);
	for (int k = g.range(1, 3); k > 0; k--)
	{
		Text	t = gen_ahead(g, m); size_t ahead = t.size() < 7 ? 0 : t.size();
		{ Text u = gen_text(g, q, m); t.insert(t.end(), u.begin(), u.end()); }
		if (t.size() > 1000) c.label("long text");
		long	limit = t.size()-ahead > 200 ? 100000 : 20000;
		std::string text = encode(t, m);
		if (!m.bytes && ref::dec(text) != t) continue;
		Places	w(t, m);
		Exact	buf(text);
		size_t	start = ahead + (g.chance(1, 4) ? g.raw(t.size()-ahead+1) : 0), end = 0, from = 0, to = 0;
		bool	here = false, found = false, search = g.coin();
		std::vector<Capture> caps, fcaps;
		PLOG(c, (search ? "search " : "match ") << ref::show(text) << " from " << start);
		try {
			if (!search) { Eval e(t, m); e.limit = limit; end = start; here = e.seq(q, end); caps = e.caps; }
			for (size_t f = start; search && f <= t.size(); f++)
			{
				Eval e(t, m); e.limit = limit; size_t p = f;
				if (e.seq(q, p)) { found = true; from = f; to = p; fcaps = e.caps; break; }
			}
		} catch (TooLong&) { continue; }
		run<S>(r, pegexp, text, buf.p, start, here, end, caps, found, from, to, fcaps, w, search);
		if (caps.size() + fcaps.size() >= 1) { c.nontrivial = true; c.label("captured"); }
		else c.label("no captures");
	}
}

static void	prop(Gen& g, Ctx& c)
{
	Mode	m;
	switch (g.weighted({4, 2, 2, 1, 1, 2, 1, 1}))
	{
	case 0: captures<PegexpPointerSource<>>(g, c, m); break;
	case 1: m.bytes = true; captures<PegexpPointerSource<const char*, char>>(g, c, m); break;
	case 2: captures<PegMemorySource>(g, c, m); break;
	case 3: captures<PegexpPointerSource<NulGuardedUTF8Ptr>>(g, c, m); break;
	case 4: m.bytes = true; sources<PegexpPointerSource<const char*, char>>(g, c, m, "bytes"); break;
	case 5: sources<PegexpPointerSource<>>(g, c, m, "source"); break;
	case 6: sources<PegMemorySource>(g, c, m, "memory source"); break;
	case 7: sources<PegexpPointerSource<NulGuardedUTF8Ptr>>(g, c, m, "NUL guarded source"); break;
	}
}
static Property	property()
{
	Property p; p.id = "C16"; p.fn = prop;
	p.rule = "a match that captures at least once, or a history of sources that moves at least twice";
	return p;
}
}
#ifndef PBT_NO_MAIN
PBT_MAIN(c16::property)
#endif
