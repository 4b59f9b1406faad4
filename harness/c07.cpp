// Rendered JSON is read back by a strict parser and compared with the value
#include	"vargen.h"

namespace c07 {
using namespace vargen;

// RFC 8259, nothing more. Reads the text into a Model: numbers are LongLong, arrays VarArray.
struct Parser
{
	const std::string& s; size_t i = 0; std::string error;
	std::string	tokens;		// the text without the white space between tokens
	std::vector<std::pair<size_t,int>> starts;	// where each token starts, and its depth
	bool	fail(const std::string& e) { if (error.empty()) error = e + " at byte " + std::to_string(i); return false; }
	void	ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) i++; }
	bool	hex4(U& u) { u = 0; for (int k = 0; k < 4; k++) { if (i >= s.size() || !isxdigit((unsigned char)s[i])) return fail("bad \\u escape"); char ch = s[i++]; u = u*16 + (ch <= '9' ? ch-'0' : (ch|0x20)-'a'+10); } return true; }
	bool	string(Text& t)
	{
		size_t b = i;
		if (i >= s.size() || s[i] != '"') return fail("expected a string");
		i++;
		for (;;)
		{
			if (i >= s.size()) return fail("unterminated string");
			unsigned char ch = s[i];
			if (ch == '"') { i++; break; }
			if (ch < 0x20) return fail("raw control character in string");
			if (ch == '\\')
			{
				i++;
				if (i >= s.size()) return fail("unterminated escape");
				char e = s[i++];
				switch (e)
				{
				case '"': case '\\': case '/': t.push_back(e); break;
				case 'b': t.push_back('\b'); break;
				case 'f': t.push_back('\f'); break;
				case 'n': t.push_back('\n'); break;
				case 'r': t.push_back('\r'); break;
				case 't': t.push_back('\t'); break;
				case 'u':
				{
					U u, l;
					if (!hex4(u)) return false;
					if (u >= 0xDC00 && u < 0xE000) return fail("lone low surrogate");
					if (u >= 0xD800 && u < 0xDC00)
					{
						if (i+1 >= s.size() || s[i] != '\\' || s[i+1] != 'u') return fail("lone high surrogate");
						i += 2;
						if (!hex4(l)) return false;
						if (l < 0xDC00 || l >= 0xE000) return fail("high surrogate without a low one");
						u = 0x10000 + ((u-0xD800)<<10) + (l-0xDC00);
					}
					t.push_back(u);
					break;
				}
				default: return fail("bad escape");
				}
				continue;
			}
			ref::Step d = ref::decode((const unsigned char*)s.c_str()+i);
			if (ref::is_escape(d.value) || d.value > 0x10FFFF || (d.value >= 0xD800 && d.value < 0xE000)) return fail("text is not UTF-8");
			t.push_back(d.value); i += d.len;
		}
		tokens += s.substr(b, i-b);
		return true;
	}
	bool	value(Model& m, int depth)
	{
		ws();
		starts.push_back({i, depth});
		if (i >= s.size()) return fail("expected a value");
		char ch = s[i];
		if (ch == '"') { m.type = Variant::String; return string(m.str); }
		if (s.compare(i, 4, "null") == 0) { i += 4; tokens += "null"; m.type = Variant::None; return true; }
		if (ch == '-' || isdigit((unsigned char)ch))
		{
			size_t b = i;
			if (s[i] == '-') i++;
			if (i >= s.size() || !isdigit((unsigned char)s[i])) return fail("bad number");
			if (s[i] == '0' && i+1 < s.size() && isdigit((unsigned char)s[i+1])) return fail("leading zero");
			while (i < s.size() && isdigit((unsigned char)s[i])) i++;
			std::string n = s.substr(b, i-b);
			errno = 0; m.num = strtoll(n.c_str(), 0, 10);
			if (errno) return fail("number out of range");
			m.type = Variant::LongLong; tokens += n;
			return true;
		}
		if (ch == '[' || ch == '{')
		{
			char close = ch == '[' ? ']' : '}';
			m.type = ch == '[' ? Variant::VarArray : Variant::StrVarMap;
			tokens += ch; i++; ws();
			if (i < s.size() && s[i] == close) { starts.push_back({i, depth}); tokens += close; i++; return true; }
			for (;;)
			{
				Model e; Text k;
				if (ch == '{')
				{
					ws(); starts.push_back({i, depth+1});
					if (!string(k)) return false;
					ws(); if (i >= s.size() || s[i] != ':') return fail("expected :");
					tokens += ':'; i++;
				}
				if (!value(e, depth+1)) return false;
				if (ch == '{') { if (!m.map.insert({ref::enc(k), {k, e}}).second) return fail("duplicate key"); }
				else m.vars.push_back(e);
				ws();
				if (i < s.size() && s[i] == ',') { tokens += ','; i++; continue; }
				if (i < s.size() && s[i] == close) { starts.push_back({i, depth}); tokens += close; i++; return true; }
				return fail("expected , or close");
			}
		}
		return fail("unexpected character");
	}
	bool	document(Model& m) { if (!value(m, 0)) return false; ws(); return i == s.size() || fail("text after the value"); }
};
// What a value looks like when it has been through JSON
static Model	plain(const Model& m)
{
	Model r = m;
	switch (m.type)
	{
	case Variant::Integer: case Variant::Long: r.type = Variant::LongLong; break;
	case Variant::StrArray: r.type = Variant::VarArray; r.strs.clear(); for (auto& t : m.strs) { Model e; e.type = Variant::String; e.str = t; r.vars.push_back(e); } break;
	case Variant::VarArray: for (auto& e : r.vars) e = plain(e); break;
	case Variant::StrVarMap: for (auto& e : r.map) e.second.second = plain(e.second.second); break;
	default: break;
	}
	return r;
}

static void	run(Gen& g, Ctx& c)
{
	if (g.chance(1, 4))
	{	// a bare string
		std::vector<StrVal> keep;
		Text	t;
		if (g.chance(1, 1000))
		{	// very long, with few that need care
			t = long_text(g, std::min(g.coin() ? 66000 : 4100, most()), 0);
			for (int n = g.range(0, 8); n > 0; n--) t[g.range(0, t.size()-1)] = scalar(g);
			c.label("long bare string");
		}
		else
			for (int n = g.range(0, g.chance(1, 8) ? 80 : 12); n > 0; n--) t.push_back(scalar(g));
		StrVal	s = val(t);
		if (t.size() && g.coin()) { Text all = unicode(g, 3); size_t at = all.size(); all.insert(all.end(), t.begin(), t.end()); Text post = unicode(g, 3); all.insert(all.end(), post.begin(), post.end()); StrVal w = val(all); if (g.coin()) keep.push_back(w); s = w.substr(at, t.size()); }
		PLOG(c, "asJSON of " << ref::show(t));
		StrVal	j = s.asJSON(), other = s;
		std::string lit = "\"" + bytes(j) + "\"";
		Parser	p{lit}; Text back;
		PCHECK(p.string(back) && p.i == lit.size(), "asJSON of " << ref::show(t) << " is not a JSON string literal: " << lit << ": " << p.error);
		PCHECK(back == t, "asJSON of " << ref::show(t) << " reads back as " << ref::show(back));
		PCHECK(bytes(s) == ref::enc(t), "asJSON changed the string");
		std::string jb = bytes(j);
		PCHECK(j.length() == ref::dec(jb).size(), "asJSON has the wrong length");
		other.toJSON();
		PCHECK(bytes(other) == jb && bytes(s) == ref::enc(t), "toJSON");
		c.label("bare string");
		if (jb != ref::enc(t)) c.nontrivial = true;
		return;
	}
	Model	m;
	Variant	v = make(g, m, g.range(0, 3));
	if (g.chance(1, 80))
	{
		int	depth = g.range(1, 60);
		for (int i = 0; i < depth; i++)
		{
			Model w, e; Variant o = make(g, e, 0); bool before = g.coin(), after = g.chance(1, 4);
			if (g.coin())
			{
				w.type = Variant::VarArray;
				VariantArray a;
				if (before) { a.append(o); w.vars.push_back(e); }
				a.append(v); w.vars.push_back(m);
				if (after) { a.append(o); w.vars.push_back(e); }
				v = Variant(a);
			}
			else
			{
				w.type = Variant::StrVarMap;
				StrVariantMap a;
				Text	k = unicode(g, 2), k2 = k; k2.push_back('q');
				a.insert(val(k), v); w.map[ref::enc(k)] = std::make_pair(k, m);
				if (before) { a.insert(val(k2), o); w.map[ref::enc(k2)] = std::make_pair(k2, e); }
				v = Variant(a);
			}
			m = w;
		}
		c.label("deep");
	}
	else if (g.chance(1, 200))
	{
		int	n = g.range(5, g.chance(1, 10) ? 300 : 60);
		Model	w; w.type = g.coin() ? Variant::VarArray : g.coin() ? Variant::StrArray : Variant::StrVarMap;
		VariantArray a; StringArray sa; StrVariantMap ma;
		for (int i = 0; i < n; i++)
		{
			Model	e; Variant o = make(g, e, 0); Text k = unicode(g, 4);
			switch (w.type)
			{
			case Variant::VarArray: a.append(o); w.vars.push_back(e); break;
			case Variant::StrArray: sa.append(val(k)); w.strs.push_back(k); break;
			default: k.push_back('0'+i%10); k.push_back('0'+i/10); ma.insert(val(k), o); w.map[ref::enc(k)] = std::make_pair(k, e); break;
			}
		}
		v = w.type == Variant::VarArray ? Variant(a) : w.type == Variant::StrArray ? Variant(sa) : Variant(ma);
		m = w;
		c.label("wide");
	}
	PLOG(c, "value " << show(m));
	Model	want = plain(m);
	std::string tight;
	int	n = g.chance(1, 2) ? 0 : g.chance(1, 10) ? g.range(0, 300) : g.range(0, 6);
	for (int indent : { -2, -1, n })
	{
		std::string j = bytes(v.as_json(indent));
		Parser	p{j}; Model back;
		PCHECK(p.document(back), "as_json(" << indent << ") of " << show(m) << " is not JSON: " << j << ": " << p.error);
		PCHECK(back == want, "as_json(" << indent << ") of " << show(m) << " reads back as " << show(back) << " from " << j);
		if (indent == -2)
		{
			tight = p.tokens;
			PCHECK(j == tight, "as_json(-2) has white space between tokens: " << j);
		}
		PCHECK(p.tokens == tight, "as_json(" << indent << ") differs from as_json(-2) in more than white space: " << j);
		if (indent == -1)
			PCHECK(j.find('\n') == std::string::npos, "as_json(-1) is not a single line: " << j);
		if (indent >= 0)
			for (auto& st : p.starts)
			{	// a token that starts a line is indented by two for each level
				size_t b = st.first;
				while (b > 0 && j[b-1] == ' ') b--;
				if (b > 0 && j[b-1] == '\n')
					PCHECK(st.first-b == 2u*(indent+st.second), "as_json(" << indent << ") indents depth " << st.second << " by " << st.first-b << ": " << j);
			}
		PCHECK(differs(v, m).empty(), "as_json changed the value: " << differs(v, m));
	}
	if (g.chance(1, 4)) PCHECK(v.as_json() == v.as_json(-1), "as_json() is not as_json(-1)");
	c.label(Variant::type_names[m.type]);
	if (m.type >= Variant::StrArray ? m.strs.size()+m.vars.size()+m.map.size() > 0 : true) c.nontrivial = true;
}

static Property	prop()
{
	Property p;
	p.id = "C07"; p.fn = run;
	p.rule = "A value (a scalar, or arrays and maps nested up to three, sometimes 60, deep) rendered in the three forms, or a bare string. Non-trivial: not an empty container, or a string of which some character was escaped.";
	return p;
}
}
#ifndef PBT_NO_MAIN
PBT_MAIN(c07::prop)
#endif
