#pragma once
// Generated variant values with a model of each, for the drivers that work on variants
#include	"strgen.h"
#include	<variant.h>
#include	<climits>

namespace vargen {
using namespace strgen;
struct Model
{
	Variant::VariantType type = Variant::None;
	long long	num = 0;
	Text		str;
	std::vector<Text> strs;
	std::vector<Model> vars;
	std::map<std::string, std::pair<Text, Model>> map;	// by UTF-8 key, which is in code point order
	bool operator==(const Model& o) const
	{
		return type == o.type && num == o.num && str == o.str && strs == o.strs && vars == o.vars && map == o.map;
	}
};
// A scalar value, weighted to those that need care in JSON
inline U	scalar(Gen& g)
{
	switch (g.weighted({6, 3, 3, 3, 3, 3}))
	{
	case 0: return g.range('a', 'z');
	case 1: return g.raw(0x20);				// controls, NUL
	case 2: { static const U t[] = { '"', '\\', '/', '\b', '\f', '\n', '\r', '\t', 0x7F, '\'', 'u', '0' }; return g.pick(t); }
	case 3: { static const U t[] = { 0x80, 0xFF, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0xFFFE, 0x2028, 0x2029, 0xFEFF }; return g.pick(t); }
	case 4: { static const U t[] = { 0x10000, 0x10FFFF, 0x1F600, 0xFFFFF, 0x100000, 0x103FF, 0x10400 }; return g.pick(t); }
	default: { U u = g.raw(0x110000-0x800); return u >= 0xD800 ? u+0x800 : u; }
	}
}
inline Text	unicode(Gen& g, int max) { Text t; for (int n = g.range(0, max); n > 0; n--) t.push_back(scalar(g)); return t; }
inline long long number(Gen& g, Variant::VariantType t)
{
	long long lo = t == Variant::Integer ? INT_MIN : t == Variant::Long ? LONG_MIN : LLONG_MIN;
	long long hi = t == Variant::Integer ? INT_MAX : t == Variant::Long ? LONG_MAX : LLONG_MAX;
	long long v;
	switch (g.weighted({4, 2, 2, 3}))
	{
	case 0: v = g.range(-20, 20); break;
	case 1: { static const long long e[] = { INT_MIN, INT_MAX, LLONG_MIN, LLONG_MAX, (long long)INT_MAX+1, (long long)INT_MIN-1, UINT_MAX, 0 }; v = (long long)((uint64_t)g.pick(e)+g.range(0, 2)); break; }
	case 2: v = (long long)g.u32(); break;
	default: v = (long long)((uint64_t)g.u32()<<32 | g.u32()); break;
	}
	if (v < lo || v > hi) v = t == Variant::Integer ? (int)v : v;
	return v;
}
// How many elements or characters: few, but sometimes many
inline int	few(Gen& g, int usual, int depth) { return g.chance(1, 100) ? g.range(0, depth > 1 ? 12 : depth > 0 ? 80 : 300) : g.range(0, usual); }
inline Variant	make(Gen& g, Model& m, int depth, Text (*txt)(Gen&, int) = unicode)
{
	m = Model();
	m.type = (Variant::VariantType)g.weighted({1, 3, 2, 2, 5, 2, depth > 0 ? 3 : 0, depth > 0 ? 3 : 0});
	switch (m.type)
	{
	default: return Variant();
	case Variant::Integer: m.num = number(g, m.type); return Variant((int)m.num);
	case Variant::Long: m.num = number(g, m.type); return Variant((long)m.num);
	case Variant::LongLong: m.num = number(g, m.type); return Variant((long long)m.num);
	case Variant::String: m.str = txt(g, g.chance(1, 200) ? 600 : 8); return Variant(val(m.str));
	case Variant::StrArray:
	{
		StringArray a;
		for (int n = few(g, 4, 0); n > 0; n--) { m.strs.push_back(txt(g, 4)); a.append(val(m.strs.back())); }
		return Variant(a);
	}
	case Variant::VarArray:
	{
		VariantArray a;
		for (int n = few(g, 4, depth); n > 0; n--) { Model e; Variant v = make(g, e, depth-1, txt); m.vars.push_back(e); a.append(v); }
		return Variant(a);
	}
	case Variant::StrVarMap:
	{
		StrVariantMap a;
		for (int n = few(g, 4, depth); n > 0; n--)
		{
			Model e; Variant v = make(g, e, depth-1, txt); Text k = txt(g, 3);
			m.map[ref::enc(k)] = std::make_pair(k, e);
			a.put(val(k), v);
		}
		return Variant(a);
	}
	}
}
// Nested inside that many arrays and maps
inline Variant	nest(Gen& g, Model& m, const Variant& inner, int levels, Text (*txt)(Gen&, int) = unicode)
{
	Variant	v = inner;
	for (; levels > 0; levels--)
	{
		Model	o, s; Variant side = make(g, s, 0, txt);
		if (g.coin())
		{
			VariantArray a; bool before = g.coin(); o.type = Variant::VarArray;
			if (before) { a.append(side); o.vars.push_back(s); }
			a.append(v); o.vars.push_back(m);
			v = Variant(a);
		}
		else
		{
			StrVariantMap a; Text k = txt(g, 3), l = txt(g, 3); o.type = Variant::StrVarMap;
			a.put(val(l), side); o.map[ref::enc(l)] = std::make_pair(l, s);
			a.put(val(k), v); o.map[ref::enc(k)] = std::make_pair(k, m);
			v = Variant(a);
		}
		m = o;
	}
	return v;
}
inline std::string show(const Model& m)
{
	std::string s;
	switch (m.type)
	{
	default: return "null";
	case Variant::Integer: return std::to_string(m.num);
	case Variant::Long: return std::to_string(m.num) + "L";
	case Variant::LongLong: return std::to_string(m.num) + "LL";
	case Variant::String: return ref::show(m.str);
	case Variant::StrArray: s = "S["; for (auto& t : m.strs) s += ref::show(t) + " "; return s + "]";
	case Variant::VarArray: s = "V["; for (auto& t : m.vars) s += show(t) + " "; return s + "]";
	case Variant::StrVarMap: s = "{"; for (auto& t : m.map) s += ref::show(t.second.first) + ": " + show(t.second.second) + " "; return s + "}";
	}
}
// Does v hold exactly m? Read through a const reference, which never coerces.
inline std::string differs(const Variant& v, const Model& m)
{
	if (v.type() != m.type) return std::string("type is ") + v.type_name() + ", not " + Variant::type_names[m.type];
	switch (m.type)
	{
	default: return v.is_null() ? "" : "is_null is false";
	case Variant::Integer: return v.as_int() == m.num ? "" : "as_int is " + std::to_string(v.as_int()) + ", not " + std::to_string(m.num);
	case Variant::Long: return v.as_long() == m.num ? "" : "as_long is " + std::to_string(v.as_long()) + ", not " + std::to_string(m.num);
	case Variant::LongLong: return v.as_longlong() == m.num ? "" : "as_longlong is " + std::to_string(v.as_longlong()) + ", not " + std::to_string(m.num);
	case Variant::String: { std::string b = bytes(v.as_strval()); return b == ref::enc(m.str) ? "" : "string is " + ref::show(b) + ", not " + ref::show(m.str); }
	case Variant::StrArray:
	{
		StringArray a = v.as_string_array();
		if (a.length() != m.strs.size()) return "string array length is " + std::to_string(a.length());
		for (size_t i = 0; i < m.strs.size(); i++) if (bytes(a[i]) != ref::enc(m.strs[i])) return "string array element " + std::to_string(i) + " is " + ref::show(bytes(a[i])) + ", not " + ref::show(m.strs[i]);
		return "";
	}
	case Variant::VarArray:
	{
		const VariantArray a = v.as_variant_array();
		if (a.length() != m.vars.size()) return "array length is " + std::to_string(a.length());
		for (size_t i = 0; i < m.vars.size(); i++) { std::string d = differs(a[i], m.vars[i]); if (d.size()) return "[" + std::to_string(i) + "] " + d; }
		return "";
	}
	case Variant::StrVarMap:
	{
		StrVariantMap a = v.as_variant_map();
		if (a.size() != m.map.size()) return "map size is " + std::to_string(a.size());
		auto i = m.map.begin();
		for (auto it = a.begin(); it != a.end(); it++, i++)
		{
			if (bytes(it->first) != i->first) return "map key is " + ref::show(bytes(it->first)) + ", not " + ref::show(i->first);
			std::string d = differs(it->second, i->second.second);
			if (d.size()) return "{" + ref::show(i->first) + "} " + d;
		}
		return "";
	}
	}
}
}
