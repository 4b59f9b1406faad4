// Variants against a model of what each was given
#include	"vargen.h"

namespace c12 {
using namespace vargen;

static Text	txt(Gen& g, int max) { return max < 30 && g.chance(1, 10) ? unicode(g, 30) : unicode(g, max); }
static Text	ascii(const std::string& s) { return Text(s.begin(), s.end()); }
enum T { Int = Variant::Integer, Long = Variant::Long, LL = Variant::LongLong, Str = Variant::String, SA = Variant::StrArray, VA = Variant::VarArray, Map = Variant::StrVarMap };

struct History
{
	Gen& g; Ctx& c;
	std::vector<Variant> pool; std::vector<Model> model;
	bool	quiet = false;		// do not look (it would fill caches)
	bool	may_fork = true;
	History(Gen& g, Ctx& c) : g(g), c(c) { pool.reserve(16); }

	void	check(const std::string& op)
	{
		if (quiet) return;
		for (size_t k = 0; k < pool.size(); k++)
		{
			const Variant& v = pool[k];
			std::string d = differs(v, model[k]);
			PCHECK(d.empty(), "after " << op << " variant " << k << ": " << d << "; it should be " << show(model[k]));
			PCHECK(v.is_null() == (model[k].type == Variant::None), "is_null of variant " << k);
			PCHECK(!strcmp(v.type_name(), Variant::type_names[model[k].type]), "type_name of variant " << k);
		}
	}
	void	add(const Variant& v, const Model& m) { if (pool.size() >= 6) { int k = g.raw(6); pool[k] = v; model[k] = m; } else { pool.push_back(v); model.push_back(m); } }

	// What a coercion must give; false if it would lose something
	static bool	coerced(const Model& m, T to, Model& r, bool& may_refuse)
	{
		r = Model(); r.type = (Variant::VariantType)to; may_refuse = false;
		if ((int)m.type == to) { r = m; return true; }
		bool	from_int = m.type >= (int)Int && m.type <= (int)LL;
		if (to == Str && from_int) { r.str = ascii(std::to_string(m.num)); return true; }
		if (to > LL) return false;
		if (m.type == (int)Str)
		{	// a decimal number in 32 bits; the library documents no more
			std::string s; for (U u : m.str) s += u < 0x80 ? (char)u : '?';
			size_t	i = s.size() && s[0] == '-';
			if (i == s.size() || s.find_first_not_of("0123456789", i) != std::string::npos || (s[i] == '0' && s.size() > i+1)) return false;
			if (s.size() > 19) return false;
			long long v = atoll(s.c_str());
			if (to == Int && v != (int)v) return false;
			may_refuse = v != (int)v;
			r.num = v; return true;
		}
		if (!from_int) return false;
		if (to == Int && m.num != (int)m.num) return false;
		r.num = m.num; return true;
	}
	static void	coerce(Variant& v, T to)
	{
		switch (to)
		{
		case Int: (void)v.as_int(); break;
		case Long: (void)v.as_long(); break;
		case LL: (void)v.as_longlong(); break;
		case Str: (void)v.as_strval(); break;
		case SA: (void)v.as_string_array(); break;
		case VA: (void)v.as_variant_array(); break;
		default: (void)v.as_variant_map(); break;
		}
	}
	// Is it refused? The library refuses with an assertion, so this needs another process
	void	refusal(const Model& m, Variant v, T to)
	{
		fflush(stdout); fflush(stderr);
		pid_t	pid = fork();
		if (pid == 0)
		{
			signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL);
			int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
			coerce(v, to);
			_exit(0);
		}
		int	st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
		c.label("refusal tested");
		PCHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), "coercing " << show(m) << " to " << Variant::type_names[to] << " loses information and was not refused");
	}
	void	run()
	{
		int	n = g.range(1, c.max_size);
		for (int step = 0; step < n && !(g.exhausted() && step > 3); step++)
		{
			int	k = pool.empty() ? 0 : g.raw(pool.size());
			std::string op;
			switch (pool.empty() ? g.raw(2) : g.weighted({3, 2, 4, 5, 3, 5, 4, 4, 3, 2, 2}))
			{
			case 0: { Model m; Variant v = make(g, m, g.range(0, 2), txt); if (g.chance(1, 60)) v = nest(g, m, v, g.range(1, 40), txt); PLOG(c, "new " << show(m)); add(v, m); op = "construction"; break; }
			case 1: construct(op); break;
			case 2: { PLOG(c, "copy " << k); Variant v(pool[k]); Model m = model[k]; add(v, m); op = "copying"; break; }
			case 3:
			{
				int j = g.raw(pool.size()); PLOG(c, "assign " << j << " to " << k);
				if (model[k].type != model[j].type) { c.label("assigned over another type"); c.nontrivial = true; }
				Variant& r = (pool[k] = pool[j]); PCHECK(&r == &pool[k], "assignment returns another object");
				model[k] = model[j]; op = j == k ? "self-assignment" : "assignment"; break;
			}
			case 4: mutate(k, op); break;
			case 5:
			{
				T	to = (T)g.range(Int, Str); Model r; bool may;
				if (g.chance(1, 40)) to = (T)g.range(SA, Map);
				if (coerced(model[k], to, r, may) && !may)
				{
					PLOG(c, "coerce " << k << " from " << show(model[k]) << " to " << Variant::type_names[to]);
					if ((int)model[k].type != to) { c.label(std::string("coerced ") + Variant::type_names[model[k].type] + " to " + Variant::type_names[to]); c.nontrivial = true; }
					switch (to)
					{
					case Int: { int& i = pool[k].as_int(); PCHECK(i == r.num, "as_int gives " << i << " for " << show(model[k])); break; }
					case Long: { long& i = pool[k].as_long(); PCHECK(i == r.num, "as_long gives " << i << " for " << show(model[k])); break; }
					case LL: { long long& i = pool[k].as_longlong(); PCHECK(i == r.num, "as_longlong gives " << i << " for " << show(model[k])); break; }
					case Str: { StrVal s = pool[k].as_strval(); PCHECK(bytes(s) == ref::enc(r.str), "as_strval gives " << ref::show(bytes(s)) << " for " << show(model[k])); break; }
					default: coerce(pool[k], to); break;
					}
					model[k] = r; op = "coercion";
				}
				else if (!may && g.chance(1, 60) && may_fork) { PLOG(c, "coerce " << show(model[k]) << " to " << Variant::type_names[to] << " (must be refused)"); refusal(model[k], pool[k], to); op = "refused coercion"; }
				break;
			}
			case 6: store(k, op); break;
			case 7: fetch(k, op); break;
			case 8:		// a number as text, so that coercion from strings is tried
			{
				Model m; m.type = Variant::String; m.str = ascii(std::to_string(g.chance(1, 3) ? number(g, Variant::LongLong) : number(g, Variant::Integer)));
				if (g.chance(1, 6)) m.str.push_back(g.coin() ? 'x' : ' ' + 1);
				PLOG(c, "new " << show(m)); add(Variant(val(m.str)), m); op = "construction"; break;
			}
			case 9: { PLOG(c, "destroy " << k); pool.erase(pool.begin()+k); model.erase(model.begin()+k); op = "destruction"; break; }
			case 10: { PLOG(c, "swap " << k << " through a temporary"); int j = g.raw(pool.size()); Variant t = pool[k]; pool[k] = pool[j]; pool[j] = t; std::swap(model[k], model[j]); op = "swap"; break; }
			}
			check(op);
		}
	}
	void	construct(std::string& op)
	{
		Model m;
		switch (g.raw(6))
		{
		case 0: { m.type = (Variant::VariantType)g.range(0, Map); PLOG(c, "default " << Variant::type_names[m.type]); add(Variant(m.type), m); op = "default construction"; break; }
		case 1: { m.type = Variant::String; do m.str = txt(g, 8); while (has_nul(m.str) && !g.exhausted()); m.str.erase(std::remove(m.str.begin(), m.str.end(), 0u), m.str.end()); PLOG(c, "C string " << show(m)); std::string s = ref::enc(m.str); add(Variant(s.c_str()), m); op = "construction from C string"; break; }
		case 2:
		{
			m.type = Variant::StrArray; std::vector<StrVal> v;
			for (int n = g.range(0, 4); n > 0; n--) { m.strs.push_back(txt(g, 4)); v.push_back(val(m.strs.back())); }
			PLOG(c, "from strings " << show(m)); add(Variant(v.data(), (StringArray::Index)v.size()), m); op = "construction from strings"; break;
		}
		case 3:
		{
			m.type = Variant::VarArray; std::vector<Variant> v;
			for (int n = g.range(0, 4); n > 0; n--) { Model e; v.push_back(make(g, e, 1, txt)); m.vars.push_back(e); }
			PLOG(c, "from variants " << show(m)); add(Variant(v.data(), (VariantArray::Index)v.size()), m); op = "construction from variants"; break;
		}
		case 4:
		{
			m.type = Variant::StrVarMap; std::vector<Variant> v; std::vector<StrVal> ks;
			for (int n = g.range(0, 4); n > 0; n--) { Model e; Text t = txt(g, 3); v.push_back(make(g, e, 1, txt)); ks.push_back(val(t)); m.map.insert({ref::enc(t), {t, e}}); }
			PLOG(c, "from keys and variants " << show(m)); add(Variant(ks.data(), v.data(), (StringArray::Index)v.size()), m); op = "construction from keys and variants"; break;
		}
		case 5:		// <<
		{
			Model a, b; Variant x = make(g, a, 1, txt), y = make(g, b, 1, txt);
			m.type = Variant::VarArray; m.vars = { a, b };
			int how = g.raw(3);
			if (how == 0) { PLOG(c, "variant << variant " << show(m)); add(Variant(x << y), m); }
			else
			{
				Model s; s.type = Variant::String; s.str = txt(g, 4); s.str.erase(std::remove(s.str.begin(), s.str.end(), 0u), s.str.end());
				m.vars[0] = s; PLOG(c, "string << variant " << show(m));
				std::string cs = ref::enc(s.str);
				add(how == 1 ? Variant(val(s.str) << y) : Variant(cs.c_str() << y), m);
			}
			op = "<<"; break;
		}
		}
	}
	// Change k through a reference, or by taking the value out, changing it and putting it back
	void	mutate(int k, std::string& op)
	{
		Model& m = model[k];
		switch (m.type)
		{
		case Int: { int v = number(g, m.type); PLOG(c, "as_int() of " << k << " = " << v); pool[k].as_int() = v; m.num = v; break; }
		case Long: { long v = number(g, m.type); PLOG(c, "as_long() of " << k << " = " << v); pool[k].as_long() = v; m.num = v; break; }
		case LL: { long long v = number(g, m.type); PLOG(c, "as_longlong() of " << k << " = " << v); pool[k].as_longlong() = v; m.num = v; break; }
		case Str: { PLOG(c, "change the string of " << k); StrVal s = pool[k].as_strval(); Text t = txt(g, 3); s += val(t); if (g.coin()) { pool[k] = s; m.str.insert(m.str.end(), t.begin(), t.end()); } break; }	// the copy is independent until put back
		case SA: { PLOG(c, "change the strings of " << k); StringArray a = pool[k].as_string_array(); Text t = txt(g, 3); a.append(val(t)); if (g.coin()) { pool[k] = a; m.strs.push_back(t); } break; }
		case VA:
		{
			VariantArray a = pool[k].as_variant_array();
			Model e; Variant v = make(g, e, 1, txt); bool back = g.coin();
			PLOG(c, "change the array of " << k << (back ? " and put it back" : ""));
			std::vector<Model> r = m.vars;
			if (r.size() && g.coin()) { int i = g.raw(r.size()); if (g.coin()) a.set(i, v); else a.elem_mut(i) = v; r[i] = e; if (e.type == (int)Int) { a.elem_mut(i).as_int() = 42; r[i].num = 42; } }
			else { a.append(v); r.push_back(e); }
			if (back) { pool[k] = a; m.vars = r; }
			break;
		}
		case Map:
		{
			StrVariantMap a = pool[k].as_variant_map();
			Model e; Variant v = make(g, e, 1, txt); Text t = txt(g, 2); bool back = g.coin();
			PLOG(c, "put " << ref::show(t) << ": " << show(e) << " in the map of " << k << (back ? " and put it back" : ""));
			a.put(val(t), v);
			if (back) { pool[k] = a; m.map[ref::enc(t)] = {t, e}; }
			break;
		}
		default: return;
		}
		if (m.type != Variant::None) c.nontrivial = true;
		op = "mutation";
	}
	// Put another variant, perhaps itself, inside an array or map
	void	store(int k, std::string& op)
	{
		int	j = g.raw(pool.size());
		if (model[k].type == (int)VA && model[k].vars.size() < 6 && show(model[j]).size() < 600)
		{
			PLOG(c, "append variant " << j << " to the array in " << k);
			VariantArray a = pool[k].as_variant_array(); Model e = model[j]; a << pool[j];
			pool[k] = Variant(a); model[k].vars.push_back(e); op = "storing in an array";
		}
		else if (model[k].type == (int)Map && model[k].map.size() < 6 && show(model[j]).size() < 600)
		{
			Text t = txt(g, 2); PLOG(c, "put variant " << j << " at " << ref::show(t) << " in the map in " << k);
			StrVariantMap a = pool[k].as_variant_map(); Model e = model[j]; a.put(val(t), pool[j]);
			pool[k] = Variant(a); model[k].map[ref::enc(t)] = {t, e}; op = "storing in a map";
		}
	}
	// Take an element out, sometimes replacing what holds it
	void	fetch(int k, std::string& op)
	{
		const Model m = model[k]; bool over = g.coin();
		if (m.type == (int)VA && m.vars.size())
		{
			int i = g.raw(m.vars.size()); PLOG(c, "take [" << i << "] of " << k << (over ? " over it" : ""));
			if (over) { pool[k] = pool[k].as_variant_array()[i]; model[k] = m.vars[i]; } else add(pool[k].as_variant_array()[i], m.vars[i]);
			op = "taking an element";
		}
		else if (m.type == (int)SA && m.strs.size())
		{
			int i = g.raw(m.strs.size()); PLOG(c, "take [" << i << "] of " << k << (over ? " over it" : ""));
			Model r; r.type = Variant::String; r.str = m.strs[i];
			if (over) { pool[k] = pool[k].as_string_array()[i]; model[k] = r; } else add(Variant(pool[k].as_string_array()[i]), r);
			op = "taking a string";
		}
		else if (m.type == (int)Map && m.map.size())
		{
			auto it = m.map.begin(); for (int i = g.raw(m.map.size()); i > 0; i--) it++;
			PLOG(c, "take {" << ref::show(it->second.first) << "} of " << k << (over ? " over it" : ""));
			StrVal key = val(it->second.first);
			if (over) { pool[k] = pool[k].as_variant_map()[key]; model[k] = it->second.second; } else add(pool[k].as_variant_map()[key], it->second.second);
			op = "taking a map entry";
		}
	}
};
static void	run(Gen& g, Ctx& c) { History h(g, c); h.run(); }

static Property	prop()
{
	Property p;
	p.id = "C12"; p.fn = run;
	p.rule = "Histories of 1 to max_size operations over a pool of variants, every one compared with its model after each. Non-trivial: a variant was changed through a reference or a copy, assigned over another type, or coerced to another type.";
	return p;
}
}
#ifndef PBT_NO_MAIN
PBT_MAIN(c12::prop)
#endif
