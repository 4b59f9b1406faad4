// All memory is reclaimed exactly once, whatever the history.
// The histories are those of the other properties; here only the memory is judged.
#include	"pbt.h"
#include	<refcount.h>
#include	<memory>
#include	<functional>

// c13a.cpp to c13e.cpp include the drivers
pbt::Property part_c01();
pbt::Property part_c02();
pbt::Property part_c06();
pbt::Property part_c07();
pbt::Property part_c08();
pbt::Property part_c09();
pbt::Property part_c10();
pbt::Property part_c11();
pbt::Property part_c12();
pbt::Property part_c22();
pbt::Property part_c23();
pbt::Property part_c24();
pbt::Property part_c25();
pbt::Property part_c16();
pbt::Property part_c17();
pbt::Property part_c18();
pbt::Property part_c20();
pbt::Property part_c21();

namespace c13 {
using namespace pbt;

// References to counted objects, which also refer to each other (never in a cycle)
struct Object : public RefCounted
{
	static int&	live() { static int n; return n; }
	int		value, rank; Ref<Object> next; std::vector<char> payload; unsigned check;
	Object(int v, int r) : value(v), rank(r), payload(30, (char)v), check(0x600D) { live()++; }
	Object(const Object& o) : RefCounted(), value(o.value), rank(o.rank), next(o.next), payload(o.payload), check(0x600D) { live()++; }
	~Object() { if (check != 0x600D) twice()++; check = 0xBAD; live()--; }
	static int&	twice() { static int n; return n; }
};
struct Derived : public Object { Derived(int v, int r) : Object(v, r) {} };
typedef std::shared_ptr<struct Model> MP;
struct Model { int value, rank; MP next; };
static void	references(Gen& g, Ctx& c)
{
	int	before = Object::live(), serial = 0;
	{
		Ref<Object> ref[5]; MP model[5];
		auto	check = [&](const char* op)
		{
			std::map<Model*, Object*> same;
			std::function<void(const Ref<Object>&, const MP&, int)> cmp = [&](const Ref<Object>& r, const MP& m, int depth)
			{
				PCHECK((bool)r == (bool)m, "after " << op << " a reference is " << (r ? "not " : "") << "null");
				if (!m || depth > 8) return;
				auto	f = same.emplace(m.get(), (Object*)r);
				PCHECK(f.first->second == (Object*)r, "after " << op << " two references to an object refer to two objects");
				PCHECK(r->value == m->value && (*r).rank == m->rank && r->payload[7] == (char)m->value, "after " << op << " an object is another");
				PCHECK(r->GetRefCount() == m.use_count(), "after " << op << " an object is counted " << r->GetRefCount() << " times, not " << m.use_count());
				cmp(r->next, m->next, depth+1);
			};
			for (int i = 0; i < 5; i++) cmp(ref[i], model[i], 0);
		};
		int	n = g.range(1, 2*c.max_size);
		while (n-- > 0)
		{
			int	i = g.raw(5), j = g.raw(5);
			const char* op = "";
			switch (g.weighted({3, 3, 2, 2, 2, 2, 3, 3, 1, 1}))
			{
			case 0: { int v = ++serial, r = g.range(0, 6); PLOG(c, i << " = new " << v << " of rank " << r); ref[i] = g.coin() ? new Object(v, r) : new Derived(v, r); model[i].reset(new Model{v, r}); op = "assigning a new object"; break; }
			case 1: PLOG(c, i << " = " << j); ref[i] = ref[j]; model[i] = model[j]; op = "assignment"; if (model[j]) c.nontrivial = true; break;
			case 2: PLOG(c, i << " = the object of " << j); ref[i] = (Object*)ref[j]; model[i] = model[j]; op = "assigning the object itself"; break;
			case 3: PLOG(c, i << " = none"); if (g.coin()) ref[i] = (Object*)0; else ref[i] = Ref<Object>(); model[i].reset(); op = "assigning none"; break;
			case 4: { PLOG(c, "copies of " << i); Ref<Object> a(ref[i]), b((Object*)ref[i]), d; { Ref<Object> e(a); d = e; } if (auto* x = dynamic_cast<Derived*>((Object*)a)) { Ref<Derived> y(x); d = y.Cast<Object>(); } ref[j] = b; model[j] = model[i]; op = "copying"; break; }
			case 5: { PLOG(c, "unshare " << i); ref[i].Unshare(); if (model[i] && model[i].use_count() > 1) { model[i].reset(new Model(*model[i])); c.nontrivial = true; } op = "unsharing"; break; }
			case 6: if (model[i] && model[j] && model[j]->rank < model[i]->rank) { PLOG(c, "next of " << i << " = " << j); ref[i]->next = ref[j]; model[i]->next = model[j]; op = "linking"; } break;
			case 7: if (model[i]) { PLOG(c, j << " = next of " << i); ref[j] = ref[i]->next; MP x = model[i]->next; model[j] = x; op = "following a link"; } break;
			case 8: if (model[i]) { PLOG(c, "pop " << i); ref[i] = (Object*)ref[i]->next; MP x = model[i]->next; model[i] = x; op = "following a link"; } break;
			case 9: PLOG(c, "unlink " << i); if (model[i]) { ref[i]->next = (Object*)0; model[i]->next.reset(); } op = "unlinking"; break;
			}
			check(op);
		}
	}
	PCHECK(Object::twice() == 0, "an object was destroyed twice");
	PCHECK(Object::live() == before, Object::live()-before << " objects were never destroyed");
}

struct Part { const char* name; CaseFn fn; int weight; };
static void	prop(Gen& g, Ctx& c)
{
	static const Part parts[] = {
		{ "strings", part_c01().fn, 8 }, { "searches", part_c02().fn, 2 }, { "transformations", part_c06().fn, 5 },
		{ "JSON", part_c07().fn, 4 }, { "numbers", part_c08().fn, 1 }, { "arrays", part_c09().fn, 6 }, { "array functions", part_c10().fn, 3 },
		{ "maps", part_c11().fn, 6 }, { "variants", part_c12().fn, 8 }, { "matches", part_c16().fn, 3 }, { "parses", part_c17().fn, 4 },
		{ "parse trees", part_c18().fn, 6 }, { "compiled expressions", part_c20().fn, 4 }, { "captures", part_c21().fn, 6 },
		{ "guarded pointers", part_c22().fn, 1 }, { "joins", part_c23().fn, 3 }, { "errors", part_c24().fn, 3 }, { "formatting", part_c25().fn, 4 },
	};
	std::vector<int>	w;
	for (auto& p : parts) w.push_back(p.weight);
	if (g.chance(1, 20)) { PLOG(c, "references to counted objects"); c.label("references"); return references(g, c); }
	const Part& p = parts[g.weighted(w.data(), w.size())];
	PLOG(c, "history of " << p.name);
	try { p.fn(g, c); }
	catch (Failure& f) { c.no_leak_check = true; c.label("set aside: another property fails"); }	// and some objects may not be destroyed
	c.label(p.name);
}
static Property	property()
{
	Property p; p.id = "C13"; p.fn = prop; p.leak_check = true; p.cpu_limit_s = 30;
	most() = 2000;
	p.rule = "the history is non-trivial by the rule of the property it was made for";
	return p;
}
}
PBT_MAIN(c13::property)
