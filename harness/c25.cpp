// Formatting: templates are generated in parts together with what each part must become
#include	"vargen.h"

namespace c25 {
using namespace vargen;

static Text	uni(const std::string& s) { return ref::dec(s); }
static void	put(Text& t, const std::string& s) { for (char ch : s) t.push_back((unsigned char)ch); }
static void	put(Text& t, const Text& s) { t.insert(t.end(), s.begin(), s.end()); }

static void	run(Gen& g, Ctx& c)
{
	bool	numbered = g.chance(1, 3);
	VariantArray args; std::vector<Model> models;
	auto	arg = [&](bool str)
	{
		Model m; Variant v;
		if (str) { m.type = Variant::String; m.str = g.chance(1, 5) ? Text{'%', 's'} : unicode(g, g.chance(1, 200) ? 600 : 5); v = Variant(val(m.str)); }
		else do v = make(g, m, 1); while (m.type == Variant::String && !g.exhausted());
		if (m.type == Variant::String && !str) { m = Model(); m.type = Variant::Integer; v = Variant(0); }
		args << v; models.push_back(m);
	};
	auto	printed = [&](int i) -> Text { return models[i].type == Variant::String ? models[i].str : uni(bytes(Variant(args[i]).as_json())); };
	if (numbered) for (int n = g.range(1, 9); n > 0; n--) arg(g.coin());
	Text	f, want;
	int	conversions = 0, extra = g.range(0, 2);
	for (int parts = g.chance(1, 100) ? g.range(8, 200) : g.range(0, 8); parts > 0; parts--)
		switch (g.weighted({4, 2, 6}))
		{
		case 0:
			for (int n = g.range(1, 5); n > 0; n--)
			{
				U u = g.chance(1, 3) ? (U)"sdfg$.*0123456789xl"[g.raw(19)] : scalar(g);
				if (u == '%') u = '&';
				f.push_back(u); want.push_back(u);
			}
			break;
		case 1: put(f, "%%"); put(want, "%"); c.label("doubled percent"); break;
		case 2:
		{
			std::string spec = "%";
			int	i;
			conversions++;
			if (numbered) { i = g.raw(models.size()); spec += std::to_string(i+1) + "$"; }
			auto	star = [&]() { Variant v((int)g.range(0, 30)); Model m; m.type = Variant::Integer; m.num = v.as_int(); args << v; models.push_back(m); };
			bool	width = false;
			switch (g.weighted({3, 2, 1, numbered ? 0 : 1}))
			{
			case 0: break;
			case 1: spec += std::to_string(g.range(1, 120)); width = true; break;
			case 2: spec += "0" + std::to_string(g.range(1, 20)); width = true; break;
			case 3: spec += "*"; star(); width = true; break;
			}
			switch (g.weighted({3, 2, numbered ? 0 : 1}))
			{
			case 0: break;
			case 1: spec += "." + std::to_string(g.range(0, 30)); width = true; break;
			case 2: spec += ".*"; star(); width = true; break;
			}
			if (!numbered) { i = models.size(); arg(g.coin()); }
			spec += models[i].type == Variant::String ? 's' : "dfg"[g.raw(3)];
			c.label(std::string(numbered ? "numbered" : "in sequence") + (width ? ", with width or precision" : ""));
			put(f, spec);
			put(want, printed(i));
			break;
		}
		}
	if (g.chance(1, 8)) { f.push_back('%'); want.push_back('%'); }		// nothing follows: ordinary text
	if (!numbered) while (extra--) arg(g.coin());
	std::vector<StrVal> keep;
	StrVal	fs = sliced(g, f, keep);
	PLOG(c, "format " << ref::show(f));
	for (size_t i = 0; i < models.size(); i++) PLOG(c, "  arg " << i+1 << " " << show(models[i]));
	StrVal	r = StrVal::format(fs, args);
	PCHECK(bytes(r) == ref::enc(want) && r.length() == want.size(), "format " << ref::show(f) << " gives " << ref::show(bytes(r)) << ", not " << ref::show(want));
	PCHECK(bytes(fs) == ref::enc(f), "formatting changed the template");
	PCHECK(args.length() == models.size(), "formatting changed the arguments");
	for (size_t i = 0; i < models.size(); i++) { const Variant v = args[i]; std::string d = differs(v, models[i]); PCHECK(d.empty(), "formatting changed argument " << i+1 << ": " << d); }
	if (conversions) c.nontrivial = true;
}

static Property	prop()
{
	Property p;
	p.id = "C25"; p.fn = run;
	p.rule = "One template of up to 8 parts with its arguments. Non-trivial: it has a conversion.";
	return p;
}
}
#ifndef PBT_NO_MAIN
PBT_MAIN(c25::prop)
#endif
