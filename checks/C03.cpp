// C03: the optimization level never changes what a program does
#include "seqcheck.h"
using namespace seqcheck;

static void compare(const std::string &src, int n, int depth, std::function<std::string(int)> text, mc::Ctx &c)
{
	std::vector<Obs> ref;
	for(int opt = 0; opt < 3; opt++)
	{
		std::vector<Obs> cur; std::string e;
		if(!observe(src, n, {NULLC_REG_VM, opt}, cur, e)){ c.fail(fmt("O%d: %s", opt, e.c_str())); return; }
		c.exec(n * 2); c.step(n * 2 * depth);
		if(opt == 0){ ref = cur; for(auto &o : ref) c.state(hashObs(o)); continue; }
		for(int k = 0; k < n * 2; k++)
		{
			std::string d = diff(ref[k], cur[k], false);
			if(!d.empty()){ std::string p = text(k / 2); c.fail(fmt("a=%d: O0 vs O%d: %s in\n", k & 1, opt, d.c_str()) + p, fmt("O%d a=%d %s", opt, k & 1, p.c_str())); return; }
		}
	}
}
static void runBatch(const Batch &b, mc::Ctx &c){ compare(batchSource(b), (int)(b.to - b.from), b.depth, [&](int k){ return programText(b, b.from + k); }, c); }
static void runGen(const std::string &src, int n, mc::Ctx &c){ compare(src, n, 1, [&](int k){ return fmt("f%d of\n", k) + src; }, c); }
#include "gen_extra.h"

int main(int argc, char **argv)
{
	mc::Engine e("C03", argc, argv);
	e.technique = "bounded exhaustive enumeration of programs, differential execution of all optimization levels";
	e.rule = "every sequence of statements up to the depth from every alphabet in every control-flow template, executed by the interpreter at optimization levels 0, 1 and 2 with two arguments; observables: all locals and globals, host call trace, error";
	auto begin = [](mc::Ctx&){ nc::fresh(); };
	mc::Space s; s.chunk = 2; s.begin = begin; s.caseTimeout = 60;
	static SliceSet d1, d2, d3, d3t;
	int na = (int)alphabets().size();
	for(int a = 0; a < na; a++) for(int t = 0; t < T_COUNT; t++){ d1.add(a, t, 1); d2.add(a, t, 2); if(e.thorough) d3t.add(a, t, 3); }
	for(int a = 0; a < na; a++) d3.add(a, T_STRAIGHT, 3);
	auto add = [&](const char *name, SliceSet &ss){ s.name = name; s.count = ss.count(); SliceSet *p = &ss; s.run = [p](u64 i, mc::Ctx &c){ runBatch(p->get(i), c); }; s.describe = [p](u64 i){ return batchSource(p->get(i)); }; e.add(s); };
	add("sequences-1", d1); add("sequences-2", d2); add("straight-3", d3);
	extraSpaces(e);
	if(e.thorough) add("sequences-3", d3t);
	return e.finish();
}
