// C02: interpreter and JIT execute every program identically
#include "seqcheck.h"
using namespace seqcheck;

static void runBatch(const Batch &b, mc::Ctx &c)
{
	std::string src = batchSource(b);
	int n = (int)(b.to - b.from);
	for(int opt = 0; opt < 3; opt++)
	{
		std::vector<Obs> vm, jit; std::string e1, e2;
		bool o1 = observe(src, n, {NULLC_REG_VM, opt}, vm, e1), o2 = observe(src, n, {NULLC_X86, opt}, jit, e2);
		if(o1 != o2 || e1 != e2){ c.fail(fmt("O%d: vm: %s, jit: %s", opt, o1 ? "runs" : e1.c_str(), o2 ? "runs" : e2.c_str())); return; }
		if(!o1){ c.fail(fmt("O%d: program rejected: %s", opt, e1.c_str())); return; }
		for(int k = 0; k < n * 2; k++)
		{
			std::string d = diff(vm[k], jit[k], true);
			if(!d.empty()){ std::string p = programText(b, b.from + k / 2); c.fail(fmt("O%d a=%d: vm vs jit: %s in\n", opt, k & 1, d.c_str()) + p, fmt("O%d a=%d %s", opt, k & 1, p.c_str())); return; }
			if(opt == 0) c.state(hashObs(vm[k]));
		}
		c.exec(n * 4); c.step(n * 4 * b.depth);
	}
}
static void runGen(const std::string &src, int n, mc::Ctx &c)
{
	for(int opt = 0; opt < 3; opt++)
	{
		std::vector<Obs> vm, jit; std::string e1, e2;
		bool o1 = observe(src, n, {NULLC_REG_VM, opt}, vm, e1), o2 = observe(src, n, {NULLC_X86, opt}, jit, e2);
		if(!o1 || !o2){ c.fail(fmt("O%d: vm: %s, jit: %s", opt, o1 ? "runs" : e1.c_str(), o2 ? "runs" : e2.c_str())); return; }
		for(int k = 0; k < n * 2; k++)
		{
			std::string d = diff(vm[k], jit[k], true);
			if(!d.empty()){ c.fail(fmt("O%d a=%d function f%d: vm vs jit: %s", opt, k & 1, k / 2, d.c_str())); return; }
			if(!vm[k].ok){ c.fail(fmt("O%d function f%d stopped: %s", opt, k / 2, vm[k].fullError.c_str())); return; }
			c.state(hashObs(vm[k]));
		}
		c.exec(n * 4); c.step(n * 4);
	}
}
#include "gen_extra.h"

int main(int argc, char **argv)
{
	mc::Engine e("C02", argc, argv);
	e.technique = "bounded exhaustive enumeration of programs, differential execution of interpreter and JIT";
	e.rule = "sequences spaces: every sequence of statements up to the depth from every alphabet in every control-flow template, executed on both back ends at every optimization level with two arguments; observables: all locals, globals, error text with call stack";
	auto begin = [](mc::Ctx&){ nc::fresh(); };
	mc::Space s; s.chunk = 2; s.begin = begin; s.caseTimeout = 60;
	static SliceSet d1, d2, d3;
	int na = (int)alphabets().size();
	for(int a = 0; a < na; a++) for(int t = 0; t < T_COUNT; t++){ d1.add(a, t, 1); d2.add(a, t, 2); if(e.thorough) d3.add(a, t, 3); }
	auto add = [&](const char *name, SliceSet &ss){ s.name = name; s.count = ss.count(); SliceSet *p = &ss; s.run = [p](u64 i, mc::Ctx &c){ runBatch(p->get(i), c); }; s.describe = [p](u64 i){ return batchSource(p->get(i)); }; e.add(s); };
	add("sequences-1", d1); add("sequences-2", d2);
	extraSpaces(e);
	if(e.thorough) add("sequences-3", d3);
	return e.finish();
}
