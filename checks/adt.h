// Operation-sequence exploration: a script interpreter `int go()` reads operations from the host; the trace is compared with a reference.
#pragma once
#include "nc.h"
#include <deque>
namespace adt
{
using namespace nc; using mc::u64;
inline std::vector<int> &ops(){ static std::vector<int> v; return v; }
inline size_t &pos(){ static size_t p = 0; return p; }
inline int t_op(){ return pos() < ops().size() ? ops()[pos()++] : -1; }
struct Out { std::string s; bool err = false, undef = false; void t(long long v){ s += fmt("%lld ", v); } };	// expected trace; error at the last operation; outside of the defined domain
struct Adt
{
	std::string name, source; std::vector<std::string> opNames; int depth; bool std_;
	std::function<void(const std::vector<int>&, Out&)> model;	// stops at the first error
};
inline void bindOps(){ if(!nullcLoadModuleBySource("mcop", "int op();") || !nullcBindModuleFunction("mcop", (void(*)())t_op, "op", 0)){ printf("op module\n"); _exit(3); } }
inline std::string opsText(const Adt &a, const std::vector<int> &v){ std::string r; for(int o : v) r += a.opNames[o] + "; "; return r; }
inline std::vector<int> decode(const Adt &a, u64 i){ std::vector<int> v; for(int k = 0; k < a.depth; k++){ v.push_back(i % a.opNames.size()); i /= a.opNames.size(); } std::reverse(v.begin(), v.end()); return v; }
inline u64 total(const Adt &a){ u64 n = 1; for(int k = 0; k < a.depth; k++) n *= a.opNames.size(); return n; }
// case = a block of kBlock consecutive sequences; the same program runs natively and interpreted
static const int kBlock = 64;
inline bool runSeq(const Adt &a, const std::vector<int> &v, mc::Ctx &c, const char *cfg)
{
	Out o; a.model(v, o); if(o.undef){ c.skip(); return true; }
	ops() = v; pos() = 0; trace().clear(); c.exec(); c.step(v.size()); c.state(mc::hashStr(o.s));
	bool ok = nullcRunFunction("go") != 0;
	if(ok == o.err || trace() != o.s){ c.fail(fmt("%s %s: %sobserved %s '%s', expected %s '%s'", a.name.c_str(), cfg, opsText(a, v).c_str(), ok ? "" : firstLine(nullcGetLastError()).c_str(), trace().c_str(), o.err ? "error" : "", o.s.c_str()), a.name + " " + opsText(a, v)); return false; }
	return true;
}
inline mc::Space space(const Adt *a, int exec)
{
	mc::Space s; s.name = a->name + (exec == NULLC_X86 ? "-jit" : "-vm"); s.count = (total(*a) + kBlock - 1) / kBlock; s.chunk = std::max<u64>(1, std::min<u64>(64, s.count / 32)); s.caseTimeout = 60;
	s.begin = [a, exec](mc::Ctx &c){
		fresh(a->std_ ? STD_ALL : STD_NONE); bindOps(); Outcome o = run("import mc; import mcop;\n" + a->source, {exec, exec == NULLC_X86 ? 2 : 1});
		if(!o.ran) c.fail(a->name + ": " + o.fullError);
	};
	s.run = [a, exec](u64 i, mc::Ctx &c){
		for(u64 k = i * kBlock; k < std::min(total(*a), (i + 1) * kBlock); k++)
		{
			std::vector<int> v = decode(*a, k);
			// a sequence that fails early is the same execution as its failing prefix: run it once
			Out o; std::vector<int> p; bool dup = false;
			for(size_t n = 1; n < v.size() && !dup; n++){ p.assign(v.begin(), v.begin() + n); Out q; a->model(p, q); if(q.undef){ dup = true; } else if(q.err){ for(size_t z = n; z < v.size(); z++) if(v[z]) dup = true; v.resize(n); break; } }
			if(dup){ c.skip(); continue; }
			runSeq(*a, v, c, exec == NULLC_X86 ? "jit" : "vm"); if(c.nfail > 4) return;
		}
	};
	s.describe = [a](u64 i){ return a->source + "\n// " + opsText(*a, decode(*a, i * kBlock)) + "..."; };
	return s;
}
}
