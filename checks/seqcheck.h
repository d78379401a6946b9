// Shared driver: explores every statement sequence of the seq.h alphabets and compares observers pairwise.
#pragma once
#include "seq.h"
namespace seqcheck
{
using namespace seq; using namespace nc;
struct Slice { int alpha, tmpl, depth; u64 from, to; };	// programs [from, to) of one alphabet/template/depth
static std::vector<Slice> slices;
static const int kBatch = 32;
static u64 batches(const Slice &s){ return (s.to - s.from + kBatch - 1) / kBatch; }

struct Batch { int alpha, tmpl, depth; u64 from, to; };
// spaces are built from a list of slices; a case is a batch of consecutive programs
struct SliceSet
{
	std::vector<Slice> v; std::vector<u64> ends;
	u64 count() const { return ends.empty() ? 0 : ends.back(); }
	void add(int alpha, int tmpl, int depth){ Slice s = {alpha, tmpl, depth, 0, countSeq(alphabets()[alpha], depth)}; v.push_back(s); ends.push_back(count() + batches(s)); }
	Batch get(u64 i) const { size_t k = std::upper_bound(ends.begin(), ends.end(), i) - ends.begin(); u64 j = i - (k ? ends[k - 1] : 0); Batch b = {v[k].alpha, v[k].tmpl, v[k].depth, v[k].from + j * kBatch, std::min(v[k].from + (j + 1) * kBatch, v[k].to)}; return b; }
};
static std::string programText(const Batch &b, u64 i){ return programFunction(alphabets()[b.alpha], b.tmpl, i, b.depth, 0); }
static std::string batchSource(const Batch &b)
{
	std::string s = moduleHead(alphabets()[b.alpha]);
	for(u64 i = b.from; i < b.to; i++) s += programFunction(alphabets()[b.alpha], b.tmpl, i, b.depth, (int)(i - b.from));
	return s + "int main_(){ return 1; }\nreturn main_();";
}
struct Obs { bool ok; std::string error, fullError, trace; long long rl[kRL]; double rd[kRD]; };
inline bool sameD(double a, double b){ return memcmp(&a, &b, 8) == 0 || (a != a && b != b); }
inline std::string diff(const Obs &a, const Obs &b, bool fullErr)
{
	if(a.ok != b.ok) return fmt("%s vs %s", a.ok ? "success" : a.fullError.c_str(), b.ok ? "success" : b.fullError.c_str());
	if(!a.ok) return (fullErr ? a.fullError != b.fullError : a.error != b.error) ? "error '" + a.fullError + "' vs '" + b.fullError + "'" : "";
	if(a.trace != b.trace) return "host calls " + a.trace + " vs " + b.trace;
	for(int i = 0; i < kRL; i++) if(a.rl[i] != b.rl[i]) return fmt("RL[%d] = %lld vs %lld", i, a.rl[i], b.rl[i]);
	for(int i = 0; i < kRD; i++) if(!sameD(a.rd[i], b.rd[i])) return fmt("RD[%d] = %.17g vs %.17g", i, a.rd[i], b.rd[i]);
	return "";
}
inline u64 hashObs(const Obs &o){ u64 h = mc::hashStr(o.error + o.trace); for(auto v : o.rl) h = mc::mix(h, v); for(auto v : o.rd){ u64 x; memcpy(&x, &v, 8); h = mc::mix(h, x); } return h; }

// runs all programs of a batch on one configuration; out[2 * k + a]
inline bool observe(const std::string &src, int n, Config cfg, std::vector<Obs> &out, std::string &err)
{
	nullcSetExecutor(cfg.exec); nullcSetOptimizationLevel(cfg.opt);
	if(!nullcBuild(src.c_str())){ err = std::string("build failed: ") + nullcGetLastError(); return false; }
	if(!nullcRun()){ err = std::string("run failed: ") + nullcGetLastError(); return false; }
	long long *RL = (long long*)nullcGetGlobal("RL"); double *RD = (double*)nullcGetGlobal("RD");
	if(!RL || !RD){ err = "globals missing"; return false; }
	out.resize(n * 2);
	for(int k = 0; k < n; k++) for(int a = 0; a < 2; a++)
	{
		Obs &o = out[k * 2 + a];
		if(!nullcRunFunction("reset")){ err = std::string("reset failed: ") + nullcGetLastError(); return false; }
		trace().clear();
		o.ok = nullcRunFunction(fmt("f%d", k).c_str(), a) != 0;
		if(!o.ok){ o.fullError = nullcGetLastError(); o.error = firstLine(o.fullError.c_str()); }
		o.trace = trace();
		RL = (long long*)nullcGetGlobal("RL"); RD = (double*)nullcGetGlobal("RD");
		memcpy(o.rl, RL, sizeof(o.rl)); memcpy(o.rd, RD, sizeof(o.rd));
	}
	return true;
}
}
