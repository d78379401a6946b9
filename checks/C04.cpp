// C04: compile-time evaluation agrees with run-time evaluation
#include "num.h"
#include "seqcheck.h"
using namespace seqcheck;
static const int kPer = 4;
static const char *kHash = "long H; void hl(long v){ H = H * 31 + v; } void hd(double v){ H = H * 31; if(v > -1e12 && v < 1e12) H += long(v * 4096.0); else if(v == v) H += 7; if(v < 0.5) H++; }\n";

static std::string source(const Batch &b, u64 from, u64 to)
{
	const Alphabet &al = alphabets()[b.alpha];
	std::string s = std::string("long[24] RL; double[24] RD; int sink;\n") + al.globals + "void reset(){ " + al.reset + " }\n" + kHash;
	std::string dumped; // only the slots that the alphabet writes are hashed
	for(int i = 0; i < 24; i++){ if(strstr(al.dump, fmt("RL[%d] =", i).c_str())) dumped += fmt("hl(RL[%d]);", i); if(strstr(al.dump, fmt("RD[%d] =", i).c_str())) dumped += fmt("hd(RD[%d]);", i); }
	s += "void dump(){ " + dumped + " }\n";
	for(u64 i = from; i < to; i++) s += programFunction(al, b.tmpl, i, b.depth, (int)(i - from));
	for(u64 i = from; i < to; i++) s += fmt("reset(); f%d(0); dump(); reset(); f%d(1); dump();\n", (int)(i - from), (int)(i - from));
	return s + "return H;";
}
static bool runtimeError(const char *e){ for(const char *m : {"out of bounds", "null pointer", "division by zero", "cannot convert from"}) if(strstr(e, m)) return true; return false; }
static void evalBoth(const std::string &src, mc::Ctx &c, const std::string &what, bool evaluators)
{
	nullcSetOptimizationLevel(0); nullcSetExecutor(NULLC_REG_VM);
	Outcome ref = run(src, {NULLC_REG_VM, 0});
	if(!ref.built){ c.fail("rejected: " + ref.fullError); return; }
	std::string want = ref.ran ? ref.result.substr(ref.result.find(' ') + 1) : "";
	if(ref.ran && nullcGetResultType() == NULLC_TYPE_LONG) want += "L";
	c.state(mc::hashStr(want + ref.error));
	for(int mode = 0; mode < 3; mode++)
	{
		char buf[512] = "";
		if(mode == 1) continue; // the tree compiled by run() at level 0 serves modes 0 and 1
		nullcSetOptimizationLevel(mode == 0 ? 0 : 2);
		if(!nullcCompile(src.c_str())){ c.fail(fmt("O%d: rejected", mode)); return; }
		for(int k = mode == 0 ? 0 : 1; k < 2; k++)
		{
			buf[0] = 0;
			bool ok = k == 0 ? nullcTestEvaluateExpressionTree(buf, 512) : nullcTestEvaluateInstructionTree(buf, 512);
			const char *name = k == 0 ? "expression tree" : mode ? "instruction tree O2" : "instruction tree O0";
			c.step();
			if(!ok)
			{
				c.counter(k == 0 ? 0 : 1);
				const char *e = nullcGetLastError();
				if(ref.ran && e && runtimeError(e)){ c.fail(fmt("%s evaluation reports '%s', run time gives %s in\n", name, e, want.c_str()) + what, what); return; }
				continue;
			}
			c.exec();
			if(!ref.ran){ c.fail(fmt("%s evaluation gives %s, run time stops with %s in\n", name, buf, ref.error.c_str()) + what, what); return; }
			if(want != buf){ c.fail(fmt("%s evaluation gives %s, run time gives %s in\n", name, buf, want.c_str()) + what, what); return; }
		}
	}
}
static void runBatch(const Batch &b, mc::Ctx &c)
{
	for(u64 f = b.from; f < b.to; f += kPer)
	{
		u64 t = std::min(b.to, f + kPer); std::string w; for(u64 i = f; i < t; i++) w += programText(b, i);
		evalBoth(source(b, f, t), c, w, true);
	}
}

#include "ctrl.h"
// ---- control flow trees: whole-program evaluation over all tapes
static const int kTrees = 6;
static u64 treeCount(int n, bool yields){ ctrl::Grammar g(yields, true, true); return g.count(n, 0, 0); }
static std::string treesSource(int n, u64 i, int tapes)
{
	ctrl::Grammar g(false, true, true); ctrl::Printer p = {ctrl::LOCAL, false}; std::string r = "long H;\n"; u64 cnt = treeCount(n, false), k;
	for(k = i * kTrees; k < std::min(cnt, (i + 1) * kTrees); k++) r += p.function(g.tree(n, k), (int)(k - i * kTrees));
	for(int j = 0; j < (int)(k - i * kTrees); j++) r += fmt("for(int t%d = 0; t%d < %d; t%d++) H = H * 31 + f%d(t%d * 2);\n", j, j, tapes, j, j, j);
	return r + "return H;";
}
static void runTrees(int n, u64 i, int tapes, mc::Ctx &c){ std::string s = treesSource(n, i, tapes); evalBoth(s, c, s, true); }
// ---- compile-time contexts: enumeration constant, class constant, array size, static if; oracle: reference interpreter
static const int kCtx = 8;
static u64 contextCount(int n){ ctrl::Grammar g(false, true, false); return g.count(n, 0, 0); }
static std::string contextSource(int n, u64 i, std::vector<long long> *want)
{
	ctrl::Grammar g(false, true, false); ctrl::Printer p = {ctrl::LOCAL, false}; std::string r, m; u64 cnt = contextCount(n);
	r = "int[400] R; int q = 0; void put(int v){ R[q++] = v; }\n";
	for(u64 k = i * kCtx; k < std::min(cnt, (i + 1) * kCtx); k++)
	{
		int j = (int)(k - i * kCtx);
		r += p.function(g.tree(n, k), j) + fmt("int g%d(int tape){ int r = f%d(tape); return r & 1023; }\n", j, j);
		for(int t = 0; t < 4; t++)
		{
			static const int tapes[] = {0, 0x2a, 0x16, 0x3e};
			ctrl::Ref ref; ref.mode = ctrl::LOCAL; ref.tape = tapes[t]; ref.go(g.tree(n, k)); int v = (int)(ref.result & 1023);
			std::string call = fmt("g%d(%d)", j, tapes[t]);
			r += fmt("enum E%d_%d{ A = ", j, t) + call + ", B } " + fmt("class C%d_%d{ const int x = ", j, t) + call + fmt(", y; int z; } char[%s + 1] arr%d_%d;\n", call.c_str(), j, t);
			r += fmt("@if(%s == %d){ put(%d); }else{ put(-1); }\n", call.c_str(), v, v);
			r += fmt("put(int(E%d_%d.A)); put(int(E%d_%d.B)); put(C%d_%d.x); put(C%d_%d.y); put(arr%d_%d.size); put(%s); put(g%d(hide(%d)));\n", j, t, j, t, j, t, j, t, j, t, call.c_str(), j, tapes[t]);
			if(want) for(int x : {v, v, v + 1, v, v + 1, v + 1, v, v}) want->push_back(x);
		}
	}
	return "import mc;\n" + r + "return 1;";
}
static void runContext(int n, u64 i, mc::Ctx &c)
{
	std::vector<long long> want; std::string src = contextSource(n, i, &want);
	Outcome o = run(src, {NULLC_REG_VM, 2});
	if(!o.ran){ c.fail(o.built ? o.fullError : "rejected: " + o.fullError); return; }
	int *R = (int*)nullcGetGlobal("R");
	static const char *where[] = {"static if", "enumeration constant", "next enumeration constant", "class constant", "next class constant", "array size", "call with literals", "run time"};
	for(size_t k = 0; k < want.size(); k++) if(R[k] != want[k]){ c.fail(fmt("%s %d: value %d, expected %lld", where[k % 8], (int)(k / 8), R[k], want[k])); return; }
	c.exec(want.size()); c.step(want.size()); c.state(mc::hashStr(src));
}
// ---- generators and coroutines: the evaluators must agree with execution
static std::string coSource(int n, u64 i, int tapes)
{
	ctrl::Grammar g(true, true, false); ctrl::Printer p = {ctrl::LOCAL, true}; std::string r = "long H;\n"; u64 cnt = g.count(n, 0, 0), k;
	for(k = i * kTrees; k < std::min(cnt, (i + 1) * kTrees); k++) r += p.function(g.tree(n, k), (int)(k - i * kTrees));
	for(int j = 0; j < (int)(k - i * kTrees); j++) r += fmt("for(int t%d = 0; t%d < %d; t%d++) H = H * 31 + f%d(t%d * 2);\n", j, j, tapes, j, j, j);
	return r + "return H;";
}

// ---- operators and conversions on boundary values: class constants and whole-program evaluation against the reference and execution
struct OpCase { int op, t1, t2; };	// op >= OPN: unary operator op - OPN on t1; op == -1: conversion t1 -> t2
static std::vector<OpCase> opCases;
static std::string plainLit(Val v, int t){ return t == CHAR || t == SHORT ? literal(v, INT) : literal(v, t); }
static std::vector<Val> cvalues(int t){ auto v = values(t, true); if(isF(t)) for(double d : {-129.0, 255.0, -0.5, 32768.0, -32769.0, 3e9, 1e15}) v.push_back(VD(t == FLOAT ? (float)d : d)); return v; }
static bool opResult(const OpCase &o, Val a, Val b, Val &r)
{
	if(o.op == -1) return store(a, o.t2, r);
	if(o.op >= OPN){ int u = o.op - OPN; r = u == 0 ? (a.c == CI ? VI((int)(0u - (unsigned)a.i)) : a.c == CL ? VL((long long)(0ull - (u64)a.l)) : VD(-a.d)) : u == 1 ? a : u == 2 ? (a.c == CI ? VI(~a.i) : VL(~a.l)) : VI(a.c == CI ? !a.i : !a.l); return true; }
	return apply(o.op, a, b, o.t1, o.t2, r) == 0;
}
static void opSources(const OpCase &o, std::string &konst, std::string &prog, std::vector<Val> &want)
{
	auto v1 = cvalues(o.t1), v2 = o.op >= 0 && o.op < OPN ? values(o.t2, true) : std::vector<Val>{VI(0)};
	Cat rc = o.op == -1 ? cat(o.t2) : o.op >= OPN ? (o.op - OPN == 3 ? CI : cat(o.t1)) : resCat(o.op, o.t1, o.t2);
	bool direct = o.t1 != CHAR && o.t1 != SHORT && (o.op < 0 || o.op >= OPN || (o.t2 != CHAR && o.t2 != SHORT));
	std::string RT = rType(rc), T1 = tyName[o.t1], T2 = tyName[o.t2];
	static const char *un[] = {"-a", "+a", "~a", "!a"};
	std::string fn = o.op == -1 ? fmt("%s f(%s a){ %s r = a; return r; }\n", RT.c_str(), T1.c_str(), T2.c_str()) : o.op >= OPN ? fmt("%s f(%s a){ return %s; }\n", RT.c_str(), T1.c_str(), un[o.op - OPN]) : fmt("%s f(%s a, %s b){ return a %s b; }\n", RT.c_str(), T1.c_str(), T2.c_str(), ops[o.op]);
	std::string k = "class K{ ", use; prog = fmt("long H; void hb(long x){ H = H * 31 + x; }\n%s%s A; %s B;\n", fn.c_str(), T1.c_str(), T2.c_str());
	int n = 0;
	for(auto &a : v1) for(auto &b : v2)
	{
		Val r; if(!opResult(o, a, b, r)) continue;
		std::string la = plainLit(a, o.t1), lb = plainLit(b, o.t2), args = o.op >= 0 && o.op < OPN ? la + ", " + lb : la;
		bool refused = o.op >= 0 && o.op < OPN && !strcmp(ops[o.op], "**") && b.c != CD && rc != CD && (b.c == CI ? b.i : b.l) < 0;	// "negative power on integer number in exponentiation during constant folding"
		if(!refused){ k += fmt("const %s c%d = f(%s); ", RT.c_str(), n, args.c_str()); use += fmt("R[%d] = K.c%d;\n", n, n); want.push_back(r); n++; }
		std::string e = o.op == -1 ? "" : o.op >= OPN ? fmt("%c(%s)", un[o.op - OPN][0], la.c_str()) : fmt("%s %s %s", la.c_str(), ops[o.op], lb.c_str());
		if(direct && !e.empty() && !refused){ k += fmt("const %s c%d = %s; ", RT.c_str(), n, e.c_str()); use += fmt("R[%d] = K.c%d;\n", n, n); want.push_back(r); n++; }
		bool finite = r.c != CD || (r.d - r.d == 0);
		std::string tail = r.c != CD ? "" : r.d != r.d ? fmt(" != f(%s)", args.c_str()) : " == " + literal(r, DOUBLE);
		if(finite || r.d != r.d){ prog += fmt("hb(f(%s)%s); ", args.c_str(), tail.c_str()); if(o.op != -1) prog += fmt("{ A = %s; %sx = A; %s%s hb(%s); }\n", la.c_str(), (T1 + " ").c_str(), o.op < OPN ? fmt("B = %s; %s y = B; ", lb.c_str(), T2.c_str()).c_str() : "", "", ((o.op < OPN ? fmt("(x %s y)", ops[o.op]) : fmt("(%cx)", un[o.op - OPN][0])) + (r.c != CD ? "" : r.d != r.d ? fmt(" != f(%s)", args.c_str()) : " == " + literal(r, DOUBLE))).c_str()); else prog += fmt("{ %s x = %s; %s y = x; hb(%s); }\n", T1.c_str(), la.c_str(), T2.c_str(), r.c != CD ? "y" : r.d != r.d ? "y != y" : ("y == " + literal(r, DOUBLE)).c_str()); }
	}
	konst = fmt("%s[%d] R;\n", RT.c_str(), n) + fn + k + "}\n" + use + "return 1;"; prog += "return H;";
}
static void runOps(u64 i, mc::Ctx &c)
{
	const OpCase &o = opCases[i]; std::string k, p; std::vector<Val> want; opSources(o, k, p, want);
	Outcome b = run(k, {NULLC_REG_VM, 0});
	if(!b.ran){ c.fail("constants rejected: " + b.fullError.substr(0, 300)); return; }
	Cat rc = want.empty() ? CI : want[0].c; char *R = (char*)nullcGetGlobal("R");
	for(size_t j = 0; j < want.size(); j++)
	{
		Val g; if(rc == CI) g = VI(((int*)R)[j]); else if(rc == CL){ long long l; memcpy(&l, R + j * 8, 8); g = VL(l); } else { double d; memcpy(&d, R + j * 8, 8); g = VD(d); }
		if(!same(g, want[j])){ c.fail(fmt("class constant K.c%d is %s, expected %s", (int)j, show(g).c_str(), show(want[j]).c_str())); return; }
		c.step();
	}
	c.exec(want.size()); c.state(mc::hashStr(k));
	evalBoth(p, c, p, true);
}

int main(int argc, char **argv)
{
	mc::Engine e("C04", argc, argv);
	e.technique = "bounded exhaustive enumeration of programs, compile-time evaluators against execution";
	e.rule = "every statement sequence up to the depth from the alphabets without host calls, whole-program evaluated by the expression tree evaluator and the instruction tree evaluator (optimization 0 and 2) and executed; compile-time contexts: every constant expression of the grid";
	e.counterNames[0] = "expression_tree_evaluation_unsupported"; e.counterNames[1] = "instruction_tree_evaluation_unsupported";
	auto begin = [](mc::Ctx&){ nc::fresh(); };
	mc::Space s; s.chunk = 2; s.begin = begin; s.caseTimeout = 60;
	static SliceSet d1, d2, d3;
	int na = (int)alphabets().size() - 1; // not the host alphabet
	for(int a = 0; a < na; a++) for(int t = 0; t < T_COUNT; t++){ d1.add(a, t, 1); if(t != T_UNROLL || e.thorough) d2.add(a, t, 2); if(e.thorough) d3.add(a, t, 3); }
	auto add = [&](const char *name, SliceSet &ss){ s.name = name; s.count = ss.count(); SliceSet *p = &ss; s.run = [p](u64 i, mc::Ctx &c){ runBatch(p->get(i), c); }; s.describe = [p](u64 i){ Batch b = p->get(i); return source(b, b.from, b.to); }; e.add(s); };
	add("sequences-1", d1); add("sequences-2", d2);
	auto addT = [&](const char *name, u64 count, int per, std::function<void(u64, mc::Ctx&)> f, std::function<std::string(u64)> d){ s.name = name; s.count = (count + per - 1) / per; s.chunk = 8; s.run = f; s.describe = d; e.add(s); };
	for(int n = 1; n <= (e.thorough ? 6 : 5); n++) addT(strdup(fmt("control-trees-%d", n).c_str()), treeCount(n, false), kTrees, [n](u64 i, mc::Ctx &c){ runTrees(n, i, 16, c); }, [n](u64 i){ return treesSource(n, i, 16); });
	for(int n = 1; n <= (e.thorough ? 6 : 5); n++) addT(strdup(fmt("contexts-%d", n).c_str()), contextCount(n), kCtx, [n](u64 i, mc::Ctx &c){ runContext(n, i, c); }, [n](u64 i){ return contextSource(n, i, nullptr); });
	for(int n = 1; n <= (e.thorough ? 5 : 4); n++){ ctrl::Grammar g(true, true, false); addT(strdup(fmt("coroutine-trees-%d", n).c_str()), g.count(n, 0, 0), kTrees, [n](u64 i, mc::Ctx &c){ std::string t = coSource(n, i, 16); evalBoth(t, c, t, true); }, [n](u64 i){ return coSource(n, i, 16); }); }
	for(int op = 0; op < OPN; op++) for(int a = 0; a < TYN; a++) for(int b = 0; b < TYN; b++) if(supported(op, a, b)) opCases.push_back({op, a, b});
	for(int u = 0; u < 4; u++) for(int t = 0; t < TYN; t++) if(!((u == 2 && (isF(t) || t == BOOL)) || (u == 3 && isF(t)) || (u < 2 && t == BOOL))) opCases.push_back({OPN + u, t, t});
	for(int a = 0; a < TYN; a++) for(int b = 0; b < TYN; b++) opCases.push_back({-1, a, b});
	s.name = "constant-operators"; s.count = opCases.size(); s.chunk = 2; s.run = runOps; s.describe = [](u64 i){ std::string k, p; std::vector<Val> w; opSources(opCases[i], k, p, w); return k + "\n----\n" + p; }; e.add(s);
	if(e.thorough) add("sequences-3", d3);
	return e.finish();
}
