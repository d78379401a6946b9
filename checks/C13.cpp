// C13: every sequence of host API operations up to a depth, every observable compared with a model of the environment, followed by a probe program that must behave as in a fresh environment.
#include "../lib/nc.h"
using namespace nc;
static const char *kP0 = "import mc;\nclass Box{ int v; }\nint g = 5; long h = 7l; Box ref b = new Box(); int[] arr = new int[3];\nint add(int x){ g += x; h *= 2l; return g; }\nint zero(int d){ return 10 / d; }\nint nest(int n){ if(n == 0) return add(0); return hname(\"nest\", n - 1) + 1; }\nint heap(){ b = new Box(); b.v = 3; arr = new int[5]; arr[4] = 6; return b.v + arr[4] + g; }\nint deep(int n){ return n ? deep(n - 1) + 1 : 0; }\nint fail(int n){ hostfail(n); g = 1000; return n; }\nint idx(int n){ return arr[n]; }\nint nz(int n){ return n == 0 ? zero(0) : hname(\"nz\", n - 1) + 1; }\nlong lng(){ return h; }\ndouble dbl(){ return g + 0.5; }\nvoid nothing(){ g = g; }\nb.v = 9; arr[2] = 4; t(g); g += 1;\nreturn g + b.v;";
static const char *kP1 = "import mc;\nint[40] arr; char c = 'x'; int g = 50; int[7] pad;\nint mul(int x){ return x * g; }\nint add(int x){ arr[39] += x; pad[6] = 3; return arr[39] + g; }\nint deep(int n){ int[64] big; big[63] = n; return n ? deep(n - 1) + 1 : big[63]; }\nfor(i in arr) i = 1; t(arr[39]);\nreturn long(arr[39] + g);";
static const char *kP2 = "import mc;\nint g = 1; int q = hide(0);\nint add(int x){ return g + x; }\ng = 2; t(g); g = 3;\nreturn 1 / q;\n";
static const char *kP3 = "import mc;\nint add(int x){ return 77; }\nint g = unknown + 1;\nreturn 1;";
static const char *kP4 = "int add(int x){ return x + 4; }";
static const char *kProbe = "import mc;\nint g = 2; int[] a = new int[4]; int add(int x){ g += x; return g; }\nauto f = <int x>{ return x + g; };\nfor(i in a) i = 3; int sum; for(i in a) sum += i; t(sum); t(add(5)); return f(1) + sum;";
enum Op { BUILD0, BUILD1, BUILD2, BUILD3, BUILD4, RUN, ADD, ZERO, NEST, HEAP, DEEP, OVERFLOW_, FAIL, IDX, NZ, LNG, DBL, NOTHING, MISSING, SETG, GETG, TOGGLE, CLEAN, COMPILE1, ANALYZE, FINALIZE, CALLPTR, STALE, CLEARERR, EVAL, RELINK, MODULE, ALLOC, REDIRECT, LINKBAD, BIND, OUTPUTS, ANALYZEOK, NOPS };
static const char *kNames[] = {"build0", "build1", "build-runerr", "build-bad", "build-nocode", "run", "add(2)", "zero(0)", "nest(3)", "heap()", "deep(200)", "overflow", "fail(4)", "idx(9)", "nested zero", "lng()", "dbl()", "nothing()", "missing()", "set g", "get g", "switch executor", "clean", "compile1", "analyze bad", "finalize", "call pointer", "stale pointer", "clear error", "evaluate", "compile+link0", "module load/remove", "allocate", "redirect zero to add", "run function of empty name", "bind", "outputs", "analyze ok"};
static std::string bytes1, bytes0; 
struct Model
{
	int prog = -1, exec = 0, linkExec = 0; bool tainted = false, redirected = false; int compiled = -1;
	long long g = 0, h = 0, b = 0, arr = 0, arrn = 0; bool bset = false;
	void link(int p){ prog = p; linkExec = exec; tainted = redirected = false; g = h = b = arr = arrn = 0; bset = false; }
};
struct Res { bool ok = false; std::string value, trace; bool any = false; };	// any: only absence of damage is required
static int calls(int op){ return op == ADD || op == ZERO || op == NEST || op == HEAP || op == DEEP || op == OVERFLOW_ || op == FAIL || op == IDX || op == NZ || op == LNG || op == DBL || op == NOTHING || op == CALLPTR; }
static Res predict(Model &m, int op)
{
	Res r; bool active = m.prog >= 0, mixed = active && (m.exec != m.linkExec || m.tainted);
	auto I = [&](long long v){ r.ok = true; r.value = fmt("int %lld", v); };
	if((op == RUN || calls(op) || op == SETG || op == REDIRECT || op == HEAP || op == FINALIZE || op == ALLOC) && mixed){ m.tainted = true; r.any = true; return r; }
	if(op == GETG && mixed){ r.any = true; return r; }
	int add = 2;
	switch(op)
	{
	case BUILD0: case RELINK: m.link(0); m.compiled = -1; if(op == RELINK) m.compiled = -1; r.ok = true; break; case BUILD1: m.link(1); m.compiled = -1; r.ok = true; break; case BUILD2: m.link(2); m.compiled = -1; r.ok = true; break;
	case BUILD3: m.compiled = -2; break; case BUILD4: m.link(4); m.compiled = -1; r.ok = true; break;
	case RUN: if(!active) break;
		if(m.prog == 0){ m.g = 6; m.h = 7; m.b = 9; m.bset = true; m.arr = 4; m.arrn = 3; r.trace = "5 "; I(15); } else if(m.prog == 1){ m.g = 50; m.arr = 1; r.trace = "1 "; r.ok = true; r.value = "long 51"; } else if(m.prog == 2){ m.g = 3; r.trace = "2 "; } else if(m.prog == 4){ r.any = true; } break;
	case CALLPTR: add = 3; case ADD: if(!active) break; if(m.prog == 0){ m.g += add; m.h *= 2; I(m.g); } else if(m.prog == 1){ m.arr += add; I(m.arr + m.g); } else if(m.prog == 2) I(m.g + add); else I(add + 4); break;
	case ZERO: if(m.prog == 0 && m.redirected){ m.h *= 2; I(m.g); } break;
	case NEST: if(m.prog == 0){ m.h *= 2; I(m.g + 3); } break;
	case HEAP: if(m.prog == 0){ m.b = 3; m.bset = true; m.arrn = 5; I(9 + m.g); } break;
	case DEEP: if(m.prog == 0) I(200); else if(m.prog == 1) I(200); break;
	case OVERFLOW_: break; case FAIL: break;
	case IDX: break; case NZ: if(m.prog == 0 && m.redirected){ m.h *= 2; I(m.g + 3); } break;
	case LNG: if(m.prog == 0){ r.ok = true; r.value = fmt("long %lld", m.h); } break; case DBL: if(m.prog == 0){ r.ok = true; r.value = fmt("double %.17g", m.g + 0.5); } break; case NOTHING: if(m.prog == 0){ r.ok = true; r.value = "void"; } break;
	case SETG: if(m.prog >= 0 && m.prog < 3){ m.g = 100; r.ok = true; } break; case GETG: if(m.prog >= 0 && m.prog < 3){ r.ok = true; r.value = fmt("%lld", m.g); } break;
	case TOGGLE: m.exec ^= 1; r.ok = true; break; case CLEAN: m.link(-1); m.compiled = -1; r.ok = true; break; case COMPILE1: m.compiled = 1; r.ok = true; break; case ANALYZE: m.compiled = -2; break; case ANALYZEOK: m.compiled = 2; r.ok = true; break; case OUTPUTS: r.ok = true; r.value = m.compiled == 1 ? "11111" : m.compiled == 2 ? "00?" : "00000"; if(m.compiled == 2) r.any = true; break; case FINALIZE: r.ok = true; break;
	case STALE: break; case CLEARERR: r.ok = true; break; case EVAL: if(m.compiled > 0) r.any = true; break; case MODULE: r.ok = true; r.value = "1 0"; m.link(-1); m.compiled = -1; break; case ALLOC: if(!active) r.any = true; r.ok = true; break;
	case REDIRECT: if(m.prog == 0){ m.redirected = true; r.ok = true; } break;
	case BIND: m.compiled = -1; r.ok = true; break;
	default: break;
	}
	return r;
}
static Res perform(Model &m, int op)
{
	Res r; trace().clear(); traceOverflow() = false; auto call = [&](nullres v){ r.ok = v != 0; if(r.ok) r.value = resultText(); }; static NULLCFuncPtr stale; NULLCFuncPtr fp;
	switch(op)
	{
	case BUILD0: r.ok = nullcBuild(kP0); break; case BUILD1: r.ok = nullcBuild(kP1); break; case BUILD2: r.ok = nullcBuild(kP2); break; case BUILD3: r.ok = nullcBuild(kP3); break; case BUILD4: r.ok = nullcBuild(kP4); break;
	case RUN: call(nullcRun()); break; case ADD: call(nullcRunFunction("add", 2)); break; case ZERO: call(nullcRunFunction("zero", 0)); break; case NEST: call(nullcRunFunction("nest", 3)); break; case HEAP: call(nullcRunFunction("heap")); break;
	case DEEP: call(nullcRunFunction("deep", 200)); break; case OVERFLOW_: call(nullcRunFunction("deep", 100000000)); break; case FAIL: call(nullcRunFunction("fail", 4)); break; case IDX: call(nullcRunFunction("idx", 9)); break; case NZ: call(nullcRunFunction("nz", 3)); break;
	case LNG: call(nullcRunFunction("lng")); break; case DBL: call(nullcRunFunction("dbl")); break; case NOTHING: call(nullcRunFunction("nothing")); break; case MISSING: call(nullcRunFunction("missing")); break;
	case SETG: { int v = 100; r.ok = nullcSetGlobal("g", &v); break; } case GETG: { int *p = (int*)nullcGetGlobal("g"); r.ok = p != nullptr; if(p){ r.value = fmt("%d", *p); if(nullcGetGlobalType("g") != NULLC_TYPE_INT) r.value = "type"; } break; }
	case TOGGLE: nullcSetExecutor(m.exec); r.ok = true; break; case CLEAN: nullcClean(); r.ok = true; break; case COMPILE1: r.ok = nullcCompile(kP1); break; case ANALYZE: r.ok = nullcAnalyze(kP3); break; case ANALYZEOK: r.ok = nullcAnalyze(kP1); break;
	case OUTPUTS: { char *a = nullptr, *b = nullptr; unsigned na = nullcGetBytecode(&a), nb = nullcGetBytecodeNoCache(&b); r.ok = true; bool s = nullcSaveListing("/dev/null"), t = nullcTranslateToC("/dev/null", "m", nullptr); r.value = fmt("%d%d%d%d%d", na != 0, nb != 0, na != 0 && na == nb && !memcmp(a, b, na), s, t); delete[] a; delete[] b; break; } case FINALIZE: r.ok = nullcFinalize(); break;
	case CALLPTR: if(nullcGetFunction("add", &fp)){ call(nullcCallFunction(fp, 3)); stale = fp; } break; case STALE: fp.id = 1000000; fp.context = nullptr; call(nullcCallFunction(fp, 1)); if(!r.ok){ fp.id = 0; call(nullcCallFunction(fp, 1)); } break; case CLEARERR: nullcClearError(); r.ok = true; break;
	case EVAL: { char buf[256]; r.ok = nullcTestEvaluateExpressionTree(buf, 256); if(r.ok) r.value = buf; if(nullcTestEvaluateInstructionTree(buf, 256)) r.value += buf; break; }
	case RELINK: { char *b = nullptr; r.ok = nullcCompile(kP0) && nullcGetBytecode(&b); if(r.ok){ nullcClean(); r.ok = nullcLinkCode(b); } delete[] b; break; }
	case MODULE: { bool a = nullcLoadModuleBySource("mx", "int mxf(){ return 4; }"); nullcRemoveModule("mx.nc"); bool found = false; for(unsigned k = 0; const char *n = nullcEnumerateModules(k); k++) found |= strstr(n, "mx") != nullptr; r.ok = true; r.value = fmt("%d %d", a, found); break; }
	case ALLOC: { void *p = nullcAllocate(40); r.ok = p != nullptr; if(p){ memset(p, 1, 40); r.ok = nullcIsManagedPointer(p) != 0; } break; }
	case REDIRECT: { NULLCFuncPtr a; r.ok = nullcGetFunction("add", &a) && nullcSetFunction("zero", a); break; }
	case BIND: r.ok = nullcBindModuleFunction("mc", (void(*)())t_i, "t", 0); break;
	case LINKBAD: call(nullcRunFunction("")); if(!r.ok){ NULLCFuncPtr bad = {nullptr, 1000000}; r.ok = nullcSetFunction("add", bad) || nullcRedirectFunction(1000000, 2) || nullcRedirectFunction(2, 1000000) || nullcRunFunctionInternal(1000000, nullptr); } break;
	}
	r.trace = trace(); return r;
}
static int gDepth[4] = {2, 2, 2, 2}; static std::vector<int> gSets[4];
static std::string opsText(int set, u64 i){ std::string s = (i & 1) ? "jit:" : "vm:"; i >>= 1; for(int k = 0; k < gDepth[set]; k++){ s += std::string(" ") + kNames[gSets[set][i % gSets[set].size()]]; i /= gSets[set].size(); } return s; }
static void runOps(int set, u64 i, mc::Ctx &c)
{
	Model m; m.exec = i & 1; std::string text = opsText(set, i); i >>= 1; fresh(STD_NONE); nullcSetExecutor(m.exec); nullcSetOptimizationLevel(2); nullcSetExecutorStackSize(64 * 1024);
	std::string done; u64 hsh = 1;
	for(int k = 0; k < gDepth[set]; k++)
	{
		int op = gSets[set][i % gSets[set].size()]; i /= gSets[set].size(); Res want = predict(m, op), got = perform(m, op); c.step(); done += std::string(done.empty() ? "" : ", ") + kNames[op];
		if(!want.any && (want.ok != got.ok || want.value != got.value || (want.trace != got.trace && !(want.trace.empty() && !got.ok)))) { c.fail(fmt("%s after [%s]: expected %s %s '%s' observed %s %s '%s' (%s)", kNames[op], text.c_str(), want.ok ? "success" : "failure", want.value.c_str(), want.trace.c_str(), got.ok ? "success" : "failure", got.value.c_str(), got.trace.c_str(), firstLine(nullcGetLastError()).c_str()), "seq " + text); return; }
		if(!got.ok && !want.any && op != EVAL && op != GETG && op != SETG && !(nullcGetLastError() && *nullcGetLastError())){ c.fail(fmt("%s failed without an error message after [%s]", kNames[op], text.c_str()), "seq " + text); return; }
		hsh = mc::hashStr(fmt("%d %d %d %d %lld %lld %lld %d", m.prog, m.exec, m.linkExec, m.tainted, m.g, m.h, m.arr, m.compiled)); c.state(hsh);
	}
	// probe: a program built and run now behaves as in a fresh environment
	for(int ex = 0; ex < 2; ex++){ Outcome o = run(kProbe, {(m.exec + ex) & 1, 2}); c.exec(); std::string w = "OK int 20 | trace: 12 7 "; if(o.text() != w){ c.fail(fmt("probe program (%s) after [%s]: %s", cfgName({(m.exec + ex) & 1, 2}), text.c_str(), o.text().c_str()), "probe " + text); return; } int *g = (int*)nullcGetGlobal("g"); if(!g || *g != 7 || !nullcRunFunction("add", 1) || nullcGetResultInt() != 8) { c.fail("probe function after [" + text + "]", "probe " + text); return; } }
}
// every API call without initialisation (never initialised or terminated)
static void runUninit(u64 i, mc::Ctx &c)
{
	fresh(STD_NONE); nullcTerminate(); inited() = false; char buf[64]; char *b = nullptr; int v = 1; NULLCFuncPtr fp = {0, 0}; bool bad = false; NULLCRef ref = {0, 0}; c.exec(); c.step(); c.state(i + 1);
	switch(i)
	{
	case 0: bad = nullcBuild("return 1;"); break; case 1: bad = nullcRun(); break; case 2: bad = nullcRunFunction("add"); break; case 3: bad = nullcCompile("return 1;"); break; case 4: bad = nullcAnalyze("return 1;"); break; case 5: bad = nullcGetBytecode(&b) != 0; break; case 6: bad = nullcGetBytecodeNoCache(&b) != 0; break;
	case 7: nullcClean(); break; case 8: bad = nullcLinkCode(buf); break; case 9: bad = nullcLoadModuleBySource("x", "int a;"); break; case 10: bad = nullcLoadModuleByBinary("x", buf); break; case 11: nullcRemoveModule("x"); break; case 12: bad = nullcEnumerateModules(0) != nullptr; break;
	case 13: bad = nullcBindModuleFunction("x", (void(*)())runUninit, "f", 0); break; case 14: bad = nullcSetExecutorStackSize(1 << 20); break; case 15: bad = nullcGetGlobal("g") != nullptr; break; case 16: bad = nullcSetGlobal("g", &v); break; case 17: bad = nullcGetGlobalType("g") != 0; break; case 18: bad = nullcGetFunction("f", &fp); break; case 19: bad = nullcSetFunction("f", fp); break;
	case 20: bad = nullcCallFunction(fp); break; case 21: nullcThrowError("x"); break; case 22: nullcThrowErrorObject(ref); break; case 23: nullcClearError(); break; case 24: bad = nullcGetResultType() != NULLC_TYPE_VOID; break; case 25: bad = nullcGetResultInt() != 0 || nullcGetResultLong() != 0 || nullcGetResultDouble() != 0; break; case 26: bad = !nullcGetResult(); break;
	case 27: bad = nullcFinalize(); break; case 28: bad = nullcAllocate(16) != nullptr; break; case 29: bad = nullcAllocateTyped(4) != nullptr; break; case 30: bad = nullcAllocateArrayTyped(4, 3).ptr != nullptr; break; case 31: bad = nullcTestEvaluateExpressionTree(buf, 64) || nullcTestEvaluateInstructionTree(buf, 64); break; case 32: bad = nullcSaveListing("/dev/null"); break; case 33: bad = nullcTranslateToC("/dev/null", "m", nullptr); break;
	case 34: bad = nullcGetLastError() == nullptr; break; case 35: nullcTerminate(); break; case 36: bad = nullcRunFunctionInternal(0, nullptr); break; case 37: bad = nullcRedirectFunction(0, 1); break; case 38: bad = nullcGetResultObject().ptr != nullptr || nullcGetLastErrorObject().ptr != nullptr; break; case 39: nullcSetGlobalMemoryLimit(1 << 28); break; case 40: nullcSetExecutor(NULLC_X86); break; case 41: bad = nullcAllocateObjectTyped(4).ptr != nullptr; break; case 42: nullcAddImportPath("x/"); break; case 43: nullcHasImportPath("x/"); nullcRemoveImportPath("x/"); nullcClearImportPaths(); break; case 44: bad = nullcInit() == 0 || nullcInit() != 0; nullcTerminate(); break;
	}
	if(bad) c.fail(fmt("API call %d succeeds without initialisation", (int)i), fmt("uninit %d", (int)i));
	fresh(STD_NONE); Outcome o = run(kProbe, {0, 2}); if(o.text() != "OK int 20 | trace: 12 7 ") c.fail(fmt("probe after uninitialised call %d: %s", (int)i, o.text().c_str()), fmt("uninit probe %d", (int)i));
}
int main(int argc, char **argv)
{
	mc::Engine e("C13", argc, argv); bool T = e.thorough;
	e.technique = "exhaustive enumeration of host API operation sequences on the real library, every result compared with a model of the environment, then a probe program";
	e.rule = "every sequence of 3 operations over 38 host API operations (thorough: also of 4 over 22 of them) and of 4 (thorough 5-6) over two sets of 9-10 of them, starting with each executor; every API call without initialisation";
	for(int k = 0; k < NOPS; k++) gSets[0].push_back(k);
	gDepth[0] = 3;
	gSets[1] = {BUILD0, BUILD1, RUN, ADD, ZERO, HEAP, TOGGLE, CLEAN, FINALIZE}; gDepth[1] = T ? 6 : 4; if(T) gSets[1].push_back(BUILD2);
	gSets[2] = {BUILD0, RUN, ADD, NEST, NZ, FAIL, OVERFLOW_, CLEARERR, SETG, CALLPTR}; gDepth[2] = T ? 5 : 4;
	gSets[3] = {BUILD0, BUILD1, BUILD3, BUILD4, RUN, ADD, ZERO, HEAP, DEEP, GETG, TOGGLE, CLEAN, COMPILE1, FINALIZE, STALE, CLEARERR, EVAL, RELINK, MODULE, REDIRECT, BIND, OUTPUTS}; gDepth[3] = 4;
	for(int s = 0; s < (T ? 4 : 3); s++){ u64 n = 2; for(int k = 0; k < gDepth[s]; k++) n *= gSets[s].size(); mc::Space sp; static const char *nm[] = {"operations", "programs", "errors", "deep operations"}; sp.name = nm[s]; sp.count = n; sp.chunk = 64; sp.caseTimeout = 60; sp.run = [s](u64 i, mc::Ctx &c){ runOps(s, i, c); }; sp.describe = [s](u64 i){ return opsText(s, i); }; e.add(sp); }
	mc::Space sp; sp.name = "uninitialised"; sp.count = 45; sp.chunk = 1; sp.caseTimeout = 30; sp.run = runUninit; sp.describe = [](u64 i){ return fmt("api %d", (int)i); }; e.add(sp);
	return e.finish();
}
