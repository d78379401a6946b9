// C09: coroutines and generators resume exactly where they left off
#include "ctrl.h"
#include "lt.h"
using namespace nc; using namespace ctrl;

// ---- every control-flow tree with yields as a local coroutine; two instances with different decision tapes, interleaved by every schedule
static const int kPer = 16, kLen = 6;
static std::vector<int> scheds(bool all){ std::vector<int> r; if(all) for(int i = 0; i < 64; i++) r.push_back(i); else r = {0x15, 0x2A, 0x38, 0x0C, 0x33, 0x07}; return r; }
static const int kTapeA[] = {0, 2, 6, 14, 10, 26, 62, 4}, kTapeB[] = {14, 0, 10, 2, 20, 6, 4, 62};
static u64 countOf(int n){ Grammar g(true, true, true); return g.count(n, 0, 0); }
struct TS { int n; bool all, gc; u64 count; int kind; };	// kind 0 closure instances, 1 global function, 2 for-each over the coroutine, 3 list comprehension
static bool has(const Node *n, int k){ return n && (n->kind == k || has(n->a, k) || has(n->b, k)); }
// sequence of values one instance produces: yields of a run, its result, then from the start again
static std::vector<long long> seqOf(const Node *n, std::vector<int> tapes, int len, u64 *steps, std::vector<char> *isYield = nullptr)
{
	// each call either continues or starts a run; a run reads the tape given to the call which starts it
	std::vector<long long> r; size_t call = 0;
	while((int)call < len)
	{
		Ref ref; ref.mode = LOCAL; ref.tape = tapes[std::min(call, tapes.size() - 1)];
		ref.onYield = [&](Ref &, long long v){ r.push_back(v); if(isYield) isYield->push_back(1); };
		ref.go(n); r.push_back(ref.result); if(isYield) isYield->push_back(0); call = r.size(); *steps += ref.steps;
	}
	r.resize(len); if(isYield) isYield->resize(len); return r;
}
// the same body for a coroutine without a value: values go to a variable, the end of the function is reached without a return
static std::string voidBody(std::string b)
{
	size_t p;
	while((p = b.find("yield h;")) != std::string::npos) b.replace(p, 8, "{ Y = h; yield; }");
	size_t last = b.rfind("return "), e = b.find(';', last); b = b.substr(0, last) + "Y = " + b.substr(last + 7, e - last - 6) + b.substr(e + 1);
	p = 0; while((p = b.find("return ", p)) != std::string::npos){ if(b[p + 7] == 'v'){ p += 7; continue; } e = b.find(';', p); std::string x = b.substr(p + 7, e - p - 6); b.replace(p, e - p + 1, "{ Y = " + x + " return; }"); p += 10 + x.size(); }
	return b;
}
static std::string treesSource(const TS &s, u64 i)
{
	Grammar g(true, true, true); Printer p = {LOCAL, false}; std::string r = s.gc ? "import std.gc;\n" : "", d;
	r += fmt("long[%d] R; long gh;\n", kPer);
	if(s.kind == 4) r += "long Y; void drive(void ref() a, void ref() b, int sched, int n){ for(int i = 0; i < 6; i++){ if((sched >> i) & 1) b(); else a(); R[n] = R[n] * 31 + Y; } }\n";
	if(s.kind == 0)
	{
		r += "void drive(long ref() a, long ref() b, int sched, int n){ for(int i = 0; i < 6; i++){ long v = (sched >> i) & 1 ? b() : a(); R[n] = R[n] * 31 + v;" + std::string(s.gc ? " GC.CollectMemory();" : "") + " } }\n";
	}
	for(u64 k = i * kPer; k < std::min(s.count, (i + 1) * kPer); k++)
	{
		int j = (int)(k - i * kPer); Node *t = g.tree(s.n, k);
		std::string body = "long h = 7; int[2] arr; arr[0] = 1; arr[1] = 2; " + p.text(t) + " return h * 31 + 39; ";
		switch(s.kind)
		{
		case 4: r += fmt("auto mk%d(int tape0){ coroutine void f(){ int tape = tape0; ", j) + voidBody(body) + "} return f; }\n"; break;
		case 0: case 2: r += fmt("auto mk%d(int tape0){ coroutine long f(){ int tape = tape0; ", j) + body + "} return f; }\n"; break;
		case 1: r += fmt("coroutine long f%d(int tape0, int seed){ int tape = tape0; ", j) + body + "}\n"; break;
		case 3: r += has(t, RET) || !has(t, YIELD) ? "" : fmt("void lc%d(int tape0){ int tape = tape0; long h = 7; int[2] arr; arr[0] = 1; arr[1] = 2; long[] q = { for(int z = 0; z < 2; z++){ ", j) + p.text(t) + fmt(" } }; for(x in q) R[%d] = R[%d] * 31 + x; R[%d] = R[%d] * 31 + q.size; R[%d] = R[%d] * 31 + h; }\n", j, j, j, j, j, j); break;
		}
		switch(s.kind)
		{
		case 0: case 4: d += fmt("for(int p%d = 0; p%d < 8; p%d++) for(int s%d = 0; s%d < S.size; s%d++) drive(mk%d(TA[p%d]), mk%d(TB[p%d]), S[s%d], %d);\n", j, j, j, j, j, j, j, j, j, j, j, j); break;
		case 1: d += fmt("for(int p%d = 0; p%d < 40; p%d++) R[%d] = R[%d] * 31 + f%d(TA[(p%d * 5 + p%d / 8) & 7], p%d);\n", j, j, j, j, j, j, j, j, j); break;
		case 2: d += fmt("for(int p%d = 0; p%d < 8; p%d++){ for(x%d in mk%d(TA[p%d])) R[%d] = R[%d] * 31 + x%d; R[%d] = R[%d] * 31 + 77; auto g%d = mk%d(TB[p%d]); for(y%d in g%d){ R[%d] = R[%d] * 31 + y%d; } for(z%d in g%d) R[%d] = R[%d] * 31 + z%d; }\n", j, j, j, j, j, j, j, j, j, j, j, j, j, j, j, j, j, j, j, j, j, j, j, j); break;
		case 3: if(!(has(t, RET) || !has(t, YIELD))) d += fmt("for(int p%d = 0; p%d < 8; p%d++) lc%d(TA[p%d]);\n", j, j, j, j, j); break;
		}
	}
	auto list = [](const int *v, size_t n){ std::string s = "{"; for(size_t k = 0; k < n; k++) s += fmt("%s%d", k ? ", " : "", v[k]); return s + "}"; };
	auto sc = scheds(s.all);
	return r + "int[] TA = " + list(kTapeA, 8) + ";\nint[] TB = " + list(kTapeB, 8) + ";\nint[] S = " + list(sc.data(), sc.size()) + ";\n" + d + "return 1;";
}
static void runTrees(const TS &s, u64 i, mc::Ctx &c)
{
	std::string src = treesSource(s, i); Grammar g(true, true, true); std::vector<u64> want; u64 steps = 0, calls = 0;
	auto sc = scheds(s.all);
	for(u64 k = i * kPer; k < std::min(s.count, (i + 1) * kPer); k++)
	{
		Node *t = g.tree(s.n, k); u64 h = 0;
		if(s.kind == 0 || s.kind == 4) for(int p = 0; p < 8; p++)
		{
			auto a = seqOf(t, {kTapeA[p]}, kLen, &steps), b = seqOf(t, {kTapeB[p]}, kLen, &steps);
			for(int sch : sc){ int x = 0, y = 0; for(int l = 0; l < kLen; l++) h = h * 31 + (u64)((sch >> l) & 1 ? b[y++] : a[x++]); calls += kLen; }
			for(auto v : a) c.state(mc::mix(mc::mix(k, s.n), (u64)v));
		}
		else if(s.kind == 1)
		{
			std::vector<int> tp; for(int p = 0; p < 40; p++) tp.push_back(kTapeA[(p * 5 + p / 8) & 7]);
			for(auto v : seqOf(t, tp, 40, &steps)) h = h * 31 + (u64)v; calls += 40; c.state(mc::mix(k, h));
		}
		else if(s.kind == 2) for(int p = 0; p < 8; p++)
		{
			for(int w = 0; w < 3; w++){ Ref r; r.mode = LOCAL; r.tape = w ? kTapeB[p] : kTapeA[p]; r.onYield = [&](Ref &, long long v){ h = h * 31 + (u64)v; calls++; }; r.go(t); if(!w) h = h * 31 + 77; steps += r.steps; calls++; }
			c.state(mc::mix(k, h));
		}
		else if(!has(t, RET) && has(t, YIELD)) for(int p = 0; p < 8; p++)
		{
			Ref r; r.mode = LOCAL; r.tape = kTapeA[p]; std::vector<long long> q; r.onYield = [&](Ref &, long long v){ q.push_back(v); };
			for(int z = 0; z < 2; z++) r.run(t);
			for(auto v : q) h = h * 31 + (u64)v; h = h * 31 + q.size(); h = h * 31 + (u64)r.h; calls += q.size(); steps += r.steps; c.state(mc::mix(k, h));
		}
		want.push_back(h);
	}
	c.step(steps);
	for(int ex = 0; ex < 2; ex++) for(int o = 0; o < 3; o++)
	{
		if(o == 1 && !c.thorough) continue;
		Outcome b = run(src, {ex, o});
		if(!b.ran){ c.fail(fmt("%s: %s", cfgName({ex, o}), b.fullError.c_str())); return; }
		long long R[kPer]; memcpy(R, nullcGetGlobal("R"), sizeof(R)); c.exec(calls);
		for(size_t j = 0; j < want.size(); j++) if((u64)R[j] != want[j])
		{
			Printer p = {LOCAL, false}; std::string t = p.text(g.tree(s.n, i * kPer + j));
			c.fail(fmt("%s: values produced by the coroutine differ from the reference (digest %lld, expected %lld): ", cfgName({ex, o}), R[j], (long long)want[j]) + t, fmt("kind %d ", s.kind) + t); if(c.nfail > 4) return;
		}
	}
}

// ---- locals of every type keep their values over a yield, in every scope, in interleaved instances, with collections in between
static u64 localsCount(){ return NT * NT; }
static std::string localsSource(u64 i)
{
	gUid = 0; const LT &A = kTypes[i % NT], &B = kTypes[i / NT]; std::string s = "import std.gc;\nint[512] R; int n;\nint dfn(int ref() f){ return f(); }\n";
	for(auto &t : kTypes) s += t.decl;
	auto noDig = [](const LT &t){ return !strcmp(t.type, "int ref()"); }; // reading a closure advances it: the digest is the call itself
	auto mut = [&](const LT &t, const char *v){ return noDig(t) ? std::string() : sub(t.mut, v, ""); };
	std::string body = fmt("%s a = %s; int k = 0; while(k < 3){ ", A.type, sub(A.init, "a", "s").c_str()) +
		fmt("%s b = %s; for(int i = 0; i < 2; i++){ int x = %s; int y = %s; yield x * 1000 + y * 10 + i; ", B.type, sub(B.init, "b", "s + k").c_str(), sub(A.dig, "a", "").c_str(), sub(B.dig, "b", "").c_str()) +
		mut(A, "a") + mut(B, "b") + " } k++; } " +
		fmt("{ %s c = %s; int x = %s; yield x; ", B.type, sub(B.init, "c", "s + 5").c_str(), sub(B.dig, "c", "").c_str()) + mut(B, "c") + fmt(" x = %s; { %s c = %s; int z = %s; yield x * 100 + z; } x = %s; yield x; } ", sub(B.dig, "c", "").c_str(), A.type, sub(A.init, "c", "s + 1").c_str(), sub(A.dig, "c", "").c_str(), sub(noDig(B) ? "c()" : B.dig, "c", "").c_str()) +
		fmt("return %s; ", sub(A.dig, "a", "").c_str());
	s += "auto mk0(int s){ coroutine int f(){ " + body + "} return f; }\n";
	s += "auto mk1(int s){ return coroutine auto(){ " + body + "}; }\n";
	s += "auto mk2(int s){ auto mid(int d){ coroutine int f(){ " + body + "} return f; } return mid(1); }\n";
	for(int k = 0; k < NKIND; k++) for(int gc = 0; gc < 2; gc++) s += fmt("{ auto a = mk%d(1), b = mk%d(4); for(int i = 0; i < 24; i++){ R[n++] = (i %% 3 == 1) ? b() : a(); %s } }\n", k, k, gc ? "GC.CollectMemory(); int[] junk = new int[20]; for(int j = 0; j < 20; j++) junk[j] = -1; P ref jp = new P; jp.x = -77; jp.y = -77;" : "");
	return s + "return 1;";
}
static std::vector<int> localsRef(int s)
{
	std::vector<int> r; int a = s; for(int k = 0; k < 3; k++){ int b = s + k; for(int i = 0; i < 2; i++){ r.push_back(a * 1000 + b * 10 + i); a++; b++; } }
	int c = s + 5; r.push_back(c); c++; r.push_back(c * 100 + s + 1); r.push_back(c); r.push_back(a); return r;
}
static void runLocals(u64 i, mc::Ctx &c)
{
	std::string src = localsSource(i); std::vector<int> want; const LT &B = kTypes[i / NT];
	auto ra = localsRef(1), rb = localsRef(4);
	if(!strcmp(B.type, "int ref()")){ ra[8]++; rb[8]++; }
	for(int k = 0; k < NKIND * 2; k++){ int x = 0, y = 0; for(int j = 0; j < 24; j++) want.push_back(j % 3 == 1 ? rb[y++ % rb.size()] : ra[x++ % ra.size()]); }
	c.step(want.size());
	for(int ex = 0; ex < 2; ex++) for(int o = 0; o < 3; o++)
	{
		Outcome b = run(src, {ex, o});
		if(!b.ran){ c.fail(fmt("%s: %s", cfgName({ex, o}), b.fullError.c_str())); return; }
		int *R = (int*)nullcGetGlobal("R"); c.exec(want.size());
		for(size_t j = 0; j < want.size(); j++){ c.state(mc::mix(i * 7, R[j])); if(R[j] != want[j]){ c.fail(fmt("%s: locals of type %s and %s: kind %d%s, call %d gives %d, expected %d", cfgName({ex, o}), kTypes[i % NT].type, B.type, (int)j / 48, (int)(j / 24) & 1 ? " with collections" : "", (int)j % 24, R[j], want[j]), fmt("locals %s %s", kTypes[i % NT].type, B.type)); break; } }
	}
}

// ---- coroutines using coroutines: pipelines of generators (map, filter, zip, flatten, take) nested to depth 3 against the same pipeline on sequences
static const int kStages = 6;
static std::string stage(int k, const std::string &in, const std::string &in2)
{
	switch(k){ case 0: return "gmap(" + in + ")"; case 1: return "gfilter(" + in + ")"; case 2: return "gzip(" + in + ", " + in2 + ")"; case 3: return "gflat(" + in + ")"; case 4: return "gtake(" + in + ")"; }
	return "gpairs(" + in + ")";
}
static std::vector<int> pipe(int k, const std::vector<int> &a, const std::vector<int> &b)
{
	std::vector<int> r;
	switch(k)
	{
	case 0: for(int x : a) r.push_back(x * 2 + 1); break;
	case 1: for(int x : a) if(x % 3 != 0) r.push_back(x); break;
	case 2: for(size_t i = 0; i < std::min(a.size(), b.size()); i++) r.push_back(a[i] * 100 + b[i]); break;
	case 3: for(int x : a) for(int i = 0; i < (x & 3); i++) r.push_back(x + i); break;
	case 4: for(int x : a){ if(r.size() == 4) break; r.push_back(x); } break;
	case 5: for(size_t i = 0; i + 1 < a.size(); i += 2) r.push_back(a[i] - a[i + 1]); break;
	}
	return r;
}
static const char *kPipeHead = "import std.gc;\nint[256] R; int n;\ntypedef int ref() G;\n"
	"auto src(int a, b){ return coroutine auto(){ for(int i = a; i < b; i++) yield i; return 0; }; }\n"
	"auto gmap(G g){ return coroutine auto(){ for(x in g) yield x * 2 + 1; return 0; }; }\n"
	"auto gfilter(G g){ coroutine int f(){ for(x in g){ if(x % 3 == 0) continue; yield x; } return 0; } return f; }\n"
	"auto gzip(G g, G h){ coroutine int f(){ for(x in g, y in h) yield x * 100 + y; return 0; } return f; }\n"
	"auto gflat(G g){ coroutine int f(){ for(x in g) for(int i = 0; i < (x & 3); i++) yield x + i; return 0; } return f; }\n"
	"auto gtake(G g){ coroutine int f(){ int k = 0; for(x in g){ if(k++ == 4) break; yield x; } return 0; } return f; }\n"
	"auto gpairs(G g){ coroutine int f(){ int p, k = 0; for(x in g){ if(k & 1) yield p - x; p = x; k++; } return 0; } return f; }\n";
static std::string pipeSource(u64 i)
{
	int a = i % kStages, b = i / kStages % kStages, c = i / kStages / kStages; std::string s = kPipeHead;
	auto inner = [&](){ return stage(a, "src(1, 9)", "src(20, 26)"); };
	std::string two = stage(b, inner(), "src(3, 8)"), three = stage(c, two, inner());
	for(int gc = 0; gc < 2; gc++) s += "for(x in " + three + "){ R[n++] = x; " + (gc ? "GC.CollectMemory(); int[] junk = new int[8]; for(int i = 0; i < 8; i++) junk[i] = -5;" : "") + " }\nR[n++] = -999;\n";
	return s + "return 1;";
}
static void runPipe(u64 i, mc::Ctx &c)
{
	int a = i % kStages, b = i / kStages % kStages, d = i / kStages / kStages; auto rng = [](int x, int y){ std::vector<int> r; for(; x < y; x++) r.push_back(x); return r; };
	auto in = pipe(a, rng(1, 9), rng(20, 26)); auto r3 = pipe(d, pipe(b, in, rng(3, 8)), in); std::vector<int> want; for(int k = 0; k < 2; k++){ want.insert(want.end(), r3.begin(), r3.end()); want.push_back(-999); }
	std::string src = pipeSource(i); c.step(want.size());
	for(int ex = 0; ex < 2; ex++) for(int o = 0; o < 3; o++)
	{
		Outcome q = run(src, {ex, o}); if(!q.ran){ c.fail(fmt("%s: %s", cfgName({ex, o}), q.fullError.c_str())); return; }
		int n = *(int*)nullcGetGlobal("n"), *R = (int*)nullcGetGlobal("R"); std::vector<int> got(R, R + n); c.exec(want.size());
		for(int x : got) c.state(mc::mix(i, x));
		if(got != want){ std::string t; for(int x : got) t += fmt("%d ", x); t += "expected "; for(int x : want) t += fmt("%d ", x); c.fail(fmt("%s: pipeline of stages %d %d %d delivers ", cfgName({ex, o}), a, b, d) + t, fmt("pipe %d", (int)i)); return; }
	}
}

// ---- for-each over one to three iterators of every kind and length, with early exits; coroutines are probed after the loop
enum { IK_FUNC, IK_VAR, IK_CALL, IK_ARRAY, IK_DYN, IK_CUSTOM, IK_MEMBER, IKS };
enum { LENS = 4, SLOT = IKS * LENS, kIterPer = 24 };
struct IterCase { int k; int kind[3], len[3]; int var; };
static u64 iterCount(int k){ return k == 1 ? SLOT * 3 : k == 2 ? (u64)SLOT * SLOT * 3 : (u64)SLOT * SLOT * SLOT; }
static IterCase iterGet(int k, u64 i){ IterCase c; c.k = k; c.var = 0; if(k < 3){ c.var = i % 3; i /= 3; } for(int p = 0; p < k; p++){ int s = i % SLOT; i /= SLOT; c.kind[p] = s / LENS; c.len[p] = s % LENS; } return c; }
static std::string iterSource(int k, u64 i)
{
	std::string s = fmt("long[%d] R;\nclass It{ int pos, end; } It It:start(){ It r; r.pos = pos; r.end = end; return r; } int It:hasnext(){ return pos < end; } int It:next(){ return pos++; }\nauto mk(int a, b, e){ return coroutine auto(){ for(int q = a; q < b; q++) yield q; return e; }; }\nint[] dyn(int a, n){ int[] r = new int[n]; for(int q = 0; q < n; q++) r[q] = a + q; return r; }\nclass H{ int a, n; int ref() g; }\n", kIterPer), run;
	for(u64 j = i * kIterPer; j < std::min(iterCount(k), (i + 1) * kIterPer); j++)
	{
		IterCase c = iterGet(k, j); int n = (int)(j - i * kIterPer); std::string loop, pre, post, sum;
		for(int p = 0; p < k; p++)
		{
			int a = p * 10 + 1, L = c.len[p], e = 90 + p; std::string x;
			switch(c.kind[p])
			{
			case IK_FUNC: s += fmt("coroutine int f%d_%d(){ for(int q = %d; q < %d; q++) yield q; return %d; }\n", n, p, a, a + L, e); x = fmt("f%d_%d", n, p); post += fmt("h = h * 100 + f%d_%d(); ", n, p); break;
			case IK_VAR: pre += fmt("auto v%d = mk(%d, %d, %d); ", p, a, a + L, e); x = fmt("v%d", p); post += fmt("h = h * 100 + v%d(); ", p); break;
			case IK_CALL: x = fmt("mk(%d, %d, %d)", a, a + L, e); break;
			case IK_ARRAY: pre += fmt("int[%d] v%d; for(int q = 0; q < %d; q++) v%d[q] = %d + q; ", L + 1, p, L + 1, p, a); x = fmt("v%d", p); break;	// L + 1 elements
			case IK_DYN: x = fmt("dyn(%d, %d)", a, L); break;
			case IK_CUSTOM: pre += fmt("It v%d; v%d.pos = %d; v%d.end = %d; ", p, p, a, p, a + L); x = fmt("v%d", p); break;
			case IK_MEMBER: pre += fmt("H v%d; v%d.g = mk(%d, %d, %d); ", p, p, a, a + L, e); x = fmt("v%d.g", p); post += fmt("h = h * 100 + v%d.g(); ", p); break;
			}
			loop += fmt("%s%sx%d in %s", p ? ", " : "", c.var == 1 && p == 0 && c.kind[p] != IK_CUSTOM ? "int " : "", p, x.c_str()); sum += fmt(" h = h * 100 + x%d;", p);
		}
		s += fmt("void go%d(){ long h = 1; int k = 0; ", n) + pre + "for(" + loop + "){" + (c.var == 1 ? " k++; if(k == 2) continue;" : "") + sum + (c.var == 2 ? " k++; if(k == 2) break;" : "") + " } h = h * 7; " + post + fmt("R[%d] = h; }\n", n);
		run += fmt("go%d();\n", n);
	}
	return s + run + "return 1;";
}
static long long iterRef(const IterCase &c, u64 *steps)
{
	u64 h = 1; int k = 0, cur[3]; bool reset[3]; int val[3];
	auto isCo = [&](int p){ int x = c.kind[p]; return x == IK_FUNC || x == IK_VAR || x == IK_CALL || x == IK_MEMBER; };
	auto call = [&](int p){ if(cur[p] < c.len[p]){ reset[p] = false; return p * 10 + 1 + cur[p]++; } cur[p] = 0; reset[p] = true; return 90 + p; };
	auto len = [&](int p){ return c.len[p] + (c.kind[p] == IK_ARRAY); };
	for(int p = 0; p < c.k; p++){ cur[p] = 0; if(isCo(p)) val[p] = call(p); }
	for(;;)
	{
		(*steps)++; bool end = false;
		for(int p = 0; p < c.k; p++) if(isCo(p) ? reset[p] : cur[p] >= len(p)) end = true;
		if(end) break;
		for(int p = 0; p < c.k; p++) if(!isCo(p)) val[p] = p * 10 + 1 + cur[p]++;
		bool skip = false; if(c.var == 1){ k++; skip = k == 2; }
		if(!skip) for(int p = 0; p < c.k; p++) h = h * 100 + val[p];
		if(c.var == 2){ k++; if(k == 2) break; }
		for(int p = 0; p < c.k; p++) if(isCo(p)) val[p] = call(p);
	}
	h = h * 7;
	for(int p = 0; p < c.k; p++) if(isCo(p) && c.kind[p] != IK_CALL) h = h * 100 + call(p);
	return (long long)h;
}
static void runIter(int k, u64 i, mc::Ctx &c)
{
	std::string src = iterSource(k, i); u64 steps = 0; std::vector<long long> want;
	for(u64 j = i * kIterPer; j < std::min(iterCount(k), (i + 1) * kIterPer); j++){ want.push_back(iterRef(iterGet(k, j), &steps)); c.state(mc::mix(mc::mix(j, k), want.back())); }
	c.step(steps);
	for(int ex = 0; ex < 2; ex++) for(int o = 0; o < 3; o++)
	{
		if(o == 1 && !c.thorough) continue;
		Outcome b = run(src, {ex, o}); if(!b.ran){ c.fail(fmt("%s: %s", cfgName({ex, o}), b.fullError.c_str())); return; }
		long long R[kIterPer]; memcpy(R, nullcGetGlobal("R"), sizeof(R)); c.exec(want.size());
		for(size_t j = 0; j < want.size(); j++) if(R[j] != want[j])
		{
			IterCase q = iterGet(k, i * kIterPer + j); std::string d; for(int p = 0; p < k; p++) d += fmt(" kind %d length %d,", q.kind[p], q.len[p]);
			c.fail(fmt("%s: for-each over%s variant %d: digest %lld, expected %lld", cfgName({ex, o}), d.c_str(), q.var, R[j], want[j]), "foreach" + d + fmt(" %d", q.var)); if(c.nfail > 3) return;
		}
	}
}

int main(int argc, char **argv)
{
	mc::Engine e("C09", argc, argv);
	e.technique = "bounded exhaustive enumeration of coroutine bodies x decision tapes x interleavings of instances against a reference interpreter";
	e.rule = "every control-flow tree with yields of up to n nodes as a local coroutine, two instances interleaved by schedules of six calls (all 64 up to 4 nodes), as a coroutine without a value that ends without a return, as a global coroutine called 40 times, iterated by for-each, and as a list comprehension; with collections between the calls up to 3 nodes; local variables of every pair of types in every scope; for-each over one to three iterators of seven kinds and lengths 0..3 with continue and break; pipelines of three generator stages";
	static TS sp[32]; int n = 0;
	auto begin0 = [](mc::Ctx&){ nc::fresh(); }; auto begin1 = [](mc::Ctx&){ nc::fresh(STD_ALL); };
	auto add = [&](const char *name, int nodes, bool all, bool gc, int kind)
	{
		TS *p = &sp[n++]; *p = {nodes, all, gc, countOf(nodes), kind};
		mc::Space s; s.name = strdup(fmt("%s-%d", name, nodes).c_str()); s.chunk = 4; s.caseTimeout = 100; if(gc) s.begin = begin1; else s.begin = begin0; s.count = (p->count + kPer - 1) / kPer;
		s.run = [p](u64 i, mc::Ctx &c){ runTrees(*p, i, c); }; s.describe = [p](u64 i){ return treesSource(*p, i); }; e.add(s);
	};
	bool T = e.thorough;
	for(int k = 1; k <= (T ? 6 : 5); k++) add("instances", k, k <= (T ? 5 : 4), false, 0);
	for(int k = 1; k <= (T ? 4 : 3); k++) add("instances-gc", k, k <= (T ? 3 : 2), true, 0);
	for(int k = 1; k <= (T ? 6 : 5); k++) add("void", k, k <= (T ? 4 : 3), false, 4);
	for(int k = 1; k <= (T ? 6 : 5); k++) add("global", k, false, false, 1);
	for(int k = 1; k <= (T ? 6 : 5); k++) add("foreach", k, false, false, 2);
	for(int k = 1; k <= (T ? 6 : 5); k++) add("comprehension", k, false, false, 3);
	mc::Space s; s.chunk = 1; s.caseTimeout = 60; s.begin = begin1;
	s.name = "locals"; s.count = localsCount(); s.run = runLocals; s.describe = localsSource; e.add(s);
	for(int k = 1; k <= 3; k++){ s.name = strdup(fmt("iterators-%d", k).c_str()); s.count = (iterCount(k) + kIterPer - 1) / kIterPer; s.chunk = 4; s.run = [k](u64 i, mc::Ctx &c){ runIter(k, i, c); }; s.describe = [k](u64 i){ return iterSource(k, i); }; s.begin = begin0; e.add(s); }
	s.begin = begin1; s.chunk = 1; s.name = "pipelines"; s.count = kStages * kStages * kStages; s.run = runPipe; s.describe = pipeSource; e.add(s);
	return e.finish();
}
