// C15: breakpoints and steps report the true execution and do not change it
#include "nc.h"
#include <map>
#include <set>
#include <sys/wait.h>
using namespace nc; using mc::u64;

struct Prog { const char *name, *src; int calls; };	// calls: number of sessions run through function 'entry' instead of the global code (0: global code)
// every t(v) call is on line v of the source
static const char *kMod = "int viaModule(int ref(int) f, int v)\r\n{\r\n\tint r = f(v);\r\n\treturn r + 1;\r\n}\r\nint inc(int v){ return v + 1; }\r\n";
static const Prog kProgs[] = {
{"straight", "import mc;\nint a = hide(3);\nint b = a * 5 + 1;\nt(4);\nb += a; t(5);\nlong c = b; c = c * a;\nt(7);\nreturn b + int(c);\n", 0},
{"loops", "import mc;\nint s = 0;\nfor(int i = 0; i < hide(3); i++)\n{\n\tif(i == 1){ t(5); continue; }\n\ts += i; t(6);\n}\nint w = hide(2);\nwhile(w--)\n\tt(10);\ndo{ s++; if(s > 4) break; t(11); }while(s < 6);\nreturn s;\n", 0},
{"spin", "import mc;\nint w = hide(3);\nwhile(w--);\nint ref p = &w;\nfor(*p = 0; *p < 3; *p += 1){}\nt(6); return w;\n", 0},
{"recursion", "import mc;\nint f(int n)\n{\n\tif(n < 2) return 1;\n\tint a = f(n - 1);\n\tint b = f(n - 2); t(6);\n\treturn a + b;\n}\nt(9);\nreturn f(hide(3));\n", 0},
{"closures", "import mc;\nint base = hide(10);\nauto mk(int k)\n{\n\tint c = k;\n\treturn auto(int x){ c += x; t(6); return c + base; };\n}\nauto f = mk(1); auto g = mk(2);\nint r = f(3);\nr += g(4) + f(5); t(10);\nint ref(int) h = g;\nreturn r + h(1);\n", 0},
{"coroutine", "import mc;\ncoroutine int gen(int n)\n{\n\tfor(int i = 0; i < n; i++)\n\t{ t(5);\n\t\tyield i * 10; }\n\treturn -1;\n}\nint s = 0;\nfor(int k = 0; k < 4; k++){ s += gen(2); t(10); }\nreturn s + gen(2);\n", 0},
{"members", "import mc;\nclass A extendable{ int x; int get(){ t(2); return x; } int twice(){ return get() + this.get(); } }\nclass B : A{ int get(){ t(3); return x * 2; } }\nA a; a.x = hide(3);\nB b; b.x = hide(4);\nA ref r = &b;\nauto ref q = &a;\nreturn a.twice() + r.get() + int(q.get());\n", 0},
{"generic", "import mc;\nauto app(generic f, int v){ t(2); return f(v); }\nint add(int v){ return v + 1; }\nauto pick(@T a, @T b, int w){ return w ? a : b; }\nint r = app(add, hide(3));\nr += app(<x>{ x * 2; }, 4); t(6);\nreturn r + pick(1, 2, hide(0)) + int(pick(1.5, 2.5, hide(1)));\n", 0},
{"callback", "import mc;\nimport mcd;\nint cb(int v){ t(3); return v + 1; }\nint outer(int v){ int r = hcb(cb, v); return r; }\nint a = hcb(cb, hide(1));\na += hcb2(outer, 2); t(6);\nreturn a;\n", 0},
{"callback error", "import mc;\nimport mcd;\nint[4] arr;\nint cb(int v){ t(4); return arr[hide(v)]; }\nint outer(int v){ int r = hcb(cb, v); t(5); return r; }\nint a = hcb(outer, hide(1)); t(6);\nreturn a + hcb2(outer, hide(4));\n", 0},
{"error", "import mc;\nint d(int a, int b)\n{\n\tt(4);\n\treturn a / b;\n}\nint s = 0;\nfor(int i = 2; i >= hide(0); i--)\n\ts += d(4, i);\nreturn s;\n", 0},
{"null", "import mc;\nclass N{ int v; N ref next; }\nint sum(N ref n){ return n.v + (n.next ? sum(n.next) : 0); }\nint last(N ref n){ return n.v + last(n.next); }\nN a, b; a.v = 1; b.v = 2; a.next = &b;\nt(6); int r = sum(&a);\nreturn r + last(&a);\n", 0},
{"host error", "import mc;\nint f(int v){ return hostfail(v); }\nint k(int n){ if(n) return k(n - 1) + 1; t(3); return f(7); }\nreturn k(hide(2));\n", 0},
{"switch", "import mc;\nint s = 0;\nfor(int i = 0; i < 4; i++)\n{\n\tswitch(hide(i))\n\t{\n\tcase 1:\n\t\ts += 1; t(8);\n\tcase 2:\n\t\ts += 2;\n\t\tbreak;\n\tdefault:\n\t\ts += 10;\n\t}\n}\nreturn hide(s) > 3 && hide(1) || hide(0) ? s : -s;\n", 0},
{"values", "import mc;\nclass P{ int x, y; double z; }\nP mk(int a){ P p; p.x = a; p.y = a * 2; p.z = a * 0.5; return p; }\nint[] list = { for(int i = 0; i < 3; i++) yield i * i; };\nP q = mk(hide(5));\nint s = 0;\nfor(i in list){ s += i; t(7); }\nchar[] str = \"ab\" + \"cd\";\nreturn s + q.x + q.y + int(q.z) + str.size;\n", 0},
{"module", "import mc;\nimport mcdmod;\nint f(int v){ t(3); return v * 2; }\nint r = viaModule(f, hide(3));\nr += inc(r);\nreturn r;\n", 0},
{"function", "import mc;\nint state = 5;\nint helper(int v){ t(3); return v * state; }\nint entry(int n)\n{\n\tint s = 0;\n\tfor(int i = 0; i < n; i++)\n\t\ts += helper(i);\n\treturn s;\n}\nreturn 1;\n", 1},
{"no code", "import mc;\nint entry(int n){ t(2); return n ? n : 1; }\n", 1},
};
const int NP = sizeof(kProgs) / sizeof(kProgs[0]);

// ---- execution log: positive: instruction; negative: markers of a host function
enum { HENTER = -1, HCALL = -2, HEXIT = -3 };
const int kMaxPc = 1024; static bool gT;
struct Ev { int pc, depth; size_t tr; };
static std::vector<Ev> gLog; static bool gMarkers, gLines; static std::string gLineError;
static void (*gOnHit)(unsigned pc) = nullptr;
static int h_cb(NULLCFuncPtr f, int v){ if(gMarkers){ gLog.push_back({HENTER, 0, 0}); gLog.push_back({HCALL, 0, 0}); } if(!nullcCallFunction(f, v)) return -1; int r = nullcGetResultInt(); if(gMarkers) gLog.push_back({HEXIT, 0, 0}); return r; }
static int h_cb2(NULLCFuncPtr f, int v)
{
	if(gMarkers) gLog.push_back({HENTER, 0, 0}); int r = 0;
	for(int k = 0; k < 2; k++){ if(gMarkers) gLog.push_back({HCALL, 0, 0}); if(!nullcCallFunction(f, v + k)) return -1; r += nullcGetResultInt(); }
	if(gMarkers) gLog.push_back({HEXIT, 0, 0}); return r;
}
static int lineOf(unsigned pc){ const char *loc = nullcDebugGetInstructionSourceLocation(pc); unsigned col = 0, mod = nullcDebugGetSourceLocationModuleIndex(loc); if(mod != ~0u) return -1; return nullcDebugGetSourceLocationLineAndColumn(loc, mod, col) + 1; }
static void h_t(int v){ t_i(v); if(gLines && !gLog.empty()){ int l = lineOf(gLog.back().pc); if(l != v) gLineError = fmt("the trace call of line %d runs after a break at instruction %d of line %d", v, gLog.back().pc, l); } }

struct Prepared { bool ok = false; std::string error; char *bytecode = nullptr; int codeSize = 0; bool fail = false; std::vector<Ev> T; std::string outcome; std::set<int> used; std::vector<int> targets; };
static std::map<int, Prepared> gPrep; static int gLinked = -1;

static void bindAll()
{
	fresh(STD_NONE); nullcBindModuleFunction("mc", (void(*)())h_t, "t", 0);
	if(!nullcLoadModuleBySource("mcd", "int hcb(int ref(int) f, int v); int hcb2(int ref(int) f, int v);") || !nullcBindModuleFunction("mcd", (void(*)())h_cb, "hcb", 0) || !nullcBindModuleFunction("mcd", (void(*)())h_cb2, "hcb2", 0)) _exit(3);
	if(!nullcLoadModuleBySource("mcdmod", kMod)) _exit(3);
	nullcSetExecutor(NULLC_REG_VM); gPrep.clear(); gLinked = -1;
}
static unsigned onBreak(void*, unsigned pc);
static std::string runOnce(const Prog &p)
{
	trace().clear();
	bool ok = p.calls ? nullcRunFunction("entry", 2) != 0 : nullcRun() != 0;
	std::string e = ok ? "OK " + resultText() : std::string("ERROR ") + nullcGetLastError();
	return e + " | " + trace();
}
// ---- debugger script of a session
struct Op { int hit = -1, op = 0, pc = 0; };	// at a hit: 0 none, 1 add, 2 add one-hit, 3 remove, 4 clear, 5 remove itself and add itself, 6 clear and add itself
static const char *kOps[] = {"nothing", "add", "add one-hit", "remove", "clear", "remove and add itself", "clear and add itself"};
struct Session { std::map<int, int> set; int answers[6] = {0, 0, 0, 0, 0, 0}; int rest = 0; Op op; };
static Session *gS; static std::vector<std::string> gHits; static int gHitNo; static bool gFull;
static int applyOp(int op, int pc, int self)
{
	switch(op)
	{
	case 1: return nullcDebugAddBreakpoint(pc) != 0;
	case 2: return nullcDebugAddOneHitBreakpoint(pc) != 0;
	case 3: return nullcDebugRemoveBreakpoint(pc) != 0;
	case 4: return nullcDebugClearBreakpoints() != 0;
	case 5: return (nullcDebugRemoveBreakpoint(self) != 0) * 2 + (nullcDebugAddBreakpoint(self) != 0);
	case 6: return (nullcDebugClearBreakpoints() != 0) * 2 + (nullcDebugAddBreakpoint(self) != 0);
	}
	return 0;
}
static int modelOp(std::map<int, int> &set, int op, int pc, int self)
{
	auto add = [&](int at, int k){ if(set.count(at)) return 0; set[at] = k; return 1; };
	switch(op)
	{
	case 1: return add(pc, 1);
	case 2: return add(pc, 2);
	case 3: return set.erase(pc) ? 1 : 0;
	case 4: set.clear(); return 1;
	case 5: { int r = set.erase(self) ? 2 : 0; return r + add(self, 1); }
	case 6: { set.clear(); return 2 + add(self, 1); }
	}
	return 0;
}
static unsigned onBreak(void*, unsigned pc)
{
	int depth = nullcDebugGetStackFrameCount();
	if(gFull){ gLog.push_back({(int)pc, depth, trace().size()}); return 0; }
	int h = gHitNo++; std::string e = fmt("%d@%d,%d", (int)pc, depth, (int)trace().size());
	if(gS->op.op && gS->op.hit == h) e += fmt("/%d", applyOp(gS->op.op, gS->op.pc, pc));
	if(h < 3000) gHits.push_back(e);
	return h < 6 ? gS->answers[h] : h > 3000 ? NULLC_BREAK_STOP : gS->rest;
}
// expected hits; stopped: trace length at the stop or -1
static std::vector<std::string> model(const Prepared &p, std::map<int, int> &set, const Session &s, int firstHit, int &stopAt, int &hits)
{
	std::vector<std::string> r; std::vector<int> R; stopAt = -1; int h = firstHit;
	for(size_t i = 0; i < p.T.size(); i++)
	{
		const Ev &e = p.T[i];
		if(e.pc == HENTER){ int q = (int)i; while(p.T[q].pc < 0) q--; R.push_back(p.T[q].pc + 1); continue; }
		if(e.pc == HEXIT){ R.pop_back(); continue; }
		if(e.pc < 0) continue;
		// frames
		const Ev *prev = i ? &p.T[i - 1] : nullptr;
		if(prev && prev->pc >= 0){ if(e.depth > prev->depth) R.push_back(prev->pc + 1); else if(e.depth < prev->depth) R.pop_back(); }
		auto it = set.find(e.pc); if(it == set.end()) continue;
		if(it->second == 2) set.erase(it);
		std::string t = fmt("%d@%d,%d", e.pc, e.depth, (int)e.tr);
		if(s.op.op && s.op.hit == h) t += fmt("/%d", modelOp(set, s.op.op, s.op.pc, e.pc));
		int a = h < 6 ? s.answers[h] : s.rest; h++; r.push_back(t);
		if(a == NULLC_BREAK_STOP){ stopAt = (int)e.tr; break; }
		if(!a) continue;
		int target = -1;
		if(a == NULLC_BREAK_STEP_OUT && !R.empty()) target = R.back();
		else if(i + 1 < p.T.size())
		{
			const Ev &n = p.T[i + 1];
			if(n.pc == HENTER) target = e.pc + 1;
			else if(n.pc < 0) target = R.back();	// return to the host function
			else if(n.depth > e.depth) target = a == NULLC_BREAK_STEP_INTO ? n.pc : e.pc + 1;
			else target = n.pc;
		}
		if(target >= 0 && !set.count(target)) set[target] = 2;
	}
	hits = h;
	return r;
}
static int gMaxRuns = 2;
static Prepared &prep(int pi, int opt, mc::Ctx &c)
{
	int key = pi * 4 + opt; Prepared &p = gPrep[key];
	if(!p.bytecode && p.error.empty())
	{
		nullcSetOptimizationLevel(opt); gLinked = -1;
		static std::vector<std::string> keep; keep.push_back(kProgs[pi].src);
		if(!nullcCompile(keep.back().c_str())){ p.error = nullcGetLastError(); return p; }
		nullcGetBytecode(&p.bytecode);
	}
	if(!p.error.empty()) return p;
	if(gLinked != key){ nullcClean(); if(!nullcLinkCode(p.bytecode)){ p.error = nullcGetLastError(); return p; } gLinked = key; nullcDebugSetBreakFunction(nullptr, onBreak); if(kProgs[pi].calls) nullcRun(); }
	if(p.ok) return p;
	// undisturbed run, then the full instruction trace
	p.outcome = runOnce(kProgs[pi]); if(runOnce(kProgs[pi]) != p.outcome){ p.error = "the program is not repeatable"; return p; }
	nullcDebugClearBreakpoints(); p.codeSize = 0; while(nullcDebugAddBreakpoint(p.codeSize)) p.codeSize++;
	gLog.clear(); gFull = gMarkers = gLines = true; gLineError.clear(); std::string o = runOnce(kProgs[pi]); gFull = gMarkers = gLines = false; c.exec(3); nullcDebugClearBreakpoints();
	if(o != p.outcome){ p.error = "with a breakpoint at every instruction: " + o + " instead of " + p.outcome; return p; }
	if(!gLineError.empty()){ p.error = gLineError; return p; }
	p.T = gLog; p.fail = p.outcome[0] == 'E';
	// the trace has to be a valid execution: calls return to the next instruction, frames match the reported depth
	std::vector<int> R;
	for(size_t i = 0; i < p.T.size(); i++)
	{
		const Ev &e = p.T[i]; const Ev *prev = i ? &p.T[i - 1] : nullptr;
		if(e.pc == HENTER){ R.push_back(prev->pc + 1); continue; } if(e.pc == HEXIT){ if(i + 1 < p.T.size() && p.T[i + 1].pc != R.back()) p.error = fmt("execution continues at %d after a host call at %d", p.T[i + 1].pc, R.back() - 1); R.pop_back(); continue; } if(e.pc < 0) continue;
		p.used.insert(e.pc);
		if(prev && prev->pc >= 0){ if(e.depth == prev->depth + 1) R.push_back(prev->pc + 1); else if(e.depth == prev->depth - 1 && !R.empty()){ if(R.back() != e.pc) p.error = fmt("return to %d from a call at %d", e.pc, R.back() - 1); R.pop_back(); } else if(e.depth != prev->depth) p.error = fmt("depth changes from %d to %d", prev->depth, e.depth); }
		if(e.depth != (int)R.size() + 1) p.error = fmt("instruction %d reports %d frames, the calls made have %d", e.pc, e.depth, (int)R.size() + 1);
	}
	if(p.codeSize > kMaxPc) p.error = "too many instructions";
	for(int q = 0, un = 0; q < p.codeSize; q++) if(p.used.count(q) || un++ % 40 == 0) p.targets.push_back(q);
	p.ok = p.error.empty();
	return p;
}
static std::string showS(const Session &s){ std::string r = "breakpoints"; for(auto &k : s.set) r += fmt(" %d%s", k.first, k.second == 2 ? "(one-hit)" : ""); r += ", answers"; for(int i = 0; i < 6; i++) r += fmt(" %d", s.answers[i]); r += fmt(" then %d", s.rest); if(s.op.op) r += fmt(", at hit %d: %s %d", s.op.hit, kOps[s.op.op], s.op.pc); return r; }
static std::string join(const std::vector<std::string> &v){ std::string r; for(size_t i = 0; i < v.size() && i < 60; i++) r += v[i] + " "; return r; }
static bool session(mc::Ctx &c, int pi, int opt, Prepared &p, Session &s)
{
	if(c.nfail > 3) return false;
	nullcDebugClearBreakpoints(); for(auto &k : s.set) if(!(k.second == 2 ? nullcDebugAddOneHitBreakpoint(k.first) : nullcDebugAddBreakpoint(k.first))){ c.fail(fmt("%s O%d: breakpoint at %d is refused: %s", kProgs[pi].name, opt, k.first, nullcGetLastError()), ""); return false; }
	std::map<int, int> set = s.set; gS = &s; gHitNo = 0; int h = 0;
	for(int run = 0; run < gMaxRuns; run++)	// the second run starts with the breakpoints left by the first one
	{
		int stop; std::vector<std::string> want = model(p, set, s, h, stop, h); std::string wo = p.outcome;
		gHits.clear(); std::string got = runOnce(kProgs[pi]); c.exec(); c.step(want.size());
		bool bad = false;
		if(stop >= 0){ size_t bar = wo.find(" | "); std::string tr = wo.substr(bar + 3, stop); bad = got.find("ERROR ERROR: execution was stopped after breakpoint") != 0 || got.substr(got.rfind(" | ") + 3) != tr; wo = "stop with trace '" + tr + "'"; }
		else bad = got != wo;
		if(bad || gHits != want){ c.fail(fmt("%s O%d, %s, run %d:\n expected %s\n   hits %s\n observed %s\n   hits %s", kProgs[pi].name, opt, showS(s).c_str(), run + 1, wo.c_str(), join(want).c_str(), got.c_str(), join(gHits).c_str()), ""); nullcDebugClearBreakpoints(); return false; }
		if(p.fail || stop >= 0) break;
	}
	c.state(mc::hashStr(fmt("%d %d ", pi, opt) + join(gHits)));
	return true;
}
static bool getPrep(mc::Ctx &c, int pi, int opt, Prepared *&p){ p = &prep(pi, opt, c); if(!p->ok){ c.fail(fmt("%s O%d: %s", kProgs[pi].name, opt, p->error.c_str()), ""); return false; } return true; }

static const int kOpts[2] = {0, 2};
// space sessions: index = (program, optimization, instruction)
static void runSessions(u64 i, mc::Ctx &c)
{
	int pc = i % kMaxPc; i /= kMaxPc; int opt = kOpts[i % 2], pi = (int)(i / 2); Prepared *p; if(!getPrep(c, pi, opt, p)) return; if(pc >= p->codeSize){ c.skip(); return; }
	bool used = p->used.count(pc) != 0; int L = !used ? 0 : gT ? 5 : 3, n = 1; for(int k = 0; k < L; k++) n *= 4;
	for(int kind = 1; kind <= 2; kind++)
	{
		for(int a = 0; a < n; a++){ Session s; s.set[pc] = kind; int x = a; for(int k = 0; k < L; k++, x /= 4) s.answers[k] = x % 4; if(!session(c, pi, opt, *p, s)) return; }
		if(!used) continue;
		// stop requests and steps without an end
		for(int k = 0; k < 4; k++) for(int b = 0; b < 4; b++){ Session s; s.set[pc] = kind; for(int q = 0; q < k; q++) s.answers[q] = b; s.answers[k] = NULLC_BREAK_STOP; if(!session(c, pi, opt, *p, s)) return; }
		for(int b = 1; b < 4; b++){ Session s; s.set[pc] = kind; s.rest = b; for(int q = 0; q < 6; q++) s.answers[q] = b; if(!session(c, pi, opt, *p, s)) return; }
	}
}
// space pairs: index = (program, optimization, instruction)
static void runPairs(u64 i, mc::Ctx &c)
{
	int pc = i % kMaxPc; i /= kMaxPc; int opt = kOpts[i % 2], pi = (int)(i / 2); Prepared *p; if(!getPrep(c, pi, opt, p)) return; if(pc >= p->codeSize || !p->used.count(pc)){ c.skip(); return; }
	for(int q : p->targets) if(q != pc && (q < pc || !p->used.count(q) || gT)) for(int k = 0; k < 4; k++) for(int b = 0; b < (gT ? 4 : 2); b++)
	{
		Session s; s.set[pc] = 1 + k % 2; s.set[q] = 1 + k / 2; s.answers[0] = b ? b : 0; s.answers[1] = b == 1 ? NULLC_BREAK_STEP_OUT : 0; if(!session(c, pi, opt, *p, s)) return;
	}
}
// space edits: the break function changes the breakpoints
static void runEdits(u64 i, mc::Ctx &c)
{
	int pc = i % kMaxPc; i /= kMaxPc; int opt = kOpts[i % 2], pi = (int)(i / 2); Prepared *p; if(!getPrep(c, pi, opt, p)) return; if(pc >= p->codeSize || !p->used.count(pc)){ c.skip(); return; }
	if(!gT && p->used.size() > 60){ c.skip(); return; }
	for(int kind = 1; kind <= 2; kind++) for(int hit = 0; hit < (gT ? 3 : 2); hit++) for(int op = 1; op <= 6; op++) for(size_t qi = 0; qi < (op < 4 ? p->targets.size() : 1); qi++) for(int a = 0; a < 4; a++)
	{
		int q = p->targets[qi];
		if(op == 3 && q != pc && a == 0) continue;
		Session s; s.set[pc] = kind; s.op.hit = hit; s.op.op = op; s.op.pc = q; s.answers[hit] = a; if(hit){ s.answers[0] = NULLC_BREAK_STEP_INTO; } if(!session(c, pi, opt, *p, s)) return;
	}
}
// space all: breakpoints everywhere, every constant answer, edits in the middle
static void runAll(u64 i, mc::Ctx &c)
{
	int opt = kOpts[i % 2], pi = (int)(i / 2); Prepared *p; if(!getPrep(c, pi, opt, p)) return;
	for(int kind = 1; kind <= 2; kind++) for(int b = 0; b < 4; b++)
	{
		Session s; for(int q = 0; q < p->codeSize; q++) s.set[q] = kind; s.rest = b; for(int k = 0; k < 6; k++) s.answers[k] = b;
		if(!session(c, pi, opt, *p, s)) return;
		for(int hit = 0; hit < 12; hit++) for(int op = 3; op <= 6; op++) for(size_t qi = 0; qi < (op == 3 ? p->targets.size() : 1); qi++){ int q = p->targets[qi]; Session s2 = s; s2.op.hit = hit; s2.op.op = op; s2.op.pc = q; if(!session(c, pi, opt, *p, s2)) return; }
	}
}
// space limits: refused requests
static void runLimits(u64 i, mc::Ctx &c)
{
	int opt = kOpts[i % 2], pi = (int)(i / 2); Prepared *p; if(!getPrep(c, pi, opt, p)) return;
	auto expect = [&](const char *what, bool got, bool want){ c.exec(); if(got != want) c.fail(fmt("%s O%d: %s: %d", kProgs[pi].name, opt, what, (int)got), ""); };
	nullcDebugClearBreakpoints();
	for(unsigned pc : {(unsigned)p->codeSize, (unsigned)p->codeSize + 1, (unsigned)p->codeSize + 100, 0x7fffffffu, ~0u}){ expect("breakpoint behind the code", nullcDebugAddBreakpoint(pc) != 0, false); expect("one-hit breakpoint behind the code", nullcDebugAddOneHitBreakpoint(pc) != 0, false); expect("removal behind the code", nullcDebugRemoveBreakpoint(pc) != 0, false); }
	for(int pc = 0; pc < p->codeSize; pc++)
	{
		expect("removal without a breakpoint", nullcDebugRemoveBreakpoint(pc) != 0, false);
		for(int k = 0; k < 4; k++){ expect("breakpoint", (k & 1 ? nullcDebugAddOneHitBreakpoint(pc) : nullcDebugAddBreakpoint(pc)) != 0, true); expect("second breakpoint", (k & 2 ? nullcDebugAddOneHitBreakpoint(pc) : nullcDebugAddBreakpoint(pc)) != 0, false); expect("removal", nullcDebugRemoveBreakpoint(pc) != 0, true); expect("second removal", nullcDebugRemoveBreakpoint(pc) != 0, false); }
		// removed and cleared breakpoints never hit, a breakpoint survives an additional link, and is gone after nullcClean
		nullcDebugAddBreakpoint(pc); nullcDebugAddOneHitBreakpoint(p->codeSize - 1 - pc); nullcDebugRemoveBreakpoint(pc); nullcDebugClearBreakpoints(); gHits.clear(); gHitNo = 0; Session s; gS = &s; std::string o = runOnce(kProgs[pi]); c.exec(); if(o != p->outcome || !gHits.empty()) c.fail(fmt("%s O%d: removed breakpoint at %d: %s, hits %s", kProgs[pi].name, opt, pc, o.c_str(), join(gHits).c_str()), "");
		nullcDebugAddBreakpoint(pc); nullcDebugSetBreakFunction(nullptr, nullptr); o = runOnce(kProgs[pi]); nullcDebugSetBreakFunction(nullptr, onBreak); c.exec(); bool hit = p->used.count(pc); if(hit ? o.find("ERROR: break function isn't set") == std::string::npos : o != p->outcome) c.fail(fmt("%s O%d: breakpoint at %d without a break function: %s", kProgs[pi].name, opt, pc, o.c_str()), "");
		nullcDebugClearBreakpoints();
		if(pc % 4 == 0 || gT){ nullcDebugAddBreakpoint(pc); nullcClean(); gLinked = -1; if(!getPrep(c, pi, opt, p)) return; gHits.clear(); gHitNo = 0; o = runOnce(kProgs[pi]); c.exec(); if(o != p->outcome || !gHits.empty()) c.fail(fmt("%s O%d: breakpoint at %d before nullcClean: %s, hits %s", kProgs[pi].name, opt, pc, o.c_str(), join(gHits).c_str()), ""); }
		if(c.nfail > 3) return;
	}
}
// space jit: breakpoints with the JIT, in a process of their own
static void runJit(u64 i, mc::Ctx &c)
{
	int pi = (int)i; if(kProgs[pi].calls){ c.skip(); return; } fflush(stdout); int fd[2]; if(pipe(fd)) return; pid_t pid = fork();
	if(!pid)
	{
		close(fd[0]); signal(SIGTRAP, SIG_DFL); fresh(STD_NONE); bindAll(); nullcSetExecutor(NULLC_X86); nullcSetOptimizationLevel(2); std::string r;
		if(!nullcBuild(kProgs[pi].src)) r = "build"; else { std::string a = runOnce(kProgs[pi]); Session s; gS = &s; gHitNo = 0; gHits.clear(); nullcDebugSetBreakFunction(nullptr, onBreak); unsigned n = 0; nullcDebugAddBreakpoint(0); while(n < 20) nullcDebugAddBreakpoint(n++); std::string b = runOnce(kProgs[pi]); r = a != b ? "outcome changed: " + b : gHits.empty() ? "no hits" : "same"; nullcDebugClearBreakpoints(); b = runOnce(kProgs[pi]); if(a != b) r = "outcome after clear: " + b; }
		if(write(fd[1], r.data(), r.size()) < 0){} _exit(0);
	}
	close(fd[1]); char b[512]; int n = (int)read(fd[0], b, sizeof b - 1), st; b[n > 0 ? n : 0] = 0; close(fd[0]); waitpid(pid, &st, 0); c.exec(); c.state(i);
	if(!WIFEXITED(st)) c.fail(fmt("%s: a breakpoint with the JIT kills the process (signal %d)", kProgs[pi].name, WTERMSIG(st)), fmt("jit breakpoint %s", WTERMSIG(st) == SIGTRAP ? "SIGTRAP" : "crash"));
	else if(strcmp(b, "same")) c.fail(fmt("%s: breakpoints with the JIT: %s", kProgs[pi].name, b), "jit breakpoint result");
}
int main(int argc, char **argv)
{
	mc::Engine e("C15", argc, argv); bool T = gT = e.thorough;
	e.technique = "exhaustive enumeration of debugger sessions (breakpoint sets, answers and edits made by the break function) against a model driven by the full instruction trace";
	e.rule = "for each program and optimization level: every breakpoint of both kinds with every answer sequence of 3 (thorough 5) hits, every stop point, unending steps, every pair of breakpoints, every edit of the breakpoints at the first 2 (thorough 3) hits, breakpoints at every instruction; two runs per session; register VM";
	auto add = [&](const char *name, u64 count, u64 chunk, std::function<void(u64, mc::Ctx&)> run, bool bind){ mc::Space s; s.name = name; s.count = count; s.chunk = chunk; s.caseTimeout = 120; s.begin = [=](mc::Ctx&){ if(bind) bindAll(); }; s.run = run; s.describe = [=](u64 i){ u64 pi = count == (u64)NP ? i : count == (u64)NP * 2 ? i / 2 : i / kMaxPc / 2; return fmt("program %s", kProgs[pi].name) + "\n" + kProgs[pi].src; }; e.add(s); };
	add("sessions", (u64)NP * 2 * kMaxPc, 64, runSessions, true);
	add("pairs", (u64)NP * 2 * kMaxPc, 64, runPairs, true);
	add("edits", (u64)NP * 2 * kMaxPc, 64, runEdits, true);
	add("all", (u64)NP * 2, 1, runAll, true);
	add("limits", (u64)NP * 2, 1, runLimits, true);
	add("jit", (u64)NP, 1, runJit, false);
	(void)T;
	return e.finish();
}
