// C08: captured variables are shared while their scope is alive and kept by every closure afterwards
#include "lt.h"
#include <algorithm>
#include <deque>
#include <functional>
#include <map>
#include <memory>
using namespace nc; using mc::u64;

// ---- closure programs: trees of scopes, every scope has one variable
enum Kind { INC, WR, RD, NEST, TWO, LAST, FIRST, RET, REC, CONT, BRK, YIELD, BLOCK, FOR, FORC, WHILE, DO, DOC, EACH, SWITCH, IF, FN, FNP };
enum Mode { GLOBAL, LOCAL, GENERIC, MEMBER, CORO, NMODE };
static const char *kModeName[] = {"global", "local", "generic", "member", "coroutine"};
struct Stmt { Kind kind; int a, b; std::vector<Stmt> body; };
typedef std::vector<Stmt> Body;
struct Gram
{
	Mode mode; int maxD;
	std::vector<std::pair<Kind, std::pair<int, int>>> leafs(int d, const std::string &cx, bool fn) const
	{
		std::vector<std::pair<Kind, std::pair<int, int>>> r; auto add = [&](Kind k, int a, int b){ r.push_back({k, {a, b}}); };
		for(int v = 0; v < d; v++){ add(INC, v, 0); add(WR, v, 0); add(RD, v, 0); add(NEST, v, 0); for(int u = 0; u < v; u++) add(TWO, u, v); }
		add(LAST, 0, 0); add(FIRST, 0, 0);
		if(mode != CORO || fn) add(RET, 0, 0);
		if(mode == CORO && !fn) add(YIELD, 0, 0);
		if((mode == GLOBAL || mode == GENERIC) && !fn) add(REC, 0, 0);
		for(int k = 1; k <= (int)cx.size(); k++) add(BRK, k, 0);
		for(int k = 1; k <= (int)std::count(cx.begin(), cx.end(), 'L'); k++) add(CONT, k, 0);
		return r;
	}
	std::map<std::string, u64> *memo;
	// nested loops and switches around the statements of a compound statement
	static std::string inner(int k, const std::string &cx){ return k == FN || k == FNP ? "" : k == BLOCK || k == IF ? cx : cx + (k == SWITCH ? 'S' : 'L'); }
	u64 countSeq(int n, int d, const std::string &cx, bool fn) const
	{
		if(n == 0) return 1;
		std::string key = fmt("%d %d %d ", n, d, fn) + cx; auto it = memo->find(key); if(it != memo->end()) return it->second;
		u64 r = 0; for(int k = 1; k <= n; k++) r += countStmt(k, d, cx, fn) * countSeq(n - k, d, cx, fn);
		return (*memo)[key] = r;
	}
	u64 countStmt(int n, int d, const std::string &cx, bool fn) const
	{
		if(n == 1) return leafs(d, cx, fn).size();
		if(d >= maxD) return 0;
		u64 r = 0; for(int k = BLOCK; k <= FNP; k++) r += countSeq(n - 1, d + 1, inner(k, cx), fn || k >= FN);
		return r;
	}
	Body seq(int n, int d, const std::string &cx, bool fn, u64 i) const
	{
		Body r; if(!n) return r;
		for(int k = 1; k <= n; k++)
		{
			u64 a = countStmt(k, d, cx, fn), b = countSeq(n - k, d, cx, fn); if(i >= a * b){ i -= a * b; continue; }
			r = seq(n - k, d, cx, fn, i / a); r.insert(r.begin(), stmt(k, d, cx, fn, i % a)); return r;
		}
		abort();
	}
	Stmt stmt(int n, int d, const std::string &cx, bool fn, u64 i) const
	{
		Stmt s; s.a = s.b = 0;
		if(n == 1){ auto l = leafs(d, cx, fn)[i]; s.kind = l.first; s.a = l.second.first; s.b = l.second.second; return s; }
		for(int k = BLOCK; k <= FNP; k++)
		{
			std::string lp = inner(k, cx); u64 c = countSeq(n - 1, d + 1, lp, fn || k >= FN);
			if(i >= c){ i -= c; continue; }
			s.kind = (Kind)k; s.body = seq(n - 1, d + 1, lp, fn || k >= FN, i); return s;
		}
		abort();
	}
};
// ---- source text
struct Print
{
	Mode mode; int j, uid = 0;
	std::string var(int v) const { return mode == MEMBER && v == 0 ? "m" : fmt("v%d", v); }
	std::string body(const Body &b, int d, int loopId)
	{
		std::string r;
		for(auto &s : b)
		{
			std::string a = var(s.a), bb = var(s.b); int id = ++uid;
			switch(s.kind)
			{
			case INC: r += a + " += 5; "; break;
			case WR: r += "put(auto(){ " + a + " += 2; return " + a + "; }); "; break;
			case RD: r += fmt("int r%d(){ return ", id) + a + fmt("; } put(r%d); ", id); break;
			case NEST: r += "put(auto(){ " + a + " += 1; put(auto(){ " + a + " += 4; return " + a + "; }); return " + a + "; }); "; break;
			case TWO: r += "put(auto(){ " + a + " += " + bb + "; " + bb + " += 3; return " + a + " * 7 + " + bb + "; }); "; break;
			case LAST: r += "if(n) D(F[n - 1]()); "; break;
			case FIRST: r += "if(n) D(F[0]()); "; break;
			case RET: r += "if(act & 1) return 0; "; break;
			case REC: r += fmt("if(depth) p%d(act + 1, depth - 1); ", j); break;
			case CONT: r += fmt("if(it%d == 1) continue %d; ", loopId, s.a); break;
			case BRK: r += fmt("if(it%d == 1) break %d; ", loopId, s.a); break;
			case YIELD: r += "yield 1; "; break;
			case BLOCK: r += fmt("{ int v%d = init(); ", d) + body(s.body, d + 1, loopId) + "} "; break;
			case FOR: r += fmt("{ int it%d = 0; for(int v%d = init(); it%d < 2; v%d += 100){ it%d++; ", id, d, id, d, id) + body(s.body, d + 1, id) + "} } "; break;
			case FORC: r += fmt("{ int it%d = 0; for(int v%d = init(); keep(auto(){ v%d += 2; return v%d; }) && it%d < 2; v%d += 100){ it%d++; ", id, d, d, d, id, d, id) + body(s.body, d + 1, id) + "} } "; break;
			case DOC: r += fmt("{ int it%d = 0; do{ it%d++; int v%d = init(); ", id, id, d) + body(s.body, d + 1, id) + fmt("}while(keep(auto(){ v%d += 2; return v%d; }) && it%d < 2); } ", d, d, id); break;
			case WHILE: r += fmt("{ int it%d = 0; while(it%d++ < 2){ int v%d = init(); ", id, id, d) + body(s.body, d + 1, id) + "} } "; break;
			case DO: r += fmt("{ int it%d = 0; do{ it%d++; int v%d = init(); ", id, id, d) + body(s.body, d + 1, id) + fmt("}while(it%d < 2); } ", id); break;
			case EACH: r += fmt("{ int it%d = 0; int[] ar%d = new int[2]; ar%d[0] = init(); ar%d[1] = init(); for(v%d in ar%d){ it%d++; ", id, id, id, id, d, id, id) + body(s.body, d + 1, id) + "} } "; break;
			case SWITCH: r += fmt("{ int it%d = act & 1; switch(cur + 1){ case 0: C++; default: int v%d = init(); ", id, d) + body(s.body, d + 1, id) + "} } "; break;
			case IF: r += fmt("if(cur >= 0){ int v%d = init(); ", d) + body(s.body, d + 1, loopId) + "}else{ C++; } "; break;
			case FN: r += fmt("int f%d(){ int v%d = init(); ", id, d) + body(s.body, d + 1, -1) + fmt("return 0; } f%d(); ", id); break;
			case FNP: r += fmt("int f%d(int v%d){ ", id, d) + body(s.body, d + 1, -1) + fmt("return 0; } f%d(init()); f%d(init()); ", id, id); break;
			}
		}
		return r;
	}
};
static const char *kHead = "int[16] R; int K; int cur; int ref()[48] F; int n; int C;\nvoid D(int v){ R[cur] = R[cur] * 31 + v; }\nbool keep(int ref() f){ if(n < 40){ F[n] = f; n++; } return true; }\nvoid put(int ref() f){ if(n < 40){ F[n] = f; n++; } }\nint init(){ C += 1000; return C; }\n"
	"int junk(int d){ int[20] a; for(i in a) i = -1; return d ? junk(d - 1) + a[3] : 0; }\nvoid all(){ int e = n; for(int k = 0; k < e; k++) D(F[k]()); D(n); }\nvoid start(int k){ cur = k; n = 0; C = 0; }\n";
static const int kPer = 16;
static std::string programSource(Mode m, const Body &b, int j)
{
	Print p; p.mode = m; p.j = j; std::string t = p.body(b, 1, -1), r;
	switch(m)
	{
	case GLOBAL: r = fmt("int p%d(int act, int depth){ int v0 = init(); ", j) + t + "return 0; }\n"; break;
	case LOCAL: r = fmt("int p%d(int act0, int depth){ int sel = act0; int g(int act){ int v0 = init(); ", j) + t + "return 0; } g(sel); sel++; g(sel); return 0; }\n"; break;
	case GENERIC: r = fmt("int p%d(generic act, int depth){ int v0 = init(); ", j) + t + "return 0; }\n"; break;
	case MEMBER: r = fmt("class M%d{ int m; int go(int act){ ", j) + t + fmt("return 0; } }\nM%d[2] o%d;\nint p%d(int act, int depth){ o%d[act & 1].m = init(); return o%d[act & 1].go(act); }\n", j, j, j, j, j); break;
	case CORO: r = fmt("auto mk%d(int act){ coroutine int g(){ int v0 = init(); ", j) + t + fmt("return 0; } return g; }\nint p%d(int act, int depth){ auto a = mk%d(act), b = mk%d(act + 1); int[] s = {0, 1, 0, 0, 1, 1, 0, 1, 0, 1}; for(k in s){ D(k ? b() : a()); all(); } return 0; }\n", j, j, j); break;
	default: break;
	}
	return r + fmt("int q%d(){ start(%d); p%d(0, 1); junk(8); all(); p%d(1, 1); junk(8); all(); all(); return 0; }\n", j, j, j, j);
}
// ---- reference: cells and captured variables
struct Cell;
struct Up { int *target; int copy; };
struct Cell { int v; std::vector<Up*> open; };
struct Closure { Kind kind; Up *a, *b; Cell *ca, *cb; };
struct Model
{
	std::deque<Up> ups; std::deque<Cell> cells; std::vector<Closure> F; int C = 0; u64 steps = 0; unsigned R = 0; Mode mode; const Body *prog;
	int init(){ C += 1000; return C; }
	Cell *cell(int v){ cells.push_back({v, {}}); return &cells.back(); }
	Up *cap(Cell *c){ ups.push_back({&c->v, 0}); c->open.push_back(&ups.back()); return &ups.back(); }
	void close(Cell *c){ for(auto u : c->open){ u->copy = c->v; u->target = &u->copy; } c->open.clear(); }
	void D(int v){ R = R * 31 + (unsigned)v; steps++; }
	void put(Closure c){ if(F.size() < 40) F.push_back(c); }
	int call(size_t i)
	{
		Closure c = F[i]; int &a = *c.a->target; steps++;
		switch(c.kind)
		{
		case WR: a += 2; return a;
		case RD: return a;
		case NEST:
		{
			a += 1;
			// while the variable is alive, the inner closure is detached together with the others
			ups.push_back({c.a->target, 0}); Up *u = &ups.back(); if(c.a->target == &c.ca->v) c.ca->open.push_back(u);
			put({LAST, u, nullptr, c.ca, nullptr}); return a;
		}
		case LAST: a += 4; return a;
		case TWO: { int &b = *c.b->target; a = (int)((unsigned)a + (unsigned)b); b += 3; return (int)((unsigned)a * 7u + (unsigned)b); }
		default: abort();
		}
	}
	void all(){ size_t e = F.size(); for(size_t k = 0; k < e; k++) D(call(k)); D((int)F.size()); }
	// levels: remaining loops and switches to leave
	enum Flow { NORMAL, RETURN, CONTINUE, BREAK }; int levels = 0;
	struct Run { std::vector<Cell*> vars; int act, depth; std::vector<int> it; std::function<void()> yield; };
	Flow body(const Body &b, Run &r)
	{
		for(auto &s : b)
		{
			steps++;
			switch(s.kind)
			{
			case INC: r.vars[s.a]->v += 5; break;
			case WR: case RD: case NEST: put({s.kind, cap(r.vars[s.a]), nullptr, r.vars[s.a], nullptr}); break;
			case TWO: { Up *a = cap(r.vars[s.a]), *c = cap(r.vars[s.b]); put({TWO, a, c, r.vars[s.a], r.vars[s.b]}); break; }
			case LAST: if(!F.empty()) D(call(F.size() - 1)); break;
			case FIRST: if(!F.empty()) D(call(0)); break;
			case RET: if(r.act & 1) return RETURN; break;
			case REC: if(r.depth) root(r.act + 1, r.depth - 1); break;
			case CONT: if(r.it.back() == 1){ levels = s.a; return CONTINUE; } break;
			case BRK: if(r.it.back() == 1){ levels = s.a; return BREAK; } break;
			case YIELD: r.yield(); break;
			case BLOCK: case IF: { r.vars.push_back(cell(init())); Flow f = body(s.body, r); close(r.vars.back()); r.vars.pop_back(); if(f != NORMAL) return f; break; }
			case SWITCH:
			{
				r.it.push_back(r.act & 1); r.vars.push_back(cell(init())); Flow f = body(s.body, r); close(r.vars.back()); r.vars.pop_back(); r.it.pop_back();
				if(f == BREAK && --levels) return f;
				if(f == RETURN || f == CONTINUE) return f;
				break;
			}
			case FOR: case FORC: case WHILE: case DO: case DOC: case EACH:
			{
				Cell *c = nullptr, *arr[2] = {}; Flow out = NORMAL; r.it.push_back(0); if(s.kind == FOR || s.kind == FORC) c = cell(init());
				if(s.kind == FORC) put({WR, cap(c), nullptr, c, nullptr});
				if(s.kind == EACH) for(auto &x : arr) x = cell(init());
				for(r.it.back() = 0; r.it.back() < 2; )
				{
					r.it.back()++; if(s.kind == WHILE || s.kind == DO || s.kind == DOC) c = cell(init());
					if(s.kind == EACH) c = arr[r.it.back() - 1];
					r.vars.push_back(c); Flow f = body(s.body, r); if(s.kind != EACH) close(c); r.vars.pop_back(); // an element of an array is shared by its users
					if(f == RETURN){ out = f; break; }
					if(f == BREAK){ if(--levels) out = f; break; }
					if(f == CONTINUE && --levels){ out = f; break; }
					if(s.kind == FOR || s.kind == FORC) c->v += 100;
					if(s.kind == FORC){ put({WR, cap(c), nullptr, c, nullptr}); if(r.it.back() == 2) close(c); }
					if(s.kind == DOC){ put({WR, cap(c), nullptr, c, nullptr}); close(c); }
				}
				r.it.pop_back(); if(out != NORMAL) return out; break;
			}
			case FN: case FNP: for(int k = 0; k < (s.kind == FN ? 1 : 2); k++){ auto it = r.it; r.it.clear(); r.vars.push_back(cell(init())); body(s.body, r); close(r.vars.back()); r.vars.pop_back(); r.it = it; } break;
			}
		}
		return NORMAL;
	}
	void root(int act, int depth){ Run r; r.act = act; r.depth = depth; r.vars.push_back(cell(init())); body(*prog, r); close(r.vars[0]); }
	void go(int act);
};
// coroutines of the model run on their own stacks
#include <ucontext.h>
struct Fiber
{
	ucontext_t me, back; std::vector<char> stack; Model *m; int act; bool yielded = false; bool live = false;
	static void entry(unsigned lo, unsigned hi){ Fiber *f = (Fiber*)(((u64)hi << 32) | lo); Model::Run r; r.act = f->act; r.depth = 0; r.yield = [f]{ f->yielded = true; swapcontext(&f->me, &f->back); }; r.vars.push_back(f->m->cell(f->m->init())); f->m->body(*f->m->prog, r); f->m->close(r.vars[0]); f->yielded = false; f->live = false; swapcontext(&f->me, &f->back); }
	int step()
	{
		if(!live){ stack.resize(1 << 16); getcontext(&me); me.uc_stack.ss_sp = stack.data(); me.uc_stack.ss_size = stack.size(); me.uc_link = nullptr; makecontext(&me, (void(*)())entry, 2, (unsigned)(u64)this, (unsigned)((u64)this >> 32)); live = true; }
		swapcontext(&back, &me); return yielded ? 1 : 0;
	}
};
void Model::go(int act)
{
	switch(mode)
	{
	case GLOBAL: case GENERIC: root(act, 1); break;
	case LOCAL: root(act, 0); root(act + 1, 0); break;
	case MEMBER: { static Cell *obj[2]; if(act == 0) obj[0] = obj[1] = nullptr; if(!obj[act & 1]) obj[act & 1] = cell(0); obj[act & 1]->v = init(); Run r; r.act = act; r.depth = 0; r.vars.push_back(obj[act & 1]); body(*prog, r); break; }
	case CORO: { Fiber a, b; a.m = b.m = this; a.act = act; b.act = act + 1; for(int k : {0, 1, 0, 0, 1, 1, 0, 1, 0, 1}){ D(k ? b.step() : a.step()); all(); } break; }
	default: break;
	}
}
static unsigned reference(Mode m, const Body &b, u64 *steps){ Model M; M.mode = m; M.prog = &b; M.go(0); M.all(); M.go(1); M.all(); M.all(); *steps += M.steps; return M.R; }
struct PS { Mode mode; int nodes, maxD; Gram g; u64 count; };
static std::string treesSource(const PS &s, u64 i)
{
	std::string r = kHead, d; for(u64 k = i * kPer; k < std::min(s.count, (i + 1) * kPer); k++){ r += programSource(s.mode, s.g.seq(s.nodes, 1, "", false, k), (int)(k - i * kPer)); d += fmt("q%d(); ", (int)(k - i * kPer)); }
	return r + d + "return 1;";
}
static void runTrees(const PS &s, u64 i, mc::Ctx &c)
{
	std::string src = treesSource(s, i); std::vector<unsigned> want; u64 steps = 0;
	for(u64 k = i * kPer; k < std::min(s.count, (i + 1) * kPer); k++){ want.push_back(reference(s.mode, s.g.seq(s.nodes, 1, "", false, k), &steps)); c.state(mc::mix(mc::mix(s.mode, k), want.back())); }
	c.step(steps);
	for(int ex = 0; ex < 2; ex++) for(int o = 0; o < 3; o++)
	{
		if(o == 1 && !c.thorough) continue;
		if(!c.thorough && s.nodes >= 4 && ((i & 1) ? o == 0 : o == 2) == (ex == 0)) continue;
		if(!c.thorough && s.nodes >= 4 && s.mode == CORO && (int)((i >> 1) & 1) != ex) continue; // two of four configurations per case
		Outcome b = run(src, {ex, o});
		if(!b.ran){ c.fail(fmt("%s: %s", cfgName({ex, o}), b.fullError.c_str())); return; }
		unsigned R[kPer]; memcpy(R, nullcGetGlobal("R"), sizeof(R)); c.exec(want.size());
		for(size_t j = 0; j < want.size(); j++) if(R[j] != want[j]){ Body t = s.g.seq(s.nodes, 1, "", false, i * kPer + j); c.fail(fmt("%s: values seen through closures differ from the reference: ", cfgName({ex, o})) + programSource(s.mode, t, 0)); if(c.nfail > 4) return; }
	}
}

// ---- captured variables of every pair of types, every kind of scope, with collections
static std::string typesSource(u64 i)
{
	gUid = 0; const LT &A = kTypes[i % NT], &B = kTypes[i / NT]; std::string s = "import std.gc;\nint[512] R; int n;\nint dfn(int ref() f){ return f(); }\nint ref()[64] F; int nf;\nint junk(int d){ int[20] a; for(i in a) i = -1; return d ? junk(d - 1) + a[3] : 0; }\n";
	for(auto &t : kTypes) s += t.decl;
	auto isF = [](const LT &t){ return !strcmp(t.type, "int ref()"); }; // reading a closure advances it
	auto mut = [&](const LT &t, const char *v){ return isF(t) ? std::string() : sub(t.mut, v, ""); };
	auto digA = sub(A.dig, "a", ""), digB = sub(B.dig, "b", "");
	std::string clos = "F[nf++] = auto(){ int x = " + digA + "; int y = " + digB + "; return x * 1000 + y; }; F[nf++] = auto(){ " + mut(A, "a") + mut(B, "b") + " return 1; }; F[nf++] = auto(){ int x = " + digB + "; F[nf++] = auto(){ " + mut(A, "a") + " int y = " + digA + "; return y; }; return x; }; ";
	std::string init = fmt("%s a = %s; %s b = %s; ", A.type, sub(A.init, "a", "s").c_str(), B.type, sub(B.init, "b", "s + 2").c_str());
	std::string use = " R[n++] = F[nf - 3](); F[nf - 2](); R[n++] = F[nf - 3](); " + mut(A, "a") + " R[n++] = F[nf - 3](); ";
	s += "void k0(int s){ " + init + clos + use + "}\n";
	s += "void k1(int s0){ for(int s = s0; s < s0 + 2; s++){ " + init + clos + use + "} }\n";
	s += fmt("void k2(int s){ void inn(%s a, %s b){ ", A.type, B.type) + clos + use + fmt("} inn(%s, %s); }\n", sub(A.init, "a", "s").c_str(), sub(B.init, "b", "s + 2").c_str());
	s += "auto k3m(int s){ coroutine int g(){ " + init + clos + "yield 1; " + use + "return 0; } return g; } void k3(int s){ auto g = k3m(s); g(); GC.CollectMemory(); g(); }\n";
	s += fmt("void k4(int s){ %s a = %s; void inn(int q){ %s b = %s; ", A.type, sub(A.init, "a", "s").c_str(), B.type, sub(B.init, "b", "s + 2").c_str()) + clos + use + "} inn(1); " + mut(A, "a") + " }\n";
	s += "void after(){ GC.CollectMemory(); junk(10); int e = nf; for(int i = 0; i < e; i++){ R[n++] = F[i](); GC.CollectMemory(); } for(int i = e; i < nf; i++) R[n++] = F[i](); nf = 0; }\n";
	for(int k = 0; k < 5; k++) s += fmt("k%d(%d); after(); ", k, k + 2);
	return s + "return 1;";
}
static std::vector<int> typesRef(u64 i)
{
	bool fa = !strcmp(kTypes[i % NT].type, "int ref()"), fb = !strcmp(kTypes[i / NT].type, "int ref()"); 	auto isRef = [](const LT &t){ for(auto n : {"int ref", "auto ref", "P ref", "auto[]", "E", "int ref()"}) if(!strcmp(t.type, n)) return true; return false; };
	// values are copied when a closure is detached, references keep sharing their target
	struct Val { int v; std::shared_ptr<int> p; int &at(){ return p ? *p : v; } };
	struct Upv { Val *target, copy; };
	struct Var { Val val; std::vector<Upv*> open; };
	struct Clo { int kind; Upv *a, *b; Var *va; };
	std::deque<Upv> ups; std::deque<Var> vars; std::vector<Clo> F; std::vector<int> R;
	auto mk = [&](bool ref, int v){ vars.push_back(Var()); vars.back().val.v = v; if(ref) vars.back().val.p = std::make_shared<int>(v); return &vars.back(); };
	auto cap = [&](Var *v){ ups.push_back(Upv()); ups.back().target = &v->val; v->open.push_back(&ups.back()); return &ups.back(); };
	auto close = [&](Var *v){ for(auto u : v->open){ u->copy = v->val; u->target = &u->copy; } v->open.clear(); };
	auto dig = [&](Val &v, bool f){ return f ? v.at()++ : v.at(); };
	auto mut = [&](Val &v, bool f){ if(!f) v.at()++; };
	auto call = [&](size_t i)
	{
		Clo c = F[i];
		switch(c.kind)
		{
		case 0: { int x = dig(*c.a->target, fa), y = dig(*c.b->target, fb); return x * 1000 + y; }
		case 1: mut(*c.a->target, fa); mut(*c.b->target, fb); return 1;
		case 2: { int x = dig(*c.b->target, fb); ups.push_back(Upv()); Upv *u = &ups.back(); u->target = c.a->target; if(u->target == &c.va->val) c.va->open.push_back(u); F.push_back({3, u, nullptr, c.va}); return x; }
		default: mut(*c.a->target, fa); return dig(*c.a->target, fa);
		}
	};
	auto clos = [&](Var *a, Var *b){ Upv *x, *y; x = cap(a); y = cap(b); F.push_back({0, x, y, a}); x = cap(a); y = cap(b); F.push_back({1, x, y, a}); x = cap(a); y = cap(b); F.push_back({2, x, y, a}); };
	auto use = [&](Var *a){ size_t e = F.size(); R.push_back(call(e - 3)); call(e - 2); R.push_back(call(e - 3)); mut(a->val, fa); R.push_back(call(e - 3)); };
	bool ra = isRef(kTypes[i % NT]), rb = isRef(kTypes[i / NT]);
	for(int k = 0; k < 5; k++)
	{
		for(int s = k + 2; s < k + 2 + (k == 1 ? 2 : 1); s++){ Var *a = mk(ra, s), *b = mk(rb, s + 2); clos(a, b); use(a); if(k == 4){ close(b); mut(a->val, fa); } close(a); close(b); }
		size_t e = F.size(); for(size_t j = 0; j < e; j++) R.push_back(call(j));
		for(size_t j = e; j < F.size(); j++) R.push_back(call(j));
		F.clear();
	}
	return R;
}
static void runTypes(u64 i, mc::Ctx &c)
{
	std::string src = typesSource(i); std::vector<int> want = typesRef(i); c.step(want.size());
	for(int ex = 0; ex < 2; ex++) for(int o = 0; o < 3; o++)
	{
		Outcome b = run(src, {ex, o});
		if(!b.ran){ c.fail(fmt("%s: %s", cfgName({ex, o}), b.fullError.c_str())); return; }
		int *R = (int*)nullcGetGlobal("R"); c.exec(want.size());
		for(size_t j = 0; j < want.size(); j++){ c.state(mc::mix(i * 7, R[j])); if(R[j] != want[j]){ c.fail(fmt("%s: captured variables of type %s and %s: value %d is %d, expected %d", cfgName({ex, o}), kTypes[i % NT].type, kTypes[i / NT].type, (int)j, R[j], want[j]), fmt("types %s %s", kTypes[i % NT].type, kTypes[i / NT].type)); break; } }
	}
}
int main(int argc, char **argv)
{
	mc::Engine e("C08", argc, argv);
	e.technique = "bounded exhaustive enumeration of scope trees with closures against a reference model of shared and detached variables";
	e.rule = "every tree of up to n statements (assignments, writer, reader, nested and two-variable closures, calls of saved closures, early return, recursion, continue, break, yields; blocks, for and while loops, local functions with locals and parameters) as a global, local, generic and member function and as two interleaved coroutines; every closure is called again after the scopes ended and after another activation";
	static PS sp[64]; int n = 0; bool T = e.thorough;
	for(int m = 0; m < NMODE; m++) for(int k = 1; k <= (T ? 5 : m == GLOBAL ? 4 : m == CORO ? 4 : 3); k++)
	{
		PS *p = &sp[n++]; p->mode = (Mode)m; p->nodes = k; p->maxD = 3; p->g.mode = (Mode)m; p->g.maxD = 3; p->g.memo = new std::map<std::string, u64>; p->count = p->g.countSeq(k, 1, "", false);
		mc::Space s; s.name = strdup(fmt("%s-%d", kModeName[m], k).c_str()); s.count = (p->count + kPer - 1) / kPer; s.chunk = 8; s.caseTimeout = 60; s.begin = [](mc::Ctx&){ nc::fresh(); };
		s.run = [p](u64 i, mc::Ctx &c){ runTrees(*p, i, c); }; s.describe = [p](u64 i){ return treesSource(*p, i); }; e.add(s);
	}
	mc::Space s; s.name = "types"; s.count = NT * NT; s.chunk = 1; s.caseTimeout = 60; s.begin = [](mc::Ctx&){ nc::fresh(STD_ALL); }; s.run = runTypes; s.describe = typesSource; e.add(s);
	return e.finish();
}
