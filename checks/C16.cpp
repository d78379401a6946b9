// C16: statements and expressions are executed in the defined order
#include "ctrl.h"
using namespace nc; using namespace ctrl;

static const int kPer = 24;
struct TreeSpace { int n; Mode mode; u64 count; int tapes; };
static u64 treeCount(int n, bool locals){ Grammar g(false, true, locals); return g.count(n, 0, 0); }
static std::string treesSource(const TreeSpace &s, u64 i, bool locals)
{
	Grammar g(false, true, locals); Printer p = {s.mode, false}; std::string r = s.mode == HOST ? "import mc;\n" : "";
	for(u64 k = i * kPer; k < std::min(s.count, (i + 1) * kPer); k++) r += p.function(g.tree(s.n, k), (int)(k - i * kPer));
	return r + "return 1;";
}
static void runTrees(const TreeSpace &s, u64 i, bool locals, mc::Ctx &c)
{
	std::string src = treesSource(s, i, locals);
	Grammar g(false, true, locals);
	u64 from = i * kPer, to = std::min(s.count, (i + 1) * kPer);
	std::vector<Ref> refs;
	for(u64 k = from; k < to; k++) for(int t = 0; t < s.tapes; t++){ Ref r; r.mode = s.mode; r.tape = t << 1; r.go(g.tree(s.n, k)); c.step(r.steps); c.state(mc::mix(mc::hashStr(r.tr), r.result)); refs.push_back(r); }
	for(int ex = 0; ex < 2; ex++) for(int o = 0; o < 3; o++)
	{
		if(o == 1 && !c.thorough) continue;
		Outcome b = run(src, {ex, o});
		if(!b.ran){ c.fail(fmt("%s: %s", cfgName({ex, o}), b.built ? b.fullError.c_str() : (b.error + b.fullError).c_str())); return; }
		size_t ri = 0;
		for(u64 k = from; k < to; k++)
		{
			std::string nm = fmt("f%d", (int)(k - from));
			for(int t = 0; t < s.tapes; t++)
			{
				Ref &r = refs[ri++];
				trace().clear();
				bool ok = nullcRunFunction(nm.c_str(), t << 1) != 0;
				std::string got = ok ? fmt("%lld", s.mode == LOCAL ? nullcGetResultLong() : (long long)nullcGetResultInt()) : nullcGetLastError();
				if(got != fmt("%lld", r.result) || trace() != r.tr)
				{
					Grammar g2(false, true, locals); Printer p = {s.mode, false}; std::string f = p.function(g2.tree(s.n, k), 0);
					c.fail(fmt("%s tape %d: result %s, expected %lld; executed %s, expected %s in\n", cfgName({ex, o}), t << 1, got.c_str(), r.result, trace().c_str(), r.tr.c_str()) + f, f + fmt(" tape %d", t));
					return;
				}
				c.exec();
			}
		}
	}
}

// ---- expression evaluation order. Reference computes the trace and value.
// leaves are te(id, v); operators chosen from a list; trees with up to 3 operator nodes
enum { E_ADD, E_AND, E_OR, E_COND, E_CALL2, E_CALL3, E_INDEX, E_ASSIGN, E_COMPOUND, E_MEMBER, E_NOT, E_LESS, E_ARRLIT, E_PTR, E_LAMBDA, E_NAMED, E_DEFAULT, E_VARIADIC, E_GENERIC, E_CAST, E_OPS };
static const int eArity[] = {2, 2, 2, 3, 2, 3, 1, 2, 2, 2, 1, 2, 3, 2, 2, 2, 1, 2, 2, 1};
struct EN { int op, id, val; EN *k[3]; };
struct ETree
{
	std::vector<EN> pool; int next; u64 bits;
	EN *leaf(){ pool.push_back({-1, next, (int)(bits & 1), {0, 0, 0}}); bits >>= 1; next++; return &pool.back(); }
	ETree(){ pool.reserve(64); next = 1; }
};
static const char *kExprHead = "import mc;\nint[4] A; class P{ int x; int m(int a, int b){ return a + b * 2 + x; } } P O; int c2(int a, int b){ return a + b * 2; } int c3(int a, int b, int c){ return a + b * 2 + c * 4; } int cd(int a, int b = te(90, 1), int c = te(91, 0)){ return a + b + c; } int va(int a, auto ref[] r){ return a + r.size; } auto ge(generic a, generic b){ return a + b * 2; } int[] alit(int a, int b, int c){ return {a, b, c}; } int idx(int i){ return i & 3; } int ref aref(int i, int j){ return &A[(i + j) & 3]; } P ref self(int v){ te(80, v); return &O; } class W{ int v; } W W(int v){ W w; w.v = v; return w; } W operator+(W a, b){ te(81, 0); return W(a.v + b.v); }\n";
static std::string etext(EN *n)
{
	if(n->op < 0) return fmt("te(%d, %d)", n->id, n->val);
	std::string a = etext(n->k[0]), b = n->k[1] ? etext(n->k[1]) : "", c = n->k[2] ? etext(n->k[2]) : "";
	switch(n->op)
	{
	case E_ADD: return "(" + a + " + " + b + ")"; case E_AND: return "(" + a + " && " + b + ")"; case E_OR: return "(" + a + " || " + b + ")";
	case E_COND: return "(" + a + " ? " + b + " : " + c + ")"; case E_CALL2: return "c2(" + a + ", " + b + ")"; case E_CALL3: return "c3(" + a + ", " + b + ", " + c + ")";
	case E_INDEX: return "A[idx(" + a + ")]"; case E_ASSIGN: return "(A[idx(" + a + ")] = " + b + ")"; case E_COMPOUND: return "(A[idx(" + a + ")] += " + b + ")";
	case E_MEMBER: return "self(0).m(" + a + ", " + b + ")"; case E_NOT: return "!" + a; case E_LESS: return "(" + a + " < " + b + ")";
	case E_ARRLIT: return "alit(" + a + ", " + b + ", " + c + ")[1]"; case E_PTR: return "*aref(" + a + ", " + b + ")"; case E_LAMBDA: return "(auto(int a, int b){ te(82, a); return a + b * 2; })(" + a + ", " + b + ")";
	case E_NAMED: return "c2(b: " + b + ", a: " + a + ")"; case E_DEFAULT: return "cd(" + a + ")"; case E_VARIADIC: return "va(" + a + ", " + b + ")"; case E_GENERIC: return "ge(" + a + ", " + b + ")"; case E_CAST: return "int(long(" + a + "))";
	}
	return "0";
}
struct ERef
{
	std::string tr; int A[4] = {1, 1, 0, 1}; int x = 3;
	int te(int id, int v){ tr += fmt("#%d ", id); return v; }
	int ev(EN *n)
	{
		if(n->op < 0) return te(n->id, n->val);
		int a, b, c;
		switch(n->op)
		{
		case E_ADD: a = ev(n->k[0]); b = ev(n->k[1]); return a + b;
		case E_AND: return ev(n->k[0]) ? ev(n->k[1]) != 0 : 0; case E_OR: return ev(n->k[0]) ? 1 : ev(n->k[1]) != 0;
		case E_COND: return ev(n->k[0]) ? ev(n->k[1]) : ev(n->k[2]);
		case E_CALL2: case E_GENERIC: a = ev(n->k[0]); b = ev(n->k[1]); return a + b * 2;
		case E_CALL3: a = ev(n->k[0]); b = ev(n->k[1]); c = ev(n->k[2]); return a + b * 2 + c * 4;
		case E_INDEX: a = ev(n->k[0]); return A[a & 3];
		case E_ASSIGN: a = ev(n->k[0]); b = ev(n->k[1]); return A[a & 3] = b;
		case E_COMPOUND: a = ev(n->k[0]); c = A[a & 3]; b = ev(n->k[1]); return A[a & 3] = c + b; // left operand is read first
		case E_MEMBER: te(80, 0); a = ev(n->k[0]); b = ev(n->k[1]); return a + b * 2 + x;
		case E_NOT: return !ev(n->k[0]); case E_LESS: a = ev(n->k[0]); b = ev(n->k[1]); return a < b;
		case E_ARRLIT: a = ev(n->k[0]); b = ev(n->k[1]); c = ev(n->k[2]); return b;
		case E_PTR: a = ev(n->k[0]); b = ev(n->k[1]); return A[(a + b) & 3];
		case E_LAMBDA: a = ev(n->k[0]); b = ev(n->k[1]); te(82, a); return a + b * 2;
		case E_NAMED: a = ev(n->k[0]); b = ev(n->k[1]); return a + b * 2;
		case E_DEFAULT: a = ev(n->k[0]); b = te(90, 1); c = te(91, 0); return a + b + c;
		case E_VARIADIC: a = ev(n->k[0]); b = ev(n->k[1]); return a + 1;
		case E_CAST: return ev(n->k[0]);
		}
		return 0;
	}
};
// shape: root op, for each child: leaf or op (whose children are leaves); third level for one child in thorough
static u64 exprCount(){ return (u64)E_OPS * (E_OPS + 1) * (E_OPS + 1) * 4; }
static EN *exprMake(ETree &t, u64 i)
{
	int op = i % E_OPS; i /= E_OPS; int c0 = i % (E_OPS + 1); i /= E_OPS + 1; int c1 = i % (E_OPS + 1); i /= E_OPS + 1;
	static const u64 pats[] = {0, ~0ull, 0x5555555555555555ull, 0x3333333333333333ull};
	t.bits = pats[i & 3];
	if((eArity[op] < 2) && c1) return nullptr;
	auto sub = [&](int k) -> EN* { if(!k) return t.leaf(); t.pool.push_back({k - 1, 0, 0, {0, 0, 0}}); EN *r = &t.pool.back(); for(int j = 0; j < eArity[k - 1]; j++) r->k[j] = t.leaf(); return r; };
	t.pool.push_back({op, 0, 0, {0, 0, 0}}); EN *r = &t.pool.back();
	r->k[0] = sub(c0); if(eArity[op] > 1) r->k[1] = sub(c1); if(eArity[op] > 2) r->k[2] = t.leaf();
	return r;
}
static const int kExprPer = 60;
static std::string exprSource(u64 i){ std::string s = kExprHead; for(u64 k = i * kExprPer; k < std::min(exprCount(), (i + 1) * kExprPer); k++){ ETree t; EN *e = exprMake(t, k); if(e) s += fmt("int f%d(){ return ", (int)(k - i * kExprPer)) + etext(e) + "; }\n"; } return s + "void reset(){ A[0] = 1; A[1] = 1; A[2] = 0; A[3] = 1; O.x = 3; }\nint[] AA = A; return 1;"; }
static void runExpr(u64 i, mc::Ctx &c)
{
	std::string src = exprSource(i);
	for(int ex = 0; ex < 2; ex++) for(int o = 0; o < 3; o++)
	{
		if(o == 1 && !c.thorough) continue;
		Outcome b = run(src, {ex, o});
		if(!b.ran){ c.fail(fmt("%s: %s", cfgName({ex, o}), b.fullError.c_str())); return; }
		for(u64 k = i * kExprPer; k < std::min(exprCount(), (i + 1) * kExprPer); k++)
		{
			ETree t; EN *e = exprMake(t, k); if(!e){ continue; }
			ERef r; int want = r.ev(e);
			nullcRunFunction("reset"); trace().clear();
			bool ok = nullcRunFunction(fmt("f%d", (int)(k - i * kExprPer)).c_str()) != 0;
			int got = ok ? nullcGetResultInt() : -999;
			int A[4]; memcpy(A, nullcGetGlobal("A"), sizeof(A));
			if(!ok || got != want || trace() != r.tr || memcmp(A, r.A, sizeof(A))){ c.fail(fmt("%s: %s: value %d, expected %d; order %s, expected %s%s", cfgName({ex, o}), etext(e).c_str(), got, want, trace().c_str(), r.tr.c_str(), memcmp(A, r.A, sizeof(A)) ? "; different array contents" : ""), etext(e)); if(c.nfail > 5) return; continue; }
			c.exec(); c.step(r.tr.size() / 3); c.state(mc::mix(mc::hashStr(r.tr), got));
		}
	}
}

// ---- conditions: truth of every small logical/conditional expression, including constants other than 0 and 1, in every condition position
struct Cond { int op; int leaf; std::vector<Cond> k; };	// op 0 leaf, 1 !, 2 &&, 3 ||, 4 ?:
static const char *kLeaf[] = {"x", "w", "(x > 1)", "(x == y)", "0", "2", "-1", "256", "65536", "4294967296l", "k", "0l"};
enum { LEAVES = 12 };
static std::vector<Cond> conds;
static Cond leafC(int i){ return {0, i, {}}; }
static void buildConds(bool thorough)
{
	for(int i = 0; i < LEAVES; i++) conds.push_back(leafC(i));
	for(int a = 0; a < LEAVES; a++){ conds.push_back({1, 0, {leafC(a)}}); for(int b = 0; b < LEAVES; b++){ conds.push_back({2, 0, {leafC(a), leafC(b)}}); conds.push_back({3, 0, {leafC(a), leafC(b)}}); for(int c = 0; c < LEAVES; c++) conds.push_back({4, 0, {leafC(a), leafC(b), leafC(c)}}); } }
	size_t n = conds.size();
	for(size_t i = LEAVES; i < n; i++)
	{
		Cond c = conds[i]; if(!thorough && c.op == 4 && (i % 3)) continue;
		conds.push_back({1, 0, {c}}); conds.push_back({2, 0, {c, leafC(3)}}); conds.push_back({3, 0, {leafC(2), c}}); conds.push_back({4, 0, {c, leafC(5), leafC(4)}}); conds.push_back({4, 0, {leafC(2), c, leafC(4)}}); conds.push_back({4, 0, {leafC(3), leafC(9), c}});
	}
}
static std::string ctext(const Cond &c)
{
	switch(c.op){ case 0: return kLeaf[c.leaf]; case 1: return "!(" + ctext(c.k[0]) + ")"; case 2: return "(" + ctext(c.k[0]) + " && " + ctext(c.k[1]) + ")"; case 3: return "(" + ctext(c.k[0]) + " || " + ctext(c.k[1]) + ")"; }
	return "(" + ctext(c.k[0]) + " ? " + ctext(c.k[1]) + " : " + ctext(c.k[2]) + ")";
}
static long long cval(const Cond &c, int x, int y, long long w)
{
	switch(c.op)
	{
	case 0: { long long v[] = {x, w, x > 1, x == y, 0, 2, -1, 256, 65536, 4294967296ll, 2, 0}; return v[c.leaf]; }
	case 1: return !cval(c.k[0], x, y, w); case 2: return cval(c.k[0], x, y, w) && cval(c.k[1], x, y, w); case 3: return cval(c.k[0], x, y, w) || cval(c.k[1], x, y, w);
	}
	return cval(c.k[0], x, y, w) ? cval(c.k[1], x, y, w) : cval(c.k[2], x, y, w);
}
static const int kCondPer = 40;
static const int kX[] = {0, 1, 2, 256}; static const long long kW[] = {0, 1, 4294967296ll};
static std::string condSource(u64 i)
{
	std::string s = fmt("long[%d] R;\n", kCondPer), call;
	for(u64 j = i * kCondPer; j < std::min<u64>(conds.size(), (i + 1) * kCondPer); j++)
	{
		std::string e = ctext(conds[j]); int n = (int)(j - i * kCondPer);
		s += fmt("int f%d(int x, int y, long w){ int k = 2; int r = 0, n = 0; if(%s) r += 1; if(%s) r += 2; else r += 4; while(%s){ n++; if(n == 3) break; } r += n * 8; n = 0; do{ n++; if(n == 3) break; }while(%s); r += n * 64; for(n = 0; %s; n++){ if(n == 2) break; } r += n * 256; r += (%s) ? 1024 : 0; if(!(%s)) r += 2048; if((%s) && y != 1) r += 4096; if((%s) || y == 1) r += 8192; return r; }\n", n, e.c_str(), e.c_str(), e.c_str(), e.c_str(), e.c_str(), e.c_str(), e.c_str(), e.c_str(), e.c_str());
		call += fmt("R[%d] = R[%d] * 31 + f%d(x, y, w);\n", n, n, n);
	}
	return s + "void all(int x, y, long w){\n" + call + "}\nfor(x in {0, 1, 2, 256}) for(y in {0, 1, 2, 256}) for(w in {0l, 1l, 4294967296l}) all(x, y, w);\nreturn 1;";
}
static void runCond(u64 i, mc::Ctx &c)
{
	std::string src = condSource(i);
	std::vector<long long> want;
	for(u64 j = i * kCondPer; j < std::min<u64>(conds.size(), (i + 1) * kCondPer); j++)
	{
		u64 h = 0;
		for(int x : kX) for(int y : kX) for(long long w : kW){ bool v = cval(conds[j], x, y, w); int r = (v ? 1 : 0) + (v ? 2 : 4) + (v ? 3 : 0) * 8 + (v ? 3 : 1) * 64 + (v ? 2 : 0) * 256 + (v ? 1024 : 0) + (v ? 0 : 2048) + (v && y != 1 ? 4096 : 0) + (v || y == 1 ? 8192 : 0); h = h * 31 + r; c.step(); }
		want.push_back((long long)h); c.state(mc::mix(j, h));
	}
	for(int ex = 0; ex < 2; ex++) for(int o = 0; o < 3; o++)
	{
		if(o == 1 && !c.thorough) continue;
		Outcome b = run(src, {ex, o});
		if(!b.ran){ c.fail(fmt("%s: %s", cfgName({ex, o}), b.fullError.c_str())); return; }
		long long R[kCondPer]; memcpy(R, nullcGetGlobal("R"), sizeof(R)); c.exec(want.size() * 48);
		for(size_t j = 0; j < want.size(); j++) if(R[j] != want[j]){ c.fail(fmt("%s: condition %s is not decided as defined (digest %lld, expected %lld)", cfgName({ex, o}), ctext(conds[i * kCondPer + j]).c_str(), R[j], want[j]), "condition " + ctext(conds[i * kCondPer + j])); if(c.nfail > 5) return; }
	}
}

int main(int argc, char **argv)
{
	mc::Engine e("C16", argc, argv);
	e.technique = "bounded exhaustive enumeration of statement and expression trees x decision tapes against a reference interpreter";
	e.rule = "every statement tree of up to n nodes (trace, return, break/continue 1 and 2 levels, while, for, do, for-each, if, if-else, switch with and without default and fallthrough, sequence, block with captured local) with every decision tape; every expression tree of two operator levels over all operators with traced leaves; every logical/conditional expression of two levels over variables and constants other than 0 and 1 in nine condition positions; interpreter and JIT, optimization 0 and 2 (thorough: 0..2)";
	static TreeSpace sp[16]; int n = 0;
	auto add = [&](const char *name, int nodes, Mode m, int tapes, bool locals)
	{
		TreeSpace *p = &sp[n++]; p->n = nodes; p->mode = m; p->count = treeCount(nodes, locals); p->tapes = tapes;
		mc::Space s; s.name = name; s.chunk = 4; s.caseTimeout = 60; s.begin = [](mc::Ctx&){ nc::fresh(); };
		s.count = (p->count + kPer - 1) / kPer;
		s.run = [=](u64 i, mc::Ctx &c){ runTrees(*p, i, locals, c); };
		s.describe = [=](u64 i){ return treesSource(*p, i, locals); };
		e.add(s);
	};
	add("trees-1-host", 1, HOST, 2, true); add("trees-2-host", 2, HOST, 16, true); add("trees-3-host", 3, HOST, 64, true); add("trees-4-host", 4, HOST, 64, true);
	add("trees-3-local", 3, LOCAL, 64, true); add("trees-4-local", 4, LOCAL, 64, true); add("trees-5-local", 5, LOCAL, 64, true); add("trees-6-local", 6, LOCAL, 64, false);
	if(e.thorough){ add("trees-5-host", 5, HOST, 256, true); add("trees-6-host", 6, HOST, 64, true); add("trees-7-local", 7, LOCAL, 64, true); }
	mc::Space s; s.name = "expressions"; s.chunk = 4; s.begin = [](mc::Ctx&){ nc::fresh(); };
	s.count = (exprCount() + kExprPer - 1) / kExprPer; s.run = runExpr; s.describe = exprSource; e.add(s);
	buildConds(e.thorough);
	s.name = "conditions"; s.count = (conds.size() + kCondPer - 1) / kCondPer; s.run = runCond; s.describe = condSource; e.add(s);
	return e.finish();
}
