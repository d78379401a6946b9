// C07: unreachable objects are reclaimed and finalized exactly once
#include "nc.h"
#include <map>
#include <set>
using namespace nc; using mc::u64;
namespace NULLC { void CollectMemory(); unsigned int UsedMemory(); }
static const Config kCfg[] = {{NULLC_REG_VM, 2}, {NULLC_X86, 2}, {NULLC_REG_VM, 0}, {NULLC_X86, 0}};

// ---- variants of the node class
struct Variant { const char *name, *pad, *decl, *set, *get, *make; int linkBlocks; };
static const Variant kVar[] = {
	{"direct links", "", "N ref a; N ref b;", "if(f) x.b = y; else x.a = y;", "return f ? x.b : x.a;", "return new N;", 0},
	{"big object", "int[300] pad;", "N ref a; N ref b;", "if(f) x.b = y; else x.a = y;", "return f ? x.b : x.a;", "return new N;", 0},
	{"auto ref links", "long pad;", "auto ref a, b;", "auto ref w; if(y) w = y; if(f) x.b = w; else x.a = w;", "auto ref r = f ? x.b : x.a; if(r == nullptr) return nullptr; N ref n = r; return n;", "return new N;", 0},
	{"element of an array", "char pad;", "N ref a; N ref b;", "if(f) x.b = y; else x.a = y;", "return f ? x.b : x.a;", "N[] q = new N[2]; return &q[1];", 0},
	{"element of a big array", "long[40] pad;", "N ref a; N ref b;", "if(f) x.b = y; else x.a = y;", "return f ? x.b : x.a;", "N[] q = new N[2]; return &q[1];", 0},
	{"array links", "", "N ref[] a; N ref[] b;", "if(y){ N ref[] q = new N ref[1]; q[0] = y; if(f) x.b = q; else x.a = q; }else{ N ref[] q; if(f) x.b = q; else x.a = q; }", "N ref[] q = f ? x.b : x.a; return q.size ? q[0] : nullptr;", "return new N;", 1},
	{"big object, array links", "int[300] pad;", "N ref[] a; N ref[] b;", "if(y){ N ref[] q = new N ref[1]; q[0] = y; if(f) x.b = q; else x.a = q; }else{ N ref[] q; if(f) x.b = q; else x.a = q; }", "N ref[] q = f ? x.b : x.a; return q.size ? q[0] : nullptr;", "return new N;", 1},
	{"closure links", "", "N ref ref() a; N ref ref() b;", "if(y){ auto q = mkf(y); if(f) x.b = q; else x.a = q; }else{ if(f) x.b = nullptr; else x.a = nullptr; }", "N ref ref() q = f ? x.b : x.a; if(q == nullptr) return nullptr; return q();", "return new N;", 1},
};
static const int nVar = sizeof(kVar) / sizeof(*kVar);
// mixed: objects with act 5 are of a class without a finalizer
static std::string script(const Variant &v, bool mixed)
{
	std::string s = "import mc;\nimport std.gc;\n";
	s += std::string("class N extendable{ int id; int sum; int act; ") + v.decl + " " + v.pad + " }\n" + (mixed ? "class F: N{ }\n" : "") + "N ref G; N ref[3] R;\n";
	s += "N ref ref() mkf(N ref x){ N ref c = x; N ref f(){ return c; } return f; }\n";
	s += "void setl(N ref x, int f, N ref y){ " + std::string(v.set) + " }\nN ref getl(N ref x, int f){ " + v.get + " }\n";
	s += "void junk(){ for(int k = 0; k < 4; k++){ for(int z = 1; z < 600; z = z * 2 + 1){ int[] p = new int[z]; for(i in p) i = 1431655765; } } }\n";
	s += "void " + std::string(mixed ? "F" : "N") + ":finalize(){ if(act == 4) junk(); N ref a = getl(this, 0), b = getl(this, 1); t(id); t(a ? (a.sum == a.id * 7 + 3 ? a.id : -1) : 0); t(b ? (b.sum == b.id * 7 + 3 ? b.id : -1) : 0); if(id && sum != id * 7 + 3) t(-1); if(act == 1) G = this; if(act == 2){ N ref n = new N; n.id = 1000 + id; n.sum = n.id * 7 + 3; } if(act == 3) GC.CollectMemory(); }\n";
	s += "N ref mk(int act){ " + std::string(mixed ? "if(act == 5) return new N; return new F;" : v.make) + " }\n";
	s += "void op(int o, int i, int f, int j, int id, int act){ switch(o){ case 0: R[i] = mk(act); R[i].id = id; R[i].sum = id * 7 + 3; R[i].act = act; break; case 1: setl(R[i], f, R[j]); break; case 2: R[i] = R[j]; break; case 3: R[i] = nullptr; break; case 4: R[i] = getl(R[i], f); break; case 5: R[i] = G; G = nullptr; break; } }\n";
	s += "void gc(){ GC.CollectMemory(); }\nint look(int i){ N ref p = i < 3 ? R[i] : G; if(!p) return 0; if(p.sum != p.id * 7 + 3) return -1; return p.id; }\nint lookl(int i, int f){ N ref p = i < 3 ? R[i] : G; if(!p) return 0; p = getl(p, f); if(!p) return 0; if(p.sum != p.id * 7 + 3) return -1; return p.id; }\nreturn 1;";
	return s;
}
// ---- model
struct Op { signed char o, i, f, j, act; };
enum { NEW, LINK, MOVE, DROP, FOLLOW, TAKE, GCOP, FINAL };
struct Blk { short id; signed char act, f[2]; bool fin, done; };
struct St
{
	std::vector<Blk> b; signed char R[3] = {-1, -1, -1}, G = -1; short next = 1;
	std::string key() const
	{
		// canonical form: blocks renamed in the order of traversal from the roots, remaining garbage in age order
		std::vector<int> ren(b.size(), -1), order; std::string k;
		auto visit = [&](int x){ if(x >= 0 && ren[x] < 0){ ren[x] = (int)order.size(); order.push_back(x); } };
		for(int r : R) visit(r);
		visit(G); size_t q = 0;
		for(size_t g = 0; ; ){ for(; q < order.size(); q++) for(int x : b[order[q]].f) visit(x); while(g < b.size() && ren[g] >= 0) g++; if(g == b.size()) break; visit((int)g); }
		auto put = [&](int x){ k += char(x < 0 ? 'z' : 'A' + ren[x]); };
		for(int r : R) put(r);
		put(G);
		for(int x : order){ k += b[x].id == -1 ? 'l' : b[x].id > 1000 ? 't' : 'n'; k += char('0' + b[x].act); k += b[x].done ? 'd' : '-'; for(int y : b[x].f) put(y); }
		return k + char('0' + (next < 9 ? next : 9));
	}
};
struct Fin { int id, a, b; bool operator<(const Fin &o) const { return id != o.id ? id < o.id : a != o.a ? a < o.a : b < o.b; } bool operator==(const Fin &o) const { return id == o.id && a == o.a && b == o.b; } };
static int blkId(const St &s, int x){ if(x < 0) return 0; if(s.b[x].id == -1) return blkId(s, s.b[x].f[0]); return s.b[x].id; }
static bool can(const St &s, Op o, int maxNew, int roots)
{
	switch(o.o)
	{
	case NEW: if(s.next > maxNew) return false; if(o.act == 1 || o.act == 3 || o.act == 4){ for(auto &x : s.b) if(x.act == o.act && !x.done) return false; } return true;
	case LINK: return s.R[o.i] >= 0 && (s.R[o.j] >= 0 || s.b[s.R[o.i]].f[o.f] >= 0);
	case MOVE: return s.R[o.i] != s.R[o.j];
	case DROP: return s.R[o.i] >= 0;
	case FOLLOW: return s.R[o.i] >= 0 && s.b[s.R[o.i]].f[o.f] >= 0;
	case TAKE: return s.G >= 0;
	}
	return true;
}
// applies o; map (optional) carries measured sizes of blocks, exact is false while nested collections make the amount of freed memory implementation defined
static void apply(St &s, Op o, int linkBlocks, std::vector<Fin> *log, std::vector<unsigned> *sizes, unsigned nodeSize)
{
	switch(o.o)
	{
	case NEW: s.R[o.i] = (int)s.b.size(); s.b.push_back({s.next++, o.act, {-1, -1}, o.act != 5, false}); if(sizes) sizes->push_back(0); break;
	case LINK: if(linkBlocks && s.R[o.j] >= 0){ int l = (int)s.b.size(); s.b.push_back({-1, 0, {s.R[o.j], -1}, false, false}); if(sizes) sizes->push_back(0); s.b[s.R[o.i]].f[o.f] = l; } else s.b[s.R[o.i]].f[o.f] = s.R[o.j]; break;
	case MOVE: s.R[o.i] = s.R[o.j]; break;
	case DROP: s.R[o.i] = -1; break;
	case FOLLOW: { int x = s.b[s.R[o.i]].f[o.f]; if(s.b[x].id == -1) x = s.b[x].f[0]; s.R[o.i] = x; break; }
	case TAKE: s.R[o.i] = s.G; s.G = -1; break;
	case GCOP: case FINAL:
	{
		std::vector<char> keep(s.b.size(), 0); std::vector<int> st;
		auto mark = [&](int x){ if(x >= 0 && !keep[x]){ keep[x] = 1; st.push_back(x); } };
		auto flush = [&]{ while(!st.empty()){ int x = st.back(); st.pop_back(); mark(s.b[x].f[0]); mark(s.b[x].f[1]); } };
		for(int r : s.R) mark(r);
		mark(s.G); flush();
		std::vector<int> fin; for(size_t x = 0; x < s.b.size(); x++) if((o.o == FINAL || !keep[x]) && s.b[x].fin && !s.b[x].done) fin.push_back((int)x);
		for(int x : fin) mark(x);
		if(o.o == FINAL) for(size_t x = 0; x < s.b.size(); x++) mark((int)x); // nothing is released
		flush();
		int temps = 0; std::vector<int> tempIds;
		for(int x : fin){ s.b[x].done = true; if(log) log->push_back({s.b[x].id, blkId(s, s.b[x].f[0]), blkId(s, s.b[x].f[1])}); if(s.b[x].act == 1) s.G = x; if(s.b[x].act == 2) tempIds.push_back(1000 + s.b[x].id); }
		std::vector<int> ren(s.b.size(), -1); std::vector<Blk> nb; std::vector<unsigned> ns;
		for(size_t x = 0; x < s.b.size(); x++) if(keep[x]){ ren[x] = (int)nb.size(); nb.push_back(s.b[x]); if(sizes) ns.push_back((*sizes)[x]); }
		for(auto &x : nb) for(auto &y : x.f) if(y >= 0) y = ren[y];
		for(auto &r : s.R) if(r >= 0) r = ren[r];
		if(s.G >= 0) s.G = ren[s.G];
		for(int id : tempIds){ nb.push_back({(short)id, 0, {-1, -1}, true, false}); ns.push_back(nodeSize); }
		s.b = nb; if(sizes) *sizes = ns; (void)temps; break;
	}
	}
}
static std::string opText(Op o){ static const char *n[] = {"new", "link", "move", "drop", "follow", "take", "gc", "finalize-all"}; return fmt("%s(R%d,f%d,R%d,act%d)", n[(int)o.o], o.i, o.f, o.j, o.act); }
typedef std::vector<Op> Path;
static std::vector<Path> explore(int linkBlocks, const std::vector<int> &acts, int roots, int maxNew, int depth, u64 &states)
{
	std::vector<Op> ops;
	for(signed char i = 0; i < roots; i++)
	{
		for(int a : acts) ops.push_back({NEW, i, 0, 0, (signed char)a});
		for(signed char f = 0; f < 2; f++){ for(signed char j = 0; j < roots; j++) ops.push_back({LINK, i, f, j, 0}); ops.push_back({FOLLOW, i, f, 0, 0}); }
		for(signed char j = 0; j < roots; j++) if(i != j) ops.push_back({MOVE, i, 0, j, 0});
		ops.push_back({DROP, i, 0, 0, 0});
	}
	ops.push_back({TAKE, 0, 0, 0, 0}); ops.push_back({GCOP, 0, 0, 0, 0});
	std::vector<Path> out; std::set<std::string> seen; std::vector<std::pair<St, Path>> level; level.push_back({St(), Path()}); seen.insert(St().key());
	for(int d = 0; d < depth; d++)
	{
		std::vector<std::pair<St, Path>> nextLevel;
		for(auto &e : level) for(Op o : ops)
		{
			if(!can(e.first, o, maxNew, roots)) continue;
			St s = e.first; apply(s, o, linkBlocks, nullptr, nullptr, 0);
			Path p = e.second; p.push_back(o); out.push_back(p);
			if(seen.insert(s.key()).second) nextLevel.push_back({s, p});
		}
		level.swap(nextLevel);
	}
	states = seen.size();
	return out;
}
struct Job { int variant; bool mixed; std::vector<int> acts; int roots, maxNew, depth; std::vector<Path> paths; };
static std::map<std::string, char*> bytecodes;
static char *bytecodeFor(int v, bool mixed, int cfg)
{
	std::string k = fmt("%d/%d/%d", v, mixed, cfg); auto it = bytecodes.find(k); if(it != bytecodes.end()) return it->second;
	nullcSetExecutor(kCfg[cfg].exec); nullcSetOptimizationLevel(kCfg[cfg].opt);
	std::string src = script(kVar[v], mixed); // the source has to stay in memory until the bytecode is created
	if(!nullcCompile(src.c_str())){ printf("%s\n", nullcGetLastError()); _exit(3); }
	char *bc = nullptr; nullcGetBytecode(&bc); return bytecodes[k] = bc;
}
static bool replay(int v, bool mixed, int cfg, const Path &path, bool finalizeAll, mc::Ctx &c)
{
	nullcSetExecutor(kCfg[cfg].exec); nullcSetOptimizationLevel(kCfg[cfg].opt);
	std::string where = std::string(cfgName(kCfg[cfg])) + " " + kVar[v].name + ":";
	auto bad = [&](const std::string &m){ c.fail(where + ": " + m, std::string(kVar[v].name) + " " + m); return false; };
	char *bc = bytecodeFor(v, mixed, cfg); nullcClean();
	if(!nullcLinkCode(bc) || !nullcRun()) return bad(std::string("script failed: ") + nullcGetLastError());
	St s; std::vector<unsigned> sizes; unsigned base = NULLC::UsedMemory(), nodeSize = 0; bool inexact = false; std::map<int, int> finalized;
	auto expectUsed = [&]{ unsigned long long u = base; for(unsigned x : sizes) u += x; return (unsigned)u; };
	Path full = path; size_t pathLen = path.size();
	full.push_back({(signed char)(finalizeAll ? FINAL : GCOP), 0, 0, 0, 0}); // finalize-all: the host asks for finalizers of all objects
	for(signed char i = 0; i < 3; i++) full.push_back({DROP, i, 0, 0, 0});
	full.push_back({GCOP, 0, 0, 0, 0}); full.push_back({TAKE, 0, 0, 0, 0}); full.push_back({DROP, 0, 0, 0, 0});
	for(int k = 0; k < 3; k++) full.push_back({GCOP, 0, 0, 0, 0});
	for(size_t k = 0; k < full.size(); k++)
	{
		Op o = full[k]; where += " " + opText(o); trace().clear(); c.step();
		if(k >= pathLen && o.o == DROP && s.R[o.i] < 0) continue;
		unsigned before = NULLC::UsedMemory(); bool ok;
		if(o.o == GCOP) { if(k & 1){ NULLC::CollectMemory(); ok = true; } else ok = nullcRunFunction("gc") != 0; }
		else if(o.o == FINAL) ok = nullcFinalize() != 0;
		else ok = nullcRunFunction("op", (int)o.o, (int)o.i, (int)o.f, (int)o.j, (int)s.next, (int)o.act) != 0;
		if(!ok) return bad(std::string("operation failed: ") + nullcGetLastError());
		std::vector<Fin> want, got; std::string tr = trace();
		bool hadAct3 = false, hadAct2 = false;
		if(o.o == GCOP || o.o == FINAL) for(auto &x : s.b){ if((x.act == 3 || x.act == 4) && !x.done) hadAct3 = true; if(x.act == 2 && !x.done) hadAct2 = true; }
		apply(s, o, kVar[v].linkBlocks, &want, &sizes, nodeSize);
		int a, b2, d; const char *p = tr.c_str(); int n; while(sscanf(p, "%d %d %d %n", &a, &b2, &d, &n) == 3){ if(a) got.push_back({a, b2, d}); p += n; }
		if(*p) return bad("finalizer found altered contents: " + tr);
		unsigned now = NULLC::UsedMemory();
		if(o.o == NEW){ sizes.back() = now - before; }
		else if(o.o == LINK && kVar[v].linkBlocks && s.R[o.j] >= 0 && now != before) sizes.back() = now - before;
		// finalizers that ran
		for(auto &g : got) if(++finalized[g.id] > 1) return bad(fmt("object %d finalized more than once", g.id));
		std::vector<Fin> g2, w2; for(auto &g : got) if(g.id < 1000) g2.push_back(g);
		for(auto &w : want) if(w.id < 1000) w2.push_back(w);
		std::sort(g2.begin(), g2.end()); std::sort(w2.begin(), w2.end());
		auto txt = [](std::vector<Fin> &l){ std::string r; for(auto &f : l) r += fmt("%d(%d,%d) ", f.id, f.a, f.b); return r.empty() ? std::string("none") : r; };
		// an unreachable object is finalized by a later collection at the latest in the epilogue, a reachable one never
		if(!(g2 == w2)) return bad("finalized " + txt(g2) + "expected " + txt(w2));
		if(hadAct3 || hadAct2) inexact = true; // memory freed or allocated by finalizers
		if(!inexact && now != expectUsed()) return bad(fmt("used memory %u, live blocks take %u (base %u)", now, expectUsed(), base));
		// contents of everything reachable in two steps
		for(int i = 0; i < 4; i++)
		{
			int x = i < 3 ? s.R[i] : s.G;
			if(!nullcRunFunction("look", i)) return bad("look failed");
			if(nullcGetResultInt() != blkId(s, x)) return bad(fmt("root %d holds object %d, expected %d", i, nullcGetResultInt(), blkId(s, x)));
			if(x >= 0) for(int f = 0; f < 2; f++){ nullcRunFunction("lookl", i, f); int w = blkId(s, s.b[x].f[f]); if(nullcGetResultInt() != w) return bad(fmt("link %d.%d holds object %d, expected %d", i, f, nullcGetResultInt(), w)); }
		}
		c.state(mc::mix(mc::hashStr(s.key()), v));
	}
	if(NULLC::UsedMemory() != base) return bad(fmt("memory in use after everything was dropped and collected: %u, before %u", NULLC::UsedMemory(), base));
	for(auto &o : finalized) (void)o;
	c.exec();
	return true;
}

// ---- bounded live data: loops that create garbage of every kind run within a small memory limit
struct Loop { const char *name, *decl, *body; };
static const Loop kLoops[] = {
	{"new int", "", "int ref p = new int; *p = i;"},
	{"new big array", "", "int[] p = new int[1000]; p[5] = i;"},
	{"object in a cycle", "class C{ C ref o; int[20] q; }", "C ref a = new C, b = new C; a.o = b; b.o = a;"},
	{"class with a finalizer", "int cnt; class F{ int[30] q; } void F:finalize(){ cnt++; }", "F ref a = new F; a.q[0] = i;"},
	{"array of class with a finalizer", "int cnt; class F{ int[30] q; } void F:finalize(){ cnt++; }", "F[] a = new F[3]; a[0].q[0] = i;"},
	{"finalizer cycle", "int cnt; class F{ F ref o; int[30] q; } void F:finalize(){ cnt++; }", "F ref a = new F, b = new F; a.o = b; b.o = a;"},
	{"closure", "int ref() mk(int v){ int[20] w; w[3] = v; int f(){ return w[3]; } return f; }", "int ref() f = mk(i); if(f() != i) r = 0;"},
	{"coroutine", "int ref() mk(int v){ coroutine int f(){ int[20] w; w[3] = v; yield w[3]; return 0; } return f; }", "int ref() f = mk(i); if(f() != i) r = 0;"},
	{"string concatenation", "", "char[] s = \"abc\" + i.str() + \"def\"; if(s.size < 7) r = 0;"},
	{"list comprehension", "", "int[] l = { for(int k = 0; k < 20; k++) yield k + i; }; if(l[19] != i + 19) r = 0;"},
	{"returned local array", "int[] mk(int v){ int[20] w; w[3] = v; return w; }", "int[] l = mk(i); if(l[3] != i) r = 0;"},
	{"returned local object", "class C{ int[20] q; } C ref mk(int v){ C c; c.q[4] = v; return &c; }", "C ref l = mk(i); if(l.q[4] != i) r = 0;"},
	{"auto ref boxing", "auto ref mk(int v){ auto ref a = duplicate(v); return a; }", "auto ref a = mk(i); if(int(a) != i) r = 0;"},
	{"auto array", "", "auto[] a = auto_array(long, 20); long q = i; a.set(&q, 3); if(long(a[3]) != i) r = 0;"},
	{"duplicate", "class C{ int[20] q; } C g;", "g.q[2] = i; C ref c = duplicate(&g); if(c.q[2] != i) r = 0;"},
	{"variadic arguments", "int va(auto ref[] args){ return args.size; }", "if(va(i, i, 2.0) != 3) r = 0;"},
	{"vector growth", "import std.vector;", "vector<int> v; v.vector(); for(int k = 0; k < 20; k++) v.push_back(k); if(v[19] != 19) r = 0;"},
	{"list nodes", "import std.list;", "list<int> v; v.list(); for(int k = 0; k < 5; k++) v.push_back(k);"},
	{"hashmap nodes", "import std.hashmap; int hash_value(double x){ return int(x); }", "hashmap<double, int> v; v.hashmap(); for(int k = 0; k < 5; k++) v[k + 0.0] = k;"},
	{"array of arrays", "", "int[][] a = new int[][5]; for(k in a) k = new int[7]; a[3][2] = i;"},
	{"local closure call", "", "int[20] w; w[0] = i; int f(){ return w[0]; } if(f() != i) r = 0;"},
	{"callback from the host", "int cb(int v){ int ref p = new int; *p = v; return *p; }", "if(hcall(cb, i) != i) r = 0;"},
	{"for-each over a generator", "int ref() mk(int v){ coroutine int g(){ for(int k = 0; k < 3; k++) yield v + k; return 0; } return g; }", "int s = 0; for(x in mk(i)) s += x - i; if(s < 3) r = 0;"},
	{"discarded objects in expressions", "class C{ int[20] q; } C ref mk(int v){ C ref c = new C; c.q[1] = v; return c; }", "if(mk(i).q[1] + mk(i + 1).q[1] != 2 * i + 1) r = 0;"},
	{"growing list dropped", "class L{ L ref n; int[10] q; } L ref h;", "L ref x = new L; x.n = h; h = x; if(i % 50 == 49) h = nullptr;"},
	{"upvalue kept in global", "int ref() g; int ref() mk(int v){ int[20] w; w[3] = v; int f(){ return w[3]; } return f; }", "g = mk(i); if(g() != i) r = 0;"},
};
static const int nLoops = sizeof(kLoops) / sizeof(*kLoops);
static std::string loopSrc(int l){ std::string imp, d = kLoops[l].decl; size_t p = d.find("import"); if(p == 0){ size_t e = d.find(';'); imp = d.substr(0, e + 1); d = d.substr(e + 1); } return imp + "import mc;\nimport std.gc;\n" + d + "\nint run(int n){ int r = 1; for(int i = 0; i < n; i++){ " + kLoops[l].body + " } return r; }\nint M;\nint step(int n){ int r = run(n); GC.CollectMemory(); GC.CollectMemory(); M = GC.UsedMemory(); return r; }\nreturn 1;"; }
static void runLoop(u64 idx, mc::Ctx &c)
{
	int l = (int)(idx / 6), ex = idx % 2, opt = idx / 2 % 3; Config cf = {ex ? NULLC_X86 : NULLC_REG_VM, opt};
	fresh(STD_ALL); nullcSetGlobalMemoryLimit(2 << 20);
	nullcSetExecutor(cf.exec); nullcSetOptimizationLevel(cf.opt);
	std::string where = std::string(cfgName(cf)) + " " + kLoops[l].name;
	if(!nullcBuild(loopSrc(l).c_str())){ c.fail(where + ": " + nullcGetLastError()); return; }
	if(!nullcRun()){ c.fail(where + ": " + nullcGetLastError()); return; }
	int first = 0;
	for(int k = 0; k < 4; k++)
	{
		c.exec(); c.step(20000);
		if(!nullcRunFunction("step", k ? 20000 : 200)){ c.fail(where + ": fails within a 2 MB limit: " + nullcGetLastError(), where); return; }
		if(nullcGetResultInt() != 1){ c.fail(where + ": wrong values", where); return; }
		int m = *(int*)nullcGetGlobal("M"); if(k == 0) first = m; c.state(mc::mix(idx, m));
		if(m > first + 16384){ c.fail(where + fmt(": %d bytes in use after collection of a loop with bounded live data, %d at first", m, first), where); return; }
	}
	if(strstr(kLoops[l].decl, "cnt"))
	{
		int n = *(int*)nullcGetGlobal("cnt"), per = strstr(kLoops[l].body, "F[]") ? 3 : strstr(kLoops[l].body, "b.o") ? 2 : 1, all = per * 60200;
		if(n > all || n < all - 3 * per){ c.fail(where + fmt(": %d finalizer calls for %d unreachable objects", n, all), where); return; }
		nullcFinalize(); n = *(int*)nullcGetGlobal("cnt");
		if(n != all){ c.fail(where + fmt(": %d finalizer calls after nullcFinalize for %d objects", n, all), where); return; }
	}
}
// ---- every way to declare a finalizer
struct Decl { const char *name, *module, *decl, *make; };
static const Decl kDecls[] = {
	{"inside the class", "", "class C{ int a; void finalize(){ n++; } }", "C ref x = new C;"},
	{"outside the class", "", "class C{ int a; } void C:finalize(){ n++; }", "C ref x = new C;"},
	{"generic class", "", "class C<T>{ T a; void finalize(){ n++; } }", "C<int> ref x = new C<int>;"},
	{"generic class, outside", "", "class C<T>{ T a; } void C:finalize(){ n++; }", "C<double> ref x = new C<double>;"},
	{"nested in a namespace", "", "namespace N{ class C{ int a; void finalize(){ n++; } } }", "N.C ref x = new N.C;"},
	{"with a constructor", "", "class C{ int a; void C(int v){ a = v; } void finalize(){ n += a; } }", "C ref x = new C(1);"},
	{"base class of the object type", "", "class B extendable{ int a; void finalize(){ n++; } } class C: B{ int b; void finalize(){ n += b; } }", "C ref x = new C; x.b = 1;"},
	{"derived class only", "", "class B extendable{ int a; } class C: B{ int b; void finalize(){ n++; } }", "B ref x = new C;"},
	{"base class only", "", "class B extendable{ int a; void finalize(){ n++; } }", "B ref x = new B;"},
	{"inherited", "", "class B extendable{ int a; void finalize(){ n++; } } class C: B{ int b; }", "C ref x = new C;"},
	{"imported class", "class C{ int a; } int n; void C:finalize(){ n++; }", "", "C ref x = new C;"},
	{"imported class, imported maker", "class C{ int a; } int n; void C:finalize(){ n++; } auto ref mk(){ return new C; }", "", "auto ref x = mk();"},
	{"imported generic class", "int n; class C<T>{ T a; void finalize(){ n++; } }", "", "C<int> ref x = new C<int>;"},
	{"array elements", "", "class C{ int a; void finalize(){ n++; } }", "C[] x = new C[3]; n -= 2;"},
	{"held by another class", "", "class C{ int a; void finalize(){ n++; } } class H{ C ref q; }", "H ref x = new H; x.q = new C;"},
	{"held by a closure", "", "class C{ int a; void finalize(){ n++; } } auto mk(){ C ref q = new C; int f(){ return q.a; } return f; }", "int ref() f = mk(); f();"},
	{"several finalizable classes", "", "class C{ int a; void finalize(){ n += 10; } } class D{ int a; void finalize(){ n -= 9; } }", "C ref x = new C; D ref y = new D;"},
};
static const int nDecls = sizeof(kDecls) / sizeof(*kDecls);
static std::string declSrc(int d){ return std::string(*kDecls[d].module ? "import fm;\n" : "") + "import std.gc;\n" + (*kDecls[d].module ? "" : "int n;\n") + kDecls[d].decl + "\nint pad(int d){ int[64] a; for(i in a) i = d; return d ? pad(d - 1) + a[3] : 0; }\nvoid make(){ " + kDecls[d].make + " }\nfor(int i = 0; i < 5; i++) make();\npad(20); GC.CollectMemory(); pad(20); int n1 = n; GC.CollectMemory(); GC.CollectMemory(); pad(20); int n2 = n;\nreturn 1;"; }
static void runDecl(u64 idx, mc::Ctx &c)
{
	int d = (int)(idx / 6), ex = idx % 2, opt = idx / 2 % 3; Config cf = {ex ? NULLC_X86 : NULLC_REG_VM, opt};
	fresh(STD_ALL); nullcSetExecutor(cf.exec); nullcSetOptimizationLevel(cf.opt);
	std::string where = std::string(cfgName(cf)) + " finalizer " + kDecls[d].name;
	if(*kDecls[d].module && !nullcLoadModuleBySource("fm", kDecls[d].module)){ c.fail(where + ": " + nullcGetLastError()); return; }
	std::string src = declSrc(d);
	if(!nullcBuild(src.c_str()) || !nullcRun()){ c.fail(where + ": " + nullcGetLastError()); return; }
	int n2 = *(int*)nullcGetGlobal("n2"), n; c.exec(); c.step(5);
	nullcFinalize(); int *np = (int*)nullcGetGlobal("n"); n = np ? *np : n2;
	c.state(mc::mix(idx, n2));
	// a stale register may keep the last object
	if(n2 < 4 || n2 > 5 || n != 5) c.fail(where + fmt(": %d calls after collection, %d in the end, for 5 unreachable objects", n2, n), std::string("finalizer ") + kDecls[d].name);
}
int main(int argc, char **argv)
{
	mc::Engine e("C07", argc, argv);
	e.technique = "explicit-state exploration of allocation/link/drop/collect histories (heap model, canonical states), every transition replayed on the real collector";
	e.rule = "finalizers that run, memory in use and reachable contents after every operation equal those of the heap model";
	std::vector<Job> *jobs = new std::vector<Job>();
	bool th = e.thorough;
	for(int v = 0; v < nVar; v++) jobs->push_back({v, false, {0}, 2, th ? 5 : 4, th ? 8 : 6, {}});
	for(int v : {0, 1, 3}) jobs->push_back({v, false, {0, 1}, 2, th ? 4 : 3, th ? 7 : 6, {}});
	for(int v : {0, 1, 4}) jobs->push_back({v, false, {0, 2}, 2, th ? 4 : 3, th ? 7 : 6, {}});
	for(int v : {0, 1, 3, 5}) jobs->push_back({v, false, {0, 3}, 2, th ? 4 : 3, th ? 7 : 6, {}});
	for(int v : {0, 5, 6, 7}) jobs->push_back({v, false, {0, 4}, 2, th ? 4 : 3, th ? 7 : 5, {}});
	for(int v : {0, 1, 5, 6}) jobs->push_back({v, true, {4, 5}, 2, 3, th ? 8 : 6, {}});
	for(int v : {0, 1, 2}) jobs->push_back({v, true, {0, 5}, 2, 3, th ? 8 : 6, {}});
	jobs->push_back({0, false, {1, 2, 3}, 2, 3, th ? 7 : 6, {}});
	jobs->push_back({0, false, {0}, 3, th ? 4 : 3, th ? 6 : 5, {}});
	for(size_t j = 0; j < jobs->size(); j++)
	{
		Job &J = (*jobs)[j]; u64 st = 0; J.paths = explore(kVar[J.variant].linkBlocks, J.acts, J.roots, J.maxNew, J.depth, st);
		std::string acts; for(int a : J.acts) acts += fmt("%d", a);
		mc::Space s; s.name = fmt("histories-%s-%s%s-roots%d", kVar[J.variant].name, J.mixed ? "mixed" : "finalizers", acts.c_str(), J.roots); for(auto &ch : s.name) if(ch == ' ') ch = '-';
		s.count = J.paths.size(); s.chunk = 400; s.caseTimeout = 20;
		s.begin = [](mc::Ctx&){ bytecodes.clear(); nc::fresh(STD_ALL); };
		s.run = [jobs, j, th](u64 i, mc::Ctx &c){ Job &J = (*jobs)[j]; if(th){ for(int q = 0; q < 4; q++) for(int fa = 0; fa < 2; fa++) if(!replay(J.variant, J.mixed, q, J.paths[i], fa, c)) return; } else replay(J.variant, J.mixed, (int)(i % 4), J.paths[i], i / 4 % 2, c); };
		s.describe = [jobs, j](u64 i){ Job &J = (*jobs)[j]; std::string r = script(kVar[J.variant], J.mixed) + "\n"; for(Op o : J.paths[i]) r += opText(o) + " "; return r; };
		e.add(s);
	}
	{ mc::Space s; s.name = "finalizer-declarations"; s.count = nDecls * 6; s.chunk = 1; s.caseTimeout = 60; s.run = runDecl; s.describe = [](u64 i){ return std::string(kDecls[i / 6].module) + "\n" + declSrc((int)(i / 6)); }; e.add(s); }
	mc::Space s; s.name = "bounded-live-data"; s.count = nLoops * 6; s.chunk = 1; s.caseTimeout = 60; s.run = runLoop; s.describe = [](u64 i){ return loopSrc((int)(i / 6)); }; e.add(s);
	return e.finish();
}
