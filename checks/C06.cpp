// C06: garbage collection never frees or alters reachable objects
#include "nc.h"
using namespace nc; using mc::u64;

// ---- memory: released memory is overwritten, so that a use of a freed big block is visible
static void *poisonAlloc(int n){ size_t *p = (size_t*)malloc(n + 16); p[0] = n; return (char*)p + 16; }
static void poisonFree(void *q){ if(!q) return; size_t *p = (size_t*)((char*)q - 16); memset(q, 0xDD, p[0]); free(p); }
namespace NULLC { extern unsigned collectableMinimum __attribute__((weak)); }	// 0: every allocation collects
static bool everyAlloc = false;
static const int kSizes[] = {1, 8, 20, 50, 100, 240, 500, 700, 2000, 4004};
static void junk()	// reuse every released block of every size class
{
	for(int s : kSizes) for(int k = 0; k < 24; k++){ char *p = (char*)nullcAllocate(s); if(p) memset(p, 0xDB, s); }
}
static void h_junk(){ junk(); }
int h_gcDirect(int);
int h_hostGet(void *p){ return ((int*)p)[1]; }
void h_gcRef(NULLCRef);
static bool env(bool every)
{
	customAlloc() = poisonAlloc; customDealloc() = poisonFree; everyAlloc = every;
	nc::fresh(STD_ALL);
	if(!nullcLoadModuleBySource("mg", "int gc_(int v);\nvoid junk();\nclass HostC{ int pad; int a; } int HostC:get();\nvoid gcref(auto ref p);\n")){ printf("%s\n", nullcGetLastError()); return false; }
	return nullcBindModuleFunction("mg", (void(*)())h_hostGet, "HostC::get", 0) && nullcBindModuleFunction("mg", (void(*)())h_gcRef, "gcref", 0) && nullcBindModuleFunction("mg", (void(*)())h_gcDirect, "gc_", 0) && nullcBindModuleFunction("mg", (void(*)())h_junk, "junk", 0);
}
namespace NULLC { void CollectMemory(); }
void h_gcRef(NULLCRef){ NULLC::CollectMemory(); junk(); }
int h_gcDirect(int v){ NULLC::CollectMemory(); junk(); return v; }

// ---- shapes: a value type with a constructor function and a checker
struct Shape { const char *name, *decl; };	// $ inner level, # own level
static const Shape kBase[] = {
	{"int ref", "typedef int ref T#; T# mk#(int v){ T# r = new int; *r = v; return r; } int ck#(T# x, int v){ return *x == v; }\n"},
	{"member ref", "class P#{ char a; double b; int c; } typedef int ref T#; T# mk#(int v){ P# ref p = new P#; p.c = v; p.b = v; return &p.c; } int ck#(T# x, int v){ return *x == v; }\n"},
	{"element ref", "typedef int ref T#; T# mk#(int v){ int[] p = new int[5]; p[3] = v; return &p[3]; } int ck#(T# x, int v){ return *x == v; }\n"},
	{"int[]", "typedef int[] T#; T# mk#(int v){ T# p = new int[9]; for(i in p) i = v; return p; } int ck#(T# x, int v){ int r = x.size == 9; for(i in x) if(i != v) r = 0; return r; }\n"},
	{"char[]", "typedef char[] T#; T# mk#(int v){ return \"v\" + v.str() + \"e\"; } int ck#(T# x, int v){ return x == (\"v\" + v.str() + \"e\"); }\n"},
	{"big element ref", "typedef int ref T#; T# mk#(int v){ int[] p = new int[1001]; p[1000] = v; p[0] = v; return &p[1000]; } int ck#(T# x, int v){ return *x == v; }\n"},
	{"bound method of host class", "typedef int ref() T#; T# mk#(int v){ HostC ref e = new HostC; e.a = v; T# r = e.get; return r; } int ck#(T# x, int v){ return x() == v; }\n"},
	{"double[]", "typedef double[] T#; T# mk#(int v){ T# p = new double[3]; for(i in p) i = v + 0.5; return p; } int ck#(T# x, int v){ int r = x.size == 3; for(i in x) if(i != v + 0.5) r = 0; return r; }\n"},
};
static const Shape kWrap[] = {
	{"ref", "typedef T$ ref T#; T# mk#(int v){ T# r = new T$; *r = mk$(v); return r; } int ck#(T# x, int v){ return ck$(*x, v); }\n"},
	{"array", "typedef T$[] T#; T# mk#(int v){ T# r = new T$[3]; r[1] = mk$(v); r[2] = mk$(v + 1); r[0] = mk$(v + 2); return r; } int ck#(T# x, int v){ return ck$(x[1], v) && ck$(x[2], v + 1) && ck$(x[0], v + 2); }\n"},
	{"class", "class C#{ char p; T$ f; int z; T$ g; } typedef C# T#; T# mk#(int v){ C# c; c.f = mk$(v); c.g = mk$(v + 1); return c; } int ck#(T# x, int v){ return ck$(x.f, v) && ck$(x.g, v + 1); }\n"},
	{"class ref", "class C#{ int z; T$ f; char y; T$ g; } typedef C# ref T#; T# mk#(int v){ C# ref c = new C#; c.f = mk$(v); c.g = mk$(v + 1); return c; } int ck#(T# x, int v){ return ck$(x.f, v) && ck$(x.g, v + 1); }\n"},
	{"derived through base ref", "class B# extendable{ int z; } class D#: B#{ char q; T$ f; } typedef B# ref T#; T# mk#(int v){ D# ref c = new D#; c.f = mk$(v); return c; } int ck#(T# x, int v){ auto ref a = x; D# ref d = x; return ck$(d.f, v); }\n"},
	{"derived base member", "class B# extendable{ T$ f; } class D#: B#{ char q; T$ g; } typedef D# ref T#; T# mk#(int v){ D# ref c = new D#; c.f = mk$(v); c.g = mk$(v + 1); return c; } int ck#(T# x, int v){ return ck$(x.f, v) && ck$(x.g, v + 1); }\n"},
	{"auto ref", "typedef auto ref T#; T# mk#(int v){ T$ ref r = new T$; *r = mk$(v); T# a = r; return a; } int ck#(T# x, int v){ T$ ref r = x; return ck$(*r, v); }\n"},
	{"auto[]", "typedef auto[] T#; T# mk#(int v){ T$[] r = new T$[3]; r[1] = mk$(v); r[2] = mk$(v + 1); T# a = r; return a; } int ck#(T# x, int v){ T$ ref a = x[1], b = x[2]; return ck$(*a, v) && ck$(*b, v + 1); }\n"},
	{"auto_array", "typedef auto[] T#; T# mk#(int v){ T# a = auto_array(T$, 3); T$ p = mk$(v); a.set(&p, 1); p = mk$(v + 1); a.set(&p, 2); return a; } int ck#(T# x, int v){ T$ ref a = x[1], b = x[2]; return ck$(*a, v) && ck$(*b, v + 1); }\n"},
	{"closure", "typedef T$ ref() T#; T# mk#(int v){ T$ c = mk$(v); T$ f(){ return c; } return f; } int ck#(T# x, int v){ return ck$(x(), v); }\n"},
	{"nested closure", "typedef T$ ref() T#; T# mk#(int v){ T$ c = mk$(v); T# g(){ T$ f(){ return c; } return f; } return g(); } int ck#(T# x, int v){ return ck$(x(), v); }\n"},
	{"ref to member", "class C#{ int z; T$ f; T$ g; } typedef T$ ref T#; T# mk#(int v){ C# ref c = new C#; c.f = mk$(v + 1); c.g = mk$(v); return &c.g; } int ck#(T# x, int v){ return ck$(*x, v); }\n"},
	{"ref to element", "typedef T$ ref T#; T# mk#(int v){ T$[] c = new T$[4]; c[2] = mk$(v); c[3] = mk$(v + 1); return &c[2]; } int ck#(T# x, int v){ return ck$(*x, v); }\n"},
	{"returned local array", "typedef T$[] T#; T# mk#(int v){ T$[3] r; r[1] = mk$(v); r[2] = mk$(v + 1); return r; } int ck#(T# x, int v){ return x.size == 3 && ck$(x[1], v) && ck$(x[2], v + 1); }\n"},
	{"returned local object", "class C#{ int z; T$ f; T$ g; } typedef C# ref T#; T# mk#(int v){ C# r; r.f = mk$(v); r.g = mk$(v + 1); return &r; } int ck#(T# x, int v){ return ck$(x.f, v) && ck$(x.g, v + 1); }\n"},
	{"returned local derived object", "class B# extendable{ int z; } class D#: B#{ T$ f; T$ g; } typedef B# ref T#; T# mk#(int v){ D# r; r.f = mk$(v); r.g = mk$(v + 1); return &r; } int ck#(T# x, int v){ D# ref d = x; return ck$(d.f, v) && ck$(d.g, v + 1); }\n"},
	{"returned local member", "class C#{ int z; T$ f; T$ g; } typedef T$ ref T#; T# mk#(int v){ C# r; r.f = mk$(v + 1); r.g = mk$(v); return &r.g; } int ck#(T# x, int v){ return ck$(*x, v); }\n"},
	{"list comprehension", "typedef T$[] T#; T# mk#(int v){ return { for(int i = 0; i < 5; i++) yield mk$(v + i); }; } int ck#(T# x, int v){ int r = x.size == 5; for(int i = 0; i < 5; i++) r = r && ck$(x[i], v + i); return r; }\n"},
	{"fixed array", "typedef T$[2] T#; T# mk#(int v){ T# c; c[0] = mk$(v + 1); c[1] = mk$(v); return c; } int ck#(T# x, int v){ return ck$(x[1], v) && ck$(x[0], v + 1); }\n"},
	{"array of derived elements", "class B# extendable{ int z; } class D#: B#{ T$ f; } typedef D#[] T#; T# mk#(int v){ T# r = new D#[3]; r[1].f = mk$(v); r[2].f = mk$(v + 1); return r; } int ck#(T# x, int v){ return ck$(x[1].f, v) && ck$(x[2].f, v + 1); }\n"},
	{"array of classes", "class C#{ char q; T$ f; int z; } typedef C#[] T#; T# mk#(int v){ T# r = new C#[3]; r[0].f = mk$(v); r[2].f = mk$(v + 1); return r; } int ck#(T# x, int v){ return ck$(x[0].f, v) && ck$(x[2].f, v + 1); }\n"},
	{"method value", "class C#{ int z; T$ f; } T$ C#:get(){ return f; } typedef T$ ref() T#; T# mk#(int v){ C# ref c = new C#; c.f = mk$(v); T# r = c.get; return r; } int ck#(T# x, int v){ return ck$(x(), v); }\n"},
	{"coroutine", "typedef T$ ref() T#; T# mk#(int v){ coroutine T$ f(){ T$ c = mk$(v); T$ d = mk$(v + 1); while(1){ yield c; yield d; } return c; } f(); f(); return f; } int ck#(T# x, int v){ int a = ck$(x(), v); return ck$(x(), v + 1) && a; }\n"},
	{"duplicated object", "class C#{ int z; T$ f; } typedef auto ref T#; T# mk#(int v){ C# ref c = new C#; c.f = mk$(v); return duplicate(c); } int ck#(T# x, int v){ C# ref r = x; return ck$(r.f, v); }\n"},
	{"duplicated array", "typedef auto[] T#; T# mk#(int v){ T$[] r = new T$[3]; r[1] = mk$(v); r[2] = mk$(v + 1); T# a = r; return duplicate(a); } int ck#(T# x, int v){ T$ ref a = x[1], b = x[2]; return ck$(*a, v) && ck$(*b, v + 1); }\n"},
	{"linked list", "class L#{ T$ f; L# ref n; } typedef L# ref T#; T# mk#(int v){ L# ref h; for(int i = 0; i < 5; i++){ L# ref q = new L#; q.f = mk$(v + i); q.n = h; h = q; } return h; } int ck#(T# x, int v){ int r = 1; int k = 4; while(x){ r = r && ck$(x.f, v + k); k--; x = x.n; } return r && k == -1; }\n"},
	{"ring", "class L#{ L# ref n; T$ f; } typedef L# ref T#; T# mk#(int v){ L# ref h = new L#; L# ref q = new L#; h.n = q; q.n = h; h.f = mk$(v); q.f = mk$(v + 1); return h; } int ck#(T# x, int v){ return ck$(x.f, v) && ck$(x.n.f, v + 1) && x.n.n == x; }\n"},
	{"fixed array of fixed arrays", "typedef T$[2] U#; typedef U#[2] T#; T# mk#(int v){ T# c; c[0][1] = mk$(v + 1); c[1][0] = mk$(v); c[0][0] = mk$(v); c[1][1] = mk$(v + 1); return c; } int ck#(T# x, int v){ return ck$(x[1][0], v) && ck$(x[0][1], v + 1) && ck$(x[0][0], v) && ck$(x[1][1], v + 1); }\n"},
	{"closure with argument capture", "typedef T$ ref() T#; T# mkc#(T$ a, int b, T$ c){ T$ f(){ return b ? c : a; } return f; } T# mk#(int v){ return mkc#(mk$(v + 1), 1, mk$(v)); } int ck#(T# x, int v){ return ck$(x(), v); }\n"},
	{"array of aligned classes", "class C#{ double d; T$ f; long l; T$ g; } typedef C#[] T#; T# mk#(int v){ T# r = new C#[3]; r[0].f = mk$(v); r[2].g = mk$(v + 1); r[2].f = mk$(v + 2); return r; } int ck#(T# x, int v){ return ck$(x[0].f, v) && ck$(x[2].g, v + 1) && ck$(x[2].f, v + 2); }\n"},
	{"aligned class", "align(16) class A#{ T$ f; } class C#{ char a; A# k; } typedef C# T#; T# mk#(int v){ T# c; c.k.f = mk$(v); return c; } int ck#(T# x, int v){ return ck$(x.k.f, v); }\n"},
	{"class in class", "class I#{ char a; T$ f; } class C#{ char p; I# i; I#[2] k; } typedef C# T#; T# mk#(int v){ C# c; c.i.f = mk$(v); c.k[1].f = mk$(v + 1); c.k[0].f = mk$(v + 2); return c; } int ck#(T# x, int v){ return ck$(x.i.f, v) && ck$(x.k[1].f, v + 1) && ck$(x.k[0].f, v + 2); }\n"},
	{"generic class ref", "class G#<A, B>{ A a; B b; } typedef G#<int, T$> ref T#; T# mk#(int v){ T# c = new G#<int, T$>; c.b = mk$(v); return c; } int ck#(T# x, int v){ return ck$(x.b, v); }\n"},
	{"class with method-held closure", "class C#{ T$ ref() f; } typedef C# ref T#; T# mk#(int v){ C# ref c = new C#; T$ s = mk$(v); T$ h(){ return s; } c.f = h; return c; } int ck#(T# x, int v){ return ck$(x.f(), v); }\n"},
	{"std.vector", "import std.vector;\ntypedef vector<T$> T#; T# mk#(int v){ T# c; c.vector(); for(int i = 0; i < 5; i++) c.push_back(mk$(v + i)); return c; } int ck#(T# x, int v){ int r = x.size() == 5; for(int i = 0; i < 5; i++) r = r && ck$(x[i], v + i); return r; }\n"},
	{"std.list", "import std.list;\ntypedef list<T$> T#; T# mk#(int v){ T# c; c.list(); for(int i = 0; i < 3; i++) c.push_back(mk$(v + i)); return c; } int ck#(T# x, int v){ int k = 0, r = 1; for(auto n = x.begin(); n; n = n.next){ r = r && ck$(n.elem, v + k); k++; } return r && k == 3; }\n"},
	{"std.hashmap", "import std.hashmap;\nint hash_value(double x){ return int(x); }\ntypedef hashmap<double, T$> T#; T# mk#(int v){ T# c; c.hashmap(); for(int i = 0; i < 3; i++) c[i * 7 + 0.0] = mk$(v + i); return c; } int ck#(T# x, int v){ return ck$(*x.find(0.0), v) && ck$(*x.find(7.0), v + 1) && ck$(*x.find(14.0), v + 2); }\n"},
};
static const int nBase = sizeof(kBase) / sizeof(kBase[0]), nWrap = sizeof(kWrap) / sizeof(kWrap[0]);

// ---- holders: where a value of the outermost type T# lives while collections happen. R(k, ok) records
struct Holder { const char *name, *decl, *body; };	// body may use # and must call R(id, ok)
static const Holder kHold[] = {
	{"global", "T# g#;", "g# = mk#(@); gc(); r = ck#(g#, @);"},
	{"local", "", "T# x = mk#(@); gc(); r = ck#(x, @);"},
	{"initialized twice", "", "T# x = mk#(@ + 5); x = mk#(@); gc(); gc(); r = ck#(x, @);"},
	{"parameter", "int par#(int a, T# x, int b){ gc(); return ck#(x, @) && a == 3 && b == 4; }", "r = par#(3, mk#(@), 4);"},
	{"evaluated argument", "int arg#(T# x, int a, T# y){ return ck#(x, @) && a == 3 && ck#(y, @ + 3); }", "r = arg#(mk#(@), gci(3), mk#(@ + 3));"},
	{"evaluated argument used twice", "int two#(T# x, T# y, T# z){ gc(); return ck#(x, @) && ck#(y, @ + 1) && ck#(z, @ + 2); }", "r = two#(mk#(@), mk#(@ + gci(1)), mk#(gci(@ + 2)));"},
	{"returned value", "T# id#(T# x){ gc(); return x; } T# id2#(T# x){ T# y = id#(x); return id#(y); }", "T# x = id2#(mk#(@)); gc(); r = ck#(x, @);"},
	{"return temporary", "T# rt#(){ return mk#(@ + gci(0)); }", "r = ck#(rt#(), gci(@));"},
	{"captured", "", "T# x = mk#(@); int f(){ gc(); return ck#(x, @); } r = f(); gc(); r = r && f();"},
	{"captured by escaping closure", "int ref() esc#(){ T# x = mk#(@); int f(){ gc(); return ck#(x, @); } gc(); return f; }", "int ref() f = esc#(); gc(); r = f();"},
	{"coroutine local", "", "coroutine int f(){ T# x = mk#(@); yield 1; gc(); yield ck#(x, @); return 0; } f(); gc(); r = f();"},
	{"fixed array local", "", "T#[2] q; q[1] = mk#(@); gc(); q[0] = mk#(@ + 1); gc(); r = ck#(q[1], @) && ck#(q[0], @ + 1);"},
	{"class local", "class H#{ char c; T# f; }", "H# h; h.f = mk#(@); gc(); H# h2 = h; h.f = mk#(@ + 1); gc(); r = ck#(h2.f, @) && ck#(h.f, @ + 1);"},
	{"for-each temporary", "T#[] fe#(){ T#[] q = new T#[2]; q[0] = mk#(@); q[1] = mk#(@ + 1); return q; }", "int k = 0; r = 1; for(x in fe#()){ gc(); r = r && ck#(x, @ + k); k++; }"},
	{"host callback", "", "T# x = mk#(@); int cb(int v){ T# y = mk#(v + 1); gc(); return ck#(y, v + 1); } r = hcall(cb, @); r = r && ck#(x, @);"},
	{"host named callback", "int hn#(int v){ T# y = mk#(v); gc(); return ck#(y, v); }", "T# x = mk#(@); r = hname(\"hn#\", @ + 2); r = r && ck#(x, @);"},
	{"recursion", "int rec#(int d){ T# x = mk#(@ + d); int q = d ? rec#(d - 1) : gci(1); T# y = x; return q && ck#(y, @ + d); }", "r = rec#(4);"},
	{"alias", "", "T# x = mk#(@); T# y = x; x = mk#(@ + 1); gc(); T# z = y; y = mk#(@ + 2); gc(); r = ck#(z, @) && ck#(x, @ + 1) && ck#(y, @ + 2);"},
	{"loop", "", "T# x = mk#(@); r = 1; for(int i = 0; i < 3; i++){ gc(); r = r && ck#(x, @ + i); x = mk#(@ + i + 1); }"},
	{"loop choice", "", "T# x = mk#(@); for(int i = 0; i < 4; i++){ gc(); x = (hide(i) & 1) ? x : mk#(@); } gc(); r = ck#(x, @);"},
	{"inner scope", "", "r = 1; { T# x = mk#(@); gc(); r = ck#(x, @); } { T# y = mk#(@ + 1); gc(); r = r && ck#(y, @ + 1); }"},
	{"member of this", "class M#{ int a; T# f; } int M#:run(){ f = mk#(@); gc(); int a = ck#(f, @); gc(); return a && ck#(this.f, @); }", "M# m; r = m.run(); gc(); r = r && ck#(m.f, @);"},
	{"temporary object method", "class N#{ int a; T# f; } N# ref mkn#(){ N# ref n = new N#; n.f = mk#(@); return n; } int N#:run(){ gc(); return ck#(f, @); }", "r = mkn#().run();"},
	{"variadic", "int va#(auto ref[] args){ gc(); T# ref p = args[1]; return ck#(*p, @); }", "T# a = mk#(@ + 1), b = mk#(@); r = va#(&a, &b); gc(); r = r && ck#(a, @ + 1);"},
	{"global behind ref", "T# ref gr#;", "gr# = new T#; *gr# = mk#(@); gc(); T# c = *gr#; gr# = nullptr; gc(); r = ck#(c, @);"},
	{"host function", "", "T# x = mk#(@); T# ref h = new T#; *h = mk#(@ + 1); gcref(h); r = ck#(*h, @ + 1) && ck#(x, @);"},
	{"host callback argument", "T# ref hk#; int hkf#(int v){ T# ref q = hk#; hk# = nullptr; gc(); return ck#(*q, v); }", "hk# = new T#; *hk# = mk#(@); r = hname(\"hkf#\", @);"},
	{"two results in expression", "int both#(int a, int b){ return a && b; }", "r = both#(ck#(mk#(@), gci(@)), ck#(mk#(@ + gci(1)), @ + 1));"},
};
static const int nHold = sizeof(kHold) / sizeof(kHold[0]);

static std::string sub(std::string s, int own, int inner, int val)
{
	std::string r; for(size_t i = 0; i < s.size(); i++){ if(s[i] == '#') r += fmt("%d", own); else if(s[i] == '$') r += fmt("%d", inner); else if(s[i] == '@') r += fmt("%d", val); else r += s[i]; } return r;
}
static std::string hoistImports(const std::string &s, std::string &imports)
{
	std::string r; size_t p = 0; while(p < s.size()){ size_t e = s.find('\n', p); if(e == std::string::npos) e = s.size(); std::string l = s.substr(p, e - p + 1); if(l.compare(0, 15, "int hash_value(") == 0){ if(imports.find("//hash") == std::string::npos){ imports += "//hash\n"; r += l; } } else if(l.compare(0, 7, "import ") == 0){ if(imports.find(l) == std::string::npos) imports += l; } else r += l; p = e + 1; } return r;
}
// one program: a list of outermost levels, all holders for each
struct Prog { std::string decl, imports; std::vector<int> tops; std::vector<std::string> names; int next = 0; };
static int addLevel(Prog &p, const char *decl, int inner){ int own = p.next++; p.decl += hoistImports(sub(decl, own, inner, 0), p.imports); return own; }
static std::string text(Prog &p, bool explicitGc, std::vector<std::string> &labels, int onlyTop = -1, int onlyHold = -1)
{
	std::string s = p.imports + "import mg;\nimport mc;\nimport std.gc;\n";
	s += explicitGc ? "void gc(){ GC.CollectMemory(); junk(); }\nint gci(int v){ return gc_(v); }\n" : "void gc(){ junk(); }\nint gci(int v){ junk(); return v; }\n";
	s += p.decl; std::string calls; labels.clear();
	for(size_t t = 0; t < p.tops.size(); t++) for(int h = 0; h < nHold; h++)
	{
		if((onlyTop >= 0 && (int)t != onlyTop) || (onlyHold >= 0 && h != onlyHold)) continue;
		int k = (int)labels.size(); labels.push_back(p.names[t] + " held by " + kHold[h].name);
		int val = 10 + h + (int)t;
		s += sub(kHold[h].decl, p.tops[t], 0, val) + "\n" + fmt("int run%d(){ int r = 0; ", k) + sub(kHold[h].body, p.tops[t], 0, val) + " return r; }\n";
		calls += fmt("R[%d] = run%d() + 1;\n", k, k);
	}
	return s + fmt("int[%d] R;\n", (int)labels.size()) + calls + "return 1;\n";
}
static const Config kCfg[] = {{NULLC_REG_VM, 2}, {NULLC_X86, 2}, {NULLC_REG_VM, 0}, {NULLC_X86, 0}, {NULLC_REG_VM, 1}, {NULLC_X86, 1}};
static bool once(const std::string &src, Config cf, bool every, std::vector<int> &R, size_t n, std::string &err)
{
	env(every);
	nullcSetExecutor(cf.exec); nullcSetOptimizationLevel(cf.opt);
	if(!nullcBuild(src.c_str())){ err = std::string("does not compile: ") + nullcGetLastError(); return false; }
	if(every && &NULLC::collectableMinimum) NULLC::collectableMinimum = 0;
	bool ok = nullcRun() != 0;
	if(!ok) err = nullcGetLastError();
	int *r = (int*)nullcGetGlobal("R"); R.assign(r, r + n); return ok;
}
static void runProg(Prog &p, mc::Ctx &c, bool thorough, int only = -1)
{
	for(int every = 0; every < 2; every++)
	{
		std::vector<std::string> labels; std::string src = text(p, !every, labels);
		for(size_t q = 0; q < (thorough ? 6u : every ? 2u : 4u); q++)
		{
			if(only >= 0 && !thorough && (int)q != (every ? (only + 1) % 2 : only % 4)) continue;
			std::vector<int> R; std::string err; bool ok = once(src, kCfg[q], every, R, labels.size(), err);
			if(!ok && err.compare(0, 8, "does not") == 0){ c.fail(err + "\n" + src); return; }
			c.exec(labels.size()); c.step(labels.size());
			for(size_t k = 0; k < labels.size(); k++)
			{
				if(R[k] == 2){ c.state(mc::hashStr(labels[k])); continue; }
				c.fail(fmt("%s, %s: %s: ", cfgName(kCfg[q]), every ? "collection at every allocation" : "explicit collections", R[k] == 1 ? "contents changed" : "not completed") + labels[k] + (err.empty() ? "" : ": " + err.substr(0, 200)), labels[k]);
				if(!ok) break;
				if(c.nfail > 6) return;
			}
			if(!ok) return;
		}
	}
}
int main(int argc, char **argv)
{
	mc::Engine e("C06", argc, argv);
	e.technique = "bounded exhaustive enumeration of object shapes x holders x collection schedules on the real collector";
	e.rule = "every value built before a collection has the expected contents after it";
	auto add = [&](const char *nm, u64 count, std::function<Prog(u64)> mk, bool rotate = false)
	{
		mc::Space s; s.name = nm; s.count = count; s.chunk = 1; s.caseTimeout = 120;
		bool th = e.thorough;
		s.run = [mk, th, rotate](u64 i, mc::Ctx &c){ Prog p = mk(i); runProg(p, c, th, rotate ? int(i % 7) : -1); };
		s.describe = [mk](u64 i){ Prog p = mk(i); std::vector<std::string> l; return text(p, true, l); };
		e.add(s);
	};
	// shapes: base, one wrapper, two wrappers
	add("shapes-1", nBase, [](u64 i){ Prog p; int b = addLevel(p, kBase[i].decl, 0); p.tops.push_back(b); p.names.push_back(kBase[i].name); return p; });
	add("shapes-2", (u64)nBase * nWrap, [](u64 i){ Prog p; int b = i / nWrap, w = i % nWrap; int l0 = addLevel(p, kBase[b].decl, 0); int l1 = addLevel(p, kWrap[w].decl, l0); p.tops.push_back(l1); p.names.push_back(std::string(kWrap[w].name) + " of " + kBase[b].name); return p; });
	static const int bases3[] = {0, 4, 5};
	int nb3 = e.thorough ? nBase : 1;
	add("shapes-3", (u64)nb3 * nWrap * nWrap, [nb3](u64 i){ Prog p; int b = nb3 == nBase ? (int)(i / nWrap / nWrap) : (int)((i / nWrap + i % nWrap) % nBase); int w1 = i / nWrap % nWrap, w2 = i % nWrap; int l0 = addLevel(p, kBase[b].decl, 0); int l1 = addLevel(p, kWrap[w1].decl, l0), l2 = addLevel(p, kWrap[w2].decl, l1); p.tops.push_back(l2); p.names.push_back(std::string(kWrap[w2].name) + " of " + kWrap[w1].name + " of " + kBase[b].name); return p; }, true);
	return e.finish();
}
