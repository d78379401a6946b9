// C19: every host function signature of a bounded family of types, positions and bindings called from the script, and every script function called from the host, on the real code.
#include "../lib/nc.h"
#include "NULLC/nullbind.h"
#include <tuple>
#include <utility>
#include <algorithm>
#include <type_traits>
using namespace nc;
typedef std::string S;
typedef long long ll;
// ---- values: every leaf is a function of a seed
static uint64_t hsh(uint64_t x){ x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static int gIv[16]; static NULLCFuncPtr gFn[4];
static char gStr[8][8] = {"", "a", "bc", "def", "ghij", "klmno", "pqrstu", "x"};
static int gArr[5] = {11, 22, 33, 44, 55};
struct IntRef { int *p; }; struct AnyStr { NULLCArray a; };
static S num(double d){ S s = fmt("%.17g", d); if(s.find_first_of(".en") == S::npos) s += ".0"; return s; }
// make(seed), text(value) for the host; type name, initialisation statement and trace statement for the script
template<class T> struct L;
#define INTLEAF(T, NAME, EXPR) template<> struct L<T>{ static S name(){ return NAME; } static T make(unsigned s){ uint64_t h = hsh(s); return (T)(EXPR); } static S text(T v){ return fmt("%d", (int)v); } static S init(const S &v, unsigned s){ return v + " = " + fmt("%d", (int)make(s)) + "; "; } static S lit(unsigned s){ return fmt("%d", (int)make(s)); } static S show(const S &v){ return "t(int(" + v + ")); "; } static S want(T v){ return fmt("%d ", (int)v); } }
INTLEAF(bool, "bool", (h >> 5) & 1); INTLEAF(char, "char", h >> 7); INTLEAF(short, "short", h >> 9); INTLEAF(int, "int", h % 7 == 0 ? -1 : int(h >> 11));
template<> struct L<ll>{ static S name(){ return "long"; } static ll make(unsigned s){ return (ll)hsh(s); } static S text(ll v){ return fmt("%lld", v); } static S lit(unsigned s){ return fmt("%lldl", make(s)); } static S init(const S &v, unsigned s){ return v + " = " + lit(s) + "; "; } static S show(const S &v){ return "tl(" + v + "); "; } static S want(ll v){ return fmt("%lldL ", v); } };
template<> struct L<float>{ static S name(){ return "float"; } static float make(unsigned s){ return int(hsh(s) % 200001 - 100000) / 8.0f; } static S text(float v){ return num(v); } static S lit(unsigned s){ return num(make(s)); } static S init(const S &v, unsigned s){ return v + " = " + lit(s) + "; "; } static S show(const S &v){ return "td(" + v + "); "; } static S want(float v){ return fmt("%.17gd ", (double)v); } };
template<> struct L<double>{ static S name(){ return "double"; } static double make(unsigned s){ return ll(hsh(s) >> 16) / 1024.0 - 1e11; } static S text(double v){ return num(v); } static S lit(unsigned s){ return num(make(s)); } static S init(const S &v, unsigned s){ return v + " = " + lit(s) + "; "; } static S show(const S &v){ return "td(" + v + "); "; } static S want(double v){ return fmt("%.17gd ", v); } };
template<> struct L<IntRef>{ static S name(){ return "int ref"; } static IntRef make(unsigned s){ return IntRef{s % 5 == 4 ? nullptr : &gIv[s & 15]}; } static S text(IntRef v){ return v.p ? fmt("@%d", *v.p) : S("@null"); } static S init(const S &v, unsigned s){ return s % 5 == 4 ? "" : v + fmt(" = &iv[%d]; ", s & 15); } static S lit(unsigned s){ return s % 5 == 4 ? S("nullptr") : fmt("&iv[%d]", s & 15); } static S show(const S &v){ return "if(" + v + " != nullptr) t(*" + v + "); else ts(\"null\"); "; } static S want(IntRef v){ return v.p ? fmt("%d ", *v.p) : S("'null' "); } };
template<> struct L<NULLCArray>{ static S name(){ return "char[]"; } static NULLCArray make(unsigned s){ NULLCArray a; a.ptr = s % 8 ? gStr[s % 8] : nullptr; a.len = s % 8 ? (unsigned)strlen(a.ptr) + 1 : 0; return a; } static S text(NULLCArray v){ return fmt("%u'%s'", v.len, v.ptr ? v.ptr : ""); } static S init(const S &v, unsigned s){ return s % 8 ? v + " = \"" + gStr[s % 8] + "\"; " : S(); } static S lit(unsigned s){ return S(); } static S show(const S &v){ return "t(" + v + ".size); ts(" + v + "); "; } static S want(NULLCArray v){ return fmt("%u '%s' ", v.len, v.ptr ? v.ptr : ""); } };
template<> struct L<NULLCRef>{ static S name(){ return "auto ref"; } static NULLCRef make(unsigned s){ NULLCRef r; r.typeID = s % 5 == 4 ? 0 : NULLC_TYPE_INT; r.ptr = s % 5 == 4 ? nullptr : (char*)&gIv[s & 15]; return r; } static S text(NULLCRef v){ return v.ptr ? fmt("%u@%d", v.typeID, *(int*)v.ptr) : fmt("%u@null", v.typeID); } static S init(const S &v, unsigned s){ return s % 5 == 4 ? "" : v + fmt(" = &iv[%d]; ", s & 15); } static S lit(unsigned s){ return S(); } static S show(const S &v){ return "if(" + v + " != nullptr) t(int(" + v + ")); else ts(\"null\"); "; } static S want(NULLCRef v){ return v.ptr ? fmt("%d ", *(int*)v.ptr) : S("'null' "); } };
template<> struct L<NULLCFuncPtr>{ static S name(){ return "int ref(int)"; } static NULLCFuncPtr make(unsigned s){ return gFn[s & 3]; } static S text(NULLCFuncPtr v){ if(!nullcCallFunction(v, 3)) return "call failed"; return fmt("f%d", nullcGetResultInt()); } static S init(const S &v, unsigned s){ return v + fmt(" = fn[%d]; ", s & 3); } static S lit(unsigned s){ return S(); } static S show(const S &v){ return "t(" + v + "(3)); "; } static S want(NULLCFuncPtr v){ for(int k = 0; k < 4; k++) if(gFn[k].id == v.id && gFn[k].context == v.context) return fmt("%d ", 30 + k); return "?"; } };
template<> struct L<NULLCAutoArray>{ static S name(){ return "auto[]"; } static NULLCAutoArray make(unsigned s){ NULLCAutoArray a; a.typeID = s % 6 == 5 ? 0 : NULLC_TYPE_INT; a.ptr = s % 6 == 5 ? nullptr : (char*)gArr; a.len = s % 6 == 5 ? 0 : s % 6 + 1; return a; } static S text(NULLCAutoArray v){ S r = fmt("%u[", v.typeID); for(unsigned k = 0; k < v.len && k < 6; k++) r += fmt("%d ", ((int*)v.ptr)[k]); return r + "]"; } static S init(const S &v, unsigned s){ return s % 6 == 5 ? S() : v + fmt(" = ar[%d]; ", s % 6); } static S lit(unsigned s){ return S(); } static S show(const S &v){ return "t(" + v + ".size); for(int q = 0; q < " + v + ".size; q++) t(int(" + v + "[q])); "; } static S want(NULLCAutoArray v){ S r = fmt("%u ", v.len); for(unsigned k = 0; k < v.len; k++) r += fmt("%d ", ((int*)v.ptr)[k]); return r; } };
// classes: leaves listed by each()
#define CLS(NAME, FIELDS, DECL, EACH) struct NAME { FIELDS; static const char *nm(){ return #NAME; } static const char *decl(){ return "class " #NAME "{ " DECL " }\n"; } template<class F> void each(F f){ EACH; } }
CLS(Si, int a, "int a;", f("a", a)); CLS(Sii, int a; int b, "int a; int b;", f("a", a); f("b", b)); CLS(Sff, float a; float b, "float a; float b;", f("a", a); f("b", b)); CLS(Sdd, double a; double b, "double a; double b;", f("a", a); f("b", b));
CLS(Sli, ll a; int b, "long a; int b;", f("a", a); f("b", b)); CLS(Sil, int a; ll b, "int a; long b;", f("a", a); f("b", b)); CLS(Sdi, double a; int b, "double a; int b;", f("a", a); f("b", b)); CLS(Sld, ll a; double b, "long a; double b;", f("a", a); f("b", b)); CLS(Sdl, double a; ll b, "double a; long b;", f("a", a); f("b", b)); CLS(Sifd, int a; float b; double c, "int a; float b; double c;", f("a", a); f("b", b); f("c", c));
CLS(Slll, ll a; ll b; ll c, "long a; long b; long c;", f("a", a); f("b", b); f("c", c)); CLS(Scs, char a; short b, "char a; short b;", f("a", a); f("b", b)); CLS(Sc, char a, "char a;", f("a", a)); CLS(Ss, short a, "short a;", f("a", a)); CLS(Sf, float a, "float a;", f("a", a)); CLS(Sd, double a, "double a;", f("a", a)); CLS(Sfff, float a; float b; float c, "float a; float b; float c;", f("a", a); f("b", b); f("c", c)); CLS(Sffff, float a; float b; float c; float d, "float a; float b; float c; float d;", f("a", a); f("b", b); f("c", c); f("d", d));
CLS(Sffi, float a; float b; int c, "float a; float b; int c;", f("a", a); f("b", b); f("c", c)); CLS(Siff, int a; float b; float c, "int a; float b; float c;", f("a", a); f("b", b); f("c", c)); CLS(Sif, int a; float b, "int a; float b;", f("a", a); f("b", b)); CLS(Sc3, char a; char b; char c, "char a; char b; char c;", f("a", a); f("b", b); f("c", c)); CLS(Siii, int a; int b; int c, "int a; int b; int c;", f("a", a); f("b", b); f("c", c)); CLS(Slc, ll a; char b, "long a; char b;", f("a", a); f("b", b)); CLS(Sics, int a; char b; short c, "int a; char b; short c;", f("a", a); f("b", b); f("c", c));
CLS(Sia3, int a[3], "int[3] a;", f("a[0]", a[0]); f("a[1]", a[1]); f("a[2]", a[2])); CLS(Sfa2, float a[2], "float[2] a;", f("a[0]", a[0]); f("a[1]", a[1])); CLS(Sda2, double a[2], "double[2] a;", f("a[0]", a[0]); f("a[1]", a[1]));
CLS(Snf, Sff p; double d, "Sff p; double d;", f("p.a", p.a); f("p.b", p.b); f("d", d)); CLS(Snc, int a; Scs b, "int a; Scs b;", f("a", a); f("b.a", b.a); f("b.b", b.b)); CLS(Snn, Sif p; Sif q, "Sif p; Sif q;", f("p.a", p.a); f("p.b", p.b); f("q.a", q.a); f("q.b", q.b));
CLS(Sb, ll a[66], "long[66] a;", for(int k = 0; k < 66; k++) f(fmt("a[%d]", k).c_str(), a[k])); CLS(Sb2, ll a[300], "long[300] a;", for(int k = 0; k < 300; k++) f(fmt("a[%d]", k).c_str(), a[k]));
struct Se { static const char *nm(){ return "Se"; } static const char *decl(){ return "class Se{ }\n"; } template<class F> void each(F f){} };
#pragma pack(push, 4)
CLS(Spi, IntRef a; int b, "int ref a; int b;", f("a", a); f("b", b)); CLS(Sip, int a; IntRef b, "int a; int ref b;", f("a", a); f("b", b)); CLS(Sp, IntRef a, "int ref a;", f("a", a)); CLS(Spp, IntRef a; IntRef b, "int ref a; int ref b;", f("a", a); f("b", b)); CLS(Spd, IntRef a; double b, "int ref a; double b;", f("a", a); f("b", b));
#pragma pack(pop)
struct Zs { int q; };
template<class T> struct X	// class types and basic leaves, one interface
{
	static const bool cls = true; static S name(){ return T::nm(); } static S decl(){ return T::decl(); }
	static T make(unsigned s){ T v; memset((void*)&v, 0, sizeof(v)); unsigned k = 0; v.each([&](const char*, auto &x){ typedef typename std::remove_reference<decltype(x)>::type V; x = L<V>::make(s + 31 * k++); }); return v; }
	static S text(const T &v){ T c = v; S r = "{"; c.each([&](const char*, auto &x){ typedef typename std::remove_reference<decltype(x)>::type V; r += L<V>::text(x) + ","; }); return r + "}"; }
	static S want(const T &v){ T c = v; S r; c.each([&](const char*, auto &x){ typedef typename std::remove_reference<decltype(x)>::type V; r += L<V>::want(x); }); return r; }
	static S init(const S &n, unsigned s){ T v; S r; unsigned k = 0; v.each([&](const char *m, auto &x){ typedef typename std::remove_reference<decltype(x)>::type V; r += L<V>::init(n + "." + m, s + 31 * k++); }); return r; }
	static S show(const S &n){ T v; S r; v.each([&](const char *m, auto &x){ typedef typename std::remove_reference<decltype(x)>::type V; r += L<V>::show(n + "." + m); }); return r; }
	static S lit(unsigned){ return S(); }
};
template<class T> struct XL { static const bool cls = false; static S name(){ return L<T>::name(); } static S decl(){ return S(); } static T make(unsigned s){ return L<T>::make(s); } static S text(const T &v){ return L<T>::text(v); } static S want(const T &v){ return L<T>::want(v); } static S init(const S &n, unsigned s){ return L<T>::init(n, s); } static S show(const S &n){ return L<T>::show(n); } static S lit(unsigned s){ return L<T>::lit(s); } };
template<> struct X<bool> : XL<bool>{}; template<> struct X<char> : XL<char>{}; template<> struct X<short> : XL<short>{}; template<> struct X<int> : XL<int>{}; template<> struct X<ll> : XL<ll>{}; template<> struct X<float> : XL<float>{}; template<> struct X<double> : XL<double>{}; template<> struct X<IntRef> : XL<IntRef>{}; template<> struct X<NULLCArray> : XL<NULLCArray>{}; template<> struct X<NULLCRef> : XL<NULLCRef>{}; template<> struct X<NULLCFuncPtr> : XL<NULLCFuncPtr>{}; template<> struct X<NULLCAutoArray> : XL<NULLCAutoArray>{};
enum En { EA, EB, EC, ED = 1000 }; struct Ti { unsigned id; };
template<> struct X<En>{ static const bool cls = false; static S name(){ return "En"; } static S decl(){ return "enum En{ EA, EB, EC, ED = 1000 }\n"; } static En make(unsigned s){ static const En k[] = {EA, EB, EC, ED}; return k[hsh(s) & 3]; } static S text(En v){ return fmt("e%d", (int)v); } static S want(En v){ return fmt("%d ", (int)v); } static const char *lab(unsigned s){ static const char *k[] = {"En.EA", "En.EB", "En.EC", "En.ED"}; return k[hsh(s) & 3]; } static S init(const S &n, unsigned s){ return n + " = " + lab(s) + "; "; } static S lit(unsigned s){ return lab(s); } static S show(const S &n){ return "t(int(" + n + ")); "; } };
template<> struct X<Ti>{ static const bool cls = false; static S name(){ return "typeid"; } static S decl(){ return S(); } static const char *lab(unsigned s){ static const char *k[] = {"int", "double", "auto ref", "bool"}; return k[hsh(s) & 3]; } static Ti make(unsigned s){ static const unsigned k[] = {NULLC_TYPE_INT, NULLC_TYPE_DOUBLE, NULLC_TYPE_AUTO_REF, NULLC_TYPE_BOOL}; return Ti{k[hsh(s) & 3]}; } static S text(Ti v){ return fmt("type%u", v.id); } static S want(Ti v){ return fmt("%d ", v.id == NULLC_TYPE_INT ? 1 : v.id == NULLC_TYPE_DOUBLE ? 2 : v.id == NULLC_TYPE_AUTO_REF ? 3 : v.id == NULLC_TYPE_BOOL ? 4 : 0); } static S init(const S &n, unsigned s){ return n + " = " + lab(s) + "; "; } static S lit(unsigned s){ return lab(s); } static S show(const S &n){ return "t(" + n + " == int ? 1 : " + n + " == double ? 2 : " + n + " == auto ref ? 3 : " + n + " == bool ? 4 : 0); "; } };
template<> struct X<void>{ static S name(){ return "void"; } static S decl(){ return S(); } };
template<> struct X<Zs*>{ static const bool cls = true; static S name(){ return "Z ref"; } static S decl(){ return S(); } static Zs *make(unsigned s){ return nullptr; } static S text(Zs *v){ return v ? fmt("Z%d", v->q) : S("Znull"); } static S init(const S &n, unsigned s){ return S(); } static S lit(unsigned){ return S(); } };
// pointers are passed to host functions as plain pointers
template<class T> struct H2 { typedef T type; static const T &back(const T &v){ return v; } }; template<> struct H2<IntRef>{ typedef int *type; static IntRef back(int *p){ return IntRef{p}; } };
static S gGot; static unsigned gRetSeed; static S gWantRet;
template<class T> __attribute__((noinline)) void rec(const T &v){ gGot += X<T>::text(v); gGot += ' '; }
template<class R, class... A> struct Host { static typename H2<R>::type fn(typename H2<A>::type... a){ (rec<A>(H2<A>::back(a)), ...); R r = X<R>::make(gRetSeed); if constexpr(std::is_same<R, IntRef>::value) return r.p; else return r; } };
template<class... A> struct Host<void, A...> { static void fn(typename H2<A>::type... a){ (rec<A>(H2<A>::back(a)), ...); } };
struct Ops { S (*name)(); S (*decl)(); S (*init)(const S&, unsigned); S (*lit)(unsigned); S (*textOf)(unsigned); S (*show)(const S&); S (*wantOf)(unsigned); bool cls; };
template<class T> __attribute__((noinline)) const Ops *ops(){ static Ops o = {X<T>::name, X<T>::decl, X<T>::init, X<T>::lit, [](unsigned s) -> S { return X<T>::text(X<T>::make(s)); }, [](const S &n) -> S { if constexpr(std::is_same<T, Zs*>::value) return S(); else return X<T>::show(n); }, [](unsigned s) -> S { if constexpr(std::is_same<T, Zs*>::value) return S(); else return X<T>::want(X<T>::make(s)); }, X<T>::cls}; return &o; }
template<> const Ops *ops<void>(){ return nullptr; }
struct Sig { const Ops *ret; std::vector<const Ops*> args; void (*raw)(); nullcFunc wrapper; };
__attribute__((noinline)) static Sig mkSig(const Ops *ret, const Ops *const *a, size_t n, void (*raw)(), nullcFunc w){ Sig s; s.ret = ret; s.args.assign(a, a + n); s.raw = raw; s.wrapper = w; return s; }
__attribute__((noinline)) static void put(std::vector<Sig> &v, const Sig &s){ v.push_back(s); }
template<class R, class... A> Sig sig(){ const Ops *a[] = {ops<A>()..., nullptr}; return mkSig(ops<R>(), a, sizeof...(A), (void(*)())&Host<R, A...>::fn, nullptr); }
template<class R, class... A> Sig sigw(){ const Ops *a[] = {ops<A>()..., nullptr}; return mkSig(ops<R>(), a, sizeof...(A), (void(*)())&Host<R, A...>::fn, nullcGetCallWrapper(&Host<R, A...>::fn)); }
template<class... T> struct TL {};
typedef TL<bool, char, short, int, ll, float, double, IntRef, NULLCArray, NULLCRef, NULLCFuncPtr, NULLCAutoArray> Basic;
typedef TL<bool, char, short, int, ll, float, double, IntRef, NULLCArray, NULLCRef, NULLCFuncPtr, NULLCAutoArray, En, Ti, Si, Sii, Sff, Sdd, Sli, Sdi, Sld, Sdl, Sifd, Slll, Scs, Sc, Ss, Sf, Sd, Sfff, Sffff, Sffi, Siff, Sif, Sc3, Siii, Sics, Sia3, Sfa2, Sda2, Snf, Snc, Snn, Se, Spi, Sip, Sp, Spp, Spd, Sil, Slc> All;
typedef TL<int, ll, double, NULLCArray, Sff, Sld, Slll, Sc, Spd> Few;
typedef TL<char, int, ll, float, double, NULLCArray, Sff, Sld, Slll, Sc, Spd, Sdi> Pick;
typedef TL<bool, short, IntRef, NULLCRef, NULLCFuncPtr, NULLCAutoArray, Si, Sii, Sdd, Sli, Sdl, Sifd, Scs, Ss, Sf, Sd, Sfff, Sffff, Sffi, Siff, Sif, Sc3, Siii, Sics, Sia3, Sfa2, Sda2, Snf, Snc, Snn, Se, Spi, Sip, Sp, Spp, Sil, Slc> Rest;
static std::vector<Sig> gSingle, gPair, gTriple, gPrefix, gReturn, gBig, gMethod;
template<class A, class... B> void pairs1(TL<B...>){ (put(gPair, sigw<void, A, B>()), ...); }
template<class M, class... A> void pairs(TL<A...>, M m){ (pairs1<A>(m), ...); }
template<class A, class B, class... C> void triples2(TL<C...>){ (put(gTriple, sig<void, A, B, C>()), ...); }
template<class A, class... B> void triples1(TL<B...> l){ (triples2<A, B>(l), ...); }
template<class... A> void triples(TL<A...> l){ (triples1<A>(l), ...); }
template<class... P> struct Pre { template<class... T> static void add(TL<T...>){ (put(gPrefix, sig<void, P..., T, ll, double, int, float>()), ...); } template<class... T> static void method(TL<T...>){ (put(gMethod, sig<void, P..., T, Zs*>()), ...); } };
template<class... T> void prefixes(TL<T...> l)
{
	typedef double d; typedef int i;
	Pre<i>::add(l); Pre<i, i>::add(l); Pre<i, i, i>::add(l); Pre<i, i, i, i>::add(l); Pre<i, i, i, i, i>::add(l); Pre<i, i, i, i, i, i>::add(l); Pre<i, i, i, i, i, i, i>::add(l);
	Pre<d, d, d, d, d>::add(l); Pre<d, d, d, d, d, d>::add(l); Pre<d, d, d, d, d, d, d>::add(l); Pre<d, d, d, d, d, d, d, d>::add(l); Pre<d, d, d, d, d, d, d, d, d>::add(l);
	Pre<i, i, i, i, i, d, d, d, d, d, d, d>::add(l); Pre<i, i, i, i, i, i, d, d, d, d, d, d, d, d>::add(l); Pre<i, i, i, i, i, i, d, d, d, d, d, d, d>::add(l); Pre<i, i, i, i, i, d, d, d, d, d, d, d, d>::add(l);
	Pre<>::method(l); Pre<i, i, i, i>::method(l); Pre<i, i, i, i, i>::method(l); Pre<d, d, d, d, d, d, d, d>::method(l);
}
template<class... R> void returns(TL<R...>)
{
	typedef double d; typedef int i;
	(put(gReturn, sigw<R>()), ...); (put(gReturn, sigw<R, i>()), ...); (put(gReturn, sigw<R, d>()), ...); (put(gReturn, sigw<R, i, i, i, i, i>()), ...); (put(gReturn, sigw<R, i, i, i, i, i, i, i>()), ...); (put(gReturn, sigw<R, Slll, i>()), ...); (put(gReturn, sigw<R, R>()), ...); (put(gReturn, sigw<R, Sld, Sff>()), ...);
}
template<class T, size_t... I> Sig rep(std::index_sequence<I...>){ return sigw<void, std::conditional_t<(I < 1000), T, void>...>(); }
template<class T, size_t N> void manyN(){ put(gBig, rep<T>(std::make_index_sequence<N>())); }
template<class T, size_t... I> void many(std::index_sequence<I...>){ (manyN<T, I + 1>(), ...); }
template<class... T> void singles(TL<T...>){ (put(gSingle, sigw<void, T>()), ...); (put(gSingle, sigw<T, T>()), ...); }
template<class... T> void repeats(TL<T...>){ (many<T>(std::make_index_sequence<15>()), ...); }
static S sigText(const Sig &s){ S r = s.ret ? s.ret->name() : S("void"); r += " f("; for(auto *a : s.args) r += a->name() + ", "; return r + ")"; }
static S types(const Sig &s)
{
	S r = "class Z{ int q; }\n"; std::vector<S> seen; auto add = [&](const S &d){ if(!d.empty() && std::find(seen.begin(), seen.end(), d) == seen.end()){ seen.push_back(d); r += d; } };
	auto need = [&](const Ops *o){ if(!o) return; S n = o->name(); if(n == "Snf") add(Sff::decl()); if(n == "Snc") add(Scs::decl()); if(n == "Snn") add(Sif::decl()); add(o->decl()); }; need(s.ret); for(auto *a : s.args) need(a); return r;
}
static const char *kSetup = "int[16] iv; for(int k = 0; k < 16; k++) iv[k] = k * 7 - 20;\nint h0(int x){ return x * 10; } int h1(int x){ return x * 10 + 1; } int h2(int x){ return x * 10 + 2; } int h3(int x){ return x * 10 + 3; }\nint ref(int)[4] fn; fn[0] = h0; fn[1] = h1; fn[2] = h2; fn[3] = h3;\nint[] mk(int n){ int[] r = new int[n]; for(int k = 0; k < n; k++) r[k] = (k + 1) * 11; return r; }\ntypedef auto[] AA; AA[6] ar; for(int k = 0; k < 5; k++) ar[k] = mk(k + 1);\n";
static void t_setf(int k, NULLCFuncPtr f){ gFn[k & 3] = f; }
enum { RAW, WRAP, INDIRECT, LITERAL, METHOD };
static void callCase(const Sig &s, int how, int var, Config cfg, mc::Ctx &c)
{
	for(int k = 0; k < 16; k++) gIv[k] = k * 7 - 20; fresh(STD_NONE, true); bool method = how == METHOD; size_t n = s.args.size() - (method ? 1 : 0);
	S proto = s.ret ? s.ret->name() : S("void"); proto += method ? " Z:f(" : " f("; for(size_t k = 0; k < n; k++) proto += fmt("%s%s a%d", k ? ", " : "", s.args[k]->name().c_str(), (int)k); proto += ");\n";
	S mod = types(s) + proto + "void setf(int k, int ref(int) f);\n"; c.exec(); c.step();
	if(!nullcLoadModuleBySource("hm", mod.c_str())){ c.fail("module refused: " + firstLine(nullcGetLastError()) + " " + mod, "module"); return; }
	const char *fname = method ? "Z::f" : "f"; bool ok = how == WRAP ? (bool)nullcBindModuleFunctionWrapper("hm", (void*)s.raw, s.wrapper, fname, 0) : nullcBindModuleFunction("hm", s.raw, fname, 0); ok &= (bool)nullcBindModuleFunction("hm", (void(*)())t_setf, "setf", 0); if(!ok){ c.fail("bind failed: " + firstLine(nullcGetLastError()), "bind"); return; }
	S src = "import mc; import hm;\n" + S(kSetup), call, want; unsigned seed = 1000 * var + 17; src += "for(int k = 0; k < 4; k++) setf(k, fn[k]);\n"; if(method) src += "Z zz; zz.q = 4321;\n"; if(how == INDIRECT) src += "auto pf = f;\n";
	src += "int work(){\n"; for(size_t k = 0; k < n; k++)
	{
		unsigned sd = seed + 13 * (unsigned)k; S lit = how == LITERAL ? s.args[k]->lit(sd) : S(); if(k) call += ", "; if(!lit.empty()){ call += lit; }
		else { src += s.args[k]->name() + fmt(" arg%d; ", (int)k) + s.args[k]->init(fmt("arg%d", (int)k), sd); call += fmt("arg%d", (int)k); }
	}
	gRetSeed = seed + 7777; src += s.ret ? s.ret->name() + " r = " : S(); src += method ? "zz.f(" : how == INDIRECT ? "pf(" : "f("; src += call + ");\n"; if(s.ret) src += s.ret->show("r"); src += "t(99);\n"; for(size_t k = 0; k < n; k++) if(call.find(fmt("arg%d", (int)k)) != S::npos) src += s.args[k]->show(fmt("arg%d", (int)k)); src += "return 5; }\nreturn work();";
	gGot.clear(); Outcome o = run(src, cfg); S got = gGot;
	S id = fmt("%s how %d value %d %s", sigText(s).c_str(), how, var, cfgName(cfg));
	if(!o.built){ c.fail(id + ": " + o.error + "\n" + src, "build " + sigText(s)); return; } if(!o.ran){ c.fail(id + ": " + o.error, "run " + id); return; }
	// texts that call script functions need the program to be linked
	for(size_t k = 0; k < n; k++) want += s.args[k]->textOf(seed + 13 * (unsigned)k) + " "; if(method) want += "Z4321 ";
	S wt = "OK int 5 | trace: "; if(s.ret) wt += s.ret->wantOf(gRetSeed); wt += "99 "; for(size_t k = 0; k < n; k++) if(call.find(fmt("arg%d", (int)k)) != S::npos) wt += s.args[k]->wantOf(seed + 13 * (unsigned)k);
	c.state(mc::hashStr(got + o.trace)); if(got != want) c.fail(id + ": host expected '" + want.substr(0, 300) + "' observed '" + got.substr(0, 300) + "'", "args " + id); else if(o.text() != wt) c.fail(id + ": script expected '" + wt.substr(0, 300) + "' observed '" + o.text().substr(0, 300) + "'", "result " + id);
}
static const Config kCfg[] = {{NULLC_REG_VM, 2}, {NULLC_X86, 2}, {NULLC_X86, 0}};
static void addSpace(mc::Engine &e, const char *name, std::vector<Sig> *v, std::vector<int> hows, int vars)
{
	mc::Space sp; sp.name = name; sp.count = v->size() * hows.size() * vars * 3; sp.chunk = 64; sp.caseTimeout = 60;
	sp.run = [=](u64 i, mc::Ctx &c){ Config cfg = kCfg[i % 3]; i /= 3; int how = hows[i % hows.size()]; i /= hows.size(); int var = i % vars; i /= vars; callCase((*v)[i], how, var, cfg, c); };
	sp.describe = [=](u64 i){ Config cfg = kCfg[i % 3]; i /= 3; int how = hows[i % hows.size()]; i /= hows.size(); int var = i % vars; i /= vars; return fmt("%s how %d value %d %s", sigText((*v)[i]).c_str(), how, var, cfgName(cfg)); }; e.add(sp);
}
// ---- script functions called from the host: class values are passed as their members
template<class V> auto promote(V &v){ if constexpr(std::is_same<V, En>::value) return (int)v; else if constexpr(std::is_same<V, Ti>::value) return (int)v.id; else if constexpr(std::is_same<V, bool>::value || std::is_same<V, char>::value || std::is_same<V, short>::value) return (int)v; else if constexpr(std::is_same<V, float>::value) return (double)v; else if constexpr(std::is_same<V, IntRef>::value) return (void*)v.p; else return v; }
template<class T> auto leaves(T &v){ return std::make_tuple(promote(v)); }
#define LEAF1(T) template<> auto leaves<T>(T &v){ return std::make_tuple(promote(v.a)); }
#define LEAF2(T) template<> auto leaves<T>(T &v){ return std::make_tuple(promote(v.a), promote(v.b)); }
#define LEAF3(T) template<> auto leaves<T>(T &v){ return std::make_tuple(promote(v.a), promote(v.b), promote(v.c)); }
LEAF1(Si) LEAF1(Sc) LEAF1(Ss) LEAF1(Sf) LEAF1(Sd) LEAF1(Sp) LEAF2(Sii) LEAF2(Sff) LEAF2(Sdd) LEAF2(Sli) LEAF2(Sil) LEAF2(Sdi) LEAF2(Sif) LEAF2(Scs) LEAF2(Slc) LEAF2(Sip) LEAF2(Spd) LEAF3(Sifd) LEAF3(Slll) LEAF3(Sc3) LEAF3(Sics) LEAF3(Siff)
struct Call { const Ops *a, *b, *r; nullres (*call)(int how, NULLCFuncPtr p, unsigned s1, unsigned s2); S (*result)(); };
static std::vector<Call> gCall, gCallRet;
template<class A, class B> nullres callPair(int how, NULLCFuncPtr p, unsigned s1, unsigned s2){ A a = X<A>::make(s1); B b = X<B>::make(s2); return std::apply([&](auto... v) -> nullres { return how == 0 ? nullcRunFunction("s", v...) : nullcCallFunction(p, v...); }, std::tuple_cat(leaves(a), leaves(b))); }
template<class A> nullres callOne(int how, NULLCFuncPtr p, unsigned s1, unsigned){ A a = X<A>::make(s1); return std::apply([&](auto... v) -> nullres { return how == 0 ? nullcRunFunction("s", v...) : nullcCallFunction(p, v...); }, leaves(a)); }
template<class R> S resultOf()
{
	unsigned t = nullcGetResultType(); (void)t;
	if constexpr(std::is_same<R, bool>::value || std::is_same<R, char>::value || std::is_same<R, short>::value || std::is_same<R, int>::value){ R r = (R)nullcGetResultInt(); NULLCRef o = nullcGetResultObject(); R q; memcpy(&q, o.ptr, sizeof(q)); if(fmt("%d", nullcGetResultInt()) != nullcGetResult()) return S("text ") + nullcGetResult(); if((int)r != nullcGetResultInt()) return fmt("%d", nullcGetResultInt()); return q == r ? X<R>::text(r) : "object " + X<R>::text(q); }
	else if constexpr(std::is_same<R, ll>::value){ if(fmt("%lldL", nullcGetResultLong()) != nullcGetResult()) return S("text ") + nullcGetResult(); return X<R>::text(nullcGetResultLong()); }
	else if constexpr(std::is_same<R, float>::value || std::is_same<R, double>::value){ NULLCRef o = nullcGetResultObject(); R q; memcpy(&q, o.ptr, sizeof(q)); if(fmt("%f", nullcGetResultDouble()) != nullcGetResult()) return S("text ") + nullcGetResult(); return q == nullcGetResultDouble() ? X<R>::text((R)nullcGetResultDouble()) : "object " + X<R>::text(q); }
	else if constexpr(std::is_same<R, NULLCRef>::value){ return X<R>::text(nullcGetResultObject()); }
	else { NULLCRef o = nullcGetResultObject(); if(!o.ptr) return "no object"; R q; memcpy((void*)&q, o.ptr, sizeof(q)); return X<R>::text(q); }
}
typedef TL<bool, char, short, int, ll, float, double, IntRef, NULLCArray, NULLCRef, NULLCFuncPtr, NULLCAutoArray, En, Si, Sc, Ss, Sf, Sd, Sp, Sii, Sff, Sdd, Sli, Sil, Sdi, Sif, Scs, Slc, Sip, Spd, Sifd, Slll, Sc3, Sics, Siff> Callable;
template<class A, class... B> void calls1(TL<B...>){ (gCall.push_back(Call{ops<A>(), ops<B>(), nullptr, callPair<A, B>, nullptr}), ...); }
template<class M, class... A> void calls(TL<A...>, M m){ (calls1<A>(m), ...); (gCallRet.push_back(Call{ops<A>(), nullptr, ops<A>(), callOne<A>, resultOf<A>}), ...); }
static NULLCFuncPtr gPtr; static void t_setp(NULLCFuncPtr p){ gPtr = p; }
static const Call *gCur; static int gCurHow; static unsigned gS1, gS2; static int t_callback(){ if(!gCur->call(gCurHow, gPtr, gS1, gS2)) return 0; return 1; }
static S callName(const Call &k){ return (k.r ? k.r->name() : S("void")) + " s(" + k.a->name() + (k.b ? ", " + k.b->name() : S()) + ")"; }
// where: 0 after the run, 1 from a host function called by the script; how: 0 by name, 1 by pointer
static void hostCall(const Call &k, int how, int where, int kind, int var, Config cfg, mc::Ctx &c)
{
	for(int q = 0; q < 16; q++) gIv[q] = q * 7 - 20; fresh(STD_NONE, true); S mod = "class Dummy{}\nvoid setf(int k, int ref(int) f);\n" "int callback();\n"; Sig s; s.ret = k.r; s.args = {k.a}; if(k.b) s.args.push_back(k.b); S tp = types(s);
	S params = k.a->name() + " a" + (k.b ? ", " + k.b->name() + " b" : S()), head = (k.r ? k.r->name() : S("void")) + " s(" + params + ")", body = "{ " + k.a->show("a") + (k.b ? k.b->show("b") : S()) + (k.r ? "return a; " : "") + "}\n", ft = (k.r ? k.r->name() : S("void")) + " ref(" + k.a->name() + (k.b ? ", " + k.b->name() : S()) + ")";
	if(kind == 2) body = "{ int local = 3; auto inner = auto(" + params + ")" + "{ t(local); " + body.substr(1) + "; }\n";	// closure, only by pointer
	mod += tp + "void setp(" + ft + " p);\n"; bool ok = nullcLoadModuleBySource("hm", mod.c_str()) && nullcBindModuleFunction("hm", (void(*)())t_setf, "setf", 0) && nullcBindModuleFunction("hm", (void(*)())t_setp, "setp", 0) && nullcBindModuleFunction("hm", (void(*)())t_callback, "callback", 0); if(!ok){ c.fail("module: " + firstLine(nullcGetLastError()) + mod, "module"); return; }
	S src = "import mc; import hm;\n" + S(kSetup) + "for(int k = 0; k < 4; k++) setf(k, fn[k]);\n"; if(kind == 0) src += head + body + "setp(s);\n"; else if(kind == 1) src += "class Cl{ int w; }\n" + (k.r ? k.r->name() : S("void")) + " Cl:m(" + params + "){ t(w); " + body.substr(1) + "Cl cl; cl.w = 77; setp(cl.m);\n"; else src += "int local = 78; void wrap(){ int inner = local; setp(auto(" + params + "){ t(inner); " + body.substr(1, body.size() - 1).substr(0, 0) + k.a->show("a") + (k.b ? k.b->show("b") : S()) + (k.r ? "return a; " : "") + "}); }\nwrap();\n";
	src += where ? "return callback();" : "return 1;"; gCur = &k; gCurHow = kind ? 1 : how; gS1 = 1000 * var + 23; gS2 = gS1 + 57; c.exec(); c.step(); S id = fmt("%s how %d where %d kind %d value %d %s", callName(k).c_str(), how, where, kind, var, cfgName(cfg));
	Outcome o = run(src, cfg); if(!o.built){ c.fail(id + ": " + o.error + "\n" + src, "build " + callName(k)); return; } if(!o.ran){ c.fail(id + ": " + o.error, "run " + id); return; } S tr = o.trace, got;
	if(!where){ trace().clear(); if(!k.call(gCurHow, gPtr, gS1, gS2)){ c.fail(id + ": call failed: " + firstLine(nullcGetLastError()), "call " + id); return; } tr = trace(); if(k.r) got = k.result(); } else if(o.result != "int 1"){ c.fail(id + ": call failed " + o.result, "call " + id); return; }
	S want = kind == 1 ? "77 " : kind == 2 ? "78 " : ""; want += k.a->wantOf(gS1); if(k.b) want += k.b->wantOf(gS2); c.state(mc::hashStr(tr + got)); if(tr != want){ c.fail(id + ": expected '" + want + "' observed '" + tr + "'", "call args " + id); return; } if(k.r && !where && got != k.a->textOf(gS1)) c.fail(id + ": result expected '" + k.a->textOf(gS1) + "' observed '" + got + "'", "call result " + id);
}
static void addCalls(mc::Engine &e, const char *name, std::vector<Call> *v, int vars)
{
	mc::Space sp; sp.name = name; sp.count = v->size() * 8 * vars * 3; sp.chunk = 64; sp.caseTimeout = 60;
	auto dec = [=](u64 i, int &how, int &where, int &kind, int &var) -> size_t { int f = i % 8; i /= 8; where = f & 1; f >>= 1; how = f == 0 ? 0 : 1; kind = f == 0 ? 0 : f - 1; var = i % vars; return i / vars; };
	sp.run = [=](u64 i, mc::Ctx &c){ Config cfg = kCfg[i % 3]; int how, where, kind, var; size_t n = dec(i / 3, how, where, kind, var); hostCall((*v)[n], how, where, kind, var, cfg, c); };
	sp.describe = [=](u64 i){ Config cfg = kCfg[i % 3]; int how, where, kind, var; size_t n = dec(i / 3, how, where, kind, var); return fmt("%s how %d where %d kind %d value %d %s", callName((*v)[n]).c_str(), how, where, kind, var, cfgName(cfg)); }; e.add(sp);
}
int main(int argc, char **argv)
{
	mc::Engine e("C19", argc, argv); bool T = e.thorough;
	e.technique = "exhaustive enumeration of host function signatures over a type table and of calls in both directions on the real code, every leaf value compared";
	e.rule = "49 parameter types: all single and pair signatures, all triples of 12 types, 20 register-exhausting prefixes, 8 argument shapes for every return type, 1-15 repetitions of every type, raw and wrapper binding, direct/indirect/literal/method calls, both executors";
	singles(All()); repeats(Pick()); pairs(All(), Pick()); pairs(Pick(), Rest()); triples(Few()); prefixes(All()); returns(All()); many<Sb>(std::make_index_sequence<10>()); many<Sb2>(std::make_index_sequence<4>()); returns(TL<Sb, Sb2>());
	addSpace(e, "single arguments", &gSingle, {RAW, WRAP, INDIRECT, LITERAL}, T ? 24 : 12);
	addSpace(e, "argument pairs", &gPair, T ? std::vector<int>{RAW, WRAP, LITERAL, INDIRECT} : std::vector<int>{RAW, WRAP}, T ? 4 : 1);
	addSpace(e, "argument triples", &gTriple, {RAW}, T ? 4 : 1);
	addSpace(e, "exhausted registers", &gPrefix, {RAW}, T ? 4 : 2);
	addSpace(e, "methods", &gMethod, {METHOD}, T ? 4 : 2);
	addSpace(e, "returns", &gReturn, {RAW, WRAP, INDIRECT}, T ? 8 : 2);
	addSpace(e, "repeated arguments", &gBig, {RAW, WRAP}, T ? 4 : 1);
	calls(Callable(), TL<char, int, ll, float, NULLCArray, NULLCRef, Scs, Sdi>()); addCalls(e, "calls from the host", &gCall, T ? 4 : 1); addCalls(e, "call results", &gCallRet, T ? 24 : 12);
	return e.finish();
}
