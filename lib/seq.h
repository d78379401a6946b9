// Program space shared by C02/C03/C04: every sequence of statements (up to a depth) from several alphabets, placed in
// several control-flow templates. A program is a function; a batch of functions makes one module.
#pragma once
#include "nc.h"
namespace seq
{
using nc::u64; using mc::fmt;

struct Alphabet
{
	const char *name;
	const char *globals;	// types, functions, global variables
	const char *reset;		// statements restoring the globals
	const char *decls;		// locals of every program; argument is int a
	const char *dump;		// RL[i] = long; RD[i] = double
	std::vector<const char*> st;
};

// templates: how S1..Sk are placed
enum { T_STRAIGHT, T_UNROLL, T_LOOP, T_BRANCH, T_BREAK, T_NESTED, T_COUNT };
inline std::string place(int tmpl, const std::vector<std::string> &s)
{
	std::string all; for(auto &x : s) all += x + "\n";
	switch(tmpl)
	{
	case T_STRAIGHT: return all;
	case T_UNROLL: return all + all + all + all + all;
	case T_LOOP: return "for(int it = 0; it < 3; it++){\n" + all + "}\n";
	case T_BRANCH:
	{
		std::string r = "if(a){ " + s[0] + " }else{ " + s.back() + " }\n";
		for(size_t i = 1; i < s.size(); i++) r += s[i] + "\n";
		return r + "if(x0 > a){ " + s[0] + " }\n";
	}
	case T_BREAK:
	{
		std::string r = "int it = 0; while(it < 4){ it++; " + s[0] + " if(it == a + 2) break;";
		for(size_t i = 1; i < s.size(); i++) r += " if(it == 2) continue; " + s[i];
		return r + " }\n" + s.back() + "\n";
	}
	case T_NESTED: // inner function (closure over every local that it uses), called twice
		return "void inner(){ " + all + " }\ninner(); " + s[0] + " inner();\n";
	}
	return all;
}

inline std::vector<Alphabet> &alphabets()
{
	static std::vector<Alphabet> v;
	if(!v.empty()) return v;
	{
	Alphabet a;
	a.name = "aliases";
	a.globals = "int G; int[3] GA; int ref gp; int ref gq;\nint inc(int ref p){ *p = *p + 1; return *p; } void setG(int v){ G = v; } int getG(){ return G; } int both(int ref p, int ref q){ *p = 3; *q = 4; return *p * 10 + *q; }\nint pick(int v, int ref p){ if(v > 2) return *p; return v; }\n";
	a.reset = "G = 4; GA[0] = 1; GA[1] = 2; GA[2] = 3; gp = &G; gq = &GA[1];";
	a.decls = "int x0 = a + 1; int y = 2; int z = 3; int[3] r; r[0] = 5; r[1] = 6; r[2] = 7; int ref p = &x0; int ref q = &y;";
	a.dump = "RL[0] = x0; RL[1] = y; RL[2] = z; RL[3] = r[0]; RL[4] = r[1]; RL[5] = r[2]; RL[6] = *p; RL[7] = *q; RL[8] = G; RL[9] = GA[0]; RL[10] = GA[1]; RL[11] = GA[2]; RL[12] = p == q;";
	a.st = {"x0 = y;", "y = x0 + z;", "x0++;", "z -= y;", "*p = 7;", "*p += y;", "z = *q;", "p = &y;", "p = q;", "q = &r[1];", "q = &G;", "*q = x0;", "G = x0;", "y = G;", "r[0] = x0;", "r[x0 & 1] = z;", "y = r[y & 1];", "q = &r[x0 & 1];",
		"x0 = inc(&y);", "y = inc(p);", "setG(z);", "z = getG();", "if(x0 > y) x0 = z;", "if(*p == 2){ y = 5; }else{ z = 6; }", "{ int t = x0; x0 = *q; *q = t; }", "z = y > 2 ? *p : *q;", "z = both(p, q);", "GA[1] = *p; z = GA[y & 1];", "gp = p; *gp = 9;", "x0 = -x0 * 2 + z;", "y = pick(z, q);", "for(int i = 0; i < 2; i++) z += *p;", "*p = *q = z;", "z = (*p)++ + r[1];"};
	v.push_back(a);
	}
	{
	Alphabet a;
	a.name = "numeric";
	a.globals = "double GD; float GF; long GL; char GC; short GS; double[4] DA; float[4] FA;\ndouble half(double v){ return v * 0.5; } float fid(float v){ return v; } long lmix(long x, int y, double z){ return x + y + long(z); } double dsel(int c, double x, double y){ return c ? x : y; }\n";
	a.reset = "GD = 1.5; GF = 2.5; GL = 10000000000l; GC = 'a'; GS = 300; for(int i = 0; i < 4; i++){ DA[i] = i + 0.25; FA[i] = i + 0.1; }";
	a.decls = "int x0 = a + 1; double d = 0.1; double e = 3.0; float f = 0.7; long l = 5000000000l; long m = -7; char c = 100; short s = 1000; bool b = true;";
	a.dump = "RD[0] = d; RD[1] = e; RD[2] = f; RL[0] = l; RL[1] = m; RL[2] = c; RL[3] = s; RL[4] = b; RL[5] = x0; RD[3] = GD; RD[4] = GF; RL[6] = GL; RL[7] = GC; RL[8] = GS; RD[5] = DA[1]; RD[6] = FA[2]; RD[7] = DA[2];";
	a.st = {"d = e * 2.0;", "e = d + x0;", "d -= f;", "f = d;", "f += 0.3;", "d = f * f;", "l = l * 3 + x0;", "m = l / 7;", "x0 = l > m;", "l = long(d) + m;", "c += 100;", "s *= 40;", "x0 = c + s;", "d = c;", "b = d > e;", "x0 = b + 2;", "GD = d + GD;", "GF = f;", "GL -= m;", "GC = x0; c = GC;", "DA[1] = d;", "e = DA[x0 & 3];", "FA[x0 & 3] = e;", "f = FA[2];",
		"d = half(e);", "f = fid(d);", "l = lmix(m, x0, d);", "e = dsel(x0, d, e);", "if(d > 1.0) e = -e;", "if(f != d) l++; else m--;", "m = m % 5; l = l << 3 >> 1;", "x0 = int(d) + int(l & 0xff);", "d = x0; e = m;", "d = e = f;", "e = d / (x0 + 3);", "d = -(-d) - -e;", "x0 = !b && d < 100.0 || m == l;", "l = x0 ? m : l; d = x0 ? d : f;", "d = (d + e) * (d - e) + (d * 3.0 - e * 5.0);", "e = 2.0 ** 3.0 + d % 2.0;", "++f; d = f--; c--;"};
	v.push_back(a);
	}
	{
	Alphabet a;
	a.name = "structs";
	a.globals = "class V{ int i; double d; char c; float f; short s; } class W{ V v; int k; int[3] a; } class Big{ int[20] q; long l; } class P2{ int x; int y; } class F2{ float x; float y; }\nV GV; W GW; V ref gr; Big GB; F2 GF;\nV mk(int i){ V t; t.i = i; t.d = i * 0.5; t.c = i; t.f = i; t.s = i; return t; } V cp(V t){ t.i++; return t; } void md(V ref t){ t.i += 5; t.d = -t.d; } P2 sw(P2 p){ P2 r; r.x = p.y; r.y = p.x; return r; } Big bg(Big b, int k){ b.q[k & 15] += k; b.l += k; return b; } int V:sum(){ return i + int(d) + c + s; } void V:add(int n){ this.i += n; c += n; } F2 fsw(F2 p){ F2 r; r.x = p.y; r.y = p.x; return r; }\n";
	a.reset = "GV = mk(3); GW.v = mk(4); GW.k = 2; GW.a[0] = GW.a[1] = GW.a[2] = 8; gr = &GV; for(int i = 0; i < 20; i++) GB.q[i] = i; GB.l = 7; GF.x = 1.5; GF.y = 2.5;";
	a.decls = "int x0 = a + 1; V u = mk(x0); V v; v.i = 9; v.d = 2.5; v.c = 1; v.f = 0.5; v.s = 2; W w; w.v = u; w.k = 3; w.a[0] = w.a[1] = w.a[2] = 4; V ref r = &u; V[2] va; va[0] = u; va[1] = v; P2 p; p.x = 1; p.y = 2; P2 o; o.x = x0; o.y = 4; Big b = GB; F2 g; g.x = 0.5; g.y = x0;";
	a.dump = "RL[0] = u.i; RD[0] = u.d; RL[1] = u.c; RD[1] = u.f; RL[2] = u.s; RL[3] = v.i; RD[2] = v.d; RL[4] = v.c; RD[3] = v.f; RL[5] = v.s; RL[6] = w.v.i; RD[4] = w.v.d; RL[7] = w.k; RL[8] = w.a[0] + w.a[1] * 10 + w.a[2] * 100; RL[9] = va[0].i; RL[10] = va[1].c; RD[5] = va[1].d; RL[11] = p.x; RL[12] = p.y; RL[13] = o.x; RL[14] = o.y; RL[15] = GV.i; RL[16] = GW.v.s + GW.k; RL[17] = b.q[3] + b.q[19] * 100; RL[18] = GB.q[2] + GB.l; RL[19] = r.i; RD[6] = g.x; RD[7] = g.y + GF.x; RL[20] = x0; RL[21] = b.l;";
	a.st = {"u = v;", "v = u;", "*r = v;", "v = *r;", "r = &v;", "r = &w.v;", "r = &va[x0 & 1];", "w.v = v;", "u = w.v;", "va[1] = u;", "v = va[x0 & 1];", "u.i = v.i + 1;", "r.d = u.d * 2.0;", "v.c += 3; v.s = v.c;", "u.f = v.d; v.d = u.f;", "w.a[x0 & 1] = u.i;", "w.k = w.a[1] + v.s;", "v = mk(x0);", "u = cp(v);", "md(&u);", "md(r);", "w.v = cp(*r);", "p = sw(p);", "o = p; p.x = 5;", "p = sw(o); o = sw(p);", "x0 = u.sum() & 7;", "r.add(2);", "GV = u;", "v = GV; GV.i = 1;", "GW = w;", "w = GW; w.k++;", "b = bg(b, x0);", "GB = b; b.q[3] = 9;", "gr = r; gr.i = 2;", "if(x0 & 1) u = v; else v = u;", "V t = u; u = v; v = t;", "g = fsw(g);", "GF = g; g.x = g.y;", "va[0] = va[1]; va[1].i = 77;", "x0 = w.v.i > u.i ? v.c : p.x;"};
	// declarations in a statement need a scope when repeated
	for(auto &s : a.st) if(!strcmp(s, "V t = u; u = v; v = t;")) s = "{ V t = u; u = v; v = t; }";
	v.push_back(a);
	}
	{
	Alphabet a;
	a.name = "arrays";
	a.globals = "int[] GD; int[4] GF; char[] GT; double[] GX; int[3][2] GM;\nint suma(int[] q){ int s = 0; for(i in q) s += i; return s; } int[] mkarr(int n){ int[] r = new int[n]; for(int i = 0; i < n; i++) r[i] = i * i; return r; } void fill(int[] q, int v){ for(i in q) i = v; } int[3] fixed(int v){ int[3] r; r[0] = v; r[1] = v + 1; r[2] = v + 2; return r; } int last(int[] q){ return q[q.size - 1]; }\n";
	a.reset = "GD = {1, 2, 3, 4}; GF[0] = 1; GF[1] = 2; GF[2] = 3; GF[3] = 4; GT = \"abc\"; GX = {1.5, 2.5}; GM[0][0] = 1; GM[0][1] = 2; GM[1][0] = 3; GM[1][1] = 4; GM[2][0] = 5; GM[2][1] = 6;";
	a.decls = "int x0 = a + 1; int[3] f; f[0] = 1; f[1] = x0; f[2] = 3; int[3] g = f; int[] d = f; int[] e = {x0, 5, 6, 7}; char[4] t = \"xyz\"; char[] s = \"hello\"; double[2] h; h[0] = 0.5; h[1] = x0; int[2][2] m; m[0][0] = 1; m[0][1] = 2; m[1][0] = 3; m[1][1] = x0; int k = 0;";
	a.dump = "RL[0] = f[0] + f[1] * 100 + f[2] * 10000; RL[1] = g[0] + g[1] * 100 + g[2] * 10000; RL[2] = d.size; RL[3] = suma(d); RL[4] = e.size; RL[5] = suma(e); RL[6] = t[0] + t[1] * 256 + t[2] * 65536; RL[7] = s.size; RL[8] = s[0] + s[1] * 256; RD[0] = h[0]; RD[1] = h[1]; RL[9] = m[0][0] + m[0][1] * 10 + m[1][0] * 100 + m[1][1] * 1000; RL[10] = suma(GD); RL[11] = GF[0] + GF[1] * 10 + GF[2] * 100 + GF[3] * 1000; RL[12] = GM[2][1] + GM[1][0] * 10; RL[13] = k; RL[14] = x0; RL[15] = GT.size; RD[2] = GX[0];";
	a.st = {"f[1] = 7;", "f[x0 & 1] = f[2];", "g = f;", "f = g;", "d = f;", "d = g;", "d[0] = 9;", "e = d;", "e[1] = d[0] + 1;", "d = e;", "d = new int[3]; d[1] = x0;", "e = mkarr(x0 + 2);", "fill(d, 2);", "fill(f, x0);", "k = suma(f);", "k = last(e);", "f = fixed(x0);", "k = fixed(k & 3)[1];", "for(i in f) i += 2;", "for(i in d) k += i;", "for(i in e, j in f) j = i;", "t[1] = 'Q'; s = t;", "s = \"bye\";", "s = t; s[0] = 'A';", "k += s[1] + t[0];", "h[1] = h[0] + k;", "m[1][0] = m[0][x0 & 1];", "m[0] = m[1];", "for(i in m) i[0] = 4;", "GD = d;", "d = GD;", "GF[2] = f[0]; k = GF[x0 & 3];", "GM[2] = m[0]; GM[x0 & 1][1] = 8;", "GD[1] = k; e[0] = GD[2];", "k = d.size * 10 + e.size;", "x0 = (x0 + f[0]) & 3;", "GX = h; GX[0] = 9.5;", "d[d.size - 1] = k;", "k = s == \"hello\";", "k = (d == e) + (d != d) * 2; s = t;"};
	v.push_back(a);
	}
	{
	Alphabet a;
	a.name = "calls";
	a.globals = "int G; int ref(int) gf; class O extendable{ int v; int get(int k){ return v * 10 + k; } void set(int k){ v = k; } } class D : O{ int w; int get(int k){ return v + w + k; } }\nO GO; int twice(int ref(int) f, int v){ return f(f(v)); } int add(int a, b){ return a + b; } int add1(int a){ return a + 1; } int neg(int a){ return -a; } int fact(int n){ return n < 2 ? 1 : n * fact(n - 1); } int ref(int) mk(int k){ return auto(int v){ k++; return v + k; }; } int dflt(int a, int b = 5){ return a * b; } double mixed(double a, int b, float c, long d){ return a + b + c + d; } auto gen(generic v){ return v + v; } int even(int n); int odd(int n){ return n ? even(n - 1) : 0; } int even(int n){ return n ? odd(n - 1) : 1; } int many(int a, b, c, d, e, f, g, h){ return a - b + c - d + e - f + g - h; } int var(auto ref[] z){ int s = z.size; for(i in z) s = s * 3 + int(i); return s; }\nint use(int ref(int, int) f){ return f(7, 2); } coroutine int co(int s){ int i = s; while(1){ yield i; i = i * 2 + 1; } return 0; }\n";
	a.reset = "G = 4; gf = add1; GO.v = 3;";
	a.decls = "int x0 = a + 1; int y = 2; int ref(int) f = add1; int ref(int) h = mk(x0); O o; o.v = 6; D dd; dd.v = 1; dd.w = 2; O ref q = &o; double d = 0.5; int ref() cap = auto(){ y++; return x0 + y; }; int loc(int v){ return v + x0; }";
	a.dump = "RL[0] = x0; RL[1] = y; RL[2] = f(10); RL[3] = h(100); RL[4] = o.v; RL[5] = dd.v * 10 + dd.w; RL[6] = q.v; RD[0] = d; RL[7] = G; RL[8] = gf(1); RL[9] = GO.v; RL[10] = cap();";
	a.st = {"y = add(x0, y);", "y = f(y);", "f = neg;", "f = h;", "h = mk(y);", "y = h(x0);", "y = twice(f, x0);", "y = twice(h, 1);", "x0 = cap() & 15;", "y = cap() + cap();", "y = loc(3);", "f = loc;", "y = fact(x0 & 7);", "y = dflt(x0) + dflt(2, 3);", "d = mixed(d, y, 1.5f, 3l);", "y = gen(x0); d = gen(d);", "y = even(x0 & 7);", "y = many(x0, y, 3, 4, 5, 6, G, 8);", "y = var(x0, 4, y);", "y = use(<a, b>{ a * x0 - b; });", "f = auto(int v){ return v * y; };", "y = o.get(x0);", "o.set(y);", "q = &dd;", "y = q.get(1);", "q.set(4);", "gf = f; y = gf(2);", "G = add(G, y); y = G;", "y = co(x0) + co(3);", "y = (auto(int z){ return z * z; })(x0);", "int nest(int k){ int deep(int j){ return j + k + y; } return deep(2); } y = nest(x0);", "GO.set(y); y = GO.get(0);", "y = add(f(1), h(2)) + add1(neg(x0));", "d = d > 1.0 ? mixed(1.0, 2, 3.0f, 4l) : d + 1.0;"};
	for(auto &s : a.st) if(!strncmp(s, "int nest", 8)) s = "{ int nest(int k){ int deep(int j){ return j + k + y; } return deep(2); } y = nest(x0); }";
	v.push_back(a);
	}
	{
	Alphabet a;
	a.name = "dynamic";
	a.globals = "class A extendable{ int v; int id(){ return 1; } } class B : A{ int w; int id(){ return 2 + w; } } class S{ int v; } auto ref ga; auto[] gb; int viaAuto(auto ref r){ if(typeid(r) == int) return int(r); return -1; } int kind(auto ref r){ switch(typeid(r)){ case int: return 1; case double: return 2; case S: return 3; case int[]: return 4; default: return 9; } } int cnt(auto[] z){ return z.size; } int A:poly(){ return id() * 10; }\n";
	a.reset = "ga = new int(5); gb = {1, 2, 3};";
	a.decls = "int x0 = a + 1; double d = 1.5; S s; s.v = 8; int ref ip = new int(4); int ref np; auto ref r = &x0; auto ref t = s; B b; b.v = 1; b.w = 2; A ref ar = &b; A ref an = new A; int[] arr = {4, 5}; auto[] au = arr; int y = 0; typeid ty = int; S ref sp = new S; sp.v = 3; int ref[2] pa; pa[0] = ip; pa[1] = &x0;";
	a.dump = "RL[0] = x0; RD[0] = d; RL[1] = s.v; RL[2] = *ip; RL[3] = np ? *np : -7; RL[4] = kind(r); RL[5] = viaAuto(r); RL[6] = kind(t); RL[7] = ar.id(); RL[8] = an.id(); RL[9] = arr[0] + arr[1] * 10; RL[10] = cnt(au); RL[11] = y; RL[12] = ty == int; RL[13] = sp.v; RL[14] = viaAuto(ga); RL[15] = *pa[0] + *pa[1] * 100; RL[16] = gb.size;";
	a.st = {"r = &y;", "r = &d;", "r = d;", "r = x0;", "*r = 6;", "y = viaAuto(r);", "y = kind(t);", "t = r;", "t = sp;", "y = typeid(t) == S;", "if(typeid(r) == int){ y = int(r); }", "np = ip;", "np = new int(x0);", "*ip = x0; y = *ip;", "if(np) *np = 3;", "ip = np ? np : ip;", "ar = an;", "an = ar;", "y = ar.id();", "y = an.poly();", "b.w = x0;", "au = {x0, y};", "y = au.size + int(au[0]);", "arr[1] = int(au[0]) + y; ga = au[1];", "gb = au;", "ga = r;", "ga = new double(2.5);", "ty = typeid(r);", "ty = double; y = ty == typeid(d);", "sp = new S; sp.v = y;", "s = *sp;", "S ref(t).v = 5;", "y = S(t).v;", "pa[0] = &y;", "*pa[x0 & 1] = 9;", "y = (ip == np) + (np == nullptr) * 2;", "x0 = int ref(ga) ? 1 : 0;", "y = kind(ga) + kind(1) + kind(arr);", "*sp = s; sp.v++;", "d = typeid(r) == double ? double(r) : 0.0;"};
	v.push_back(a);
	}
	{
	Alphabet a;
	a.name = "host";
	a.globals = "int G; int[3] GA; int ref gp; int bump(int v){ G += v; return G; } int peek(int v){ return GA[v & 1] + G; } int rec(int v){ if(v > 2) return hcall(rec, v - 1) + G; G++; return v; } void modp(int ref p){ hset(p, *p + 1); } class P{ int x; int y; }\n";
	a.reset = "G = 4; GA[0] = 1; GA[1] = 2; GA[2] = 3; gp = &G;";
	a.decls = "int x0 = a + 1; int y = 2; int[3] r; r[0] = 5; r[1] = 6; r[2] = 7; int ref p = &x0; P s; s.x = 1; s.y = 2; int cap(int v){ y += v; return y; } double d = 0.5; long l = 3;";
	a.dump = "RL[0] = x0; RL[1] = y; RL[2] = r[0]; RL[3] = r[1]; RL[4] = r[2]; RL[5] = *p; RL[6] = G; RL[7] = GA[0] * 100 + GA[1] * 10 + GA[2]; RL[8] = s.x; RL[9] = s.y; RL[10] = *gp; RD[0] = d; RL[11] = l;";
	a.st = {"hset(&x0, 9);", "hset(p, y);", "y = hget(p);", "y = hget(&x0) + x0;", "hset(&G, x0);", "G = y;", "y = G;", "hset(gp, 3);", "gp = p;", "p = &y;", "p = &r[1];", "p = &s.y;", "hset(&s.x, y); y = s.x;", "s.y = x0; y = hget(&s.y);", "y = hcall(bump, x0);", "x0 = hcall(peek, y);", "y = hcall(cap, 3);", "y = hcall(rec, 4);", "x0 = hname(\"bump\", 2);", "modp(&x0);", "modp(p);", "GA[x0 & 1] = y; y = hcall(peek, 1);", "r[1] = x0; hset(&r[1], 4); x0 = r[1];", "t(x0); x0++; t(x0);", "te(1, y); y = te(2, x0);", "G = te(3, G) + te(4, hcall(bump, 1)) + G;", "d = hided(d) + x0; td(d);", "l = hidel(l) * y; tl(l);", "if(hide(x0) > 3) t(1); else t(2);", "for(int i = 0; i < 2; i++){ hset(p, *p + i); t(*p); }", "y = x0 + hcall(cap, 1) + y;"};
	v.push_back(a);
	}
	return v;
}

// number of programs for sequences of exactly 'depth' statements
inline u64 countSeq(const Alphabet &a, int depth){ u64 n = 1; for(int i = 0; i < depth; i++) n *= a.st.size(); return n; }
inline std::vector<std::string> decode(const Alphabet &a, u64 idx, int depth){ std::vector<std::string> r; for(int i = 0; i < depth; i++){ r.push_back(a.st[idx % a.st.size()]); idx /= a.st.size(); } return r; }

inline std::string programFunction(const Alphabet &a, int tmpl, u64 idx, int depth, int fn)
{
	return fmt("void f%d(int a){ %s\n", fn, a.decls) + place(tmpl, decode(a, idx, depth)) + a.dump + " }\n";
}
const int kRL = 24, kRD = 24;
inline std::string moduleHead(const Alphabet &a)
{
	return fmt("import mc;\nlong[%d] RL; double[%d] RD; int sink;\n", kRL, kRD) + a.globals + "void reset(){ for(int i = 0; i < " + fmt("%d", kRL) + "; i++) RL[i] = 0; for(int j = 0; j < " + fmt("%d", kRD) + "; j++) RD[j] = 0; " + a.reset + " }\n";
}
}
