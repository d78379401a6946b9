// C18: exhaustive products of (real type, requested type, how the reference was made, operation) for auto ref and auto[], inheritance chains, method tables and operation histories; the oracle is type identity.
#include "adt.h"
using namespace nc;
typedef std::string S;
struct Ty { S name, decl, def, set, fp; bool array; int alen; };	// def: typedef target; set(k) statement for *p; fp expression for *p
static const std::vector<Ty> &types()
{
	static std::vector<Ty> v = {
		{"bool", "", "bool", "*p = k == 1;", "int(*p)", false, 0}, {"char", "", "char", "*p = k;", "int(*p)", false, 0}, {"short", "", "short", "*p = k;", "int(*p)", false, 0},
		{"int", "", "int", "*p = k;", "*p", false, 0}, {"long", "", "long", "*p = k;", "int(*p)", false, 0}, {"float", "", "float", "*p = k;", "int(*p)", false, 0}, {"double", "", "double", "*p = k;", "int(*p)", false, 0},
		{"E", "enum E{ E0, E1 }", "E", "*p = k == 1 ? E.E1 : E.E0;", "int(*p)", false, 0}, {"F", "enum F{ F0, F1 }", "F", "*p = k == 1 ? F.F1 : F.F0;", "int(*p)", false, 0},
		{"P", "class P{ int x; }", "P", "p.x = k;", "p.x", false, 0}, {"Q", "class Q{ int x; }", "Q", "p.x = k;", "p.x", false, 0}, {"R", "class R{ char c; double[70] d; short x; }", "R", "p.x = k;", "int(p.x)", false, 0},
		{"Gint", "class G<T>{ T x; }", "G<int>", "p.x = k;", "p.x", false, 0}, {"Gfloat", "class G<T>{ T x; }", "G<float>", "p.x = k;", "int(p.x)", false, 0},
		{"Pref", "class P{ int x; }\nP q0, q1; q1.x = 1;", "P ref", "*p = k == 1 ? &q1 : &q0;", "(*p).x", false, 0},
		{"intref", "int g0 = 0, g1 = 1;", "int ref", "*p = k == 1 ? &g1 : &g0;", "*(*p)", false, 0},
		{"int3", "", "int[3]", "(*p)[1] = k;", "(*p)[1]", true, 3}, {"int4", "", "int[4]", "(*p)[1] = k;", "(*p)[1]", true, 4}, {"float3", "", "float[3]", "(*p)[1] = k;", "int((*p)[1])", true, 3},
		{"ints", "", "int[]", "*p = new int[k + 1];", "(*p).size - 1", true, 2}, {"chars", "", "char[]", "*p = new char[k + 1];", "(*p).size - 1", true, 2}, {"floats", "", "float[]", "*p = new float[k + 1];", "(*p).size - 1", true, 2},
		{"fint", "int fi0(int x){ return 0; } int fi1(int x){ return 1; }", "int ref(int)", "if(k == 1) *p = fi1; else *p = fi0;", "(*p)(5)", false, 0},
		{"ffloat", "int ff0(float x){ return 0; } int ff1(float x){ return 1; }", "int ref(float)", "if(k == 1) *p = ff1; else *p = ff0;", "(*p)(5)", false, 0},
		{"typeid", "", "typeid", "if(k == 1) *p = int; else *p = float;", "*p == int", false, 0},
		{"alias", "typedef int same;", "same", "*p = k;", "*p", false, 0},
	};
	return v;
}
static bool same(int s, int d){ auto n = [](int k){ return types()[k].name == "alias" ? S("int") : types()[k].name; }; return n(s) == n(d); }
struct Op { S code; std::function<S(bool, int)> want; };	// want: trace, "!" at the end when an error is expected; (types equal, source type)
static const char *kKinds[] = {"global", "heap", "array element", "member", "passed by value", "passed through a function", "boxed copy", "member of a class", "second copy", "through a coroutine"};
static const int kNKinds = 10;
static const std::vector<Op> &opList()
{
	auto eq = [](S ok, S pre = ""){ return [ok, pre](bool e, int){ return e ? pre + ok : pre + "!"; }; };
	auto bad = [](S pre = ""){ return [pre](bool, int){ return pre + "!"; }; };
	S A = "set(&a[0], 0); set(&a[1], 1); set(&a[2], 1); auto[] x = a; ";
	S N = "TS ref np; auto ref n = np; ";
	static std::vector<Op> v = {
		{"t(typeid(r) == TD); t(typeid(r) == TS); t(typeid(r) != TD);", [](bool e, int){ return S(e ? "1 1 0 " : "0 1 1 "); }},
		{"TD ref p = r; t(fp(p)); setd(p, 0); TS ref q = r; t(fp(q));", eq("1 0 ")},
		{"TD v = r; t(fp(&v)); setd(&v, 0); TS ref q = r; t(fp(q));", eq("1 1 ")},
		{"replace(r, &dv); TS ref q = r; t(fp(q)); t(fp(&dv));", eq("0 0 ")},
		{"swap(r, &dv); TS ref q = r; t(fp(q)); t(fp(&dv));", eq("0 1 ")},
		{"t(equal(r, &dv)); t(equal(r, r));", eq("0 1 ")},
		{"*r = dv; TS ref q = r; t(fp(q));", eq("0 ")},
		{"auto ref c = duplicate(r); t(typeid(c) == TD); TS ref q = c; t(fp(q)); set(q, 0); q = r; t(fp(q)); TD ref p = c; t(fp(p));", [](bool e, int){ return S(e ? "1 1 1 0 " : "0 1 1 !"); }},
		{"TD v = unbox(r); t(fp(&v));", eq("1 ")},
		{"auto ref r2 = r; t(r2 == r); t(r2 != r); auto ref o = &dv; t(o == r); TD ref p = r2; t(fp(p));", eq("1 ", "1 0 0 ")},
		{A + "t(x.size); TD[] y = x; t(y.size); t(fp(&y[1])); setd(&y[1], 0); t(fp(&a[1]));", eq("3 1 0 ", "3 ")},
		{A + "TD[3] z = x; t(fp(&z[1])); setd(&z[1], 0); t(fp(&a[1]));", eq("1 1 ")},
		{A + "TD[2] z = x; t(1);", bad()},
		{A + "t(typeid(x[1]) == TS); TD ref p = x[1]; t(fp(p));", eq("1 ", "1 ")},
		{A + "*x[1] = dv; t(fp(&a[1]));", eq("0 ")},
		{A + "auto ref w = x[2]; *w = dv; t(fp(&a[2]));", eq("0 ")},
		{"auto[] b = auto_array(TS, 2); b.set(r, 0); t(b.size); b.set(&dv, 4); t(b.size > 4); TD[] y = b; t(fp(&y[0])); t(fp(&y[4]));", eq("1 1 0 ", "2 ")},
		{A + "TD[4] db; for(int i = 0; i < 4; i++) setd(&db[i], 0); auto[] xd = db; array_copy(xd, x); t(fp(&db[1])); t(fp(&db[0]));", eq("1 0 ")},
		{"TD ref tp; auto ref l = &tp; assign(l, r); t(fp(tp));", eq("1 ")},
		{"t(va(r, &dv));", eq("1 ", "2 1 1 ")},
		{"auto ref n; TD ref p = n; t(1);", bad()},
		{N + "t(typeid(n) == TS); t(n == nullptr); TD ref p = n; t(p == nullptr);", eq("1 ", "1 1 ")},
		{N + "TD v = n; t(fp(&v));", bad()}, {N + "auto ref m = duplicate(n); t(1);", bad()}, {N + "replace(n, &dv); t(1);", bad()}, {N + "swap(&dv, n); t(1);", bad()}, {N + "t(equal(&dv, n));", bad()}, {N + "*n = dv; t(1);", bad()},
		{A + "auto ref e = x[3]; t(1);", bad()}, {A + "auto ref e = x[-1]; t(1);", bad()},
		{"coroutine auto ref gen2(){ yield r; yield &dv; return &dv; } for(TD i in gen2) t(fp(&i));", eq("1 0 ")},
		{A + "HR h; h.m = r; h.xs = x; HR h2 = h; t(h2.xs.size); TD ref p = h2.m; t(fp(p)); TD[] y = h2.xs; t(fp(&y[1]));", eq("1 1 ", "3 ")},
		{"auto ref b = duplicate(&dv); t(typeid(b) == TD); setd(&dv, 1); TS ref q = b; t(fp(q));", eq("0 ", "1 ")},
		{A + "auto[] c = duplicate(x); t(c.size); TD[] y = c; t(fp(&y[1])); setd(&y[1], 0); t(fp(&a[1]));", eq("1 1 ", "3 ")},
		{A + "auto ref ra = &a; auto[] x2; x2 = ra; t(x2.size); TD[] y = x2; t(fp(&y[1]));", eq("1 ", "3 ")},
		{"auto[] x2; x2 = r; t(x2.size);", [](bool, int s){ return types()[s].array ? fmt("%d ", types()[s].alen) : S("!"); }},
		{"switch(typeid(r)){ case TD: t(7); break; default: t(8); }", [](bool e, int){ return S(e ? "7 " : "8 "); }},
		{"t(typeid(&sv) == TS); t(typeid(&dv) == TD); t(typeof(sv) == TD); t(TS == TD);", [](bool e, int){ return S(e ? "1 1 1 1 " : "1 1 0 0 "); }},
		{"t(typeid(r).size == sizeof(TD)); t(typeid(r) == typeid(duplicate(r)));", [](bool e, int){ return S(e ? "1 1 " : "? 1 "); }},
		{"TD ref p = nullptr; p = r; t(fp(p));", eq("1 ")},
		{"TD v; v = *(TD ref(r)); t(fp(&v));", eq("1 ")},
		{A + "auto[] e; t(e.size); e = x; TD[] y; y = e; t(y.size);", eq("3 ", "0 ")},
		{A + "auto[] k = x; __force_size(&k, 1); t(k.size); TD[1] z = k; t(fp(&z[0]));", eq("0 ", "1 ")},
		{A + "auto[] k = x; __force_size(&k, 1); auto ref z = k[1]; t(1);", bad()},
	};
	return v;
}
static S pairSource(int s, int d)
{
	const Ty &a = types()[s], &b = types()[d]; S r = "import mc; import mcop;\n";
	r += a.decl + "\n"; if(b.decl != a.decl) r += (a.name == "Pref" && b.name == "P") ? "" : (a.name == "P" && b.name == "Pref") ? "P q0, q1; q1.x = 1;\n" : b.decl + "\n";
	r += "typedef " + a.def + " TS; typedef " + b.def + " TD;\n";
	r += "int fp(TS ref p){ return " + a.fp + "; }\nvoid set(TS ref p, int k){ " + a.set + " }\nvoid setd(TD ref p, int k){ " + b.set + " }\n";
	if(!same(s, d)) r += "int fp(TD ref p){ return " + b.fp + "; }\n";
	r += "TS sv; TD dv; TS[3] a; TS[3] el; class HM{ char c; TS m; } HM hm; class HR{ auto ref m; auto[] xs; auto ref n; } HR hr;\nTD unbox(auto ref x){ return x; }\nauto ref pass(auto ref x){ return x; }\n"
		"int va(auto ref[] args){ t(args.size); t(typeid(args[0]) == TS); t(typeid(args[1]) == TD); TD ref p = args[0]; return fp(p); }\n"
		"coroutine auto ref gen(){ while(1){ set(&el[2], 1); yield &el[2]; } }\n"
		""
		"int go(){\n set(&sv, 1); setd(&dv, 0); auto ref r;\n int kind = op();\n"
		" if(kind == 0) r = &sv;\n else if(kind == 1){ TS ref h = new TS; set(h, 1); r = h; }\n else if(kind == 2){ set(&el[1], 1); r = &el[1]; }\n else if(kind == 3){ set(&hm.m, 1); r = &hm.m; }\n"
		" else if(kind == 4) r = pass(sv);\n else if(kind == 5) r = pass(&sv);\n else if(kind == 6) r = sv;\n else if(kind == 7){ hr.n = &sv; HR c = hr; r = c.n; }\n else if(kind == 8){ auto ref x = &sv; auto ref y = x; x = nullptr; r = y; }\n else r = gen();\n switch(op()){\n";
	int n = 0; for(auto &o : opList()) r += fmt(" case %d:{ ", n++) + o.code + " }break;\n";
	return r + " }\n return 0;\n}\n";
}
static mc::Space pairs()
{
	mc::Space s; mc::u64 n = types().size(); s.name = "type pairs"; s.count = n * n * 3; s.chunk = 2; s.caseTimeout = 60;
	s.begin = [](mc::Ctx &){ fresh(STD_NONE); adt::bindOps(); };
	s.run = [n](mc::u64 i, mc::Ctx &c){
		int a = i / 3 / n, b = i / 3 % n, cfg = i % 3; S src = pairSource(a, b);
		int exec = cfg == 1 ? NULLC_X86 : NULLC_REG_VM; int opt = cfg == 0 ? 0 : 2; nullcClean();
		Outcome o = run(src, {exec, opt}); if(!o.ran){ c.fail(types()[a].name + " -> " + types()[b].name + ": " + o.fullError + "\n" + src); return; }
		for(int k = 0; k < kNKinds; k++) for(int q = 0; q < (int)opList().size(); q++)
		{
			if((k == 4 || k == 6) && (types()[a].name == "Pref" || types()[a].name == "intref")) continue;	// references are not boxed
			static auto byValue = [](const S &x){ return x.find("TD v = r") != S::npos || x.find("unbox(r)") != S::npos || x.find("TD v = n") != S::npos || x.find("for(TD i in") != S::npos; };
			if((types()[b].name == "Pref" || types()[b].name == "intref") && byValue(opList()[q].code)) continue;	// a reference type is requested as such
			adt::ops() = {k, q}; adt::pos() = 0; trace().clear(); c.exec(); c.step(1);
			S want = opList()[q].want(same(a, b), a); bool err = !want.empty() && want.back() == '!'; if(err) want.pop_back();
			bool ok = nullcRunFunction("go") != 0; S got = trace(); if(want.size() && want[0] == '?' && got.size() > 1) got[0] = '?';
			c.state(mc::hashStr(got + want));
			if(ok == err || got != want){ c.fail(fmt("%s -> %s, %s, cfg %d, '%s': observed '%s' %s, expected '%s'%s", types()[a].name.c_str(), types()[b].name.c_str(), kKinds[k], cfg, opList()[q].code.c_str(), trace().c_str(), ok ? "" : firstLine(nullcGetLastError()).c_str(), want.c_str(), err ? " and an error" : "") + "\n" + src); if(c.nfail > 3) return; }
		}
	};
	s.describe = [n](mc::u64 i){ return pairSource(i / 3 / n, i / 3 % n); };
	return s;
}
// inheritance: object class x static reference class x requested class x operation
struct Cl { const char *n; int base; }; static const Cl kCl[] = {{"A", -1}, {"B", 0}, {"C", 1}, {"D", 0}, {"Z", -1}};
static bool derives(int c, int b){ for(; c >= 0; c = kCl[c].base) if(c == b) return true; return false; }
static const int kNC = 5;
static int realF(int c){ return c == 3 ? 1 : c + 1; }	// D does not override f
static S inhSource(int obj, int st, int rq)
{
	S O = kCl[obj].n, T = kCl[st].n, R = kCl[rq].n, r = "import mc; import mcop;\n"
		"class A extendable{ int a; int f(){ return 1; } int g(int x){ return f() * 10 + x; } }\nclass B extendable : A{ double b; int f(){ return 2; } }\nclass C : B{ int c; int f(){ return 3; } int own(){ return 33; } }\nclass D : A{ int[3] d; int own(){ return 44; } }\nclass Z extendable{ int a; int f(){ return 5; } int g(int x){ return f() * 10 + x; } }\n";
	r += "typedef " + O + " TO; typedef " + T + " TT; typedef " + R + " TR;\nTO obj; TO[2] arr; class H{ char c; TO m; } H h;\n"
		"int callf(int ref() x){ return x(); }\nTR unbox(auto ref x){ TR ref p = x; t(p.f()); return *p; }\nint go(){\n TT ref s;\n switch(op()){ case 0: s = &obj; break; case 1: s = new TO(); break; case 2: s = &arr[1]; break; case 3: s = &h.m; break; case 4: s = duplicate(&obj); break; default: { auto ref x = &obj; s = x; } }\n s.a = 6; auto ref r = s;\n switch(op()){\n"
		" case 0: t(typeid(r) == TO); t(typeid(r) == TR); t(typeid(s) == TR); t(is_derived_from(r, TR)); t(is_derived_from(s, TR)); break;\n"
		" case 1: { TR ref p = r; t(p.a); t(p.f()); t(p.g(4)); p.a = 7; t(s.a); } break;\n";
	bool related = derives(st, rq) || derives(rq, st);
	r += related ? " case 2: { TR ref p = s; t(p.a); t(p.f()); t(p.g(4)); p.a = 7; t(s.a); auto ref q = p; t(typeid(q) == TO); } break;\n" : " case 2: t(99); break;\n";
	r += related ? " case 3: { TR ref p = nullptr; p = s; t(p.f()); } break;\n" : " case 3: t(99); break;\n";
	r += " case 4: t(s.f()); t(s.g(4)); t(r.f()); t(r.g(4)); break;\n case 5: t(r.own()); break;\n"
		" case 6: { auto ref c = duplicate(r); t(typeid(c) == TO); TT ref k = c; k.a = 1; t(s.a); TR ref p = c; t(p.f()); t(p.a); } break;\n"
		" case 7: { auto ref[2] l; l[0] = r; l[1] = s; for(i in l) t(i.f()); TR ref p = l[1]; t(p.f()); } break;\n"
		" case 8: { TR ref z; auto ref n = r; TR ref w = n; t(w.a); int x = w.g(1); t(x); } break;\n"
		" case 9: { TR o; auto ref q = &o; t(typeid(q) == TO); replace(r, q); t(s.f()); } break;\n"
		" case 10: { TT ref n; t(n == nullptr); auto ref x; TR ref p = x; t(1); } break;\n"
		+ (related ? S(" case 11: { TT ref n; TR ref p = n; t(p == nullptr); } break;\n") : S(" case 11: t(99); break;\n")) +
		" case 12: { TT ref n; t(n.f()); } break;\n case 13: { int ref(int) m = s.g; t(m(4)); int ref() m2 = s.f; t(m2()); auto m3 = s.f; t(m3()); t(callf(s.f)); t(callf(obj.f)); } break;\n case 14: { auto ref x = &s; TT ref ref ss = x; t((*ss).f()); } break;\n"
		" case 15: { auto[] x = auto_array(TO, 2); auto ref e = x[1]; t(x.size); } break;\n"
		" case 16: { TR[] n = new TR[2]; auto ref e = &n[1]; t(typeid(e) == TR); t(n[1].f()); TR ref p = &n[0]; t(p.g(0)); } break;\n"
		" case 17: { TR ref k = new TR(); auto ref e = k; t(typeid(e) == TR); t(k.f()); t(typeid(e) == TO); } break;\n }\n return 0;\n}\n";
	return r;
}
static S inhWant(int obj, int st, int rq, int op)
{
	(void)st; bool d = derives(obj, rq), rel = derives(st, rq) || derives(rq, st), ext = rq != 2 && rq != 3; int f = realF(obj), g = f * 10 + 4;
	S is = fmt("%d %d %d ", obj == rq, obj == rq, 0);
	switch(op)
	{
	case 0: if(!ext) return "?"; return fmt("1 %d %d %d %d ", obj == rq, obj == rq, d, d);
	case 1: return d ? fmt("6 %d %d 7 ", f, g) : "!";
	case 2: return !rel ? "99 " : d ? fmt("6 %d %d 7 1 ", f, g) : "!";
	case 3: return !rel ? "99 " : d ? fmt("%d ", f) : "!";
	case 4: return fmt("%d %d %d %d ", f, g, f, g);
	case 5: return obj == 2 ? "33 " : obj == 3 ? "44 " : "!";
	case 6: return fmt("1 6 ") + (d ? fmt("%d 1 ", f) : "!");
	case 7: return fmt("%d %d ", f, f) + (d ? fmt("%d ", f) : "!");
	case 8: return d ? fmt("6 %d ", f * 10 + 1) : "!";
	case 9: return fmt("%d ", obj == rq) + (obj == rq ? fmt("%d ", f) : "!");
	case 10: return "1 !";
	case 11: return !rel ? "99 " : "1 ";
	case 12: return "!";
	case 13: return fmt("%d %d %d %d %d ", g, f, f, f, f);
	case 14: return fmt("%d ", f);
	case 15: return "2 ";
	case 16: return fmt("1 %d %d ", realF(rq), realF(rq) * 10);
	case 17: return fmt("1 %d %d ", realF(rq), obj == rq);
	}
	return "";
}
static mc::Space inherit()
{
	struct T3 { int o, s, r; }; static std::vector<T3> v; if(v.empty()) for(int o = 0; o < kNC; o++) for(int s = 0; s < kNC; s++) for(int r = 0; r < kNC; r++) if(derives(o, s)) v.push_back({o, s, r});
	mc::Space s; s.name = "inheritance"; s.count = v.size() * 3; s.chunk = 1; s.caseTimeout = 60;
	s.begin = [](mc::Ctx &){ fresh(STD_NONE); adt::bindOps(); };
	s.run = [](mc::u64 i, mc::Ctx &c){
		T3 x = v[i / 3]; int cfg = i % 3; S src = inhSource(x.o, x.s, x.r); nullcClean();
		Outcome o = run(src, {cfg == 1 ? NULLC_X86 : NULLC_REG_VM, cfg == 0 ? 0 : 2}); if(!o.ran){ c.fail(o.fullError + "\n" + src); return; }
		for(int k = 0; k < 6; k++) for(int q = 0; q < 18; q++)
		{
			S want = inhWant(x.o, x.s, x.r, q); if(want == "?"){ c.skip(); continue; } bool err = !want.empty() && want.back() == '!'; if(err) want.pop_back();
			adt::ops() = {k, q}; adt::pos() = 0; trace().clear(); c.exec(); c.step(1); bool ok = nullcRunFunction("go") != 0; c.state(mc::hashStr(trace()));
			if(ok == err || trace() != want){ c.fail(fmt("object %s, reference %s, requested %s, kind %d, operation %d, cfg %d: observed '%s' %s, expected '%s'%s", kCl[x.o].n, kCl[x.s].n, kCl[x.r].n, k, q, cfg, trace().c_str(), ok ? "" : firstLine(nullcGetLastError()).c_str(), want.c_str(), err ? " and an error" : "") + "\n" + src); if(c.nfail > 3) return; }
		}
	};
	s.describe = [](mc::u64 i){ return inhSource(v[i / 3].o, v[i / 3].s, v[i / 3].r); };
	return s;
}
// method tables: two classes and int implement any subset of the overloads; every call form on every object
static const char *kSig[] = {"(int x)", "(double x)", "(int x, int y)"};
static S methodSource(int ma, int mb, int mi, int call)
{
	S r = "import mc; import mcop;\n"; const char *cls[] = {"A", "B", "int"}; int m[] = {ma, mb, mi};
	r += "class A{ int v; }\nclass B{ int v; }\nclass N{ int v; }\n";
	for(int k = 0; k < 3; k++) for(int q = 0; q < 3; q++) if(m[k] & 1 << q) r += fmt("int %s:f%s{ return %d; }\n", cls[k], kSig[q], (k + 1) * 10 + q);
	r += "A a; B b; N n; int i = 3;\nint go(){ auto ref r; switch(op()){ case 0: r = &a; break; case 1: r = &b; break; case 2: r = &i; break; case 3: r = &n; break; case 4: break; }\n t(r.f" + S(call == 0 ? "(1)" : call == 1 ? "(1.5)" : "(1, 2)") + "); return 0; }\n";
	return r;
}
static mc::Space methods()
{
	mc::Space s; s.name = "method tables"; s.count = 8 * 8 * 8 * 3; s.chunk = 8; s.caseTimeout = 60;
	s.begin = [](mc::Ctx &){ fresh(STD_NONE); adt::bindOps(); };
	s.run = [](mc::u64 i, mc::Ctx &c){
		int call = i % 3, m[3] = {int(i / 3 % 8), int(i / 24 % 8), int(i / 192 % 8)}; S src = methodSource(m[0], m[1], m[2], call); int all = m[0] | m[1] | m[2];
		// selection at compile time: exact match first, then the only one-argument overload by conversion
		int sel = call == 2 ? (all & 4 ? 2 : -1) : all & 1 << call ? call : all & 1 << (1 - call) ? 1 - call : -1;
		for(int cfg = 0; cfg < 3; cfg++)
		{
			nullcClean(); Outcome o = run(src, {cfg == 1 ? NULLC_X86 : NULLC_REG_VM, cfg == 0 ? 0 : 2}); c.step(1);
			if(o.built != (sel >= 0)){ c.fail(fmt("compilation: observed %d (%s), expected %d\n", o.built, o.fullError.c_str(), sel >= 0) + src); return; }
			if(sel < 0) continue;
			for(int k = 0; k < 5; k++)
			{
				bool err = k > 2 || !(m[k] & 1 << sel); S want = err ? "" : fmt("%d ", (k + 1) * 10 + sel);
				adt::ops() = {k}; adt::pos() = 0; trace().clear(); c.exec(); bool ok = nullcRunFunction("go") != 0; c.state(mc::hashStr(trace() + fmt("%d", k)));
				if(ok == err || trace() != want){ c.fail(fmt("object %d cfg %d: observed '%s' %s, expected '%s'%s\n", k, cfg, trace().c_str(), ok ? "" : firstLine(nullcGetLastError()).c_str(), want.c_str(), err ? " and an error" : "") + src); return; }
			}
		}
	};
	s.describe = [](mc::u64 i){ return methodSource(i / 3 % 8, i / 24 % 8, i / 192 % 8, i % 3); };
	return s;
}
// histories over two auto ref variables and storage of three types
static adt::Adt refHistory()
{
	adt::Adt a; a.name = "auto ref histories"; a.std_ = false; a.depth = 5;
	a.opNames = {"r = &i", "r = &j", "r = &f", "q = r", "r = q", "*int r = 5", "read int r", "read float r", "replace(r, q)", "swap(r, q)", "equal(r, q)", "q = duplicate(r)", "r = nullptr", "q = j", "*r = 2.5f"};
	a.source = "int i = 1, j = 2; float f = 3; auto ref r, q; void reset(){ i = 1; j = 2; f = 3; r = nullptr; q = nullptr; }\n"
		"int go(){ reset(); int o; while((o = op()) >= 0){ switch(o){ case 0: r = &i; break; case 1: r = &j; break; case 2: r = &f; break; case 3: q = r; break; case 4: r = q; break; case 5: { int ref p = r; *p = 5; } break; case 6: { int v = r; t(v); } break; case 7: { float v = r; t(int(v)); } break;"
		" case 8: replace(r, q); break; case 9: swap(r, q); break; case 10: t(equal(r, q)); break; case 11: q = duplicate(r); break; case 12: r = nullptr; break; case 13: q = j; break; case 14: { float h = 2.5f; *r = h; } break; } t(i); t(j); t(int(f * 2)); t(r == q); t(typeid(r) == int); t(typeid(q) == float); } return 0; }\n";
	a.model = [](const std::vector<int> &v, adt::Out &o){
		struct Cell { int type; double val; }; std::deque<Cell> mem = {{1, 1}, {1, 2}, {2, 3}}; int r = -1, q = -1;
		auto ty = [&](int p){ return p < 0 ? 0 : mem[p].type; };
		for(int op : v)
		{
			bool err = false;
			switch(op)
			{
			case 0: r = 0; break; case 1: r = 1; break; case 2: r = 2; break; case 3: q = r; break; case 4: r = q; break;
			case 5: if(ty(r) != 1) err = true; else mem[r].val = 5; break;
			case 6: if(ty(r) != 1) err = true; else o.t((int)mem[r].val); break;
			case 7: if(ty(r) != 2) err = true; else o.t((int)mem[r].val); break;
			case 8: if(ty(r) != ty(q)) err = true; else if(r >= 0) mem[r].val = mem[q].val; break;
			case 9: if(ty(r) != ty(q)) err = true; else if(r >= 0) std::swap(mem[r].val, mem[q].val); break;
			case 10: if(ty(r) != ty(q)) err = true; else o.t(r < 0 || mem[r].val == mem[q].val); break;
			case 11: if(r < 0){ o.undef = true; return; } mem.push_back(mem[r]); q = mem.size() - 1; break;
			case 12: r = -1; break; case 13: mem.push_back(mem[1]); q = mem.size() - 1; break;
			case 14: if(ty(r) != 2) err = true; else mem[r].val = 2.5; break;
			}
			if(err){ o.err = true; return; }
			o.t((int)mem[0].val); o.t((int)mem[1].val); o.t((int)(mem[2].val * 2)); o.t(r == q); o.t(ty(r) == 1); o.t(ty(q) == 2);
		}
	};
	return a;
}
static adt::Adt arrayHistory()
{
	adt::Adt a; a.name = "auto array histories"; a.std_ = false; a.depth = 5;
	a.opNames = {"x = a3", "x = d", "x = f2", "x = new int[2]", "y = x", "x = y", "x.set(7, 0)", "x.set(8, size)", "x.set(9, size + 4)", "d = x", "a3 = x", "read x[1]", "force(x, 1)", "x = duplicate(x)", "x = auto_array(int, 2)", "array_copy(x, y)", "*x[0] = 6", "f2 = x", "x.set(float)"};
	a.source = "int[3] a3; int[] d; float[2] f2; auto[] x, y; void reset(){ a3[0] = 1; a3[1] = 2; a3[2] = 3; d = new int[1]; d[0] = 4; f2[0] = 5; f2[1] = 6; auto[] e; x = e; y = e; }\n"
		"int go(){ reset(); int o; while((o = op()) >= 0){ switch(o){ case 0: x = a3; break; case 1: x = d; break; case 2: x = f2; break; case 3: x = new int[2]; break; case 4: y = x; break; case 5: x = y; break; case 6: x.set(7, 0); break; case 7: x.set(8, x.size); break; case 8: x.set(9, x.size + 4); break; case 9: d = x; break; case 10: a3 = x; break; case 11: { int v = x[1]; t(v); } break;"
		" case 12: __force_size(&x, 1); break; case 13: x = duplicate(x); break; case 14: x = auto_array(int, 2); break; case 15: array_copy(x, y); break; case 16: *x[0] = 6; break; case 17: f2 = x; break; case 18: { float h = 9; x.set(&h, 1); } break; }\n"
		" t(o < 6 || o > 8 && o != 18 ? x.size : x.size > 0); for(int k = 0; k < a3.size; k++) t(a3[k]); t(int(f2[0])); if(o > 8 || o < 6){ t(d.size); for(int k = 0; k < d.size; k++) t(d[k]); } } return 0; }\n";
	a.model = [](const std::vector<int> &v, adt::Out &o){
		struct Blk { int type; std::vector<int> v; }; std::deque<Blk> mem; struct Ref { int type, blk, len; }; auto mk = [&](int t, std::vector<int> d){ mem.push_back({t, d}); return int(mem.size() - 1); };
		int a3 = mk(1, {1, 2, 3}), f2 = mk(2, {5, 6}); Ref d = {1, mk(1, {4}), 1}, x = {0, -1, 0}, y = x;
		for(int op : v)
		{
			bool err = false; auto set = [&](int val, int t, int pos){
				if(x.type != t){ err = true; return; }
				if(pos >= x.len){ int ns = 1 + x.len + (x.len >> 1); if(pos >= ns) ns = pos + 1; std::vector<int> n(ns, 0); for(int k = 0; k < x.len; k++) n[k] = mem[x.blk].v[k]; x.blk = mk(t, n); x.len = ns; }
				mem[x.blk].v[pos] = val; };
			switch(op)
			{
			case 0: x = {1, a3, 3}; break; case 1: x = d; break; case 2: x = {2, f2, 2}; break; case 3: x = {1, mk(1, {0, 0}), 2}; break; case 4: y = x; break; case 5: x = y; break;
			case 6: set(7, 1, 0); break; case 7: set(8, 1, x.len); break; case 8: set(9, 1, x.len + 4); break;
			case 9: if(x.type != 1) err = true; else d = x; break;
			case 10: if(x.type != 1 || x.len != 3) err = true; else for(int k = 0; k < 3; k++) mem[a3].v[k] = mem[x.blk].v[k]; break;
			case 11: if(x.type != 1 || x.len < 2) err = true; else o.t(mem[x.blk].v[1]); break;
			case 12: if(x.len < 1) err = true; else x.len = 1; break;
			case 13: { if(x.blk < 0) break; std::vector<int> n(mem[x.blk].v.begin(), mem[x.blk].v.begin() + x.len); x.blk = mk(x.type, n); } break;
			case 14: x = {1, mk(1, {0, 0}), 2}; break;
			case 15: if(x.blk == y.blk) break; if(x.type != y.type || x.len < y.len) err = true; else for(int k = 0; k < y.len; k++) mem[x.blk].v[k] = mem[y.blk].v[k]; break;
			case 16: if(x.type != 1 || x.len < 1) err = true; else mem[x.blk].v[0] = 6; break;
			case 17: if(x.type != 2 || x.len != 2) err = true; else for(int k = 0; k < 2; k++) mem[f2].v[k] = mem[x.blk].v[k]; break;
			case 18: set(9, 2, 1); break;
			}
			if(err){ o.err = true; return; }
			bool s = (op >= 6 && op <= 8) || op == 18; o.t(s ? x.len > 0 : x.len); for(int k = 0; k < 3; k++) o.t(mem[a3].v[k]); o.t(mem[f2].v[0]);
			if(op > 8 || op < 6){ o.t(d.len); for(int k = 0; k < d.len; k++) o.t(mem[d.blk].v[k]); }
		}
	};
	return a;
}
// copying through a base reference
struct Slice { const char *what, *code, *want; };
static const Slice kSlice[] = {
	{"variable initialised from a base reference", "A v = *pa; auto ref r = &v; t(typeid(r) == A); t(typeid(r) == B); A ref p = &v; t(p.f());", "1 0 1 "},
	{"variable assigned from a base reference", "A v; v = *pa; auto ref r = &v; t(typeid(r) == A); t(typeid(r) == B); A ref p = &v; t(p.f());", "1 0 1 "},
	{"array element assigned from a base reference", "A[2] v; v[1] = *pa; auto ref r = &v[1]; t(typeid(r) == A); t(typeid(r) == B); A ref p = &v[1]; t(p.f());", "1 0 1 "},
	{"member assigned from a base reference", "class H{ A m; } H h; h.m = *pa; auto ref r = &h.m; t(typeid(r) == A); t(typeid(r) == B); A ref p = &h.m; t(p.f());", "1 0 1 "},
	{"value assigned through a base reference", "A v; *pa = v; auto ref r = &b; t(typeid(r) == A); t(typeid(r) == B); t(pa.f());", "0 1 2 "},
	{"argument passed by value", "int h(A x){ auto ref r = &x; t(typeid(r) == A); t(typeid(r) == B); A ref p = &x; return p.f(); } t(h(*pa));", "1 0 1 "},
	{"result returned by value", "A h(A ref x){ return *x; } A v = h(pa); auto ref r = &v; t(typeid(r) == A); t(typeid(r) == B); A ref p = &v; t(p.f());", "1 0 1 "},
	{"auto ref unboxed to the base class", "auto ref q = pa; A v = q; auto ref r = &v; t(typeid(r) == A); t(typeid(r) == B); A ref p = &v; t(p.f());", "1 0 1 "},
	{"heap object assigned through references", "A ref n = new A(); *n = *pa; auto ref r = n; t(typeid(r) == A); t(typeid(r) == B); t(n.f());", "1 0 1 "},
	{"boxed copy of a base reference", "auto ref r = *pa; t(typeid(r) == A || typeid(r) == B); A ref p = r; t(p.a);", "1 6 "},
};
static mc::Space slices()
{
	mc::Space s; s.name = "copies through a base class"; s.count = sizeof(kSlice) / sizeof(kSlice[0]) * 6; s.chunk = 1; s.caseTimeout = 60;
	static auto src = [](int k){ return S("import mc;\nclass A extendable{ int a; int f(){ return 1; } }\nclass B : A{ double b; int f(){ return 2; } }\nB b; b.a = 6; A ref pa = &b;\n") + kSlice[k].code; };
	s.begin = [](mc::Ctx &){ fresh(STD_NONE); };
	s.run = [](mc::u64 i, mc::Ctx &c){
		int k = i / 6; Outcome o = run(src(k), {i & 1 ? NULLC_X86 : NULLC_REG_VM, int(i / 2 % 3)}); c.exec(); c.step(1); c.state(mc::hashStr(trace()));
		if(!o.ran || trace() != kSlice[k].want) c.fail(fmt("%s: observed '%s' %s, expected '%s'\n", kSlice[k].what, trace().c_str(), o.fullError.c_str(), kSlice[k].want) + src(k), fmt("C18 slice %s", kSlice[k].what));
	};
	s.describe = [](mc::u64 i){ return src(i / 6); };
	return s;
}
// type identity across modules: every order of two modules and every combination of extra types declared between them
static mc::Space modules()
{
	mc::Space s; s.name = "types across modules"; s.count = 2 * 2 * 4 * 8 * 8; s.chunk = 16; s.caseTimeout = 60;
	s.begin = [](mc::Ctx &){};
	s.run = [](mc::u64 i, mc::Ctx &c){
		int order = i % 2, bin = i / 2 % 2, extra = i / 4 % 4, mk = i / 16 % 8, use = i / 128 % 8; fresh(STD_NONE);
		const char *T[] = {"P", "Q", "int", "G<int>", "G<float>", "P ref", "int[]", "int ref(P)"}, *V[] = {"P v; v.x = 1;", "Q v; v.x = 1;", "int v = 1;", "G<int> v; v.x = 1;", "G<float> v; v.x = 1;", "P v1x; v1x.x = 1; P ref v = &v1x;", "int[] v = new int[1];", "int ref(P) v;"};
		S base = "class P{ int x; } class Q{ int x; } class G<T>{ T x; }";
		S a = S("import c18.base;\n") + (extra & 1 ? "class XA{ int q; } G<XA> gxa; XA ref[4] xs;\n" : "") + "auto ref make(){ " + V[mk] + " return duplicate(&v); } auto ref[] many(){ auto ref[] l = new auto ref[2]; l[0] = make(); l[1] = make(); return l; }";
		S b = S("import c18.base;\n") + (extra & 2 ? "class XB{ P p; } G<XB> gxb; int ref(XB, int)[3] ys;\n" : "") + "typedef " + T[use] + " U; bool is(auto ref x){ return typeid(x) == U; } int conv(auto ref x){ U ref p = x; return p != nullptr; } typeid tu(){ return U; }";
		auto load = [&](const char *n, const S &t){ static std::vector<S> keep; keep.push_back(t); if(!nullcLoadModuleBySource(n, keep.back().c_str())){ c.fail(S(n) + ": " + nullcGetLastError() + "\n" + t); return false; }
			if(bin){ // reload from the saved bytecode
				char *bc; unsigned sz; if(!nullcCompile(keep.back().c_str())){ c.fail(nullcGetLastError()); return false; } sz = nullcGetBytecodeNoCache(&bc); std::vector<char> cp(bc, bc + sz); delete[] bc; S f = n; for(auto &ch : f) if(ch == '.') ch = '/'; nullcRemoveModule((f + ".nc").c_str()); if(!nullcLoadModuleByBinary(n, cp.data())){ c.fail(S("binary ") + n + ": " + nullcGetLastError()); return false; } }
			return true; };
		if(!load("c18.base", base) || !load("c18.a", a) || !load("c18.b", b)) return;
		S m = order ? "import c18.a; import c18.b;" : "import c18.b; import c18.a;"; m = "import mc; " + m + "\nimport c18.base; class L{ int w; } typedef " + T[mk] + " M; auto x = make(); t(is(x)); t(typeid(x) == M); t(typeid(x) == tu()); M ref z = x; for(i in many()){ t(is(i)); t(conv(i)); } return 0;";
		bool e = mk == use; S want = e ? "1 1 1 1 1 1 1 " : "0 1 0 0 ";
		for(int cfg = 0; cfg < 2; cfg++){ Outcome o = run(m, {cfg ? NULLC_X86 : NULLC_REG_VM, cfg ? 2 : 1}); c.exec(); c.step(1); c.state(mc::hashStr(trace()));
			if(!o.built || o.ran != e || trace() != want){ c.fail(fmt("order %d binary %d extra %d make %s use %s cfg %d: observed '%s' %s expected '%s'\n", order, bin, extra, T[mk], T[use], cfg, trace().c_str(), o.fullError.c_str(), want.c_str()) + a + "\n" + b + "\n" + m); return; } }
	};
	s.describe = [](mc::u64 i){ return fmt("%llu", (unsigned long long)i); };
	return s;
}
int main(int argc, char **argv)
{
	mc::Engine e("C18", argc, argv);
	static adt::Adt r = refHistory(), x = arrayHistory(); e.technique = "exhaustive enumeration of typed reference operations with the real compiler and executors, oracle by type identity"; e.rule = "all (real type, requested type) pairs of 26 types x 10 ways to make the reference x 44 operations, all inheritance triples, all method tables over 3 types x 3 overloads, all histories of auto ref / auto[] operations to depth 5 (thorough 6), module import orders x forms"; if(e.thorough){ r.depth = 6; x.depth = 6; }
	e.add(pairs()); e.add(inherit()); e.add(methods()); e.add(slices()); e.add(modules());
	for(int ex : {NULLC_REG_VM, NULLC_X86}){ e.add(adt::space(&r, ex)); e.add(adt::space(&x, ex)); }
	return e.finish();
}
