// C05: invalid accesses stop the program with an error and change nothing
#include "nc.h"
#include <NULLC/nullc_debug.h>
#include <sys/wait.h>
using namespace nc;

struct Elem { const char *t, *init, *show, *val; bool num; };	// init: value of element k; show: expression over element e giving a double
static const Elem elems[] = {
	{"char", "char(k + 10)", "e", "char(77)", true}, {"short", "short(k + 1000)", "e", "short(77)", true}, {"int", "k + 100000", "e", "77", true}, {"long", "10000000000l + k", "e", "77l", true},
	{"float", "k + 0.5", "e", "77.0f", true}, {"double", "k + 0.25", "e", "77.0", true}, {"S", "mkS(k)", "e.x + e.y", "mkS(77)", false}, {"int ref", "&POOL[k]", "*e", "&POOL[7]", false}, {"char[]", "STR[k]", "e[0]", "STR[7]", false}, {"int ref(int)", "FUN[k]", "e(1)", "FUN[7]", false}, {"C3", "mkC3(k)", "e.a + e.c", "mkC3(77)", false}};
static const int kElems = sizeof(elems) / sizeof(*elems);
enum { SRC_GFIXED, SRC_GDYN, SRC_LOCAL, SRC_PARAM, SRC_MEMBER, SRC_REF, SRC_CAPTURED, SRC_NESTED, SRC_DYNMEMBER, SRC_RESULT, SRC_LOCALDYN, SRC_HEAPFIXED, SRC_MEMBERFN, SRC_COUNT };
static const char *srcExpr[] = {"G1", "G2", "L", "Q", "G5.m", "G6", "L", "G8[1]", "G9.m", "mk()", "L", "G10", "m"};
enum { ACC_READ, ACC_WRITE, ACC_COMPOUND, ACC_INC, ACC_ADDR, ACC_BYREF, ACC_READEXPR, ACC_LOOP, ACC_COUNT };
static const int idxValues[] = {INT32_MIN, INT32_MIN + 1, -65536, -4, -3, -1, 0, 1, 2, 3, 4, 5, 255, 65536, 0x08000000, 0x10000000, 0x20000000, 0x40000000, 0x40000001, 0x55555556, 0x7ffffffe, 0x7fffffff};
static const int kIdx = sizeof(idxValues) / sizeof(*idxValues);

static std::string srcModule(int ei, int si)
{
	const Elem &e = elems[ei]; std::string T = "ET";
	std::string s = "import mc;\nclass S{ int x; double y; } class C3{ char a; char b; char c; } S mkS(int k){ S s; s.x = k + 1; s.y = k + 0.5; return s; } C3 mkC3(int k){ C3 c; c.a = k; c.b = 2; c.c = k + 1; return c; } int[8] POOL; typedef char[] STRT; typedef int ref(int) FNT; STRT[8] STR; int f0(int a){ return a + 1; } int f1(int a){ return a + 2; } int f2(int a){ return a + 3; } FNT[8] FUN;\n"; s += fmt("typedef %s ET; typedef ET[3] TA;\n", e.t);
	s += fmt("int guard0; TA G1; int guard1; ET[] G2; int guard2; class H{ int pre; TA m; int post; double acc(int i){ double r = 0; t(1); ET e = m[i]; r = %s; t(2); return r; } } H G5; TA ref G6; int guard3; TA[2] G8; int guard4; class HD{ ET[] m; int post; } HD ref G9; TA ref G10; double R; long RI; int guard5;\n", e.show);
	s += fmt("ET[] mk(){ return G2; } ET el(int k){ return %s; }\n", e.init);
	s += "double show(" + T + " e){ return " + e.show + "; }\nvoid change(" + T + " ref p){ *p = " + e.val + "; }\n";
	s += "void reset(){ for(int i = 0; i < 8; i++){ POOL[i] = i + 50; STR[i] = \"abc\"; FUN[i] = f2; } STR[0] = \"xbc\"; STR[1] = \"ybc\"; FUN[0] = f0; FUN[1] = f1; guard0 = guard1 = guard2 = guard3 = guard4 = guard5 = 1234567; G2 = new " + T + "[3]; G6 = &G1; G9 = new HD; G9.m = new " + T + "[3]; G9.post = 5; G10 = new TA; G5.pre = G5.post = 99; for(int k = 0; k < 3; k++){ G1[k] = el(k); G2[k] = el(k); G5.m[k] = el(k); G8[0][k] = el(k + 3); G8[1][k] = el(k); G9.m[k] = el(k); G10[k] = el(k); } R = -1; RI = 0; }\n";
	s += "int guards(){ return guard0 == 1234567 && guard1 == 1234567 && guard2 == 1234567 && guard3 == 1234567 && guard4 == 1234567 && guard5 == 1234567 && G5.pre == 99 && G5.post == 99 && G9.post == 5; }\n";
	std::string sum; // weighted sum of the array elements, run after the access
	for(int k = 0; k < 3; k++) sum += fmt("%sshow(%s[%d]) * %d", k ? " + " : "", si == SRC_CAPTURED || si == SRC_LOCAL || si == SRC_LOCALDYN ? "L" : si == SRC_PARAM ? "Q" : srcExpr[si], k, k == 0 ? 1 : k == 1 ? 1000 : 1000000);
	for(int a = 0; a < ACC_COUNT; a++)
	{
		if(!e.num && (a == ACC_COMPOUND || a == ACC_INC)) continue;
		if(si == SRC_MEMBERFN && a != ACC_READ) continue;
		if(si == SRC_RESULT && (a == ACC_ADDR || a == ACC_BYREF)) {}
		std::string X = srcExpr[si], acc;
		switch(a)
		{
		case ACC_READ: acc = "R = show(" + X + "[i]);"; break;
		case ACC_WRITE: acc = X + "[i] = " + e.val + ";"; break;
		case ACC_COMPOUND: acc = X + "[i] += 2;"; break;
		case ACC_INC: acc = "++" + X + "[i];"; break;
		case ACC_ADDR: acc = T + " ref p = &" + X + "[i]; *p = " + e.val + ";"; break;
		case ACC_BYREF: acc = "change(&" + X + "[i]);"; break;
		case ACC_READEXPR: acc = "R = 1000.0 + show(" + X + "[(i ^ 5) ^ 5]) + te(7, 0);"; break;
		case ACC_LOOP: acc = "double q = 0; for(int k = 0; k < 2; k++){ " + T + " v = " + X + "[i]; q += show(v); } R = q;"; break;
		}
		std::string body = "t(1); " + acc + " t(2); RI = 1; " + (si == SRC_MEMBERFN ? "" : "double Z = " + sum + "; td(Z);");
		std::string fill = "for(int k = 0; k < 3; k++) L[k] = el(k); ";
		std::string fn;
		switch(si)
		{
		case SRC_LOCAL: fn = fmt("void g%d(int i){ int la = 3; TA L; int lb = 4; ", a) + fill + body + " t(la * 10 + lb); }"; break;
		case SRC_LOCALDYN: fn = fmt("void g%d(int i){ ET[] L = new ET[3]; ", a) + fill + body + " }"; break;
		case SRC_CAPTURED: fn = fmt("void g%d(int i){ TA L; ", a) + fill + "void inn(){ " + body + " } inn(); }"; break;
		case SRC_PARAM: fn = fmt("void h%d(ET[] Q, int i){ ", a) + body + fmt(" } void g%d(int i){ h%d(G1, i); }", a, a); break;
		case SRC_MEMBERFN: fn = fmt("void g%d(int i){ R = G5.acc(i); RI = 1; }", a); break;
		default: fn = fmt("void g%d(int i){ ", a) + body + " }";
		}
		s += fn + "\n";
		// the same with the index known to the optimizer
		if(si != SRC_MEMBERFN && si != SRC_PARAM) for(int k : {-1, 2, 3, 0x40000000}) { std::string f2 = fn; size_t p = f2.find(fmt("g%d(int i){", a)); f2.replace(p, fmt("g%d(int i){", a).size(), fmt("c%d_%u(int z){ int i = %d; ", a, (unsigned)k, k)); s += f2 + "\n"; }
	}
	return s + "return 1;";
}

// values of all named global variables (the compiler's own hidden closure lists are not user data)
static std::string snapshot()
{
	unsigned n = 0, tn = 0, size = 0; ExternVarInfo *v = nullcDebugVariableInfo(&n); ExternTypeInfo *t = nullcDebugTypeInfo(&tn); char *sym = nullcDebugSymbols(NULL); char *data = (char*)nullcGetVariableData(&size); std::string r;
	for(unsigned i = 0; i < n; i++) if(sym[v[i].offsetToName] != '$' && v[i].offset + t[v[i].type].size <= size) r.append(data + v[i].offset, t[v[i].type].size);
	return r;
}
static const char *kErrBounds = "ERROR: array index out of bounds";
static void runSrc(u64 idx, mc::Ctx &c)
{
	int ei = idx % kElems, si = (int)(idx / kElems);
	std::string src = srcModule(ei, si);
	for(int ex = 0; ex < 2; ex++) for(int o = 0; o < 3; o++)
	{
		Outcome b = run(src, {ex, o});
		if(!b.ran){ c.fail(fmt("%s: %s", cfgName({ex, o}), b.fullError.c_str())); return; }
		for(int a = 0; a < ACC_COUNT; a++)
		{
			const Elem &e = elems[ei];
			if(!e.num && (a == ACC_COMPOUND || a == ACC_INC)) continue;
			if(si == SRC_MEMBERFN && a != ACC_READ) continue;
			std::string okTrace[3];
			for(int form = 0; form < (si == SRC_MEMBERFN || si == SRC_PARAM ? 1 : 2); form++)
			for(int vi = 0; vi < kIdx; vi++)
			{
				int i = idxValues[vi]; std::string fn = fmt("g%d", a);
				if(form == 1){ bool have = false; for(int k : {-1, 2, 3, 0x40000000}) have |= k == i; if(!have) continue; fn = fmt("c%d_%u", a, (unsigned)i); }
				if(!nullcRunFunction("reset")){ c.fail(std::string("reset failed: ") + nullcGetLastError()); return; }
				std::string before = snapshot();
				trace().clear();
				bool ok = nullcRunFunction(fn.c_str(), i) != 0;
				std::string tr = trace(), err = ok ? "" : nullcGetLastError();
				c.exec(); c.step(); c.state(mc::mix(mc::hashStr(tr + firstLine(err.c_str())), mc::mix(idx * 100 + a, vi)));
				std::string where = fmt("%s element %s source %s access %d index %d form %d", cfgName({ex, o}), e.t, srcExpr[si], a, i, form);
				bool valid = i >= 0 && i < 3;
				if(valid != ok){ c.fail(where + (ok ? ": invalid access succeeded" : ": valid access reports " + err), where); return; }
				if(ok)
				{
					if(tr.compare(0, 2, "1 ") || tr.find(" 2 ") == std::string::npos){ c.fail(where + ": effects missing, trace " + tr, where); return; }
					if(o == 0 && ex == 0 && form == 0) okTrace[i] = tr; 
					// value semantics against the expected weighted sum
					double base[3]; static double (*val)(int, int) = [](int t, int k) -> double { switch(t){ case 0: return k + 10; case 1: return k + 1000; case 2: return k + 100000; case 3: return 1e10 + k; case 4: return k + 0.5; case 5: return k + 0.25; case 6: return k + 1 + k + 0.5; case 7: return k + 50; case 8: return "xya"[k]; case 9: return 2 + k; case 10: return k + k + 1; } return 0; };
					static const double written[] = {77, 77, 77, 77, 77, 77, 78 + 77.5, 57, 'a', 4, 77 + 78};
					for(int k = 0; k < 3; k++) base[k] = val(ei, k);
					double R; memcpy(&R, nullcGetGlobal("R"), 8);
					double wantR = -1;
					if(a == ACC_READ) wantR = base[i]; else if(a == ACC_READEXPR) wantR = 1000.0 + base[i]; else if(a == ACC_LOOP) wantR = base[i] + base[i];
					if(a == ACC_WRITE || a == ACC_ADDR || a == ACC_BYREF) base[i] = written[ei]; else if(a == ACC_COMPOUND) base[i] += 2; else if(a == ACC_INC) base[i] += 1;
					if(R != wantR){ c.fail(where + fmt(": read %g, expected %g", R, wantR), where); return; }
					if(si != SRC_MEMBERFN)
					{
						double sum = base[0] + base[1] * 1000 + base[2] * 1000000;
						if(tr.find(fmt("%.17gd ", sum)) == std::string::npos){ c.fail(where + fmt(": array after the access %s, expected sum %.17g", tr.c_str(), sum), where); return; }
					}
				}
				else
				{
					if(tr != "1 "){ c.fail(where + ": effects before/after the failing access: " + tr, where); return; }
					if(err.compare(0, strlen(kErrBounds), kErrBounds)){ c.fail(where + ": error text " + err, where); return; }
					
					if(snapshot() != before){ c.fail(where + ": failing access modified global variables", where); return; }
				}
				if(!nullcRunFunction("guards") || nullcGetResultInt() != 1){ c.fail(where + ": neighbouring data damaged or next call failed", where); return; }
			}
		}
	}
}

// ---- null references, null functions, failed conversions
struct Bad { const char *decl, *stmt, *err; };
static const char *const NP = "ERROR: null pointer access";
static const char *const kBadHead = "import mc;\nclass S{ char c; short s; int i; long l; float f; double d; int[4] a; int get(int k){ return i + k; } void set(int k){ i = k; } int ref(int) fn; S ref next; } class A extendable{ int v; int id(){ return v; } } class B : A{ int w; } class C : B{ int z; } class D : A{ int q; } double R; long RL; int G; S GS; S ref NS; int ref NI; double ref ND; float ref NF; char ref NC; short ref NSH; long ref NL; bool ref NB; int ref(int) NFN; void ref() NFV; double ref(double, int) NFD; auto ref NA; auto[] NZ; A ref AR; int ref ref NP; int[] NARR; char[] NSTR; S[] NSA; typedef int ref(int) FNT; typedef int ref IRT; typedef int[4] A4T; FNT[2] FA; IRT[2] PA; A4T ref NR4;\nint takeS(S s){ return s.i; } int takeR(int ref p){ return *p; } S ref giveNull(){ S ref r; return r; } int ref(int) giveFn(){ int ref(int) r; return r; } void resetB(){ R = -1; RL = -1; G = 7; GS.i = 5; GS.next = nullptr; NS = nullptr; AR = nullptr; NA = nullptr; }\n";
static const Bad bads[] = {
	{"", "R = *NI;", NP}, {"", "*NI = 5;", NP}, {"", "*NI += 5;", NP}, {"", "R = *ND;", NP}, {"", "*ND = 1.5;", NP}, {"", "R = *NF;", NP}, {"", "*NF = 1.5;", NP}, {"", "R = *NC;", NP}, {"", "*NC = 'a';", NP}, {"", "R = *NSH;", NP}, {"", "*NSH = 3;", NP}, {"", "RL = *NL;", NP}, {"", "*NL = 3;", NP}, {"", "*NL *= 3;", NP}, {"", "R = *NB;", NP}, {"", "*NB = true;", NP},
	{"", "R = NS.c;", NP}, {"", "R = NS.s;", NP}, {"", "R = NS.i;", NP}, {"", "RL = NS.l;", NP}, {"", "R = NS.f;", NP}, {"", "R = NS.d;", NP}, {"", "R = NS.a[hide(2)];", NP}, {"", "NS.c = 1;", NP}, {"", "NS.s = 1;", NP}, {"", "NS.i = 1;", NP}, {"", "NS.l = 1;", NP}, {"", "NS.f = 1;", NP}, {"", "NS.d = 1;", NP}, {"", "NS.a[hide(2)] = 1;", NP}, {"", "NS.i++;", NP}, {"", "--NS.d;", NP}, {"", "NS.f *= 2.0;", NP},
	{"", "R = NS.get(1);", NP}, {"", "NS.set(1);", NP}, {"", "R = NS.next.i;", NP}, {"", "R = GS.next.i;", NP}, {"", "GS.next.next = &GS;", NP}, {"", "S s = *NS; R = s.i;", NP}, {"", "*NS = GS;", NP}, {"", "R = takeS(*NS);", NP}, {"", "R = giveNull().i;", NP}, {"", "R = takeR(NI);", NP}, {"", "R = *(*NP);", NP}, {"", "IRT pv = PA[hide(1)]; R = *pv;", NP}, {"", "R = NR4[hide(1)];", NP}, {"", "NR4[hide(3)] = 4;", NP}, {"", "for(i in *NR4) R = i;", NP},
	{"", "R = NFN(5);", "ERROR: invalid function pointer"}, {"", "NFV();", "ERROR: invalid function pointer"}, {"", "R = NFD(1.5, 2);", "ERROR: invalid function pointer"}, {"", "R = GS.fn(1);", "ERROR: invalid function pointer"}, {"", "R = FA[hide(1)](2);", "ERROR: invalid function pointer"}, {"", "R = giveFn()(2);", "ERROR: invalid function pointer"}, {"", "R = NS.fn(2);", NP},
	{"", "R = int(NA);", ""}, {"", "R = *(int ref(NA));", ""}, {"", "R = NA.get(4);", ""}, {"", "R = int(NZ[hide(0)]);", ""}, {"", "R = NARR[hide(0)];", kErrBounds}, {"", "R = NSTR[hide(0)];", kErrBounds}, {"", "NARR[hide(0)] = 5;", kErrBounds}, {"", "R = NSA[hide(0)].i;", kErrBounds},
	{"double d = 2.5; auto ref a = &d;", "R = int(a);", "ERROR: cannot convert from double ref to int ref"}, {"int d = 2; auto ref a = &d;", "R = double(a);", "ERROR: cannot convert from int ref to double ref"}, {"S s; auto ref a = &s;", "int ref p = int ref(a); R = *p;", "ERROR: cannot convert from S ref to int ref"}, {"int d = 2; auto ref a = &d;", "S ref p = S ref(a); R = p.i;", "ERROR: cannot convert from int ref to S ref"}, {"int d = 2; auto ref a = &d;", "long ref p = long ref(a); R = *p;", "ERROR: cannot convert from int ref to long ref"},
	{"A ref a = new A;", "B ref b = B ref(a); R = b.w;", ""}, {"A ref a = new B;", "C ref b = C ref(a); R = b.z;", ""}, {"A ref a = new D;", "B ref b = B ref(a); R = b.w;", ""}, {"A ref a = new B;", "B ref b = B ref(a); R = b.w; D ref d = D ref(a); R = d.q;", ""},
	{"int[] xx = {1, 2}; auto[] z = xx;", "R = double(z[hide(0)]);", ""}, {"int[] xx = {1, 2}; auto[] z = xx;", "R = int(z[hide(2)]);", ""}, {"int[] xx = {1, 2}; auto[] z = xx;", "R = int(z[hide(-1)]);", ""}, {"int i = 5; auto ref a = &i;", "R = a.get(4);", ""}, {"A ref a;", "R = a.id();", ""},
	{"int z = hide(0);", "RL = 5 / z;", "ERROR: integer division by zero"}, {"int z = hide(0);", "RL = 5 % z;", "ERROR: integer division by zero"}, {"long z = hidel(0);", "RL = 5 / z;", "ERROR: integer division by zero"}, {"long z = hidel(0);", "RL = 5 % z;", "ERROR: integer division by zero"}, {"int z = hide(0);", "G /= z;", "ERROR: integer division by zero"},
	{"", "assert(hide(0));", ""}, {"", "R = hostfail(3);", "host failure 3"}, {"", "int[] r = new int[hide(-1)]; R = r[0];", ""}, {"", "int[] r = new int[hide(-2147483647 - 1)]; R = r[0];", ""}, {"", "S[] r = new S[hide(100000000)]; R = r[99999999].i;", ""}, {"", "long[] r = new long[hide(0x20000001)]; R = r[hide(0x20000000)];", ""},
	{"", "int nr(int x){ if(x == 5) return 4; } R = nr(hide(3));", "ERROR: function didn't return a value"},
};
static const int kBads = sizeof(bads) / sizeof(*bads);
enum { CT_PLAIN, CT_IF, CT_LOOP, CT_CALLED, CT_CLOSURE, CT_MEMBER, CT_FNPTR, CT_HOST, CT_RECURSE, CT_SWITCH, CT_COUNT };
static std::string badFn(int bi, int ct, int n)
{
	const Bad &b = bads[bi]; std::string core = std::string(b.decl) + " t(1); " + b.stmt + " t(2); ", N = fmt("%d", n);
	switch(ct)
	{
	case CT_PLAIN: return "void g" + N + "(){ " + core + "}\n";
	case CT_IF: return "void g" + N + "(){ if(hide(1) == 1){ " + core + "}else{ t(3); } t(4); }\n";
	case CT_LOOP: return "void g" + N + "(){ for(int qi = 0; qi < 3; qi++){ " + core + "} t(4); }\n";
	case CT_CALLED: return "int h" + N + "(int x){ " + core + " return x; } void g" + N + "(){ int v = h" + N + "(4); t(v); }\n";
	case CT_CLOSURE: return "void g" + N + "(){ int cv = hide(3); int inn(int y){ " + core + " cv++; return cv + y; } int v = inn(2); t(v); t(cv); }\n";
	case CT_MEMBER: return "class M" + N + "{ int mv; int run(int y){ " + core + " mv++; return mv + y; } } void g" + N + "(){ M" + N + " m; m.mv = 3; int v = m.run(2); t(v); }\n";
	case CT_FNPTR: return "int h" + N + "(int x){ " + core + " return x; } void g" + N + "(){ int ref(int) fp = h" + N + "; int v = fp(4); t(v); }\n";
	case CT_HOST: return "int h" + N + "(int x){ " + core + " return x; } void g" + N + "(){ int v = hcall(h" + N + ", 4); t(v); }\n";
	case CT_RECURSE: return "int h" + N + "(int x){ if(x > 0){ int v = h" + N + "(x - 1); t(v); return v; } " + core + " return x; } void g" + N + "(){ int v = h" + N + "(3); t(v); }\n";
	case CT_SWITCH: return "void g" + N + "(){ switch(hide(2)){ case 1: t(3); case 2: " + core + " case 3: t(4); } }\n";
	}
	return "";
}
static std::string badSource(int bi){ std::string s = kBadHead; for(int c = 0; c < CT_COUNT; c++) s += badFn(bi, c, c); return s + "int ok(int v){ S s; s.set(v); int[] a = {1, 2, 3}; return s.get(1) + a[v & 1]; }\nreturn 1;"; }
static void runBad(u64 bi, mc::Ctx &c)
{
	std::string src = badSource((int)bi);
	for(int ex = 0; ex < 2; ex++) for(int o = 0; o < 3; o++)
	{
		Outcome b = run(src, {ex, o});
		if(!b.ran){ c.fail(fmt("%s: %s", cfgName({ex, o}), b.fullError.c_str())); return; }
		for(int rep = 0; rep < 2; rep++) for(int ct = 0; ct < CT_COUNT; ct++)
		{
			std::string where = fmt("%s context %d%s: %s %s", cfgName({ex, o}), ct, rep ? " (second time)" : "", bads[bi].decl, bads[bi].stmt);
			if(!nullcRunFunction("resetB")){ c.fail(where + ": reset failed"); return; }
			std::string before = snapshot();
			trace().clear();
			bool ok = nullcRunFunction(fmt("g%d", ct).c_str()) != 0;
			std::string tr = trace(), err = ok ? "" : firstLine(nullcGetLastError());
			c.exec(); c.step(); c.state(mc::mix(mc::hashStr(tr + err), bi * 16 + ct));
			if(ok){ c.fail(where + ": invalid operation succeeded; trace " + tr, where); return; }
			if(tr != "1 "){ c.fail(where + ": trace " + tr + " error " + err, where); return; }
			if(err.compare(0, strlen(bads[bi].err), bads[bi].err) || err.empty()){ c.fail(where + ": error '" + err + "', expected '" + bads[bi].err + "'", where); return; }
			
			bool partial = strstr(bads[bi].stmt, "R = b.w; D ref") != nullptr;
			if(!partial && snapshot() != before){ c.fail(where + ": global variables changed by the failing operation", where); return; }
			if(!nullcRunFunction("ok", 5) || nullcGetResultInt() != 8){ c.fail(where + ": next call gives a wrong answer: " + std::string(nullcGetLastError() ? nullcGetLastError() : ""), where); return; }
		}
	}
}

// ---- element access through a null reference to a fixed array, at every scale of offset; runs in a child process because the offset can reach unmapped memory
struct NullArr { const char *t; unsigned n, size; };
static const NullArr nullArrs[] = {{"char", 100, 1}, {"char", 60000, 1}, {"char", 70000, 1}, {"int", 4, 4}, {"int", 16000, 4}, {"int", 40000, 4}, {"int", 4000000, 4}, {"double", 8000, 8}, {"double", 9000, 8}, {"long", 100000, 8}};
static const int kNullArrs = sizeof(nullArrs) / sizeof(*nullArrs);
static const char *nullStmt[] = {"R = p[%d];", "p[%d] = 5;", "R = p[hide(%d)];", "p[hide(%d)] = 5;", "p[hide(%d)] += 5;", "R = *(&p[hide(%d)]);"};
static std::string nullSource(u64 idx)
{
	const NullArr &a = nullArrs[idx % kNullArrs]; int st = (int)(idx / kNullArrs) % 6, pos = (int)(idx / kNullArrs / 6) % 3; unsigned i = pos == 0 ? 0 : pos == 1 ? a.n / 2 : a.n - 1;
	return fmt("import mc;\ntypedef %s[%u] TA; TA ref p; double R;\nt(1); %s t(2); return 1;", a.t, a.n, fmt(nullStmt[st], i).c_str());
}
static void runNull(u64 idx, mc::Ctx &c)
{
	const NullArr &a = nullArrs[idx % kNullArrs]; int pos = (int)(idx / kNullArrs / 6) % 3; unsigned i = pos == 0 ? 0 : pos == 1 ? a.n / 2 : a.n - 1;
	std::string src = nullSource(idx);
	for(int ex = 0; ex < 2; ex++) for(int o = 0; o < 3; o++)
	{
		int fd[2]; if(pipe(fd)){ c.fail("pipe"); return; }
		fflush(stdout); pid_t pid = fork();
		if(pid == 0)
		{
			close(fd[0]);
			Outcome b = run(src, {ex, o});
			std::string msg = b.ran ? "invalid access succeeded" : b.trace != "1 " ? "effects: " + b.trace : b.error.find(NP) == 0 ? "" : "error " + b.error;
			if(write(fd[1], msg.c_str(), msg.size()) < 0) _exit(2);
			_exit(0);
		}
		close(fd[1]); std::string msg; char buf[512]; ssize_t r; while((r = read(fd[0], buf, 512)) > 0) msg.append(buf, r); close(fd[0]);
		int st = 0; waitpid(pid, &st, 0);
		if(WIFSIGNALED(st)) msg = fmt("host process killed by signal %d", WTERMSIG(st));
		c.exec(); c.step(); c.state(mc::mix(mc::hashStr(msg), idx * 6 + ex * 3 + o));
		if(!msg.empty()) c.fail(fmt("%s offset %u: ", cfgName({ex, o}), i * a.size) + msg, fmt("%s null fixed array element offset %s", ex ? "jit" : "vm", i * a.size >= 0x10000 ? ">= 65536" : fmt("%u", i * a.size).c_str()));
	}
}

int main(int argc, char **argv)
{
	mc::Engine e("C05", argc, argv);
	e.technique = "bounded exhaustive enumeration of access kinds x array sources x element types x index values on the real VM and JIT";
	e.rule = "every (element type, array source, access kind, index value) and every (invalid operation, enclosing context), on interpreter and JIT at all optimization levels; oracle: index in range or not; memory of all global variables compared byte by byte around failing accesses";
	mc::Space s; s.begin = [](mc::Ctx&){ nc::fresh(); }; s.chunk = 1; s.caseTimeout = 100;
	s.name = "array-index"; s.count = kElems * SRC_COUNT; s.run = runSrc; s.describe = [](u64 i){ return srcModule(i % kElems, (int)(i / kElems)); }; e.add(s);
	s.name = "invalid-operations"; s.count = kBads; s.run = runBad; s.describe = [](u64 i){ return badSource((int)i); }; e.add(s);
	s.name = "null-array-offsets"; s.count = kNullArrs * 6 * 3; s.run = runNull; s.describe = nullSource; e.add(s);
	return e.finish();
}
