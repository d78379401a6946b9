// C01: arithmetic / comparison / conversion semantics of basic types vs a reference written from the language rules
// (Rule A/B/C of the language manual): operands char/short/bool -> int, float -> double, then int < long < double.
#include "num.h"

static void writeArr(void *p, int t, const std::vector<Val> &v)
{
	char *c = (char*)p;
	for(size_t i = 0; i < v.size(); i++) switch(t)
	{
	case BOOL: case CHAR: c[i] = (char)v[i].i; break; case SHORT: ((short*)p)[i] = (short)v[i].i; break; case INT: ((int*)p)[i] = v[i].i; break;
	case LONG: memcpy(c + i * 8, &v[i].l, 8); break; case FLOAT: { float f = (float)v[i].d; memcpy(c + i * 4, &f, 4); } break; case DOUBLE: memcpy(c + i * 8, &v[i].d, 8); break;
	}
}
static Val readRes(void *p, Cat c, size_t i)
{
	if(c == CI) return VI(((int*)p)[i]);
	if(c == CL){ long long l; memcpy(&l, (char*)p + i * 8, 8); return VL(l); }
	double d; memcpy(&d, (char*)p + i * 8, 8); return VD(d);
}
static Val readTyped(void *p, int t, size_t i)
{
	switch(t)
	{
	case BOOL: return VI(((unsigned char*)p)[i]); case CHAR: return VI(((signed char*)p)[i]); case SHORT: return VI(((short*)p)[i]); case INT: return VI(((int*)p)[i]);
	case LONG: return readRes(p, CL, i); case FLOAT: { float f; memcpy(&f, (char*)p + i * 4, 4); return VD(f); } default: return readRes(p, CD, i);
	}
}

static const char *forms[] = {"local", "global", "element", "member", "deref", "argument", "call", "captured", "localarr", "membptr", "heap"};
enum { F_LOCAL, F_GLOBAL, F_ELEM, F_MEMBER, F_DEREF, F_ARG, F_CALL, F_CAPT, F_LARR, F_MEMBPTR, F_HEAP, FN };

// expression for operand of form f; side 0/1
static std::string decl(int f, int t, int side, std::string &use, bool &needsArg)
{
	std::string T = tyName[t], n = side ? "b" : "a", arr = side ? "B[j]" : "A[i]";
	needsArg = false;
	switch(f)
	{
	case F_LOCAL: use = "l" + n; return T + " l" + n + " = " + arr + "; ";
	case F_GLOBAL: use = "G" + n; return "G" + n + " = " + arr + "; ";
	case F_ELEM: use = arr; return "";
	case F_MEMBER: use = "m" + n + ".v"; return "M" + n + " m" + n + "; m" + n + ".v = " + arr + "; ";
	case F_DEREF: use = "*p" + n; return T + " d" + n + " = " + arr + "; " + T + " ref p" + n + " = &d" + n + "; ";
	case F_ARG: use = "x" + n; needsArg = true; return "";
	case F_CALL: use = "get" + n + "(" + (side ? "j" : "i") + ")"; return "";
	case F_CAPT: use = "c" + n; return T + " c" + n + " = " + arr + "; ";
	case F_LARR: use = "z" + n + "[1]"; return T + "[3] z" + n + "; z" + n + "[1] = " + arr + "; ";
	case F_MEMBPTR: use = "q" + n + ".v"; return "M" + n + " r" + n + "; r" + n + ".v = " + arr + "; M" + n + " ref q" + n + " = &r" + n + "; ";
	case F_HEAP: use = "*h" + n; return T + " ref h" + n + " = new " + T + "; *h" + n + " = " + arr + "; ";
	}
	return "";
}
static std::string header(int t1, int t2, size_t n1, size_t n2, Cat rc)
{
	std::string T1 = tyName[t1], T2 = tyName[t2];
	return fmt("%s[%d] A; %s[%d] B; %s[%d] R; %s Ga; %s Gb; class Ma{ char pad; %s v; } class Mb{ int pad; %s v; short pad2; } %s geta(int i){ return A[i]; } %s getb(int j){ return B[j]; }\n",
		T1.c_str(), (int)n1, T2.c_str(), (int)n2, rType(rc).c_str(), (int)(n1 * n2), T1.c_str(), T2.c_str(), T1.c_str(), T2.c_str(), T1.c_str(), T2.c_str());
}
// one function computing the operation on all value pairs for a pair of operand forms and a consumer
// consumers: 0 store, 1 condition, 2 function return, 3 negated condition / loop condition (comparisons only)
static std::string opFunction(const std::string &name, int op, int t1, int t2, size_t n1, size_t n2, Cat rc, int f1, int f2, int consumer)
{
	std::string u1, u2; bool a1, a2;
	std::string d1 = decl(f1, t1, 0, u1, a1), d2 = decl(f2, t2, 1, u2, a2);
	std::string expr = u1 + " " + ops[op] + " " + u2;
	std::string s, call;
	std::string body, resT = rType(rc);
	if(consumer == 0) body = "R[k] = " + expr + ";";
	else if(consumer == 1) body = "if(" + expr + ") R[k] = 1; else R[k] = 0;";
	else if(consumer == 3) body = "int w = 0; while(!(" + expr + ")){ w = 1; break; } R[k] = w ? 0 : 1;";
	else if(consumer == 4) body = "R[k] = (" + expr + ") ? 1 : 0;";
	if(f1 == F_CAPT || f2 == F_CAPT) { body = resT + " inner(){ return " + expr + "; } R[k] = inner();"; }
	if(a1 || a2 || consumer == 2)
	{
		std::string params, args;
		if(a1){ params += std::string(tyName[t1]) + " xa"; args += "A[i]"; }
		if(a2){ params += (params.empty() ? "" : ", ") + std::string(tyName[t2]) + " xb"; args += std::string(args.empty() ? "" : ", ") + "B[j]"; }
		params += (params.empty() ? "" : ", ") + std::string("int i, int j, int k"); args += std::string(args.empty() ? "" : ", ") + "i, j, k";
		if(consumer == 2 && f1 != F_CAPT && f2 != F_CAPT)
		{
			s += fmt("%s %s_f(%s){ %s%sreturn %s; }\n", resT.c_str(), name.c_str(), params.c_str(), d1.c_str(), d2.c_str(), expr.c_str());
			body = "R[k] = " + name + "_f(" + args + ");"; d1 = d2 = "";
		}
		else
		{
			s += fmt("void %s_f(%s){ %s%s%s }\n", name.c_str(), params.c_str(), d1.c_str(), d2.c_str(), body.c_str());
			body = name + "_f(" + args + ");"; d1 = d2 = "";
		}
	}
	s += fmt("void %s(){ int k = 0; for(int i = 0; i < %d; i++) for(int j = 0; j < %d; j++){ %s%s%s k++; } }\n", name.c_str(), (int)n1, (int)n2, d1.c_str(), d2.c_str(), body.c_str());
	return s;
}

static bool prepare(Ctx &c, const std::string &src, Config cfg, int t1, int t2, const std::vector<Val> &v1, const std::vector<Val> &v2)
{
	nullcSetExecutor(cfg.exec); nullcSetOptimizationLevel(cfg.opt);
	if(!nullcBuild(src.c_str())){ c.fail(fmt("%s: build failed: %s", cfgName(cfg), nullcGetLastError())); return false; }
	if(!nullcRun()){ c.fail(fmt("%s: run failed: %s", cfgName(cfg), nullcGetLastError())); return false; }
	void *A = nullcGetGlobal("A"), *B = nullcGetGlobal("B");
	if(A) writeArr(A, t1, v1);
	if(B) writeArr(B, t2, v2);
	return true;
}

// split the right operand values into those without / with a division by zero
static std::vector<Val> nonZero(int op, int t1, int t2, const std::vector<Val> &v)
{
	if((op != DIV && op != MOD) || isF(t1) || isF(t2)) return v;
	std::vector<Val> r; for(auto &x : v) if((x.c == CI && x.i) || (x.c == CL && x.l)) r.push_back(x);
	return r;
}

struct BinCase { int op, t1, t2; };
static std::vector<BinCase> binCases;

static std::vector<std::string> binFunctionNames(std::string &src, int op, int t1, int t2, size_t n1, size_t n2, Cat rc)
{
	std::vector<std::string> names;
	src = header(t1, t2, n1, n2, rc);
	for(int f1 = 0; f1 < FN; f1++) for(int f2 = 0; f2 < FN; f2++)
	{
		std::vector<int> cons = {0};
		if(op >= LT){ cons.push_back(1); if((f1 + f2) % 2 == 0){ cons.push_back(3); } else cons.push_back(4); }
		cons.push_back(2);
		for(int k : cons)
		{
			if(k == 2 && (f1 * 3 + f2) % 4) continue;
			std::string nm = fmt("f_%s_%s_%d", forms[f1], forms[f2], k);
			src += opFunction(nm, op, t1, t2, n1, n2, rc, f1, f2, k);
			names.push_back(nm);
		}
	}
	return names;
}

static void runBin(const BinCase &bc, Ctx &c)
{
	std::vector<Val> v1 = values(bc.t1), v2 = nonZero(bc.op, bc.t1, bc.t2, values(bc.t2));
	Cat rc = resCat(bc.op, bc.t1, bc.t2);
	std::string src; auto names = binFunctionNames(src, bc.op, bc.t1, bc.t2, v1.size(), v2.size(), rc);
	size_t n = v1.size() * v2.size();
	for(int ex = 0; ex < 2; ex++) for(int op = 0; op < 3; op++)
	{
		Config cfg = {ex, op};
		if(!prepare(c, src, cfg, bc.t1, bc.t2, v1, v2)) return;
		void *R = nullcGetGlobal("R");
		for(auto &nm : names)
		{
			memset(R, 0xCC, n * (rc == CI ? 4 : 8));
			if(!nullcRunFunction(nm.c_str())){ c.fail(fmt("%s %s: %s", cfgName(cfg), nm.c_str(), nullcGetLastError())); return; }
			for(size_t i = 0; i < v1.size(); i++) for(size_t j = 0; j < v2.size(); j++)
			{
				Val exp; int st = apply(bc.op, v1[i], v2[j], bc.t1, bc.t2, exp);
				if(st == 2){ c.skip(); continue; }
				Val got = readRes(R, rc, i * v2.size() + j);
				if(!same(got, exp)){ c.fail(fmt("%s %s: %s(%s) %s %s(%s) = %s, expected %s", cfgName(cfg), nm.c_str(), tyName[bc.t1], show(v1[i]).c_str(), ops[bc.op], tyName[bc.t2], show(v2[j]).c_str(), show(got).c_str(), show(exp).c_str())); return; }
				if(ex == 0 && op == 0) c.state(mc::hashStr(fmt("%d %d %d %s", bc.op, bc.t1, bc.t2, show(exp).c_str())));
			}
			c.exec(); c.step(n);
		}
	}
}

// literal operands: lit op lit (folded), lit op var, var op lit
static std::string litSource(const BinCase &bc, const std::vector<Val> &v1, const std::vector<Val> &v2, Cat rc)
{
	std::string src = header(bc.t1, bc.t2, v1.size(), v2.size(), rc);
	src += "void ll_0(){\n"; int k = 0;
	for(auto &a : v1) for(auto &b : v2)
	{
		if(k && k % 32 == 0) src += fmt("} void ll_%d(){\n", k / 32);
		Val e; if(apply(bc.op, a, b, bc.t1, bc.t2, e) == 0) src += fmt("R[%d] = %s %s %s;\n", k, literal(a, bc.t1).c_str(), ops[bc.op], literal(b, bc.t2).c_str());
		k++;
	}
	src += "}\nvoid ll(){"; for(int i = 0; i <= (k - 1) / 32; i++) src += fmt(" ll_%d();", i); src += "}\n";
	for(int form = 0; form < 2; form++)
	{
		src += fmt("void lv%d(){ int k = 0; int i = 0;\n", form);
		for(size_t i = 0; i < v1.size(); i++) src += fmt("for(int j = 0; j < %d; j++){ %s R[%d + j] = %s %s %s; }\n", (int)v2.size(), form ? "" : fmt("%s b = B[j];", tyName[bc.t2]).c_str(), (int)(i * v2.size()), literal(v1[i], bc.t1).c_str(), ops[bc.op], form ? "B[j]" : "b");
		src += "}\n";
		src += fmt("void vl%d(){ int k = 0;\n", form);
		for(size_t j = 0; j < v2.size(); j++) src += fmt("for(int i = 0; i < %d; i++){ %s R[%d + i * %d] = %s %s %s; }\n", (int)v1.size(), form ? "" : fmt("%s a = A[i];", tyName[bc.t1]).c_str(), (int)j, (int)v2.size(), form ? "A[i]" : "a", ops[bc.op], literal(v2[j], bc.t2).c_str());
		src += "}\n";
	}
	// constants held in variables: propagated by the optimizer
	src += "void cv_0(){\n"; k = 0;
	for(auto &a : v1) for(auto &b : v2)
	{
		if(k && k % 32 == 0) src += fmt("} void cv_%d(){\n", k / 32);
		Val e; if(apply(bc.op, a, b, bc.t1, bc.t2, e) == 0) src += fmt("{ %s a = %s; %s b = %s; R[%d] = a %s b; }\n", tyName[bc.t1], literal(a, bc.t1).c_str(), tyName[bc.t2], literal(b, bc.t2).c_str(), k, ops[bc.op]);
		k++;
	}
	src += "}\nvoid cv(){"; for(int i = 0; i <= (k - 1) / 32; i++) src += fmt(" cv_%d();", i); src += "}\n";
	return src;
}
static void runLit(const BinCase &bc, Ctx &c)
{
	std::vector<Val> v1 = values(bc.t1, true), v2 = nonZero(bc.op, bc.t1, bc.t2, values(bc.t2, true));
	Cat rc = resCat(bc.op, bc.t1, bc.t2);
	std::string src = litSource(bc, v1, v2, rc);
	size_t n = v1.size() * v2.size();
	for(int ex = 0; ex < 2; ex++) for(int op = 0; op < 3; op++)
	{
		Config cfg = {ex, op};
		if(!prepare(c, src, cfg, bc.t1, bc.t2, v1, v2)) return;
		void *R = nullcGetGlobal("R");
		for(const char *nm : {"ll", "lv0", "lv1", "vl0", "vl1", "cv"})
		{
			memset(R, 0xCC, n * (rc == CI ? 4 : 8));
			if(!nullcRunFunction(nm)){ c.fail(fmt("%s %s: %s", cfgName(cfg), nm, nullcGetLastError())); return; }
			for(size_t i = 0; i < v1.size(); i++) for(size_t j = 0; j < v2.size(); j++)
			{
				Val exp; int st = apply(bc.op, v1[i], v2[j], bc.t1, bc.t2, exp);
				if(st){ c.skip(); continue; }
				Val got = readRes(R, rc, i * v2.size() + j);
				if(!same(got, exp)){ c.fail(fmt("%s %s: %s %s %s = %s, expected %s", cfgName(cfg), nm, literal(v1[i], bc.t1).c_str(), ops[bc.op], literal(v2[j], bc.t2).c_str(), show(got).c_str(), show(exp).c_str())); return; }
			}
			c.exec(); c.step(n);
		}
	}
}

// division by zero: every form must stop with an error and leave no result
static void runDivZero(u64 idx, Ctx &c, std::string *desc)
{
	// idx -> t1, t2 (integer types), op, f1, f2
	int op = idx % 2 ? MOD : DIV; idx /= 2; int t1 = idx % 5; idx /= 5; int t2 = idx % 5; idx /= 5; int f1 = idx % FN, f2 = idx / FN % FN; int comp = idx / FN / FN;
	std::vector<Val> v1 = {VI(1), VI(0), VI(-1)}, v2 = {VI(0)};
	if(t1 == BOOL) v1 = {VI(1), VI(0), VI(1)};
	if(cat(t1) == CL) v1 = {VL(1), VL(0), VL(LLONG_MIN)};
	if(cat(t2) == CL) v2 = {VL(0)};
	Cat rc = resCat(op, t1, t2);
	std::string src = header(t1, t2, 3, 1, rc) + "int before = 0, after = 0;\n";
	std::string u1, u2; bool a1, a2;
	if(f1 == F_ARG) f1 = F_LOCAL;
	if(f2 == F_ARG) f2 = F_LOCAL;
	std::string d1 = decl(f1, t1, 0, u1, a1), d2 = decl(f2, t2, 1, u2, a2);
	std::string lhs = comp && f1 != F_CALL ? u1 + " " + ops[op] + "= " + u2 : "R[0] = " + u1 + " " + ops[op] + " " + u2;
	// the result is used: an operation whose value nobody reads may be removed by the optimizer
	src += fmt("void go(int i){ int j = 0; %s%sbefore++; %s; R[1] = %s; after++; }", d1.c_str(), d2.c_str(), lhs.c_str(), u1.c_str());
	if(desc){ *desc = src; return; }
	for(int ex = 0; ex < 2; ex++) for(int o = 0; o < 3; o += 2)
	{
		Config cfg = {ex, o};
		if(!prepare(c, src, cfg, t1, t2, v1, v2)) return;
		for(int i = 0; i < 3; i++)
		{
			bool ok = nullcRunFunction("go", i);
			std::string err = nullcGetLastError() ? firstLine(nullcGetLastError()) : "";
			int before = *(int*)nullcGetGlobal("before"), after = *(int*)nullcGetGlobal("after");
			if(ok || after != 0 || before != i + 1 || err.find("division by zero") == std::string::npos)
			{ c.fail(fmt("%s: %s %s %s with zero divisor: ran=%d before=%d after=%d error='%s'", cfgName(cfg), tyName[t1], ops[op], tyName[t2], ok, before, after, err.c_str())); return; }
			nullcClearError();
			c.exec(); c.step();
		}
	}
}

// compound assignment, for every lvalue form; Rule C
static void runCompound(const BinCase &bc, Ctx &c, std::string *desc)
{
	std::vector<Val> v1 = values(bc.t1), v2 = nonZero(bc.op, bc.t1, bc.t2, values(bc.t2));
	if(bc.t1 == BOOL && bc.op >= SHL && bc.op <= SHR){}
	size_t n = v1.size() * v2.size();
	std::string T1 = tyName[bc.t1];
	std::string src = header(bc.t1, bc.t2, v1.size(), v2.size(), CI) + fmt("%s[%d] W; %s[%d] E;\n", T1.c_str(), (int)n, T1.c_str(), (int)n);
	int lv[] = {F_LOCAL, F_GLOBAL, F_MEMBER, F_DEREF, F_LARR, F_MEMBPTR, F_HEAP, F_CAPT}; int rv[] = {F_LOCAL, F_ELEM, F_DEREF, F_CALL, F_MEMBPTR};
	std::vector<std::string> names;
	for(int f1 : lv) for(int f2 : rv)
	{
		std::string u1, u2; bool a1, a2; std::string d1 = decl(f1, bc.t1, 0, u1, a1), d2 = decl(f2, bc.t2, 1, u2, a2);
		std::string asg = u1 + " " + ops[bc.op] + "= " + u2;
		std::string body = f1 == F_CAPT ? fmt("void inner(){ E[k] = %s; } inner(); W[k] = %s;", asg.c_str(), u1.c_str()) : fmt("E[k] = (%s); W[k] = %s;", asg.c_str(), u1.c_str());
		if(f1 == F_CAPT && f2 != F_ELEM && f2 != F_CALL) continue;
		std::string nm = fmt("c_%s_%s", forms[f1], forms[f2]);
		src += fmt("void %s(){ int k = 0; for(int i = 0; i < %d; i++) for(int j = 0; j < %d; j++){ %s%s%s k++; } }\n", nm.c_str(), (int)v1.size(), (int)v2.size(), d1.c_str(), d2.c_str(), body.c_str());
		names.push_back(nm);
	}
	// element in place
	src += fmt("void c_elem(){ int k = 0; for(int i = 0; i < %d; i++) for(int j = 0; j < %d; j++){ W[k] = A[i]; W[k] %s= B[j]; E[k] = W[k]; k++; } }\n", (int)v1.size(), (int)v2.size(), ops[bc.op]);
	names.push_back("c_elem");
	if(desc){ *desc = src; return; }
	for(int ex = 0; ex < 2; ex++) for(int o = 0; o < 3; o++)
	{
		Config cfg = {ex, o};
		if(!prepare(c, src, cfg, bc.t1, bc.t2, v1, v2)) return;
		void *W = nullcGetGlobal("W"), *E = nullcGetGlobal("E");
		for(auto &nm : names)
		{
			memset(W, 0xCC, n * tySize[bc.t1]); memset(E, 0xCC, n * tySize[bc.t1]);
			if(!nullcRunFunction(nm.c_str())){ c.fail(fmt("%s %s: %s", cfgName(cfg), nm.c_str(), nullcGetLastError())); return; }
			for(size_t i = 0; i < v1.size(); i++) for(size_t j = 0; j < v2.size(); j++)
			{
				Val r, exp; if(apply(bc.op, v1[i], v2[j], bc.t1, bc.t2, r) || !store(r, bc.t1, exp)){ c.skip(); continue; }
				size_t k = i * v2.size() + j;
				Val got = readTyped(W, bc.t1, k), gotE = readTyped(E, bc.t1, k);
				if(!same(got, exp) || !same(gotE, exp)){ c.fail(fmt("%s %s: %s %s %s= %s %s gives %s (expression value %s), expected %s", cfgName(cfg), nm.c_str(), T1.c_str(), show(v1[i]).c_str(), ops[bc.op], tyName[bc.t2], show(v2[j]).c_str(), show(got).c_str(), show(gotE).c_str(), show(exp).c_str())); return; }
			}
			c.exec(); c.step(n);
		}
	}
}

// conversions between all types through every route, chained through a third type
static std::string convSource(int t1, int t2, int t3, size_t n)
{
	std::string T1 = tyName[t1], T2 = tyName[t2], T3 = tyName[t3];
	std::string s = fmt("%s[%d] A; %s[%d] B; class M{ char pad; %s v; } %s G; void arg(%s x, %s ref r){ *r = x; } %s ret(%s x){ return x; } %s ret2(%s x){ %s y = x; return y; }\n", T1.c_str(), (int)n, T3.c_str(), (int)n, T2.c_str(), T2.c_str(), T2.c_str(), T3.c_str(), T2.c_str(), T1.c_str(), T3.c_str(), T1.c_str(), T2.c_str());
	auto f = [&](const char *nm, const std::string &body){ s += fmt("void %s(){ for(int i = 0; i < %d; i++){ %s } }\n", nm, (int)n, body.c_str()); };
	f("v_local", T2 + " x = A[i]; B[i] = x;");
	f("v_assign", T2 + " x; x = A[i]; B[i] = x;");
	f("v_src", T1 + " a = A[i]; " + T2 + " x = a; " + T3 + " y = x; B[i] = y;");
	f("v_cast", "auto x = " + T2 + "(A[i]); B[i] = x;");
	f("v_global", "G = A[i]; B[i] = G;");
	f("v_member", "M m; m.v = A[i]; B[i] = m.v;");
	f("v_arr", T2 + "[4] z; z[2] = A[i]; B[i] = z[2];");
	f("v_arg", "arg(A[i], &B[i]);");
	f("v_ret", "B[i] = ret(A[i]);");
	f("v_ret2", "B[i] = ret2(A[i]);");
	f("v_heap", T2 + " ref h = new " + T2 + "; *h = A[i]; B[i] = *h;");
	f("v_capt", T2 + " x; void g(){ x = A[i]; } g(); B[i] = x;");
	f("v_newc", "auto h = new " + T2 + "(A[i]); B[i] = *h;");
	f("v_cond", T2 + " x = i >= 0 ? " + T2 + "(A[i]) : " + T2 + "(0); B[i] = x;");
	f("v_loop", T2 + " x; for(int q = 0; q < 2; q++) x = A[i]; B[i] = x;");
	f("v_list", "auto l = { " + T2 + "(A[i]), " + T2 + "(0) }; B[i] = l[0];");
	return s;
}
static const char *convNames[] = {"v_local", "v_assign", "v_src", "v_cast", "v_global", "v_member", "v_arr", "v_arg", "v_ret", "v_ret2", "v_heap", "v_capt", "v_newc", "v_cond", "v_loop", "v_list"};
static void runConv(u64 idx, Ctx &c)
{
	int t1 = idx % 7, t2 = idx / 7 % 7, t3 = idx / 49;
	std::vector<Val> v1 = values(t1);
	if(isF(t1)) for(double d : {-129.0, 255.0, -0.5, 0.25, 32768.0, 65535.0, -32769.0, 3e9, -3e9, 1e15, 256.0}) v1.push_back(VD(t1 == FLOAT ? (float)d : d));
	std::string src = convSource(t1, t2, t3, v1.size());
	for(int ex = 0; ex < 2; ex++) for(int o = 0; o < 3; o++)
	{
		Config cfg = {ex, o};
		if(!prepare(c, src, cfg, t1, t3, v1, {})) return;
		void *B = nullcGetGlobal("B");
		for(const char *nm : convNames)
		{
			memset(B, 0xCC, v1.size() * tySize[t3]);
			if(!nullcRunFunction(nm)){ c.fail(fmt("%s %s: %s", cfgName(cfg), nm, nullcGetLastError())); return; }
			for(size_t i = 0; i < v1.size(); i++)
			{
				Val m, e; if(!store(v1[i], t2, m) || !store(m, t3, e)){ c.skip(); continue; }
				Val got = readTyped(B, t3, i);
				if(!same(got, e)){ c.fail(fmt("%s %s: %s %s -> %s -> %s gives %s, expected %s", cfgName(cfg), nm, tyName[t1], show(v1[i]).c_str(), tyName[t2], tyName[t3], show(got).c_str(), show(e).c_str())); return; }
				if(!ex && !o) c.state(mc::hashStr(fmt("cv %d %d %d %s", t1, t2, t3, show(e).c_str())));
			}
			c.exec(); c.step(v1.size());
		}
	}
}
// literal conversions: constants of every type converted at compile time
static std::string convLitSource(int t1, int t2, const std::vector<Val> &v)
{
	std::string s = fmt("%s[%d] B; %s[%d] C; %s[%d] D;\nvoid go(){\n", tyName[t2], (int)v.size(), tyName[t2], (int)v.size(), tyName[t2], (int)v.size());
	for(size_t i = 0; i < v.size(); i++){ Val m; if(store(v[i], t2, m)) s += fmt("B[%d] = %s; C[%d] = %s(%s); { %s x = %s; %s y = x; D[%d] = y; }\n", (int)i, literal(v[i], t1).c_str(), (int)i, tyName[t2], literal(v[i], t1).c_str(), tyName[t1], literal(v[i], t1).c_str(), tyName[t2], (int)i); }
	return s + "}\n";
}
static void runConvLit(u64 idx, Ctx &c)
{
	int t1 = idx % 7, t2 = idx / 7;
	auto v = values(t1, true);
	if(isF(t1)) for(double d : {-129.0, 255.0, -0.5, 0.25, 32768.0, 65535.0, -32769.0, 3e9, -3e9, 1e15, 256.0}) v.push_back(VD(t1 == FLOAT ? (float)d : d));
	std::string src = convLitSource(t1, t2, v);
	for(int ex = 0; ex < 2; ex++) for(int o = 0; o < 3; o++)
	{
		Config cfg = {ex, o};
		if(!prepare(c, src, cfg, t2, t2, {}, {})) return;
		if(!nullcRunFunction("go")){ c.fail(fmt("%s: %s", cfgName(cfg), nullcGetLastError())); return; }
		for(const char *arr : {"B", "C", "D"}) for(size_t i = 0; i < v.size(); i++)
		{
			Val m; if(!store(v[i], t2, m)){ c.skip(); continue; }
			Val got = readTyped(nullcGetGlobal(arr), t2, i);
			if(!same(got, m)){ c.fail(fmt("%s %s: literal %s -> %s gives %s, expected %s", cfgName(cfg), arr, literal(v[i], t1).c_str(), tyName[t2], show(got).c_str(), show(m).c_str())); return; }
			c.step();
		}
		c.exec();
	}
}

// unary operators and increments on every lvalue form
static const char *unames[] = {"-x", "+x", "~x", "!x", "++x", "--x", "x++", "x--"};
static void runUnary(u64 idx, Ctx &c, std::string *desc)
{
	int t = idx % 7, op = idx / 7;
	if((op == 2 && (isF(t) || t == BOOL)) || (op == 3 && isF(t)) || (op >= 4 && t == BOOL) || (op < 2 && t == BOOL)){ if(desc) *desc = "(not supported)"; return; }
	auto v = values(t); size_t n = v.size();
	Cat rc = op == 3 ? CI : cat(t);
	std::string src = header(t, t, n, n, rc) + fmt("%s[%d] W;\n", tyName[t], (int)n);
	std::vector<std::string> names;
	for(int f = 0; f < FN; f++)
	{
		if((f == F_CALL || f == F_ARG) && op >= 4) continue;
		std::string u; bool a; std::string d = decl(f, t, 0, u, a);
		std::string e = op == 0 ? "-" + u : op == 1 ? "+" + u : op == 2 ? "~" + u : op == 3 ? "!" + u : op == 4 ? "++" + u : op == 5 ? "--" + u : op == 6 ? u + "++" : u + "--";
		if(f == F_DEREF || f == F_HEAP) if(op >= 4) e = op == 4 ? "++(" + u + ")" : op == 5 ? "--(" + u + ")" : op == 6 ? "(" + u + ")++" : "(" + u + ")--";
		std::string nm = fmt("u_%s", forms[f]);
		std::string body = fmt("R[i] = %s; W[i] = %s;", e.c_str(), u.c_str());
		if(f == F_CAPT) body = fmt("void inner(){ R[i] = %s; } inner(); W[i] = %s;", e.c_str(), u.c_str());
		if(a) { src += fmt("void %s_f(%s xa, int i){ %s }\n", nm.c_str(), tyName[t], body.c_str()); d = ""; body = nm + "_f(A[i], i);"; }
		src += fmt("void %s(){ for(int i = 0; i < %d; i++){ %s%s } }\n", nm.c_str(), (int)n, d.c_str(), body.c_str());
		names.push_back(nm);
		if(op == 3){ std::string nm2 = nm + "_c"; if(!a && f != F_CAPT){ src += fmt("void %s(){ for(int i = 0; i < %d; i++){ %s if(%s) R[i] = 1; else R[i] = 0; W[i] = %s; } }\n", nm2.c_str(), (int)n, d.c_str(), e.c_str(), u.c_str()); names.push_back(nm2); } }
	}
	if(desc){ *desc = src; return; }
	for(int ex = 0; ex < 2; ex++) for(int o = 0; o < 3; o++)
	{
		Config cfg = {ex, o};
		for(auto &nm : names)
		{
			if(!prepare(c, src, cfg, t, t, v, v)) return; // element form modifies A
			void *R = nullcGetGlobal("R"), *W = nullcGetGlobal("W");
			memset(R, 0xCC, n * (rc == CI ? 4 : 8));
			if(!nullcRunFunction(nm.c_str())){ c.fail(fmt("%s %s: %s", cfgName(cfg), nm.c_str(), nullcGetLastError())); return; }
			for(size_t i = 0; i < n; i++)
			{
				Val x = v[i], r, w = x; bool ok = true;
				Val one = rc == CI ? VI(1) : rc == CL ? VL(1) : VD(1);
				Val tmp;
				switch(op)
				{
				case 0: r = x.c == CI ? VI((int)(0u - (unsigned)x.i)) : x.c == CL ? VL((long long)(0ull - (u64)x.l)) : VD(-x.d); break;
				case 1: r = x; break;
				case 2: r = x.c == CI ? VI(~x.i) : VL(~x.l); break;
				case 3: r = VI(x.c == CI ? !x.i : !x.l); break;
				case 4: case 5: case 6: case 7: apply(op & 1 ? SUB : ADD, x, one, t, t, tmp); ok = store(tmp, t, w); r = op < 6 ? w : x; break;
				}
				if(!ok){ c.skip(); continue; }
				Val got = readRes(R, rc, i), gw = readTyped(W, t, i);
				if(!same(got, r) || !same(gw, w)){ c.fail(fmt("%s %s: %s on %s %s: value %s variable %s, expected %s and %s", cfgName(cfg), nm.c_str(), unames[op], tyName[t], show(x).c_str(), show(got).c_str(), show(gw).c_str(), show(r).c_str(), show(w).c_str())); return; }
			}
			c.exec(); c.step(n);
		}
	}
}

// unary operators on literals and on constants held in variables (folded by the compiler and propagated by the optimizer)
static bool unaryRef(int t, int op, Val x, Val &r)
{
	switch(op)
	{
	case 0: r = x.c == CI ? VI((int)(0u - (unsigned)x.i)) : x.c == CL ? VL((long long)(0ull - (u64)x.l)) : VD(-x.d); return true;
	case 1: r = x; return true;
	case 2: r = x.c == CI ? VI(~x.i) : VL(~x.l); return true;
	default: r = VI(x.c == CI ? !x.i : !x.l); return true;
	}
}
static bool unarySupported(int t, int op){ return !((op == 2 && (isF(t) || t == BOOL)) || (op == 3 && isF(t)) || (op < 2 && t == BOOL)); }
static std::string unaryLitSource(int t, int op, const std::vector<Val> &v)
{
	Cat rc = op == 3 ? CI : cat(t); const char *o = op == 0 ? "-" : op == 1 ? "+" : op == 2 ? "~" : "!";
	std::string s = fmt("%s[%d] B, C, D, E, F; class M{ %s v; } %s id(%s x){ return x; }\nvoid go(){\n", rType(rc).c_str(), (int)v.size(), tyName[t], tyName[t], tyName[t]);
	for(int i = 0; i < (int)v.size(); i++)
	{
		std::string l = literal(v[i], t);
		s += fmt("B[%d] = %s%s; { %s x = %s; C[%d] = %sx; } { M m; m.v = %s; D[%d] = %sm.v; } { %s[2] z; z[1] = %s; %s ref p = &z[1]; E[%d] = %s*p; }\n", i, o, l.c_str(), tyName[t], l.c_str(), i, o, l.c_str(), i, o, tyName[t], l.c_str(), tyName[t], i, o);
		if(op == 3) s += fmt("{ %s x = %s; if(!x) F[%d] = 1; else F[%d] = 0; }\n", tyName[t], l.c_str(), i, i); else s += fmt("{ %s x = %s; F[%d] = %s%s(%sx); }\n", tyName[t], l.c_str(), i, op == 0 ? "-" : op == 1 ? "+" : "~", "", o), s.insert(s.size(), "");
	}
	return s + "}\n";
}
static void runUnaryLit(u64 idx, Ctx &c, std::string *desc)
{
	int t = idx % 7, op = idx / 7;
	if(!unarySupported(t, op)){ if(desc) *desc = "(not supported)"; else c.skip(); return; }
	auto v = values(t, true); Cat rc = op == 3 ? CI : cat(t);
	std::string src = unaryLitSource(t, op, v);
	if(desc){ *desc = src; return; }
	for(int ex = 0; ex < 2; ex++) for(int o = 0; o < 3; o++)
	{
		Config cfg = {ex, o};
		if(!prepare(c, src, cfg, t, t, {}, {})) return;
		if(!nullcRunFunction("go")){ c.fail(fmt("%s: %s", cfgName(cfg), nullcGetLastError())); return; }
		for(const char *arr : {"B", "C", "D", "E", "F"}) for(size_t i = 0; i < v.size(); i++)
		{
			Val r, q; unaryRef(t, op, v[i], r); if(*arr == 'F' && op != 3){ unaryRef(cat(t) == CI ? INT : t, op, r, q); r = q; }
			Val got = readRes(nullcGetGlobal(arr), rc, i);
			if(!same(got, r)){ c.fail(fmt("%s %s: %s%s gives %s, expected %s", cfgName(cfg), arr, unames[op], literal(v[i], t).c_str(), show(got).c_str(), show(r).c_str())); return; }
			c.step();
		}
		c.exec();
	}
}

// expression trees: (a op1 b) op2 c with all operators over int/long/double variables; checks intermediate values in registers
static void runTree(u64 idx, Ctx &c, std::string *desc)
{
	static const int tt[] = {CHAR, INT, LONG, DOUBLE, FLOAT};
	int op1 = idx % OPN; idx /= OPN; int op2 = idx % OPN; idx /= OPN; int t1 = tt[idx % 5]; idx /= 5; int t2 = tt[idx % 5]; idx /= 5; int t3 = tt[idx % 5]; idx /= 5; int shape = idx % 2;
	auto small = [](int t){ std::vector<Val> r; if(cat(t) == CI){ for(int x : {-128, -1, 2, 7, 127}) r.push_back(VI(x)); if(t == INT){ r.push_back(VI(INT_MAX)); r.push_back(VI(INT_MIN)); } } else if(cat(t) == CL) for(long long x : {-1ll, 3ll, 4294967297ll, LLONG_MAX}) r.push_back(VL(x)); else for(double x : {-1.0, 0.5, 3.0, 1e10}) r.push_back(VD(x)); return r; };
	auto v1 = small(t1), v2 = small(t2), v3 = small(t3);
	auto rt = [](int op, int a, int b){ return op >= LT ? BOOL : cat(a) == CD || cat(b) == CD ? DOUBLE : cat(a) == CL || cat(b) == CL ? LONG : INT; };
	int inner = shape ? rt(op2, t2, t3) : rt(op1, t1, t2);
	bool ok = shape ? supported(op2, t2, t3) && supported(op1, t1, inner) : supported(op1, t1, t2) && supported(op2, inner, t3);
	Cat rc = !ok ? CI : shape ? resCat(op1, t1, inner) : resCat(op2, inner, t3);
	std::string e = shape ? fmt("a %s (b %s c)", ops[op1], ops[op2]) : fmt("(a %s b) %s c", ops[op1], ops[op2]);
	std::string src = fmt("%s R; %s f(%s a, %s b, %s c){ return %s; } void go(%s a, %s b, %s c){ %s x = a; %s y = b; R = x; R = %s; }", rType(rc).c_str(), rType(rc).c_str(), tyName[t1], tyName[t2], tyName[t3], e.c_str(), tyName[t1], tyName[t2], tyName[t3], tyName[t1], tyName[t2], e.c_str());
	src = fmt("%s R; %s[%d] A; %s[%d] B; %s[%d] C; %s[%d] R1; %s[%d] R2;\n%s f(%s a, %s b, %s c){ return %s; }\nvoid go(){ int k = 0; for(int i = 0; i < %d; i++) for(int j = 0; j < %d; j++) for(int m = 0; m < %d; m++){ %s a = A[i]; %s b = B[j]; %s c = C[m]; R1[k] = %s; k++; } }\nvoid go2(){ int k = 0; for(int i = 0; i < %d; i++) for(int j = 0; j < %d; j++) for(int m = 0; m < %d; m++){ R1[k] = f(A[i], B[j], C[m]); k++; } }\n",
		rType(rc).c_str(), tyName[t1], (int)v1.size(), tyName[t2], (int)v2.size(), tyName[t3], (int)v3.size(), rType(rc).c_str(), (int)(v1.size() * v2.size() * v3.size()), rType(rc).c_str(), 1,
		rType(rc).c_str(), tyName[t1], tyName[t2], tyName[t3], e.c_str(), (int)v1.size(), (int)v2.size(), (int)v3.size(), tyName[t1], tyName[t2], tyName[t3], e.c_str(), (int)v1.size(), (int)v2.size(), (int)v3.size());
	if(desc){ *desc = src; return; }
	if(!ok){ c.skip(); return; }
	std::vector<Val> exp; std::vector<int> st; bool anyErr = false;
	for(auto &a : v1) for(auto &b : v2) for(auto &d : v3)
	{
		Val m, r; int s;
		if(shape){ bool shortc = (op1 == LAND && !(a.c == CI ? a.i : a.l)) || (op1 == LOR && (a.c == CI ? a.i : a.l)); s = apply(op2, b, d, t2, t3, m); if(shortc){ s = 0; r = VI(op1 == LOR); } else if(!s) s = apply(op1, a, m, t1, inner, r); }
		else { s = apply(op1, a, b, t1, t2, m); if(!s){ bool x = m.c == CI ? m.i : m.c == CL ? m.l : 0; if(op2 == LAND && !x) r = VI(0); else if(op2 == LOR && x) r = VI(1); else s = apply(op2, m, d, inner, t3, r); } }
		if(s == 1 || (s == 2 && (op1 == DIV || op1 == MOD || op2 == DIV || op2 == MOD))) anyErr = true;
		exp.push_back(r); st.push_back(s);
	}
	if(anyErr){ c.skip(); return; }
	for(int ex = 0; ex < 2; ex++) for(int o = 0; o < 3; o++)
	{
		Config cfg = {ex, o};
		if(!prepare(c, src, cfg, t1, t2, v1, v2)) return;
		writeArr(nullcGetGlobal("C"), t3, v3);
		void *R = nullcGetGlobal("R1");
		for(const char *nm : {"go", "go2"})
		{
			memset(R, 0xCC, exp.size() * (rc == CI ? 4 : 8));
			if(!nullcRunFunction(nm)){ c.fail(fmt("%s %s: %s", cfgName(cfg), nm, nullcGetLastError())); return; }
			for(size_t k = 0; k < exp.size(); k++) if(!st[k])
			{
				Val got = readRes(R, rc, k);
				if(!same(got, exp[k])){ size_t m = k % v3.size(), j = k / v3.size() % v2.size(), i = k / v3.size() / v2.size(); c.fail(fmt("%s %s: %s with a=%s b=%s c=%s: %s, expected %s", cfgName(cfg), nm, e.c_str(), show(v1[i]).c_str(), show(v2[j]).c_str(), show(v3[m]).c_str(), show(got).c_str(), show(exp[k]).c_str())); return; }
			}
			c.exec(); c.step(exp.size());
		}
	}
	c.state(mc::hashStr(src));
}

int main(int argc, char **argv)
{
	mc::Engine e("C01", argc, argv);
	e.technique = "bounded exhaustive enumeration against a reference model";
	e.rule = "one case = one (operator, operand types) program containing a function per operand-storage pair, run on interpreter and JIT at optimization levels 0..2 over all pairs of boundary values; states = distinct (operator, types, value) results of the reference; transitions = operations evaluated on the real code; values outside the defined domain (shift counts >= width, floating to integer out of range) are skipped and counted";
	for(int op = 0; op < OPN; op++) for(int a = 0; a < TYN; a++) for(int b = 0; b < TYN; b++) if(supported(op, a, b)) binCases.push_back({op, a, b});
	auto begin = [](mc::Ctx&){ nc::fresh(STD_NONE, false); };
	mc::Space s; s.chunk = 8; s.begin = begin; s.caseTimeout = 60;
	s.name = "binary-forms"; s.count = binCases.size();
	s.run = [](u64 i, mc::Ctx &c){ runBin(binCases[i], c); };
	s.describe = [](u64 i){ auto &b = binCases[i]; auto v1 = values(b.t1), v2 = nonZero(b.op, b.t1, b.t2, values(b.t2)); std::string src; binFunctionNames(src, b.op, b.t1, b.t2, v1.size(), v2.size(), resCat(b.op, b.t1, b.t2)); return fmt("%s %s %s\n", tyName[b.t1], ops[b.op], tyName[b.t2]) + src; };
	e.add(s);
	s.name = "binary-literals";
	s.run = [](u64 i, mc::Ctx &c){ runLit(binCases[i], c); };
	s.describe = [](u64 i){ auto &b = binCases[i]; return litSource(b, values(b.t1, true), nonZero(b.op, b.t1, b.t2, values(b.t2, true)), resCat(b.op, b.t1, b.t2)); };
	e.add(s);
	static std::vector<BinCase> comp;
	for(auto &b : binCases) if(b.op <= BXOR) comp.push_back(b);
	s.name = "compound-assignment"; s.count = comp.size();
	s.run = [](u64 i, mc::Ctx &c){ runCompound(comp[i], c, nullptr); };
	s.describe = [](u64 i){ std::string d; mc::Ctx c; runCompound(comp[i], c, &d); return d; };
	e.add(s);
	s.name = "unary"; s.count = 7 * 8;
	s.run = [](u64 i, mc::Ctx &c){ runUnary(i, c, nullptr); };
	s.describe = [](u64 i){ std::string d; mc::Ctx c; runUnary(i, c, &d); return d; };
	e.add(s);
	s.name = "unary-literals"; s.count = 7 * 4;
	s.run = [](u64 i, mc::Ctx &c){ runUnaryLit(i, c, nullptr); };
	s.describe = [](u64 i){ std::string d; mc::Ctx c; runUnaryLit(i, c, &d); return d; };
	e.add(s);
	s.name = "conversions"; s.count = 7 * 7 * 7;
	s.run = [](u64 i, mc::Ctx &c){ runConv(i, c); };
	s.describe = [](u64 i){ return convSource(i % 7, i / 7 % 7, i / 49, 12); };
	e.add(s);
	s.name = "literal-conversions"; s.count = 49;
	s.run = [](u64 i, mc::Ctx &c){ runConvLit(i, c); };
	s.describe = [](u64 i){ return convLitSource(i % 7, i / 7, values(i % 7, true)); };
	e.add(s);
	s.name = "division-by-zero"; s.count = 2 * 25 * FN * FN * 2; s.chunk = 64;
	s.run = [](u64 i, mc::Ctx &c){ runDivZero(i, c, nullptr); };
	s.describe = [](u64 i){ std::string d; mc::Ctx c; runDivZero(i, c, &d); return d; };
	e.add(s);
	s.name = "expression-trees"; s.count = e.thorough ? OPN * OPN * 125 * 2 : OPN * OPN * 125 * 2; s.chunk = 64;
	s.run = [](u64 i, mc::Ctx &c){ runTree(i, c, nullptr); };
	s.describe = [](u64 i){ std::string d; mc::Ctx c; runTree(i, c, &d); return d; };
	e.add(s);
	return e.finish();
}
