// C24: call stacks of run-time errors and stack queries name exactly the active calls and their source lines
#include "nc.h"
using namespace nc; using mc::u64;

// ---- source under construction: lines are numbered from 1
struct Src { std::string text; std::vector<std::string> lines; int add(const std::string &l){ lines.push_back(l); text += l + "\r\n"; return (int)lines.size(); } };
struct Frame { std::string name; int line; std::string text; int up = 0; std::string alt[2]; };	// a statement over several lines may be attributed to any of its lines up to the operation
static std::string trim(const std::string &s){ size_t i = s.find_first_not_of(" \t"); return i == std::string::npos ? "" : s.substr(i); }
static std::string frameText(const std::string &name, const Src &s, int line){ return name + fmt(" (line %d: at %s)", line, trim(s.lines[line - 1]).c_str()); }

static const char *kHelper = "// helper module\r\n\r\nint viaModule(int ref(int) f, int v)\r\n{\r\n\tint unused = v;\r\n\r\n\treturn f(v) + unused;\r\n}\r\nint indexed(int[] a, int k)\r\n{\r\n\treturn a[k];\r\n}\r\nclass Caller\r\n{\r\n\tint ref(int) f;\r\n\tint go(int v)\r\n\t{\r\n\t\tint r = f(v);\r\n\t\treturn r;\r\n\t}\r\n}\r\nauto viaGeneric(generic f, int v)\r\n{\r\n\treturn f(v);\r\n}\r\n";
static const char *kOuter = "import mchelp;\r\nint viaOuter(int ref(int) f, int v)\r\n{\r\n\tv += 0;\r\n\treturn viaModule(f, v) + 1;\r\n}\r\n";

// ---- host: stack query
static std::vector<std::string> gQuery; static bool gQueried;
static int t_query(int v)
{
	gQuery.clear(); gQueried = true; nullcDebugBeginCallStack();
	// the position of a frame is found the same way a debugger does it
	while(unsigned a = nullcDebugGetStackFrame())
	{
		if(a == ~0u){ gQuery.push_back("external"); continue; }
		unsigned fc = 0; ExternFuncInfo *fi = nullcDebugFunctionInfo(&fc); std::string name = "global scope"; if(ExternFuncInfo *f = nullcDebugConvertAddressToFunction(a - 1, fi, fc)) name = nullcDebugSymbols(0) + f->offsetToName;
		const char *loc = nullcDebugGetInstructionSourceLocation(a - 1); unsigned col = 0, mod = nullcDebugGetSourceLocationModuleIndex(loc), line = nullcDebugGetSourceLocationLineAndColumn(loc, mod, col); const char *b = loc - col, *e = b; while(*e && *e != '\r' && *e != '\n') e++;
		name += fmt(" (line %d: at %s)", (int)line + 1, trim(std::string(b, e)).c_str());
		gQuery.push_back(name);
	}
	return v;
}
// ---- statement forms around an expression
enum Form { F_RET, F_DECL, F_STMT, F_IF, F_IFBODY, F_ELSE, F_WHILE, F_FORC, F_FORB, F_DO, F_ARG, F_INDEX, F_SECOND, F_THIRD, F_SWITCH, F_CASE, F_AND, F_COND, F_ASSIGN, F_BLOCK, F_AFTER, NFORM };
static const char *kForm[] = {"return", "declaration", "statement", "if condition", "if body", "else body", "while condition", "for condition", "for body", "do body", "argument", "index", "second line", "third line", "switch", "case", "logical", "conditional", "assignment", "block", "after a use"};
// returns the line of the expression e (int)
static int form(Src &s, int f, const std::string &e)
{
	int r = 0; std::string T = "\t";
	switch(f)
	{
	case F_RET: s.add(T + "int before = 1;"); r = s.add(T + "return " + e + ";"); break;
	case F_DECL: r = s.add(T + "int x = " + e + ";"); s.add(T + "return x;"); break;
	case F_STMT: s.add(T + "v += 0;"); r = s.add(T + e + ";"); s.add(T + "return 1;"); break;
	case F_IF: r = s.add(T + "if(" + e + " == 77)"); s.add(T + "\treturn 1;"); s.add(T + "return 2;"); break;
	case F_IFBODY: s.add(T + "if(v + 1)"); s.add(T + "{"); r = s.add(T + "\tv = " + e + ";"); s.add(T + "}"); s.add(T + "return 2;"); break;
	case F_ELSE: s.add(T + "if(v == -100){"); s.add(T + "\tv = 1;"); s.add(T + "}else{"); r = s.add(T + "\tv = " + e + ";"); s.add(T + "}"); s.add(T + "return 2;"); break;
	case F_WHILE: r = s.add(T + "while(" + e + " == 77)"); s.add(T + "\tv++;"); s.add(T + "return v;"); break;
	case F_FORC: r = s.add(T + "for(int i = 0; i < " + e + "; i++)"); s.add(T + "\tt(i);"); s.add(T + "return v;"); break;
	case F_FORB: s.add(T + "for(int i = 0; i < 2; i++)"); s.add(T + "{"); s.add(T + "\tif(i == 1)"); r = s.add(T + "\t\tv += " + e + ";"); s.add(T + "}"); s.add(T + "return v;"); break;
	case F_DO: s.add(T + "do{"); r = s.add(T + "\tv += " + e + ";"); s.add(T + "}while(v < 1);"); s.add(T + "return v;"); break;
	case F_ARG: s.add(T + "v++;"); r = s.add(T + "t(" + e + ");"); s.add(T + "return v;"); break;
	case F_INDEX: s.add(T + "int[4] arr;"); r = s.add(T + "arr[" + e + " & 3] = 2;"); s.add(T + "return arr[1];"); break;
	case F_SECOND: s.add(T + "v = v +"); r = s.add(T + "\t" + e + ";"); s.add(T + "return v;"); break;
	case F_THIRD: s.add(T + "v = (v + hide(2)) *"); s.add(T + "\t(v + hide(3)) +"); r = s.add(T + "\t" + e + ";"); s.add(T + "return v;"); break;
	case F_SWITCH: r = s.add(T + "switch(" + e + ")"); s.add(T + "{"); s.add(T + "case 77:"); s.add(T + "\tv = 3;"); s.add(T + "}"); s.add(T + "return v;"); break;
	case F_CASE: s.add(T + "switch(v * 0)"); s.add(T + "{"); s.add(T + "case 0:"); r = s.add(T + "\tv = " + e + ";"); s.add(T + "\tbreak;"); s.add(T + "default:"); s.add(T + "\tv = 4;"); s.add(T + "}"); s.add(T + "return v;"); break;
	case F_AND: s.add(T + "v = hide(1);"); r = s.add(T + "v = hide(1) && " + e + ";"); s.add(T + "return v;"); break;
	case F_COND: r = s.add(T + "v = hide(1) ? " + e + " : 2;"); s.add(T + "return v;"); break;
	case F_ASSIGN: s.add(T + "int[2] arr;"); s.add(T + "v++;"); r = s.add(T + "arr[1] = " + e + ";"); s.add(T + "return arr[1];"); break;
	case F_BLOCK: s.add(T + "{"); s.add(T + "\tint y = v;"); s.add(T + "\t{"); r = s.add(T + "\t\ty += " + e + ";"); s.add(T + "\t}"); s.add(T + "\tv = y;"); s.add(T + "}"); s.add(T + "return v;"); break;
	case F_AFTER: s.add(T + "int q = (gNull == nullptr) + (gObj == nullptr) + gZero;"); r = s.add(T + "int x = " + e + ";"); s.add(T + "gFix[0] = x;"); s.add(T + "gFix[1] = q;"); s.add(T + "return v;"); break;
	}
	return r;
}
static int formUp(int f){ return f == F_SECOND ? 1 : f == F_THIRD ? 2 : 0; }
// ---- ways to call the next function
enum Kind { K_PLAIN, K_MEMBER, K_LOCAL, K_LAMBDA, K_PTR, K_HCALL, K_HNAME, K_GENERIC, K_CORO, K_OPER, K_CTOR, K_AREF, K_MODULE, K_OUTER, K_MODMEMBER, K_MODGEN, K_VIRTUAL, K_PROP, K_NEXT, K_INDEXOP, K_BOUND, NKIND };
static const char *kKind[] = {"function", "member", "local", "lambda", "pointer", "host callback", "host by name", "generic", "coroutine", "operator", "constructor", "dynamic reference", "module", "module of module", "module member", "module generic", "virtual", "property", "iterator", "index operator", "bound member"};
enum Fault { X_READ, X_WRITE, X_INDEX, X_AINDEX, X_DIV, X_MOD, X_LDIV, X_HOST, X_ASSERT, X_FPTR, X_CAST, X_MODINDEX, X_QUERY, X_MEMBER, X_LONGIDX, X_RETURN, NFAULT };
static const char *kFault[] = {"null read", "null write", "index", "array index", "division", "modulo", "long division", "host error", "assert", "null function", "wrong cast", "index in module", "stack query", "member of null", "long index", "no return"};
static const char *faultExpr(int x)
{
	switch(x)
	{
	case X_READ: return "*gNull"; case X_WRITE: return "(*gNull = v)"; case X_INDEX: return "gArr[v + 9]"; case X_AINDEX: return "gFix[v + 9]"; case X_DIV: return "9 / gZero"; case X_MOD: return "9 % gZero"; case X_LDIV: return "int(9l / gZeroL)"; case X_HOST: return "hostfail(v)";
	case X_ASSERT: return "failing(v)"; case X_FPTR: return "gFn(v)"; case X_CAST: return "int(gAny)"; case X_MODINDEX: return "indexed(gArr, v + 9)"; case X_QUERY: return "query(v)"; case X_MEMBER: return "gObj.y"; case X_LONGIDX: return "int(gLong[v + 20])"; default: return "1";
	}
}
static const char *kHead = "import mc; import mchelp; import mcouter; import mcq;\r\nint ref gNull; int[] gArr = new int[3]; int[3] gFix; int gZero; long gZeroL; int ref(int) gFn; auto ref gAny = 1.5; long[] gLong = new long[4]; class Obj{ int x, y; } Obj ref gObj;\r\nint failing(int v)\r\n{\r\n\tassert(v == -100);\r\n\treturn v;\r\n}\r\n";
struct Chain { std::vector<int> kinds; int site, fault; };	// kinds[k]: how frame k calls frame k + 1; site: form used for all the calls and the fault
static const int kPer = 8;
// emits the functions of one chain from the innermost; frames are returned outermost first
static void emit(Src &s, int id, const Chain &c, std::vector<Frame> &out)
{
	std::vector<std::vector<Frame>> per; int n = c.kinds.size(); std::vector<Frame> fr; // frames collected innermost first
	auto fn = [&](int k){ return fmt("f%d_%d", id, k); };
	auto push = [&](const std::string &name, int line){ Frame f = {name, line, trim(s.lines[line - 1])}; f.up = f.text.find("return") == 0 || f.text.find("for(") == 0 ? 0 : formUp(c.site); for(int u = 1; u <= f.up; u++) f.alt[u - 1] = trim(s.lines[line - 1 - u]); fr.push_back(f); };
	// innermost
	auto modFrame = [&](const char *name, int line, const char *text){ Frame f; f.name = name; f.line = line; f.text = text; fr.push_back(f); };
	auto fault = [&](const std::string &name){
		if(c.fault == X_RETURN){ int l = s.add("\tif(v == -100)"); s.add("\t\treturn 5;"); (void)l; return; }
		int l = form(s, c.site, faultExpr(c.fault));
		if(c.fault == X_ASSERT) modFrame("failing", 5, "assert(v == -100);");
		if(c.fault == X_MODINDEX) modFrame("indexed", 11, "return a[k];");
		push(name, l);
	};
	s.add("int " + fn(n) + "(int v)"); s.add("{"); fault(fn(n)); s.add("}");
	for(int k = n - 1; k >= 0; k--)
	{
		std::string nx = fn(k + 1), me = fn(k); int l;
		auto open = [&](const std::string &head){ s.add(head); s.add("{"); };
		auto close = [&]{ s.add("}"); };
		auto caller = [&](const std::string &e){ open("int " + me + "(int v)"); int l = form(s, c.site, e); close(); push(me, l); };
		std::string u = fmt("%d_%d", id, k);
		switch(c.kinds[k])
		{
		case K_PLAIN: caller(nx + "(v)"); break;
		case K_PTR: open("int " + me + "(int v)"); s.add("\tint ref(int) p = " + nx + ";"); l = form(s, c.site, "p(v)"); close(); push(me, l); break;
		case K_HCALL: caller("hcall(" + nx + ", v)"); break;
		case K_HNAME: caller("hname(\"" + nx + "\", v)"); break;
		case K_MEMBER: s.add("class M" + u); s.add("{"); s.add("\tint z;"); open("int m(int v)"); l = form(s, c.site, nx + "(v)"); close(); close(); push("M" + u + "::m", l); open("int " + me + "(int v)"); s.add("\tM" + u + " o;"); l = form(s, c.site, "o.m(v)"); close(); push(me, l); break;
		case K_LOCAL: open("int " + me + "(int v)"); s.add("\tint w = v;"); open("int loc" + u + "(int v)"); s.add("\tv += w - w;"); l = form(s, c.site, nx + "(v)"); close(); push("loc" + u, l); l = form(s, c.site, "loc" + u + "(v)"); close(); push(me, l); break;
		case K_LAMBDA: open("int " + me + "(int v)"); s.add("\tint w = v;"); open("auto lam = auto(int v)"); s.add("\tv += w - w;"); l = form(s, c.site, nx + "(v)"); s.add("};"); push("$func*", l); l = form(s, c.site, "lam(v)"); close(); push(me, l); break;
		case K_GENERIC: open("auto g" + u + "(generic v)"); l = form(s, c.site, nx + "(v)"); close(); push("g" + u, l); caller("g" + u + "(v)"); break;
		case K_CORO: open("coroutine int co" + u + "(int v)"); l = form(s, c.site, nx + "(v)"); close(); push("co" + u, l); caller("co" + u + "(v)"); break;
		case K_OPER: s.add("class O" + u + "{ int z; }"); open("int operator*(O" + u + " ref a, int v)"); l = form(s, c.site, nx + "(v)"); close(); push("*", l); open("int " + me + "(int v)"); s.add("\tO" + u + " o;"); l = form(s, c.site, "(o * v)"); close(); push(me, l); break;
		case K_CTOR: s.add("class T" + u); s.add("{"); s.add("\tint z;"); s.add("}"); open("void T" + u + ":T" + u + "(int v)"); l = s.add("\tz = " + nx + "(v);"); s.add("\tz++;"); close(); push("T" + u + "::T" + u, l); caller("T" + u + "(v).z"); break;
		case K_AREF: s.add("class A" + u); s.add("{"); s.add("\tint z;"); open("int ma" + u + "(int v)"); l = form(s, c.site, nx + "(v)"); close(); close(); push("A" + u + "::ma" + u, l); open("int " + me + "(int v)"); s.add("\tauto ref o = new A" + u + ";"); l = form(s, c.site, "o.ma" + u + "(v)"); close(); push(me, l); break;
		case K_MODULE: modFrame("viaModule", 7, "return f(v) + unused;"); caller("viaModule(" + nx + ", v)"); break;
		case K_OUTER: modFrame("viaModule", 7, "return f(v) + unused;"); modFrame("viaOuter", 5, "return viaModule(f, v) + 1;"); caller("viaOuter(" + nx + ", v)"); break;
		case K_MODMEMBER: modFrame("Caller::go", 18, "int r = f(v);"); open("int " + me + "(int v)"); s.add("\tCaller o; o.f = " + nx + ";"); l = form(s, c.site, "o.go(v)"); close(); push(me, l); break;
		case K_MODGEN: modFrame("viaGeneric", 24, "return f(v);"); caller("viaGeneric(" + nx + ", v)"); break;
		case K_VIRTUAL: s.add("class B" + u + " extendable{ int mv(int v){ return 1; } }"); s.add("class D" + u + " : B" + u); s.add("{"); open("int mv(int v)"); l = form(s, c.site, nx + "(v)"); close(); close(); push("D" + u + "::mv", l); open("int " + me + "(int v)"); s.add("\tB" + u + " ref o = new D" + u + ";"); l = form(s, c.site, "o.mv(v)"); close(); push(me, l); break;
		case K_PROP: s.add("class P" + u + "{ int z; }"); open("int P" + u + ".prop()"); s.add("\tint v = z;"); l = form(s, c.site, nx + "(v)"); close(); push("P" + u + "::prop$", l); open("int " + me + "(int v)"); s.add("\tP" + u + " o; o.z = v;"); l = form(s, c.site, "o.prop"); close(); push(me, l); break;
		case K_NEXT: s.add("class I" + u + "{ int z; }"); s.add("auto I" + u + ":start(){ return this; }"); s.add("int I" + u + ":hasnext(){ return 1; }"); open("int I" + u + ":next()"); s.add("\tint v = z;"); l = form(s, c.site, nx + "(v)"); close(); push("I" + u + "::next", l); open("int " + me + "(int v)"); s.add("\tI" + u + " o; o.z = v;"); l = s.add("\tfor(i in o)"); s.add("\t\treturn i;"); s.add("\treturn 1;"); close(); push(me, l); break;
		case K_INDEXOP: s.add("class X" + u + "{ int z; }"); open("int operator[](X" + u + " ref a, int v)"); l = form(s, c.site, nx + "(v)"); close(); push("[]", l); open("int " + me + "(int v)"); s.add("\tX" + u + " o;"); l = form(s, c.site, "o[v]"); close(); push(me, l); break;
		case K_BOUND: s.add("class N" + u); s.add("{"); s.add("\tint z;"); open("int m(int v)"); l = form(s, c.site, nx + "(v)"); close(); close(); push("N" + u + "::m", l); open("int " + me + "(int v)"); s.add("\tN" + u + " o; int ref(int) p = o.m;"); l = form(s, c.site, "p(v)"); close(); push(me, l); break;
		}
	}
	std::reverse(fr.begin(), fr.end()); out = fr;
}
static bool nameMatch(const std::string &want, const std::string &got)
{
	if(want == got) return true; if(want == "$func*") return got.compare(0, 5, "$func") == 0;
	return false;
}
struct Set { std::string name; std::vector<int> kinds; int depth; std::vector<int> sites, faults; bool global; u64 count() const { u64 n = sites.size() * faults.size(); for(int k = 0; k < depth; k++) n *= kinds.size(); return n; } };
// an operation whose result is not used may be removed with its fault
static bool removable(int site, int fault){ return site == F_STMT && fault != X_WRITE && fault != X_HOST && fault != X_ASSERT && fault != X_FPTR && fault != X_MODINDEX && fault != X_QUERY; }
static Chain chainOf(const Set &s, u64 i){ Chain c; c.fault = s.faults[i % s.faults.size()]; i /= s.faults.size(); c.site = s.sites[i % s.sites.size()]; i /= s.sites.size(); for(int k = 0; k < s.depth; k++){ c.kinds.push_back(s.kinds[i % s.kinds.size()]); i /= s.kinds.size(); } return c; }
static std::string chainText(const Chain &c){ std::string r; for(int k : c.kinds) r += std::string(kKind[k]) + " > "; return r + kFault[c.fault] + " in " + kForm[c.site]; }
static void source(const Set &s, u64 i, Src &src, std::vector<std::vector<Frame>> &fr)
{
	int base = std::count(kHead, kHead + strlen(kHead), '\n'); std::string h = kHead; size_t p = 0; while(p < h.size()){ size_t e = h.find("\r\n", p); src.add(h.substr(p, e - p)); p = e + 2; } (void)base;
	for(u64 k = i * kPer; k < std::min(s.count(), (i + 1) * kPer); k++){ fr.push_back({}); emit(src, (int)(k - i * kPer), chainOf(s, k), fr.back()); }
	src.add("int gi = 0;"); src.add("return 1;");
}
static std::vector<std::string> parseStack(const std::string &err){ std::vector<std::string> r; size_t p = err.find("Call stack:"); if(p == std::string::npos) return r; p = err.find('\n', p); while(p != std::string::npos && p + 1 < err.size()){ size_t e = err.find("\r\n", p + 1); if(e == std::string::npos) e = err.size(); if(e > p + 1) r.push_back(err.substr(p + 1, e - p - 1)); p = e + 1; } return r; }
static void runSet(const Set &s, u64 i, mc::Ctx &c)
{
	Src src; std::vector<std::vector<Frame>> fr; source(s, i, src, fr);
	for(int ex = 0; ex < 2; ex++) for(int o = 0; o < 3; o++)
	{
		if(!c.thorough && o == 1) continue;
		Outcome r = run(src.text, {ex, o}); if(!r.ran){ c.fail(fmt("%s: ", cfgName({ex, o})) + r.fullError + "\n" + src.text); return; }
		for(size_t k = 0; k < fr.size(); k++)
		{
			Chain ch = chainOf(s, i * kPer + k); if(removable(ch.site, ch.fault)) continue; std::string w, g; gQueried = false; trace().clear();
			bool ok = nullcRunFunction(fmt("f%d_0", (int)k).c_str(), 1) != 0; std::string err = ok ? "" : nullcGetLastError(); std::vector<std::string> st = parseStack(err); bool same = true;
			c.exec(); c.step(fr[k].size());
			if(ch.fault == X_QUERY){ st = gQuery; same = ok && gQueried; g = err; for(auto &f : st) g += f + "\n"; }
			else { same = !ok; g = err; }
			if(st.size() != fr[k].size()) same = false;
			for(size_t j = 0; j < fr[k].size(); j++)
			{
				const Frame &f = fr[k][j]; std::string tail = fmt(" (line %d: at %s)", f.line, f.text.c_str()); w += f.name + tail + "\n";
				if(j < st.size()){ size_t q = st[j].find(" (line "); if(q == std::string::npos || !nameMatch(f.name, st[j].substr(0, q))) same = false; else { bool m = st[j].substr(q) == tail; for(int u = 1; u <= f.up; u++) m |= st[j].substr(q) == fmt(" (line %d: at %s)", f.line - u, f.alt[u - 1].c_str()); if(!m) same = false; } }
			}
			c.state(mc::hashStr(w));
			if(!same){ c.fail(fmt("%s: ", cfgName({ex, o})) + chainText(ch) + ": expected\n" + w + "observed\n" + g, chainText(ch)); if(c.nfail > 6) return; }
		}
	}
}
// ---- every form at global scope, with the error raised by global code itself and after imports
static void globalSource(int f, int x, Src &s, int &line){ std::string h = kHead; size_t p = 0; while(p < h.size()){ size_t e = h.find("\r\n", p); s.add(h.substr(p, e - p)); p = e + 2; } s.add("int v = 1;"); line = form(s, f, faultExpr(x)); }
static void runGlobal(u64 i, mc::Ctx &c)
{
	int f = i % NFORM, x = i / NFORM; if(removable(f, x)) return; Src s; int line; globalSource(f, x, s, line); std::vector<std::string> want = {frameText("global scope", s, line)}; if(x == X_ASSERT) want.push_back("failing (line 5: at assert(v == -100);)"); if(x == X_MODINDEX) want.push_back("indexed (line 11: at return a[k];)");
	for(int ex = 0; ex < 2; ex++) for(int o = 0; o < 3; o++)
	{
		gQueried = false; Outcome r = run(s.text, {ex, o}); c.exec(); c.step(); c.state(mc::hashStr(r.fullError)); std::string key = fmt("global %s in %s", kFault[x], kForm[f]);
		if(x == X_QUERY){ if(!r.ran || gQuery != want) c.fail(fmt("%s: ", cfgName({ex, o})) + key + ": " + r.fullError + (gQuery.empty() ? "" : gQuery[0]), key); }
		else if(std::vector<std::string> got = parseStack(r.fullError); got != want && [&]{ for(int u = 1; u <= formUp(f); u++){ auto w = want; w[0] = frameText("global scope", s, line - u); if(w == got) return false; } return true; }()) c.fail(fmt("%s: ", cfgName({ex, o})) + key + ": expected " + want[0] + "\nobserved " + r.fullError, key);
	}
}
static void loadModules(mc::Ctx &c){ fresh(); if(!nullcLoadModuleBySource("mchelp", kHelper) || !nullcLoadModuleBySource("mcouter", kOuter) || !nullcLoadModuleBySource("mcq", "int query(int v);") || !nullcBindModuleFunction("mcq", (void(*)())t_query, "query", 0)) c.fail(nullcGetLastError()); }
// ---- recursion of every depth up to 40 through two functions, then an error, twice; the coroutine variant is resumed half-way
static std::string recSource(u64 i)
{
	int x = i / 41 % 3, k = i / 123; std::string h = kHead; const char *ex = faultExpr(x == 0 ? X_INDEX : x == 1 ? X_QUERY : X_WRITE);
	h += k == 1 ? "coroutine int other(int v)\r\n{\r\n\tif(v == 0)\r\n\t\tyield 1;\r\n" : "int other(int v)\r\n{\r\n\tif(v == 0)\r\n\t\treturn 1;\r\n"; // (the second function may not be the innermost)
	size_t at = h.find("coroutine int other"); if(at == std::string::npos) at = h.find("int other"); h.insert(at, "int rec(int v);\r\n");
	h += k == 2 ? "\treturn hcall(rec, v - 1);\r\n}\r\n" : k == 3 ? "\tauto f = auto(int x){ return rec(x); };\r\n\treturn f(v - 1);\r\n}\r\n" : "\treturn rec(v - 1);\r\n}\r\n";
	h += std::string("int rec(int v)\r\n{\r\n\tif(v <= 0)\r\n\t\treturn ") + ex + ";\r\n\tif(v % 3 == 0)\r\n\t\treturn other(v);\r\n\tif(v % 3 == 1)\r\n\t\treturn 1 * rec(v - 1);\r\n\treturn rec(v - 1);\r\n}\r\nint start(int v)\r\n{\r\n\treturn rec(v) * 1;\r\n}\r\nreturn 1;\r\n";
	return h;
}
static void runRecursion(u64 i, mc::Ctx &c)
{
	int depth = i % 41, x = i / 41 % 3, k = i / 123; std::string src = recSource(i); std::vector<std::string> L; { size_t p = 0; while(p < src.size()){ size_t e = src.find("\r\n", p); L.push_back(src.substr(p, e - p)); p = e + 2; } }
	auto find = [&](const std::string &t){ for(size_t j = 0; j < L.size(); j++) if(trim(L[j]) == t) return (int)j + 1; return 0; };
	std::vector<std::string> want; auto add = [&](const char *f, const std::string &t){ want.push_back(std::string(f) + fmt(" (line %d: at %s)", find(t), t.c_str())); };
	add("start", "return rec(v) * 1;");
	for(int v = depth; ; )
	{
		if(v <= 0){ add("rec", std::string("return ") + faultExpr(x == 0 ? X_INDEX : x == 1 ? X_QUERY : X_WRITE) + ";"); break; }
		if(v % 3 == 0){ add("rec", "return other(v);"); if(k == 2) add("other", "return hcall(rec, v - 1);"); else if(k == 3){ add("other", "return f(v - 1);"); add("$func*", "auto f = auto(int x){ return rec(x); };"); } else { want.push_back(fmt("other (line %d: at return rec(v - 1);)", find("return rec(v - 1);"))); } }
		else if(v % 3 == 1) add("rec", "return 1 * rec(v - 1);"); else { int last = 0; for(size_t j = 0; j < L.size(); j++) if(trim(L[j]) == "return rec(v - 1);") last = j + 1; want.push_back(fmt("rec (line %d: at return rec(v - 1);)", last)); }
		v--;
	}
	for(int ex = 0; ex < 2; ex++) for(int o = 0; o < 3; o++)
	{
		Outcome r = run(src, {ex, o}); if(!r.ran){ c.fail(fmt("%s: ", cfgName({ex, o})) + r.fullError + "\n" + src); return; }
		for(int round = 0; round < 2; round++)
		{
			gQueried = false; bool ok = nullcRunFunction("start", depth) != 0; std::string err = ok ? "" : nullcGetLastError(); std::vector<std::string> st = x == 1 ? gQuery : parseStack(err); bool same = (x == 1) == ok && st.size() == want.size(); c.exec(); c.step(want.size());
			for(size_t j = 0; same && j < st.size(); j++){ size_t q = st[j].find(" (line "), w = want[j].find(" (line "); same = q != std::string::npos && st[j].substr(q) == want[j].substr(w) && nameMatch(want[j].substr(0, w), st[j].substr(0, q)); }
			if(!same){ std::string w, g; for(auto &t : want) w += t + "\n"; for(auto &t : st) g += t + "\n"; c.fail(fmt("%s: depth %d: expected\n", cfgName({ex, o}), depth) + w + "observed\n" + g + err, fmt("recursion %d", (int)i)); return; }
		}
		c.state(mc::hashStr(want.back()) + depth);
	}
}
// ---- errors on the first or the last line of the program and of its modules
static const char *kEdge[4][2] = {{"edgea", "int fa(int v){ int[] arr; return arr[v]; }"}, {"edgeb", "int fb(int v){ int[] arr; return arr[v]; }\r\nint unusedb(){ return 1; }\r\n"}, {"edgec", "import edgea;\r\nint fc(int v){ return fa(v) + 1; }"}, {"edged", "import mc;\r\n\r\nint fd(int v){ return hostfail(v); }"}};
static const char *kEdgeCall[] = {"fa(1)", "fb(1)", "fc(1)", "fd(1)", "hostfail(1)", "gz[1]", "loc(1)", "1 / gd"};
static std::string edgeSource(u64 i, std::vector<std::string> &want)
{
	int call = i % 8; i /= 8; int lead = i % 3; i /= 3; int trail = i % 3; i /= 3; int order = i % 24; i /= 24; int split = i;
	int perm[4] = {0, 1, 2, 3}; for(int k = 0; k < order; k++) std::next_permutation(perm, perm + 4);
	std::string h; for(int k = 0; k < lead; k++) h += "\r\n"; for(int k = 0; k < 4; k++) h += std::string("import ") + kEdge[perm[k]][0] + ";" + (split ? "\r\n" : " "); h += "import mc;"; h += split ? "\r\n" : " ";
	h += "int[] gz; int gd; int loc(int v){ return gz[v]; } "; h += std::string("return ") + kEdgeCall[call] + ";"; std::string text = h.substr(h.rfind('\n') + 1); if(split == 0 && lead == 0) text = h;
	int line = lead + 1 + (split ? 5 : 0); for(int k = 0; k < trail; k++) h += k ? "\r\n// end" : "\r\n";
	want.push_back(fmt("global scope (line %d: at ", line) + text + ")");
	if(call == 0) want.push_back(std::string("fa (line 1: at ") + kEdge[0][1] + ")"); if(call == 1) want.push_back("fb (line 1: at int fb(int v){ int[] arr; return arr[v]; })");
	if(call == 2){ want.push_back("fc (line 2: at int fc(int v){ return fa(v) + 1; })"); want.push_back(std::string("fa (line 1: at ") + kEdge[0][1] + ")"); } if(call == 3) want.push_back("fd (line 3: at int fd(int v){ return hostfail(v); })"); if(call == 6) want.push_back(fmt("loc (line %d: at ", line) + text + ")");
	return h;
}
static void runEdge(u64 i, mc::Ctx &c)
{
	std::vector<std::string> want; std::string src = edgeSource(i, want);
	for(int ex = 0; ex < 2; ex++) for(int o = 0; o < 3; o++){ Outcome r = run(src, {ex, o}); c.exec(); c.step(want.size()); c.state(mc::hashStr(r.fullError)); if(parseStack(r.fullError) != want){ std::string w; for(auto &t : want) w += t + "\n"; c.fail(fmt("%s: expected\n", cfgName({ex, o})) + w + "observed\n" + r.fullError, fmt("edge %d", (int)i)); return; } }
}
int main(int argc, char **argv)
{
	mc::Engine e("C24", argc, argv); bool T = e.thorough;
	e.technique = "exhaustive enumeration of call chains x statement forms x faults; the generator knows every active call and its line";
	e.rule = "every chain of up to 2 (thorough 3) calls over 21 ways to call x 21 statement forms x 16 faults (errors and a host stack query), in functions and at global scope, on every executor and optimisation level";
	static std::vector<Set> sets; std::vector<int> allK, allF, allX; for(int k = 0; k < NKIND; k++) allK.push_back(k); for(int k = 0; k < NFORM; k++) allF.push_back(k); for(int k = 0; k < X_RETURN; k++) allX.push_back(k);
	sets.push_back({"faults", {}, 0, allF, allX, false}); sets.push_back({"calls-1", allK, 1, allF, allX, false}); sets.push_back({"calls-2", allK, 2, allF, T ? allX : std::vector<int>{X_INDEX, X_HOST, X_QUERY, X_READ}, false});
	sets.push_back({"calls-3", allK, 3, T ? std::vector<int>{F_RET, F_FORB, F_SECOND, F_COND, F_INDEX, F_CASE} : std::vector<int>{F_IF}, T ? std::vector<int>{X_HOST, X_QUERY, X_READ} : std::vector<int>{X_QUERY}, false});
	for(auto &p : sets)
	{
		mc::Space s; s.name = p.name; s.count = (p.count() + kPer - 1) / kPer; s.chunk = 8; s.caseTimeout = 60; s.begin = [](mc::Ctx &c){ loadModules(c); };
		s.run = [&p](u64 i, mc::Ctx &c){ runSet(p, i, c); }; s.describe = [&p](u64 i){ Src s; std::vector<std::vector<Frame>> f; source(p, i, s, f); return s.text; }; e.add(s);
		if(&p == &sets[0]){ s.name = "global"; s.count = NFORM * X_RETURN; s.run = runGlobal; s.describe = [](u64 i){ Src s; int l; globalSource(i % NFORM, i / NFORM, s, l); return s.text; }; e.add(s); }
	}
	{ mc::Space s; s.name = "recursion"; s.count = 41 * 3 * 4; s.chunk = 16; s.caseTimeout = 60; s.begin = [](mc::Ctx &c){ loadModules(c); }; s.run = runRecursion; s.describe = [](u64 i){ return recSource(i); }; e.add(s); }
	{ mc::Space s; s.name = "first-line"; s.count = 8 * 3 * 3 * 24 * 2; s.chunk = 32; s.caseTimeout = 60; s.begin = [](mc::Ctx &c){ loadModules(c); for(auto &m : kEdge) if(!nullcLoadModuleBySource(m[0], m[1])) c.fail(nullcGetLastError()); }; s.run = runEdge; s.describe = [](u64 i){ std::vector<std::string> w; return edgeSource(i, w); }; e.add(s); }
	return e.finish();
}
