// C11: any source text compiles or is rejected with a located error (built with AddressSanitizer)
#include "nc.h"
#include <algorithm>
#include <set>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
using namespace nc; using mc::u64;

// ---- programs that cover the grammar
static const char *kBase[] = {
"int a = 5; int b = a * 2 + (a - 1) / 3 % 2; return a ** 2 << 1 >> b;",
"long x = 5l; double d = 1.5e3; float f = 2.5f; char c = 'a'; short s = 3; bool b = true; return x + d;",
"int a = 0x1F + 0b101 + 017; a += 1; a -= 2; a *= 3; a /= 4; a **= 2; a %= 7; a <<= 1; a >>= 1; a &= 3; a |= 4; a ^= 5; return ~a;",
"int a = 1; if(a < 2 && !(a == 3)) a = 4; else if(a >= 3 || a != 1) a = 5; else { a = 6; } return a ? 1 : 2;",
"int s = 0; for(int i = 0, j = 1; i < 5; i++) { if(i == 2) continue; s += i; if(s > 5) break; } while(s) { s--; } do { s++; } while(s < 3); return s;",
"for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) { if(j) continue 2; if(i) break 2; } return 0;",
"int a = 2; switch(a) { case 1: a = 3; break; case 2: a = 4; default: a++; } return a;",
"int f(int a, int b = 5) { return a + b; } int g(int a); int g(int a) { return f(a: a, b: 3); } return f(1) + g(2);",
"int[4] arr; arr[1] = 5; int[] b = arr; auto c = { 1, 2, 3 }; int[2][3] m; m[1][2] = 4; return b[1] + c.size + m[1][2];",
"int ref p = new int(4); *p = 5; int[] q = new int[3]; q[0] = *p; auto r = &q[1]; *r = 2; int ref z = nullptr; return *p + q[1];",
"class A { int x, y; A(int a) { x = a; y = 2; } int sum() { return x + this.y; } int prop { get { return x; } set(r) { x = r; } } const int k = 4; } A a = A(3); a.prop = 5; return a.sum() + a.prop + A.k;",
"class A extendable { int x; int v() { return 1; } } class B : A { int y; int v() { return 2; } } B b; A ref r = &b; return r.v();",
"class P<T> { T a, b; T sum() { return a + b; } } P<int> p; p.a = 1; class Q<@T> { T x; } Q<P<int>> q; return p.sum();",
"class F; class F { int a; } align(8) class G { long b; } noalign class H { char c; int d; } F f; return sizeof(G) + sizeof(H);",
"enum E { A, B, C = 5, D } E e = E.B; int x = int(E.C); return x + int(e == E.B);",
"auto f(generic a, generic b) { return a + b; } auto g(@T x, @T[] y) { return y[0]; } int[2] z; return f(1, 2.5) + g(1, z);",
"auto add = auto(int a, int b) { return a + b; }; int ref(int, int) h = add; auto l = <a, b> { a * b; }; return h(1, 2);",
"int apply(int[] a, int ref(int) f) { int s = 0; for(i in a) s += f(i); return s; } return apply({1, 2}, <x> { return x * 2; });",
"int outer(int n) { int k = n; int inner(int m) { k += m; return k; } return inner(2) + k; } auto f = outer; return f(3);",
"coroutine int gen(int n) { for(int i = 0; i < n; i++) yield i; return -1; } int s = 0; for(i in coroutine auto() { yield 1; return 0; }) s += i; return s + gen(2);",
"auto list = { for(int i = 0; i < 4; i++) yield i * 2; }; int s = 0; for(int a in list, b in list) { s += a * b; } return s;",
"int sum(auto ref[] args) { int s = 0; for(int i = 0; i < args.size; i++) { s += int(args[i]); } return s; } return sum(1, 2, 3);",
"auto ref r = 5; int x = int(r); auto ref q = &x; typeof(x) y = 3; typeid t = typeid(r); auto[] arr = { 1, 2 }; return t == int;",
"typedef int[4] four; four f; f[0] = 1; typeof(f).target t = 2; int s = typeof(f).arraySize; return typeof(f).isArray ? t : s;",
"class V { int x; } V operator+(V ref a, b) { V r; r.x = a.x + b.x; return r; } int operator[](V ref v, int i) { return v.x + i; } int operator()(V ref v, int i) { return i; } V a, b; V c = a + b; return c[1] + c(2);",
"int V; int int:twice() { return *this * 2; } void int:set(int v) { *this = v; } int a = 4; a.set(5); return a.twice();",
"namespace N { int a = 3; int f() { return a; } namespace M { class K { int z; } } } N.M.K k; return N.a + N.f();",
"@if(sizeof(int) == 4) { int a = 1; } else { int a = 2; } char[] s = \"te\\nst\" + @\"raw\"; return s.size + a;",
"auto f(generic a) { @if(typeof(a) == int) { return 1; } else if(typeof(a).isReference) { return 2; } else { return 3; } } return f(1) + f(2.0);",
"int i = 3; i++; ++i; i--; --i; -i; +i; !i; int ref r = &i; (*r)++; return i--;",
"int f() { return 1; } double f(int a) { return 2; } int f(int a, double b) { return 3; } return f() + f(1) + f(1, 2.0);",
"import std.math; float2 v = float2(1, 2); v.x += 2; float3 w = float3(v, 3); return w.x + v.yx.x;",
"import std.range; int s = 0; for(i in range(1, 4)) s += i; return s;",
"import std.vector; vector<int> v; v.push_back(3); return v[0] + v.size();",
"import std.typeinfo; auto t = typeof(int); return t.name().size;",
"void swap(int ref a, b) { int t = *a; *a = *b; *b = t; } int a = 1, b = 2; swap(&a, &b); return a; ",
"class L { L ref next; int v; } L ref mk(int v) { L ref r = new L; r.v = v; return r; } L ref a = mk(1); a.next = mk(2); return a.next.v;",
"class T { T ref left, right; int f(int ref(T ref) g) { return g(this); } void finalize() { } } T t; return t.f(<x> { 1; });",
"int fact(int n) { return n < 2 ? 1 : n * fact(n - 1); } int[fact(3)] arr; return arr.size;",
"auto m(int x) { return { x, x + 1 }; } int[2] r = m(3); return r[1]; ",
"class C<T, U> { T t; U u; void C(T a, U b) { t = a; u = b; } } auto c = new C<int, double>(1, 2.5); auto d = C<char, int>('a', 1); return c.t;",
"int a = 1; { int a = 2; { int a = 3; } } if(int(a)) { int b = a; } return a;",
"int ref(int ref(int), int)[2] fs; char[6] s = \"hello\"; s[0] = 'H'; return s == \"Hello\";",
"auto f = <i, double j> { i + j; }; int g(int ref(int, double) x) { return x(1, 2.0); } return g(<i, j> { return i; });",
"class It { int p; int start() { return 0; } } class R { int a; It start() { It i; return i; } } bool hasnext(It ref i) { return i.p < 3; } int next(It ref i) { return i.p++; } return 1;",
"int[] a = new int[4] { i = 1; }; return a.size; class D { int v = 4; } D ref d = new D { v = 5; }; return d.v;",
"bool b = 1 in { 1, 2 }; return b;",
"return 1 ? 2 : 3 ? 4 : 5 + -6 * !7 ^^ 8;",
};
const int NB = sizeof(kBase) / sizeof(kBase[0]);
static const char *kTok[] = { "int", "a", "f", "5", "1.5", "'a'", "\"s\"", "(", ")", "{", "}", "[", "]", ";", ",", ".", ":", "?", "=", "+", "-", "*", "/", "<", ">", "==", "&", "&&", "!", "~", "**", "++", "+=", "<<", "@", "auto", "ref", "class", "return", "if", "else", "for", "in", "while", "do", "break", "continue", "switch", "case", "default", "new", "generic", "coroutine", "yield", "operator", "this", "typeof", "sizeof", "typeid", "nullptr", "true", "void", "double", "enum", "namespace", "import", "extendable", "align", "const", "typedef", "function", "hasMember", "isArray", "target", "argument", "return", "with", "\x80", "\"", "'", "/*", "//", "\\", "#", "$", "0x", "0b", "1e", "9999999999999999999999", "|", "^", "^^", "||", "%", "...", "char", "long", "static", "T", "arr", "size", "first", "rest", "last", "A", "\n" };
const int NT = sizeof(kTok) / sizeof(kTok[0]);
static std::vector<std::vector<std::string>> gProg;
static std::vector<std::string> tokenize(const std::string &s)
{
	std::vector<std::string> r; size_t i = 0; auto idc = [](unsigned char c){ return isalnum(c) || c == '_'; };
	while(i < s.size())
	{
		if(isspace((unsigned char)s[i])){ i++; continue; }
		size_t b = i;
		if(idc(s[i])){ while(i < s.size() && (idc(s[i]) || (s[i] == '.' && isdigit((unsigned char)s[b]) && i + 1 < s.size() && isdigit((unsigned char)s[i + 1])))) i++; }
		else if(s[i] == '"' || s[i] == '\''){ char q = s[i++]; while(i < s.size() && s[i] != q) i += s[i] == '\\' ? 2 : 1; i++; }
		else { static const char *ops[] = {"**=", "<<=", ">>=", "&&", "||", "^^", "**", "==", "!=", "<=", ">=", "++", "--", "+=", "-=", "*=", "/=", "%=", "<<", "&=", "|=", "^="}; size_t n = 1; for(auto o : ops) if(!s.compare(i, strlen(o), o)){ n = strlen(o); break; } i += n; }
		r.push_back(s.substr(b, i - b));
	}
	return r;
}
static std::string join(const std::vector<std::string> &v){ std::string r; for(auto &t : v){ if(!r.empty()) r += ' '; r += t; } return r; }

// ---- one text
static std::string trimmed(const std::string &s){ std::string r; for(char ch : s) if(!isspace((unsigned char)ch)) r += ch; return r; }
static std::vector<std::string> linesOf(const std::string &s){ std::vector<std::string> r(1); for(size_t i = 0; i < s.size(); i++){ if(s[i] == '\n') r.push_back(""); else r.back() += s[i]; } return r; }
static bool located(const std::string &src, const std::string &err)
{
	std::vector<std::string> ls = linesOf(src);
	for(size_t at = err.find("at line "); at != std::string::npos; at = err.find("at line ", at + 1))
	{
		int n = atoi(err.c_str() + at + 8); size_t q = err.find(": '", at); if(n < 1 || n > (int)ls.size() || q == std::string::npos) continue;
		std::string t = trimmed(err.substr(q + 3, err.find_first_of("\r\n", q) - q - 3)); if(!t.empty() && t.back() == '\'') t.pop_back();
		std::string l = trimmed(ls[n - 1]); if(!l.compare(0, t.size(), t) || l.find(t) != std::string::npos) return true;
	}
	return false;
}
static int gCanary; static bool gBound;
static void setup(){ rlimit rl; getrlimit(RLIMIT_STACK, &rl); rl.rlim_cur = 32 << 20; setrlimit(RLIMIT_STACK, &rl); fresh(STD_ALL); nullcSetExecutor(NULLC_REG_VM); nullcSetOptimizationLevel(2); gCanary = 0; }
static bool canary(mc::Ctx &c, const std::string &after)
{
	bool ok = nullcBuild("int f(int a){ return a * 2; } int g(int ref(int) q){ return q(3); } class Cn{ int z; } Cn cn; cn.z = f(4); return cn.z + g(<x>{ x + 1; }) + {1, 2, 3}.size;") && nullcRun() && nullcGetResultInt() == 15;
	if(!ok) c.fail(fmt("after compiling [%s] a correct program gives: %s", after.c_str(), nullcGetLastError()), "");
	return ok;
}
static bool one(mc::Ctx &c, const std::string &src, bool twice = true)
{
	std::string first; if(getenv("C11_PRINT")) fprintf(stderr, "TEXT %s\n", src.c_str());
	for(int k = 0; k < (twice ? 2 : 1); k++)
	{
		bool ok = nullcBuild(src.c_str()) != 0; c.exec(); std::string e = ok ? "" : nullcGetLastError();
		if(ok){ c.counter(0); } else
		{
			if(e.empty()){ c.fail(fmt("[%s]: rejected without a message", src.c_str()), ""); return false; }
			if(e.find("nternal") != std::string::npos){ c.fail(fmt("[%s]: %s", src.c_str(), e.c_str()), ""); return false; }
			if(e.find("Link Error: ") == 0) c.counter(2);	// a declared function without a body is reported by the linker
			else if(!located(src, e)){ c.fail(fmt("[%s]: the error has no position in the text: %s", src.c_str(), e.c_str()), ""); return false; }
		}
		if(k == 0){ first = ok ? "ok" : e; c.state(mc::hashStr(ok ? std::string("ok") : firstLine(e.c_str()))); }
		else if(first != (ok ? "ok" : e)){ c.fail(fmt("[%s]: compiled again: %s instead of %s", src.c_str(), ok ? "ok" : e.c_str(), first.c_str()), ""); return false; }
		if(twice && k == 0 && ++gCanary % 16 == 0 && !canary(c, src)) return false;
	}
	c.step(); return true;
}
static bool gT;
// every single edit of a program at a position
static void edits(const std::vector<std::string> &p, size_t at, std::function<void(const std::vector<std::string>&)> f)
{
	std::vector<std::string> v;
	if(at < p.size())
	{
		v = p; v.erase(v.begin() + at); f(v);
		v = p; v.insert(v.begin() + at, p[at]); f(v);
		if(at + 1 < p.size()){ v = p; std::swap(v[at], v[at + 1]); f(v); }
		v.assign(p.begin(), p.begin() + at); f(v);	// truncated
		v.assign(p.begin() + at, p.end()); f(v);
		for(int t = 0; t < NT; t++){ v = p; v[at] = kTok[t]; f(v); }
		// tokens of the same program
		std::set<std::string> own(p.begin(), p.end()); for(auto &t : own){ v = p; v[at] = t; f(v); }
	}
	for(int t = 0; t < NT; t++){ v = p; v.insert(v.begin() + at, kTok[t]); f(v); }
}
const int kMaxTok = 128;
static void runEdits(u64 i, mc::Ctx &c){ int pi = (int)(i / kMaxTok), at = i % kMaxTok; auto &p = gProg[pi]; if(at > (int)p.size()){ c.skip(); return; } edits(p, at, [&](const std::vector<std::string> &v){ if(c.nfail < 3) one(c, join(v)); }); }
static void runRanges(u64 i, mc::Ctx &c){ int pi = (int)(i / kMaxTok), at = i % kMaxTok; auto &p = gProg[pi]; if(at >= (int)p.size()){ c.skip(); return; } for(size_t n = 2; at + n <= p.size() && c.nfail < 3; n++){ auto v = p; v.erase(v.begin() + at, v.begin() + at + n); one(c, join(v)); v = p; std::vector<std::string> r(p.begin() + at, p.begin() + at + n); v.insert(v.begin() + at, r.begin(), r.end()); one(c, join(v)); } }
// characters: every truncation, deletion and replacement of a character
static void runChars(u64 i, mc::Ctx &c)
{
	std::string s = kBase[i]; const char chars[] = "\"'\\/*(){}[]<>@;,.:=+-!&|#$%^~? \n\t\r0aE_\x01\x7f\x80\xff";
	for(size_t at = 0; at <= s.size() && c.nfail < 3; at++)
	{
		one(c, s.substr(0, at), false); one(c, s.substr(at), false); if(at < s.size()){ std::string t = s; t.erase(at, 1); one(c, t, false); }
		for(const char *ch = chars; *ch && (gT || at % 3 == 0); ch++){ std::string t = s; t.insert(at, 1, *ch); one(c, t, false); if(at < s.size()){ t = s; t[at] = *ch; one(c, t, false); } }
	}
}
// short token strings, in a few contexts
static const char *kCtx[][2] = {{"", ""}, {"int a; int f(int b){ ", " }"}, {"class A{ ", " }"}, {"auto f(generic x){ return ", "; } f(1);"}, {"int a = 1; int[3] arr; return ", ";"}, {"for(", ") ;"}, {"int f(", "){ return 1; }"}};
const int NC = sizeof(kCtx) / sizeof(kCtx[0]);
static void runTokens(u64 i, mc::Ctx &c)
{
	int ctx = i % NC; i /= NC; int x = i % NT, y = (int)(i / NT);
	for(int z = -1; z < (gT || ctx == 0 ? NT : 0) && c.nfail < 3; z++){ std::string s = std::string(kCtx[ctx][0]) + kTok[x] + " " + kTok[y] + (z < 0 ? "" : std::string(" ") + kTok[z]) + kCtx[ctx][1]; one(c, s, false); }
}
// pairs of programs, in one text and one after another
static void runPairs(u64 i, mc::Ctx &c)
{
	int a = (int)i; for(int b = 0; b < NB && c.nfail < 3; b++)
	{
		one(c, std::string(kBase[a]) + " " + kBase[b]); one(c, std::string("{ ") + kBase[a] + " } { " + kBase[b] + " }"); one(c, std::string("auto fa(generic q){ ") + kBase[a] + " } auto fb(){ " + kBase[b] + " } fa(1);"); one(c, std::string("class W{ ") + kBase[a] + " } namespace Z{ " + kBase[b] + " }");
		// a replaced statement
		auto &p = gProg[a]; auto &q = gProg[b]; std::vector<std::string> v; size_t h = p.size() / 2; v.assign(p.begin(), p.begin() + h); v.insert(v.end(), q.begin() + q.size() / 2, q.end()); one(c, join(v));
	}
}
// nesting and length
struct Nest { const char *name, *pre, *open, *mid, *close, *post; };
static const Nest kNest[] = {
	{"parentheses", "return ", "(", "1", ")", ";"}, {"blocks", "", "{", "int a;", "}", "return 1;"}, {"unary minus", "return ", "-", "1", "", ";"}, {"logical not", "return ", "!", "1", "", ";"}, {"additions", "int a = 1; return a", "+a", "", "", ";"}, {"powers", "int a = 1; return a", "**a", "", "", ";"}, {"conditionals", "int a = 1; return ", "a ? 1 : ", "2", "", ";"}, {"arrays", "int", "[2]", "", "", " a; return 1;"}, {"array types", "int", "[]", "", "", " a; return 1;"}, {"references", "int", " ref", "", "", " a; return 1;"}, {"array constants", "return ", "{", "1", "}", ".size;"}, {"indexes", "int[] a; return a", "[0]", "", "", ";"}, {"members", "class A{ A ref x; } A a; return a", ".x", "", "", ";"},
	{"calls", "int f(int a){ return a; } return ", "f(", "1", ")", ";"}, {"ifs", "int a; ", "if(a) ", ";", "", " return 1;"}, {"else ifs", "int a; ", "if(a) a = 1; else ", ";", "", " return 1;"}, {"loops", "int a; ", "while(a) ", ";", "", " return 1;"}, {"lambdas", "auto f = ", "auto(){ return ", "1", "; }", "; return 1;"}, {"functions", "", "int f(){ ", "return 1;", " return 1; }", " return 1;"}, {"classes", "", "class A{ ", "int a;", " }", " return 1;"}, {"namespaces", "", "namespace N{ ", "int a;", " }", " return 1;"}, {"function types", "int ref(", "int ref(", "int", ")", ") f; return 1;"}, {"function results", "int", " ref()", "", "", " f; return 1;"}, {"dereferences", "int ref a; return ", "*", "a", "", ";"}, {"address", "int a; return ", "&", "a", "", ";"}, {"generic types", "class P<T>{ T x; } ", "P<", "int", ">", " p; return 1;"}, {"comprehensions", "auto a = ", "{ for(int i = 0; i < 1; i++) yield ", "1", "; }", "; return 1;"}, {"switches", "int a; ", "switch(a){ case 1: ", ";", " }", " return 1;"}, {"typeof", "", "typeof(", "1", ")", " a; return 1;"}, {"assignments", "int a; a", " = a", "", "", "; return 1;"}, {"strings", "char[] a = \"\"", " + \"x\"", "", "", "; return 1;"}, {"statements", "int a; ", "a = a + 1; ", "", "", "return a;"}, {"variables", "int a", ", a", "", "", "; return 1;"}, {"arguments", "int f(auto ref[] a){ return 1; } return f(1", ", 1", "", "", ");"}, {"elements", "auto a = {1", ", 1", "", "", "}; return a.size;"}, {"comments", "", "/*", "", "*/", "return 1;"}, {"digits", "return 1", "1", "", "", ";"}, {"letters", "int a", "a", "", "", "; return 1;"}, {"string length", "return \"", "x", "", "", "\".size;"}, {"spaces", "", " ", "", "", "return 1;"}, {"lines", "", "\n", "", "", "return q;"}, {"compile-time if", "", "@if(1) ", ";", "", " return 1;"}, {"member calls", "class A{ A f(){ return *this; } } A a; a", ".f()", "", "", "; return 1;"}, {"casts", "return ", "int(", "1", ")", ";"}, {"yields", "coroutine int f(){ ", "yield 1; ", "", "", "return 1; } return f();"}, {"casts of types", "return ", "long(double(", "1", "))", " > 0;"}, {"short lambdas", "int f(int ref() x){ return x(); } return ", "f(<>{ ", "1", "; })", ";"}, {"operators", "int a; return a", " < a", "", "", ";"}, {"logical", "int a; return a", " && a", "", "", ";"}, {"shift", "int a; return a", " << a", "", "", ";"},
};
const int NN = sizeof(kNest) / sizeof(kNest[0]);
static const int kDepths[] = {1, 2, 3, 7, 8, 9, 15, 16, 31, 32, 63, 64, 65, 100, 127, 128, 200, 255, 256, 300, 400, 511, 512, 513, 700, 1000, 1023, 1024, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 5000, 8191, 8192, 10000, 20000, 65535, 65536, 70000};
const int ND = sizeof(kDepths) / sizeof(kDepths[0]);
static std::string nest(u64 i){ const Nest &n = kNest[i % NN]; int d = kDepths[i / NN]; std::string s = n.pre; for(int k = 0; k < d; k++) s += n.open; s += n.mid; for(int k = 0; k < d; k++) s += n.close; return s + n.post; }
static void runNest(u64 i, mc::Ctx &c)
{
	int depth = kDepths[i / NN]; if(depth > (gT ? 10000 : 1024)){ c.skip(); return; }
	if(depth >= 1000)	// may exhaust the native stack: tried in a process of its own
	{
		fflush(stdout); pid_t pid = fork(); if(!pid){ int n = open("/dev/null", O_WRONLY); dup2(n, 2); std::string s = nest(i); nullcBuild(s.c_str()); _exit(0); }
		int st; waitpid(pid, &st, 0); if(!WIFEXITED(st) || WEXITSTATUS(st)){ c.exec(); c.fail(fmt("%s nested %d times end the process", kNest[i % NN].name, depth), fmt("deep nesting of %s", kNest[i % NN].name)); return; }
	}
	std::string s = nest(i); bool ok = nullcBuild(s.c_str()) != 0; c.exec(); std::string e = ok ? "" : nullcGetLastError(); c.state(mc::hashStr(fmt("%d ", (int)(i % NN)) + (ok ? "ok" : firstLine(e.c_str()))));
	if(!ok && (e.empty() || !strstr(e.c_str(), "at line "))){ c.fail(fmt("%s nested %d times: the error has no position: %s", kNest[i % NN].name, kDepths[i / NN], e.substr(0, 300).c_str()), fmt("nest %s", kNest[i % NN].name)); return; }
	canary(c, fmt("%s nested %d times", kNest[i % NN].name, kDepths[i / NN]));
}
int main(int argc, char **argv)
{
	mc::Engine e("C11", argc, argv); bool T = gT = e.thorough;
	e.counterNames[0] = "accepted texts"; e.counterNames[2] = "texts rejected by the linker"; e.counterNames[1] = "base programs rejected";
	e.technique = "exhaustive enumeration of texts near a grammar-covering program set and of short token strings, run on the real compiler under AddressSanitizer";
	e.rule = fmt("%d programs covering the grammar: every deletion, duplication, swap, truncation, replacement and insertion of a token from an alphabet of %d, every removed or repeated range, every character truncation and deletion, pairs of programs; all token strings of length 3 (in contexts: 2, thorough 3); %d nesting forms up to depth 1024 (thorough 10000); each text is compiled twice with other programs between", NB, NT, NN);
	for(auto b : kBase) gProg.push_back(tokenize(b));
	auto add = [&](const char *name, u64 count, u64 chunk, std::function<void(u64, mc::Ctx&)> run, std::function<std::string(u64)> desc){ mc::Space s; s.name = name; s.count = count; s.chunk = chunk; s.caseTimeout = 120; s.begin = [](mc::Ctx&){ setup(); }; s.run = run; s.describe = desc; e.add(s); };
	add("programs", NB, 1, [](u64 i, mc::Ctx &c){ bool ok = one(c, kBase[i]); if(ok && i < 44 && !nullcBuild(kBase[i])) c.counter(1); }, [](u64 i){ return kBase[i]; });
	add("nesting", (u64)NN * ND, 4, runNest, [](u64 i){ return fmt("%s nested %d times", kNest[i % NN].name, kDepths[i / NN]); });
	add("edits", (u64)NB * kMaxTok, 8, runEdits, [](u64 i){ return fmt("edit at token %d of: ", (int)(i % kMaxTok)) + kBase[i / kMaxTok]; });
	add("ranges", (u64)NB * kMaxTok, 8, runRanges, [](u64 i){ return fmt("range from token %d of: ", (int)(i % kMaxTok)) + kBase[i / kMaxTok]; });
	add("characters", NB, 1, runChars, [](u64 i){ return std::string("characters of: ") + kBase[i]; });
	add("tokens", (u64)NC * NT * NT, 32, runTokens, [](u64 i){ return fmt("%s%s %s ...%s", kCtx[i % NC][0], kTok[i / NC % NT], kTok[i / NC / NT], kCtx[i % NC][1]); });
	add("pairs", NB, 1, runPairs, [](u64 i){ return std::string(kBase[i]) + " with every other program"; });
	(void)T; return e.finish();
}
