// C20: number and text literals, conversions, character array operations and std.string against an independent reference
#include "nc.h"
using namespace nc; using mc::u64;
typedef unsigned __int128 u128;

// ---- host arguments and results
static std::string gStr[3]; static bool gNull[3]; static long long gInt[4]; static double gDbl; static std::vector<std::string> gOut;
static NULLCArray h_sarg(int k){ NULLCArray a; a.ptr = gNull[k] ? nullptr : (char*)gStr[k].data(); a.len = gNull[k] ? 0 : gStr[k].size(); return a; }
static int h_iarg(int k){ return (int)gInt[k]; } static long long h_larg(int k){ return gInt[k]; } static double h_darg(){ return gDbl; }
static void h_out(NULLCArray a){ gOut.push_back(std::string(a.ptr ? a.ptr : "", a.ptr ? a.len : 0)); }
static long long gBad; static std::string gBadText;
static void h_conv(long long v, NULLCArray text, long long back, int width){ std::string w = fmt("%lld", v), g(text.ptr, text.len); w += '\0'; long long e = width == 2 ? (short)v : width == 4 ? (int)v : v; if(width == 2) w = fmt("%d", (short)v) + std::string(1, '\0'); if(w != g || back != e){ gBad++; gBadText = fmt("%lld (width %d): text '%s' size %u, parsed back %lld", v, width, g.c_str(), (unsigned)g.size(), back); } }
static const char *kModule = "char[] sarg(int k);\nint iarg(int k);\nlong larg(int k);\ndouble darg();\nvoid out(char[] a);\nvoid conv(long v, char[] text, long back, int width);\n";
static void setup(){ fresh(STD_ALL); if(!nullcLoadModuleBySource("mcs", kModule) || !nullcBindModuleFunction("mcs", (void(*)())h_sarg, "sarg", 0) || !nullcBindModuleFunction("mcs", (void(*)())h_iarg, "iarg", 0) || !nullcBindModuleFunction("mcs", (void(*)())h_larg, "larg", 0) || !nullcBindModuleFunction("mcs", (void(*)())h_darg, "darg", 0) || !nullcBindModuleFunction("mcs", (void(*)())h_out, "out", 0) || !nullcBindModuleFunction("mcs", (void(*)())h_conv, "conv", 0)){ printf("module: %s\n", nullcGetLastError()); _exit(3); } }
static std::string show(const std::string &s){ std::string r; for(unsigned char c : s) r += c < 32 || c > 126 ? fmt("\\x%02x", c) : std::string(1, c); return r; }

// ---- number literals
struct Lit { std::string text; };
struct Val { bool ok; int kind; long long i; double d; };	// kind 0 int 1 long 2 float 3 double
static Val modelNumber(const std::string &t)
{
	Val v = {true, 0, 0, 0}; std::string s = t; char suf = 0; bool hex = s.size() > 1 && s[1] == 'x';
	if(hex){ if(s.back() == 'l'){ suf = 'l'; s.pop_back(); } } else if(s.back() == 'l' || s.back() == 'b' || s.back() == 'f'){ suf = s.back(); s.pop_back(); }
	bool fp = !hex && (s.find('.') != std::string::npos || s.find('e') != std::string::npos);
	if(fp){ v.d = strtod(s.c_str(), nullptr); v.kind = suf == 'f' ? 2 : 3; if(suf == 'f') v.d = (float)v.d; v.ok = !suf || suf == 'f'; return v; }
	if(suf == 'f'){ v.ok = false; return v; }
	int base = hex ? 16 : suf == 'b' ? 2 : s.size() > 1 && s[0] == '0' ? 8 : 10; u128 n = 0; size_t p = hex ? 2 : 0; if(p == s.size()){ v.ok = false; return v; }
	for(; p < s.size(); p++){ int d = s[p] <= '9' ? s[p] - '0' : (s[p] | 32) - 'a' + 10; if(d >= base){ v.ok = false; return v; } n = n * base + d; if(n >> 64){ v.ok = false; return v; } }
	if((base == 10 || suf == 'l') && !hex){ if(n >> 63){ v.ok = false; return v; } }
	v.i = (long long)(u64)n; v.kind = suf == 'l' || (int)v.i != v.i ? 1 : 0; if(base == 10 && !suf && (int)v.i != v.i) v.ok = false;
	return v;
}
static std::vector<std::string> gNums;
static void words(const std::string &alpha, int len, std::vector<std::string> &out){ size_t b = 0; out.push_back(""); for(int l = 0; l < len; l++){ size_t e = out.size(); for(; b < e; b++) for(char c : alpha) out.push_back(out[b] + c); } }
static void addNumbers(bool T)
{
	std::set<std::string> s; std::vector<std::string> w;
	auto all = [&](const std::string &pre, const std::string &alpha, int len, const char *suf){ w.clear(); words(alpha, len, w); for(auto &x : w) for(const char *p = suf; ; p++){ std::string t = pre + x + (*p ? std::string(1, *p) : ""); if(isdigit((unsigned char)t[0]) && !(pre.empty() && x.empty())) s.insert(t); if(!*p) break; } };
	all("0x", "0179afF", T ? 5 : 4, "l"); all("", "0127 9"[0] ? "01279" : "", T ? 6 : 5, "lbf"); all("", "01", T ? 13 : 9, "b"); all("0", "0178", T ? 7 : 5, "l");
	// digits repeated around every size limit
	for(int n = 1; n <= 66; n++) for(const char *d : {"1", "0", "7", "9", "f", "8", "3"}) for(const char *first : {"", "1", "2", "7", "8", "3"}) for(const char *lead : {"", "0", "000"})
	{
		std::string r = lead; r += first; for(int k = 0; k < n; k++) r += d;
		s.insert("0x" + r); s.insert("0x" + r + "l"); if(*d < 'a'){ s.insert("0" + r); s.insert("0" + r + "l"); if(n < 24) { s.insert(r); s.insert(r + "l"); } if(*d < '2' && *first < '2') s.insert(r + "b"); }
	}
	for(int k = 0; k < 64; k++) for(int d = -2; d <= 2; d++){ u64 v = (1ull << k) + d; s.insert(fmt("%llu", (unsigned long long)v)); s.insert(fmt("%llul", (unsigned long long)v)); s.insert(fmt("0x%llx", (unsigned long long)v)); s.insert(fmt("0%llo", (unsigned long long)v)); s.insert(fmt("0%llol", (unsigned long long)v)); }
	std::vector<std::string> man = {"0", "1", "5", "9", "10", "123", "0.1", "4.35", "1.7976931348623157", "1.7976931348623159", "2.2250738585072014", "2.2250738585072011", "4.94065645841246544", "9007199254740993", "9007199254740992.5", "179769313486231580793", "0.000001", "3.4028235", "3.4028236", "16777217", "16777219.0", "0.30000001192092896", "1.", "7.00000000000000000000000001"}, ex = {"", "e0", "e1", "e-1", "e+1", "e5", "e+05", "e22", "e23", "e-5", "e-22", "e38", "e39", "e-45", "e-46", "e300", "e308", "e309", "e-308", "e-323", "e-324", "e-400", "e0000000002", "e-0003"};
	for(auto &m : man) for(auto &x : ex) for(const char *f : {"", "f"}) s.insert(m + x + f);
	w.clear(); words("0159", 2, w); for(auto &a : w) for(auto &b : w) if(!a.empty()) for(auto &x : {"", "e1", "e-2", "e+3"}) for(const char *f : {"", "f"}) s.insert(a + "." + b + x + f);
	for(auto &t : s) gNums.push_back(t);
}
static const char *kKinds = "void k(int v){ t(0); tl(v); }\nvoid k(long v){ t(1); tl(v); }\nvoid k(float v){ t(2); td(v); }\nvoid k(double v){ t(3); td(v); }\n";
static std::string valText(const Val &v){ return v.kind < 2 ? fmt("%d %lldL ", v.kind, v.i) : fmt("%d %.17gd ", v.kind, v.d); }
static const int kBatch = 48;
static void runNumbers(u64 i, mc::Ctx &c)
{
	std::string src = std::string("import mc;\n") + kKinds, want, texts; bool any = false;
	for(u64 n = i * kBatch; n < std::min<u64>(gNums.size(), (i + 1) * kBatch); n++)
	{
		Val v = modelNumber(gNums[n]); c.state(mc::hashStr(gNums[n])); c.step();
		if(v.ok){ src += "k(" + gNums[n] + ");\n"; want += valText(v); texts += gNums[n] + " "; any = true; continue; }
		Outcome r = run("import mc;\n" + std::string(kKinds) + "k(" + gNums[n] + ");", {0, 0}); c.exec(); if(r.built) c.fail("literal " + gNums[n] + " is accepted as " + r.trace + ", must be rejected", "literal " + gNums[n]);
	}
	if(!any) return;
	for(int o = 0; o < 3; o += 2)
	{
		Outcome r = run(src, {0, o}); c.exec(); if(r.ran && r.trace == want) continue;
		for(u64 n = i * kBatch; n < std::min<u64>(gNums.size(), (i + 1) * kBatch); n++){ Val v = modelNumber(gNums[n]); if(!v.ok) continue; r = run("import mc;\n" + std::string(kKinds) + "k(" + gNums[n] + ");", {0, o}); if(!r.ran || r.trace != valText(v)){ c.fail("literal " + gNums[n] + ": expected " + valText(v) + " observed " + (r.ran ? r.trace : r.error), "literal " + gNums[n]); } }
	}
}
// ---- characters and strings: all sequences of source units
static const char *kUnits[] = {"a", "\\n", "\\r", "\\t", "\\0", "\\'", "\\\"", "\\\\", "'", "//", "/*", " ", "\t", "\xc3\xa9", "@", "%d"};
static const char kUnitVal[][3] = {"a", "\n", "\r", "\t", "\0", "'", "\"", "\\", "'", "//", "/*", " ", "\t", "\xc3\xa9", "@", "%d"};
static std::string unitVal(int u){ return u == 4 ? std::string(1, '\0') : kUnitVal[u]; }
static const int NU = 16;
static u64 strCount(int len){ u64 n = 0, p = 1; for(int k = 0; k <= len; k++){ n += p; p *= NU; } return n; }
static std::vector<int> strUnits(u64 i){ int len = 0; u64 p = 1; while(i >= p){ i -= p; p *= NU; len++; } std::vector<int> v; for(int k = 0; k < len; k++){ v.push_back(i % NU); i /= NU; } return v; }
static int gStrLen = 3;
static void runStrings(u64 i, mc::Ctx &c)
{
	std::string src = "import mc; import mcs;\n"; std::vector<std::string> want, lits;
	for(u64 n = i * 24; n < std::min(strCount(gStrLen), (i + 1) * 24); n++)
	{
		std::vector<int> u = strUnits(n); std::string lit, val, raw; bool rawOk = true; for(int x : u){ lit += kUnits[x]; val += unitVal(x); raw += kUnits[x]; if(strchr(kUnits[x], '"')) rawOk = false; }
		c.state(n); c.step(); lits.push_back("\"" + lit + "\""); want.push_back(val + std::string(1, '\0')); if(rawOk){ lits.push_back("@\"" + raw + "\""); want.push_back(raw + std::string(1, '\0')); }
	}
	for(size_t k = 0; k < lits.size(); k++) src += "out(" + lits[k] + ");" + (k & 1 ? "\n" : " /* \" */ ");
	gOut.clear(); Outcome r = run(src, {0, (int)(i % 3)}); c.exec(lits.size()); if(r.ran && gOut == want) return;
	for(size_t k = 0; k < lits.size(); k++){ gOut.clear(); r = run("import mc; import mcs;\nout(" + lits[k] + ");\nreturn 0;", {0, (int)(i % 3)}); if(!r.ran || gOut.size() != 1 || gOut[0] != want[k]) c.fail("literal " + lits[k] + ": expected '" + show(want[k]) + "' observed " + (r.ran ? "'" + (gOut.size() ? show(gOut[0]) : "") + "' " + r.result : r.error), "literal " + lits[k]); }
}
static void runChars(u64 i, mc::Ctx &c)
{
	// i: byte x form (plain, escaped, two characters, empty)
	int b = i % 255 + 1, f = i / 255; std::string q = f == 0 ? std::string(1, (char)b) : f == 1 ? "\\" + std::string(1, (char)b) : f == 2 ? std::string("a") + (char)b : ""; bool ok; int v = (signed char)b;
	if(f == 0){ if(b == '\'' || b == '\\' || b == '\r' || b == '\n'){ c.skip(); return; } ok = true; }
	else if(f == 1){ const char *e = "nrt0'\"\\"; const char *p = strchr(e, b); ok = p && *p; if(ok) v = "\n\r\t\0'\"\\"[p - e]; }
	else { ok = false; if(b == '\'' || b == '\\') { c.skip(); return; } }
	c.state(i); c.exec(); c.step();
	Outcome r = run("import mc;\nchar x = '" + q + "'; char[] s = \"" + (b == '"' && f == 0 ? "\\\"" : q) + "\"; t(x); t(int('" + q + "')); t('" + q + "' + hide(0)); t(s[0]); t(s.size); return '" + q + "';", {0, (int)(i % 3)});
	std::string want = fmt("%d %d %d %d 2 ", v, v, v, v);
	if(ok ? !r.ran || r.trace != want || r.result != fmt("int %d", v) : r.built) c.fail("character '" + show(q) + "': expected " + (ok ? want : "an error") + " observed " + r.text(), "character " + show(q));
}
// ---- numbers to text and back
static const char *kConv = "import mc; import mcs;\nint range(){ int n = iarg(1); int v = iarg(0); for(int k = 0; k < n; k++){ conv(v, v.str(), int(v.str()), 4); short s = v; conv(v, s.str(), short(s.str()), 2); long l = v; conv(v, l.str(), long(l.str()), 8); v++; } return 1; }\n"
	"int one(){ long l = larg(0); conv(l, l.str(), long(l.str()), 8); return 1; }\nint dbl(){ double d = darg(); out(d.str(iarg(0), bool(iarg(1)))); float f = d; out(f.str(iarg(0), bool(iarg(1)))); if(iarg(0) == 6 && !iarg(1)){ out(d.str()); out(f.str()); } if(iarg(0) == 6 && iarg(1)) td(double(d.str(17, true))); return 1; }\n"
	"int parse(){ char[] s = sarg(0); t(int(s)); t(short(s)); td(double(s)); td(float(s)); return 1; }\nint parsel(){ tl(long(sarg(0))); return 1; }\nreturn 1;";
static std::vector<double> gDbls;
static const int kPrec[] = {-3, 0, 1, 2, 6, 15, 17, 20, 60, 300, 400};
static void runConv(u64 i, mc::Ctx &c)
{
	static int loaded = -1; int ex = i & 1; i >>= 1; if(loaded != ex){ Outcome o = run(kConv, {ex, 2}); if(!o.ran){ c.fail(o.fullError); return; } loaded = ex; }
	gBad = 0;
	if(i < 200){ gInt[0] = -100000 + (long long)i * 1000; gInt[1] = 1000; if(!nullcRunFunction("range")) c.fail(nullcGetLastError(), "range"); c.exec(3000); c.step(3000); c.state(i); if(gBad) c.fail("conversion of " + gBadText, "conversion " + gBadText); return; }
	i -= 200;
	if(i < 64 + 19)
	{
		u64 base = 1; if(i < 64) base <<= i; else for(u64 k = 64; k <= i; k++) base *= 10;
		for(int sgn = 0; sgn < 2; sgn++) for(long long d = -40; d <= 40; d++){ u64 v = base + d; if(sgn) v = -v; gInt[0] = (long long)v; if(!nullcRunFunction("one")) c.fail(nullcGetLastError(), "one"); gInt[0] = (int)v; gInt[1] = 1; nullcRunFunction("range"); c.exec(4); c.step(); }
		c.state(1000 + i); if(gBad) c.fail("conversion of " + gBadText, "conversion " + gBadText); return;
	}
	i -= 83; gDbl = gDbls[i];
	for(int p : kPrec) for(int e = 0; e < 2; e++)
	{
		gInt[0] = p; gInt[1] = e; gOut.clear(); trace().clear(); bool ok = nullcRunFunction("dbl") != 0; c.exec(); c.step(); c.state(mc::hashStr(fmt("%.17g %d %d", gDbl, p, e)));
		std::vector<std::string> want; auto f = [&](double d){ static char b[2000]; snprintf(b, 2000, e ? "%.*e" : "%.*f", p, d); want.push_back(std::string(b) + std::string(1, '\0')); }; f(gDbl); f((float)gDbl); if(p == 6 && !e){ f(gDbl); f((float)gDbl); }
		if(!ok || gOut != want || (p == 6 && e && trace() != (gDbl != gDbl ? "nan " : fmt("%.17gd ", gDbl)))) c.fail(fmt("double %.17g, precision %d, exponent %d: ", gDbl, p, e) + (ok ? "observed " + (gOut.size() ? show(gOut[0]) + " " + show(gOut.back()) : "") + " expected " + show(want[0]) + " " + trace() : firstLine(nullcGetLastError())), fmt("double %.17g %d %d", gDbl, p, e));
	}
}
static std::vector<std::string> gTexts;
static void runParse(u64 i, mc::Ctx &c)
{
	static int loaded = -1; int ex = i & 1; i >>= 1; if(loaded != ex){ Outcome o = run(kConv, {ex, 2}); if(!o.ran){ c.fail(o.fullError); return; } loaded = ex; }
	const std::string &t = gTexts[i];
	for(int form = 0; form < 4; form++)	// terminated; unterminated followed by a digit; terminated and followed by digits; null
	{
		static std::string pad; gNull[0] = form == 3; pad = form == 0 ? t + std::string(1, '\0') : form == 1 ? t + "7" : t + std::string("\0" "123", 4); gStr[0] = pad; std::string use = form == 3 ? "" : t;
		// the array given to the script excludes the padding of the unterminated form
		struct Cut { static NULLCArray get(int){ NULLCArray a = {gStr[0].empty() ? nullptr : &gStr[0][0], (unsigned)gStr[0].size() - 1}; return a; } };
		if(form == 1 && t.empty()) continue;
		extern bool gCut; gCut = form == 1;
		bool plain = use.find_first_not_of("-0123456789") == std::string::npos && use.find('-', 1) == std::string::npos;
		trace().clear(); bool ok = nullcRunFunction("parse") != 0; c.exec(); c.step(); c.state(mc::hashStr(t));
		std::string want = fmt("%d %d ", atoi(use.c_str()), (short)atoi(use.c_str())), got; double d = atof(use.c_str()); want += d != d ? "nan " : fmt("%.17gd ", d); d = (float)d; want += d != d ? "nan " : fmt("%.17gd ", d);
		if(!ok || trace() != want) c.fail(fmt("parsing '%s' (form %d): expected %s observed %s", t.c_str(), form, want.c_str(), ok ? trace().c_str() : firstLine(nullcGetLastError()).c_str()), fmt("parse %d %s", form, t.c_str()));
		if(plain){ trace().clear(); ok = nullcRunFunction("parsel") != 0; want = fmt("%lldL ", atoll(use.c_str())); if(!ok || trace() != want) c.fail(fmt("parsing long '%s' (form %d): expected %s observed %s", t.c_str(), form, want.c_str(), ok ? trace().c_str() : firstLine(nullcGetLastError()).c_str()), fmt("parse long %d %s", form, t.c_str())); }
	}
}
bool gCut;
static NULLCArray h_sargCut(int k){ NULLCArray a = h_sarg(k); if(gCut && a.len) a.len--; return a; }
// ---- character arrays: == != + += and the std.string functions over all small arrays
static const char *kArr = "import mc; import mcs; import std.string;\n"
	"int go(){ char[] a = sarg(0), b = sarg(1); switch(iarg(0)){ case 0: t(a == b); break; case 1: t(a != b); break; case 2: out(a + b); break; case 3: a += b; out(a); break; case 4: t(strlen(a)); break; case 5: t(strcmp(a, b)); break; case 6: t(strstr(a, b)); break; case 7: t(strchr(a, char(iarg(1)))); break; case 8: { char[] d; if(a.size) d = duplicate(a); t(strcpy(d, b)); out(d); break; } case 9: { char[] d = duplicate(a); t(d == a); if(d.size){ d[0]++; t(d == a); } break; } case 10: out((a + b) + a); break; } return 1; }\nreturn 1;";
static std::vector<std::string> gArrs;	// contents; index 0 is a null array
static void runArrays(u64 i, mc::Ctx &c)
{
	static int loaded = -1; int ex = i & 1; i >>= 1; if(loaded != ex){ Outcome o = run(kArr, {ex, 2}); if(!o.ran){ c.fail(o.fullError); return; } loaded = ex; }
	int ai = i % gArrs.size(), bi = i / gArrs.size(); const std::string &a = gArrs[ai], &b = gArrs[bi]; gStr[0] = a; gStr[1] = b; gNull[0] = !ai; gNull[1] = !bi; gCut = false;
	auto term = [](const std::string &s){ return s.find('\0') != std::string::npos; }; auto last = [](const std::string &s){ return !s.empty() && s.back() == 0; };
	for(int op = 0; op < 11; op++) for(int ch = 0; ch < (op == 7 ? 4 : 1); ch++)
	{
		gInt[0] = op; gInt[1] = "ab\0c"[ch]; gOut.clear(); trace().clear(); bool ok = nullcRunFunction("go") != 0; c.exec(); c.step(); c.state(mc::hashStr(fmt("%d %d %d", ai, bi, op)));
		std::string wt; std::vector<std::string> wo; bool err = false; auto cat = [&](const std::string &x, const std::string &y){ return last(x) && !y.empty() ? x.substr(0, x.size() - 1) + y : x + y; };
		switch(op)
		{
		case 0: wt = fmt("%d ", a == b); break; case 1: wt = fmt("%d ", a != b); break; case 2: case 3: wo.push_back(cat(a, b)); break;
		case 4: if(!ai || !term(a)) err = true; else wt = fmt("%d ", (int)strlen(a.c_str())); break;
		case 5: if(!ai || !bi || !last(a) || !last(b)) err = true; else { int r = strcmp(a.c_str(), b.c_str()); wt = fmt("%d ", r < 0 ? -1 : r > 0); } break;
		case 6: if(!ai || !bi || !last(a) || !last(b)) err = true; else { const char *p = strstr(a.c_str(), b.c_str()); wt = fmt("%d ", p ? int(p - a.c_str()) : -1); } break;
		case 7: if(!ai || !last(a)) err = true; else { const char *p = strchr(a.c_str(), gInt[1]); wt = fmt("%d ", p ? int(p - a.c_str()) : -1); } break;
		case 8: if(!ai || !bi || !term(b) || strlen(b.c_str()) + 1 > a.size()) err = true; else { std::string d = a; memcpy(&d[0], b.c_str(), strlen(b.c_str()) + 1); wo.push_back(d); wt = fmt("%d ", (int)strlen(b.c_str())); } break;
		case 9: wt = a.empty() ? "1 " : "1 0 "; break;
		case 10: wo.push_back(cat(cat(a, b), a)); break;
		}
		if(ok == err || (ok && (trace() != wt || gOut != wo))) c.fail(fmt("operation %d on '%s' and '%s'%s: expected %s'%s' %s observed %s'%s' %s", op, show(a).c_str(), show(b).c_str(), op == 7 ? fmt(" char %d", (int)gInt[1]).c_str() : "", err ? "error " : "", wo.size() ? show(wo[0]).c_str() : "", wt.c_str(), ok ? "" : firstLine(nullcGetLastError()).c_str(), gOut.size() ? show(gOut[0]).c_str() : "", trace().c_str()), fmt("array %d '%s' '%s'", op, show(a).c_str(), show(b).c_str()));
	}
}
// ---- std.string: every operation on every small string with every argument
struct SOp { const char *name, *code; bool p, c, i, n; };	// which arguments are used: string, character array, offset, length
static const SOp kSOps[] = {
	{"= string", "s = p;", 1, 0, 0, 0}, {"= char[]", "s = c;", 0, 1, 0, 0}, {"= char", "s = ch;", 0, 0, 0, 0}, {"ctor char[]", "s = string(c);", 0, 1, 0, 0}, {"ctor fill", "s = string(n, ch);", 0, 0, 0, 1}, {"ctor copy", "string q = string(s); q += \"z\"; t(int(q.size));", 0, 0, 0, 0},
	{"size", "t(int(s.size)); t(int(s.length())); t(int(s.empty()));", 0, 0, 0, 0}, {"clear", "s.clear();", 0, 0, 0, 0}, {"[i]", "t(int(s[i])); s[i] = 'c';", 0, 0, 1, 0}, {"[i, n]", "string q = s[i, n]; outs(q);", 0, 0, 1, 1}, {"front", "char ref r0 = s.front(); t(int(*r0)); s.front() = 'c';", 0, 0, 0, 0}, {"back", "char ref r0 = s.back(); t(int(*r0)); s.back() = 'c';", 0, 0, 0, 0},
	{"+= string", "s += p;", 1, 0, 0, 0}, {"+= char[]", "s += c;", 0, 1, 0, 0}, {"insert string", "s.insert(i, p);", 1, 0, 1, 0}, {"insert char[]", "s.insert(i, c);", 0, 1, 1, 0}, {"insert fill", "s.insert(i, n, ch);", 0, 0, 1, 1}, {"erase", "s.erase(i, n);", 0, 0, 1, 1}, {"erase rest", "s.erase(i);", 0, 0, 1, 0},
	{"replace string", "s.replace(i, n, p);", 1, 0, 1, 1}, {"replace char[]", "s.replace(i, n, c);", 0, 1, 1, 1}, {"replace fill", "s.replace(i, n, 2, ch);", 0, 0, 1, 1}, {"replace nothing", "s.replace(i, n, 0, ch);", 0, 0, 1, 1}, {"swap", "s.swap(p); outs(p);", 1, 0, 0, 0},
	{"find string", "t(int(s.find(p, i)));", 1, 0, 1, 0}, {"find char[]", "t(int(s.find(c, i)));", 0, 1, 1, 0}, {"find char", "t(int(s.find(ch, i)));", 0, 0, 1, 0}, {"rfind string", "t(int(s.rfind(p, i)));", 1, 0, 1, 0}, {"rfind char[]", "t(int(s.rfind(c, i)));", 0, 1, 1, 0}, {"rfind char", "t(int(s.rfind(ch, i)));", 0, 0, 1, 0}, {"find default", "t(int(s.find(p))); t(int(s.rfind(p))); t(int(s.find(ch))); t(int(s.rfind(ch)));", 1, 0, 0, 0},
	{"first_of", "t(int(s.find_first_of(p, i)));", 1, 0, 1, 0}, {"first_of char[]", "t(int(s.find_first_of(c, i))); t(int(s.find_first_of(ch, i)));", 0, 1, 1, 0}, {"last_of", "t(int(s.find_last_of(p, i)));", 1, 0, 1, 0}, {"last_of char[]", "t(int(s.find_last_of(c, i))); t(int(s.find_last_of(ch, i)));", 0, 1, 1, 0},
	{"first_not_of", "t(int(s.find_first_not_of(p, i)));", 1, 0, 1, 0}, {"first_not_of char[]", "t(int(s.find_first_not_of(c, i))); t(int(s.find_first_not_of(ch, i)));", 0, 1, 1, 0}, {"last_not_of", "t(int(s.find_last_not_of(p, i)));", 1, 0, 1, 0}, {"last_not_of char[]", "t(int(s.find_last_not_of(c, i))); t(int(s.find_last_not_of(ch, i)));", 0, 1, 1, 0},
	{"in", "t(int(ch in s));", 0, 0, 0, 0}, {"substr", "outs(s.substr(i, n));", 0, 0, 1, 1}, {"substr rest", "outs(s.substr(i));", 0, 0, 1, 0}, {"string + string", "outs(s + p);", 1, 0, 0, 0}, {"string + char[]", "outs(s + c);", 0, 1, 0, 0}, {"char[] + string", "outs(c + s);", 0, 1, 0, 0},
	{"compare", "t(int(s == p)); t(int(s != p)); t(int(s < p)); t(int(s <= p)); t(int(s > p)); t(int(s >= p));", 1, 0, 0, 0}, {"compare char[]", "t(int(s == c)); t(int(s != c)); t(int(s < c)); t(int(s <= c)); t(int(s > c)); t(int(s >= c));", 0, 1, 0, 0}, {"char[] compare", "t(int(c == s)); t(int(c != s)); t(int(c < s)); t(int(c <= s)); t(int(c > s)); t(int(c >= s));", 0, 1, 0, 0},
	{"self +=", "s += s;", 0, 0, 0, 0}, {"self insert", "s.insert(i, s);", 0, 0, 1, 0}, {"self replace", "s.replace(i, n, s);", 0, 0, 1, 1}, {"self assign", "s = s;", 0, 0, 0, 0}, {"copy then change", "string q = s; string r; r = s; if(s.size) s[0] = 'z'; outs(r);", 0, 0, 0, 0}};
static const int kNSOps = sizeof(kSOps) / sizeof(*kSOps);
static std::string stringSource()
{
	std::string r = "import mc; import mcs; import std.string;\nvoid outs(string ref s){ out(s.data); }\n// the empty string has two representations\nstring mk(int k, int v){ string s = string(sarg(k)); if(v){ s += \"x\"; s.erase(s.size - 1, 1); } return s; }\n";
	for(int k = 0; k < kNSOps; k++) r += fmt("int go%d(){ string s = mk(0, iarg(2)), p = mk(1, iarg(3)); char[] c = sarg(2); int i = iarg(0), n = iarg(1); char ch = 'a'; ", k) + kSOps[k].code + " out(s.data); return 1; }\n";
	return r + "return 1;";
}
static std::vector<std::string> gSmall, gCharArr; static std::vector<std::pair<int, int>> gSP;
// reference; result: outs and trace; returns false when the arguments are outside of the documented domain
static bool sModel(int op, std::string s, std::string p, const std::string &craw, int i, int n, std::string &wt, std::vector<std::string> &wo, bool &err)
{
	int sz = s.size(); std::string c = craw.c_str() == craw ? craw : craw; { size_t z = craw.find('\0'); if(!craw.empty() && craw.back() == 0) c = craw.substr(0, z); } auto t = [&](long long v){ wt += fmt("%lld ", v); }; auto out = [&](const std::string &v){ wo.push_back(v); }; auto pos = [](size_t v){ return v == std::string::npos ? -1 : (int)v; };
	err = false; char ch = 'a'; size_t ri = i < 0 ? std::string::npos : i; // reverse search: -1 is the end
	bool inside = i >= 0 && i <= sz, fwd = i >= 0 && i <= sz;
	auto cmp = [&](const std::string &x, const std::string &y){ t(x == y); t(x != y); t(x < y); t(x <= y); t(x > y); t(x >= y); };
	switch(op)
	{
	case 0: s = p; break; case 1: case 3: s = c; break; case 2: s = "a"; break; case 4: if(n < 0) err = true; else s = std::string(n, ch); break; case 5: t(sz + 1); break; case 6: t(sz); t(sz); t(!sz); break; case 7: s = ""; break;
	case 8: if(i == sz) return false; if(i < 0 || i > sz) err = true; else { t(s[i]); s[i] = 'c'; } break; case 9: if(!sz) return false; if(i < 0 || n < 0 || i > n || n >= sz) err = true; else out(s.substr(i, n - i + 1)); break;
	case 10: if(!sz) return false; t(s[0]); s[0] = 'c'; break; case 11: if(!sz) return false; t(s[sz - 1]); s[sz - 1] = 'c'; break; case 12: s += p; break; case 13: s += c; break;
	case 14: if(p.empty()) break; if(!inside) err = true; else s.insert(i, p); break; case 15: if(c.empty()) break; if(!inside) err = true; else s.insert(i, c); break; case 16: if(n < 0) err = true; else if(n == 0) break; else if(!inside) err = true; else s.insert(i, std::string(n, ch)); break;
	case 17: case 18: if(!inside) return false; s.erase(i, op == 18 || n < 0 ? std::string::npos : n); break;
	case 19: case 20: case 21: case 22: if(!inside) err = true; else s.replace(i, n < 0 ? std::string::npos : n, op == 19 ? p : op == 20 ? c : op == 21 ? "aa" : ""); break;
	case 23: out(s); s = p; std::swap(wo[0], s); { std::string old = wo[0]; wo[0] = s; s = old; } break;
	case 24: case 25: if(!fwd) return false; t(pos(s.find(op == 24 ? p : c, i))); break; case 26: if(!fwd) return false; t(pos(s.find(ch, i))); break;
	case 27: case 28: t(pos(s.rfind(op == 27 ? p : c, ri))); break; case 29: t(pos(s.rfind(ch, ri))); break; case 30: t(pos(s.find(p))); t(pos(s.rfind(p))); t(pos(s.find(ch))); t(pos(s.rfind(ch))); break;
	case 31: if(!fwd) return false; t(pos(s.find_first_of(p, i))); break; case 32: if(!fwd) return false; t(pos(s.find_first_of(c, i))); t(pos(s.find_first_of(ch, i))); break; case 33: t(pos(s.find_last_of(p, ri))); break; case 34: t(pos(s.find_last_of(c, ri))); t(pos(s.find_last_of(ch, ri))); break;
	case 35: if(!fwd) return false; t(pos(s.find_first_not_of(p, i))); break; case 36: if(!fwd) return false; t(pos(s.find_first_not_of(c, i))); t(pos(s.find_first_not_of(ch, i))); break; case 37: t(pos(s.find_last_not_of(p, ri))); break; case 38: t(pos(s.find_last_not_of(c, ri))); t(pos(s.find_last_not_of(ch, ri))); break;
	case 39: t(s.find(ch) != std::string::npos); break; case 40: case 41: if(!inside) return false; out(s.substr(i, op == 41 || n < 0 ? std::string::npos : n)); break; case 42: out(s + p); break; case 43: out(s + c); break; case 44: out(c + s); break;
	case 45: cmp(s, p); break; case 46: if(craw.size() && craw.back()) return false; cmp(s, c); break; case 47: if(craw.size() && craw.back()) return false; cmp(c, s); break;
	case 48: s += s; break; case 49: if(!sz) break; if(!inside) err = true; else s.insert(i, std::string(s)); break; case 50: if(!inside) err = true; else s.replace(i, n < 0 ? std::string::npos : n, std::string(s)); break; case 51: break; case 52: out(s); if(sz) s[0] = 'z'; break;
	}
	out(s); return true;
}
static bool sameText(const std::string &got, const std::string &want){ return got == want + std::string(1, '\0') || (want.empty() && got.empty()); }
static void runStringOps(u64 i, mc::Ctx &c)
{
	static int loaded = -1; int ex = i & 1; i >>= 1; if(loaded != ex){ Outcome o = run(stringSource(), {ex, 2}); if(!o.ran){ c.fail(o.fullError); return; } loaded = ex; }
	int op = i % kNSOps; i /= kNSOps; int si = i % (gSmall.size() + 1); bool sv = si == (int)gSmall.size(); std::string s = sv ? "" : gSmall[si]; const SOp &d = kSOps[op]; gCut = false; std::string fn = fmt("go%d", op);
	for(size_t pi = 0; pi < (d.p ? gSmall.size() + 1 : 1); pi++) for(size_t ci = 0; ci < (d.c ? gCharArr.size() : 1); ci++) for(int x = d.i ? -1 : 0; x <= (d.i ? 5 : 0); x++) for(int n = d.n ? -1 : 0; n <= (d.n ? 5 : 0); n++)
	{
		bool pv = pi == gSmall.size(); std::string p = pv ? "" : gSmall[pi]; std::string wt; std::vector<std::string> wo; bool err; if(!sModel(op, s, p, gCharArr[ci], x, n, wt, wo, err)){ c.skip(); continue; }
		gStr[0] = s; gStr[1] = p; gStr[2] = gCharArr[ci]; gNull[0] = gNull[1] = false; gNull[2] = !ci; gInt[0] = x; gInt[1] = n; gInt[2] = sv; gInt[3] = pv; gOut.clear(); trace().clear();
		bool ok = nullcRunFunction(fn.c_str()) != 0, same = ok != err; c.exec(); c.step(); if(ok && !err){ same = trace() == wt && gOut.size() == wo.size(); for(size_t k = 0; same && k < wo.size(); k++) same = sameText(gOut[k], wo[k]); }
		c.state(mc::hashStr(fmt("%d %d ", op, (int)err) + s + "|" + wt + (wo.empty() ? "" : wo.back())));
		if(!same){ std::string w, g; for(auto &v : wo) w += "'" + v + "' "; for(auto &v : gOut) g += "'" + show(v) + "' "; c.fail(fmt("%s on '%s'%s, string '%s'%s, char[] '%s', i %d, n %d: expected %s%s%s observed %s%s%s", d.name, s.c_str(), sv ? " (terminator only)" : "", p.c_str(), pv ? " (terminator only)" : "", show(gCharArr[ci]).c_str(), x, n, err ? "error " : "", wt.c_str(), w.c_str(), ok ? "" : firstLine(nullcGetLastError()).c_str(), trace().c_str(), g.c_str()), fmt("string %s '%s' '%s' '%s' %d %d", d.name, s.c_str(), p.c_str(), show(gCharArr[ci]).c_str(), x, n)); if(c.nfail > 3) return; }
	}
}
int main(int argc, char **argv)
{
	mc::Engine e("C20", argc, argv); bool T = e.thorough;
	e.technique = "exhaustive enumeration of literals, conversions and string operations over small alphabets and size limits, compared with an independent reference";
	e.rule = "every number literal of bounded length and every limit, every character and escape, every string of up to 3 (thorough 4) source units; integers around every power of 2 and 10; every std.string operation on every string over {a,b} up to 3 (thorough 4) characters with every argument and offset; both executors";
	addNumbers(T); gStrLen = T ? 4 : 3;
	words("ab", T ? 4 : 3, gSmall); gCharArr = {"", std::string("\0", 1), std::string("a\0", 2), std::string("ab\0", 3), "b", "ba", std::string("a\0b\0", 4), std::string("abb\0", 4)}; if(T) for(auto &w : gSmall) gCharArr.push_back(w + std::string(1, '\0'));
	{ gArrs.push_back(""); std::vector<std::string> w; words(std::string("ab\0", 3), T ? 4 : 3, w); for(size_t k = 1; k < w.size(); k++) gArrs.push_back(w[k]); }
	for(double m : {0.0, 1.0, 1.5, 0.1, 9.5, 9.999999, 0.5, 2.5, 123456789.125, 1.0 / 3, 4.9406564584124654e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 1e22, 1e23, 1e100, 1e250, 1e255, 1e300, 3.4028234663852886e38, 0.0000005, 1e-7, 1e-300, 5e-5}) for(int sg = 0; sg < 2; sg++) gDbls.push_back(sg ? -m : m); gDbls.push_back(NAN); gDbls.push_back(INFINITY); gDbls.push_back(-INFINITY); for(int k = 0; k < 60; k++) gDbls.push_back(ldexp(1 + k / 64.0, k * 34 - 1020));
	{ words("019-+ .e", T ? 5 : 4, gTexts); for(auto &t : {"2147483647", "-2147483648", "1234567890", "9223372036854775807", "-9223372036854775808", "1e308", "0.1", "1e-5", "00012", "1.7976931348623157e308", "4.9e-324"}) gTexts.push_back(t); std::vector<std::string> k; for(auto &t : gTexts){ long long v = atoll(t.c_str()); (void)v; k.push_back(t); } gTexts = k; }
	auto add = [&](const char *name, u64 count, u64 chunk, std::function<void(u64, mc::Ctx&)> run, std::function<std::string(u64)> desc){ mc::Space s; s.name = name; s.count = count; s.chunk = chunk; s.caseTimeout = 60; s.begin = [](mc::Ctx&){ setup(); nullcBindModuleFunction("mcs", (void(*)())h_sargCut, "sarg", 0); }; s.run = run; s.describe = desc; e.add(s); };
	add("numbers", (gNums.size() + kBatch - 1) / kBatch, 4, runNumbers, [](u64 i){ std::string r; for(u64 n = i * kBatch; n < std::min<u64>(gNums.size(), (i + 1) * kBatch); n++) r += gNums[n] + " "; return r; });
	add("characters", 255 * 3 + 1, 16, runChars, [](u64 i){ return fmt("character case %d", (int)i); });
	add("strings", (strCount(gStrLen) + 23) / 24, 4, runStrings, [](u64 i){ return fmt("strings %d", (int)i); });
	add("conversions", 2 * (200 + 83 + gDbls.size()), 4, runConv, [](u64 i){ return fmt("conversion case %d\n", (int)i) + kConv; });
	add("parse", 2 * gTexts.size(), 64, runParse, [](u64 i){ return gTexts[i / 2] + "\n" + kConv; });
	add("arrays", 2 * gArrs.size() * gArrs.size(), 64, runArrays, [](u64 i){ return "'" + show(gArrs[i / 2 % gArrs.size()]) + "' '" + show(gArrs[i / 2 / gArrs.size()]) + "'\n" + kArr; });
	add("string", 2 * (u64)kNSOps * (gSmall.size() + 1), 4, runStringOps, [](u64 i){ return std::string(kSOps[i / 2 % kNSOps].name) + "\n" + stringSource(); });
	return e.finish();
}
