// Thin layer over the public nullc API used by every check.
#pragma once
#include "mc.h"
#include "NULLC/nullc.h"
#include "NULLC/nullc_debug.h"
#include "NULLC/includes/file.h"
#include "NULLC/includes/io.h"
#include "NULLC/includes/math.h"
#include "NULLC/includes/string.h"
#include "NULLC/includes/vector.h"
#include "NULLC/includes/random.h"
#include "NULLC/includes/time.h"
#include "NULLC/includes/gc.h"
#include "NULLC/includes/memory.h"
#include "NULLC/includes/error.h"
#include "NULLC/includes/typeinfo.h"
#include "NULLC/includes/dynamic.h"

namespace nc
{
using mc::fmt;
typedef uint64_t u64;

inline const char *repo(){ const char *r = getenv("NULLC_REPO"); return r ? r : "/repo"; }

// ---- host trace
inline std::string &trace(){ static std::string t; return t; }
const size_t kTraceLimit = 1 << 16;
inline bool &traceOverflow(){ static bool b = false; return b; }
inline void tput(const char *s){ std::string &t = trace(); if(t.size() < kTraceLimit) t += s; else traceOverflow() = true; }
inline void t_i(int v){ char b[32]; snprintf(b, 32, "%d ", v); tput(b); }
inline void t_l(long long v){ char b[40]; snprintf(b, 40, "%lldL ", v); tput(b); }
inline void t_d(double v){ char b[64]; if(v != v) snprintf(b, 64, "nan "); else snprintf(b, 64, "%.17gd ", v); tput(b); }
inline void t_s(NULLCArray s){ std::string r = "'"; for(unsigned i = 0; i < s.len && s.ptr && s.ptr[i]; i++) r += s.ptr[i]; r += "' "; tput(r.c_str()); }
// identity function with a trace, used to observe evaluation order
inline int t_e(int id, int v){ char b[32]; snprintf(b, 32, "#%d ", id); tput(b); return v; }
inline int t_fail(int v){ (void)v; nullcThrowError("host failure %d", v); return 0; }
inline int t_ext(int v){ return v; } // value hidden from the optimizer
inline long long t_extl(long long v){ return v; }
inline double t_extd(double v){ return v; }

// host functions that access script memory and call back into the script
inline void t_hset(int *p, int v){ *p = v; }
inline int t_hget(int *p){ return *p; }
inline int t_hcall(NULLCFuncPtr f, int v){ if(!nullcCallFunction(f, v)) return -1; return nullcGetResultInt(); }
inline int t_hname(NULLCArray name, int v){ if(!nullcRunFunction(name.ptr, v)) return -1; return nullcGetResultInt(); }

const char *const kTraceModule =
	"void hset(int ref p, int v);\nint hget(int ref p);\nint hcall(int ref(int) f, int v);\nint hname(char[] name, int v);\n"
	"void t(int v);\nvoid tl(long v);\nvoid td(double v);\nvoid ts(char[] v);\nint te(int id, int v);\nint hostfail(int v);\nint hide(int v);\nlong hidel(long v);\ndouble hided(double v);\n";

inline bool bindTrace()
{
	if(!nullcLoadModuleBySource("mc", kTraceModule)){ printf("trace module failed: %s\n", nullcGetLastError()); return false; }
	bool ok = true;
	ok &= nullcBindModuleFunction("mc", (void(*)())t_i, "t", 0);
	ok &= nullcBindModuleFunction("mc", (void(*)())t_l, "tl", 0);
	ok &= nullcBindModuleFunction("mc", (void(*)())t_d, "td", 0);
	ok &= nullcBindModuleFunction("mc", (void(*)())t_s, "ts", 0);
	ok &= nullcBindModuleFunction("mc", (void(*)())t_e, "te", 0);
	ok &= nullcBindModuleFunction("mc", (void(*)())t_fail, "hostfail", 0);
	ok &= nullcBindModuleFunction("mc", (void(*)())t_ext, "hide", 0);
	ok &= nullcBindModuleFunction("mc", (void(*)())t_extl, "hidel", 0);
	ok &= nullcBindModuleFunction("mc", (void(*)())t_extd, "hided", 0);
	ok &= nullcBindModuleFunction("mc", (void(*)())t_hset, "hset", 0);
	ok &= nullcBindModuleFunction("mc", (void(*)())t_hget, "hget", 0);
	ok &= nullcBindModuleFunction("mc", (void(*)())t_hcall, "hcall", 0);
	ok &= nullcBindModuleFunction("mc", (void(*)())t_hname, "hname", 0);
	return ok;
}

inline void *(*&customAlloc())(int){ static void *(*f)(int) = nullptr; return f; }
inline void (*&customDealloc())(void*){ static void (*f)(void*) = nullptr; return f; }
inline bool &inited(){ static bool b = false; return b; }
enum { STD_NONE = 0, STD_ALL = 1 };
// Fresh environment: terminate, init, import path, standard native modules, trace module
inline void fresh(int stdlib = STD_NONE, bool withTrace = true)
{
	if(inited()) nullcTerminate();
	inited() = true;
	if(!(customAlloc() ? nullcInitCustomAlloc(customAlloc(), customDealloc()) : nullcInit())){ printf("nullcInit failed\n"); _exit(3); }
	std::string path = std::string(repo()) + "/Modules/";
	nullcAddImportPath(path.c_str());
	nullcSetEnableLogFiles(0, nullptr, nullptr, nullptr);
	if(stdlib)
	{
		bool ok = nullcInitTypeinfoModule() && nullcInitDynamicModule() && nullcInitFileModule() && nullcInitMathModule() && nullcInitVectorModule() && nullcInitRandomModule() &&
			nullcInitTimeModule() && nullcInitGCModule() && nullcInitMemoryModule() && nullcInitErrorModule() && nullcInitStringModule() && nullcInitIOModule();
		if(!ok){ printf("standard modules failed: %s\n", nullcGetLastError()); _exit(3); }
	}
	if(withTrace && !bindTrace()) _exit(3);
}

struct Outcome
{
	bool built = false, ran = false;
	std::string error;		// first line of the error (build or run)
	std::string fullError;
	std::string result;		// typed textual result, exact for doubles
	std::string trace;
	std::string text() const
	{
		if(!built) return "BUILD-ERROR " + error;
		if(!ran) return "RUN-ERROR " + error + " | trace: " + trace;
		return "OK " + result + " | trace: " + trace;
	}
	bool operator==(const Outcome &o) const { return text() == o.text(); }
};

inline std::string firstLine(const char *s){ if(!s) return "(null)"; std::string r; for(; *s && *s != '\n' && *s != '\r'; s++) r += *s; return r; }

inline std::string resultText()
{
	unsigned t = nullcGetResultType();
	switch(t)
	{
	case NULLC_TYPE_VOID: return "void";
	case NULLC_TYPE_BOOL: case NULLC_TYPE_CHAR: case NULLC_TYPE_SHORT: case NULLC_TYPE_INT: return fmt("int %d", nullcGetResultInt());
	case NULLC_TYPE_LONG: return fmt("long %lld", nullcGetResultLong());
	case NULLC_TYPE_FLOAT: case NULLC_TYPE_DOUBLE: { double d = nullcGetResultDouble(); return d != d ? "double nan" : fmt("double %.17g", d); }
	}
	return fmt("type#%u", t);
}

struct Config { int exec, opt; };
inline const char *cfgName(Config c){ static char b[4][32]; static int n = 0; n = (n + 1) & 3; snprintf(b[n], 32, "%s/O%d", c.exec == NULLC_X86 ? "jit" : "vm", c.opt); return b[n]; }

inline Outcome run(const char *code, Config c)
{
	Outcome o;
	trace().clear(); traceOverflow() = false;
	nullcSetExecutor(c.exec);
	nullcSetOptimizationLevel(c.opt);
	o.built = nullcBuild(code) != 0;
	if(!o.built){ o.fullError = nullcGetLastError() ? nullcGetLastError() : ""; o.error = firstLine(o.fullError.c_str()); return o; }
	o.ran = nullcRun() != 0;
	if(!o.ran){ o.fullError = nullcGetLastError() ? nullcGetLastError() : ""; o.error = firstLine(o.fullError.c_str()); }
	else o.result = resultText();
	o.trace = trace();
	return o;
}
inline Outcome run(const std::string &code, Config c){ return run(code.c_str(), c); }
}
