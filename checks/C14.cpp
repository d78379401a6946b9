// C14: every sequence of module and import path operations up to a depth over an in-memory file system, compared with a model of module lookup.
#include "../lib/nc.h"
#include <map>
#include <set>
using namespace nc;
typedef std::string S;
static std::map<S, S> &files(){ static std::map<S, S> m; return m; }
static int gOpen = 0;
static const char *loadFile(const char *name, unsigned *size){ auto it = files().find(name); if(it == files().end()) return nullptr; char *d = new char[it->second.size() + 1]; memcpy(d, it->second.c_str(), it->second.size() + 1); *size = (unsigned)it->second.size() + 1; gOpen++; return d; }
static void freeFile(const char *d){ gOpen--; delete[] d; }
static S moduleText(int v){ return fmt("class T%d{ int x; }\nint gm = %d;\nint mv(){ return %d; }\nauto gv(generic x){ return x + %d; }\nauto wide(generic x, int y){ return x * y + %d; }\n", v % 3, v, v, v, v).replace(0, 0, v % 2 ? "// padding so that two versions have a different layout of lexemes\nint unused;\n" : ""); }
static const char *kD = "import m; int dv(){ return mv() * 10 + 3; }", *kK = "import m; int kv(){ return mv() + 7; }", *kBad = "import m; int dv(){ return mv() * 10 + ; }";
struct Mod { S text; int kind = 0, v = 0; S dep; };	// kind: 0 m-like with version v, 1 d, 2 k, 3 n (imports nothing), 4 broken; dep: recorded dependency name
struct Model
{
	std::vector<S> paths; std::map<S, Mod> cache; std::map<S, Mod> files; int next = 11;
	bool cached(const S &name, S &at) const { for(auto &p : paths) if(cache.count(p + name)){ at = p + name; return true; } return false; }
	// import of 'name' (path form) from a module with the given root; returns module key or empty on failure; used: the name recorded by the importer
	bool import(const S &name, const S &root, S &key, S &used)
	{
		if(!root.empty()){ used = root + "/" + name; if(cached(used, key)) return true; }
		used = name; if(cached(used, key)) return true;
		if(!root.empty()) for(auto &p : paths){ S f = p + root + "/" + name; auto it = files.find(f); if(it != files.end()){ used = root + "/" + name; key = f; return build(f, it->second, root); } }
		for(auto &p : paths){ S f = p + name; auto it = files.find(f); if(it != files.end()){ key = f; S r = root; size_t s = name.rfind('/'); if(s != S::npos) r = name.substr(0, s); return build(f, it->second, r); } }
		return false;
	}
	bool build(const S &key, Mod m, const S &root)
	{
		if(m.kind == 4) return false;
		if(m.kind == 1 || m.kind == 2){ S k, used; if(!import("m.nc", root, k, used)) return false; m.dep = used; }
		if(cache.count(key)) return false;
		cache[key] = m; return true;
	}
};
enum { ADDA, ADDB, REMA, REMB, REMLIB, CLEAR, WRITE_M, WRITE_AM, WRITE_BM, DELETE_M, DELETE_AM, BREAK_AM, LOAD_M, LOAD_AM, LOAD_D, LOAD_BAD, BIN_M, BIN_N, BIN_BM, RM_M, RM_AM, RM_BM, RM_D, RM_K, RUN_M, RUN_AM, RUN_D, RUN_K, REINIT, NOPS };
static const char *kOps[] = {"add path a/", "add path b/", "remove path a/", "remove path b/", "toggle library path", "clear paths", "write m.nc", "write a/m.nc", "write b/m.nc", "delete m.nc", "delete a/m.nc", "break a/m.nc", "load source m", "load source a.m", "load source d", "load bad source d", "load binary m", "load binary n", "load binary b.m", "remove m", "remove a/m", "remove b/m", "remove d", "remove a/k", "import m", "import a.m", "import d", "import a.k", "reinitialise"};
static std::vector<char> &binary(int v){ static std::map<int, std::vector<char>> m; return m[v]; }
static std::set<S> gBase;
static S cur(const std::set<S> &names){ S s; for(auto &n : names) s += n + " "; return s; }
static std::set<S> loadedNow(){ std::set<S> s; for(unsigned k = 0; const char *n = nullcEnumerateModules(k); k++){ if(s.count(n)) s.insert(S(n) + " (twice)"); s.insert(n); } return s; }
static S gLib;
static void setup(Model &m)
{
	files().clear(); m = Model(); m.paths = {"", gLib};
	nullcSetFileReadHandler(loadFile, freeFile); m.files["a/k.nc"] = Mod{kK, 2, 0, ""}; files()["a/k.nc"] = kK;
}
static Mod version(Model &m){ Mod r; r.v = m.next++; r.text = moduleText(r.v); return r; }
static S perform(Model &m, int op, int exec)
{
	auto write = [&](const char *f, bool bad){ Mod x = version(m); if(bad){ x.kind = 4; x.text = "int mv(){ return ; "; } m.files[f] = x; files()[f] = x.text; };
	auto erase = [&](const char *f){ m.files.erase(f); files().erase(f); };
	auto load = [&](const char *name, const S &path, Mod x) -> S
	{
		size_t s = path.rfind('/'); S root = s == S::npos ? "" : path.substr(0, s); bool want = !m.cache.count(path) && m.build(path, x, root), got = nullcLoadModuleBySource(name, x.text.c_str());
		return want == got ? "" : fmt("load of %s: expected %d observed %d (%s)", name, want, got, firstLine(nullcGetLastError()).c_str());
	};
	auto binload = [&](const char *name, const S &path, int v) -> S
	{
		bool want = !m.cache.count(path); if(want){ Mod x; x.v = v; x.text = moduleText(v); m.cache[path] = x; } bool got = nullcLoadModuleByBinary(name, binary(v).data());
		return want == got ? "" : fmt("binary load of %s: expected %d observed %d (%s)", name, want, got, firstLine(nullcGetLastError()).c_str());
	};
	auto rm = [&](const char *f){ m.cache.erase(f); nullcRemoveModule(f); };
	auto addp = [&](const char *p){ if(std::find(m.paths.begin(), m.paths.end(), p) == m.paths.end()) m.paths.push_back(p); nullcAddImportPath(p); };
	auto remp = [&](const char *p){ auto it = std::find(m.paths.begin(), m.paths.end(), p); if(it != m.paths.end()) m.paths.erase(it); nullcRemoveImportPath(p); };
	auto runp = [&](int kind) -> S
	{
		static const char *src[] = {"import m; return mv() * 10000 + gv(1) * 100 + gm + wide(2, 3) - 6;", "import a.m; return mv() * 10000 + gv(1) * 100 + gm + wide(2, 3) - 6;", "import d; return dv();", "import a.k; return kv();"}; static const char *names[] = {"m.nc", "a/m.nc", "d.nc", "a/k.nc"};
		S key, used; bool ok = m.import(names[kind], "", key, used); S want = "fails"; bool any = false;
		if(ok)
		{
			Mod &x = m.cache[key]; if(x.kind == 0) want = fmt("OK int %d | trace: ", x.v * 10000 + (x.v + 1) * 100 + x.v + (6 + x.v) - 6);
			else
			{
				// an indirect dependency has to be loaded when the importing module is already compiled
				S at; if(!m.cached(x.dep, at)) want = "fails"; else { Mod &d = m.cache[at]; if(d.kind != 0) any = true; else want = fmt("OK int %d | trace: ", x.kind == 1 ? d.v * 10 + 3 : d.v + 7); }
			}
		}
		Outcome o = run(src[kind], {exec, 2}); S got = o.built ? o.text() : "fails"; if(!o.built && o.error.empty()) return S(names[kind]) + ": no error message";
		if(any || want == got) return ""; return fmt("import %s: expected '%s' observed '%s' (%s)", names[kind], want.c_str(), got.c_str(), o.error.c_str());
	};
	switch(op)
	{
	case ADDA: addp("a/"); break; case ADDB: addp("b/"); break; case REMA: remp("a/"); break; case REMB: remp("b/"); break; case REMLIB: { S lib = gLib; if(nullcHasImportPath(lib.c_str())) remp(lib.c_str()); else addp(lib.c_str()); break; } case CLEAR: m.paths = {""}; nullcClearImportPaths(); break;
	case WRITE_M: write("m.nc", false); break; case WRITE_AM: write("a/m.nc", false); break; case WRITE_BM: write("b/m.nc", false); break; case DELETE_M: erase("m.nc"); break; case DELETE_AM: erase("a/m.nc"); break; case BREAK_AM: write("a/m.nc", true); break;
	case LOAD_M: return load("m", "m.nc", version(m)); case LOAD_AM: return load("a.m", "a/m.nc", version(m)); case LOAD_D: { Mod x; x.kind = 1; x.text = kD; return load("d", "d.nc", x); }
	case LOAD_BAD: { S k, used; if(!m.cache.count("d.nc")) m.import("m.nc", "", k, used); return nullcLoadModuleBySource("d", kBad) ? "bad source loaded" : ""; }
	case BIN_M: return binload("m", "m.nc", 1); case BIN_N: return binload("n", "n.nc", 2); case BIN_BM: return binload("b.m", "b/m.nc", 2);
	case RM_M: rm("m.nc"); break; case RM_AM: rm("a/m.nc"); break; case RM_BM: rm("b/m.nc"); break; case RM_D: rm("d.nc"); break; case RM_K: rm("a/k.nc"); break;
	case RUN_M: return runp(0); case RUN_AM: return runp(1); case RUN_D: return runp(2); case RUN_K: return runp(3);
	case REINIT: { nullcSetFileReadHandler(nullptr, nullptr); fresh(STD_NONE, false); nullcSetFileReadHandler(loadFile, freeFile); m.cache.clear(); m.paths = {"", gLib}; nullcSetExecutor(exec); break; }
	}
	return "";
}
struct Set { const char *name; std::vector<int> ops; int depth; int inits; };
static std::vector<Set> gSets;
static const std::vector<std::vector<int>> kInit = {{}, {WRITE_AM, WRITE_BM, ADDB, ADDA}, {LOAD_AM, BIN_BM, ADDA, ADDB, REMLIB}, {WRITE_M, LOAD_D, RUN_K, WRITE_AM, ADDA}, {ADDA, BIN_M, LOAD_AM, LOAD_D}};
static std::vector<int> decode(const Set &s, u64 i, int &exec){ std::vector<int> r; exec = i & 1; i >>= 1; r = kInit[i % s.inits]; i /= s.inits; for(int k = 0; k < s.depth; k++){ r.push_back(s.ops[i % s.ops.size()]); i /= s.ops.size(); } return r; }
static S text(const Set &s, u64 i){ int ex; auto v = decode(s, i, ex); S r = ex ? "jit:" : "vm:"; for(int o : v) r += S(" [") + kOps[o] + "]"; return r; }
static void runCase(const Set &s, u64 i, mc::Ctx &c)
{
	int exec; auto ops = decode(s, i, exec); nullcSetFileReadHandler(nullptr, nullptr); fresh(STD_NONE, false); Model m; nullcSetOptimizationLevel(2);
	gBase = loadedNow(); gLib = S(repo()) + "/Modules/"; for(int v = 1; v <= 2; v++) if(binary(v).empty()){ S t = moduleText(v); char *b = nullptr; if(!nullcCompile(t.c_str())) _exit(3); unsigned n = nullcGetBytecode(&b); binary(v).assign(b, b + n); delete[] b; }
	setup(m); nullcSetExecutor(exec); gOpen = 0; c.exec();
	auto check = [&](const S &where) -> bool
	{
		std::set<S> want = gBase; for(auto &kv : m.cache) want.insert(kv.first); std::set<S> got = loadedNow();
		if(want != got){ c.fail(fmt("%s: loaded modules expected '%s' observed '%s' in %s", where.c_str(), cur(want).c_str(), cur(got).c_str(), text(s, i).c_str()), "set " + text(s, i)); return false; }
		for(S p : {S("a/"), S("b/"), S(""), gLib, S("c/"), S("a")}) if((std::find(m.paths.begin(), m.paths.end(), p) != m.paths.end()) != (nullcHasImportPath(p.c_str()) != 0)){ c.fail(fmt("%s: import path '%s' in %s", where.c_str(), p.c_str(), text(s, i).c_str()), "path " + text(s, i)); return false; }
		if(gOpen != 0){ c.fail(fmt("%s: %d file buffers not released in %s", where.c_str(), gOpen, text(s, i).c_str()), "leak " + text(s, i)); return false; }
		return true;
	};
	for(int op : ops)
	{
		S bad = perform(m, op, exec); c.step(); if(!bad.empty()){ c.fail(fmt("%s: %s in %s", kOps[op], bad.c_str(), text(s, i).c_str()), "op " + text(s, i)); return; } if(!check(kOps[op])) return;
		S st; for(auto &p : m.paths) st += p + ";"; for(auto &kv : m.cache) st += kv.first + ","; for(auto &kv : m.files) st += kv.first + fmt("=%d;", kv.second.kind); c.state(mc::hashStr(st));
	}
	for(int op : {RUN_M, RUN_AM, RUN_D, RUN_K}){ S bad = perform(m, op, exec); c.step(); if(!bad.empty()){ c.fail(fmt("final %s: %s in %s", kOps[op], bad.c_str(), text(s, i).c_str()), "final " + text(s, i)); return; } if(!check(S("final ") + kOps[op])) return; }
}
// long and unusual names: every length around the limits, nested folders
static void runNames(u64 i, mc::Ctx &c)
{
	nullcSetFileReadHandler(nullptr, nullptr); fresh(STD_NONE, false); nullcSetFileReadHandler(loadFile, freeFile); files().clear(); nullcSetExecutor(0); c.exec(); c.step();
	int len = int(i / 3), how = int(i % 3); S name; while((int)name.size() < len) name += (name.size() % 60 == 59 && (int)name.size() + 1 < len) ? '.' : char('b' + name.size() % 20); c.state(mc::hashStr(name));
	S path = name; for(auto &ch : path) if(ch == '.') ch = '/'; path += ".nc"; S text = "int lv(){ return 5; }"; bool ok = false; size_t before = loadedNow().size();
	if(how == 0) ok = nullcLoadModuleBySource(name.c_str(), text.c_str()); else if(how == 1){ char *b = nullptr; nullcCompile(text.c_str()); nullcGetBytecode(&b); ok = nullcLoadModuleByBinary(name.c_str(), b); delete[] b; } else { files()[path] = text; ok = true; }
	S src = "import " + name + "; return lv();"; Outcome o = run(src, {0, 2});
	if(len > 0 && len <= 512 && how < 2 && !ok) { c.fail(fmt("module name of length %d refused (%d)", len, how), fmt("name %d %d", len, how)); return; }
	if(!ok && loadedNow().size() != before){ c.fail(fmt("failed load of a name of length %d changed the modules", len), fmt("name %d %d", len, how)); return; }
	if(len > 0 && len <= 512 && o.text() != "OK int 5 | trace: ") c.fail(fmt("import of a name of length %d (%d): %s", len, how, o.text().c_str()), fmt("name import %d %d", len, how));
	if(len > 512 && o.built && o.text() != "OK int 5 | trace: ") c.fail(fmt("import of a name of length %d (%d): %s", len, how, o.text().c_str()), fmt("name import %d %d", len, how));
}
// two modules whose names differ but share the same 32-bit name hash
static const char *kPair[][2] = {{"az", "bY"}, {"maz", "mbY"}, {"q.az", "q.bY"}, {"azq", "bYq"}, {"az.k", "bY.k"}, {"zz", "zzz"}, {"a.b", "a.c"}};
static void runPairs(u64 i, mc::Ctx &c)
{
	auto *p = kPair[i / 8]; int how = i & 3, exec = (i >> 2) & 1; nullcSetFileReadHandler(nullptr, nullptr); fresh(STD_NONE, false); nullcSetFileReadHandler(loadFile, freeFile); files().clear(); nullcSetExecutor(exec); c.exec(); c.step(); c.state(i + 1);
	for(int k = 0; k < 2; k++)
	{
		S t = fmt("int g%d = %d; int f%d(){ return g%d + %d; }", k, k + 1, k, k, 10 * k), path = p[k]; for(auto &ch : path) if(ch == '.') ch = '/'; path += ".nc"; bool ok = true;
		if(how == 0) ok = nullcLoadModuleBySource(p[k], t.c_str()); else if(how == 1){ char *b = nullptr; nullcCompile(t.c_str()); nullcGetBytecode(&b); ok = nullcLoadModuleByBinary(p[k], b); delete[] b; } else files()[path] = t;
		if(!ok){ c.fail(fmt("module '%s' refused next to '%s': %s", p[k], p[0], firstLine(nullcGetLastError()).c_str()), fmt("pair load %s %d", p[1], how)); return; }
	}
	S src = how == 3 ? S("import ") + p[1] + "; import " + p[0] + ";" : S("import ") + p[0] + "; import " + p[1] + ";"; src += " return f0() * 100 + f1();"; Outcome o = run(src, {exec, 2});
	if(o.text() != "OK int 112 | trace: ") c.fail(fmt("modules '%s' and '%s' (%d): %s", p[0], p[1], how, o.text().c_str()), fmt("pair %s %d", p[1], how));
	nullcRemoveModule((S(p[0]) + ".nc").c_str()); Outcome q = run(S("import ") + p[1] + "; return f1();", {exec, 2}); if(!strchr(p[0], '.') && q.text() != "OK int 12 | trace: ") c.fail(fmt("'%s' after removal of '%s': %s", p[1], p[0], q.text().c_str()), fmt("pair remove %s %d", p[1], how));
}
// import paths with related spellings: prefixes, extensions, with and without the final slash
static const char *kPaths[] = {"a", "a/", "a/s/", "ab/", "b/", "a/s", ""};
static void runPathNames(int depth, u64 i, mc::Ctx &c)
{
	nullcSetFileReadHandler(nullptr, nullptr); fresh(STD_NONE, false); nullcSetFileReadHandler(loadFile, freeFile); files().clear(); nullcSetExecutor(0); c.exec();
	std::vector<S> paths = {"", S(repo()) + "/Modules/"}; S lib = paths[1], hist; for(int k = 0; k < 6; k++) files()[S(kPaths[k]) + "w.nc"] = fmt("int wv(){ return %d; }", k + 1);
	for(int d = 0; d < depth; d++)
	{
		int op = i % 13; i /= 13; c.step();
		if(op < 6){ hist += S(" [add '") + kPaths[op] + "']"; if(std::find(paths.begin(), paths.end(), kPaths[op]) == paths.end()) paths.push_back(kPaths[op]); std::string tmp = kPaths[op]; nullcAddImportPath(tmp.c_str()); tmp.assign(tmp.size(), '#'); }
		else if(op < 12){ hist += S(" [remove '") + kPaths[op - 6] + "']"; auto it = std::find(paths.begin(), paths.end(), kPaths[op - 6]); if(it != paths.end()) paths.erase(it); nullcRemoveImportPath(kPaths[op - 6]); }
		else { hist += " [clear]"; paths = {""}; nullcClearImportPaths(); }
		for(const char *p : kPaths) if((std::find(paths.begin(), paths.end(), p) != paths.end()) != (nullcHasImportPath(p) != 0)){ c.fail(fmt("import path '%s' listed: %d after%s", p, (int)nullcHasImportPath(p), hist.c_str()), "pathname" + hist); return; }
	}
	S st; for(auto &p : paths) st += p + ";"; c.state(mc::hashStr(st)); S want = "fails"; for(auto &p : paths){ auto it = files().find(p + "w.nc"); if(it != files().end()){ for(int k = 0; k < 6; k++) if(it->first == S(kPaths[k]) + "w.nc") want = fmt("OK int %d | trace: ", k + 1); break; } }
	bool base = std::find(paths.begin(), paths.end(), lib) != paths.end(); (void)base; Outcome o = run("import w; return wv();", {0, 2}); S got = o.built ? o.text() : "fails"; if(got != want) c.fail(fmt("import after%s: expected '%s' observed '%s'", hist.c_str(), want.c_str(), got.c_str()), "pathname import" + hist);
}
int main(int argc, char **argv)
{
	mc::Engine e("C14", argc, argv); bool T = e.thorough;
	e.technique = "exhaustive enumeration of module/import path operation sequences over an in-memory file system, every query compared with a model of module lookup";
	e.rule = "all sequences of 2 (thorough 3) of 29 operations and 4 (thorough 5) of 10 of them from 5 initial configurations, with both executors; module names of every length to 700";
	std::vector<int> all; for(int k = 0; k < NOPS; k++) all.push_back(k);
	gSets.push_back({"operations", all, T ? 3 : 2, 5});
	gSets.push_back({"operations from empty", all, 3, 1});
	gSets.push_back({"paths", {ADDA, ADDB, REMA, REMB, REMLIB, CLEAR, WRITE_AM, WRITE_BM, RUN_M, RM_AM}, T ? 5 : 4, 2});
	gSets.push_back({"dependencies", {WRITE_M, LOAD_M, LOAD_AM, BIN_M, RM_M, RM_AM, LOAD_D, RM_D, RUN_D, RUN_K}, T ? 5 : 4, 1});
	for(size_t k = 0; k < gSets.size(); k++){ Set &s = gSets[k]; u64 n = 2 * s.inits; for(int d = 0; d < s.depth; d++) n *= s.ops.size(); mc::Space sp; sp.name = s.name; sp.count = n; sp.chunk = 64; sp.caseTimeout = 60; sp.run = [k](u64 i, mc::Ctx &c){ runCase(gSets[k], i, c); }; sp.describe = [k](u64 i){ return text(gSets[k], i); }; e.add(sp); }
	mc::Space sp; sp.name = "names"; sp.count = 701 * 3; sp.chunk = 32; sp.caseTimeout = 30; sp.run = runNames; sp.describe = [](u64 i){ return fmt("name length %d kind %d", (int)(i / 3), (int)(i % 3)); }; e.add(sp);
	int pd = T ? 5 : 4; u64 pn = 1; for(int d = 0; d < pd; d++) pn *= 13;
	mc::Space pp; pp.name = "path names"; pp.count = pn; pp.chunk = 256; pp.caseTimeout = 30; pp.run = [pd](u64 i, mc::Ctx &c){ runPathNames(pd, i, c); }; pp.describe = [](u64 i){ return fmt("path name sequence %llu", (unsigned long long)i); }; e.add(pp);
	mc::Space pr; pr.name = "name pairs"; pr.count = 8 * 7; pr.chunk = 4; pr.caseTimeout = 30; pr.run = runPairs; pr.describe = [](u64 i){ return fmt("pair %s kind %d", kPair[i / 8][1], (int)(i % 8)); }; e.add(pr);
	return e.finish();
}
