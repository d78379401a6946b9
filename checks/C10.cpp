// C10: standard containers and algorithms against the abstract data types
#include "adt.h"
#include <list>
#include <numeric>
using namespace adt;

static std::string opChain(const std::vector<std::pair<std::string, std::string>> &ops, std::vector<std::string> &names){ std::string r; for(size_t i = 0; i < ops.size(); i++){ names.push_back(ops[i].first); r += fmt("if(o == %d){ ", (int)i) + ops[i].second + " }else "; } return r + "{}"; }
static std::deque<Adt> adts;

// ---- std.vector
struct Elem { const char *name, *type, *decl; };
static const Elem kElems[] = {
	{"int", "int", "int mk(int v){ return v; } int rd(int v){ return v; }"},
	{"char", "char", "char mk(int v){ return v; } int rd(char v){ return v; }"},
	{"box", "Box", "class Box{ char c; int a; long b; } Box mk(int v){ Box r; r.c = v; r.a = v; r.b = v * 3l; return r; } int rd(Box x){ return x.b == x.a * 3l && x.c == x.a ? x.a : -999; }"},
	{"ref", "PI", "typedef int ref PI; PI mk(int v){ int ref r = new int; *r = v; return r; } int rd(PI v){ return v ? *v : 0; }"},
	{"double", "double", "double mk(int v){ return v; } int rd(double v){ return int(v); }"},
	{"func", "FI", "typedef int ref() FI; FI mk(int v){ return auto(){ return v; }; } int rd(FI v){ return v ? v() : 0; }"},
	{"array", "AI", "typedef int[] AI; AI mk(int v){ int[] r = new int[2]; r[1] = v; return r; } int rd(AI v){ return v.size ? v[1] : 0; }"},
};
static void addVector(const Elem &E, int depth)
{
	Adt a; a.name = std::string("vector-") + E.name; a.depth = depth; a.std_ = false; bool cmp = !strcmp(E.name, "int");
	std::string q = "t(v.sum(<x>{ rd(x); })); t(v.count_if(<x>{ rd(x) > 3; })); t(v.all(<x>{ rd(x) > 1; })); t(v.any(<x>{ rd(x) == 4; })); if(v.size()){ t(v.average(<x>{ rd(x); })); t(v.min_element(<x>{ rd(x); })); t(v.max_element(<x>{ rd(x); })); " + std::string(cmp ? "t(v.min_element()); t(v.max_element()); t(v.foldl(<x, y>{ x * 2 + y; })); t(v.foldr(<x, y>{ x * 2 + y; })); " : "t(rd(v.foldl(<x, y>{ mk((rd(x) * 2 + rd(y)) & 31); })));  t(rd(v.foldr(<x, y>{ mk((rd(x) * 2 + rd(y)) & 31); }))); ") + "}";
	std::vector<std::pair<std::string, std::string>> ops = {
		{"push_back", "v.push_back(mk(nx()));"}, {"pop_back", "v.pop_back();"}, {"back", "t(rd(*v.back())); *v.back() = mk(nx());"}, {"front", "t(rd(*v.front())); *v.front() = mk(nx());"},
		{"v[0]", "t(rd(v[0]));"}, {"v[1]=", "v[1] = mk(nx());"}, {"v[2]", "t(rd(v[2]));"}, {"v[-1]", "t(rd(v[-1]));"}, {"reserve(3)", "v.reserve(3); t(v.capacity() >= 3);"}, {"reserve(7)", "v.reserve(7); t(v.capacity() >= 7);"},
		{"resize(0)", "v.resize(0);"}, {"resize(2)", "v.resize(2);"}, {"resize(5)", "v.resize(5);"}, {"clear", "v.clear();"}, {"destroy", "v.destroy(); t(v.capacity());"}, {"fill", "v.fill({mk(nx()), mk(nx()), mk(nx())});"}, {"assign", "v = {mk(nx())};"},
		{"push_back_mult", "v.push_back_mult({mk(nx()), mk(nx())});"}, {"reserve(-1)", "v.reserve(-1);"}, {"resize(-1)", "v.resize(-1);"}, {"push_back_mult(gen)", "v.push_back_mult(gen());"}, {"queries", q},
		{"sort", "v.sort(<x, y>{ rd(x) < rd(y); });"}, {"sort desc", "v.sort(<x, y>{ rd(x) > rd(y); });"}, {"map", "auto m = v.map(<x>{ rd(x) * 2; }); t(m.size()); for(i in m) t(i);"}, {"filter", "auto m = v.filter(<x>{ rd(x) & 1; }); t(m.size()); for(i in m) t(rd(i));"},
		{"slice(0,1)", "auto s = v[0, 1]; t(rd(s[0])); t(rd(s[1]));"}, {"slice(1,2)", "auto s = v[1, 2]; t(rd(s[0])); t(rd(s[1]));"}, {"slice(1,0)", "auto s = v[1, 0];"}, {"slice(1,1)[1]", "auto s = v[1, 1]; t(rd(s[1]));"}, {"fill(gen)", "v.fill(gen());"}};
	if(cmp) ops.push_back({"in", "t(4 in v); t(2 in v);"});
	std::string chain = opChain(ops, a.opNames);
	a.source = std::string("import std.vector;\n") + E.decl + "\nint cnt; int nx(){ cnt++; return (cnt * 5) % 7 + 1; }\n" +
		fmt("auto gen(){ return coroutine auto(){ yield mk(nx()); yield mk(nx()); return mk(0); }; }\n") +
		fmt("int go(){ cnt = 0; vector<%s> v; int o; while((o = op()) >= 0){ ", E.type) + chain + " t(v.size()); t(v.capacity() >= v.size()); for(i in v) t(rd(i)); for(int k = 0; k < v.size(); k++) t(rd(v[k])); } return 1; }\nreturn 1;";
	a.model = [cmp](const std::vector<int> &ops, Out &o)
	{
		std::vector<int> v; int cnt = 0; auto nx = [&]{ cnt++; return (cnt * 5) % 7 + 1; };
		#define ERR { o.err = true; return; }
		#define NEED(n) if(v.size() < (n)) ERR
		for(int op : ops)
		{
			switch(op)
			{
			case 0: v.push_back(nx()); break;
			case 1: NEED(1) v.pop_back(); break;
			case 2: NEED(1) o.t(v.back()); v.back() = nx(); break;
			case 3: NEED(1) o.t(v[0]); v[0] = nx(); break;
			case 4: NEED(1) o.t(v[0]); break;
			case 5: { NEED(2) v[1] = nx(); break; }
			case 6: NEED(3) o.t(v[2]); break;
			case 7: ERR
			case 8: case 9: o.t(1); break;
			case 10: v.resize(0); break;
			case 11: v.resize(2); break;
			case 12: v.resize(5); break;
			case 13: v.clear(); break;
			case 14: v.clear(); o.t(0); break;
			case 15: { v.clear(); for(int k = 0; k < 3; k++) v.push_back(nx()); break; }
			case 16: v.clear(); v.push_back(nx()); break;
			case 17: for(int k = 0; k < 2; k++) v.push_back(nx()); break;
			case 18: case 19: ERR
			case 20: for(int k = 0; k < 2; k++) v.push_back(nx()); break;
			case 21:
			{
				int s = std::accumulate(v.begin(), v.end(), 0), n = v.size(); o.t(s); o.t(std::count_if(v.begin(), v.end(), [](int x){ return x > 3; })); o.t(n && std::all_of(v.begin(), v.end(), [](int x){ return x > 1; })); o.t(std::any_of(v.begin(), v.end(), [](int x){ return x == 4; }));
				if(n)
				{
					o.t(s / n); for(int r = 0; r < (cmp ? 2 : 1); r++){ o.t(*std::min_element(v.begin(), v.end())); o.t(*std::max_element(v.begin(), v.end())); }
					int l = v[0], r = v[n - 1]; for(int k = 1; k < n; k++){ l = l * 2 + v[k]; if(!cmp) l &= 31; } for(int k = n - 2; k >= 0; k--){ r = r * 2 + v[k]; if(!cmp) r &= 31; } o.t(l); o.t(r);
				}
				break;
			}
			case 22: NEED(0) std::sort(v.begin(), v.end()); break;
			case 23: std::sort(v.rbegin(), v.rend()); break;
			case 24: o.t(v.size()); for(int x : v) o.t(x * 2); break;
			case 25: { int n = 0; for(int x : v) n += x & 1; o.t(n); for(int x : v) if(x & 1) o.t(x); break; }
			case 26: NEED(1) o.t(v[0]); NEED(2) o.t(v[1]); break;
			case 27: NEED(2) o.t(v[1]); NEED(3) o.t(v[2]); break;
			case 28: ERR
			case 29: ERR
			case 30: v.clear(); for(int k = 0; k < 2; k++) v.push_back(nx()); break;
			case 31: o.t(std::count(v.begin(), v.end(), 4) > 0); o.t(std::count(v.begin(), v.end(), 2) > 0); break;
			}
			o.t(v.size()); o.t(1); for(int r = 0; r < 2; r++) for(int x : v) o.t(x);
		}
	};
	adts.push_back(a);
}
// ---- std.list
static void addList(const Elem &E, int depth)
{
	Adt a; a.name = std::string("list-") + E.name; a.depth = depth; a.std_ = false; bool cmp = !strcmp(E.name, "int") || !strcmp(E.name, "char") || !strcmp(E.name, "double");
	std::string q = "t(l.sum(<x>{ rd(x); })); t(l.count_if(<x>{ rd(x) > 1; })); t(l.all(<x>{ rd(x) > 1; })); t(l.any(<x>{ rd(x) == 2; })); if(!l.empty()){ t(l.average(<x>{ rd(x); })); t(l.min_element(<x>{ rd(x); })); t(l.max_element(<x>{ rd(x); })); " + std::string(cmp ? "t(l.min_element()); t(l.max_element()); " : "") + "}";
	std::vector<std::pair<std::string, std::string>> ops = {
		{"push_back", "l.push_back(mk(nx()));"}, {"push_front", "l.push_front(mk(nx()));"}, {"pop_back", "if(it && it == l.end()) it = nullptr; l.pop_back();"}, {"pop_front", "if(it && it == l.begin()) it = nullptr; l.pop_front();"},
		{"it=begin", "it = l.begin();"}, {"it=end", "it = l.end();"}, {"it=next", "if(it) it = it.next;"}, {"it=prev", "if(it) it = it.prev;"},
		{"insert(it)", "if(it) l.insert(it, mk(nx()));"}, {"erase(it)", "if(it) l.erase(it); it = nullptr;"}, {"clear", "l.clear(); it = nullptr;"}, {"back", "t(rd(*l.back())); *l.back() = mk(nx());"}, {"front", "t(rd(*l.front())); *l.front() = mk(nx());"},
		{"it.value", std::string("if(it){ t(rd(it.value)); it.") + (strcmp(E.name, "ref") ? "value" : "elem") + " = mk(nx()); }"}, {"insert foreign", "l.insert(other.begin(), mk(9));"}, {"erase foreign", "l.erase(other.end());"}, {"queries", q}};
	if(cmp){ ops.push_back({"it=find(2)", "it = l.find(2);"}); ops.push_back({"in", "t(2 in l); t(3 in l);"}); }
	std::string chain = opChain(ops, a.opNames);
	a.source = std::string("import std.list;\n") + E.decl + "\nint cnt; int nx(){ cnt++; return (cnt * 2) % 3 + 1; }\n" +
		fmt("int go(){ cnt = 0; list<%s> l, other; other.push_back(mk(1)); other.push_back(mk(2)); auto it = l.begin(); int o; while((o = op()) >= 0){ ", E.type) + chain +
		" t(l.empty()); for(i in l) t(rd(i)); for(auto k = l.end(); k; k = k.prev) t(rd(k.value)); for(auto k = l.begin(); k; k = k.next) t(rd(k.elem)); int n = 0; for(i in other) n = n * 10 + rd(i); t(n); if(it) t(rd(it.value)); } return 1; }\nreturn 1;";
	a.model = [cmp](const std::vector<int> &ops, Out &o)
	{
		std::list<int> l; int cnt = 0; auto nx = [&]{ cnt++; return (cnt * 2) % 3 + 1; }; auto it = l.end(); // end(): null
		for(int op : ops)
		{
			switch(op)
			{
			case 0: l.push_back(nx()); break;
			case 1: l.push_front(nx()); break;
			case 2: if(l.empty()) ERR if(it != l.end() && std::next(it) == l.end()) it = l.end(); l.pop_back(); break;
			case 3: if(l.empty()) ERR if(it == l.begin()) it = l.end(); l.pop_front(); break;
			case 4: it = l.begin(); break;
			case 5: it = l.empty() ? l.end() : std::prev(l.end()); break;
			case 6: if(it != l.end()) ++it; break;
			case 7: if(it != l.end()) it = it == l.begin() ? l.end() : std::prev(it); break;
			case 8: if(it != l.end()) l.insert(std::next(it), nx()); break;
			case 9: if(it != l.end()) l.erase(it); it = l.end(); break;
			case 10: l.clear(); it = l.end(); break;
			case 11: if(l.empty()) ERR o.t(l.back()); l.back() = nx(); break;
			case 12: if(l.empty()) ERR o.t(l.front()); l.front() = nx(); break;
			case 13: if(it != l.end()){ o.t(*it); *it = nx(); } break;
			case 14: case 15: ERR
			case 16:
			{
				int s = std::accumulate(l.begin(), l.end(), 0); o.t(s); o.t(std::count_if(l.begin(), l.end(), [](int x){ return x > 1; })); o.t(!l.empty() && std::all_of(l.begin(), l.end(), [](int x){ return x > 1; })); o.t(std::any_of(l.begin(), l.end(), [](int x){ return x == 2; }));
				if(!l.empty()){ o.t(s / (int)l.size()); for(int r = 0; r < (cmp ? 2 : 1); r++){ o.t(*std::min_element(l.begin(), l.end())); o.t(*std::max_element(l.begin(), l.end())); } }
				break;
			}
			case 17: it = std::find(l.begin(), l.end(), 2); break;
			case 18: o.t(std::count(l.begin(), l.end(), 2) > 0); o.t(std::count(l.begin(), l.end(), 3) > 0); break;
			}
			o.t(l.empty()); for(int x : l) o.t(x); for(auto k = l.rbegin(); k != l.rend(); ++k) o.t(*k); for(int x : l) o.t(x); o.t(12); if(it != l.end()) o.t(*it);
		}
	};
	adts.push_back(a);
}
// ---- std.hashmap
struct Keys { const char *name, *type, *decl, *key[4], *make; };
static const Keys kKeys[] = {
	{"int", "int", "int hash_value(int k){ return k; }", {"1", "2", "1025", "-1"}, "h = hashmap<int, int>();"},
	{"collide", "int", "int hash_value(int k){ return k; } int low(int k){ return k & 1; }", {"1", "2", "3", "5"}, "h = hashmap<int, int>(low);"},
	{"bucket", "int", "int hash_value(int k){ return k << 10; }", {"1", "2", "3", "0"}, "h = hashmap<int, int>();"},
	{"string", "char[]", "", {"\"ab\"", "\"bA\"", "\"\"", "buf(98)"}, "h = hashmap<char[], int>();"},
	{"long", "long", "int hash_value(long k){ return int(k); }", {"1l", "1l << 32", "(1l << 32) + 1", "0l"}, "h = hashmap<long, int>();"},
	{"class", "P", "class P{ int x, y; } bool operator==(P ref a, P ref b){ return a.x == b.x && a.y == b.y; } P p(int x, y){ P r; r.x = x; r.y = y; return r; } int hash_value(P k){ return k.x; }", {"p(1, 2)", "p(1, 3)", "p(2, 2)", "p(0, 0)"}, "h = hashmap<P, int>();"},
};
static void addMap(const Keys &K, int depth)
{
	Adt a; a.name = std::string("hashmap-") + K.name; a.depth = depth; a.std_ = false; std::vector<std::pair<std::string, std::string>> ops; std::string dump;
	for(int k = 0; k < 4; k++)
	{
		std::string key = K.key[k];
		ops.push_back({"m[" + key + "]=", "h[" + key + "] = nx();"}); ops.push_back({"m[" + key + "]+=", "h[" + key + "] += nx();"}); ops.push_back({"remove(" + key + ")", "h.remove(" + key + ");"}); ops.push_back({"read(" + key + ")", "t(h[" + key + "]);"});
		dump += "{ auto x = h.find(" + key + "); if(x) t(*x); else t(-7); } ";
	}
	ops.push_back({"clear", "h.clear();"}); ops.push_back({"find=", std::string("{ auto x = h.find(") + K.key[1] + "); if(x) *x = nx(); }"});
	std::string chain = opChain(ops, a.opNames);
	a.source = std::string("import std.hashmap;\n") + K.decl + "\nchar[3] shared; char[] buf(int c){ shared[0] = 'a'; shared[1] = c; char[] r = shared; return r; } void spoil(){ shared[0] = 'z'; }\nint cnt; int nx(){ cnt++; return cnt * 10; }\n" +
		fmt("hashmap<%s, int> h; int go(){ cnt = 0; ", K.type) + K.make + " int o; while((o = op()) >= 0){ " + chain + " spoil(); " + dump + "} return 1; }\nreturn 1;";
	a.model = [](const std::vector<int> &ops, Out &o)
	{
		int val[4] = {}; bool has[4] = {}; int cnt = 0; auto nx = [&]{ cnt++; return cnt * 10; }; int alias[4] = {0, 1, 2, 3};
		for(int op : ops)
		{
			if(op == 16){ for(bool &b : has) b = false; }
			else if(op == 17){ if(has[1]) val[1] = nx(); }
			else
			{
				int k = alias[op / 4];
				switch(op % 4)
				{
				case 0: has[k] = true; val[k] = nx(); break;
				case 1: if(!has[k]){ has[k] = true; val[k] = 0; } val[k] += nx(); break;
				case 2: if(!has[k]) ERR has[k] = false; break;
				case 3: if(!has[k]){ has[k] = true; val[k] = 0; } o.t(val[k]); break;
				}
			}
			for(int k = 0; k < 4; k++) o.t(has[k] ? val[k] : -7);
		}
	};
	if(!strcmp(K.name, "string")) a.model = [m = a.model](const std::vector<int> &ops, Out &o)
	{
		// keys "ab" and the buffer holding "ab" are the same key
		std::vector<int> v = ops; for(int &x : v) if(x / 4 == 3 && x < 16) x -= 12;
		Out q; m(v, q); o.err = q.err; // same observations, except that the fourth key shows the first
		int val[4]; (void)val; std::string r; std::vector<std::string> tok; std::string cur; for(char ch : q.s){ if(ch == ' '){ tok.push_back(cur); cur.clear(); } else cur += ch; }
		size_t p = 0; std::vector<int> has(4); for(size_t k = 0; k < v.size(); k++){ if(o.err && k + 1 == v.size() && p >= tok.size()) break; if(v[k] < 16 && v[k] % 4 == 3){ if(p < tok.size()) r += tok[p++] + " "; } if(p + 4 > tok.size()) break; r += tok[p] + " " + tok[p + 1] + " " + tok[p + 2] + " " + tok[p] + " "; p += 4; }
		o.s = r;
	};
	adts.push_back(a);
}
// ---- std.event
static void addEvent(int depth)
{
	Adt a; a.name = "event"; a.depth = depth; a.std_ = false; std::vector<std::pair<std::string, std::string>> ops; const char *H[] = {"glob", "c0", "c1", "m0.call", "m1.call", "self"};
	for(int k = 0; k < 6; k++){ ops.push_back({std::string("attach ") + H[k], std::string(k & 1 ? "e += " : "e.attach(") + H[k] + (k & 1 ? ";" : ");")}); ops.push_back({std::string("detach ") + H[k], std::string(k & 1 ? "e.detach(" : "e -= ") + H[k] + (k & 1 ? ");" : ";")}); }
	ops.push_back({"detach_all", "e.detach_all();"}); ops.push_back({"call", "e(3);"});
	std::string chain = opChain(ops, a.opNames);
	a.source = "import std.list; import std.event;\nvoid glob(int x){ t(100 + x); }\nclass M{ int id; void call(int x){ t(id + x); } }\nauto mkc(int id){ return auto(int x){ t(id + x); }; }\n"
		"event<void ref(int)> e; void ref(int) self; void selfFn(int x){ t(600 + x); e.detach(self); }\n"
		"int go(){ e.detach_all(); self = selfFn; auto c0 = mkc(200), c1 = mkc(300); M m0, m1; m0.id = 400; m1.id = 500; int o; while((o = op()) >= 0){ " + chain + " t(bool(e)); e(1); } return 1; }\nreturn 1;";
	a.model = [](const std::vector<int> &ops, Out &o)
	{
		std::vector<int> h; auto call = [&](int x){ std::vector<int> c = h; for(int k : c){ o.t((k + 1) * 100 + x); if(k == 5) h.erase(std::find(h.begin(), h.end(), 5)); } };
		for(int op : ops)
		{
			if(op == 12) h.clear(); else if(op == 13) call(3);
			else if(op & 1){ auto p = std::find(h.begin(), h.end(), op / 2); if(p != h.end()) h.erase(p); }
			else if(!std::count(h.begin(), h.end(), op / 2)) h.push_back(op / 2);
			o.t(!h.empty()); call(1);
		}
	};
	adts.push_back(a);
}
// ---- old.vector and old.list
static void addOldVector(const char *type, const char *name, const char *decl, int depth)
{
	Adt a; a.name = std::string("old-vector-") + name; a.depth = depth; a.std_ = true; std::string T = type;
	std::vector<std::pair<std::string, std::string>> ops = {{"push_back", "v.push_back(el(nx()));"}, {"pop_back", "v.pop_back();"}, {"front", "t(rd(v.front()));"}, {"back", "t(rd(v.back()));"}, {"v[0]", "t(rd(v[0]));"}, {"v[1]=", "st(v[1], nx());"}, {"v[2]", "t(rd(v[2]));"}, {"v[-1]", "t(rd(v[-1]));"},
		{"reserve(3)", "v.reserve(3); t(v.capacity() >= 3);"}, {"reserve(40)", "v.reserve(40); t(v.capacity() >= 40);"}, {"resize(1)", "if(v.size() >= 1) v.resize(1);"}, {"clear", "v.clear();"}, {"destroy", "v.destroy(); t(v.capacity());"}, {"push 33", "for(int k = 0; k < 33; k++) v.push_back(el(nx()));"}, {"push other type", "v.push_back(1.5f);"}};
	std::string chain = opChain(ops, a.opNames);
	a.source = "import old.vector;\n" + std::string(decl) + "\nint cnt; int nx(){ cnt++; return (cnt * 5) % 97; }\nint go(){ cnt = 0; vector v = vector(" + T + "); int o; while((o = op()) >= 0){ " + chain + " t(v.size()); t(v.capacity() >= v.size()); for(i in v) t(rd(i)); for(int k = 0; k < v.size(); k++) t(rd(v[k])); } return 1; }\nreturn 1;";
	a.model = [](const std::vector<int> &ops, Out &o)
	{
		std::vector<int> v; int cnt = 0; auto nx = [&]{ cnt++; return (cnt * 5) % 97; };
		for(int op : ops)
		{
			switch(op)
			{
			case 0: v.push_back(nx()); break;
			case 1: NEED(1) v.pop_back(); break;
			case 2: NEED(1) o.t(v[0]); break;
			case 3: NEED(1) o.t(v.back()); break;
			case 4: NEED(1) o.t(v[0]); break;
			case 5: NEED(2) v[1] = nx(); break;
			case 6: NEED(3) o.t(v[2]); break;
			case 7: ERR
			case 8: case 9: o.t(1); break;
			case 10: if(v.size()) v.resize(1); break;
			case 11: v.clear(); break;
			case 12: v.clear(); o.t(0); break;
			case 13: for(int k = 0; k < 33; k++) v.push_back(nx()); break;
			case 14: ERR
			}
			o.t(v.size()); o.t(1); for(int r = 0; r < 2; r++) for(int x : v) o.t(x);
		}
	};
	adts.push_back(a);
}
static void addOldList(const char *ctor, const char *name, const char *decl, int depth)
{
	Adt a; a.name = std::string("old-list-") + name; a.depth = depth; a.std_ = true; bool any = !strcmp(name, "any");
	std::vector<std::pair<std::string, std::string>> ops = {
		{"push_back", "l.push_back(el(nx()));"}, {"push_front", "l.push_front(el(nx()));"}, {"it=last.prev", "it = l.end(); if(it) it = it.prev;"}, {"erase(last)", "if(l.end()){ if(it == l.end()) it = nullptr; l.erase(l.end()); }"},
		{"it=begin", "it = l.begin();"}, {"it=end", "it = l.end();"}, {"it=next", "if(it) it = it.next;"}, {"it=prev", "if(it) it = it.prev;"},
		{"insert(it)", "if(it) l.insert(it, el(nx()));"}, {"erase(it)", "if(it) l.erase(it); it = nullptr;"}, {"clear", "l.clear(); it = nullptr;"}, {"back", "t(rd(l.back()));"}, {"front", "t(rd(l.front()));"},
		{"it.value", "if(it){ t(rd(it.value)); it.value = el(nx()); }"}, {"insert foreign", "l.insert(other.begin(), el(9));"}, {"erase foreign", "l.erase(other.end());"}, {"push other type", "l.push_back(1.5f);"}, {"push_front other type", "l.push_front(1.5f);"}};
	std::string chain = opChain(ops, a.opNames);
	a.source = std::string("import old.list;\n") + decl + "\nint cnt; int nx(){ cnt++; return (cnt * 2) % 3 + 1; }\nlist l, other;\n" +
		"int go(){ cnt = 0; l = list(" + ctor + "); other = list(" + ctor + "); other.push_back(el(1)); other.push_back(el(2)); auto it = l.begin(); int o; while((o = op()) >= 0){ " + chain +
		" t(l.empty()); for(i in l) t(rd(i)); for(auto k = l.end(); k; k = k.prev) t(rd(k.value)); int n = 0; for(i in other) n = n * 10 + rd(i); t(n); if(it) t(rd(it.value)); } return 1; }\nreturn 1;";
	a.model = [any](const std::vector<int> &ops, Out &o)
	{
		std::list<int> l; int cnt = 0; auto nx = [&]{ cnt++; return (cnt * 2) % 3 + 1; }; auto it = l.end();
		for(int op : ops)
		{
			switch(op)
			{
			case 0: l.push_back(nx()); break;
			case 1: l.push_front(nx()); break;
			case 2: it = l.size() < 2 ? l.end() : std::prev(std::prev(l.end())); break;
			case 3: if(!l.empty()){ if(it != l.end() && std::next(it) == l.end()) it = l.end(); l.pop_back(); } break;
			case 4: it = l.begin(); break;
			case 5: it = l.empty() ? l.end() : std::prev(l.end()); break;
			case 6: if(it != l.end()) ++it; break;
			case 7: if(it != l.end()) it = it == l.begin() ? l.end() : std::prev(it); break;
			case 8: if(it != l.end()) l.insert(std::next(it), nx()); break;
			case 9: if(it != l.end()) l.erase(it); it = l.end(); break;
			case 10: l.clear(); it = l.end(); break;
			case 11: if(l.empty()) ERR o.t(l.back()); break;
			case 12: if(l.empty()) ERR o.t(l.front()); break;
			case 13: if(it != l.end()){ o.t(*it); *it = nx(); } break;
			case 14: case 15: ERR
			case 16: if(!any) ERR l.push_back(-5); break;
			case 17: if(!any) ERR l.push_front(-5); break;
			}
			o.t(l.empty()); for(int x : l) o.t(x); for(auto k = l.rbegin(); k != l.rend(); ++k) o.t(*k); o.t(12); if(it != l.end()) o.t(*it);
		}
	};
	adts.push_back(a);
}

// ---- sorting: every small array; every periodic large array; the building blocks on every small array
static std::vector<int> gArr;
static int t_len(){ return gArr.size(); }
static int t_get(int i){ return gArr[i]; }
static const char *kSortSrc = "import mc; import mcarr; import std.algorithm; import std.vector;\nint[] load(){ int[] a = new int[alen()]; for(int i = 0; i < a.size; i++) a[i] = aget(i); return a; }\nvoid dump(int[] a){ for(i in a) t(i); }\n"
	"class K{ int k, id; } bool equal(K ref a, K ref b){ return a.k == b.k; }\n"
	"int lt(int ref x, y){ return *x < *y; }\nint sorts(){ auto a = load(); sort(a, <int x, int y>{ x < y; }); dump(a); auto b = load(); sort(b, <int x, int y>{ x > y; }); dump(b); return 1; }\n"
	"int sortv(){ vector<K> v; for(int i = 0; i < alen(); i++){ K k; k.k = aget(i); k.id = i; v.push_back(k); } v.sort(<x, y>{ x.k < y.k; }); int seen = 0; long ids; for(i in v){ t(i.k); ids += i.id; if(aget(i.id) == i.k) seen++; } t(seen); tl(ids); return 1; }\n"
	"int part(){ for(int m = 0; m < alen(); m++){ auto a = load(); int x, y; partition(a, 0, m, a.size, lt, &x, &y); int p = a[x]; int bad = x >= y; for(int i = 0; i < a.size; i++) bad += i < x ? a[i] >= p : i < y ? a[i] != p : a[i] <= p; int[4] c; for(i in a) c[i & 3]++; for(int i = 0; i < alen(); i++) c[aget(i) & 3]--; t(bad); t(c[0] | c[1] | c[2] | c[3]); } return 1; }\n"
	"int med(){ auto a = load(); if(a.size >= 3) for(int f = 0; f < a.size; f++) for(int m = f + 1; m < a.size; m++) for(int l = m + 1; l < a.size; l++){ a = load(); median3(a, f, m, l, lt); t(a[f] <= a[m] && a[m] <= a[l]); int s = 0; for(i in a) s += i; t(s); } return 1; }\n"
	"int ins(){ int n = alen(); for(int b = 0; b < n; b++) for(int e = b + 1; e <= n; e++){ auto a = load(); insertion_sort(a, b, e, lt); dump(a); } return 1; }\n"
	"int fun(){ auto a = load(); auto m = map(a, <x>{ *x * 3; }); dump(m); auto f = filter(a, <int x>{ x & 1; }); t(f.size); for(int i = 0; i < f.size; i++) t(int(f[i])); if(a.size){ t(foldl(a, <x, y>{ x * 3 + y; })); t(foldr(a, <x, y>{ x * 3 + y; })); } return 1; }\nreturn 1;";
static int gExec;
struct SortSpace { std::string name; int base, len; std::vector<int> sizes; bool parts; };
static std::vector<int> sortArr(const SortSpace &s, u64 i, int n){ std::vector<int> w; for(int k = 0; k < s.len; k++){ w.push_back(i % s.base); i /= s.base; } std::vector<int> r; for(int k = 0; k < n; k++) r.push_back(w[k % s.len]); return r; }
static void sortCall(const char *f, const std::string &want, mc::Ctx &c)
{
	trace().clear(); c.exec(); c.step(gArr.size()); c.state(mc::hashStr(want));
	bool ok = nullcRunFunction(f) != 0; std::string a; for(int v : gArr) a += fmt("%d,", v);
	if(!ok || trace() != want) c.fail(fmt("%s of {%s}: %s observed '%s' expected '%s'", f, a.c_str(), ok ? "" : nullcGetLastError(), trace().c_str(), want.c_str()), fmt("%s %s", f, a.c_str()));
}
static void runSort(const SortSpace &s, u64 i, mc::Ctx &c)
{
	for(int n : s.sizes)
	{
		gArr = sortArr(s, i, n); std::vector<int> a = gArr; auto str = [](const std::vector<int> &v){ std::string r; for(int x : v) r += fmt("%d ", x); return r; };
		std::sort(a.begin(), a.end()); std::string up = str(a); std::reverse(a.begin(), a.end());
		sortCall("sorts", up + str(a), c); sortCall("sortv", up + fmt("%d %dL ", n, n * (n - 1) / 2), c);
		if(!s.parts) continue;
		std::string w; for(int m = 0; m < n; m++) w += "0 0 "; sortCall("part", w, c);
		w = ""; int sum = std::accumulate(gArr.begin(), gArr.end(), 0); for(int f = 0; f < n; f++) for(int m = f + 1; m < n; m++) for(int l = m + 1; l < n; l++) w += fmt("1 %d ", sum); sortCall("med", w, c);
		w = ""; for(int b = 0; b < n; b++) for(int e = b + 1; e <= n; e++){ a = gArr; std::sort(a.begin() + b, a.begin() + e); w += str(a); } sortCall("ins", w, c);
		w = ""; for(int x : gArr) w += fmt("%d ", x * 3); int odd = 0; std::string os; for(int x : gArr) if(x & 1){ odd++; os += fmt("%d ", x); } w += fmt("%d ", odd) + os; if(n){ int l = gArr[0], r = gArr[n - 1]; for(int k = 1; k < n; k++) l = l * 3 + gArr[k]; for(int k = n - 2; k >= 0; k--) r = r * 3 + gArr[k]; w += fmt("%d %d ", l, r); } sortCall("fun", w, c);
	}
}
// ---- range, bind, event argument counts: complete enumeration of small parameters
static std::string rangeSource(){ return "import mc; import std.range; int go(int a, b, s){ for(i in range(a, b, s)) t(i); t(-99); for(i in range(a, b)) for(j in range(i, b, s)) t(i * 10 + j); auto l = { for(i in range(a, b, s)) yield i * 2; }; t(l.size); for(i in l) t(i); return 1; }\nreturn 1;"; }
static void runRange(u64 i, mc::Ctx &c)
{
	int a = (int)(i % 9) - 3, b = (int)(i / 9 % 9) - 3, s = (int)(i / 81) + 1; std::string w; trace().clear(); int n = 0;
	for(int k = a; k <= b; k += s) w += fmt("%d ", k), n++; w += "-99 "; for(int k = a; k <= b; k++) for(int j = k; j <= b; j += s) w += fmt("%d ", k * 10 + j);
	w += fmt("%d ", n); for(int k = a; k <= b; k += s) w += fmt("%d ", k * 2);
	for(int ex = 0; ex < 2; ex++){ Outcome o = run(rangeSource(), {ex, 2}); trace().clear(); c.exec(); c.step(n); bool ok = o.ran && nullcRunFunction("go", a, b, s); c.state(mc::hashStr(w)); if(!ok || trace() != w) c.fail(fmt("range(%d, %d, %d): observed '%s' expected '%s' %s", a, b, s, trace().c_str(), w.c_str(), ok ? "" : nullcGetLastError())); }
}
static std::string arityName(u64 i){ return i < 16 ? fmt("bind_first of %d arguments", (int)i / 2 + 1) : fmt("event with %d arguments", (int)i - 16); }
static std::string aritySource(u64 i, std::string &want)
{
	std::string args, vals, body; int n;
	if(i < 16)
	{
		bool last = i & 1; n = i / 2 + 1; const char *ty[] = {"int", "double", "char", "long", "int", "float", "short", "long"}, *va[] = {"7", "2.5", "'c'", "(3l << 33)", "-4", "0.25f", "short(30000)", "-5l"}, *out[] = {"7d ", "2.5d ", "99d ", "25769803776d ", "-4d ", "0.25d ", "30000d ", "-5d "};
		for(int k = 0; k < n; k++){ args += fmt("%s%s a%d", k ? ", " : "", ty[k], k); body += fmt("td(a%d); ", k); want += out[k]; }
		int b = last ? n - 1 : 0; for(int k = 0; k < n; k++) if(k != b) vals += (vals.empty() ? "" : ", ") + std::string(va[k]);
		std::string s = "import mc; import std.algorithm; double f(" + args + "){ " + body + fmt("return a0 * 2; }\n%s v = %s; auto g = %s(f, v); td(g(", ty[b], va[b], last ? "bind_last" : "bind_first") + vals + ")); td(g(" + vals + ")); return 1;";
		want += "14d "; want += want; return s;
	}
	n = (int)i - 16; std::string types;
	for(int k = 0; k < n; k++){ args += fmt("%sint a%d", k ? ", " : "", k); types += k ? ", int" : "int"; vals += fmt("%s%d", k ? ", " : "", k + 5); body += fmt("t(a%d); ", k); want += fmt("%d ", k + 5); }
	want = want + want; return "import mc; import std.list; import std.event; event<void ref(" + types + ")> e; e += auto(" + args + "){ " + body + "}; e += auto(" + args + "){ " + body + "}; e(" + vals + "); return 1;";
}
static void runArity(u64 i, mc::Ctx &c)
{
	std::string want, src = aritySource(i, want);
	for(int ex = 0; ex < 2; ex++) for(int o = 0; o < 3; o++){ Outcome r = run(src, {ex, o}); c.exec(); c.step(); c.state(mc::hashStr(r.trace)); if(!r.ran || r.trace != want) c.fail(arityName(i) + ": " + r.text() + " expected " + want + "\n" + src, arityName(i)); }
}
int main(int argc, char **argv)
{
	mc::Engine e("C10", argc, argv); bool T = e.thorough;
	e.technique = "bounded exhaustive enumeration of operation sequences on the containers, checked step by step against abstract data types";
	e.rule = "every sequence of the container's operations up to the stated depth (vector: 31, list: 17-19, hashmap: 18, event: 14, old containers: 15-18 operations); after every operation the whole content is read in every direction and compared with the abstract value; sorting of every array over 3 values up to length 6 and of every periodic array over words of up to 6 letters at the length boundaries";
	for(size_t k = 0; k < sizeof(kElems) / sizeof(*kElems); k++){ addVector(kElems[k], k == 0 ? (T ? 5 : 4) : T ? 4 : 3); }
	for(size_t k = 0; k < sizeof(kElems) / sizeof(*kElems); k++){ addList(kElems[k], k == 0 ? (T ? 6 : 5) : T ? 5 : 4); }
	for(auto &k : kKeys) addMap(k, T ? 5 : 4);
	addEvent(T ? 6 : 5);
	addOldVector("int", "int", "int el(int v){ return v; } int rd(auto ref v){ return int(v); } void st(auto ref p, int v){ int ref q = p; *q = v; }", T ? 5 : 4);
	addOldVector("Box", "box", "class Box{ char c; int a; long b; } Box el(int v){ Box r; r.c = v; r.a = v; r.b = v * 3l; return r; } int rd(auto ref v){ Box x = Box(v); return x.b == x.a * 3l && x.c == x.a ? x.a : -999; } void st(auto ref p, int v){ Box ref q = p; *q = el(v); }", T ? 4 : 3);
	addOldList("int", "int", "int el(int v){ return v; } int rd(auto ref v){ return int(v); }", T ? 5 : 4);
	addOldList("", "any", "int el(int v){ return v; } int rd(auto ref v){ if(typeid(v) == float) return -5; return int(v); }", T ? 5 : 4);
	for(auto &a : adts) for(int ex = 1; ex >= 0; ex--){ mc::Space s = space(&a, ex); e.add(s); }
	static std::vector<SortSpace> ss; ss.push_back({"small", 3, 6, {0, 1, 2, 3, 4, 5, 6}, true}); ss.push_back({"periodic", 3, T ? 7 : 5, {31, 32, 33, 34, 40, 41, 42, 43, 65}, false}); ss.push_back({"periodic-4", 4, T ? 6 : 4, {33, 50, 100}, false});
	for(auto &p : ss) for(int ex = 1; ex >= 0; ex--)
	{
		mc::Space s; s.name = "sort-" + p.name + (ex ? "-jit" : "-vm"); s.count = 1; for(int k = 0; k < p.len; k++) s.count *= p.base; s.chunk = 16; s.caseTimeout = 60;
		s.begin = [ex](mc::Ctx &c){ fresh(); if(!nullcLoadModuleBySource("mcarr", "int alen(); int aget(int i);")) _exit(3); nullcBindModuleFunction("mcarr", (void(*)())t_len, "alen", 0); nullcBindModuleFunction("mcarr", (void(*)())t_get, "aget", 0); Outcome o = run(kSortSrc, {ex, 2}); if(!o.ran) c.fail(o.fullError); };
		s.run = [&p](u64 i, mc::Ctx &c){ runSort(p, i, c); }; s.describe = [&p](u64 i){ std::string r; for(int x : sortArr(p, i, p.len)) r += fmt("%d ", x); return std::string(kSortSrc) + "\n// " + r; }; e.add(s);
	}
	mc::Space s; s.name = "range"; s.count = 9 * 9 * 4; s.chunk = 16; s.begin = [](mc::Ctx&){ fresh(); }; s.run = runRange; s.describe = [](u64 i){ return rangeSource() + fmt(" // %d", (int)i); }; e.add(s);
	s.name = "arity"; s.count = 16 + 17; s.chunk = 1; s.run = runArity; s.describe = [](u64 i){ std::string w; return aritySource(i, w); }; e.add(s);
	return e.finish();
}
