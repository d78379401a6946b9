// additional program spaces of C02 and C03 (the includer defines runGen): register pressure, signatures
struct Gen { std::function<std::string(u64)> fn; };	// text of function f(int a) number i
static const char *kExtraHead = "import mc;\nlong[24] RL; double[24] RD; void reset(){ for(int i = 0; i < 24; i++) RL[i] = 0; for(int j = 0; j < 24; j++) RD[j] = 0; }\nint G; int[] GA = new int[8]; class V1{ int x; } class V2{ int x; int y; } class V3{ int x; long y; double z; } class F1{ float x; float y; } class C3{ char a; char b; char c; } class Big{ int[17] q; } class E0{}\nint scall(int x){ G += x; return x + 1; } double dcall(double x){ G++; return x * 1.5; } long lcall(long x){ return x * 3 + G; } int add7(int x){ return x + 7; } coroutine int cor(int x){ yield x + 1; return x + 2; }\n";

// ---- register pressure
static const char *const kPT[] = {"int", "long", "double", "float"};
static const char *const kMid[] = {"", "G = scall(a);", "G = te(1, a);", "for(int i = 0; i < 3; i++) G += GA[i & 7] + i;", "if(a) G = scall(3); else GA[a] = 5;", "double dd = hided(1.5) + dcall(2.5); RD[3] = dd;", "long ll = hidel(5) * lcall(a); RL[5] = ll / 3 + ll % 7 + (ll << 2);", "V3 v; v.x = a; v.y = 4; v.z = 0.25; V3 w = v; w.x++; RL[6] = w.x + v.x;", "RL[7] = cor(a) + cor(a);"};
static const int kMidN = sizeof(kMid) / sizeof(*kMid), kMaxLive = 26;
static u64 pressureCount(){ return 16ull * kMaxLive * kMidN * 3; }
static std::string pressureFn(u64 i, int fn)
{
	int t1 = i % 4; i /= 4; int t2 = i % 4; i /= 4; int n = 1 + i % kMaxLive; i /= kMaxLive; int mid = i % kMidN; i /= kMidN; int order = (int)i;
	std::string s = fmt("void f%d(int a){ G = a;\n", fn);
	for(int k = 0; k < n; k++){ const char *t = kPT[k & 1 ? t2 : t1]; s += fmt("%s v%d = %s(GA[%d]) * 3 + a + %d;\n", t, k, t, k & 7, k * k - 5); }
	s += kMid[mid]; s += "\n";
	std::string ex;
	if(order == 0) for(int k = 0; k < n; k++) ex += fmt("%sv%d", k ? (k % 3 ? " + " : " - ") : "", k);
	else if(order == 1) for(int k = n - 1; k >= 0; k--) ex += fmt("%sv%d", k != n - 1 ? (k % 3 ? " - " : " + ") : "", k);
	else { ex = fmt("v%d", n - 1); for(int k = n - 2; k >= 0; k--) ex = fmt("(v%d %c %s)", k, k % 3 ? '-' : '+', ex.c_str()); }
	bool fl = t1 >= 2 || (n > 1 && t2 >= 2);
	s += fmt("%s[0] = %s;\n", fl ? "RD" : "RL", ex.c_str());
	for(int k = 0; k < n; k++) s += fmt("%s[1] = %s[1] * 2 + v%d;\n", fl ? "RD" : "RL", fl ? "RD" : "RL", k);
	return s + "RL[2] = G; }\n";
}
// expression tree of calls: many live temporaries in one expression
static const char *const kLeaf[] = {"scall(a)", "dcall(a + 0.5)", "lcall(a)", "hide(a + 2)", "hided(2.5)", "GA[a]", "float(a) * 0.3", "char(a + 300)"};
static u64 callTreeCount(){ return 8ull * 8 * 8 * 8 * 3; }
static std::string callTreeFn(u64 i, int fn)
{
	const char *l[4]; for(auto &x : l){ x = kLeaf[i & 7]; i >>= 3; }
	std::string e = i == 0 ? fmt("((%s + %s) * (%s - %s))", l[0], l[1], l[2], l[3]) : i == 1 ? fmt("(%s + (%s * (%s - %s)))", l[0], l[1], l[2], l[3]) : fmt("(((%s + %s) * %s) - %s)", l[0], l[1], l[2], l[3]);
	return fmt("void f%d(int a){ G = a; RD[0] = %s; RD[1] = %s + %s; RL[0] = long(%s); RL[1] = G; }\n", fn, e.c_str(), e.c_str(), e.c_str(), e.c_str());
}
// ---- signatures of script functions: all triples of parameter types, all return types
struct ST { const char *name, *make, *show; };
static const ST kST[] = {
	{"char", "char(a + 200)", "RL[%d] = %s;"}, {"int", "a - 3", "RL[%d] = %s;"}, {"long", "10000000000l + a", "RL[%d] = %s;"}, {"float", "0.3f + a", "RD[%d] = %s;"}, {"double", "0.1 + a", "RD[%d] = %s;"},
	{"int ref", "&GA[a]", "RL[%d] = *%s;"}, {"int[]", "{a, 2, 3}", "RL[%d] = %s[1] + %2$s.size;"}, {"V3", "mkV3(a)", "RL[%d] = %s.x + %2$s.y + long(%2$s.z * 4);"}, {"auto ref", "&GA[a + 1]", "RL[%d] = int(%s);"}, {"int ref(int)", "add7", "RL[%d] = %s(1);"}, {"C3", "mkC3(a)", "RL[%d] = %s.a + %2$s.b * 3 + %2$s.c * 7;"}, {"F1", "mkF1(a)", "RD[%d] = %s.x + %2$s.y;"}, {"Big", "mkBig(a)", "RL[%d] = %s.q[0] + %2$s.q[16];"}, {"bool", "a == 1", "RL[%d] = %s;"}, {"short", "short(a + 70000)", "RL[%d] = %s;"}, {"E0", "mkE0()", "RL[%d] = 5;"}};
static const int kSTN = 16;
static std::string show(const ST &t, int slot, const std::string &e)
{
	std::string r; for(const char *p = t.show; *p;){ if(!strncmp(p, "%2$s", 4)){ r += e; p += 4; } else if(!strncmp(p, "%s", 2)){ r += e; p += 2; } else if(!strncmp(p, "%d", 2)){ r += fmt("%d", slot); p += 2; } else r += *p++; }
	return r;
}
static const char *kSigHead = "V3 mkV3(int a){ V3 v; v.x = a; v.y = a * 2; v.z = 0.25; return v; } C3 mkC3(int a){ C3 v; v.a = a; v.b = 2; v.c = 3; return v; } F1 mkF1(int a){ F1 v; v.x = a + 0.5; v.y = 2.25; return v; } Big mkBig(int a){ Big v; for(int i = 0; i < 17; i++) v.q[i] = i + a; return v; } E0 mkE0(){ E0 e; return e; }\n";
static u64 sigCount(){ return (u64)kSTN * kSTN * kSTN; }
static std::string sigFn(u64 i, int fn)
{
	int t[3]; for(auto &x : t){ x = i % kSTN; i /= kSTN; }
	std::string s;
	for(int r = 0; r < 3; r++) s += fmt("%s g%d_%d(%s p, %s q, %s r){ %s %s %s return %c; }\n", kST[t[r]].name, fn, r, kST[t[0]].name, kST[t[1]].name, kST[t[2]].name, show(kST[t[0]], r * 4, "p").c_str(), show(kST[t[1]], r * 4 + 1, "q").c_str(), show(kST[t[2]], r * 4 + 2, "r").c_str(), "pqr"[r]);
	// RD has 8 slots: doubles reuse slots modulo 8
	s += fmt("void f%d(int a){ GA[0] = 5; GA[1] = 6; GA[2] = 7;\n", fn);
	for(int r = 0; r < 3; r++) s += fmt("auto x%d = g%d_%d(%s, %s, %s); %s\n", r, fn, r, kST[t[0]].make, kST[t[1]].make, kST[t[2]].make, show(kST[t[r]], 12 + r, fmt("x%d", r)).c_str());
	// the same through a function pointer
	s += fmt("auto h = g%d_1; auto y = h(%s, %s, %s); %s }\n", fn, kST[t[0]].make, kST[t[1]].make, kST[t[2]].make, show(kST[t[1]], 15, "y").c_str());
	return s;
}
// ---- whole values of small classes mixed with accesses to their members
struct CT { const char *name, *decl, *first, *last; };
static const CT kCT[] = {{"Q0", "float a;", "a", "a"}, {"Q1", "int a;", "a", "a"}, {"Q2", "double a;", "a", "a"}, {"Q3", "char a;", "a", "a"}, {"Q4", "float a; float b;", "a", "b"}, {"Q5", "int a; float b;", "a", "b"}, {"Q6", "double a; int b;", "a", "b"}, {"Q7", "short a; char b;", "a", "b"}, {"Q8", "float[2] a;", "a[0]", "a[1]"}, {"Q9", "long a; float b;", "a", "b"}};
static const int kCTN = 10, kClsOps = 8, kClsDepth = 3;
static u64 clsCount(){ return (u64)kCTN * 4 * kClsOps * kClsOps * kClsOps; }
static std::string clsHead(){ std::string s; for(auto &c : kCT) s += fmt("class %s{ %s } %s id%s(%s p){ RD[7] = RD[7] * 3 + p.%s; RD[6] = RD[6] * 3 + p.%s; return p; } %s G%s;\n", c.name, c.decl, c.name, c.name, c.name, c.first, c.last, c.name, c.name); return s; }
static std::string clsFn(u64 i, int fn)
{
	const CT &c = kCT[i % kCTN]; i /= kCTN; int loc = i % 4; i /= 4; std::string x = loc == 2 ? fmt("G%s", c.name) : loc == 3 ? "r" : "x", body;
	for(int d = 0; d < kClsDepth; d++)
	{
		int op = i % kClsOps; i /= kClsOps; const char *X = x.c_str();
		switch(op)
		{
		case 0: body += fmt("y = %s%s;\n", loc == 3 ? "*" : "", X); break;
		case 1: body += fmt("RD[%d] += %s.%s;\n", d, X, c.first); break;
		case 2: body += fmt("%s.%s = a + %d;\n", X, c.first, d + 3); break;
		case 3: body += fmt("%s%s = y;\n", loc == 3 ? "*" : "", X); break;
		case 4: body += fmt("y = id%s(%s%s);\n", c.name, loc == 3 ? "*" : "", X); break;
		case 5: body += fmt("%s.%s += 1;\n", X, c.last); break;
		case 6: body += fmt("RD[%d] = %s.%s * 2 + %s.%s;\n", 3 + d, X, c.last, X, c.first); break;
		case 7: body += fmt("y.%s = %s.%s;\n", c.first, X, c.last); break;
		}
	}
	body += fmt("RD[8] = %s.%s; RD[9] = %s.%s; RD[10] = y.%s; RD[11] = y.%s;", x.c_str(), c.first, x.c_str(), c.last, c.first, c.last); std::string init = fmt("%s.%s = a * 2 + 1; %s.%s = a + 5; ", x.c_str(), c.first, x.c_str(), c.last), y = fmt("%s y; y.%s = 40; y.%s = 41; ", c.name, c.first, c.last);
	if(loc == 0) return fmt("void f%d(int a){ %s x; ", fn, c.name) + init + y + body + " }\n";
	if(loc == 1) return fmt("%s g%d(%s x, int a){ ", c.name, fn, c.name) + y + body + fmt(" return x; }\nvoid f%d(int a){ %s x; ", fn, c.name) + init + fmt("%s z = g%d(x, a); RD[12] = z.%s; RD[13] = z.%s; RD[14] = x.%s; }\n", c.name, fn, c.first, c.last, c.first);
	if(loc == 2) return fmt("void f%d(int a){ ", fn) + init + y + body + " }\n";
	return fmt("void g%d(%s ref r, int a){ ", fn, c.name) + y + body + fmt(" }\nvoid f%d(int a){ %s x; x.%s = a * 2 + 1; x.%s = a + 5; g%d(&x, a); RD[12] = x.%s; RD[13] = x.%s; }\n", fn, c.name, c.first, c.last, fn, c.first, c.last);
}
static void extraSpaces(mc::Engine &e)
{
	auto add = [&](const char *name, u64 count, int per, std::string (*fn)(u64, int), const char *head)
	{
		mc::Space s; s.name = name; s.chunk = 4; s.caseTimeout = 60; s.begin = [](mc::Ctx&){ nc::fresh(); };
		s.count = (count + per - 1) / per;
		auto text = [=](u64 i){ std::string r = std::string(kExtraHead) + head; for(u64 k = 0; k < (u64)per && i * per + k < count; k++) r += fn(i * per + k, (int)k); return r + "return 1;"; };
		s.run = [=](u64 i, mc::Ctx &c){ runGen(text(i), (int)std::min((u64)per, count - i * per), c); };
		s.describe = text;
		e.add(s);
	};
	add("register-pressure", pressureCount(), 16, pressureFn, "");
	add("call-trees", callTreeCount(), 32, callTreeFn, "");
	add("signatures", sigCount(), 8, sigFn, kSigHead);
	static std::string ch = clsHead(); add("class-values", clsCount(), 32, clsFn, ch.c_str());
}
