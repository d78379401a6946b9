// reference semantics of the basic types (language manual rules A/B/C): values, operators, stores, literals
#pragma once
#include "nc.h"
#include <math.h>
#include <limits.h>
#include <limits>
#include <type_traits>
using namespace nc;
using mc::u64;
enum Ty { BOOL, CHAR, SHORT, INT, LONG, FLOAT, DOUBLE, TYN };
static const char *tyName[] = {"bool", "char", "short", "int", "long", "float", "double"};
static const int tySize[] = {1, 1, 2, 4, 8, 4, 8};
enum Cat { CI, CL, CD };
static Cat cat(int t){ return t == LONG ? CL : (t == FLOAT || t == DOUBLE) ? CD : CI; }
static bool isF(int t){ return t == FLOAT || t == DOUBLE; }

struct Val { Cat c; int i; long long l; double d; };
static Val VI(int x){ Val v; memset(&v, 0, sizeof v); v.c = CI; v.i = x; return v; }
static Val VL(long long x){ Val v; memset(&v, 0, sizeof v); v.c = CL; v.l = x; return v; }
static Val VD(double x){ Val v; memset(&v, 0, sizeof v); v.c = CD; v.d = x; return v; }
static std::string show(Val v){ return v.c == CI ? fmt("int %d", v.i) : v.c == CL ? fmt("long %lld", v.l) : fmt("double %.17g", v.d); }

// values of each type, as the promoted value
static std::vector<Val> values(int t, bool finite = false)
{
	std::vector<Val> r;
	switch(t)
	{
	case BOOL: for(int x : {0, 1}) r.push_back(VI(x)); break;
	case CHAR: for(int x : {-128, -7, -1, 0, 1, 5, 127}) r.push_back(VI(x)); break;
	case SHORT: for(int x : {-32768, -129, -1, 0, 1, 2, 255, 32767}) r.push_back(VI(x)); break;
	case INT: for(int x : {INT_MIN, INT_MIN + 1, -65537, -3, -1, 0, 1, 2, 7, 31, 65536, INT_MAX}) r.push_back(VI(x)); break;
	case LONG: for(long long x : {LLONG_MIN, LLONG_MIN + 1, -4294967297ll, -2147483649ll, -3ll, -1ll, 0ll, 1ll, 2ll, 63ll, 2147483648ll, 4294967296ll, LLONG_MAX}) r.push_back(VL(x)); break;
	case FLOAT:
		for(float x : {-3.5f, -1.0f, -0.0f, 0.0f, 0.1f, 1.0f, 2.0f, 2.5f, 16777216.0f, 1e10f, 3e38f, 1e-40f}) r.push_back(VD(x));
		if(!finite){ r.push_back(VD(INFINITY)); r.push_back(VD(-INFINITY)); r.push_back(VD(NAN)); }
		break;
	case DOUBLE:
		for(double x : {-3.5, -1.0, -0.0, 0.0, 0.1, 1.0, 2.0, 2.5, 1e10, 9007199254740993.0, 1e300, 5e-324, 2147483647.0, -2147483648.0}) r.push_back(VD(x));
		if(!finite){ r.push_back(VD(INFINITY)); r.push_back(VD(-INFINITY)); r.push_back(VD(NAN)); }
		break;
	}
	return r;
}
static Val conv(Val v, Cat c)
{
	if(v.c == c) return v;
	if(c == CL) return VL(v.c == CI ? v.i : (long long)v.d);
	if(c == CD) return VD(v.c == CI ? (double)v.i : (double)v.l);
	return VI(v.c == CL ? (int)v.l : (int)v.d);
}
// store into a variable of type t and load again; false if undefined (floating value outside the integer range)
static bool store(Val v, int t, Val &out)
{
	if(v.c == CD && !isF(t))
	{
		if(t == BOOL){ if(v.d != v.d) return false; }
		if(t == LONG){ if(!(v.d > -9.2e18 && v.d < 9.2e18)) return false; }
		else if(!(v.d > -2147483649.0 && v.d < 2147483648.0)) return false;
	}
	switch(t)
	{
	case BOOL: out = VI(v.c == CI ? v.i != 0 : v.c == CL ? v.l != 0 : v.d != 0); return true;
	case CHAR: out = VI((signed char)conv(v, CI).i); return true;
	case SHORT: out = VI((short)conv(v, CI).i); return true;
	case INT: out = conv(v, CI); return true;
	case LONG: out = conv(v, CL); return true;
	case FLOAT: out = VD((double)(float)conv(v, CD).d); return true;
	case DOUBLE: out = conv(v, CD); return true;
	}
	return false;
}
static const char *ops[] = {"+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "^^"};
enum { ADD, SUB, MUL, DIV, MOD, POW, SHL, SHR, BAND, BOR, BXOR, LT, GT, LE, GE, EQ, NE, LAND, LOR, LXOR, OPN };
static bool supported(int op, int t1, int t2)
{
	if(isF(t1) || isF(t2)) return !(op >= SHL && op <= BXOR) && !(op >= LAND);
	return true;
}
static Cat resCat(int op, int t1, int t2){ if(op >= LT) return CI; return std::max(cat(t1), cat(t2)); }
using mc::Ctx;
#include <type_traits>
template<class T> static T ipow(T base, T e)
{
	if(e < 0) return base == 1 ? 1 : base == -1 ? ((e & 1) ? -1 : 1) : 0;
	typedef typename std::make_unsigned<T>::type U; U r = 1, b = (U)base;
	while(e){ if(e & 1) r *= b; b *= b; e >>= 1; }
	return (T)r;
}
// 0 = value, 1 = division by zero error, 2 = outside the defined domain
static int apply(int op, Val a, Val b, int t1, int t2, Val &out)
{
	Cat c = std::max(cat(t1), cat(t2));
	if(op >= LAND)
	{
		bool x = a.c == CI ? a.i != 0 : a.l != 0, y = b.c == CI ? b.i != 0 : b.l != 0;
		out = VI(op == LAND ? x && y : op == LOR ? x || y : x != y); return 0;
	}
	a = conv(a, c); b = conv(b, c);
	if(c == CD)
	{
		double x = a.d, y = b.d;
		switch(op)
		{
		case ADD: out = VD(x + y); return 0; case SUB: out = VD(x - y); return 0; case MUL: out = VD(x * y); return 0; case DIV: out = VD(x / y); return 0;
		case MOD: out = VD(fmod(x, y)); return 0; case POW: out = VD(pow(x, y)); return 0;
		case LT: out = VI(x < y); return 0; case GT: out = VI(x > y); return 0; case LE: out = VI(x <= y); return 0; case GE: out = VI(x >= y); return 0; case EQ: out = VI(x == y); return 0; case NE: out = VI(x != y); return 0;
		}
		return 2;
	}
	long long x = c == CI ? a.i : a.l, y = c == CI ? b.i : b.l;
	unsigned long long ux = x, uy = y, r = 0; int bits = c == CI ? 32 : 64;
	switch(op)
	{
	case ADD: r = ux + uy; break; case SUB: r = ux - uy; break; case MUL: r = ux * uy; break;
	case DIV: if(y == 0) return 1; r = y == -1 ? 0 - ux : (unsigned long long)(x / y); break;
	case MOD: if(y == 0) return 1; r = y == -1 ? 0 : (unsigned long long)(x % y); break;
	case POW: if(x == 0 && y < 0) return 2; r = c == CI ? (unsigned long long)(long long)ipow<int>((int)x, (int)y) : (unsigned long long)ipow<long long>(x, y); break;
	case SHL: if(y < 0 || y >= bits) return 2; r = ux << y; break;
	case SHR: if(y < 0 || y >= bits) return 2; r = (unsigned long long)(x >> y); break;
	case BAND: r = ux & uy; break; case BOR: r = ux | uy; break; case BXOR: r = ux ^ uy; break;
	case LT: out = VI(x < y); return 0; case GT: out = VI(x > y); return 0; case LE: out = VI(x <= y); return 0; case GE: out = VI(x >= y); return 0; case EQ: out = VI(x == y); return 0; case NE: out = VI(x != y); return 0;
	default: return 2;
	}
	out = c == CI ? VI((int)r) : VL((long long)r); return 0;
}
static bool sameD(double a, double b){ if(a != a && b != b) return true; return memcmp(&a, &b, 8) == 0; }
static bool same(Val a, Val b){ if(a.c != b.c) return false; return a.c == CI ? a.i == b.i : a.c == CL ? a.l == b.l : sameD(a.d, b.d); }

static std::string literal(Val v, int t)
{
	std::string s;
	if(v.c == CI) s = v.i == INT_MIN ? "(-2147483647-1)" : v.i < 0 ? fmt("(%d)", v.i) : fmt("%d", v.i);
	else if(v.c == CL) s = v.l == LLONG_MIN ? "(-9223372036854775807l-1l)" : v.l < 0 ? fmt("(%lldl)", v.l) : fmt("%lldl", v.l);
	else { s = fmt("%.17g", v.d); if(s.find_first_of(".e") == std::string::npos) s += ".0"; if(s.find('.') == std::string::npos) s.insert(s.find('e'), ".0"); if(t == FLOAT) { s = fmt("%.9g", v.d); if(s.find('.') == std::string::npos){ size_t e = s.find('e'); if(e == std::string::npos) s += ".0"; else s.insert(e, ".0"); } s += "f"; } if(s[0] == '-') s = "(" + s + ")"; }
	for(size_t q; (q = s.find("e+")) != std::string::npos;) s.erase(q + 1, 1);
	if(t == BOOL) return v.i ? "true" : "false";
	if(t == CHAR || t == SHORT) s = fmt("%s(%s)", tyName[t], s.c_str());
	return s;
}
static std::string rType(Cat c){ return c == CI ? "int" : c == CL ? "long" : "double"; }

