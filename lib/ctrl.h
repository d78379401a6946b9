// Control-flow trees: every statement tree with n nodes over loops, conditionals, switch, multi-level break/continue,
// early return (and yield), with a reference interpreter. Conditions read a decision tape (bits of the argument), so every
// path of up to L decisions is explored and every loop terminates.
#pragma once
#include "nc.h"
namespace ctrl
{
using nc::u64; using mc::fmt;
enum Kind { T, RET, BRK1, BRK2, CNT1, CNT2, YIELD, WHILE, FOR, DO, EACH, IF, LOCALS, SEQ, IFELSE, SW2, SWD, KINDS };
inline bool leaf(int k){ return k <= YIELD; }
inline bool unary(int k){ return k >= WHILE && k <= LOCALS; }
struct Node { int kind, id; Node *a, *b; };

struct Grammar
{
	bool yields;	// YIELD leaf enabled
	bool twoLevel;	// BRK2/CNT2
	bool locals;	// block with a captured local (closure called in place)
	std::map<u64, u64> memo;
	std::vector<Node> pool; size_t used = 0;
	Grammar(bool y, bool t, bool l) : yields(y), twoLevel(t), locals(l) { pool.resize(64); }
	bool allowed(int k, int bd, int cd) const
	{
		switch(k){ case BRK1: return bd >= 1; case BRK2: return twoLevel && bd >= 2; case CNT1: return cd >= 1; case CNT2: return twoLevel && cd >= 2; case YIELD: return yields; case LOCALS: return locals; }
		return true;
	}
	static void inner(int k, int bd, int cd, int &b, int &c){ b = bd; c = cd; if(k >= WHILE && k <= EACH){ b = std::min(2, bd + 1); c = std::min(2, cd + 1); } else if(k == SW2 || k == SWD) b = std::min(2, bd + 1); }
	u64 count(int n, int bd, int cd)
	{
		if(n <= 0) return 0;
		u64 key = n * 16 + bd * 4 + cd; auto it = memo.find(key); if(it != memo.end()) return it->second;
		u64 r = 0; int b, c;
		for(int k = 0; k < KINDS; k++)
		{
			if(!allowed(k, bd, cd)) continue;
			inner(k, bd, cd, b, c);
			if(leaf(k)) r += n == 1;
			else if(unary(k)) r += count(n - 1, b, c);
			else for(int i = 1; i < n - 1; i++) r += count(i, b, c) * count(n - 1 - i, b, c);
		}
		return memo[key] = r;
	}
	Node *make(int n, int bd, int cd, u64 idx)
	{
		int b, c;
		for(int k = 0; k < KINDS; k++)
		{
			if(!allowed(k, bd, cd)) continue;
			inner(k, bd, cd, b, c);
			if(leaf(k)){ if(n == 1){ if(!idx){ Node *r = node(k); return r; } idx--; } }
			else if(unary(k)){ u64 m = count(n - 1, b, c); if(idx < m){ Node *r = node(k); r->a = make(n - 1, b, c, idx); return r; } idx -= m; }
			else for(int i = 1; i < n - 1; i++)
			{
				u64 x = count(i, b, c), y = count(n - 1 - i, b, c);
				if(idx < x * y){ Node *r = node(k); r->a = make(i, b, c, idx % x); r->b = make(n - 1 - i, b, c, idx / x); return r; }
				idx -= x * y;
			}
		}
		return nullptr;
	}
	Node *node(int k){ Node *r = &pool[used]; r->kind = k; r->id = (int)used; r->a = r->b = nullptr; used++; return r; }
	Node *tree(int n, u64 idx){ used = 0; return make(n, 0, 0, idx); }
};

// ---- source text
enum Mode { LOCAL, HOST };	// observation by a local accumulator / by calls of host function te
struct Printer
{
	Mode mode; bool co;
	std::string ev(int id) const { return mode == LOCAL ? fmt("h = h * 31 + %d;", id) : fmt("te(%d, 0);", id); }
	std::string cond(int id) const { return mode == LOCAL ? std::string("((tape >>= 1) & 1)") : fmt("te(%d, (tape >>= 1) & 1)", 100 + id); }
	std::string cond2(int id) const { return mode == LOCAL ? std::string("((tape >>= 2) & 3)") : fmt("te(%d, (tape >>= 2) & 3)", 100 + id); }
	std::string text(const Node *n) const
	{
		int id = n->id;
		switch(n->kind)
		{
		case T: return ev(id + 1);
		case RET: return mode == LOCAL ? fmt("return h * 31 + %d;", id + 40) : fmt("return te(%d, %d);", id + 40, id);
		case BRK1: return "break;"; case BRK2: return "break 2;"; case CNT1: return "continue;"; case CNT2: return "continue 2;";
		case YIELD: return ev(id + 1) + fmt(" yield %s;", mode == LOCAL ? "h" : fmt("te(%d, %d)", id + 70, id).c_str());
		case WHILE: return "while(" + cond(id) + "){ " + text(n->a) + " }";
		case FOR: return fmt("for(int i%d = 0; ", id) + cond(id) + fmt("; i%d++){ ", id) + text(n->a) + (mode == LOCAL ? fmt(" h += i%d; }", id) : fmt(" te(%d + i%d, 0); }", 200 + id * 10, id));
		case DO: return "do{ " + text(n->a) + " }while(" + cond(id) + ");";
		case EACH: return fmt("for(e%d in arr){ ", id) + (mode == LOCAL ? fmt("h = h * 31 + e%d; ", id) : fmt("te(%d + e%d, 0); ", 200 + id * 10, id)) + text(n->a) + " }";
		case IF: return "if(" + cond(id) + "){ " + text(n->a) + " }";
		case LOCALS: return fmt("{ int v%d = tape & 7; int g%d(){ v%d++; return v%d; } ", id, id, id, id) + text(n->a) + (mode == LOCAL ? fmt(" h = h * 31 + g%d(); h = h * 31 + v%d; }", id, id) : fmt(" te(g%d(), 0); te(v%d, 0); }", id, id));
		case SEQ: return text(n->a) + " " + text(n->b);
		case IFELSE: return "if(" + cond(id) + "){ " + text(n->a) + " }else{ " + text(n->b) + " }";
		case SW2: return "switch(" + cond2(id) + "){ case 0: " + text(n->a) + " case 1: " + text(n->b) + " }";
		case SWD: return "switch(" + cond2(id) + "){ case 1: " + text(n->a) + " default: " + text(n->b) + " }";
		}
		return "";
	}
	std::string function(const Node *n, int fn) const
	{
		std::string s = fmt("%s%s f%d(int tape%s){ ", co ? "coroutine " : "", mode == LOCAL ? "long" : "int", fn, co ? "0" : "");
		if(co) s += "int tape = tape0; ";
		if(mode == LOCAL) s += "long h = 7; ";
		s += "int[2] arr; arr[0] = 1; arr[1] = 2; " + text(n) + " ";
		return s + (mode == LOCAL ? "return h * 31 + 39; }\n" : "return te(39, -1); }\n");
	}
};

// ---- reference interpreter (events of one activation). A yield calls back.
enum Flow { NEXT, BREAK, CONTINUE, RETURN };
struct Ref
{
	Mode mode; unsigned tape; long long h = 7; std::string tr; long long result = 0; int depth = 0; u64 steps = 0;
	std::function<void(Ref&, long long)> onYield;
	void ev(int id){ steps++; if(mode == LOCAL) h = (long long)((u64)h * 31 + id); else tr += fmt("#%d ", id); }
	int cond(int id){ steps++; tape >>= 1; if(mode == HOST) tr += fmt("#%d ", 100 + id); return tape & 1; }
	int cond2(int id){ steps++; tape >>= 2; if(mode == HOST) tr += fmt("#%d ", 100 + id); return tape & 3; }
	// loop bodies: returns true to leave the loop; flow is what the loop statement returns
	bool after(Flow f, Flow &out)
	{
		if(f == BREAK){ depth--; out = depth ? BREAK : NEXT; return true; }
		if(f == CONTINUE){ depth--; if(depth){ out = CONTINUE; return true; } return false; }
		if(f == RETURN){ out = RETURN; return true; }
		return false;
	}
	Flow run(const Node *n)
	{
		Flow out = NEXT; int id = n->id;
		switch(n->kind)
		{
		case T: ev(id + 1); return NEXT;
		case RET: if(mode == LOCAL) result = (long long)((u64)h * 31 + id + 40); else { ev(id + 40); result = id; } return RETURN;
		case BRK1: depth = 1; return BREAK; case BRK2: depth = 2; return BREAK; case CNT1: depth = 1; return CONTINUE; case CNT2: depth = 2; return CONTINUE;
		case YIELD: ev(id + 1); if(mode == LOCAL) onYield(*this, h); else { ev(id + 70); onYield(*this, id); } return NEXT;
		case WHILE: while(cond(id)){ if(after(run(n->a), out)) return out; } return NEXT;
		case FOR: for(int i = 0; cond(id); i++){ Flow f = run(n->a); if(f == NEXT){ if(mode == LOCAL) h += i; else ev(200 + id * 10 + i); } if(after(f, out)) return out; } return NEXT;
		case DO: do{ if(after(run(n->a), out)) return out; }while(cond(id)); return NEXT;
		case EACH: for(int e = 1; e <= 2; e++){ if(mode == LOCAL) h = (long long)((u64)h * 31 + e); else ev(200 + id * 10 + e); if(after(run(n->a), out)) return out; } return NEXT;
		case IF: return cond(id) ? run(n->a) : NEXT;
		case LOCALS: { int v = tape & 7; Flow f = run(n->a); if(f != NEXT) return f; v++; ev(v); ev(v); return NEXT; }
		case SEQ: { Flow f = run(n->a); return f == NEXT ? run(n->b) : f; }
		case IFELSE: return cond(id) ? run(n->a) : run(n->b);
		case SW2: case SWD:
		{
			int v = cond2(id); bool first = n->kind == SW2 ? v == 0 : v == 1, second = n->kind == SW2 ? v <= 1 : true;
			Flow f = NEXT;
			if(first) f = run(n->a);
			if(f == NEXT && second) f = run(n->b);
			if(f == BREAK){ depth--; return depth ? BREAK : NEXT; }
			return f;
		}
		}
		return NEXT;
	}
	void go(const Node *n){ Flow f = run(n); if(f != RETURN){ if(mode == LOCAL) result = (long long)((u64)h * 31 + 39); else { ev(39); result = -1; } } }
};
}
