// Types of local variables with an initializer, a mutation and a digest, used by checks that keep variables in unusual places.
#pragma once
#include "nc.h"
using nc::fmt;
struct LT { const char *decl, *type, *init, *mut, *dig; };	// $ variable name, @ payload expression
static const LT kTypes[] = {
	{"", "int", "@", "$++;", "$"}, {"", "long", "@ * 10000000000l", "$ += 10000000000l;", "int($ / 10000000000l)"}, {"", "double", "@ + 0.25", "$ += 1.0;", "int($)"},
	{"", "float", "@ + 0.5", "$ += 1.0;", "int($)"}, {"", "char", "@", "$++;", "int($)"}, {"", "short", "@ + 300", "$++;", "($ - 300)"},
	{"typedef int[3] A3; A3 mkA3(int v){ A3 r; r[0] = v; r[1] = v * 2; r[2] = v * 3; return r; }\n", "A3", "mkA3(@)", "for(int m# = 0; m# < 3; m#++) $[m#] += m# + 1;", "($[2] - $[1])"},
	{"class P{ char c; double y; int x; } P mkP(int v){ P r; r.c = v; r.y = v * 2; r.x = v; return r; }\n", "P", "mkP(@)", "$.c++; $.y += 2; $.x++;", "(int($.c) + int($.y) + $.x) / 4"},
	{"int ref mkI(int v){ int ref r = new int; *r = v; return r; }\n", "int ref", "mkI(@)", "*$ = *$ + 1;", "(*$)"},
	{"int[] mkD(int v){ int[] r = new int[v + 4]; r[v] = v; return r; }\n", "int[]", "mkD(@)", "$ = mkD($.size - 3);", "($[$.size - 4])"},
	{"", "char[]", "@.str()", "$ = (int($) + 1).str();", "int($)"},
	{"auto ref mkR(int v){ return duplicate(v); }\n", "auto ref", "mkR(@)", "{ int ref m# = $; *m# = *m# + 1; }", "int($)"},
	{"int ref() mkF(int v){ return auto(){ return v++; }; }\n", "int ref()", "mkF(@)", "$();", "dfn($)"},
	{"P ref mkPR(int v){ P ref r = new P; r.x = v; return r; }\n", "P ref", "mkPR(@)", "$.x++;", "$.x"},
	{"auto[] mkX(int v){ int[] r = new int[2]; r[1] = v; return r; }\n", "auto[]", "mkX(@)", "{ int ref m# = $[1]; *m# = *m# + 1; }", "int($[1])"},
	{"class E{ int ref r; int[] q; } E mkE(int v){ E e; e.r = new int; *e.r = v; e.q = new int[v + 1]; e.q[v] = v; return e; }\n", "E", "mkE(@)", "*$.r = *$.r + 1;", "(*$.r + $.q[$.q.size - 1] - $.q.size + 1)"},
};
enum { NT = sizeof(kTypes) / sizeof(*kTypes), NKIND = 3 };
static int gUid;
static std::string sub(const char *t, const std::string &var, const std::string &pay){ std::string r; gUid++; for(; *t; t++){ if(*t == '$') r += var; else if(*t == '@') r += "(" + pay + ")"; else if(*t == '#') r += fmt("%d", gUid); else r += *t; } return r; }
