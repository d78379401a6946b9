// runs a script with the interpreter and the JIT at every optimization level; exit 0 when every outcome is the expected one
#include "NULLC/nullc.h"
#include "NULLC/includes/file.h"
#include "NULLC/includes/gc.h"
#include "NULLC/includes/io.h"
#include "NULLC/includes/math.h"
#include "NULLC/includes/random.h"
#include "NULLC/includes/string.h"
#include "NULLC/includes/time.h"
#include "NULLC/includes/vector.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
int main(int argc, char **argv)
{
	FILE *f = fopen(argv[1], "rb"); if(!f) return 2;
	static char buf[1 << 20]; buf[fread(buf, 1, sizeof(buf) - 1, f)] = 0; fclose(f);
	int bad = 0;
	for(int jit = 0; jit < 2; jit++) for(int opt = 0; opt < 3; opt++)
	{
		nullcInit(); nullcAddImportPath("Modules/"); nullcSetOptimizationLevel(opt);
		nullcInitFileModule(); nullcInitGCModule(); nullcInitMathModule(); nullcInitStringModule(); nullcInitVectorModule(); nullcInitRandomModule(); nullcInitTimeModule(); nullcInitIOModule();
		nullcSetExecutor(jit ? NULLC_X86 : NULLC_REG_VM);
		std::string r;
		if(!nullcBuild(buf)) r = nullcGetLastError(); else if(!nullcRun()) r = nullcGetLastError(); else r = nullcGetResult();
		r = r.substr(0, r.find_first_of("\r\n"));
		if(r != argv[2]){ printf("%s opt %d: got '%s', expected '%s'\n", jit ? "jit" : "vm", opt, r.c_str(), argv[2]); bad = 1; }
		nullcTerminate();
	}
	return bad;
}
