// developer tool: run a source file (or -e text) in every configuration
#include "nc.h"
int main(int argc, char **argv)
{
	std::string src;
	if(argc > 2 && !strcmp(argv[1], "-e")) src = argv[2];
	else { FILE *f = argc > 1 ? fopen(argv[1], "r") : stdin; char b[4096]; size_t n; while((n = fread(b, 1, 4096, f)) > 0) src.append(b, n); }
	setvbuf(stdout, 0, _IONBF, 0);
	nc::fresh(nc::STD_ALL);
	std::string last;
	for(int e = 0; e < 2; e++) for(int o = 0; o < 3; o++)
	{
		nc::Outcome r = nc::run(src, {e, o});
		std::string t = r.text();
		if(t == last) printf("%s same\n", nc::cfgName({e, o})); else printf("%s %s\n", nc::cfgName({e, o}), t.c_str());
		if(!r.ran && t != last) printf("%s\n", r.fullError.c_str());
		last = t;
	}
	char buf[4096];
	buf[0] = 0;
	nullcCompile(src.c_str());
	if(nullcTestEvaluateExpressionTree(buf, 4096)) printf("expr: %s\n", buf); else printf("expr: FAIL %s\n", buf);
	buf[0] = 0;
	if(nullcTestEvaluateInstructionTree(buf, 4096)) printf("inst: %s\n", buf); else printf("inst: FAIL %s\n", buf);
}
