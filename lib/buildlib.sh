#!/bin/bash
# usage: buildlib.sh OUTDIR OPTFLAGS...   Compiles the nullc library from $NULLC_REPO (default /repo) into OUTDIR/libnullc.a
# The list of sources comes from the repository's own Makefile, so added/renamed files are picked up.
set -e
R=${NULLC_REPO:-/repo}
out=$1; shift
mkdir -p "$out/obj"
cd "$R"
# ask make for its own lists (does not build anything)
srcs=$(printf 'include Makefile\nvp_print:\n\t@echo $(LIB_SOURCES) $(LIB_SOURCES_VM) $(PUGIXML_SOURCES) $(patsubst temp/lib/%%.o,NULLC/includes/%%.cpp,$(STDLIB_TARGETS)) $(patsubst temp/dyncall/%%.o,external/dyncall/%%.c,$(filter temp/dyncall/%%,$(DYNCALL_TARGETS))) $(patsubst temp/dyncall_s/%%.o,external/dyncall/%%.S,$(filter temp/dyncall_s/%%,$(DYNCALL_TARGETS)))\n' | make -s -f - vp_print)
# biggest first for load balance
ls -S $(for f in $srcs; do [ -f $f ] && echo $f; done) | sort -u > "$out/srcs.txt"
ls -S $(cat "$out/srcs.txt") | xargs -P8 -I{} sh -c '
 f={}; o='"$out"'/obj/$(echo $f | tr / _).o
 case $f in *.cpp) g++ '"$*"' -w -c $f -o $o ;; *) gcc '"$*"' -w -c $f -o $o ;; esac || { echo "BUILDFAIL $f" >&2; exit 255; }'
rm -f "$out/libnullc.a"
ar rcs "$out/libnullc.a" "$out"/obj/*.o
