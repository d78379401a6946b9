# sets FLAVOR, LIBFLAGS, HARNESSFLAGS for a check id
FLAVOR=o1; LIBFLAGS="-O1"; HARNESSFLAGS="-O1 -std=c++17"
case "$1" in
  C11*|ASAN*) FLAVOR=asan; LIBFLAGS="-O1 -g1 -fsanitize=address"; HARNESSFLAGS="-O1 -g1 -std=c++17 -fsanitize=address";;
esac
