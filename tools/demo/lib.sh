# Compiles libcwd from /repo's working tree (with a stand-in for the absent threadsafe submodule) and the demo program.
# Usage: . lib.sh; build <demo.cpp> <output> [extra flags]
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${LIBCWD_REPO:-/repo}
SCRATCH=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$SCRATCH"' EXIT
build()
{
  local src=$1 out=$2; shift 2
  local flags="-std=c++20 -g -O0 -fPIC -DCWDEBUG -I$REPO/_build/include -I$HERE/shim -I$REPO/include -I$REPO -I$REPO/src $*"
  mkdir -p "$SCRATCH/o"
  ls "$REPO"/src/*.cxx "$REPO"/src/utils/*.cxx | xargs -P 8 -I{} sh -c "g++ $flags -w  '-DVERSION=\"2\"' -c {} -o $SCRATCH/o/\$(basename {}).o" || exit 99
  g++ $flags -w -rdynamic "$HERE/$src" "$SCRATCH"/o/*.o -o "$out" -ldl -ldw -lelf -pthread || exit 99
}
