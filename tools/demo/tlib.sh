# sourced by the demonstrations: scratch directory $T, databases, faults, programs that /repo's build leaves out
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX); B=/repo/_build; R=/repo
cleanup() { [ -n "${SRV:-}" ] && kill "$SRV" 2>/dev/null; wait 2>/dev/null; rm -rf "$T"; }
trap cleanup EXIT
db() { python3 "$here/mkdb.py" "$@"; }              # db FILE SIZE RECORDS... (see mkdb.py)
cxx() { (cd $R && g++ -std=c++20 -O1 -w -DFMT_SHARED -Iinclude -I"$here" "$@" -lfmt -lpthread) || exit 0; }
mksearch() { cxx -o "$T/search" app/hibp_search.cpp src/toc.cpp src/ntlm.cpp -x c src/md4.c -x none; }
mkserver() { cxx -DASIO_DISABLE_STD_STRING_VIEW -DASIO_HAS_STD_CHRONO -DASIO_STANDALONE -o "$T/server" app/hibp_server.cpp src/srv/server.cpp \
  src/toc.cpp src/ntlm.cpp -x c src/md4.c -x none -lhttp_parser; }
mkfault() { gcc -shared -fPIC -O1 -w -o "$T/fault.so" "$here/fault.c" -ldl || exit 0; }
fault() { local p=$1 f=$2; shift 2; LD_PRELOAD="$T/fault.so" FAULT_PATH=$p FAULT=$f timeout 60 "$@"; } # fault PATH-PART KIND[:N] command
