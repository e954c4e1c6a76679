# kit.sh: links the fstalign program from the repository's build products
# (plus the synonym engine, which the offline build leaves out) in a scratch
# directory.  Source it with cwd = the repository; then call: fa ARGS...
set -u
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=$(pwd)
T=$(mktemp -d /tmp/demo-XXXXXXXX) || exit 9
trap 'case "$T" in /tmp/demo-????????) rm -rf "$T";; esac' EXIT
g++ -std=gnu++17 -O1 -w -I"$HERE" -I/opt/vp/compat/include -I/usr/include/jsoncpp -I"$REPO/src" \
  -c "$REPO/src/SynonymEngine.cpp" -o "$T/syn.o" || exit 9
MAIN=$(find "$REPO/_build/CMakeFiles" -name main.cpp.o | head -1)
g++ "$MAIN" "$T/syn.o" "$REPO/_build/libfstaligner-common.a" -o "$T/fstalign" \
  -lfst -lfmt -lspdlog -licuuc -ljsoncpp -lpthread -ldl || exit 9
fa() { (cd "$T" && ./fstalign "$@" >log.txt 2>err.txt); }
fail() { echo "FAIL: $*"; exit 1; }
# ctm FILE WORDS: one row per word, half a second each
ctm() { local f=$1 i=0 w; shift; : >"$T/$f"; for w in $*; do echo "rec 1 $i.00 0.50 $w 1.0" >>"$T/$f"; i=$((i+1)); done; }
# nlp FILE: rows on stdin (token speaker ts endTs punct prepunct case tags wer_tags), header added
nlp() { { echo "token|speaker|ts|endTs|punctuation|prepunctuation|case|tags|wer_tags"; cat; } >"$T/$1"; }
# js FILE EXPR: exit 0 iff the python expression over v (the parsed file) is true
js() { python3 -c 'import json,sys
v=json.load(open(sys.argv[1])); sys.exit(0 if eval(sys.argv[2]) else 1)' "$T/$1" "$2"; }
