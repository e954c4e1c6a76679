#!/bin/bash
# check.sh <property id> [quick|thorough]
# Builds the check of one property against /repo's current working tree in a
# scratch directory, runs it, and removes the scratch directory.
# exit 0: held on everything explored; 1: violation; anything else: no answer.
set -u
ID=${1:?usage: check.sh ID [quick|thorough]}
TIER=${2:-quick}
HERE=$(cd "$(dirname "$0")" && pwd)
export REPO=${REPO:-/repo}
export VERIF_HOME=$HERE VERIF_TIER=$TIER LC_ALL=C.UTF-8
B=$(mktemp -d /tmp/verif-b-XXXXXXXX) || exit 4
trap 'case "$B" in /tmp/verif-b-????????) rm -rf "$B";; esac' EXIT
mkdir -p "$B/scratch"
export VERIF_SCRATCH=$B/scratch
low=$(echo "$ID" | tr 'A-Z' 'a-z')
build() {
  make -s -C "$B" -j8 -f "$HERE/harness/Makefile" REPO="$REPO" VERIF="$HERE" CHECK="$low" TOOL="$1" >"$B/build.log" 2>&1
}
if ! build clang; then
  rm -f "$B"/*.o
  if ! build gcc; then
    echo "build failed:" >&2
    tail -30 "$B/build.log" >&2
    exit 4
  fi
fi
"$B/$low" "$TIER"
rc=$?
exit $rc
