#!/bin/bash
# seedcheck.sh [id-prefix...]: runs the check of each planted bug's property on a scratch copy with the bug applied
V="$(cd "$(dirname "$0")/.." && pwd)"
one() {
  id="$1"; S="$(mktemp -d /tmp/sck.XXXXXX)"; mkdir "$S/r"; cp -r /repo/src /repo/CMakeLists.txt /repo/PsConfig.h.in "$S/r/"
  ( cd "$S/r" && git init -q . && git apply "$V/seeded/$id/patch.diff" ) || echo "$id: patch does not apply"
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  PSE_REPO="$S/r" PSE_EVIDENCE="$S/ev" PSE_TUCACHE=/tmp/tuc python3 "$V/check.py" $p > "$S/out" 2>&1; rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" "$S/out"; then echo "CAUGHT $id $p: $(head -1 "$S/out" | cut -c1-200)"; else echo "MISSED $id $p rc=$rc"; tail -3 "$S/out" | cut -c1-300; python3 -c "import json;e=json.load(open('$S/ev/$p.json'));print('   undecided',e['coverage']['changed_undecided'][:3],'equal',e['coverage']['changed_equal'][:5])" | cut -c1-400; fi
  rm -r -- "$S"
}
cd "$V/seeded"
L=""; for i in *; do [ -d "$i" ] || continue; if [ $# = 0 ]; then L="$L $i"; else for p in "$@"; do case "$i" in $p*) L="$L $i";; esac; done; fi; done
export V; export -f one
printf '%s\n' $L | xargs -P 4 -I{} bash -c 'one {}'
