#!/bin/bash
# bugs.sh [regex]: runs, for every planted bug, the check of its property on a scratch clone with the bug applied
cd /verif/seeded
one() { b=$1; d=/tmp/w/bug/$2; mkdir -p $d; rm -rf $d/repo; mkdir -p $d/repo; (cd /repo && git ls-files -z | xargs -0 cp --parents -t $d/repo; cp /repo/Cargo.lock $d/repo)
 (cd $d/repo && git init -q . && git apply /verif/seeded/$b/patch.diff) || { echo "$b: NOAPPLY"; return; }
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
 VERIF_REPO=$d/repo VERIF_CACHE=$d/cache VERIF_EVIDENCE=$d/ev timeout 900 python3 /verif/check.py $p quick > $d/$b.log 2>&1; rc=$?
 echo "$b $p rc=$rc $(grep -c '^VIOLATION' $d/$b.log)"; }
export -f one
ls | grep -E "${1:-.}" | xargs -P 6 -I{} --process-slot-var=SLOT bash -c 'one {} $SLOT'
