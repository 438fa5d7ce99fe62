#!/bin/bash
# evalbug.sh [-c "P01 P02"|-c all] [-n] id...  : in a private mount namespace, on a copy of
# /repo: build, stable tests, demo without and with the patch, then the checks (default: the
# check of the bug's property). -n: skip the tests and demo. Results in /tmp/eval/<id>.txt
CHECKS=""; NOTEST=0
while getopts "c:n" o; do case $o in c) CHECKS=$OPTARG;; n) NOTEST=1;; esac; done
shift $((OPTIND-1))
mkdir -p /tmp/eval
if [ -z "$EVAL_IN_NS" ]; then
  W=/tmp/evalrepo.$$
  cp -a /repo $W
  EVAL_IN_NS=$W unshare -m --propagation private bash "$0" ${CHECKS:+-c "$CHECKS"} $([ $NOTEST = 1 ] && echo -n) "$@"
  rm -rf $W
  exit
fi
mount --bind $EVAL_IN_NS /repo || exit 2
cd /repo
for id in "$@"; do
  D=/verif/seeded/$id; OUT=/tmp/eval/$id.txt; : > $OUT
  S=$(mktemp -d /tmp/evs.XXXX)
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git checkout -q -- . 
  if [ $NOTEST = 0 ]; then
    cp -r $D $S/demo; (cd /repo; timeout 300 bash $S/demo/demo.sh > $S/d0.log 2>&1); d0=$?
  fi
  git apply $D/patch.diff || { echo "$id: patch does not apply" | tee -a $OUT; continue; }
  if [ $NOTEST = 0 ]; then
    (cd /repo; timeout 300 bash $S/demo/demo.sh > $S/d1.log 2>&1); d1=$?
    timeout 900 bash /opt/vp/test.sh $S/o.json > $S/t.log 2>&1
    t=$(python3 - $S/o.json <<'Y'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
m=set(b['stable'])-set(o['passed']);print(len(m),sorted(m)[:3])
Y
)
    echo "$id [$P] demo clean=$d0 patched=$d1 missing-tests=$t" | tee -a $OUT
    [ $d0 = 0 ] || tail -5 $S/d0.log
    tail -3 $S/d1.log >> $OUT
  fi
  C=${CHECKS:-$P}; [ "$C" = all ] && C=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])")
  for c in $C; do
    (cd /verif; HZ_BUILD=$S/build HZ_EVIDENCE=$S/ev VERIF_SEED=1 timeout 900 python3 run.py $c --tier quick > $S/$c.log 2>&1); rc=$?
    echo "   $id $c rc=$rc $(grep -m1 VIOLATION $S/$c.log | cut -c1-150)" | tee -a $OUT
  done
  git checkout -q -- .
  rm -rf $S
done
