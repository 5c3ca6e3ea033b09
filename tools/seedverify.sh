#!/bin/bash
# seedverify.sh ID... : confirms planted changes in a scratch copy of /repo: applies, builds, passes
# the stable tests, demo passes without and fails with it; then runs the property's check with it
# (in /repo, undone straight afterwards) when CHECK=1
. /opt/vp/env.sh
W=/tmp/seedverify.$$
mkdir -p $W
trap 'rm -rf /tmp/seedverify.'$$ EXIT
R=${SEED_REPO:-/repo}; V=${SEED_VERIF:-/verif}
cp -a $R $W/repo; rm -rf $W/repo/internal/verif*
for s in test savetest build; do sed "s#/repo#$W/repo#g;s#/opt/vp/savetest.sh#$W/savetest.sh#" /opt/vp/$s.sh > $W/$s.sh; chmod +x $W/$s.sh; done
for id in "$@"; do
  d=$V/seeded/$id; r=""
  cd $W/repo; git checkout -q -- . 
  mkdir -p $W/demo; rm -rf $W/demo/*; cp -r $d/. $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
  timeout 300 bash $W/demo/demo.sh > $W/clean.log 2>&1 || { r="$r demo-fails-clean"; tail -20 $W/clean.log; }
  git apply $d/patch.diff || r="$r noapply"
  bash $W/build.sh > $W/b.log 2>&1 || { r="$r nobuild"; tail $W/b.log; }
  timeout 300 bash $W/demo/demo.sh > $W/bug.log 2>&1 && r="$r demo-passes-with-bug"
  grep -qE "build failed|setup failed|cannot find|syntax error" $W/bug.log && { r="$r demo-build-problem"; tail -5 $W/bug.log; }
  if [ -z "$NOTESTS" ]; then
    bash $W/test.sh $W/out.json > $W/t.log 2>&1
    python3 - $W/out.json <<'P' || r="$r tests-fail"
import json,sys
base=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def passed(x):
    for k in ('passed','pass','stable','tests'):
        if isinstance(x,dict) and k in x:
            v=x[k]; return set(v if isinstance(v,list) else v.keys())
b=passed(base); p=passed(o)
m=sorted(b-p)
print("missing:",m[:5]) if m else None
sys.exit(1 if m else 0)
P
  fi
  [ -z "$r" ] && r=" confirmed"
  echo "$id:$r"
done
