#!/bin/bash
# seedtest.sh <seed-id>...: confirm planted changes in a scratch clone (builds, stable tests pass, demo fails with / passes without)
W=/tmp/seedwt
if [ ! -d $W ]; then git clone -q /repo $W; fi
cd $W && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
bld() { cmake -S . -B _build -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_BUILD_TYPE=Debug -DKL_FETCH_DEPENDENCIES=OFF -DKL_TEST=ON -DKL_ENABLE_JSON=ON -DKL_ENABLE_YAML=OFF -DKL_DISABLE_CCACHE=ON -DCMAKE_PROJECT_INCLUDE=/opt/vp/support/rapidjson-target.cmake >/dev/null && ninja -C _build >/tmp/seed_build.log 2>&1; }
for s in "$@"; do
  d=/verif/seeded/$s
  git checkout -q -- . 
  D=/tmp/seeddemo; rm -rf /tmp/seeddemo; mkdir -p $D; cp $d/* $D/; rm -f $D/*.diff $D/meta.json
  timeout 300 bash $D/demo.sh >/tmp/seed_demo0.log 2>&1; a=$?
  if ! git apply $d/patch.diff; then echo "$s: PATCH DOES NOT APPLY"; continue; fi
  timeout 300 bash $D/demo.sh >/tmp/seed_demo1.log 2>&1; b=$?
  if [ -z "$NOBUILD" ]; then
  if bld; then rm -rf /tmp/seed_reports; mkdir -p /tmp/seed_reports; (cd $W; /usr/bin/python3 /opt/vp/support/run_catch.py $W/_build/tests/kl-tests /tmp/seed_reports >/dev/null 2>&1; /usr/bin/python3 /opt/vp/results.py /tmp/seed_res.json "junit:/tmp/seed_reports/*.xml" >/dev/null 2>&1)
    t=$(python3 -c "import json;b=json.load(open('/opt/vp/BASELINE.json'));b=b['stable'];r=set(json.load(open('/tmp/seed_res.json'))['passed']);print('OK' if set(b)<=r else 'TESTS-FAIL %d'%len(set(b)-r))"); else t=BUILDFAIL; fi
  else t=skipped; fi
  echo "$s: demo clean=$a patched=$b tests=$t"
  git checkout -q -- .
done
