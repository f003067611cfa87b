#!/bin/bash
# tools/trybug.sh [-t] ID...   confirm planted bugs in a scratch copy of /repo: demo, (with -t) stable tests, and our check
T=0; [ "$1" = -t ] && { T=1; shift; }
W=/tmp/seedrepo
H=$(git -C /repo rev-parse HEAD)
if [ ! -d $W ]; then git clone -q /repo $W; fi
git -C $W checkout -q -- . && git -C $W fetch -q /repo HEAD && git -C $W checkout -q --detach $H
for id in "$@"; do
  D=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  rm -rf /tmp/seeddemo; mkdir /tmp/seeddemo; cp $D/* /tmp/seeddemo; rm -f /tmp/seeddemo/*.diff /tmp/seeddemo/meta.json
  (cd $W && timeout 300 bash /tmp/seeddemo/demo.sh >/tmp/seed.$id.demo0 2>&1); d0=$?
  git -C $W apply $D/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd $W && timeout 300 bash /tmp/seeddemo/demo.sh >/tmp/seed.$id.demo1 2>&1); d1=$?
  t=skipped
  if [ $T = 1 ]; then
    (cmake -S $W -B $W/_build -G Ninja -DCMAKE_C_COMPILER=/usr/bin/clang -DCMAKE_CXX_COMPILER=/usr/bin/clang++ -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_STANDARD=23 -DDAW_ENABLE_TESTING=ON -DDAW_ENABLE_DEPRECATED_TESTING=ON -DDAW_WERROR=ON -DFORCE_COLORED_OUTPUT=OFF
     cd $W/_build && ninja -k 0 daw-header-libraries_full daw_bind_args_at_test daw_bit_queues_test daw_bit_test daw_sort_n_test || echo BUILD-FAILED
     ctest -j8 --timeout 300 -E '^daw_range_test_test$' --output-junit /tmp/seed.$id.xml) >/tmp/seed.$id.log 2>&1
    grep "^FAILED" /tmp/seed.$id.log | grep -v "enumerate_tuple\|bounded_string_test\|stack_quick_sort\|string_split_range" | sed "s|^|$id build: |"
    t=$(python3 - <<P
import json,subprocess,xml.etree.ElementTree as ET,os
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ok={c.get('name') for c in ET.parse('/tmp/seed.$id.xml').getroot().iter('testcase') if c.get('status')=='run' and c.find('failure') is None}
for t in "daw_bind_args_at_test daw_bit_queues_test daw_bit_test daw_sort_n_test".split():
    if os.path.exists('$W/_build/tests/'+t) and subprocess.run(['$W/_build/tests/'+t],cwd='$W/_build/tests',stdout=-3,stderr=-3,timeout=300).returncode==0: ok.add('dev/'+t)
f=sorted(b-ok)
print('all stable pass' if not f else 'FAIL '+','.join(f))
P
)
  fi
  s=$(date +%s)
  (cd /verif && VP_REPO=$W VERIF_TIER=quick VERIF_SEED=1 python3 lib/mbt.py $prop quick >/tmp/seed.$id.check 2>&1); c=$?
  v=$(grep -c "^VIOLATION property=$prop " /tmp/seed.$id.check)
  echo "$id $prop: demo unchanged=$d0 patched=$d1; tests: $t; check exit=$c violation=$v ($(( $(date +%s)-s ))s)"
  git -C $W checkout -q -- .
done
