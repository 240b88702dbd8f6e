#!/bin/bash
# Builds every registered harness from /repo's working tree.
set -u
cd "$(dirname "$0")/.."
rc=0
for v in plain asan tsan; do
  t=(); for f in harness/*.variant; do h=$(basename "$f" .variant); [ "$(cat "$f")" = $v ] && t+=("bin/$h"); done
  [ ${#t[@]} = 0 ] && continue
  mkdir -p build; python3 tools/gen_ninja.py $v >build/setup.gen.log 2>&1 || rc=1
  ninja --quiet -k0 -C build/$v "${t[@]}" >build/setup.$v.log 2>&1 || { grep -aE "error|FAILED" build/setup.$v.log | cut -c1-300 | head -10; rc=1; }
done
exit $rc
