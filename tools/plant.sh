#!/bin/bash
# plant.sh start          : fresh scratch copy of /repo in /tmp/rp
# plant.sh keep ID        : the edits made in /tmp/rp become seeded/ID (demo.sh and meta.json must be there), once confirmed
# plant.sh catch ID PROP  : run the quick check PROP with the bug applied to /tmp/rp
V=/verif; R=/tmp/rp
case "$1" in
start) [ -d $R ] || cp -a /repo $R; git -C $R checkout -q -- .; git -C $R fetch -q /repo HEAD 2>/dev/null && git -C $R reset -q --hard FETCH_HEAD; git -C $R status --short;;
keep) S=$V/seeded/$2; git -C $R diff > $S/patch.diff; [ -s $S/patch.diff ] || { echo "no diff"; exit 1; }
  (cd $R && cargo build --workspace --offline 2>&1 | grep -E "^error|Finished" | grep -v error ) || { echo NOBUILD; exit 1; }
  (cd $R && cargo test --workspace --offline 2>&1 | grep -E "test result|FAILED|^error" )
  chmod +x $S/demo.sh
  (cd $R && timeout 300 bash $S/demo.sh >/tmp/demo.out 2>&1); rc=$?; tail -3 /tmp/demo.out; echo "with the bug: $rc"
  (cd /repo && timeout 300 bash $S/demo.sh >/tmp/demo.out 2>&1); rc0=$?; tail -3 /tmp/demo.out; echo "without: $rc0"
  if [ $rc -ne 0 ] && [ $rc0 -eq 0 ]; then echo "KEPT $2"; else echo "NOT CONFIRMED $2"; fi
  git -C $R checkout -q -- .;;
catch) git -C $R checkout -q -- .; git -C $R apply $V/seeded/$2/patch.diff || exit 1
  (cd $V && HIBOU_REPO=$R HIBOU_BUILD=/tmp/bld ./check.sh $3 quick 2>&1 | tail -${4:-3} | cut -c1-400); git -C $R checkout -q -- .;;
esac
