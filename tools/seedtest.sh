#!/bin/bash
# seedtest.sh ID...: confirms a planted bug in a scratch copy: builds, stable tests pass, demo fails with it and passes without.
# seedtest.sh --check ID...: also runs the property's check against the patched copy (VERIF_REPO).
chk=0; [ "$1" = --check ] && { chk=1; shift; }
for id in "$@"; do
  d=/verif/seeded/$id; w=/tmp/seed_$id
  rm -rf "$w"; git -C /repo worktree prune; git -C /repo worktree add -q --detach "$w" HEAD || exit 1
  cp -a /repo/_build "$w/_build"; cp -r "$d" /tmp/seed_demo_$id
  ( cd "$w"; bash /tmp/seed_demo_$id/demo.sh >/tmp/seed_$id.log 2>&1 ); clean=$?
  git -C "$w" apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  sed "s#/repo/_build#$w/_build#g; s#-S /repo#-S $w#" /opt/vp/build.sh > /tmp/seed_build_$id.sh
  rm -rf "$w/_build"; bash /tmp/seed_build_$id.sh >/tmp/seed_$id.build 2>&1; b=$?
  t=$(cd $w/_build && LTTNG_UST_REGISTER_TIMEOUT=0 ctest --timeout 60 -E '^(test_native_tracing_macros|test_tracepoint_native_tracepoints)$' 2>&1 | grep 'tests passed\|Failed' | tr '\n' ' ')
  ( cd "$w"; bash /tmp/seed_demo_$id/demo.sh >>/tmp/seed_$id.log 2>&1 ); bug=$?
  echo "$id: clean demo rc=$clean, build rc=$b, tests: $t, demo with bug rc=$bug"
  if [ $chk = 1 ]; then
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    ( cd /verif; VERIF_REPO=$w python3 check.py $p --quick > /tmp/seed_$id.check 2>&1; echo "   check $p rc=$? $(grep -c VIOLATION /tmp/seed_$id.check) $(tail -2 /tmp/seed_$id.check | head -1 | cut -c1-200)" )
  fi
  git -C /repo worktree remove --force "$w"; rm -rf /tmp/seed_demo_$id /tmp/seed_build_$id.sh "$w"
done
