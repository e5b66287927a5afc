#!/bin/bash
# seedcheck.sh ID...: confirms that a planted bug builds, passes the tests, and that its demonstration tells the two trees apart
for id in "$@"; do
  D=/verif/seeded/$id; W=/tmp/seed.$$; rm -rf "$W"; mkdir -p "$W"
  git -C /repo stash list >/dev/null
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 2; }
  mkdir "$W/demo"; cp -r $D/. "$W/demo"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
  (cd /repo && timeout 300 bash "$W/demo/demo.sh" >"$W/o1" 2>&1); r1=$?
  git -C /repo apply "$D/patch.diff" || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >"$W/b" 2>&1; rb=$?
  bash /opt/vp/test.sh "$W/t.json" >"$W/t" 2>&1; rt=$?
  (cd /repo && timeout 300 bash "$W/demo/demo.sh" >"$W/o2" 2>&1); r2=$?
  git -C /repo checkout -- . ; 
  echo "$id: demo clean=$r1 build=$rb tests=$rt ($(tail -1 $W/t)) demo patched=$r2"
  [ $r1 = 0 ] || tail -5 "$W/o1"; [ $rb = 0 ] || tail -5 "$W/b"; [ $r2 != 0 ] && tail -2 "$W/o2"
  rm -rf "$W"
done
bash /opt/vp/build.sh >/dev/null 2>&1
