#!/bin/bash
# try.sh ID...: on the unchanged tree the demo holds; with the patch it builds, passes the tests, and the demo fails
. /verif/env.sh
REPO=${REPO:-/repo}
for id in "$@"; do
d=/verif/seeded/$id
[ -z "$(git -C $REPO status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
(cd $REPO && bash $d/demo.sh) >/tmp/demo.$id.clean 2>&1 || { echo "$id: demo fails on the unchanged tree"; tail -15 /tmp/demo.$id.clean; continue; }
git -C $REPO apply $d/patch.diff || { echo "$id: does not apply"; continue; }
(cd $REPO && bash $d/demo.sh) >/tmp/demo.$id.bug 2>&1; r=$?
t=; if [ -z "$NOTEST" ]; then t=$(bash /tmp/ci.sh 2>&1 | tail -1); fi
git -C $REPO checkout -- .
if [ $r = 0 ]; then echo "$id: demo does not fail with the patch"; else echo "$id: ok ($r) $(grep -m1 -A1 panicked /tmp/demo.$id.bug | tail -1) | tests: $t"; fi
[ $r = 3 ] && tail -20 /tmp/demo.$id.bug
done
