#!/bin/bash
# trybug.sh ID [CHECK]: in a private mount of a copy of /repo: seeded/ID's demo without and with its patch, its check, the stable tests.
if [ -z "$TRYBUG_IN" ]; then
  T=$(mktemp -d /tmp/trybug.XXXX); cp -a /repo/. "$T/"; rm -rf "$T/.git/worktrees"
  TRYBUG_IN=1 unshare -m bash -c 'mount --bind "$0" /repo && exec bash "$@"' "$T" "$0" "$@"; rc=$?
  rm -rf "$T"; exit $rc
fi
ID=$1
V=/verif
P=$V/seeded/$ID/patch.diff
PROP=${2:-$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")}
cd /repo || exit 2
D=$(mktemp -d); cp -r $V/seeded/$ID/. $D/
trap 'rm -rf $D' EXIT
timeout 300 bash $D/demo.sh >$D/clean.log 2>&1; echo "$ID demo clean: $?"
git apply $P || { echo "does not apply"; exit 2; }
timeout 300 bash $D/demo.sh >$D/bug.log 2>&1; echo "$ID demo bug: $?"; tail -1 $D/bug.log | cut -c1-200
(cd $V && timeout 900 bash run.sh $PROP --tier quick > $D/chk.log 2>&1; echo "$ID check rc $?"; grep -E "VIOLATION" -A1 $D/chk.log | head -3 | cut -c1-400)
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh $D/out.json >$D/test.log 2>&1
python3 - $D/out.json $ID <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
bad=set(b['stable'])-set(o['passed'])
print(sys.argv[2], "stable tests broken:",len(bad),sorted(bad)[:5])
PY
fi
