#!/bin/bash
# bash tools/revert.sh COMMIT PROP RUNS: runs a check on a copy of /repo with one fix undone (it has to alarm)
set -e
D=$(mktemp -d /tmp/revert.XXXX)
trap 'rm -rf "$D"' EXIT
git clone -q /repo "$D/r"
(cd /repo && git ls-files -o -i --exclude-standard caput | grep '\.so$' | while read -r f; do cp -a "$f" "$D/r/$f"; done)
cd "$D/r"
git -c user.name=x -c user.email=x revert --no-edit "$1" > /dev/null 2>&1 || { echo "CONFLICT $1"; exit 3; }
cd /verif
SIMLAB_REPO="$D/r" bash run.sh "$2" --runs "${3:-3000}" 2>&1 | grep -E "VIOLATION|violat|held|runs" | head -3
