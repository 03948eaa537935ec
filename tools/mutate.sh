#!/bin/sh
# mutate.sh PATCH PROPERTY...: runs checks against a scratch copy of /repo's headers with the patch applied
P=$(readlink -f "$1"); shift
W=$(mktemp -d /tmp/mut-XXXXXX)
mkdir -p $W/repo && cp -a /repo/include $W/repo/ && cd $W/repo && git init -q . && git add -A >/dev/null && git apply "$P" || { echo "patch does not apply"; exit 3; }
for p in "$@"; do (cd /verif && FV_REPO=$W/repo python3-vt -m fv.check $p; echo "rc=$?"); done
cd / && rm -rf "$W"
