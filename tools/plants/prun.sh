#!/bin/bash
# prun.sh JOBS ID... : like run.sh, but several at a time, each in a mount
# namespace of its own in which /repo and /verif are private copies, so that
# the real ones stay as they are.
jobs=$1; shift
one() {
    id=$1
    w=$(mktemp -d /tmp/prun.XXXXXX)
    mkdir "$w/repo" "$w/verif"
    git -C /repo archive HEAD | tar -x -C "$w/repo"
    cp -a /repo/.git "$w/repo/.git"
    cp -a /verif/. "$w/verif/"
    prop=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
    s=$(date +%s)
    out=$(unshare -m bash -c "mount --bind $w/repo /repo && mount --bind $w/verif /verif && cd /repo && git checkout -q -f HEAD -- . ; git apply /verif/seeded/$id/patch.diff || { echo NOAPPLY; exit 9; }; cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash ./check.sh $prop quick 2>&1"; echo "rc=$?")
    rc=${out##*rc=}
    e=$(( $(date +%s) - s ))
    if [ "$rc" = 1 ] && grep -q "^VIOLATION property=$prop" <<<"$out"; then
        echo "$id caught ${e}s"
    else
        echo "$id MISSED(rc=$rc) ${e}s"
    fi
    case "$w" in /tmp/prun.*) rm -rf "$w";; esac
}
export -f one
printf '%s\n' "$@" | xargs -P "$jobs" -I{} bash -c 'one {}'
