#!/bin/bash
# usage: nsrun.sh <slot> <patch|none> <property>...   Runs checks of /verif against a patched copy of /repo mounted over /repo in a
# mount namespace of its own, with build and evidence folders of its own (development aid; lets several run in parallel).
slot=$1 patch=$2; shift 2
w=/tmp/ns/$slot
mkdir -p $w/target $w/evidence $w/replays
if [ ! -d $w/repo ]; then git clone -q /repo $w/repo; fi
git -C $w/repo fetch -q; git -C $w/repo reset -q --hard origin/HEAD; git -C $w/repo clean -fdq
[ "$patch" = none ] || git -C $w/repo apply --whitespace=nowarn "$patch" || { echo "$patch: does not apply"; exit 3; }
unshare -m bash -c '
w=$1; shift; patch=$1; shift
[ -z "${V:-}" ] || mount --bind $V /verif
mount --bind $w/repo /repo; mount --bind $w/target /verif/mc/target; mount --bind $w/evidence /verif/evidence; mount --bind $w/replays /verif/replays
cd /verif
for p in "$@"; do
  s=$(date +%s); out=$(timeout 1800 ./check $p 2>&1); rc=$?
  n=$(basename $(dirname "$patch"))/$(basename "$patch" .diff); 
  echo "$n $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 VIOLATION | cut -d" " -f2) $(echo "$out" | grep -v VIOLATION | tail -1 | cut -c1-${W:-200})"
  [ -n "${STOP:-}" ] && [ $rc = 1 ] && break
done' x $w "$patch" "$@"
