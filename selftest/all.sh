#!/bin/bash
# all.sh PATCH [PROPERTY...]: applies PATCH to a scratch copy of /repo and runs the checks on that copy.
# Prints one line per check that is not quiet. Development aid; no check uses it.
P=$(realpath "$1"); shift
V=$(dirname "$(dirname "$(realpath "$0")")")
D=$(mktemp -d /tmp/vf-all-XXXX)
cp -a /repo "$D/repo"; rm -rf "$D/repo/_build" "$D/repo/.git"
(cd "$D/repo" && patch -s -p1 < "$P") || { echo "PATCH FAILED"; rm -rf "$D"; exit 2; }
L=("$@"); [ ${#L[@]} = 0 ] && L=($(python3 -c "import sys;sys.path.insert(0,'$V/engine');import specs;print(' '.join(sorted(specs.SPECS)))"))
export VF_REPO=$D/repo VF_EVID=$D/ev
mkdir -p $VF_EVID
printf '%s\n' "${L[@]}" | xargs -P ${JOBS:-3} -I{} bash -c "timeout 900 python3 $V/engine/check.py {} quick > $D/{}.log 2>&1; rc=\$?; [ \$rc = 0 ] || { echo \"{} rc=\$rc: \$(grep -v '^VIOLATION' $D/{}.log | cut -c1-260 | head -4)\"; }"
rm -rf "$D"
