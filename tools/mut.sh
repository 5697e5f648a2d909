#!/bin/bash
# mut.sh FILE.diff|- ID...: applies a diff to a scratch copy of /repo and runs checks against it.
D=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo $D/repo
P=$1; shift
if ! git -C $D/repo apply "$P"; then echo "does not apply"; rm -r $D; exit 2; fi
for id in "$@"; do
  VERIF_REPO=$D/repo VERIF_BUILD=$D/build VERIF_OUT=$D/out timeout 900 python3 /verif/run.py $id > $D/log 2>&1
  echo "$id exit $? $(grep -c VIOLATION $D/log) :: $(head -c ${LOGN:-300} $D/log | tr '\n' ' ')"
done
rm -r $D
