#!/bin/bash
# try.sh PATCH ID...: runs checks against a scratch copy of /repo with PATCH applied.
# PATCH may be "-" (none). Output and evidence stay under /tmp/vpmut.
P=$1; [ "$P" != - ] && P=$(realpath "$1"); shift
M=${MUT:-/tmp/vpmut}
mkdir -p $M
exec 9>$M/lock; flock 9
rm -rf "$M/repo"
mkdir -p $M/repo && git -C /repo archive HEAD dpf dcf pir | tar -x -C $M/repo
if [ "$P" != - ]; then (cd $M/repo && git init -q . && git apply "$P") || exit 9; fi
for id in "$@"; do
  VP_REPO=$M/repo VP_BUILD=$M/build VP_EVIDENCE=$M/evidence python3 /verif/run.py check $id > $M/out.$id 2>&1
  echo "$id rc=$? $(grep -c VIOLATION $M/out.$id) violations: $(grep -m1 -- '^-- ' $M/out.$id | cut -c1-150)"
done
