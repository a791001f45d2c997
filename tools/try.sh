#!/bin/bash
# try.sh PATCH|COMMIT|- FACTOR ID...   runs checks against a changed scratch copy of the repository
# (scratch under /tmp/obsverif-try; nothing in /repo is touched)
what=$1; factor=$2; shift 2
T=${OBSVERIF_TRY:-/tmp/obsverif-try}
mkdir -p $T/root
[ -d $T/repo ] || git clone -q /repo $T/repo
git -C $T/repo fetch -q /repo HEAD && git -C $T/repo checkout -q -f FETCH_HEAD && git -C $T/repo clean -qfd -e target
if [ -f "$what" ]; then git -C $T/repo apply "$what" || exit 9
elif [ "$what" != - ]; then git -C $T/repo checkout -q -f "$what" || exit 9; fi
rsync -a --delete --exclude target /verif/harness/ $T/harness/ 2>/dev/null || { mkdir -p $T/harness; (cd /verif/harness && tar cf - --exclude target .) | (cd $T/harness && tar xf -); }
sed -i "s#path = \"/repo\"#path = \"$T/repo\"#" $T/harness/Cargo.toml
find $T/repo/src -name '*.rs' -exec touch {} +
cd $T/harness && cargo build --release --offline >$T/build.log 2>&1 || { tail -20 $T/build.log; echo BUILD-FAILED; exit 8; }
for id in "$@"; do
  timeout 900 ./target/release/obsverif check $id --factor $factor --root $T/root 2>&1 | grep -v '^$' | cut -c1-${WIDTH:-400} | tail -4
  echo "$id exit ${PIPESTATUS[0]}"
done
