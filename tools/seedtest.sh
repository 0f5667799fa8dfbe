#!/bin/bash
# seedtest.sh ID...: validates planted bugs in a scratch copy of /repo: applies, builds, stable tests pass, demo passes without and fails with
S=/tmp/seed/repo
export CARGO_PROFILE_DEV_OPT_LEVEL=3 CARGO_PROFILE_TEST_OPT_LEVEL=3
mkdir -p /tmp/seed
[ -d $S ] || cp -a /repo $S
for id in "$@"; do
  d=/verif/seeded/$id
  rsync -a --delete --exclude target --exclude .git /repo/ $S/ 2>/dev/null || { cp -a /repo/src $S/; }
  cd $S; git checkout -q -- . 
  bash $d/demo.sh >/tmp/seed/$id.clean.log 2>&1; c=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash $d/demo.sh >/tmp/seed/$id.bug.log 2>&1; b=$?
  t=skip
  if [ -z "$NOTEST" ]; then
    timeout 800 cargo test --offline --no-fail-fast -- --test-threads 8 > /tmp/seed/$id.test.log 2>&1
    t=$(grep -c "^test .* ok$" /tmp/seed/$id.test.log)/$(grep -c "^test .* FAILED$" /tmp/seed/$id.test.log)
  fi
  git checkout -q -- .
  echo "$id: demo clean rc=$c bug rc=$b tests ok/failed=$t"
done
