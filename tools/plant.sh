#!/bin/bash
# plant.sh BUG [CHECK...]: confirms one planted bug (seeded/BUG) in scratch copies under /tmp/plant and runs checks against it.
# Environment: NOTEST=1 skips the test suite, NODEMO=1 the demonstration.
set -u
BUG="$1"; shift
B=/verif/seeded/$BUG
W=${PLANT_DIR:-/tmp/plant}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p $W/repo $W/verif
(cd /repo && git ls-files -z | rsync -a --delete --from0 --files-from=- /repo/ $W/repo/ 2>/dev/null || true)
cp /repo/Cargo.lock $W/repo/ 2>/dev/null
rsync -a --delete --exclude target --exclude evidence --exclude replays --exclude seeded --exclude .git /verif/ $W/verif/
mkdir -p $W/verif/evidence $W/verif/replays
find $W/verif -name Cargo.toml -not -path '*/target/*' | xargs sed -i "s#\"/repo\"#\"$W/repo\"#"
sed -i "s#cd /repo#cd $W/repo#" $W/verif/run.sh
touch $W/repo/src/*.rs
if [ -z "${NODEMO:-}" ]; then
  (cd $W/repo && bash $B/demo.sh >/tmp/plant-demo0.log 2>&1); echo "$BUG demo clean: $? (want 0)"
fi
(cd $W/repo && patch -s -p1 < $B/patch.diff) || { echo "$BUG: patch does not apply"; exit 3; }
touch $W/repo/src/*.rs
if [ -z "${NODEMO:-}" ]; then
  (cd $W/repo && bash $B/demo.sh >/tmp/plant-demo1.log 2>&1); echo "$BUG demo patched: $? (want nonzero) $(tail -1 /tmp/plant-demo1.log | cut -c1-200)"
fi
if [ -z "${NOTEST:-}" ]; then
  (cd $W/repo && CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >/tmp/plant-test.log 2>&1); echo "$BUG tests: $? (want 0) $(grep -c '\.\.\. ok' /tmp/plant-test.log) ok, $(grep -c '\.\.\. FAILED' /tmp/plant-test.log) failed"
fi
for c in "$@"; do
  (cd $W/verif && VERIF_SEED=1 VERIF_TIER=quick ./run.sh $c >/tmp/plant-check.log 2>&1); rc=$?
  echo "$BUG $c: exit $rc $(grep -m1 VIOLATION /tmp/plant-check.log) $(grep -E "^$c .*\[" /tmp/plant-check.log | head -2 | cut -c1-160)"
done
