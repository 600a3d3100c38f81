#!/bin/bash
# Confirms a planted bug in a scratch copy: builds, tests pass, demo 0 without / non-zero with the patch.
# usage: tools/seedcheck.sh ID...
W=/tmp/seedwt; mkdir -p $W
rsync -a --delete --exclude target /repo/ $W/repo/ 2>/dev/null || { rm -rf /tmp/seedwt/repo; cp -a /repo $W/repo; }
[ -d $W/repo/target ] || cp -a /repo/target $W/repo/target
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR=$W/repo/target
cd $W/repo || exit 1
build() { cargo build --workspace --offline -q 2>&1 | tail -30 && cargo test --workspace --all-targets --features amzn-smt-eager-arithmetic/varisat --no-run --offline -q 2>&1 | grep -E "^error" ; }
git checkout -q -- . ; build
for id in "$@"; do
  S=/verif/seeded/$id; L=$W/laid; rm -rf /tmp/seedwt/laid; cp -r $S $L; rm -f $L/patch.diff $L/meta.json
  timeout 300 bash $L/demo.sh > $W/clean.out 2>&1; c=$?
  git apply $S/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; continue; }
  build
  cargo test --workspace --features amzn-smt-eager-arithmetic/varisat --no-fail-fast --offline -q > $W/test.out 2>&1; t=$?
  timeout 300 bash $L/demo.sh > $W/bug.out 2>&1; b=$?
  git checkout -q -- .
  echo "$id: demo clean=$c (want 0) bug=$b (want !=0) tests=$t (want 0)"
  [ $c = 0 ] || tail -5 $W/clean.out; [ $t = 0 ] || grep -E "FAILED|panicked|error" $W/test.out | head; tail -3 $W/bug.out | cut -c1-300
done
build
