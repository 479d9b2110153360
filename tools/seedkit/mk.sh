#!/bin/bash
# usage: mk.sh ID   verifies /verif/seeded/ID in a scratch copy of /repo: applies, builds, stable tests, demo both ways
set -u
id=$1; d=/verif/seeded/$id
cp -n /verif/tools/seedkit/demo.sh "$d/" ; [ -e "$d/main.rs" ] && grep -q 'mod fake' "$d/main.rs" && cp /verif/tools/seedkit/fake.rs "$d/fake.rs"
w=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/r"; cd "$w/r"; git checkout -q -- . 
echo "clean:"; bash "$d/demo.sh" > "$w/o1" 2>&1; a=$?; tail -2 "$w/o1"
git apply "$d/patch.diff" || { echo "NO APPLY"; exit 1; }
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/r/target"
cargo test --workspace --all-features --lib --examples --offline > "$w/t1" 2>&1; t1=$?
cargo test --workspace --no-default-features --lib --offline > "$w/t2" 2>&1; t2=$?
unset CARGO_TARGET_DIR
echo "patched:"; bash "$d/demo.sh" > "$w/o2" 2>&1; b=$?; tail -4 "$w/o2"
[ $t1 = 0 ] || tail -20 "$w/t1"
echo "$id demo clean=$a patched=$b tests=$t1,$t2"
