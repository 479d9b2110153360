# sourced by run: the same session checks without the `time` feature, then with it
N="$T/nofeat"
mkdir -p "$N"
( flock 9; fresh "$N"
  cargo build --offline --manifest-path "$here/harness/Cargo.toml" --target-dir "$N" --no-default-features --bin c16n >"$N/build.log" 2>&1
) 9>"$N/.lock" || { tail -40 "$N/build.log"; echo "BUILD FAILED"; exit 3; }
case "$*" in
    *n-*) exec "$N/debug/c16n" "$@" ;;
    *--replay*) build --bin c16; exec "$T/debug/c16" "$@" ;;
esac
build --bin c16
export VH_TMP="$T/run"
part="$T/no-time-feature.json"
rm -f "$part"
VH_PART_OUT="$part" "$N/debug/c16n" || { rc=$?; [ -e "$part" ] && cp "$part" "$here/evidence/C16.json"; exit $rc; }
VH_PARTS="$part" exec "$T/debug/c16"
