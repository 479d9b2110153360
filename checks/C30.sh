# sourced by run: C30 runs the workloads of the other checks under sanitizers and Miri.
# VH_C30_BUILD=1: only build.
began=$(date +%s)
S="$T/san"
mkdir -p "$S"
san() { # name, flags, cargo arguments…; sets built
    local name=$1 flags=$2 d="$S/$1"; shift 2
    mkdir -p "$d"
    built=
    ( flock 9; fresh "$d"
      # the optimiser could remove the accesses that are to be watched
      CARGO_PROFILE_DEV_OPT_LEVEL=0 RUSTFLAGS="-Zthreads=8 $flags --cfg mysql_connector_exact_buffers" \
      cargo +nightly build --offline --manifest-path "$here/harness/Cargo.toml" --target-dir "$d" --target x86_64-unknown-linux-gnu \
          --config 'profile.dev.package.mysql-connector.opt-level=0' --features plainalloc,models --bin many "$@" >"$d/build.log" 2>&1
    ) 9>"$d/.lock" || { tail -40 "$d/build.log"; echo "BUILD FAILED ($name)"; exit 3; }
    built="$d/x86_64-unknown-linux-gnu/debug/many"
}
unset RUSTUP_TOOLCHAIN
san address "-Zsanitizer=address"; export C30_ASAN="$built"
san thread "-Zsanitizer=thread" -Zbuild-std; export C30_TSAN="$built"
san memory "-Zsanitizer=memory -Zsanitizer-memory-track-origins" -Zbuild-std; export C30_MSAN="$built"
export C30_MANIFEST="$here/harness/Cargo.toml" C30_MIRI="$S/miri"
mkdir -p "$C30_MIRI"
( flock 9; fresh "$C30_MIRI"
  MIRIFLAGS="-Zmiri-disable-isolation" cargo +nightly miri run --offline --features plainalloc,models --bin many --manifest-path "$C30_MANIFEST" --target-dir "$C30_MIRI" -- none >"$C30_MIRI/build.log" 2>&1
  grep -q 'Running' "$C30_MIRI/build.log"
) 9>"$C30_MIRI/.lock" || { tail -40 "$C30_MIRI/build.log"; echo "BUILD FAILED (miri)"; exit 3; }
export RUSTUP_TOOLCHAIN=stable
build --bin c30
[ -n "${VH_C30_BUILD:-}" ] && return 0
echo "C30: programs built in $(( $(date +%s) - began )) s"
export RUSTUP_TOOLCHAIN=nightly VH_TMP="$T/run"
if [ "$VERIF_TIER" = thorough ]; then
    export VH_WALL=20000
else
    # the whole check has 900 s
    export VH_WALL=$(( 840 - ( $(date +%s) - began ) )) C30_DEADLINE=$(( began + 640 ))
fi
exec "$T/debug/c30" "$@"
