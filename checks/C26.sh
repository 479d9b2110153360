# sourced by run: the checks of derived models have a feature of their own, so that a derive that no
# longer compiles for one of the shapes fails them and not every check
( flock 9; fresh "$T"
  cargo build --offline --manifest-path "$here/harness/Cargo.toml" --target-dir "$T" --features models --bin "$low" >"$T/models.log" 2>&1
) 9>"$T/.lock" || {
    build --lib
    tail -60 "$T/models.log"
    if grep -qE '^ *--> src/(models_gen|entities_gen|entities)\.rs' "$T/models.log"; then
        replay="$here/evidence/replay-$id.txt"
        { echo "The models of harness/src/models_gen.rs, which the derive macros supported, do not compile:"; cat "$T/models.log"; } > "$replay"
        echo "VIOLATION property=$id replay=$replay"
        exit 1
    fi
    echo "BUILD FAILED"; exit 3
}
exec "$T/debug/$low" "$@"
