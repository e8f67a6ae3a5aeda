#!/bin/bash
# Builds the simulator against /repo's working tree and runs one check.
#   run.sh setup | check PROP | replay FILE
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo=/repo
sim="$here/sim"
target="$sim/target"
export PATH="$PATH:/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER RUST_BACKTRACE LD_PRELOAD
tier="${VERIF_TIER:-quick}"
seed="${VERIF_SEED:-1}"

# Cargo goes by modification times alone; a changed tree with old times must not pass for built.
fresh() {
    mkdir -p "$target"
    local sums
    sums=$(cd "$repo" && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' \) -exec sha256sum {} + | sort -k2 | sha256sum)
    if [ "$sums" != "$(cat "$target/sums" 2>/dev/null)" ]; then
        local d p
        for d in seam plain demo; do
            for p in dev release; do
                [ -d "$target/$d" ] && cargo clean --offline --quiet --manifest-path "$sim/Cargo.toml" --target-dir "$target/$d" --profile "$p" -p clarith >/dev/null 2>&1
            done
        done
        printf '%s\n' "$sums" >"$target/sums"
    fi
}

harness() { # target-dir flags log
    RUSTFLAGS="$2" cargo build --offline --locked --quiet --manifest-path "$sim/Cargo.toml" --target-dir "$target/$1" >>"$3" 2>&1 &&
        RUSTFLAGS="$2" cargo build --offline --locked --quiet --release --manifest-path "$sim/Cargo.toml" --target-dir "$target/$1" >>"$3" 2>&1
}

build() {
    fresh
    local log="$target/build-$$.log"
    : >"$log"
    if harness seam "--cfg clarith_sim" "$log"; then
        bin="$target/seam"
    else
        # The seam does not fit the tree: go through the public interface alone.
        echo "note: building without the seam"
        if harness plain "" "$log"; then
            bin="$target/plain"
        else
            tail -40 "$log" >&2
            rm -f "$target/build-$$.log"
            echo "error: /repo does not build" >&2
            exit 2
        fi
    fi
    rm -f "$target/build-$$.log"
}

build_demo() {
    local log="$target/build-$$.log"
    if ! { cargo build --offline --quiet --bin clarith --manifest-path "$repo/Cargo.toml" --target-dir "$target/demo" &&
        cargo build --offline --quiet --release --bin clarith --manifest-path "$repo/Cargo.toml" --target-dir "$target/demo" &&
        cc -O1 -shared -fPIC -o "$target/demo/shim.so" "$sim/shim/shim.c"; } >"$log" 2>&1; then
        tail -40 "$log" >&2
        rm -f "$target/build-$$.log"
        echo "error: the demonstration program does not build" >&2
        exit 2
    fi
    rm -f "$target/build-$$.log"
}

case "${1:-}" in
setup)
    build
    build_demo
    ;;
check)
    prop="$2"
    build
    runs=$(awk -v p="$prop" -v t="$tier" '$1 == p { print (t == "thorough") ? $3 : $2 }' "$here/runs.txt")
    secs=$([ "$tier" = thorough ] && echo 780 || echo 300)
    common=(--tier "$tier" --seed "$seed" --runs "${VERIF_RUNS:-$runs}" --seconds "$secs" --workers "${VERIF_WORKERS:-8}"
        --evidence "$here/evidence/$prop.json" --replays "$here/evidence/replays")
    if [ "$prop" = C12 ]; then
        build_demo
        "$bin/release/clsim" demo "${common[@]}" --shim "$target/demo/shim.so" --scratch "$target/demo/scratch-$$" \
            --bins "checked=$target/demo/debug/clarith,wrapping=$target/demo/release/clarith"
    else
        "$bin/debug/clsim" check --prop "$prop" "${common[@]}" --bins "checked=$bin/debug/clsim,wrapping=$bin/release/clsim"
    fi
    code=$?
    grep "^known: property=$prop " "$here/known-findings.txt" 2>/dev/null | sed 's/^known: /KNOWN-FINDING: /'
    exit $code
    ;;
replay)
    build
    profile=debug
    grep -q '^profile wrapping' "$2" && profile=release
    if grep -q '^prop C12' "$2"; then
        build_demo
        "$bin/release/clsim" demo-replay "$2" "$target/demo/$profile/clarith" "$target/demo/shim.so" "$target/demo/scratch-$$"
        exit $?
    fi
    timeout 300 "$bin/$profile/clsim" replay "$2"
    code=$?
    if [ $code -gt 2 ]; then
        prop=$(awk '$1 == "prop" { print $2; exit }' "$2")
        if [ $code = 124 ]; then echo "the run does not come to an end"; else echo "the run kills the process"; fi
        echo "VIOLATION property=$prop replay=$2"
        exit 1
    fi
    exit $code
    ;;
*)
    echo "usage: run.sh setup | check PROP | replay FILE" >&2
    exit 2
    ;;
esac
