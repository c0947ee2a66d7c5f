# sourced: builds the simulator; sets bin and hooks
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable} CARGO_TERM_COLOR=never
unset CARGO_ENCODED_RUSTFLAGS
# dev: debug assertions and overflow checks; rel: without, optimised;
# o0: no optimisation, so no tail call becomes a loop (for C15 only)
profiles="dev rel"
case ${id:-all} in C15 | all) profiles="dev rel o0" ;; esac
# pre: a preemption point at every basic block, load and store (for C01, C06, C11; see sim/src/pre.rs)
case ${id:-all} in C01 | C06 | C11 | all) pre=on ;; *) pre=off ;; esac
host=$(rustc -vV | sed -n 's/^host: //p')
build_pre() { # cfg flags, target dir
    mkdir -p "$2/pre"
    RUSTFLAGS="$1 --cfg lcc_pre -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores" \
        CARGO_TARGET_DIR="$2" cargo build --offline --locked --profile pre --target "$host" --manifest-path "$here/sim/Cargo.toml" >"$2.pre.log" 2>&1 &&
        cp "$2/$host/pre/lccsim" "$2/pre/lccsim.new" && mv "$2/pre/lccsim.new" "$2/pre/lccsim" && return
    rm -f "$2/pre/lccsim"
    echo "note: no build with preemption points everywhere (see $2.pre.log)"
}
build() { # cfg flags, target dir
    local p pids=() bad=0
    for p in $profiles; do
        RUSTFLAGS="$1" CARGO_TARGET_DIR="$2" cargo build --offline --locked --profile "$p" --manifest-path "$here/sim/Cargo.toml" >"$2.$p.log" 2>&1 &
        pids+=($!)
    done
    [ $pre = on ] && build_pre "$1" "$2"
    for p in "${pids[@]}"; do wait "$p" || bad=1; done
    [ $bad = 0 ]
}
mkdir -p "$here/target"
hooks=on
bin=$here/target/hooked/debug/lccsim
if ! build "--cfg lcc_sim" "$here/target/hooked"; then
    # the tree does not build with the hooks: do without them
    echo "note: /repo does not build with --cfg lcc_sim (see $here/target/hooked.*.log); running without yield points at reference-count operations"
    hooks=off
    bin=$here/target/plain/debug/lccsim
    if ! build "" "$here/target/plain"; then
        tail -n 30 "$here"/target/plain.*.log
        echo "the simulator does not build against /repo"
        false
    fi
fi
