#!/bin/bash
# usage: check.sh Cxx [quick|thorough]
# Builds the simulator against /repo's working tree and runs the check of one property.
# exit 0: held on everything explored; 1: VIOLATION line printed; other: no answer
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
. "$here/build.sh" || exit 2
# C18 computes which accesses are ordered from the reference counts; other synchronisation in the
# crate would order more than it knows about
if [ "$id" = C18 ] && find /repo/src -name '*.rs' ! -path /repo/src/sync.rs -print0 | xargs -0 sed 's://.*::' |
    grep -qE '\b(fence|Acquire|Release|AcqRel|SeqCst|Mutex|RwLock|Once|OnceLock|LazyLock|Condvar|Barrier|mpsc|thread)\b|\b(std|core|alloc)::sync\b|asm!'; then
    echo "note: /repo uses synchronisation of its own, which C18 cannot order; accesses are not judged"
    export LCCSIM_ORDER=off
fi
# a runaway run must not take the sandbox with it
ulimit -v 3800000
ulimit -c 0
exec "$bin" check "$id" --tier "$tier" --seed "$seed" --hooks "$hooks" \
    --evidence "$here/evidence/$id.json" --replays "$here/replays"
