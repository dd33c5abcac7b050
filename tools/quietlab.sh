#!/bin/bash
# Runs the existing tests and the quick checks against an edited copy of the repository; every check has to stay quiet.
# usage: quietlab.sh REPO_COPY SCRATCH [CHECK..]   (development tool; nothing registered uses it)
# The copy is bind-mounted over /repo, and a copy of /verif over /verif, in a user namespace of its own.
repo=$(cd "$1" && pwd) && scratch=$2 || exit 2
shift 2
mkdir -p "$scratch/verif" "$scratch/out"
(cd /verif && tar cf - --exclude=./.git --exclude=./seeded --exclude=./target .) | tar xf - -C "$scratch/verif"
if [ -z "$SKIP_TESTS" ]; then
    (cd "$repo" && RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=$scratch/target cargo test --workspace \
        --features long_tests --no-fail-fast --locked --offline >"$scratch/out/tests" 2>&1)
    echo "tests: rc=$? $(grep -c '^test .*ok$' "$scratch/out/tests") passed; $(grep '^test .*FAILED' "$scratch/out/tests" | tr '\n' ' ')"
fi
checks=("$@")
[ ${#checks[@]} = 0 ] && checks=($(python3 -c 'import json;[print(c["property"]) for c in json.load(open("/verif/MANIFEST.json"))["checks"]]'))
for c in "${checks[@]}"; do
    unshare -Urm bash -c "mount --bind $repo /repo && mount --bind $scratch/verif /verif && cd /verif && VERIF_SEED=1 VERIF_TIER=quick bash run.sh $c quick" >"$scratch/out/$c" 2>&1
    rc=$?
    [ $rc = 0 ] && echo "$c quiet" || { echo "$c ALARM rc=$rc"; grep -A3 -E "VIOLATION|error" "$scratch/out/$c" | head -8; }
done
