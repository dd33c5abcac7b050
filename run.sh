#!/bin/bash
# run.sh <property id> <quick|thorough> [--build checked|plain] [--replay STAGE CASE | --only STAGE | --skip STAGE]
# Rebuilds the check (and the crate under test from /repo's working tree), runs it.
# Two builds: "checked" has overflow checks and debug assertions, so arithmetic that wraps around is a panic;
# "plain" is what users of a release build run. Properties about refusals are checked in both: a refusal must not
# depend on the overflow checks.
id="$1"; tier="${2:-quick}"; shift; [ $# -eq 0 ] || shift
build=both
[ "$1" = --build ] && { build="$2"; shift 2; }
[ $# -gt 0 ] && [ $build = both ] && build=checked
. /verif/env.sh
export VERIF_TIER="$tier"
cd /verif/harness || exit 2
bin=$(echo "$id" | tr 'A-Z' 'a-z')
fail() { cat /verif/target-build.$id.log; rm -f /verif/target-build.$id.log; echo "$1"; exit 2; }
case "$id" in C25|C26|C31|C33|C34)
    # the command-line tools themselves, built from /repo
    (cd /repo && CARGO_TARGET_DIR=/verif/target/tools cargo build --release --offline --locked -q --bins) > /verif/target-build.$id.log 2>&1 || fail "the tools do not build";;
esac
if [ "$id" = C34 ]; then
    # every build of the tools and of the check; the checked one compares them
    (cd /repo && CARGO_TARGET_DIR=/verif/target/tools cargo build --offline --locked -q --bins) > /verif/target-build.$id.log 2>&1 || fail "the tools do not build"
    for p in plain slow; do cargo build --profile $p --offline --locked -q --bin c34 > /verif/target-build.$id.log 2>&1 || fail "the harness does not build against /repo"; done
fi
# keep freed memory: the checks create and drop many large tables
export MALLOC_MMAP_THRESHOLD_=1000000000 MALLOC_TRIM_THRESHOLD_=4000000000 MALLOC_TOP_PAD_=16777216
# run <profile> <target folder> <arguments>
run() {
    profile=$1; folder=$2; shift 2
    cargo build --profile $profile --offline --locked -q --bin "$bin" > /verif/target-build.$id.log 2>&1 || fail "the harness does not build against /repo"
    rm -f /verif/target-build.$id.log
    /verif/target/$folder/$bin "$@"
    rc=$?
    if [ $rc -gt 2 ] && [ $rc -ne 137 ]; then
        # abnormal end of the process running the code under test (abort, signal)
        mkdir -p /verif/replays
        echo "{\"property\": \"$id\", \"tier\": \"$tier\", \"failure\": \"process ended abnormally with code $rc\", \"command\": \"bash /verif/run.sh $id $tier\"}" > /verif/replays/$id.json
        echo "VIOLATION property=$id replay=/verif/replays/$id.json"
        echo "  the process ended abnormally with code $rc"
        exit 1
    fi
}
if [ $build != plain ]; then
    run release release --tier "$tier" "$@"
    [ $rc -eq 0 ] || exit $rc
fi
case "$build $id" in
plain*)
    export MC_BUILD=plain
    run plain plain --tier "$tier" "$@";;
"both C11"|"both C14"|"both C16"|"both C19"|"both C20"|"both C21"|"both C22"|"both C23"|"both C24"|"both C28"|"both C30"|"both C31")
    # with the bounds of the quick tier; adds to the evidence of the first run
    export MC_BUILD=plain
    run plain plain --tier quick
    [ $rc -gt 1 ] || python3 /verif/tools/merge_evidence.py "$id" || exit 2;;
esac
exit $rc
