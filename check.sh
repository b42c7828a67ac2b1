#!/bin/bash
# check.sh PROPERTY [quick|thorough] [extra harness arguments]: builds the library and the harness from the current
# tree of /repo and runs the generated-input search for one property.
# Exit 0: held on everything explored; exit 1 with a VIOLATION line: broken; anything else: an error of the check.
cd "$(dirname "$0")" || exit 2
here=$PWD
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
shift; shift
seed=${VERIF_SEED:-1}
export REPO=${REPO:-/repo}
flavour=plain
flags=-O1
case $prop in
    C20) flavour=asan; flags="-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer";;
esac
out=${VERIF_BUILD:-$here/build}/$flavour
mkdir -p "$out" "$here/evidence" "$here/replays"
(
    flock 9
    make -s -C harness -j"$(nproc)" PROP="$prop" OUT="$out" FLAGS="$flags" REPO="$REPO" > "$out/$prop.log" 2>&1
) 9> "$out/.lock"
if [ ! -x "$out/$prop" ] || ! make -s -q -C harness PROP="$prop" OUT="$out" FLAGS="$flags" REPO="$REPO"; then
    tail -n 40 "$out/$prop.log"
    echo "build of the harness for $prop failed"
    exit 2
fi
case $tier in
    quick) wall=420;;
    *) wall=${VERIF_WALL:-3000};;
esac
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:detect_stack_use_after_return=0
export UBSAN_OPTIONS=print_stacktrace=1:abort_on_error=1
exec "$out/$prop" --tier "$tier" --seed "$seed" --wall "$wall" --evidence "$here/evidence/$prop.json" \
    --replay-dir "$here/replays" --known "$here/known-findings.txt" --scratch "$out/scratch" "$@"
