#!/bin/bash
# cc.sh OUT.bc HARNESS.cpp [flags]: lower a harness, with /repo's current headers, to the IR the engine executes
set -e
out=$1; src=$2; shift 2
here=$(cd "$(dirname "$0")" && pwd)
repo=${REPO:-/repo}
opt="-std=c++17 -O1 -fno-pie -fno-pic -gline-tables-only -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -D_GLIBCXX_EXTERN_TEMPLATE=0 -fno-access-control -fno-stack-protector -U_FORTIFY_SOURCE -fno-threadsafe-statics -ftrivial-auto-var-init=pattern"
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
flags=(); sources=("$src") # other translation units may follow among the flags
for a in "$@"; do case "$a" in *.cpp) sources+=("$here/../harness/$a");; *) flags+=("$a");; esac; done
n=0; units=()
for s in "${sources[@]}"; do
    clang++-18 $opt -w -I"$here" -I"$here/../harness" -I"$repo/include" "${flags[@]}" -emit-llvm -c "$s" -o "$tmp/h$n.bc"; units+=("$tmp/h$n.bc"); n=$((n + 1))
done
if [ $n = 1 ]; then mv "$tmp/h0.bc" "$tmp/h.bc"; else llvm-link-18 "${units[@]}" -o "$tmp/h.bc"; fi
models="$here/../build/models" # the models do not depend on /repo
for f in models models_std; do
    if [ ! -f "$models/$f.bc" ] || [ "$here/$f.cpp" -nt "$models/$f.bc" ]; then
        mkdir -p "$models"; clang++-18 -std=c++17 -O1 -fno-pie -fno-pic -w -fno-builtin -fno-vectorize -fno-slp-vectorize -emit-llvm -c "$here/$f.cpp" -o "$tmp/$f.bc"; mv "$tmp/$f.bc" "$models/$f.bc.$$"; mv "$models/$f.bc.$$" "$models/$f.bc"
    fi
done
llvm-link-18 "$tmp/h.bc" --only-needed "$models/models_std.bc" --only-needed "$models/models.bc" -o "$out"
