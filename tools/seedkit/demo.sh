#!/bin/bash
# exit 0: behaves as promised; nonzero: broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
L="$PWD/_build/lib/out"
FLAGS=$(cat "$D/flags" 2>/dev/null)
gcc -std=gnu99 -g -O1 -w -fsanitize=address,undefined -fno-sanitize-recover=all $FLAGS -I"$L" -I"$D" "$D/demo.c" "$L"/src/*.c -o "$T/demo" \
  -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free -lm || exit 99
export ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1
timeout 120 "$T/demo"
