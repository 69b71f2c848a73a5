#!/bin/bash
# soak.sh SCALE SEED... -- IDS...: run checks at several seeds, print what isn't OK
scale=$1; shift; seeds=(); while [ "$1" != "--" ] && [ $# -gt 0 ]; do seeds+=("$1"); shift; done; shift
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls "$(dirname "$0")/../vt/props" | grep -o '^c[0-9]*' | tr c C))
for s in "${seeds[@]}"; do for i in "${ids[@]}"; do "$(dirname "$0")/../check.py" "$i" --seed "$s" --scale "$scale" | tail -3 | cut -c1-1500; done; done
