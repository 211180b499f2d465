#!/bin/bash
# development helper: gdb1.sh HARNESSFILE harness name=val... : backtrace of one path
cd "$(dirname "$0")/.."; X=$(ls -t build/bin/$1-sym-* | grep -v '\.a$' | head -1); h=$2; shift 2; A=(); for i in "$@"; do A+=(--in "$i"); done
gdb -q -batch -ex "set follow-fork-mode child" -ex run -ex bt --args $X --harness $h --one "${A[@]}" 2>&1 | grep -E "^#|signal" | cut -c1-220 | head -30
