#!/bin/bash
# vx.sh UNIT : extract and verify one unit (developer helper)
cd /verif; u=$1; shift
mkdir -p target/verus
./target/tools/release/zkextract /repo verus/$u.rs target/verus/$u.rs > target/verus/$u.st; grep -o '"status":"[^"]*"\(,"detail":.*\)\?' target/verus/$u.st | cut -c1-600
verus --crate-type=lib target/verus/$u.rs --rlimit 60 --multiple-errors 5 --triggers-mode silent "$@" 2>&1 | python3 -c "import sys,re; print(re.sub(r'(?ms)^warning: verus-related attribute.*?\n\n','',sys.stdin.read()),end='')"
