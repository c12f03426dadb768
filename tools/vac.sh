#!/bin/bash
# vacuity test: every function of the unit must fail when `assert(false)` is put at its end anchors
# usage: vac.sh UNIT 'text of a proof line to prefix'
U=$1; P=$2
python3 - "$U" "$P" <<'PY'
import sys
u,p=sys.argv[1:3]
s=open(f'/verif/target/verus/{u}.rs').read()
assert p in s, "anchor not found"
s=s.replace(p, ("assert(false); " if p.startswith("assert") else "proof { assert(false); } ")+p)
open('/tmp/w/vac.rs','w').write(s)
PY
verus --crate-type=lib /tmp/w/vac.rs --rlimit 60 --multiple-errors 10 2>&1 | grep -E "^error|results|^ *[0-9]+ \|.*assert\(false\)" | cut -c1-160
