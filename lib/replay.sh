#!/bin/bash
# replay.sh FILE.inp [asan|plain]: runs a counterexample written by a check on a native build of the same harness.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
exec python3 - "$V" "$1" "${2:-asan}" <<'P'
import sys, os
V, inp, fl = sys.argv[1:4]
sys.path.insert(0, os.path.join(V, 'lib')); sys.dont_write_bytecode = True
import kpdrive as k, concurrent.futures as cf
h = [l for l in open(inp) if l.startswith('// harness ')][0].split()
harness = h[2]; z = int(h[-1]); params = h[4:h.index('zmodel')]
b = k.Build()
with cf.ThreadPoolExecutor(8) as p:
    fs = b.run(p, b.nat_jobs([harness], fl, z)); [f.result() for f in fs.values()]
rc, out = k.run_native(b.link_nat(fs, harness, fl, z), inp, params, fl, 60)
print(out); print('exit', rc)
P
