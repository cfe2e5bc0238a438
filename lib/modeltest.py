"""Runs the cases of harness/h_models.cc in the engine and natively (with the inputs of a sampled path)."""
import os, sys, tempfile, json, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import concurrent.futures as cf, kpdrive as k
k.build_engine(); b = k.Build(); h = 'h_models'; bad = 0
with cf.ThreadPoolExecutor(8) as p:
    fs = b.run(p, b.bc_jobs([h])); bc = b.link_bc(fs, h); fn = b.run(p, b.nat_jobs([h], 'asan', False)); exe = b.link_nat(fn, h, 'asan', False)
    tmp = tempfile.mkdtemp()
    for c in range(29):
        r = k.run_engine(bc, dict(h=h, p=[c], t=120, samples=4), tmp, c, time.time() + 200)
        ok = bool(r) and r.get('complete') and not r.get('violations') and r.get('reached', {}).get('done', 0) > 0
        for i, s in enumerate((r or {}).get('samples', [])):
            f = os.path.join(tmp, 'in'); k.write_inputs(f, s['inputs']); rc, out = k.run_native(exe, f, [c], 'asan', 60)[:2]
            if rc or 'KP-VIOLATION' in str(out): ok = False; print(rc, out)
        print('case', c, 'ok' if ok else 'FAILED %s %s' % ((r or {}).get('incomplete'), (r or {}).get('violation_counts'))); bad |= not ok
    import shutil; shutil.rmtree(tmp)
sys.exit(bad)
