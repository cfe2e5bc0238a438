#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the jobs in props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.dont_write_bytecode = True
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(l)
    s = props.PROPS.get(d['id'])
    if not s:
        na.append({'property': d['id'], 'reason': props.NOT_APPLICABLE.get(d['id'], 'no check has been built for it yet')}); continue
    checks.append({'property': d['id'], 'quick_cmd': './check %s quick' % d['id'], 'thorough_cmd': './check %s thorough' % d['id'],
                   'technique': 'symbolic execution of the LLVM IR of /repo with Z3 deciding every branch and assertion; counterexamples replayed on a native build',
                   'level': 'model_checking', 'level_note': 'Holds for every value within the bounds: ' + s['bounds'] + '. Trusts the engine, the library models (files, zlib contract, SHA-256 and AES as ideal functions on symbolic data, UTC calendar) and clang; sampled paths of every job are compared with the native build.'})
json.dump({'version': 1, 'setup_cmd': './check --setup', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
