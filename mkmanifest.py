#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.py."""
import json, os, sys
sys.dont_write_bytecode = True
import jobs as J
NA = {
}
m = {'version': 1, 'setup_cmd': 'python3 check.py build', 'checks': [], 'not_applicable': []}
for p, s in J.PROPS.items():
    m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
        'technique': 'symbolic execution of the Python source, SMT-decided' if s.bin == 'listgen' else 'symbolic execution of the JavaScript source, SMT-decided' if s.bin == 'page' else 'symbolic execution of the compiled code (LLVM IR), SMT-decided', 'level': 'model_checking',
        'level_note': 'All inputs within the bounds: ' + '; '.join(s.bounds)})
ids = [json.loads(l)['id'] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'))]
for i in ids:
    if i not in J.PROPS: m['not_applicable'].append({'property': i, 'reason': NA[i]})
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'MANIFEST.json'), 'w'), indent=1)
