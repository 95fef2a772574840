#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the table of checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from props import TABLE
TECH = {
    'interp': 'abstract interpretation of MIR (gated value numbering over residue polynomials)',
    'bytes': 'abstract interpretation of MIR (symbolic byte-segment domain)',
    'struct': 'effect, ownership and call-graph analysis of MIR and the type graph (with Send/Sync decided by rustc)',
    'const': 'abstract interpretation of MIR to constants, compared with transcribed standards and point counts',
}
KIND = {p: 'interp' for p in TABLE}
KIND.update({p: 'bytes' for p in ('C06', 'C12', 'C18', 'C28', 'C29', 'C30', 'C42')})
KIND.update({p: 'struct' for p in ('C15', 'C16', 'C41')})
NA = {
    'C43': 'Secret-independence of running time is decided inside num-bigint (variable-time by design) and the machine; '
           'no static argument over this crate can establish it, and the branches on scalar bits are intended.',
    'C44': 'A statement about the distribution of outputs over all inputs (counting and indistinguishability); '
           'static analysis of the source decides which function is computed (C31-C34), not how its values are distributed.',
    'C45': 'Wall-clock bounds depend on num-bigint internals and hardware; no static bound in reach.',
}
allp = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
KIND['C39'] = 'const'
man = {
    'version': 1,
    'setup_cmd': 'bash tools/setup.sh',
    'checks': [{
        'property': p,
        'quick_cmd': 'python3 check.py %s quick' % p,
        'thorough_cmd': 'python3 check.py %s thorough' % p,
        'technique': TECH[KIND[p]],
        'level': 'other',
        'level_note': 'sound static analysis of the MIR of the current tree for all inputs; trusted: rustc MIR, the models of '
                      'num-bigint/std in engine/models.py, the interpreter in engine/',
    } for p in sorted(TABLE)],
    'not_applicable': [{'property': p, 'reason': NA.get(p, 'No check is finished for this property yet.')}
                       for p in allp if p not in TABLE],
}
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
