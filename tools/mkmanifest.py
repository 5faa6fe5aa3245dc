#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a module in checks/ is claimed, all others are not applicable."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
    'C90': 'Quantifies over the run-time values of generated code, i.e. over the semantics of two languages; no static rule over the generator decides value equality. The structural parts (operators, grouping, folding, types) are C08-C16, C23, C31.',
    'C91': 'Whether output compiles depends on the item definitions of the embedding crate, which are not in the source; only the structural parts (grouping, prefixes, fragments, types) are decidable and are C10, C12, C29, C30.',
    'C92': 'A relation between two runs of the whole parser on different inputs; the grammar functions interleave comment skipping by hand and no sound static argument here relates the two token streams.',
    'C93': 'A bound on running time; the number of rescans depends on run-time macro sets and no static bound on it is in reach.',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(V, 'checks', i.lower() + '.py')
    if os.path.exists(f):
        m = importlib.import_module('checks.' + i.lower())
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py --thorough %s' % i,
                           technique=getattr(m, 'TECHNIQUE', 'abstract interpretation of the MIR of the code generator: symbolic-input summaries compared with a specification table'),
                           level='other', level_note=m.EXPLANATION))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'No sound static rule for this property has been built here yet.')))
json.dump(dict(version=1, setup_cmd='python3 driver/extract.py', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not applicable')
