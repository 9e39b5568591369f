"""Writes /verif/MANIFEST.json from the checks present."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
NA = {
    'C29': 'The hardware side is magma/coreir circuits: no deductive verifier within reach has a semantics for the generated '
           'netlists, and there is no simulator back end installed, so no contract on the Python functions can state or decide '
           'cycle-by-cycle agreement of the generated circuit.',
}
SYM = 'contracts on the real functions, symbolic execution of all paths, z3'
INV = 'class invariants inferred and proved inductive by symbolic execution of the real classes on opaque values, z3'
TECH = {
    'C01': SYM + ' (structural induction over types)', 'C02': SYM + ' (structural induction; validator generator bounded)',
    'C03': SYM + ' (structural induction over types)', 'C04': SYM + ' (structural induction; determinism bounded)',
    'C05': SYM + ' (structural induction over types)', 'C06': SYM + ' (enumerated component widths)',
    'C07': SYM, 'C08': SYM,
    'C14': SYM + ' (types opaque)', 'C15': SYM + ' (types opaque)', 'C16': SYM + ' (call protocol; component search bounded)',
    'C12': SYM + ' (argument equality symbolic)',
    'C09': INV, 'C10': INV, 'C11': INV,
}
NOTE = {}
exec(open(os.path.join(HERE, 'tools', 'notes.py')).read())
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(HERE, 'checks', i.lower() + '.py')
    if not os.path.exists(f):
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
        continue
    src = open(f).read()
    level = 'proof'
    for line in src.splitlines():
        if line.startswith('LEVEL ='):
            level = line.split('=')[1].strip().strip("'")
    checks.append(dict(
        property=i, quick_cmd='%s run.py %s' % (PY, i), thorough_cmd='VERIF_TIER=thorough %s run.py %s' % (PY, i),
        evidence_file='evidence/%s.json' % i, technique=TECH.get(i, SYM), level=level, level_note=NOTE.get(i, '')))
m = dict(version=1, setup_cmd='%s -c "import z3, hwtypes, pysmt"' % PY, checks=checks, not_applicable=na,
         notes='No hooks in /repo. Checks read /repo\'s sources on every run (never cached bytecode). See DESIGN.md.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')
