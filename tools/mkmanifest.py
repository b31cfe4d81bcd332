"""writes MANIFEST.json from properties.jsonl and the checks that exist"""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTE = ('Every feasible path of the real functions within the stated bounds is executed on symbolic reals and each claim is decided '
        'by normal form or by the SMT solver for all values on the path; counterexamples are replayed on the real code. Trusts: real '
        'arithmetic for floats, the operator semantics in vlib/symtensor.py (validated on witnesses each run), the PyTorch 1.0 '
        'stand-ins in vlib/shims.py, the SMT solver. ')
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    f = os.path.join(HERE, 'checks', p['id'].lower() + '.py')
    if p['id'] in NA:
        na.append({'property': p['id'], 'reason': NA[p['id']]})
        continue
    if not os.path.exists(f):
        na.append({'property': p['id'], 'reason': 'no check built yet'})
        continue
    src = open(f).read()
    b = re.search(r"^BOUNDS = (\(.*?\)|'.*?')$", src, re.S | re.M)
    o = re.search(r"^OUTSIDE = (\(.*?\)|'.*?')$", src, re.S | re.M)
    checks.append({'property': p['id'], 'quick_cmd': './run.sh %s' % p['id'], 'thorough_cmd': './run.sh %s --tier thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': 'symbolic execution of the real Python/PyTorch code, claims decided by SMT (z3/cvc5 nonlinear reals)',
                   'level': 'model_checking',
                   'level_note': NOTE + 'Bounds: %s. Outside: %s.' % (eval(b.group(1)) if b else 'see DESIGN.md', eval(o.group(1)) if o else 'see DESIGN.md')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
