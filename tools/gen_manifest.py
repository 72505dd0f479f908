"""Writes MANIFEST.json from contracts/registry.py and properties.jsonl."""
import json, sys
sys.path.insert(0, '/verif')
from contracts import registry as R
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    if p in R.MODULES:
        b = R.BOUNDED.get(p)
        checks.append(dict(property=p, quick_cmd='python3-vt check.py %s quick' % p, thorough_cmd='python3-vt check.py %s thorough' % p,
            technique='contract-based deductive verification (function contracts, loop invariants, lemmas; VCs from clang AST to z3/cvc5)',
            level='proof',
            level_note=('Every obligation generated from the current sources is discharged for all inputs. ' if not b else
                        'Obligations of the functions under contract are discharged for all inputs; bounded stand-in (not proved): %s. ' % '; '.join(b))
            + 'Trusted: clang AST, the VC generator vc/, models of the standard library, z3/cvc5. Assumed: ' + '; '.join(R.ASSUME + R.ASSUME_BY.get(p, [])) + '.'))
    else:
        na.append(dict(property=p, reason='contracts not finished yet'))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3"', checks=checks, not_applicable=na,
    notes='No hooks in /repo: contracts live in /verif/contracts and are attached to the functions extracted from /repo on every run.'),
    open('/verif/MANIFEST.json', 'w'), indent=1)
