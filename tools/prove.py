"""Development driver: prove.py PROP [function-substring ...]"""
import sys, os, importlib, time
sys.path.insert(0, '/verif')
os.environ.setdefault('VERIF_CACHE', '/tmp/vcache')
os.makedirs(os.environ['VERIF_CACHE'], exist_ok=True)
import vc.driver as D
from contracts import registry
prop = sys.argv[1]
only = [a for a in sys.argv[2:] if not a.startswith('-')] or None
budget = float(os.environ.get('BUDGET', '10'))
t0 = time.time()
lib, cs, tus = registry.load(prop)
r = D.run(prop, lib, cs, tus, budget=budget, only=only)
for f in r.functions:
    print('%-60s obls=%s paths=%s exits=%s' % (f['function'][-60:], f['obligations'], f['paths'], f['exits']), f['error'] or '')
    if '-v' in sys.argv and f['inlined']: print('     inlined', f['inlined'])
for e in r.errors: print('ERROR', e)
for i, o in enumerate(r.failed):
    print('FAILED', o['status'], o['name'], '%.1fs' % o['time'], o['backend'])
    if '-d' in sys.argv:
        open('/tmp/w/fail%d.smt2' % i, 'w').write(o['text'])
    if '-m' in sys.argv: print(o['detail'][:1500])
slow = sorted([o for o in r.obligations if o['time'] > 2], key=lambda o: -o['time'])[:8]
for o in slow: print('slow %.1f %s %s' % (o['time'], o['name'], o['backend']))
print('total', len(r.obligations), 'failed', len(r.failed), 'exec %.1f solve %.1f wall %.1f' % (r.exec_time, r.solver_time, time.time() - t0))
