#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]: decide one property for /repo's working tree.

1. extract the functions under contract from the current sources, generate and discharge all
   obligations (vc/, contracts/);
2. run the replay program of the property (replay/) against the real code: a short bounded run
   when every obligation was discharged, a long search for a failing input otherwise.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
os.environ['VERIF_REPO'] = REPO
T0 = time.time()

SAN = ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize=pointer-overflow', '-fno-sanitize-recover=all',
       '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-I' + REPO, '-I' + HERE + '/replay']
FDIR, GDIR = REPO + '/opm/flowdiagnostics/', REPO + '/opm/utility/graph/'


def harness_of(prop):
    n = int(prop[1:])
    return ('r_tarjan' if n <= 5 else 'r_ac' if n <= 9 else 'r_small' if n in (10, 22) else
            'r_solver' if n <= 18 else 'r_derived')


def build(prop, scratch):
    """Compile the replay program with the current sources (sanitized).  Returns (exe, error)."""
    h = harness_of(prop)
    jobs = []
    objs = []

    def job(cmd, src, extra=()):
        o = os.path.join(scratch, os.path.basename(src) + '.o')
        objs.append(o)
        jobs.append(cmd + SAN + list(extra) + ['-c', src, '-o', o])
    srcs = sorted(os.path.join(d, f) for d in (FDIR, GDIR) for f in os.listdir(d) if f.endswith('.cpp'))
    if h == 'r_ac':
        srcs = [s for s in srcs if s.startswith(GDIR)]
    if h == 'r_tarjan':
        srcs = []
    for s in srcs:
        job(['clang++', '-std=c++11'], s)
    for f in sorted(os.listdir(GDIR)):
        if f.endswith('.c'):
            job(['clang', '-std=c99'], GDIR + f, ['-include', HERE + '/replay/alloc_hook.h'])
    job(['clang'], HERE + '/replay/alloc_hook.c')
    job(['clang++', '-std=c++14'], HERE + '/replay/%s.cpp' % h)
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda c: subprocess.run(c, capture_output=True, text=True), jobs):
            if r.returncode:
                return None, ' '.join(r.args[-3:]) + '\n' + r.stderr[:3000]
    exe = os.path.join(scratch, 'replay.exe')
    r = subprocess.run(['clang++'] + SAN + objs + ['-o', exe], capture_output=True, text=True)
    if r.returncode:
        return None, 'link: ' + r.stderr[:3000]
    return exe, ''


def search(prop, exe, scratch, seed, budget, procs, cases):
    """Run the replay program with several seeds; returns (report or None, statistics)."""
    ps = []
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:quarantine_size_mb=32:allocator_may_return_null=1:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=1')
    for k in range(procs):
        out = os.path.join(scratch, 'report%d' % k)
        err = open(os.path.join(scratch, 'err%d' % k), 'w')
        ps.append((out, subprocess.Popen([exe, prop, '--seed', str(seed + 1000 * k), '--budget', str(budget), '--cases', str(cases), '--out', out],
                                         stdout=subprocess.PIPE, stderr=err, text=True, env=env)))
    stats, report, total = [], None, {}
    end = time.time() + budget + 90
    for k, (out, p) in enumerate(ps):
        try:
            so, _ = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            so, _ = p.communicate()
        if p.returncode == 0:
            try:
                st = json.loads(so.strip().split('\n')[-1])
                stats.append(st)
            except ValueError:
                pass
        elif report is None:
            txt = open(out).read() if os.path.exists(out) else ''
            e = open(os.path.join(scratch, 'err%d' % k)).read()
            if not txt and (p.returncode == -9 or 'Sanitizer' not in e and 'runtime error' not in e):
                total['ended_from_outside'] = total.get('ended_from_outside', 0) + 1      # out of memory or time: no answer
                continue
            report = (txt or 'the replay program ended with code %s and left no report\n' % p.returncode) + '\nstdout: %s\nstderr: %s\n' % (so[-2000:], e[-6000:])
    for s in stats:
        for a, b in s.items():
            if isinstance(b, list):
                total.setdefault(a, b)
                continue
            total[a] = max(total.get(a, 0), b) if a.startswith('exhaustive') else total.get(a, 0) + b
    return report, total


def known(prop):
    res = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s ' % prop):
                res.append(l.split(' ', 2)[2].strip())
    return res


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    thorough = tier == 'thorough'
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    replay_file = os.path.join(evdir, prop + '.replay.txt')
    if os.path.exists(replay_file):
        os.unlink(replay_file)
    scratch = tempfile.mkdtemp(prefix='vcheck_%s_' % prop)
    try:
        return decide(prop, tier, seed, thorough, evdir, replay_file, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, seed, thorough, evdir, replay_file, scratch):
    from contracts import registry
    os.environ['TMPDIR'] = scratch
    tempfile.tempdir = scratch
    pool = cf.ThreadPoolExecutor(1)
    fut = pool.submit(build, prop, scratch)
    # ---- 1. the proof
    res, err = None, None
    try:
        import vc.driver as D
        lib, cs, tus = registry.load(prop)
        res = D.run(prop, lib, cs, tus, budget=90 if thorough else 30, deadline=time.time() + (2400 if thorough else 420),
                    exec_limit=600 if thorough else 240, extra=registry.EXTRA.get(prop, ()), smoke=thorough)
    except Exception as e:      # the source cannot be brought within the verifier's reach
        err = '%s: %s' % (type(e).__name__, e)
    failed = res.failed if res else []
    errors = list(res.errors) if res else [('*', err)]
    bounded = registry.BOUNDED.get(prop, []) if res else []
    vacuous = res is not None and not errors and len(res.obligations) == 0
    if vacuous:
        errors.append(('*', 'no obligation was generated'))
    proved = res is not None and not failed and not errors
    t_proof = time.time() - T0
    # ---- 2. the real code
    exe, berr = fut.result()
    report, stats = None, {}
    if exe:
        if proved and not bounded:
            report, stats = search(prop, exe, scratch, seed, 150 if thorough else 8, 4, 20000000 if thorough else 60000)
        else:
            left = (3000 if thorough else 760) - (time.time() - T0)
            report, stats = search(prop, exe, scratch, seed, max(20, min(left, 400 if thorough else 25 if proved else 100)), 8, 20000000)
    # ---- outcome
    violation = None
    if report is not None:
        violation = ''
    elif failed:
        violation = ' no-failing-input-found'
    elif not exe and not proved:
        print('neither the proof nor the replay program could be built:', errors[:3], berr)
        return 2
    names = [f['name'] for f in failed]
    if violation is not None:
        with open(replay_file, 'w') as f:
            f.write('property: %s\n' % prop)
            if report:
                f.write('--- failing input against the real code\n%s\n' % report)
                f.write('replay: build with check.py (function build), then: replay.exe %s --seed S --case N as given above\n' % prop)
            if failed:
                f.write('--- failed obligations\n')
                for o in failed:
                    f.write('%s [%s] line %s: %s (%s)\n' % (o['name'], o['kind'], o['line'], o['status'], o['backend']))
                    if o['detail']:
                        f.write('  verifier output: %s\n' % o['detail'][:3000].replace('\n', '\n  '))
                o = failed[0]
                f.write('--- first failed obligation, SMT-LIB\n%s\n' % (o.get('text') or '')[:200000])
            for e in errors:
                f.write('extraction: %s: %s\n' % tuple(e))
    level = 'proof' if (proved and not bounded) or failed else 'exploration' if not res or errors else 'proof'
    cov = {}
    if res:
        be = {}
        for o in res.obligations:
            if o['status'] == 'proved':
                be[o['backend']] = be.get(o['backend'], 0) + 1
        cov.update(obligations=len(res.obligations), discharged=len(res.obligations) - len(failed),
                   checker_cmd='python3-vt /verif/check.py %s %s' % (prop, tier),
                   trusted_base=registry.TRUSTED + sorted(set(res.trusted)) + registry.TRUST_BY.get(prop, []),
                   functions_under_contract=[dict(function=f['function'], line=f['line'], obligations=f['obligations'], paths=f['paths'], exits=f['exits'],
                                                  error=f['error']) for f in res.functions],
                   inlined_from_source=sorted(res.inlined), lemmas=getattr(res, 'lemmas', []), discharged_by=be,
                   obligations_by_kind=count(o['kind'] for o in res.obligations),
                   solver_time_s=round(res.solver_time, 2), extraction_time_s=round(res.exec_time, 2),
                   slowest=[dict(name=o['name'], s=round(o['time'], 2)) for o in sorted(res.obligations, key=lambda o: -o['time'])[:5]],
                   failed_obligations=names)
        if thorough:
            cov['smoke'] = getattr(res, 'smoke', None)
    cov['extraction_errors'] = ['%s: %s' % tuple(e) for e in errors]
    cov['bounded_stand_in_for'] = bounded + ([] if not errors else ['everything listed under extraction_errors'])
    cov['evaluations'] = int(stats.get('cases', 0))
    cov['distinct_nontrivial'] = int(stats.get('distinct', 0))
    cov['rule'] = registry.RULE.get(harness_of(prop), '') + ' Counted as distinct and non-trivial: different written-out inputs of more than 24 characters. The bounded run never counts as proof.'
    cov['samples'] = stats.pop('samples', [])
    cov['replay_statistics'] = stats
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=registry.ASSUME + (sorted(res.assumptions) if res else []) + registry.ASSUME_BY.get(prop, []),
              wall_s=round(time.time() - T0, 2), violations=0 if violation is None else 1)
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    print('%s: %d obligations, %d discharged, %d extraction errors, %d replayed cases, proof %.1f s, total %.1f s'
          % (prop, len(res.obligations) if res else 0, len(res.obligations) - len(failed) if res else 0, len(errors), stats.get('cases', 0), t_proof, time.time() - T0))
    for e in errors:
        print('  not extracted: %s: %s' % tuple(e))
    for n in names[:10]:
        print('  failed obligation:', n)
    if not exe:
        print('  replay program not built:', berr[:500])
    if violation is not None:
        print('VIOLATION property=%s replay=%s%s' % (prop, replay_file, violation))
        return 1
    return 0


def count(it):
    d = {}
    for x in it:
        d[x] = d.get(x, 0) + 1
    return d


if __name__ == '__main__':
    sys.exit(main())
