"""Create and confirm planted bugs.  seed.py FILE.py: FILE defines BUGS, a list of
dicts id, property, edits [(path, old, new)], srcs, demo (C++ text), needs, breaks."""
import os, subprocess, sys, json, shutil, runpy
W = '/tmp/w/seedrepo'
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it does not
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)" || exit 3
trap 'rm -rf "$t"' EXIT
objs=""
for s in %s; do
  o="$t/$(echo "$s" | tr / _).o"
  case "$s" in *.c) gcc -std=c99 -O1 -I. -c "$s" -o "$o" || exit 4 ;;
               *) g++ -std=c++14 -O1 %s -I. -c "$s" -o "$o" || exit 4 ;; esac
  objs="$objs $o"
done
g++ -std=c++14 -O1 %s -I. "$d/demo.cpp" $objs -o "$t/demo" || exit 4
timeout 120 "$t/demo"
'''
FD = 'opm/flowdiagnostics/'
ALL = [FD + f for f in ('CellSet.cpp', 'ConnectionValues.cpp', 'ConnectivityGraph.cpp', 'DerivedQuantities.cpp', 'Solution.cpp', 'Toolbox.cpp', 'TracerTofSolver.cpp')] + \
      ['opm/utility/graph/AssembledConnections.cpp', 'opm/utility/graph/tarjan.c']


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    sel = sys.argv[2:]
    if os.path.exists(W):
        shutil.rmtree(W)
    for b in bugs:
        if sel and b['id'] not in sel:
            continue
        if os.path.exists(W):
            shutil.rmtree(W)
        sh('git', 'clone', '-q', '/repo', W)
        for path, old, new in b['edits']:
            t = open(os.path.join(W, path)).read()
            assert t.count(old) == 1, (b['id'], path, t.count(old))
            open(os.path.join(W, path), 'w').write(t.replace(old, new))
        diff = sh('git', '-C', W, 'diff').stdout
        d = '/verif/seeded/' + b['id']
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        flags = b.get('flags', '')
        open(d + '/demo.sh', 'w').write(DEMO % (' '.join(b.get('srcs', ALL)), flags, flags))
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.cpp', 'w').write(b['demo'])
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        clean = sh('bash', d + '/demo.sh', cwd='/repo')
        bad = sh('bash', d + '/demo.sh', cwd=W)
        # tests, on the real tree and straight back
        r = sh('git', '-C', '/repo', 'apply', d + '/patch.diff')
        try:
            bl = sh('bash', '/opt/vp/build.sh')
            ts = sh('bash', '/opt/vp/test.sh', '/tmp/w/t.json')
            res = json.load(open('/tmp/w/t.json'))
        finally:
            sh('git', '-C', '/repo', 'checkout', '--', '.')
        ok = clean.returncode == 0 and bad.returncode not in (0, 3, 4) and bl.returncode == 0
        print(b['id'], 'OK' if ok else 'BAD', 'clean', clean.returncode, 'patched', bad.returncode, 'build', bl.returncode,
              {k: (len(v) if isinstance(v, (list, dict)) else v) for k, v in res.items()})
        if not ok:
            print(clean.stdout[-800:], bad.stdout[-800:], bl.stdout[-800:])
    shutil.rmtree(W, ignore_errors=True)
    sh('bash', '/opt/vp/build.sh')


main()
