"""Runs the proof part of one property's check."""
import multiprocessing as mp
import os
import sys
import time
import traceback
import z3
from .frontend import Program, FrontendError, Unsupported
from .core import World, Exec, Contract
from .spec import Library, SpecError
from . import solve

_W = {}


def exec_one(i):
    w, cs = _W['w'], _W['cs']
    c = cs[i]
    t0 = time.time()
    out = dict(i=i, fn=c.fn, sig=c.sig, n=c.nparams, obls=[], error=None, called=[], inlined=[], assumptions=[])
    try:
        w.lib.used_lemmas = set()
        ex = Exec(w, c, time_limit=_W.get('exec_limit', 300))
        obls = ex.verify()
        for o in obls:
            if o.status == 'proved':
                out['obls'].append((o.name, o.kind, o.line, None, o.backend))
            else:
                ax = w.lib.used_axioms(o.hyps + [o.goal])
                out['obls'].append((o.name, o.kind, o.line, solve.text_of(o.hyps, o.goal, ax), o.timeout))
        out['called'] = [_W['index'][id(x)] for x in ex.called]
        out['inlined'] = sorted(ex.inlined)
        out['assumptions'] = sorted(ex.assumptions)
        out['paths'] = ex.paths
        out['endless'] = sorted(ex.endless)
        out['exits'] = ex.normal_exits
        n = len(ex.nloops if ex.nloops is not None else ex.static_loops())
        if n != len(c.loops):
            out['loops'] = (n, len(c.loops))
        out['lemmas'] = sorted(w.lib.used_lemmas)
        out['line'] = c.func.line
        out['smoke'] = [solve.text_of(h, z3.BoolVal(False), w.lib.used_axioms(h)) for h in ex.smoke] if _W.get('smoke') else []
        if obls and ex.exits == 0:
            out['error'] = 'vacuous: no path reaches an exit'
    except Unsupported as e:
        out['error'] = 'unsupported: %s (near line %s)' % (e, getattr(ex, 'line', '?'))
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    except (SpecError, z3.Z3Exception, KeyError, AttributeError, TypeError, ValueError, IndexError, StopIteration, RecursionError) as e:
        out['error'] = 'extraction: %s: %s (near line %s)' % (type(e).__name__, e, getattr(ex, 'line', '?') if 'ex' in dir() else '?')
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    out['time'] = time.time() - t0
    return out


class ProofResult:
    def __init__(self):
        self.obligations = []       # dict(name, kind, line, status, backend, time, detail, text)
        self.errors = []            # extraction problems: (function, message)
        self.functions = []
        self.trusted = []
        self.elsewhere = []         # contracts used here, discharged by another property's check
        self.assumptions = set()
        self.inlined = set()
        self.exec_time = 0
        self.solver_time = 0

    @property
    def failed(self):
        return [o for o in self.obligations if o['status'] != 'proved']


def run(prop, lib, contracts, tus, budget=20, procs=8, only=None, deadline=None, exec_limit=300, verbose=False, lemmas=True, extra=(), smoke=False):
    """Verify all contracts relevant for `prop` and the lemmas they use."""
    res = ProofResult()
    prog = Program(tus)
    w = World(prog, lib, contracts, prop)
    _W.update(w=w, cs=contracts, index={id(c): i for i, c in enumerate(contracts)}, exec_limit=exec_limit, smoke=smoke)
    rel = [i for i, c in enumerate(contracts) if (c.props is None or prop is None or prop in c.props)
           and (only is None or any(o in c.fn for o in only))]
    done, todo, outs = set(), list(rel), []
    t0 = time.time()
    missing = {id(c) for c in w.missing}
    while todo:
        batch = []
        for i in todo:
            if i in done:
                continue
            done.add(i)
            c = contracts[i]
            if id(c) in missing:
                # a helper that no longer exists is simply not used; callers are still verified
                if c.props is not None and not getattr(c, 'helper', False):
                    res.errors.append((c.fn, 'function not found'))
                continue
            if prop in c.elsewhere:
                res.elsewhere.append(c.fn)
                continue
            if c.trusted:
                res.trusted.append(c.fn)
                continue
            batch.append(i)
        todo = []
        if not batch:
            break
        with mp.get_context('fork').Pool(min(procs, len(batch)), maxtasksperchild=1) as pool:
            for o in pool.imap_unordered(exec_one, batch):
                outs.append(o)
                if only is None:
                    todo += o['called']
    res.exec_time = time.time() - t0
    outs.sort(key=lambda o: o['i'])
    items, meta, used = [], [], set()
    for o in outs:
        res.functions.append(dict(function=o['fn'], line=o.get('line'), obligations=len(o['obls']), paths=o.get('paths'),
                                  exits=o.get('exits'), inlined=o['inlined'], error=o['error']))
        res.inlined |= set(o['inlined'])
        res.assumptions |= set(o['assumptions'])
        used |= set(o.get('lemmas', []))
        if o['error']:
            res.errors.append((o['fn'], o['error']))
        elif o.get('endless'):
            res.errors.append((o['fn'], 'no termination argument for ' + ', '.join(o['endless'])))
        for nm, kind, line, text, tmo in o['obls']:
            d = dict(name=nm, kind=kind, line=line, fn=o['fn'], status='proved', backend=tmo if text is None else None, time=0.0, detail='')
            res.obligations.append(d)
            if text is not None:
                d['status'] = None
                d['text'] = text
                items.append((text, tmo or budget))
                meta.append(d)
    if lemmas:
        todo, seen = list(used) + list(extra), set()
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            l = lib.lemmas[n]
            lib.used_lemmas = set()
            for nm, hyps, goal in l.obligations(lib):
                ax = lib.used_axioms(hyps + [goal])
                d = dict(name=nm, kind='lemma', line=0, fn='', status=None, backend=None, time=0.0, detail='',
                         text=solve.text_of(hyps, goal, ax))
                res.obligations.append(d)
                items.append((d['text'], l.timeout or budget))
                meta.append(d)
            todo += list(lib.used_lemmas - {n})
        res.lemmas = sorted(seen)
    # one query per distinct text
    uniq, idx = {}, []
    for t, b in items:
        if t not in uniq:
            uniq[t] = (len(uniq), b)
        idx.append(uniq[t][0])
    texts = list(uniq)
    t1 = time.time()
    rs = solve.solve_all(texts, [uniq[t][1] for t in texts], procs, deadline=deadline)
    # a second, longer try for what is still open (guards against a loaded machine)
    again = [k for k in range(len(texts)) if rs[k][0] == 'unknown']
    if again and len(again) <= 12 and deadline is not None and deadline - time.time() > 30:
        r2 = solve.solve_all([texts[k] for k in again], 3 * budget, min(procs, 4), deadline=deadline)
        for k, r in zip(again, r2):
            if r[0] != 'unknown':
                rs[k] = r
    for d, k in zip(meta, idx):
        d['status'], d['backend'], d['time'], d['detail'] = rs[k]
    # A function whose loops are not the ones its contract has invariants for is not
    # under a complete contract: what fails there says nothing about the code.
    odd = {o['fn']: o['loops'] for o in outs if o.get('loops')}
    for fn, (n, k) in sorted(odd.items()):
        bad = [d for d in res.obligations if d['fn'] == fn and d['status'] != 'proved']
        if bad:
            res.errors.append((fn, '%d loops, invariants for %d; open without further invariants: %s' % (n, k, ', '.join(sorted({d['name'] for d in bad}))[:600])))
            ids = set(map(id, bad))
            res.obligations = [d for d in res.obligations if id(d) not in ids]
    if smoke:
        # vacuity: no exit of a function may have contradictory hypotheses
        st = [(o['fn'], t) for o in outs for t in o.get('smoke', [])]
        rr = solve.solve_all([t for _, t in st], 3, procs)
        bad = sorted({fn for (fn, _), r in zip(st, rr) if r[0] == 'proved'})
        dead = {fn for fn in bad if all(r[0] == 'proved' for (g, _), r in zip(st, rr) if g == fn)}
        res.smoke = dict(exits_checked=len(st), contradictory_exits=sum(r[0] == 'proved' for r in rr), functions_without_live_exit=sorted(dead))
        for fn in sorted(dead):
            res.errors.append((fn, 'vacuous: hypotheses contradictory at every exit'))
    res.wall = time.time() - t1
    res.solver_time = sum(r[2] for r in rs)
    return res
