"""Discharging obligations: a portfolio of SMT back ends, in parallel."""
import hashlib
import json
import multiprocessing as mp
import os
import subprocess
import tempfile
import time
import z3

CACHE = os.environ.get('VERIF_CACHE')      # development only; never set by the checks


def text_of(hyps, goal, axioms):
    s = z3.Solver()
    for a in axioms:
        s.add(a)
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    return s.to_smt2()


Z3_STAGES = [
    ('z3-lin', dict(lin=True), 1500),
    ('z3-core', dict(core=True, auto_config=False, **{'smt.mbqi': False}), 4000),
    ('z3-ematch', dict(auto_config=False, **{'smt.mbqi': False}), 3000),
    ('z3-default', {}, 3000),
    ('z3-ematch-seed7', dict(auto_config=False, **{'smt.mbqi': False, 'smt.random_seed': 7, 'smt.arith.solver': 2}), 8000),
    ('z3-core-seed5', dict(core=True, auto_config=False, **{'smt.mbqi': False, 'smt.random_seed': 5, 'smt.case_split': 3}), 10000),
    ('z3-ematch-seed3', dict(auto_config=False, **{'smt.mbqi': False, 'smt.random_seed': 3, 'smt.case_split': 3}), 10000),
]


def linearise(e, ctx, memo):
    """Replace products and quotients of unknowns by uninterpreted functions (a weakening:
    what is unsatisfiable afterwards was unsatisfiable before)."""
    k = e.get_id()
    if k in memo:
        return memo[k][1]
    r = e
    if z3.is_quantifier(e):
        cs = [z3.FreshConst(e.var_sort(i), 'q') for i in range(e.num_vars())]
        sub = list(reversed(cs))
        body = linearise(z3.substitute_vars(e.body(), *sub), ctx, memo)
        pats = []
        for i in range(e.num_patterns()):
            ts = [linearise(z3.substitute_vars(t, *sub), ctx, memo) for t in e.pattern(i).children()]
            pats.append(z3.MultiPattern(*ts))
        r = (z3.ForAll if e.is_forall() else z3.Exists)(cs, body, patterns=pats)
    elif z3.is_app(e) and e.num_args():
        ch = [linearise(c, ctx, memo) for c in e.children()]
        kind = e.decl().kind()
        if kind == z3.Z3_OP_MUL:
            num = [c for c in ch if z3.is_rational_value(c) or z3.is_int_value(c)]
            oth = sorted([c for c in ch if not (z3.is_rational_value(c) or z3.is_int_value(c))], key=lambda c: c.get_id())
            if len(oth) > 1:
                so = e.sort()
                f = z3.Function('umul_%s' % so, so, so, so)
                r = oth[0]
                for c in oth[1:]:
                    r = f(r, c)
                for c in num:
                    r = c * r
                memo[k] = (e, r)
                return r
        if kind in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (z3.is_rational_value(ch[1]) or z3.is_int_value(ch[1])):
            so = e.sort()
            r = z3.Function('u%d_%s' % (kind, so), ch[0].sort(), ch[1].sort(), so)(ch[0], ch[1])
        else:
            r = e.decl()(*ch) if not all(a.eq(b) for a, b in zip(ch, e.children())) else e
    memo[k] = (e, r)
    return r


def nonlinear(text):
    import re
    return '(/ ' in text or re.search(r'\(\* (?!\(- [0-9.]+\)|[0-9.])', text) is not None


def run_z3(text, opts, ms):
    if opts.get('lin'):
        try:
            fs = z3.parse_smt2_string(text)
            memo = {}
            s = z3.SimpleSolver()
            s.set('timeout', int(ms))
            s.set('auto_config', False)
            s.set('mbqi', False)
            for f in fs:
                s.add(linearise(f, None, memo))
            return ('unsat' if s.check() == z3.unsat else 'unknown'), ''
        except z3.Z3Exception:
            return 'unknown', ''
    ctx = z3.Context()
    # 'core': the SMT core without the preprocessing that can remove trigger terms
    s = z3.SimpleSolver(ctx=ctx) if opts.get('core') else z3.Solver(ctx=ctx)
    s.set('timeout', int(ms))
    for k, v in opts.items():
        if k == 'core':
            continue
        try:
            s.set(k.replace('smt.', ''), v)
        except z3.Z3Exception:
            s.set(k, v)
    s.from_string(text)
    r = s.check()
    m = ''
    if r == z3.sat:
        try:
            m = str(s.model())[:3000]
        except z3.Z3Exception:
            pass
    return str(r), m


def run_ext(cmd, text, secs):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text)
        p = f.name
    try:
        r = subprocess.run(cmd + [p], capture_output=True, text=True, timeout=secs + 5)
        out = r.stdout.strip().split('\n')
        return out[0] if out else 'unknown'
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(p)


def solve_one(args):
    i, text, budget = args
    t0 = time.time()
    h = hashlib.sha256(text.encode()).hexdigest()
    cp = os.path.join(CACHE, h) if CACHE else None
    if cp and os.path.exists(cp):
        return i, 'proved', 'cache', 0.0, ''
    status, backend, detail = 'unknown', None, ''
    z3.set_param('memory_max_size', 3500)
    try:
        for nm, opts, ms in Z3_STAGES:
            left = budget - (time.time() - t0)
            if left <= 0.2:
                break
            if opts.get('lin') and not nonlinear(text):
                continue
            r, m = run_z3(text, opts, min(ms, left * 1000) if budget < 40 else min(ms * 2, left * 1000))
            if r == 'unsat':
                status, backend = 'proved', nm
                break
            if r == 'sat':
                status, backend, detail = 'failed', nm, m
                break
            if nm == 'z3-default' and budget - (time.time() - t0) > 2:
                left = min(10 if budget < 40 else 30, budget - (time.time() - t0))
                r = run_ext(['cvc5', '--tlimit=%d' % int(left * 1000), '--lang=smt2', '--arrays-exp'], text, left)
                if r == 'unsat':
                    status, backend = 'proved', 'cvc5'
                    break
    except z3.Z3Exception as e:
        detail = str(e)
    if cp and status == 'proved':
        open(cp, 'w').write(backend)
    return i, status, backend, time.time() - t0, detail


def solve_all(items, budget, procs=8, on_result=None, deadline=None):
    """items: list of smt2 texts -> list of (status, backend, time, detail)."""
    res = [None] * len(items)
    order = [(i, t, budget if not isinstance(budget, list) else budget[i]) for i, t in enumerate(items)]
    if not order:
        return res
    with mp.get_context('fork').Pool(min(procs, len(order)), maxtasksperchild=40) as pool:
        it = pool.imap_unordered(solve_one, order)
        for _ in range(len(order)):
            try:
                left = None if deadline is None else max(0.1, deadline - time.time())
                i, st, be, tm, de = it.next(left)
            except mp.TimeoutError:
                pool.terminate()
                break
            res[i] = (st, be, tm, de)
            if on_result:
                on_result(i, res[i])
    for i in range(len(res)):
        if res[i] is None:
            res[i] = ('unknown', None, 0.0, 'time limit of the whole check')
    return res
