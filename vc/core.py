"""Symbolic executor / verification-condition generator over the clang AST."""
import re
import time
import z3
from fractions import Fraction
from .frontend import Unsupported, inner, Program
from .types import TypeParser, strip_cv
from .values import *
from .spec import SpecEval, SpecError, as_term, leaves, SORTS, parsed
from . import maps
import ast as pyast

MAXLEN = 2 ** 60


class PathEnd(Exception):
    pass


class Restart(Exception):
    pass


class Thrown(Exception):
    def __init__(self, ety):
        self.ety = ety


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Clause:
    def __init__(self, label, expr, props=None):
        self.label, self.expr, self.props = label, expr, (set(props.split()) if isinstance(props, str) else props)


class By(Clause):
    """Intermediate assertion with a local proof: `fix` introduces arbitrary values
    [(name, lo, hi)], `uses` are lemma calls available only here, `given` (if set) are the
    only facts used for the goal, each of them proved first.  Afterwards the goal,
    generalised over `fix` with trigger `trig`, is known."""

    def __init__(self, label, goal, fix=(), trig=None, given=None, uses=(), props=None, when=None):
        Clause.__init__(self, label, goal, props)
        self.fix, self.trig, self.given, self.uses, self.when = list(fix), trig, given, list(uses), when


def clauses(lst):
    out = []
    for i, c in enumerate(lst or []):
        if isinstance(c, Clause):
            out.append(c)
        elif isinstance(c, str):
            out.append(Clause(str(i), c))
        else:
            out.append(Clause(*c))
    return out


class Loop:
    """inv: invariants; begin/end/exit: hints (lemma calls or 'assert ..' steps);
    ghost: list of (name, expr) updates applied at the end of an iteration."""

    def __init__(self, inv=(), begin=(), end=(), exit=(), name=None, free=(), gbegin=(), gend=(), forget=False, init=(), ginit=(), trust=(), gexit=(), decreases=(), diverges=None):
        self.decreases = [decreases] if isinstance(decreases, str) else list(decreases)  # terms that decrease lexicographically (each >= 0)
        self.diverges = diverges  # text: why termination is not claimed
        self.trust = list(trust)  # [(formula, stated assumption)]: taken for granted at the start of an iteration
        self.init = clauses(init)
        self.ginit = list(ginit)  # ghost assignments before the loop
        self.forget = forget      # drop quantified facts about values the loop overwrites
        self.gbegin, self.gend, self.gexit = list(gbegin), list(gend), list(gexit)  # gexit: where the loop condition fails
        self.inv = clauses(inv)
        self.begin, self.end, self.exit = clauses(begin), clauses(end), clauses(exit)
        self.name = name


def mentions(text, n):
    return re.search(r'\b%s\b' % n, text) is not None


class Contract:
    def __init__(self, fn, params=(), requires=(), ensures=(), modifies=(), throws=None, loops=(),
                 entry=(), exit=(), logic=None, shape=None, returns=None, nparams=None, sig=None,
                 props=None, trusted=False, inline=False, timeout=None, inst=None, ctor=False,
                 throw_unchanged=True, may_throw=None, modifies_on_throw=None, fresh_result=None,
                 pre_call=None, lets=None, heap=(), effect=None, ghost_out=None, ghost=None, gentry=(), gexit=(), nullable=(), glocal=None, forall=(), nothrow=None, elsewhere='', trust=()):
        # nothrow: exceptions are excluded only for these properties; for the others the
        # postconditions speak about normal returns.  elsewhere: properties for which the
        # contract is used but decided by another property's check
        self.nothrow = set(nothrow.split()) if nothrow is not None else None
        self.elsewhere = set(elsewhere.split())
        self.trust = [(clauses([x])[0], t) for x, t in trust]    # (clause, text): callers may rely on it; reported as an assumption
        # logic variables over which callers may quantify: the contract holds for all their
        # values in one and the same execution (ghost code must not mention them)
        self.forall = list(forall)
        self.glocal = glocal or {}
        self.ghost, self.gentry, self.gexit, self.nullable = ghost or {}, list(gentry), list(gexit), list(nullable)
        self.ghost_out = ghost_out or {}
        self.fn, self.params = fn, list(params)
        self.nparams = nparams if nparams is not None else len(self.params)
        self.sig = sig
        self.requires, self.ensures = clauses(requires), clauses(ensures)
        self.modifies = list(modifies)
        self.throws = throws
        self.loops = list(loops)
        self.entry, self.exit = clauses(entry), clauses(exit)
        self.logic = logic or {}
        self.inst = inst or {}
        self.shape = shape or {}
        self.returns = returns
        self.trusted, self.inline = trusted, inline
        self.timeout = timeout
        self.may_throw = may_throw
        self.throw_unchanged = throw_unchanged
        self.props = set(props.split()) if isinstance(props, str) else props
        self.lets = lets or []
        self.heap, self.effect = list(heap), effect
        for n in self.forall:
            for u in self.gentry + self.gexit + [u for l in self.loops for u in l.gbegin + l.gend + l.ginit + l.gexit]:
                if any(mentions(x, n) for x in u[1:3]):
                    raise ValueError('%s: ghost code mentions %s' % (fn, n))


class Obligation:
    __slots__ = ('name', 'kind', 'func', 'hyps', 'goal', 'line', 'status', 'time', 'backend', 'model', 'props', 'detail', 'timeout')

    def __init__(self, name, kind, func, hyps, goal, line, timeout=None):
        self.name, self.kind, self.func, self.hyps, self.goal, self.line = name, kind, func, hyps, goal, line
        self.status, self.time, self.backend, self.model, self.detail = None, 0.0, None, None, ''
        self.timeout = timeout


class LoopPlan:
    def __init__(self):
        self.mods = []          # ordered list of (root, fields, part)
        self.form = {}          # mod -> '+', '-', 'free'
        self.bound_ok = True


class Store:
    """Program state snapshot/view used by specs."""

    def __init__(self, ex, store):
        self.ex, self.store = ex, store

    def load(self, loc):
        return self.ex.load_from(self.store, loc)


def names_of(v):
    """Names of the free constants in a symbolic value."""
    out, todo, seen = set(), [v], set()
    while todo:
        x = todo.pop()
        if z3.is_expr(x):
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
            elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            elif z3.is_app(x):
                todo += x.children()
        elif isinstance(x, (list, tuple)):
            todo += list(x)
        elif isinstance(x, dict):
            todo += list(x.values())
        elif isinstance(x, Vec):
            todo += [x.len, x.data]
        elif isinstance(x, RecV):
            todo.append(x.f)
        elif isinstance(x, Ptr):
            todo.append(x.off)
        elif hasattr(x, '__slots__'):
            todo += [getattr(x, k, None) for k in x.__slots__ if k != 'ety']
    return out


def has_quant(e, seen=None):
    if z3.is_quantifier(e):
        return True
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo += x.children()
    return False


def consts_of(e):
    out, seen, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo += x.children()
    return out


class Activation:
    def __init__(self, func, env, this, chain):
        self.func, self.env, self.this, self.chain = func, env, this, chain
        self.names = {}         # name -> Loc (latest declaration)


class World:
    """Program + library + contracts, shared by all function verifications."""

    def __init__(self, program, lib, contracts, prop=None):
        self.prog, self.lib, self.prop = program, lib, prop
        self.parsers = {n: TypeParser(program, tu) for n, tu in program.tus.items()}
        self._fields = {}
        self.ti = TypeInfo(self.fields_of)
        self.contracts = contracts
        self.by_key = {}
        self.missing = []
        for c in contracts:
            fs = program.find(c.fn, c.nparams, c.sig)
            if not fs:
                self.missing.append(c)
                continue
            c.func = fs[0]
            for f in fs:
                self.by_key[f.key] = c

    def used_contract(self, f):
        c = self.by_key.get(f.key)
        return None if c is None or c.inline else c

    def tp(self, tu):
        return self.parsers[tu.name]

    def fields_of(self, q):
        if q in self._fields:
            return self._fields[q]
        for n, tu in self.prog.tus.items():
            r = tu.rec_by_qual.get(q)
            if r:
                tp = self.parsers[n]
                out = []
                for nm, ty, node in r.fields:
                    s = ty.get('qualType', '')
                    out.append((nm, tp.node(ty), s.rstrip().endswith('&')))
                self._fields[q] = out
                return out
        raise Unsupported('unknown record ' + q)

    def rec(self, q):
        for n, tu in self.prog.tus.items():
            r = tu.rec_by_qual.get(q)
            if r:
                return r
        return None

    def active(self, c):
        if self.prop is None or c.props is None:
            return True
        return self.prop in c.props


def int_range(ty):
    bits, signed = ty[1], ty[2]
    return (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1) if signed else (0, 2 ** bits - 1)


from .stdmodel import StdModel
from .expr import ExprEval


class Exec(ExprEval, StdModel):
    """Verifies one function against its contract."""

    def __init__(self, world, contract, time_limit=600):
        self.w, self.c = world, contract
        self.lib, self.ti, self.prog = world.lib, world.ti, world.prog
        self.func = contract.func
        self.plans = {}
        self.obls = {}
        self.deadline = time.time() + time_limit
        self.max_paths = 4000
        self.quick_ms = 300
        self.assumptions = set()
        self.endless = set()
        self.inlined = set()
        self.called = set()
        self.exits = 0
        self.nloops = None

    # ------------------------------------------------------------ exploration
    def verify(self):
        restarts = 0
        while True:
            try:
                self.obls = {}
                self.order = []
                self.exits = 0
                self.normal_exits = 0
                self.qcache = {}
                self.smoke = []
                self.endless = set()
                self.stack = [[]]
                paths = 0
                while self.stack:
                    if time.time() > self.deadline:
                        raise Unsupported('symbolic execution time limit')
                    paths += 1
                    if paths > self.max_paths:
                        raise Unsupported('too many paths')
                    self.run(self.stack.pop())
                self.paths = paths
                break
            except Restart:
                restarts += 1
                if restarts > 200:
                    raise Unsupported('loop analysis did not stabilise')
        return [self.obls[k] for k in self.order]

    def run(self, prefix):
        self.prefix, self.di, self.dec = prefix, 0, []
        self.pc = []
        self.pcset = set()
        self.quick = z3.SimpleSolver()
        self.quick.set('timeout', self.quick_ms)
        self.qn = 0
        self.ctr = 0
        self.store = {}
        self.rtype = {}
        self.rname = {}
        self.heap = {}              # root -> 'live' | 'freed'
        self.group = {}             # sub-region root -> owner root
        self.recs = []              # active loop write recorders
        self.loopstack = []
        self.nroot = 0
        self.acts = []
        self.condctx = None
        self.suppress = 0
        self.ranged = set()
        self.mapfacts = set()
        self.finmaps = []
        self.line = 0
        self.ghostlocs = {}
        self.allocfail = False
        self.temps = set()
        self.keep = []
        self.npsum = 0
        try:
            self.run_contract()
        except PathEnd:
            pass

    # decisions -----------------------------------------------------------
    def new_territory(self):
        return self.di >= len(self.prefix)

    def qcheck(self, f):
        """z3 result of pc(QF) and f; cached per path position."""
        key = (tuple(self.dec), self.qn)
        self.qn += 1
        if key in self.qcache:
            return self.qcache[key]
        r = self.quick.check(f)
        self.qcache[key] = r
        return r

    def provable(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if has_quant(f):
            return False
        return self.qcheck(z3.Not(f)) == z3.unsat

    def branch(self, c):
        c = z3.simplify(as_term(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.condctx is not None:
            self.try_bound(c)
        qf = not has_quant(c)
        if qf:
            t = self.qcheck(c) != z3.unsat
            f = self.qcheck(z3.Not(c)) != z3.unsat
            if not t and not f:
                raise PathEnd()
            if not t:
                self.assume(z3.Not(c))
                return False
            if not f:
                self.assume(c)
                return True
        d = self.choose(2) == 0
        self.assume(c if d else z3.Not(c))
        return d

    def choose(self, n):
        if self.di < len(self.prefix):
            v = self.prefix[self.di]
        else:
            v = 0
            for alt in range(n - 1, 0, -1):
                self.stack.append(self.dec + [alt])
        self.di += 1
        self.dec = self.dec + [v]
        return v

    def assume(self, f):
        f = as_term(f)
        if z3.is_true(f):
            return
        i = f.get_id()
        if i in self.pcset:
            return
        self.pcset.add(i)
        self.pc.append(f)
        if z3.is_false(f):
            raise PathEnd()
        if z3.is_and(f):
            for x in f.children():
                self.pcset.add(x.get_id())
                if not has_quant(x):
                    self.quick.add(x)
        elif not has_quant(f):
            self.quick.add(f)

    def oblige(self, kind, label, goal, assume=True):
        goal = as_term(goal)
        if z3.is_and(goal) and has_quant(goal):
            parts = goal.children()
            for i, x in enumerate(parts):
                self.oblige(kind, '%s.%s' % (label, 'abcdefghijklmnopqrstuvwxyz'[i % 26]), x, assume)
            return
        g = z3.simplify(goal)
        if z3.is_true(g) or goal.get_id() in self.pcset or g.get_id() in self.pcset or self.known(goal):
            if not self.suppress and self.new_territory():
                nm = '%s:%s:%s@%d' % (self.short(self.func.qual), kind, label, self.line)
                key = (nm, tuple(self.dec), len(self.pc), 0)
                if key not in self.obls:
                    o = Obligation(nm, kind, self.func.qual, None, None, self.line)
                    o.status, o.backend = 'proved', 'z3-simplify'
                    self.obls[key] = o
                    self.order.append(key)
            return
        if self.suppress:
            self.assume(goal)
            return
        if self.new_territory():
            nm = '%s:%s:%s@%d' % (self.short(self.func.qual), kind, label, self.line)
            key = (nm, tuple(self.dec), len(self.pc), goal.get_id())
            if key not in self.obls:
                if kind in ('bounds', 'overflow', 'uninit', 'null', 'div0', 'assert', 'narrow') and not has_quant(g) \
                        and self.quick.check(z3.Not(g)) == z3.unsat:
                    o = Obligation(nm, kind, self.func.qual, None, None, self.line)
                    o.status, o.backend = 'proved', 'z3-qf'
                else:
                    o = Obligation(nm, kind, self.func.qual, list(self.pc), goal, self.line, self.c.timeout)
                self.obls[key] = o
                self.order.append(key)
        if assume:
            self.assume(goal)

    def known(self, goal):
        return z3.is_and(goal) and all(x.get_id() in self.pcset or self.known(x) for x in goal.children())

    def short(self, q):
        return q.replace('Opm::FlowDiagnostics::', '').replace('Opm::', '')

    def fresh_name(self, base):
        self.ctr += 1
        return '%s!%d' % (base, self.ctr)

    def fresh(self, sort, base='v'):
        return z3.Const(self.fresh_name(base), sort)

    # ------------------------------------------------------------ memory
    def new_root(self, value, ty=None, name=''):
        self.nroot += 1
        r = self.nroot
        self.store[r] = value
        self.rtype[r] = ty
        self.rname[r] = name
        return Loc(r)

    def load(self, loc):
        return self.load_from(self.store, loc)

    def load_from(self, store, loc):
        v = store[loc.root]
        for s in loc.path:
            v = self.step_value(v, s, store)
        return v

    def step_value(self, v, s, store):
        k = s[0]
        if k == 'f':
            if isinstance(v, RecV):
                if s[1] not in v.f:
                    raise Unsupported('field %s' % s[1])
                return v.f[s[1]]
            raise Unsupported('field %s of %r' % (s[1], v))
        if k == 'i':
            if isinstance(v, Vec):
                return sel(v.data, s[1])
            raise Unsupported('index of %r' % (v,))
        if k == 'k':
            return sel(v.val, s[1])
        if k == 'kv':
            return RecV('pair', {'first': self.ti.key_value(v.kty, s[1]), 'second': sel(v.val, s[1])})
        if k == 'e':
            return self.ti.key_value(v.kty, s[1])
        raise Unsupported('path step')

    def upd(self, v, path, new):
        if not path:
            return new
        s = path[0]
        if s[0] == 'f':
            f = dict(v.f)
            f[s[1]] = self.upd(v.f.get(s[1], UNINIT), path[1:], new)
            return RecV(v.name, f)
        if s[0] == 'i':
            e = self.upd(sel(v.data, s[1]), path[1:], new) if path[1:] else new
            return Vec(v.ety, v.len, sto(v.data, s[1], self.fit(e, v.ety)))
        if s[0] == 'k':
            e = self.upd(sel(v.val, s[1]), path[1:], new) if path[1:] else new
            return MapV(v.kty, v.vty, v.dom, sto(v.val, s[1], self.fit(e, v.vty)))
        if s[0] == 'kv':
            if path[1:] and path[1] == ('f', 'second'):
                return self.upd(v, (('k', s[1]),) + tuple(path[2:]), new)
        raise Unsupported('store path')

    def fit(self, v, ty):
        """Adjust int/real leaf to element type."""
        if z3.is_expr(v) and ty is not None:
            s = leaf_sort(ty)
            if s is not None and v.sort() != s:
                if s == R and v.sort() == I:
                    return z3.ToReal(v)
                if s == I and v.sort() == B:
                    return z3.If(v, z3.IntVal(1), z3.IntVal(0))
                if s == B and v.sort() == I:
                    return v != 0
        if isinstance(v, (Ptr, MIt, Closure, Opaque, Uninit)):
            raise Unsupported('pointer stored in container')
        return v

    def write(self, loc, v):
        self.check_live(loc)
        self.record(loc, v)
        self.store[loc.root] = self.upd(self.store[loc.root], loc.path, v)

    def record(self, loc, v=None):
        if not self.recs:
            return
        fs, part = [], 'self'
        for s in loc.path:
            if s[0] == 'f':
                fs.append(s[1])
            elif s[0] in ('i',):
                part = 'data'
                break
            else:
                part = 'map'
                break
        self.note((loc.root, tuple(fs), part))

    def note(self, m):
        for rec in self.recs:
            rec.add(m)

    def check_live(self, loc):
        own = self.group.get(loc.root, loc.root)
        if self.heap.get(own) == 'freed':
            self.oblige('bounds', 'use-after-free', z3.BoolVal(False))
            raise PathEnd()

    # ------------------------------------------------------------ fresh values
    def fresh_tree(self, ty, base, wraps=(), assume=True):
        def leaf(t, w, path):
            s = leaf_sort(t)
            if s is not None:
                if t[0] == 'int' and len(t) > 3 and not w:
                    v = self.fresh(I, base + path)
                    self.assume(z3.And(v >= 0, v <= MAXLEN))
                    return v
                v = self.fresh(lift_sort(s, w), base + path)
                if not w and t[0] == 'int':
                    lo, hi = int_range(t)
                    self.assume(z3.And(v >= lo, v <= hi))
                if w and t[0] == 'int' and len(t) > 3:
                    ks = [z3.Const('w%d!l' % i, x) for i, x in enumerate(w)]
                    e = v
                    for k in ks:
                        e = z3.Select(e, k)
                    self.assume(z3.ForAll(ks, z3.And(e >= 0, e <= MAXLEN), patterns=[e]))
                return v
            if w:
                if t[0] in ('ptr', 'uptr', 'iter'):
                    raise Unsupported('container of pointers')
                return Opaque(str(t))
            if t[0] in ('ptr', 'uptr'):
                return self.fresh_ptr(t[1], base + path)
            if t[0] == 'ostream':
                return self.fresh_ostream(base + path)
            return Opaque(str(t))
        v = self.ti.mk(ty, leaf, wraps)
        if ty[0] == 'rec':
            for nm, t, isref in self.w.fields_of(ty[1]):
                if isref:
                    v.f[nm] = Ref(self.new_root(v.f[nm], t, base + '.' + nm))
        return v

    def fresh_ptr(self, ty, base):
        if ty[0] == 'rec':
            return Ptr(self.new_root(self.fresh_tree(ty, base), ty, base))
        if leaf_sort(ty) is not None or ty[0] in ('vec', 'pair'):
            vt = ('vec', ty)
            r = self.new_root(self.fresh_tree(vt, base), vt, base)
            return Ptr(r, z3.IntVal(0))
        return Opaque('ptr ' + str(ty))

    def default_value(self, ty):
        """Value-initialised object."""
        k = ty[0]
        if k == 'int':
            return z3.IntVal(0)
        if k == 'real':
            return z3.RealVal(0)
        if k == 'bool':
            return z3.BoolVal(False)
        if k == 'str':
            return z3.Const('str_empty', StrSort)
        if k == 'vec':
            def leaf(t, w, p):
                s = leaf_sort(t)
                return z3.IntVal(0) if not w else self.default_leaf(t, w)
            return Vec(ty[1], z3.IntVal(0), self.ti.mk(ty[1], lambda t, w, p: self.default_leaf(t, w), (I,)))
        if k in ('map', 'set'):
            ks = self.ti.key_sort(ty[1])
            return MapV(ty[1], ty[2] if k == 'map' else None, z3.K(ks, z3.BoolVal(False)),
                        self.ti.mk(ty[2], lambda t, w, p: self.default_leaf(t, w), (ks,)) if k == 'map' else None)
        if k == 'pair':
            return RecV('pair', {'first': self.default_value(ty[1]), 'second': self.default_value(ty[2])})
        if k == 'rec':
            return self.default_rec(ty[1])
        if k in ('ptr', 'uptr'):
            return NULL
        if k == 'float':
            return z3.RealVal(0)
        return Opaque(str(ty))

    def default_leaf(self, t, w):
        s = leaf_sort(t)
        if s is None:
            raise Unsupported('container of %r' % (t,))
        v = {I: z3.IntVal(0), R: z3.RealVal(0), B: z3.BoolVal(False)}.get(s)
        if s == StrSort:
            v = z3.Const('str_empty', StrSort)
        for ks in reversed(w):
            v = z3.K(ks, v)
        return v

    def default_rec(self, q):
        r = self.w.rec(q)
        f = {}
        for nm, t, isref in self.w.fields_of(q):
            node = next(x[2] for x in r.fields if x[0] == nm)
            init = [c for c in inner(node) if 'valueCategory' in c or c['kind'].endswith('Expr') or c['kind'].endswith('Literal')]
            if init:
                f[nm] = UNINIT
            else:
                f[nm] = self.default_value(t)
        if any(v is UNINIT for v in f.values()):
            loc = self.new_root(RecV(q, f), ('rec', q))
            act = Activation(None, {}, loc, ('dinit', q))
            act.tu = r.tu
            self.acts.append(act)
            try:
                for nm, t, isref in self.w.fields_of(q):
                    node = next(x[2] for x in r.fields if x[0] == nm)
                    init = [c for c in inner(node) if 'valueCategory' in c]
                    if init:
                        v = self.init_value(init[0], t)
                        self.store[loc.root].f[nm] = v
            finally:
                self.acts.pop()
            return self.store[loc.root]
        return RecV(q, f)

    # ------------------------------------------------------------ contracts
    def spec_env(self, names, this, old=None, pre=None, result=None):
        ev = SpecEval(self.lib, names, Store(self, self.store), old, pre, result, this)
        ev.ex = self
        return ev

    def run_contract(self):
        c, f = self.c, self.func
        tu = f.tu
        tp = self.w.tp(tu)
        act = Activation(f, {}, None, (f.key,))
        act.tu = tu
        self.acts.append(act)
        names = {}
        self.logic = {n: z3.Const('$' + n, SORTS[s]) for n, s in c.logic.items()}
        names.update(self.logic)
        # this
        this = None
        if f.rec is not None and not f.is_static:
            ty = ('rec', f.rec.qual)
            if f.is_ctor:
                this = self.new_root(RecV(f.rec.qual, {n: UNINIT for n, t, r in self.w.fields_of(f.rec.qual)}), ty, 'this')
            else:
                this = self.new_root(self.fresh_tree(ty, 'this'), ty, 'this')
            act.this = this
        byval = set()
        for i, p in enumerate(f.params):
            nm = c.params[i] if i < len(c.params) else p.get('name', 'p%d' % i)
            qt = p['type'].get('qualType', '')
            ty = tp.node(p['type'])
            isref = qt.rstrip().endswith('&')
            if ty[0] == 'iter':
                loc = self.new_root(Ptr(Loc(-1), z3.IntVal(0)), ty, nm)   # replaced by shape
            elif ty[0] == 'lambda':
                raise Unsupported('lambda parameter')
            else:
                loc = self.new_root(self.fresh_tree(ty, nm), ty, nm)
            if not isref:
                byval.add(loc.root)
            act.env[p['id']] = loc
            act.names[p.get('name', '')] = loc
            names[nm] = loc
        for n in c.nullable:
            if self.choose(2) == 1:
                self.store[names[n].root] = NULL
        for g, srt in c.ghost.items():
            names[g] = self.ghostlocs[g] = self.new_root(self.fresh(SORTS[srt], g), None, g)
        self.this, self.names0 = this, names
        self.apply_shape(names, this)
        for n, e in c.inst.items():
            self.logic[n] = names[n] = as_term(self.spec_env(names, this).ev(e))
        for path in c.heap:
            try:
                v = self.spec_env(names, this).ev(path)
            except SpecError:
                continue        # below a null pointer
            if not v.null:
                self.heap[v.loc.root] = 'live'
        self.entry_roots = set(self.store)
        for g, srt in c.glocal.items():
            names[g] = self.ghostlocs[g] = self.new_root(self.fresh(SORTS[srt], g), None, g)
        self.byval = byval
        # heap ownership for leak check: regions reachable from pointer params
        ev = self.spec_env(names, this)
        for cl in c.requires:
            if self.w.active(cl):
                self.assume(ev.formula(cl.expr))
        self.entry_store = dict(self.store)
        self.old = (Store(self, self.entry_store), {})
        self.oldnames = {n: (v if not isinstance(v, Loc) else v) for n, v in names.items()}
        self.ghost_update(c.gentry, names, this)
        self.run_hints(c.entry, 'entry', names, this)
        try:
            if f.is_ctor:
                self.run_ctor_body(f, act, this)
            else:
                self.exec_stmt(f.body)
            res = None
        except ReturnEx as r:
            res = r.v
        except Thrown as t:
            self.exit_throw(t)
            raise PathEnd()
        except (BreakEx, ContinueEx):
            raise Unsupported('stray break')
        self.exit_normal(res)

    def ghost_update(self, ups, names, this, **kw):
        """Ghost assignments, in order: (name, expr), or (name, x, expr) for the array
        mapping every x to expr, which only the properties named in a fourth entry need."""
        for u in ups:
            if len(u) == 4 and self.w.prop is not None and self.w.prop not in u[3].split():
                continue
            ev = self.spec_env(names, this, getattr(self, 'old', None), kw.get('pre'), kw.get('result'))
            ev.start = kw.get('start')
            loc = self.ghostlocs[u[0]]
            cur = self.load(loc)
            if len(u) == 2:
                v = z3.simplify(ev.coerce(ev.ev(u[1]), cur.sort()))
            else:
                v = self.fresh(cur.sort(), u[0])
                x = z3.Const(u[1] + '!g', cur.sort().domain())
                env = dict(ev.env)
                env[u[1]] = x
                e = ev.sub(env)
                self.assume(z3.ForAll([x], z3.Select(v, x) == z3.simplify(e.coerce(e.ev(u[2]), cur.sort().range())), patterns=[z3.Select(v, x)]))
            self.note((loc.root, (), 'self'))
            self.store[loc.root] = v

    def run_hints(self, hs, where, names, this, **kw):
        named = {}           # conditions shared by several steps get one name
        for h in hs:
            if not self.w.active(h):
                continue
            ev = self.spec_env(names, this, getattr(self, 'old', None), kw.get('pre'), kw.get('result'))
            ev.start = kw.get('start')
            e = h.expr
            try:
                if isinstance(h, By):
                    self.run_by(h, where, ev, named)
                elif e.startswith('assert '):
                    self.oblige('step', '%s.%s' % (where, h.label), ev.formula(e[7:]))
                else:
                    for g in ev.hint(e):
                        self.assume(g)
            except SpecError as err:
                # A hint naming something this version of the code does not have is
                # simply not available; hints never weaken what must be proved.
                if 'unknown name' in str(err) or 'no result' in str(err) or 'no field' in str(err):
                    continue
                raise

    def run_by(self, h, where, ev, named):
        env = dict(ev.env)
        le = ev.sub(env)
        guards = []
        for v, lo, hi in h.fix:
            c = self.fresh(I, v)
            env[v] = c
            if lo is not None:
                guards.append(le.boolean(le.ev('%s <= %s' % (lo, v))))
            if hi is not None:
                guards.append(le.boolean(le.ev('%s < %s' % (v, hi))))
        cond = None
        if h.when and not any(re.search(r'\b%s\b' % v, h.when) for v, _, _ in h.fix):
            if h.when not in named:
                named[h.when] = self.fresh(z3.BoolSort(), 'when')
                self.assume(named[h.when] == ev.formula(h.when))
            cond = named[h.when]
            guards.append(cond)
        elif h.when:
            guards.append(le.formula(h.when))
        goal = le.formula(h.expr)
        uses = [g for u in h.uses for g in le.hint(u)]
        lab = '%s.%s' % (where, h.label)
        if h.given is not None:
            giv = []
            for i, g in enumerate(h.given):
                f = le.formula(g)
                g2, f2 = self.opened(f)
                self.oblige_with('step', '%s.given%d' % (lab, i), guards + giv + g2, f2)
                giv.append(f)
            self.oblige_with('step', lab, guards + giv + uses, goal, only=True)
        else:
            self.oblige_with('step', lab, guards + uses, goal)
        if h.fix:
            gens = ' '.join('for %s in %s' % (v, 'range(%s, %s)' % (lo, hi) if lo is not None else 'ints') for v, lo, hi in h.fix)
            body = h.expr if not h.when or cond is not None else 'implies(%s, %s)' % (h.when, h.expr)
            tr = ' if trig(%s)' % h.trig if h.trig else ''
            f = ev.formula('all((%s) %s%s)' % (body, gens, tr))
            self.assume(f if cond is None else z3.Implies(cond, f))
        else:
            self.assume(goal if not h.when else z3.Implies(z3.And(*guards), goal))

    def opened(self, f):
        """A universal goal for fresh values, with its trigger terms put on the table."""
        if not (z3.is_quantifier(f) and f.is_forall()):
            return [], f
        vs = [self.fresh(f.var_sort(i), f.var_name(i).split('!')[0]) for i in range(f.num_vars())]
        put = lambda t: z3.substitute_vars(t, *reversed(vs))
        says = [put(f.pattern(i).arg(j)) for i in range(f.num_patterns()) for j in range(f.pattern(i).num_args())]
        return [z3.Function('mention_%s' % t.sort(), t.sort(), z3.BoolSort())(t) for t in says], put(f.body())

    def oblige_with(self, kind, label, extra, goal, only=False):
        if self.suppress or not self.new_territory():
            return
        nm = '%s:%s:%s@%d' % (self.short(self.func.qual), kind, label, self.line)
        key = (nm, tuple(self.dec), len(self.pc), goal.get_id())
        if key not in self.obls and not only and (goal.get_id() in self.pcset or self.known(goal)):
            o = Obligation(nm, kind, self.func.qual, None, None, self.line)
            o.status, o.backend = 'proved', 'z3-simplify'
            self.obls[key] = o
            self.order.append(key)
        if key not in self.obls:
            o = Obligation(nm, kind, self.func.qual, ([] if only else list(self.pc)) + list(extra), goal, self.line, self.c.timeout)
            self.obls[key] = o
            self.order.append(key)

    def apply_shape(self, names, this):
        """shape: pointer path -> (pointer path it aliases, logical offset name)
        or region length expressions."""
        for path, (base, offname) in self.c.shape.items():
            try:
                b = self.spec_env(names, this).ev(base)
            except SpecError:
                if self.c.nullable:
                    continue
                raise
            if isinstance(b, Vec):
                node = parsed(base)
                bl = self.spec_loc(node, names, this)
                b = Ptr(bl, z3.IntVal(0))
            if isinstance(offname, int):
                off = z3.IntVal(offname)
            else:
                off = self.fresh(I, offname)
                self.logic[offname] = off
                names[offname] = off
            loc = self.spec_loc(parsed(path), names, this)
            self.store[loc.root] = self.upd(self.store[loc.root], loc.path, Ptr(b.loc, off))

    def spec_loc(self, node, names, this):
        """lvalue denoted by a spec path expression."""
        if isinstance(node, pyast.Name):
            if node.id == 'this':
                return this
            v = names.get(node.id)
            if isinstance(v, Loc):
                return v
            if this is not None:
                t = self.load(this)
                if isinstance(t, RecV) and node.id in t.f:
                    return this.f(node.id)
            raise SpecError('no location ' + node.id)
        if isinstance(node, pyast.Attribute):
            l = self.spec_loc(node.value, names, this)
            v = self.load(l)
            while isinstance(v, (Ptr, Ref)):
                l = v.loc
                v = self.load(l)
            return l.f(node.attr)
        if isinstance(node, pyast.Call) and node.func.id == 'region':
            v = self.load(self.spec_loc(node.args[0], names, this))
            if isinstance(v, Ref):
                return v.loc
            return v.loc
        if isinstance(node, pyast.Call) and node.func.id == 'data':
            return self.spec_loc(node.args[0], names, this)
        raise SpecError('location expected')

    def mod_locs(self, mods, names, this):
        """[(Loc, part)] for a modifies list.  'x' whole object, 'region(p)' the
        contents of the block p points to, 'data(v)' contents but not length."""
        out = []
        for m in mods:
            node = parsed(m)
            if isinstance(node, pyast.Call) and node.func.id in ('region', 'data'):
                out.append((self.spec_loc(node, names, this), 'data'))
            elif isinstance(node, pyast.Call) and node.func.id == 'pointee':
                v = self.load(self.spec_loc(node.args[0], names, this))
                if v.off is not None:
                    out.append((v.loc, 'data'))
                else:
                    out.append((v.loc, 'self'))
            else:
                l = self.spec_loc(node, names, this)
                v = self.load(l)
                if isinstance(v, Ref):
                    l = v.loc
                out.append((l, 'self'))
        return out

    def exit_normal(self, res):
        c = self.c
        self.exits += 1
        if self.new_territory():
            self.normal_exits += 1
            self.smoke.append(list(self.pc))
        names = self.exit_names(res)
        ev = self.spec_env(names, self.this, self.old, None, self.res_value(res))
        self.line = 0
        if c.throws is not None:
            ev0 = SpecEval(self.lib, names, self.old[0], self.old, None, None, self.this)
            self.oblige('throws', 'must-throw', z3.Not(ev0.formula(c.throws)))
        hn = {k: v for k, v in self.acts[0].names.items() if k}
        hn.update(names)
        self.ghost_update(c.gexit, hn, self.this, result=self.res_value(res))
        self.run_hints(c.exit, 'exit', hn, self.this, result=self.res_value(res))
        for cl in c.ensures:
            if self.w.active(cl):
                ev = self.spec_env(names, self.this, self.old, None, self.res_value(res))
                self.oblige('post', cl.label, ev.formula(cl.expr))
        self.frame_check(names)
        self.leak_check(res)

    def exit_names(self, res):
        """Parameter names denote their entry values for by-value parameters."""
        names = dict(self.names0)
        for n, l in names.items():
            if isinstance(l, Loc) and l.root in self.byval:
                names[n] = self.entry_store[l.root]
        for g, srt in self.c.ghost_out.items():
            if isinstance(srt, tuple):
                names[g] = self.spec_env(names, self.this, self.old, None, self.res_value(res)).ev(srt[1])
            elif g in self.acts[0].names:
                names[g] = self.acts[0].names[g]
        return names

    def res_value(self, res):
        self.lastres = res if isinstance(res, Loc) else None
        if isinstance(res, Loc):
            return self.load(res)
        return res

    def exit_throw(self, t):
        c = self.c
        self.exits += 1
        names = self.exit_names(None)
        ev0 = SpecEval(self.lib, names, self.old[0], self.old, None, None, self.this)
        if c.throws is None and c.may_throw is None:
            if c.nothrow is not None and self.w.prop not in c.nothrow:
                self.assumptions.add('%s returns normally (decided by %s)' % (self.short(c.fn), ' '.join(sorted(c.nothrow))))
                return
            self.oblige('throws', 'unexpected-exception', z3.BoolVal(False))
            return
        cond = c.throws if c.throws is not None else c.may_throw
        self.oblige('throws', 'throws-only-when', ev0.formula(cond))
        if c.throw_unchanged and not self.func.is_ctor:
            self.frame_check(names, on_throw=True)

    def frame_check(self, names, on_throw=False):
        mods = [] if on_throw else self.mod_locs_entry(names)
        for r in sorted(self.entry_roots):
            if r in self.byval:
                continue
            if self.func.is_ctor and self.this is not None and r == self.this.root:
                continue
            old, new = self.entry_store[r], self.store[r]
            if old is new or self.heap.get(r) == 'freed':
                continue
            self.frame_cmp(Loc(r), old, new, mods)

    def mod_locs_entry(self, names):
        save = self.store
        self.store = self.entry_store
        try:
            return self.mod_locs(self.c.modifies, self.names0, self.this)
        finally:
            self.store = save

    def frame_cmp(self, loc, old, new, mods):
        if old is new:
            return
        for ml, part in mods:
            if ml.same(loc) and part == 'self':
                return
        if isinstance(old, RecV) and isinstance(new, RecV):
            for k in old.f:
                self.frame_cmp(loc.f(k), old.f[k], new.f[k], mods)
            return
        lbl = '%s%s' % (self.rname.get(loc.root) or 'obj', ''.join('.' + p[1] for p in loc.path))
        if isinstance(old, Vec) and isinstance(new, Vec):
            if not old.len.eq(new.len):
                self.oblige('frame', lbl + '.size', old.len == new.len)
            for ml, part in mods:
                if ml.same(loc) and part == 'data':
                    return
            ev = self.spec_env({}, None)
            self.oblige('frame', lbl, ev.same(old, new))
            return
        if isinstance(old, (Opaque, Uninit)) or isinstance(new, (Opaque, Uninit)):
            return
        if isinstance(old, Ref):
            return
        ev = self.spec_env({}, None)
        if isinstance(old, Ptr) and isinstance(new, Ptr):
            self.oblige('frame', lbl, ev.same(old, new))
            return
        if isinstance(old, MIt) and isinstance(new, MIt):
            self.oblige('frame', lbl, old.pos == new.pos)
            return
        self.oblige('frame', lbl, ev.same(old, new))

    def leak_check(self, res):
        """Every live heap block must be reachable from parameters, this or result."""
        live = [r for r, s in self.heap.items() if s == 'live']
        if not live:
            return
        seen = set()
        todo = [Loc(r) for r in self.entry_roots if r not in self.heap]
        for a in self.acts:
            for l in a.env.values():
                if isinstance(l, Loc) and (self.rtype.get(l.root) or ('',))[0] == 'uptr':
                    todo.append(l)      # released by its destructor
        if isinstance(res, Loc):
            todo.append(res)

        def visit(v):
            if isinstance(v, Ptr) and not v.null:
                reach(v.loc.root)
            elif isinstance(v, Ref):
                reach(v.loc.root)
            elif isinstance(v, RecV):
                for x in v.f.values():
                    visit(x)

        def reach(r):
            r2 = self.group.get(r, r)
            for q in {r, r2}:
                if q in seen or q not in self.store:
                    continue
                seen.add(q)
                if self.heap.get(q) == 'freed':
                    continue
                visit(self.store[q])
        for l in todo:
            if l.root in self.byval and l.root not in self.heap:
                # by-value parameter objects die at exit; what they pointed to at entry is owned by the caller
                visit(self.entry_store.get(l.root))
                continue
            reach(l.root)
        visit(res)
        for r in live:
            if r not in seen:
                self.oblige('leak', 'block %s' % (self.rname.get(r) or r), z3.BoolVal(False), assume=False)

    # applying a callee contract -------------------------------------------
    def apply_contract(self, c, f, this, args, arglocs):
        """args: list of Loc (one per parameter)."""
        self.called.add(c)
        names = {}
        tp = self.w.tp(f.tu)
        for i, p in enumerate(f.params):
            nm = c.params[i] if i < len(c.params) else p.get('name')
            names[nm] = args[i]
        for n, s in c.logic.items():
            if n in c.inst:
                continue
            if n in c.forall:
                names[n] = z3.Const(n + '?all', SORTS[s])
            elif n in self.logic:
                names[n] = self.logic[n]
            elif isinstance(self.names0.get(n), Loc) and self.names0[n].root in self.store and s == 'int':
                names[n] = as_term(self.load(self.names0[n]))
            else:
                names[n] = self.fresh(SORTS[s], n)
        for g, srt in c.ghost.items():
            if g not in self.ghostlocs:
                self.ghostlocs[g] = self.new_root(self.fresh(SORTS[srt], g), None, g)
            names[g] = self.ghostlocs[g]
        self.bind_shape(c, names, this)
        lab = self.short(c.fn).split('::')[-1]
        ev = self.spec_env(names, this)
        for n, e in c.inst.items():
            names[n] = ev.ev(e)
        later, held = [], []
        for cl in c.requires:
            if self.w.active(cl):
                if any(mentions(cl.expr, n) for n in c.forall):
                    later.append((cl, ev.formula(cl.expr)))
                    continue
                self.oblige('pre', '%s.%s' % (lab, cl.label), ev.formula(cl.expr))
        oldstore = dict(self.store)
        old = (Store(self, oldstore), {})
        cond = c.throws if c.throws is not None else c.may_throw
        if cond is not None:
            fcond = ev.formula(cond)
            if c.throws is not None:
                if self.branch(fcond):
                    raise Thrown('by ' + lab)
            elif c.may_throw is not None:
                if self.branch(fcond):
                    if self.choose(2) == 1:
                        raise Thrown('by ' + lab)
        res = None
        failed_before, self.allocfail = self.allocfail, False      # allocfailed() of the callee: its own allocations
        if c.effect is not None:
            res = c.effect(self, names, this)
        else:
            for loc, part in self.mod_locs(c.modifies, names, this):
                self.havoc_loc(loc, part)
        rt, isref = self.ret_type(f)
        if f.is_ctor or res is not None:
            pass
        elif c.returns is not None:
            res = c.returns(self, names, this)
        elif rt[0] != 'void':
            res = self.fresh_tree(rt, 'r_' + lab)
        names2 = dict(names)
        for n, l in names.items():
            if isinstance(l, Loc):
                qt = None
                for i, p in enumerate(f.params):
                    if (c.params[i] if i < len(c.params) else p.get('name')) == n:
                        qt = p['type'].get('qualType', '')
                if qt is not None and not qt.rstrip().endswith('&'):
                    names2[n] = self.load_from(oldstore, l)
        for g, srt in c.ghost_out.items():
            if isinstance(srt, tuple):      # (sort, expression over the post state)
                names2[g] = SpecEval(self.lib, names2, Store(self, self.store), old, None, self.res_value(res), this).ev(srt[1])
            else:
                names2[g] = self.fresh(SORTS[srt], g)
            self.acts[0].names[g] = names2[g]
        for cl in c.ensures:
            if self.w.active(cl):
                ev = SpecEval(self.lib, names2, Store(self, self.store), old, None, self.res_value(res), this)
                ev.ex = self
                if any(mentions(cl.expr, n) for n in c.forall):
                    held.append((ev.formula(cl.expr), [n for n in c.forall if mentions(cl.expr, n)]))
                    continue
                self.assume(ev.formula(cl.expr))
        for cl, text in c.trust:
            if self.w.active(cl):
                ev = SpecEval(self.lib, names2, Store(self, self.store), old, None, self.res_value(res), this)
                ev.ex = self
                self.assume(ev.formula(cl.expr))
                self.assumptions.add(text)
        for h, vs in held:
            vs = [names[n] for n in c.forall if n in vs or any(mentions(x.expr, n) for x, _ in later)]
            body = z3.Implies(z3.And(*[x for _, x in later]), h) if later else h
            q = body
            for v in reversed(vs):
                q = z3.ForAll([v], q, patterns=[z3.Function('mention_%s' % v.sort(), v.sort(), z3.BoolSort())(v)])
            self.assume(q)
            own = [(names[n], self.logic[n]) for n in c.forall if n in self.logic and any(v.eq(names[n]) for v in vs)]
            if len(own) == len(vs):
                self.assume(z3.substitute(body, *own))
        self.allocfail = self.allocfail or failed_before
        return res

    def bind_shape(self, c, names, this):
        for path, (base, offname) in c.shape.items():
            ev = self.spec_env(names, this)
            p = ev.ev(path)
            b = ev.ev(base)
            if isinstance(b, Vec):
                b = Ptr(self.spec_loc(parsed(base), names, this), z3.IntVal(0))
            ok = isinstance(p, Ptr) and isinstance(b, Ptr) and not p.null and not b.null and p.loc.same(b.loc)
            if isinstance(p, MIt):
                ok = True
            if not ok:
                self.oblige('pre', 'shape:' + path, z3.BoolVal(False))
                raise PathEnd()
            if isinstance(offname, int):
                self.oblige('pre', 'shape:' + path, p.off == offname)
            else:
                names[offname] = p.off

    def havoc_loc(self, loc, part):
        v = self.load(loc)
        if part == 'data' and isinstance(v, Vec):
            nv = self.fresh_tree(('vec', v.ety), 'h')
            self.write_vec(loc, Vec(v.ety, v.len, nv.data), 'data')
            return
        self.note_self(loc)
        self.store[loc.root] = self.upd(self.store[loc.root], loc.path, self.havoc_value(v, self.loc_type(loc)))

    def note_self(self, loc):
        v = self.load(loc)
        fs = tuple(s[1] for s in loc.path if s[0] == 'f')
        if any(s[0] != 'f' for s in loc.path):
            self.record(loc)
            return
        self.note((loc.root, fs, 'self'))

    def loc_type(self, loc):
        ty = self.rtype.get(loc.root)
        for s in loc.path:
            if ty is None:
                return None
            if s[0] == 'f':
                if ty[0] == 'rec':
                    ty = next((t for n, t, r in self.w.fields_of(ty[1]) if n == s[1]), None)
                elif ty[0] == 'pair':
                    ty = ty[1] if s[1] == 'first' else ty[2]
                else:
                    return None
            elif s[0] == 'i':
                ty = ty[1] if ty[0] == 'vec' else None
            elif s[0] == 'k':
                ty = ty[2] if ty[0] == 'map' else None
            else:
                return None
        return ty

    def havoc_value(self, v, ty):
        if z3.is_expr(v):
            x = self.fresh(v.sort(), 'h')
            if ty is not None and ty[0] == 'int':
                lo, hi = int_range(ty)
                self.assume(z3.And(x >= lo, x <= hi))
            return x
        if isinstance(v, Vec):
            return self.fresh_tree(('vec', v.ety), 'h')
        if isinstance(v, MapV):
            return self.fresh_tree(('map', v.kty, v.vty) if v.val is not None else ('set', v.kty, False), 'h')
        if isinstance(v, RecV):
            fs = {}
            sub = {}
            if ty is not None and ty[0] == 'rec':
                sub = {n: t for n, t, r in self.w.fields_of(ty[1])}
            elif ty is not None and ty[0] == 'pair':
                sub = {'first': ty[1], 'second': ty[2]}
            for k, x in v.f.items():
                fs[k] = self.havoc_value(x, sub.get(k))
            return RecV(v.name, fs)
        if isinstance(v, Ptr):
            if v.null or v.off is None:
                return v
            return Ptr(v.loc, self.fresh(I, 'ho'))
        if isinstance(v, MIt):
            x = self.fresh(I, 'hp')
            return MIt(v.loc, x)
        if isinstance(v, (Ref, Opaque, Closure, Uninit)):
            return v
        raise Unsupported('havoc %r' % (v,))

    # ------------------------------------------------------------ loops
    def static_loops(self):
        """Loops of the function in source order, with uncontracted callees
        expanded in place: list of (chain, node id)."""
        out = []
        seen_depth = [0]

        def walk(n, f, chain):
            if not n or 'kind' not in n:
                return
            k = n['kind']
            if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt') and not (k == 'DoStmt' and self.do_once(n)):
                out.append((chain, n['id']))
            if k == 'LambdaExpr':
                return          # expanded where it is called
            for ch in n.get('inner', []):
                walk(ch, f, chain)
            if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
                g = self.callee_static(n, f)
                if g is not None and self.w.used_contract(g) is None and len(chain) < 12 and g.key not in chain:
                    for i in g.inits:
                        walk(i, g, chain + (n['id'], g.key))
                    walk(g.body, g, chain + (n['id'], g.key))
        for i in self.func.inits:
            walk(i, self.func, (self.func.key,))
        walk(self.func.body, self.func, (self.func.key,))
        return out

    def callee_static(self, n, f):
        ch = inner(n)
        if not ch:
            return None
        c = ch[0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            c = inner(c)[0]
        did = None
        if c['kind'] == 'DeclRefExpr':
            did = c.get('referencedDecl', {}).get('id')
        elif c['kind'] == 'MemberExpr':
            did = c.get('referencedMemberDecl')
        if did is None:
            return None
        d = f.tu.funcs.get(did)
        if d is None and f.tu.name != 'tarjan':
            nm = c.get('referencedDecl', {}).get('name')
            return self.prog.by_key(nm) if nm and c['kind'] == 'DeclRefExpr' else None
        g = self.prog.func_def(f.tu, did)
        if g is not None and (g.qual.startswith('Opm') or g.tu.name == 'tarjan'):
            return g
        return None

    def loop_spec(self, key):
        if self.nloops is None:
            self.nloops = self.static_loops()
        if key in self.nloops:
            i = self.nloops.index(key)
            if i < len(self.c.loops):
                return i, self.c.loops[i]
            return i, Loop()
        return None, Loop()

    def loop_names(self, extra):
        names = dict(self.names0)
        for a in self.acts:
            if a is self.acts[-1] or a is self.acts[0]:
                for n, l in a.names.items():
                    if n and (a is self.acts[-1] or n not in names):
                        names[n] = l
        # contract parameter names win for the function's own parameters
        if len(self.acts) == 1:
            for n, l in self.names0.items():
                names.setdefault(n, l)
                if isinstance(l, Loc) and self.acts[0].names.get(n) is not None:
                    pass
        for i, (idx, nv) in enumerate(self.loopstack):
            if idx is not None:
                names['n%d' % idx] = nv
                names['_n'] = nv
        names.update(extra)
        return names

    def exec_loop(self, node, cond, inc, body, do=False, loopvar=None):
        act = self.acts[-1]
        key = (act.chain, node['id'])
        idx, spec = self.loop_spec(key)
        plan = self.plans.setdefault(key, LoopPlan())
        line = node.get('_line', 0)
        if spec.ginit:
            self.ghost_update(spec.ginit, self.loop_names({}), act.this if act.this is not None else self.this)
        entry = dict(self.store)
        pre = Store(self, entry)
        lname = 'loop%s' % (idx if idx is not None else '?')
        this = act.this if act.this is not None else self.this

        def inv_check(kind, nval):
            self.loopstack.append((idx, nval))
            try:
                for cl in spec.inv:
                    if not self.w.active(cl):
                        continue
                    ev = self.spec_env(self.loop_names({}), this, self.old, pre)
                    self.line = line
                    self.oblige(kind, '%s.%s' % (lname, cl.label), ev.formula(cl.expr))
            finally:
                self.loopstack.pop()

        self.run_hints(spec.init, lname + '.init', self.loop_names({}), this, pre=pre)
        inv_check('inv-init', z3.IntVal(0))
        n = self.fresh(I, 'n_' + lname)
        self.assume(n >= 0)
        hv = {}
        hconsts0 = self.ctr
        for m in plan.mods:
            self.havoc_mod(m, plan, n, hv)
        fresh_range = (hconsts0, self.ctr)
        if spec.forget and plan.mods:
            live = set()
            for r, v in self.store.items():
                live |= names_of(v)
            dead = set()
            for r, v in entry.items():
                dead |= names_of(v)
            dead -= live
            self.pc = [f for f in self.pc if not (has_quant(f) and names_of(f) & dead)]
        rec = set()
        self.recs.append(rec)
        self.loopstack.append((idx, n))
        mapsnap = None
        try:
            for cl in spec.inv:
                if self.w.active(cl):
                    ev = self.spec_env(self.loop_names({}), this, self.old, pre)
                    self.assume(ev.formula(cl.expr))
            start = Store(self, dict(self.store))
            for f, text in spec.trust:
                try:
                    self.assume(self.spec_env(self.loop_names({}), this, self.old, pre).formula(f))
                    self.assumptions.add(text)
                except SpecError:
                    pass
            self.run_hints(spec.begin, lname + '.begin', self.loop_names({}), this, pre=pre)
            bound = [None]
            if not do:
                saved = self.condctx
                self.condctx = (plan, n, fresh_range, bound) if plan.bound_ok else None
                try:
                    go = True if cond is None else self.branch(self.truth(cond))
                finally:
                    self.condctx = saved
                if not go:
                    self.ghost_update(spec.gexit, self.loop_names({}), this, pre=pre)
                    self.run_hints(spec.exit, lname + '.exit', self.loop_names({}), this, pre=pre)
                    return
            self.ghost_update(spec.gbegin, self.loop_names({}), this, pre=pre, start=start)
            try:
                if loopvar is not None:
                    self.exec_stmt(loopvar)
                self.exec_stmt(body)
            except ContinueEx:
                pass
            except BreakEx:
                return
            if do:
                if not self.branch(self.truth(cond)):
                    self.ghost_update(spec.gexit, self.loop_names({}), this, pre=pre)
                    self.run_hints(spec.exit, lname + '.exit', self.loop_names({}), this, pre=pre)
                    return
            if inc is not None:
                self.eval(inc)
            self.ghost_update(spec.gend, self.loop_names({}), this, pre=pre, start=start)
            self.run_hints(spec.end, lname + '.end', self.loop_names({}), this, pre=pre, start=start)
            self.check_forms(plan, n, hv, bound)
            self.check_end(spec, lname, line, n, bound, this, pre, start)
        finally:
            self.loopstack.pop()
            self.recs.pop()
            self.finish_rec(plan, rec, entry)
        inv_check('inv-keep', n + 1)
        raise PathEnd()

    def finish_rec(self, plan, rec, entry):
        new = [m for m in rec if m[0] in entry and not any(self.covers(x, m) for x in plan.mods)]
        if new:
            for m in sorted(new, key=str):
                if not any(self.covers(x, m) for x in plan.mods):
                    plan.mods = [x for x in plan.mods if not self.covers(m, x)] + [m]
            raise Restart()

    def covers(self, a, b):
        if a == b:
            return True
        if a[0] == b[0] and a[2] == 'self' and b[1][:len(a[1])] == a[1]:
            return True
        return False

    def havoc_mod(self, m, plan, n, hv):
        root, fs, part = m
        if root not in self.store:
            return
        loc = Loc(root, tuple(('f', x) for x in fs))
        v = self.load(loc)
        ty = self.loc_type(loc)
        if part in ('data',) and isinstance(v, Vec):
            nv = self.fresh_tree(('vec', v.ety), 'h')
            self.raw_set(loc, Vec(v.ety, v.len, nv.data))
            return
        if part in ('data', 'map', 'len'):
            if part == 'len' and isinstance(v, Vec):
                self.raw_set(loc, self.fresh_tree(('vec', v.ety), 'h'))
                return
            self.raw_set(loc, self.havoc_value(v, ty))
            return
        self.raw_set(loc, self.havoc_form(v, ty, m, plan, n, hv, ()))

    def raw_set(self, loc, v):
        for r in self.recs:
            fs = tuple(s[1] for s in loc.path)
            r.add((loc.root, fs, 'self'))
        self.store[loc.root] = self.upd(self.store[loc.root], loc.path, v)

    def havoc_form(self, v, ty, m, plan, n, hv, sub):
        key = (m, sub)
        if isinstance(v, RecV):
            tys = {}
            if ty is not None and ty[0] == 'rec':
                tys = {a: b for a, b, c in self.w.fields_of(ty[1])}
            return RecV(v.name, {k: self.havoc_form(x, tys.get(k), m, plan, n, hv, sub + (k,)) for k, x in v.f.items()})
        if isinstance(v, Vec):
            nv = self.fresh_tree(('vec', v.ety), 'h')
            ln = self.havoc_form(v.len, ('int', 64, False), m, plan, n, hv, sub + ('#len',))
            self.assume(z3.And(ln >= 0, ln <= MAXLEN))
            return Vec(v.ety, ln, nv.data)
        form = plan.form.setdefault(key, '+')
        base = None
        if z3.is_expr(v) and v.sort() == I:
            base = v
        elif isinstance(v, Ptr) and not v.null and v.off is not None:
            base = v.off
        elif isinstance(v, MIt):
            base = v.pos
        if base is None or form == 'free':
            if isinstance(v, Uninit):
                if ty is None:
                    return v
                return self.fresh_tree(ty, 'hu')
            return self.havoc_value(v, ty)
        if form == '=':
            hv[key] = (m, sub, base, form)
            return v
        t = base + n if form == '+' else base - n
        t = z3.simplify(t)
        hv[key] = (m, sub, base, form)
        if z3.is_expr(v):
            return t
        if isinstance(v, Ptr):
            return Ptr(v.loc, t)
        return MIt(v.loc, t)

    def check_forms(self, plan, n, hv, bound):
        for key, (m, sub, base, form) in list(hv.items()):
            root, fs, part = m
            v = self.load(Loc(root, tuple(('f', x) for x in fs)))
            for s in sub:
                v = v.len if s == '#len' else v.f[s]
            cur = v if z3.is_expr(v) else (v.off if isinstance(v, Ptr) else v.pos if isinstance(v, MIt) else None)
            ok = False
            if cur is not None:
                want = {'+': base + (n + 1), '-': base - (n + 1), '=': base}[form]
                ok = self.provable(cur == want)
            if not ok:
                plan.form[key] = {'+': '-', '-': '=', '=': 'free'}[form]
                raise Restart()
        if bound[0] is not None:
            b = bound[0]
            nb = z3.substitute(b, (n, n + 1))
            if not self.provable(nb):
                plan.bound_ok = False
                raise Restart()

    def check_end(self, spec, lname, line, n, bound, this, pre, start):
        """The loop ends: a measure bounded from below decreases with every iteration."""
        self.line = line
        if spec.diverges:
            self.assumptions.add(spec.diverges)
        elif spec.decreases:
            names = self.loop_names({})
            later = {k: n + 1 for k, v in names.items() if z3.is_expr(v) and v.eq(n)}
            now = self.spec_env(self.loop_names(later), this, self.old, pre)
            was = SpecEval(self.lib, names, start, self.old, pre, None, this)
            was.ex = self
            goal = z3.BoolVal(False)
            for e in reversed(spec.decreases):
                a, b = as_term(was.ev(e)), as_term(now.ev(e))
                goal = z3.Or(z3.And(a >= 0, b < a), z3.And(b == a, goal))
            self.oblige('term', lname, goal, assume=False)
        elif bound[0] is not None:
            x, y = bound[0].children()
            m = lambda k: z3.substitute(y - x, (n, k))
            self.oblige('term', lname, z3.And(m(n) >= 0, m(n + 1) < m(n)), assume=False)
        else:
            self.endless.add('%s (line %s)' % (lname, line))

    def try_bound(self, c):
        plan, n, (lo, hi), out = self.condctx
        self.condctx = None
        cand = None
        a = c
        neg = False
        while z3.is_not(a):
            a = a.children()[0]
            neg = not neg
        if z3.is_and(a) or z3.is_or(a):
            return
        if z3.is_app(a) and len(a.children()) == 2 and a.children()[0].sort() == I:
            x, y = a.children()
            k = a.decl().kind()
            le = lambda p, q: p <= q
            if k == z3.Z3_OP_EQ and neg:
                cand = [x <= y, y <= x]
            elif k == z3.Z3_OP_EQ:
                cand = None
            elif k == z3.Z3_OP_LE:
                cand = [y <= x] if neg else [x <= y + 1]
                if neg:     # not x<=y  i.e. y < x
                    cand = [y <= x]
            elif k == z3.Z3_OP_GE:
                cand = [x <= y] if neg else [y <= x + 1]
            elif k == z3.Z3_OP_LT:
                cand = [y <= x + 1] if neg else [x <= y]
            elif k == z3.Z3_OP_GT:
                cand = [x <= y + 1] if neg else [y <= x]
        if not cand:
            return
        bad = set()
        for nm in consts_of(c):
            i = nm.rsplit('!', 1)
            if len(i) == 2 and i[1].isdigit() and lo < int(i[1]) <= hi:
                return
        if n.decl().name() not in consts_of(c):
            return
        for f in cand:
            f0 = z3.substitute(f, (n, z3.IntVal(0)))
            if self.provable(f0):
                out[0] = f
                self.assume(f)
                return

    # ------------------------------------------------------------ statements
    def exec_stmt(self, s):
        if not s or 'kind' not in s:
            return
        k = s['kind']
        self.line = s.get('_line', self.line)
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(s)
        if 'valueCategory' in s or k.endswith('Expr') or k.endswith('Operator'):
            self.eval(s)
            return
        raise Unsupported('statement ' + k)

    def s_CompoundStmt(self, s):
        for c in inner(s):
            self.exec_stmt(c)

    def s_NullStmt(self, s):
        pass

    def s_AttributedStmt(self, s):
        self.exec_stmt(inner(s)[-1])

    def s_LabelStmt(self, s):
        raise Unsupported('label')

    def s_DeclStmt(self, s):
        for d in inner(s):
            self.line = d.get('_line', self.line)
            if d['kind'] == 'VarDecl':
                self.declare(d)
            elif d['kind'] in ('CXXRecordDecl', 'TypeAliasDecl', 'TypedefDecl', 'UsingDecl', 'StaticAssertDecl',
                               'EnumDecl', 'RecordDecl', 'EmptyDecl', 'UsingDirectiveDecl', 'FunctionDecl',
                               'NamespaceAliasDecl'):
                pass
            else:
                raise Unsupported('declaration ' + d['kind'])

    def declare(self, d):
        act = self.acts[-1]
        qt = d['type'].get('qualType', '')
        ty = self.w.tp(act.tu).node(d['type'])
        init = [c for c in inner(d) if 'valueCategory' in c]
        if (d.get('storageClass') == 'static' or d.get('tls')) and not ((qt.startswith('const') or d.get('constexpr')) and all(self.constant(c) for c in init)):
            # set by an earlier call, of whatever object: any value of its type
            if qt.rstrip().endswith('&') or ty[0] == 'ptr':
                raise Unsupported('static local')
            loc = self.new_root(self.fresh_tree(ty, d.get('name', '')), ty, d.get('name', ''))
            act.env[d['id']] = loc
            act.names[d.get('name', '')] = loc
            return
        isref = qt.rstrip().endswith('&')
        if isref:
            r = self.eval(init[0])
            loc = r if isinstance(r, Loc) else self.new_root(r, ty, d.get('name', ''))
        else:
            if init:
                v = self.init_value(init[0], ty)
            else:
                v = self.uninit_value(ty)
            if isinstance(v, RawMem):
                v = self.type_mem(v, ty)
            loc = self.new_root(v, ty, d.get('name', ''))
        act.env[d['id']] = loc
        act.names[d.get('name', '')] = loc

    def constant(self, e):
        """An initialiser that has the same value in every call: literals and operators only."""
        ok = ('IntegerLiteral', 'FloatingLiteral', 'CXXBoolLiteralExpr', 'StringLiteral', 'CharacterLiteral', 'ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr',
              'ParenExpr', 'UnaryOperator', 'BinaryOperator', 'ConstantExpr', 'UnaryExprOrTypeTraitExpr', 'InitListExpr', 'ConditionalOperator', 'CXXNullPtrLiteralExpr', 'ImplicitValueInitExpr', 'CXXScalarValueInitExpr')
        if e.get('kind') == 'DeclRefExpr':
            d = e['referencedDecl']
            if d['kind'] == 'EnumConstantDecl':
                return True
            n = self.acts[-1].tu.by_id.get(d['id'])
            return (n is not None and n['kind'] == 'VarDecl' and d['id'] not in self.acts[-1].env and (n['type'].get('qualType', '').startswith('const') or bool(n.get('constexpr')))
                    and all(self.constant(c) for c in inner(n) if 'valueCategory' in c))
        return e.get('kind') in ok and all(self.constant(c) for c in inner(e) if 'kind' in c)

    def uninit_value(self, ty):
        if ty[0] in ('vec', 'map', 'set', 'str', 'uptr'):
            return self.default_value(ty)
        if ty[0] == 'rec':
            r = self.w.rec(ty[1])
            return RecV(ty[1], {n: self.uninit_value(t) for n, t, isref in self.w.fields_of(ty[1])})
        return UNINIT

    def s_IfStmt(self, s):
        ch = list(s['inner'])
        if s.get('hasInit'):
            self.exec_stmt(ch.pop(0))
        if s.get('hasVar'):
            self.exec_stmt(ch.pop(0))
        ch = [c for c in ch]
        cond, then = ch[0], ch[1]
        els = ch[2] if len(ch) > 2 else None
        if self.branch(self.truth(cond)):
            self.exec_stmt(then)
        elif els:
            self.exec_stmt(els)

    def s_ForStmt(self, s):
        init, cv, cond, inc, body = s['inner']
        if init:
            self.exec_stmt(init)
        self.exec_loop(s, cond or None, inc or None, body)

    def s_WhileStmt(self, s):
        ch = inner(s)
        if s.get('hasVar'):
            raise Unsupported('while with declaration')
        self.exec_loop(s, ch[0], None, ch[1])

    @staticmethod
    def do_once(s):
        c = s['inner'][1]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ConstantExpr'):
            c = inner(c)[0]
        return (c['kind'] == 'IntegerLiteral' and c.get('value') == '0') or \
            (c['kind'] == 'CXXBoolLiteralExpr' and not c.get('value'))

    def s_DoStmt(self, s):
        body, cond = s['inner']
        if self.do_once(s):
            try:
                self.exec_stmt(body)
            except (BreakEx, ContinueEx):
                pass
            return
        self.exec_loop(s, cond, None, body, do=True)

    def s_CXXForRangeStmt(self, s):
        init, rng, beg, end, cond, inc, var, body = s['inner']
        if init:
            self.exec_stmt(init)
        for d in (rng, beg, end):
            self.exec_stmt(d)
        self.exec_loop(s, cond, inc, body, loopvar=var)

    def s_ReturnStmt(self, s):
        ch = inner(s)
        if not ch:
            raise ReturnEx(None)
        act = self.acts[-1]
        rt, isref = self.ret_type(act.func) if act.func is not None else (None, False)
        if isref:
            v = self.eval(ch[0])
        else:
            v = self.init_value(ch[0], rt)
        raise ReturnEx(v)

    def s_BreakStmt(self, s):
        raise BreakEx()

    def s_ContinueStmt(self, s):
        raise ContinueEx()

    def s_SwitchStmt(self, s):
        raise Unsupported('switch')

    def ret_type(self, f):
        if f is None:
            return ('void',), False
        t = f.node.get('type', {}).get('qualType', '')
        if '->' in t:
            r = t.split('->')[-1].strip()
        else:
            # return type: text before the parameter list
            d, i = 0, 0
            for i, ch in enumerate(t):
                if ch == '<':
                    d += 1
                elif ch == '>':
                    d -= 1
                elif ch == '(' and d == 0:
                    break
            r = t[:i].strip()
        if f.is_ctor:
            return ('void',), False
        isref = r.endswith('&')
        ty = self.w.tp(f.tu).parse(r)
        return ty, isref
