"""Specification language: Python expression syntax over the symbolic state.

Spec functions are uninterpreted symbols with one level of unfolding
(definition axiom triggered on the symbol, recursive occurrences renamed to an
un-unfolded twin), so recursive definitions never make the solver loop."""
import ast
import z3
from fractions import Fraction
from .values import *
from .frontend import Unsupported


class SpecError(Exception):
    pass


SORTS = {
    'int': I, 'real': R, 'bool': B, 'str': StrSort,
    'iarr': z3.ArraySort(I, I), 'rarr': z3.ArraySort(I, R), 'barr': z3.ArraySort(I, B),
    'sbarr': z3.ArraySort(StrSort, B),
    'siarr': z3.ArraySort(StrSort, z3.ArraySort(I, B)),
    'srarr': z3.ArraySort(StrSort, z3.ArraySort(I, R)),
    'iiarr': z3.ArraySort(I, z3.ArraySort(I, I)),
    'irarr': z3.ArraySort(I, z3.ArraySort(I, R)),
    'ibarr': z3.ArraySort(I, z3.ArraySort(I, B)),
    'isarr': z3.ArraySort(I, StrSort),
}


def parse(s):
    try:
        return ast.parse(s.strip().replace('\n', ' '), mode='eval').body
    except SyntaxError as e:
        raise SpecError('syntax error in spec %r: %s' % (s, e))


_parse_cache = {}


def parsed(s):
    if s not in _parse_cache:
        _parse_cache[s] = parse(s)
    return _parse_cache[s]


class SpecFn:
    def __init__(self, name, params, ret, body=None, axioms=(), comp=None):
        self.name, self.params, self.ret, self.body = name, params, ret, body
        self.comp = comp          # (variable, expr): the array that maps every variable to expr
        sorts = [SORTS[t] for _, t in params] + [SORTS[ret]]
        self.f = z3.Function(name, *sorts)
        self.fz = z3.Function(name + '_z', *sorts) if body and name + '(' in body else None
        self.extra = list(axioms)
        self._ax = None

    def axioms(self, lib):
        if self._ax is not None:
            return self._ax
        self._ax = []
        if self.body is None and not self.extra and not self.comp:
            return self._ax
        vs = [z3.Const('%s!%s' % (self.name, n), SORTS[t]) for n, t in self.params]
        ev = SpecEval(lib, dict(zip([n for n, _ in self.params], vs)))
        app = self.f(*vs)
        if self.body is not None:
            ev.renames = {self.name: self.fz} if self.fz is not None else {}
            b = ev.ev(self.body)
            b = ev.coerce(b, SORTS[self.ret])
            self._ax.append(z3.ForAll(vs, app == b, patterns=[app]) if vs else app == b)
            if self.fz is not None:
                self._ax.append(z3.ForAll(vs, app == self.fz(*vs), patterns=[app]))
        if self.comp:
            y = z3.Const('%s!%s' % (self.name, self.comp[0]), SORTS[self.ret].domain())
            ev = SpecEval(lib, dict(zip([n for n, _ in self.params] + [self.comp[0]], vs + [y])))
            at = z3.Select(app, y)
            self._ax.append(z3.ForAll(vs + [y], at == ev.coerce(ev.ev(self.comp[1]), SORTS[self.ret].range()), patterns=[at]))
        for a in self.extra:
            ev = SpecEval(lib, {})
            self._ax.append(ev.boolean(ev.ev(a)))
        return self._ax


class Lemma:
    """forall params: requires => ensures.  Proved on every run; `induct` names
    an int parameter to do induction on (base: value <= `base` (default 0))."""

    def __init__(self, name, params, requires, ensures, induct=None, hyps=(), uses=(), base='0',
                 trigger=None, props=None, timeout=None, reveal=None, bycases=None, generalize=None):
        self.name, self.params = name, params
        self.requires = [requires] if isinstance(requires, str) else list(requires)
        self.ensures = [ensures] if isinstance(ensures, str) else list(ensures)
        self.induct, self.uses, self.base = induct, uses, base
        self.hyps = hyps
        self.trigger = trigger
        self.timeout = timeout

    def instance(self, lib, args):
        lib.used_lemmas.add(self.name)
        if len(args) != len(self.params):
            raise SpecError('lemma %s: %d args expected' % (self.name, len(self.params)))
        ev0 = SpecEval(lib, {})
        env = {n: ev0.coerce(a, SORTS[t]) for (n, t), a in zip(self.params, args)}
        ev = SpecEval(lib, env)
        ev.qp = self.name + '.'
        req = [ev.boolean(ev.ev(r)) for r in self.requires]
        ens = [ev.boolean(ev.ev(e)) for e in self.ensures]
        return z3.Implies(z3.And(*req), z3.And(*ens)) if req else z3.And(*ens)

    def quantified(self, lib):
        vs = [z3.Const('%s?%s' % (self.name, n), SORTS[t]) for n, t in self.params]
        body = self.instance(lib, vs)
        ev = SpecEval(lib, dict(zip([n for n, _ in self.params], vs)))
        pats = []
        for tr in self.trigger:
            ts = [ev.ev(t) for t in (tr if isinstance(tr, (list, tuple)) else [tr])]
            pats.append(z3.MultiPattern(*ts))
        return z3.ForAll(vs, body, patterns=pats)

    def obligations(self, lib):
        """[(name, hyps, goal)]"""
        vs = {n: z3.Const('%s$%s' % (self.name, n), SORTS[t]) for n, t in self.params}
        ev = SpecEval(lib, dict(vs))
        req = [ev.boolean(ev.ev(r)) for r in self.requires]
        ens = [ev.boolean(ev.ev(e)) for e in self.ensures]
        hyps = list(req)
        if self.induct:
            args = [vs[n] if n != self.induct else vs[n] - 1 for n, _ in self.params]
            b = ev.ev(self.base)
            hyps.append(z3.Implies(vs[self.induct] > b, self.instance(lib, args)))
        for u in self.hyps:      # further instances of this lemma at a smaller induction value
            node = parsed(u)
            args = [ev.ev_ast(a) for a in node.args]
            m = [a for (n, _), a in zip(self.params, args) if n == self.induct][0]
            hyps.append(z3.Implies(z3.And(m < vs[self.induct], m >= ev.ev(self.base)), self.instance(lib, args)))
        for u in self.uses:
            hyps += ev.hint(u)
        out = []
        for i, e in enumerate(ens):
            out.append(('lemma:%s:%d' % (self.name, i), list(hyps), e))
            hyps.append(e)
        return out


class Library:
    def __init__(self):
        self.fns, self.lemmas, self.macros, self.consts = {}, {}, {}, {}
        self.by_decl = {}
        self.used_lemmas = set()

    def fn(self, name, params, ret, body=None, axioms=(), comp=None):
        f = SpecFn(name, params, ret, body, axioms, comp)
        self.fns[name] = f
        self.by_decl[f.f.name()] = f
        if f.fz is not None:
            self.by_decl[f.fz.name()] = f
        return f

    def lemma(self, name, params, requires, ensures, **kw):
        l = Lemma(name, params, requires, ensures, **kw)
        if name in self.lemmas:
            raise SpecError('duplicate lemma ' + name)
        # a lemma may rest only on lemmas declared before it: no circular arguments
        for u in l.uses:
            n = parsed(u)
            if isinstance(n, ast.Call) and n.func.id == 'all':
                n = n.args[0].elt
            if isinstance(n, ast.Call) and n.func.id not in self.lemmas:
                raise SpecError('lemma %s rests on %s, which is not declared before it' % (name, n.func.id))
        self.lemmas[name] = l
        return l

    def macro(self, name, params, body):
        self.macros[name] = (params, body)

    def used_axioms(self, exprs):
        """Definition axioms for all spec functions occurring in exprs."""
        seen, todo, ax, done = set(), list(exprs), [], set()
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                todo.append(e.body())
                continue
            if z3.is_app(e):
                nm = e.decl().name()
                f = self.by_decl.get(nm)
                if f is not None and f.name not in done:
                    done.add(f.name)
                    a = f.axioms(self)
                    ax += a
                    todo += a
                todo += e.children()
        return ax


_fresh = [0]


def as_term(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    return v


class SpecEval:
    """Evaluates spec expressions.  `state` gives access to the program state
    (None for pure specs)."""

    def __init__(self, lib, env, state=None, old=None, pre=None, result=None, this=None):
        self.lib, self.env, self.state = lib, env, state
        self.old, self.pre, self.result, self.this = old, pre, result, this
        self.renames = {}
        self.ex = None
        self.qd, self.qp, self.start = 0, '', None

    def sub(self, env=None, state=None):
        e = SpecEval(self.lib, self.env if env is None else env,
                     self.state if state is None else state, self.old, self.pre, self.result, self.this)
        e.renames = self.renames
        e.ex = self.ex
        e.qd, e.qp, e.start = self.qd, self.qp, self.start
        return e

    # ---- helpers
    def boolean(self, v):
        v = as_term(v)
        if z3.is_expr(v) and v.sort() == B:
            return v
        if z3.is_expr(v) and v.sort() == I:
            return v != 0
        raise SpecError('boolean expected, got %r' % (v,))

    def coerce(self, v, sort):
        v = as_term(v)
        if isinstance(v, Vec):
            v = v.data
        if isinstance(v, RecV) and len(v.f) == 1:
            v = next(iter(v.f.values()))
        if isinstance(v, Ptr):
            if v.null or v.off is None:
                raise SpecError('array expected')
            o = z3.simplify(v.off)
            if not (z3.is_int_value(o) and o.as_long() == 0):
                raise SpecError('pointer with offset used as array')
            v = self.st(v).load(v.loc).data
        if not z3.is_expr(v):
            raise SpecError('term expected, got %r' % (v,))
        if v.sort() == sort:
            return v
        if v.sort() == I and sort == R:
            return z3.ToReal(v)
        if v.sort() == B and sort == I:
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if v.sort() == I and sort == B:
            return v != 0
        raise SpecError('sort mismatch: %s vs %s' % (v.sort(), sort))

    def num2(self, a, b):
        a, b = as_term(a), as_term(b)
        if isinstance(a, RecV) and len(a.f) == 1:
            a = next(iter(a.f.values()))
        if isinstance(b, RecV) and len(b.f) == 1:
            b = next(iter(b.f.values()))
        if z3.is_expr(a) and z3.is_expr(b):
            if a.sort() == I and b.sort() == R:
                a = z3.ToReal(a)
            elif a.sort() == R and b.sort() == I:
                b = z3.ToReal(b)
            elif a.sort() == B and b.sort() == I:
                a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
            elif a.sort() == I and b.sort() == B:
                b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        return a, b

    def deref(self, v):
        """Follow record pointers / references."""
        while True:
            if isinstance(v, Ptr) and not v.null and v.off is None:
                v = self.st(v).load(v.loc)
            elif isinstance(v, Ref):
                v = self.state.load(v.loc)
            elif isinstance(v, Loc):
                v = self.state.load(v)
            else:
                return v

    def same(self, a, b):
        a, b = self.deref(a), self.deref(b)
        if isinstance(a, Vec) and isinstance(b, Vec):
            if a is b:
                return z3.BoolVal(True)
            conj = [a.len == b.len]
            la, lb = leaves(a.data), leaves(b.data)
            if all(x.eq(y) for x, y in zip(la, lb)):
                return conj[0]
            k = z3.Const('k!same', I)
            conj.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < a.len),
                        z3.And(*[z3.Select(x, k) == z3.Select(y, k) for x, y in zip(la, lb)])),
                        patterns=[z3.Select(x, k) for x in la[:1]] + [z3.Select(y, k) for y in lb[:1] if z3.is_const(y)]))
            return z3.And(*conj)
        if isinstance(a, RecV):
            return z3.And(*[self.same(a.f[k], b.f[k]) for k in a.f])
        if isinstance(a, MapV):
            if a.val is None:
                return a.dom == b.dom
            k = z3.Const('k!same', a.dom.sort().domain())
            la, lb = leaves(a.val), leaves(b.val)
            return z3.And(a.dom == b.dom,
                          z3.ForAll([k], z3.Implies(z3.Select(a.dom, k),
                                    z3.And(*[z3.Select(x, k) == z3.Select(y, k) for x, y in zip(la, lb)]))))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.null or b.null:
                return z3.BoolVal(a.null and b.null)
            if not a.loc.same(b.loc):
                return z3.BoolVal(False)
            return z3.BoolVal(True) if a.off is None else a.off == b.off
        a, b = self.num2(a, b)
        if z3.is_expr(a) and z3.is_expr(b):
            return a == b
        raise SpecError('same(%r,%r)' % (a, b))

    # ---- evaluation
    def ev(self, s):
        return self.ev_ast(parsed(s)) if isinstance(s, str) else self.ev_ast(s)

    def formula(self, s):
        return self.boolean(self.ev(s))

    def hint(self, s):
        """A hint is a lemma call (possibly under a quantifier `all(lemma(..) for ..)`)."""
        node = parsed(s) if isinstance(s, str) else s
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in self.lib.lemmas:
            args = [self.snap(self.ev_ast(a)) for a in node.args]
            return [self.lib.lemmas[node.func.id].instance(self.lib, args)]
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and isinstance(node.ops[0], ast.Eq) and ast.dump(node.left) == ast.dump(node.comparators[0]):
            # `t == t`: only brings the term t to the solver's attention
            t = as_term(self.ev_ast(node.left))
            return [z3.Function('mention_%s' % t.sort(), t.sort(), z3.BoolSort())(t)]
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'all' and isinstance(node.args[0], ast.GeneratorExp):
            b = node.args[0].elt
            if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id in self.lib.lemmas:
                return [self.boolean(self.ev_ast(node))]
        raise SpecError('a hint must be a lemma call: %s' % (s if isinstance(s, str) else ast.dump(s)))

    def name(self, n):
        if n in self.env:
            v = self.env[n]
            if isinstance(v, Loc):
                return self.state.load(v)
            return v
        if n == 'result':
            if self.result is None:
                raise SpecError('no result here')
            return self.result
        if n == 'this':
            return Ptr(self.this)
        if n in self.lib.consts:
            return self.lib.consts[n]
        if self.this is not None and self.state is not None:
            t = self.state.load(self.this)
            if isinstance(t, RecV) and n in t.f:
                return t.f[n]
        if n == 'True':
            return True
        raise SpecError('unknown name ' + n)

    def ev_ast(self, n):
        m = getattr(self, 'n_' + type(n).__name__, None)
        if m is None:
            raise SpecError('spec syntax: ' + type(n).__name__)
        return m(n)

    def n_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, float):
            return z3.RealVal(Fraction(v))
        raise SpecError('constant')

    def n_Name(self, n):
        return self.name(n.id)

    def n_Attribute(self, n):
        v = self.ev_ast(n.value)
        v = self.deref(v)
        if isinstance(v, RecV):
            if n.attr in v.f:
                return v.f[n.attr]
            raise SpecError('no field ' + n.attr)
        if isinstance(v, MIt):
            raise SpecError('iterator attr')
        raise SpecError('attribute %s of %r' % (n.attr, v))

    def n_Subscript(self, n):
        v = self.ev_ast(n.value)
        k = as_term(self.ev_ast(n.slice))
        return self.index(v, k)

    def index(self, v, k):
        if isinstance(v, (Ref, Loc)):
            v = self.deref(v)
        if isinstance(v, Vec):
            return sel(v.data, k)
        if isinstance(v, Ptr):
            if v.null or v.off is None:
                raise SpecError('index of non-array pointer')
            reg = self.st(v).load(v.loc)
            o = z3.simplify(v.off)
            idx = k if z3.is_int_value(o) and o.as_long() == 0 else v.off + k
            return sel(reg.data, idx)
        if isinstance(v, MapV):
            if isinstance(k, RecV):
                k = next(iter(k.f.values()))
            return sel(v.val, k)
        if isinstance(k, RecV):
            k = next(iter(k.f.values()))
        if z3.is_expr(v) and z3.is_array(v):
            return z3.Select(v, k)
        raise SpecError('index of %r' % (v,))

    def n_UnaryOp(self, n):
        v = self.ev_ast(n.operand)
        if isinstance(n.op, ast.Not):
            if isinstance(v, bool):
                return not v
            return z3.Not(self.boolean(v))
        if isinstance(n.op, ast.USub):
            return -as_term(v)
        raise SpecError('unary')

    def n_BoolOp(self, n):
        vs = []
        for x in n.values:
            v = self.ev_ast(x)
            if isinstance(v, bool):     # structural facts are decided here, the rest is not looked at
                if v != isinstance(n.op, ast.And):
                    return v
                continue
            vs.append(self.boolean(v))
        if not vs:
            return isinstance(n.op, ast.And)
        if len(vs) == 1:
            return vs[0]
        return z3.And(*vs) if isinstance(n.op, ast.And) else z3.Or(*vs)

    def n_IfExp(self, n):
        c = self.ev_ast(n.test)
        if isinstance(c, bool):
            return self.ev_ast(n.body if c else n.orelse)
        c = self.boolean(c)
        a, b = self.num2(self.ev_ast(n.body), self.ev_ast(n.orelse))
        if z3.is_expr(a):
            return z3.If(c, a, b)
        return ite_tree(c, a, b)

    def n_BinOp(self, n):
        a, b = self.num2(self.ev_ast(n.left), self.ev_ast(n.right))
        o = n.op
        if isinstance(a, Ptr):
            raise SpecError('pointer arithmetic in spec')
        if isinstance(o, ast.Add):
            return a + b
        if isinstance(o, ast.Sub):
            return a - b
        if isinstance(o, ast.Mult):
            return a * b
        if isinstance(o, ast.Div):
            if a.sort() == I:
                a = z3.ToReal(a)
            if b.sort() == I:
                b = z3.ToReal(b)
            return a / b
        if isinstance(o, ast.FloorDiv):
            return a / b
        if isinstance(o, ast.Mod):
            return a % b
        raise SpecError('binop')

    def n_Compare(self, n):
        res = []
        left = self.ev_ast(n.left)
        for op, rn in zip(n.ops, n.comparators):
            if isinstance(op, (ast.In, ast.NotIn)):
                m = self.deref(self.ev_ast(rn))
                k = as_term(left)
                if isinstance(k, RecV):
                    k = next(iter(k.f.values()))
                if isinstance(m, MapV):
                    f = z3.Select(m.dom, k)
                elif z3.is_expr(m) and z3.is_array(m):
                    f = z3.Select(m, k)
                else:
                    raise SpecError('in')
                res.append(f if isinstance(op, ast.In) else z3.Not(f))
                continue
            right = self.ev_ast(rn)
            a, b = self.num2(left, right)
            if isinstance(op, ast.Eq):
                res.append(self.same(a, b))
            elif isinstance(op, ast.NotEq):
                res.append(z3.Not(self.same(a, b)))
            else:
                if a.sort() == StrSort:
                    if not isinstance(op, ast.Lt):
                        raise SpecError('string comparison')
                    res.append(str_lt(a, b))
                elif isinstance(op, ast.Lt):
                    res.append(a < b)
                elif isinstance(op, ast.LtE):
                    res.append(a <= b)
                elif isinstance(op, ast.Gt):
                    res.append(a > b)
                elif isinstance(op, ast.GtE):
                    res.append(a >= b)
            left = right
        return res[0] if len(res) == 1 else z3.And(*res)

    # ---- quantifiers
    def quant(self, gen, is_all):
        env = dict(self.env)
        ev = self.sub(env)
        vs, guards, pats = [], [], []
        # deterministic names, distinct from those of enclosing quantifiers, so that
        # equal formulas are the same term
        nq = [self.qd]

        def bound(tgt, srt):
            nq[0] += 1
            ev.qd = nq[0]
            return z3.Const('%s!q%s%d' % (tgt, self.qp, nq[0]), srt)
        for c in gen.generators:
            tgt = c.target.id
            it = c.iter
            if isinstance(it, ast.Call) and it.func.id == 'range':
                v = bound(tgt, I)
                b = [as_term(ev.ev_ast(a)) for a in it.args]
                if len(b) == 1:
                    b = [z3.IntVal(0)] + b
                env[tgt] = v
                guards += [b[0] <= v, v < b[1]]
            elif isinstance(it, ast.Name):
                srt = {'ints': I, 'reals': R, 'strs': StrSort, 'bools': B,
                       'iarrs': SORTS['iarr'], 'rarrs': SORTS['rarr'], 'barrs': SORTS['barr']}[it.id]
                v = bound(tgt, srt)
                env[tgt] = v
            else:
                raise SpecError('quantifier range')
            vs.append(v)
            for cond in c.ifs:
                if isinstance(cond, ast.Call) and isinstance(cond.func, ast.Name) and cond.func.id == 'trig':
                    ts = [ev.ev_ast(a) for a in cond.args]
                    if all(good_pattern(t) for t in ts):
                        pats.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
                else:
                    guards.append(ev.boolean(ev.ev_ast(cond)))
        elt = gen.elt
        if isinstance(elt, ast.Call) and isinstance(elt.func, ast.Name) and elt.func.id in self.lib.lemmas:
            args = [ev.snap(ev.ev_ast(a)) for a in elt.args]
            body = self.lib.lemmas[elt.func.id].instance(self.lib, args)
        else:
            body = ev.boolean(ev.ev_ast(elt))
        if is_all:
            f = z3.Implies(z3.And(*guards), body) if guards else body
            return z3.ForAll(vs, f, patterns=pats) if pats else z3.ForAll(vs, f)
        f = z3.And(*(guards + [body]))
        return z3.Exists(vs, f, patterns=pats) if pats else z3.Exists(vs, f)

    def n_Call(self, n):
        if isinstance(n.func, ast.Attribute):
            raise SpecError('method call in spec')
        fn = n.func.id
        if fn in ('all', 'any'):
            return self.quant(n.args[0], fn == 'all')
        if fn == 'old':
            if self.old is None:
                raise SpecError('no old state')
            e = self.sub(state=self.old[0])
            env = dict(self.env)
            env.update(self.old[1])
            e.env = env
            return e.snap(e.ev_ast(n.args[0]))
        if fn == 'pre':
            if self.pre is None:
                raise SpecError('no loop-entry state')
            e = self.sub(state=self.pre)
            return e.snap(e.ev_ast(n.args[0]))
        if fn == 'start':
            if self.start is None:
                raise SpecError('no iteration-start state')
            e = self.sub(state=self.start)
            return e.snap(e.ev_ast(n.args[0]))
        if fn == 'let':
            # let(x, value, body)
            v = self.ev_ast(n.args[1])
            env = dict(self.env)
            env[n.args[0].id] = v
            return self.sub(env).ev_ast(n.args[2])
        if fn in self.lib.macros and fn not in self.env:
            ps, body = self.lib.macros[fn]
            vals = [self.ev_ast(a) for a in n.args]
            env = dict(self.env)
            env.update(zip(ps, vals))
            if len(ps) != len(vals):
                raise SpecError('macro %s: %d args expected' % (fn, len(ps)))
            return self.sub(env).ev(body)
        if fn == 'refidx':
            l = getattr(self.ex, 'lastres', None)
            if l is not None and len(l.path) >= 1 and l.path[-1][0] == 'i':
                base = Loc(l.root, l.path[:-1])
                try:
                    want = self.ex.spec_loc(n.args[0], self.env, self.this)
                except SpecError:
                    want = None
                if want is not None and want.same(base):
                    return l.path[-1][1]
            return z3.IntVal(-1)
        if fn == 'into':
            # into(p, v): p points into the elements of v
            p = self.ev_ast(n.args[0])
            try:
                want = self.ex.spec_loc(n.args[1], self.env, self.this)
            except SpecError:
                return False
            return bool(isinstance(p, Ptr) and not p.null and p.off is not None and p.loc.same(want))
        args = [self.ev_ast(a) for a in n.args]
        if fn in self.renames:
            f = self.lib.fns[fn]
            return self.renames[fn](*[self.coerce(a, SORTS[t]) for a, (_, t) in zip(args, f.params)])
        if fn in self.lib.fns:
            f = self.lib.fns[fn]
            if len(args) != len(f.params):
                raise SpecError('%s: %d args expected' % (fn, len(f.params)))
            return f.f(*[self.coerce(a, SORTS[t]) for a, (_, t) in zip(args, f.params)])
        if fn == 'implies':
            return z3.Implies(self.boolean(args[0]), self.boolean(args[1]))
        if fn == 'iff':
            return self.boolean(args[0]) == self.boolean(args[1])
        if fn == 'len':
            v = args[0]
            if isinstance(v, Ptr) and not v.null and v.off is not None:
                return self.st(v).load(v.loc).len
            v = self.deref(v)
            if isinstance(v, Vec):
                return v.len
            if isinstance(v, MapV):
                from .maps import mfun
                return mfun(v.dom.sort())[0](v.dom)
            raise SpecError('len')
        if fn == 'off':
            v = args[0]
            if isinstance(v, MIt):
                return v.pos
            if isinstance(v, Ptr) and v.off is not None:
                return v.off
            raise SpecError('off')
        if fn == 'allocfailed':
            return bool(self.ex.allocfail)
        if fn == 'freed':
            return bool(self.ex.heap.get(args[0].loc.root) == 'freed')
        if fn == 'isnull':
            return bool(isinstance(args[0], Ptr) and args[0].null)
        if fn == 'sameregion':
            a, b = args
            return bool(not a.null and not b.null and a.loc.same(b.loc))
        if fn == 'deref':
            v = args[0]
            if isinstance(v, Ptr) and v.off is not None:
                return sel(self.st(v).load(v.loc).data, v.off)
            return self.deref(v)
        if fn == 'dom':
            v = self.deref(args[0])
            return v.dom
        if fn == 'val':
            v = self.deref(args[0])
            return v.val
        if fn == 'arr':
            v = args[0]
            if isinstance(v, Ptr) and v.off is not None:
                return self.st(v).load(v.loc).data
            return self.deref(v).data if isinstance(self.deref(v), Vec) else v
        if fn == 'same':
            return self.same(args[0], args[1])
        if fn == 'mkey':
            from .maps import mfun
            v = self.deref(args[0])
            d = v.dom if isinstance(v, MapV) else v
            return mfun(d.sort())[1](d, as_term(args[1]))
        if fn == 'mrank':
            from .maps import mfun
            v = self.deref(args[0])
            d = v.dom if isinstance(v, MapV) else v
            k = args[1]
            if isinstance(k, RecV):
                k = next(iter(k.f.values()))
            return mfun(d.sort())[2](d, as_term(k))
        if fn == 'msize':
            from .maps import mfun
            v = self.deref(args[0])
            d = v.dom if isinstance(v, MapV) else v
            return mfun(d.sort())[0](d)
        if fn in ('min', 'max'):
            a, b = self.num2(args[0], args[1])
            return z3.If(a <= b, a, b) if fn == 'min' else z3.If(a >= b, a, b)
        if fn == 'abs':
            a = as_term(args[0])
            return z3.If(a >= 0, a, -a)
        if fn == 'real':
            return self.coerce(args[0], R)
        if fn == 'store':
            k = as_term(args[1])
            if isinstance(k, RecV):
                k = next(iter(k.f.values()))
            return z3.Store(self.coerce_arr(args[0]), k, as_term(args[2]))
        if fn == 'unchanged':
            raise SpecError('use same(x, old(x))')
        raise SpecError('unknown function ' + fn)

    def coerce_arr(self, v):
        if isinstance(v, Vec):
            return v.data
        return v

    def snap(self, v):
        if isinstance(v, Ptr) and not v.null and v.state is None:
            return Ptr(v.loc, v.off, self.state)
        return v

    def st(self, v):
        return v.state if v.state is not None else self.state

    def n_Tuple(self, n):
        return tuple(self.ev_ast(x) for x in n.elts)


_BADPAT = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES,
           z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT}


def good_pattern(t):
    if not z3.is_expr(t) or z3.is_var(t):
        return False
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return False
        if z3.is_app(x) and x.decl().kind() in _BADPAT:
            return False
        todo += x.children()
    return z3.is_app(t) and t.num_args() > 0


def leaves(v, out=None):
    if out is None:
        out = []
    tmap(lambda x: (out.append(x), x)[1], v)
    return out


def nxt():
    _fresh[0] += 1
    return _fresh[0]
