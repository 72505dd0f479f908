"""Expression evaluation for the symbolic executor."""
import struct
import z3
from fractions import Fraction
from .frontend import Unsupported, inner
from .values import *
from .types import strip_cv
from .spec import as_term

PASS = {'ExprWithCleanups', 'ParenExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr',
        'CXXRewrittenBinaryOperator', 'FullExpr'}


def strip(e):
    while e['kind'] in PASS or (e['kind'] == 'ImplicitCastExpr' and e.get('castKind') in
                                ('FunctionToPointerDecay', 'NoOp', 'BuiltinFnToFnPtr')):
        e = inner(e)[0]
    return e


def strip_all(e):
    while e['kind'] in PASS or e['kind'] in ('ImplicitCastExpr', 'MaterializeTemporaryExpr', 'CXXFunctionalCastExpr'):
        ch = inner(e)
        if len(ch) != 1:
            break
        e = ch[0]
    return e


def b2i(c):
    return z3.If(c, z3.IntVal(1), z3.IntVal(0))


SIZES = {'real': 8, 'float': 4, 'bool': 1, 'ptr': 8}


class ExprEval:

    # ------------------------------------------------------------ utilities
    def ty(self, e):
        return self.w.tp(self.acts[-1].tu).node(e['type'])

    def eval(self, e):
        k = e['kind']
        if k in PASS:
            return self.eval(inner(e)[0])
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k)
        if '_line' in e and e['_line']:
            self.line = e['_line']
        return m(e)

    def rv(self, e):
        """Value of an expression (loads lvalues)."""
        v = self.eval(e)
        if isinstance(v, Loc):
            return self.read(v)
        return v

    def lv(self, e):
        v = self.eval(e)
        if isinstance(v, Loc):
            return v
        return self.new_root(v, self.ty(e))

    def read(self, loc):
        self.check_live(loc)
        v = self.load(loc)
        if isinstance(v, Ref):
            return self.read(v.loc)
        if isinstance(v, Uninit):
            self.oblige('uninit', 'read-uninitialised', z3.BoolVal(False))
            raise PathEnd_()
        if z3.is_expr(v) and v.sort() == I and not z3.is_int_value(v):
            t = self.loc_type(loc)
            if t is None and loc.path and loc.path[-1][0] == 'i':
                try:
                    pv = self.load(Loc(loc.root, loc.path[:-1]))
                    t = pv.ety
                except Exception:
                    t = None
            if t is not None and t[0] == 'int':
                self.range_fact(v, t)
        return v

    def range_fact(self, v, t):
        key = (v.get_id(), t[1], t[2])
        if key in self.ranged:
            return
        self.ranged.add(key)
        self.keep.append(v)
        bits, signed = t[1], t[2]
        lo, hi = (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1) if signed else (0, 2 ** bits - 1)
        self.assume(z3.And(v >= lo, v <= hi))

    def as_bool(self, v):
        if isinstance(v, Ptr):
            return z3.BoolVal(not v.null)
        v = as_term(v)
        if z3.is_expr(v):
            if v.sort() == B:
                return v
            if v.sort() in (I, R):
                return v != 0
        if isinstance(v, Opaque) and v.what == 'string-literal':
            return z3.BoolVal(True)
        raise Unsupported('condition %r' % (v,))

    def truth(self, e):
        k = e['kind']
        if k in PASS:
            return self.truth(inner(e)[0])
        if k == 'ImplicitCastExpr' and e.get('castKind') in ('IntegralToBoolean', 'NoOp', 'PointerToBoolean'):
            return self.truth(inner(e)[0]) if inner(e)[0].get('valueCategory') == 'prvalue' else self.as_bool(self.rv(inner(e)[0]))
        if k == 'ImplicitCastExpr' and e.get('castKind') == 'IntegralCast' and inner(e)[0]['type']['qualType'] in ('bool', '_Bool'):
            return self.truth(inner(e)[0])
        if k == 'CXXStaticCastExpr' and self.ty(e) == ('bool',):
            return self.truth(inner(e)[0])
        if k == 'UnaryOperator' and e.get('opcode') == '!':
            return z3.Not(self.truth(inner(e)[0]))
        if k == 'BinaryOperator':
            op = e['opcode']
            a, b = inner(e)
            if op == '&&':
                if self.branch(self.truth(a)):
                    return self.truth(b)
                return z3.BoolVal(False)
            if op == '||':
                if self.branch(self.truth(a)):
                    return z3.BoolVal(True)
                return self.truth(b)
            if op in ('==', '!=', '<', '<=', '>', '>='):
                return self.compare(op, self.rv(a), self.rv(b))
        return self.as_bool(self.rv(e))

    # ------------------------------------------------------------ literals
    def e_IntegerLiteral(self, e):
        return z3.IntVal(int(e['value']))

    def e_CharacterLiteral(self, e):
        return z3.IntVal(int(e['value']))

    def e_FloatingLiteral(self, e):
        return z3.RealVal(Fraction(float(e['value'])))

    def e_CXXBoolLiteralExpr(self, e):
        return z3.BoolVal(bool(e['value']))

    def e_StringLiteral(self, e):
        return Opaque('string-literal', e.get('value'))

    def e_CXXNullPtrLiteralExpr(self, e):
        return NULL

    def e_GNUNullExpr(self, e):
        return NULL

    def e_ImplicitValueInitExpr(self, e):
        return self.default_value(self.ty(e))

    def e_CXXScalarValueInitExpr(self, e):
        return self.default_value(self.ty(e))

    def e_CXXThisExpr(self, e):
        for a in reversed(self.acts):
            if a.this is not None:
                return Ptr(a.this)
            break
        raise Unsupported('this')

    def e_UnaryExprOrTypeTraitExpr(self, e):
        if e.get('name') != 'sizeof':
            raise Unsupported(e.get('name', ''))
        if 'argType' in e:
            t = self.w.tp(self.acts[-1].tu).node(e['argType'])
        else:
            t = self.ty(inner(e)[0])
        return z3.IntVal(self.sizeof(t))

    def sizeof(self, t):
        if t[0] == 'int':
            return t[1] // 8
        if t[0] in SIZES:
            return SIZES[t[0]]
        if t[0] == 'rec':
            n, al = 0, 1
            for nm, ft, isref in self.w.fields_of(t[1]):
                s = self.sizeof(ft)
                a = min(s, 8)
                al = max(al, a)
                n = (n + a - 1) // a * a + s
            return (n + al - 1) // al * al
        raise Unsupported('sizeof %r' % (t,))

    # ------------------------------------------------------------ names
    def e_DeclRefExpr(self, e):
        d = e['referencedDecl']
        i, k = d['id'], d['kind']
        act = self.acts[-1]
        if i in act.env:
            v = act.env[i]
            return v
        if k == 'EnumConstantDecl':
            if i in act.tu.enums:
                return z3.IntVal(act.tu.enums[i])
            return z3.Const('const_' + d['name'], I)
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return FuncRef(d['name'], i, act.tu, d.get('type', {}).get('qualType', ''))
        if k == 'VarDecl':
            n = act.tu.by_id.get(i)
            if n is not None:
                init = [c for c in inner(n) if 'valueCategory' in c]
                qt = n['type'].get('qualType', '')
                if init and (qt.startswith('const') or n.get('constexpr')):
                    return self.new_root(self.init_value(init[0], self.w.tp(act.tu).node(n['type'])), None, d['name'])
                ty = self.w.tp(act.tu).node(n['type'])
                if ty[0] == 'ptr' or qt.rstrip().endswith('&'):
                    raise Unsupported('global variable ' + d['name'])
                # a variable outside every object: whatever anyone left there, at each use
                return self.new_root(self.fresh_tree(ty, d['name']), ty, d['name'])
            return self.new_root(z3.Const('const_' + d['name'], I), None, d['name'])
        if k == 'NonTypeTemplateParmDecl':
            raise Unsupported('template parameter')
        raise Unsupported('name %s (%s)' % (d.get('name'), k))

    def e_MemberExpr(self, e):
        b = inner(e)[0]
        name = e.get('name', '')
        if e.get('isArrow'):
            p = self.rv(b)
            loc = self.deref_ptr(p)
        else:
            v = self.eval(b)
            loc = v if isinstance(v, Loc) else self.new_root(v, self.ty(b))
        while True:
            cur = self.load(loc)
            if isinstance(cur, Ref):
                loc = cur.loc
            else:
                break
        l = loc.f(name)
        v = self.load(l)
        if isinstance(v, Ref):
            return v.loc
        if e.get('valueCategory') == 'prvalue':
            return v
        return l

    def deref_ptr(self, p, check=True):
        if isinstance(p, Loc):
            p = self.read(p)
        if isinstance(p, RawMem):
            raise Unsupported('untyped memory access')
        if isinstance(p, MIt):
            return self.deref_mit(p)
        if not isinstance(p, Ptr):
            raise Unsupported('dereference of %r' % (p,))
        if p.null:
            self.oblige('null', 'null-dereference', z3.BoolVal(False))
            raise PathEnd_()
        if p.off is None:
            self.check_live(p.loc)
            return p.loc
        reg = self.load(p.loc)
        self.check_live(p.loc)
        if check:
            self.oblige('bounds', 'deref', z3.And(p.off >= 0, p.off < reg.len))
        return p.loc.i(p.off)

    def deref_mit(self, it):
        m = self.load(it.loc)
        ms, mk, mr = maps_mfun(m.dom.sort())
        self.oblige('bounds', 'iterator', z3.And(it.pos >= 0, it.pos < ms(m.dom)))
        key = it.key if it.key is not None else mk(m.dom, it.pos)
        self.assume(z3.Select(m.dom, key))
        self.assume(mr(m.dom, key) == it.pos)
        if m.kty[0] == 'int' and z3.is_expr(key):
            self.range_fact(key, m.kty)
        return it.loc.step(('kv', key)) if m.val is not None else it.loc.step(('e', key))

    def e_ArraySubscriptExpr(self, e, check=True):
        a, i = inner(e)
        p, k = self.rv(a), self.rv(i)
        if not isinstance(p, Ptr) and isinstance(k, Ptr):
            p, k = k, p
        q = self.ptr_add(p, k)
        return self.deref_ptr(q, check)

    # ------------------------------------------------------------ operators
    def compare(self, op, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('comparison of opaque values')
        if isinstance(a, MIt) and isinstance(b, MIt):
            c = a.pos == b.pos
            if op == '==':
                return c
            if op == '!=':
                return z3.Not(c)
            raise Unsupported('map iterator order')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr):
                a = NULL
            if not isinstance(b, Ptr):
                b = NULL
            if a.null or b.null:
                eq = z3.BoolVal(a.null and b.null)
            elif not a.loc.same(b.loc):
                if a.loc.root == b.loc.root and op in ('==', '!='):
                    raise Unsupported('pointer comparison')
                if op not in ('==', '!='):
                    self.oblige('bounds', 'unrelated-pointer-order', z3.BoolVal(False))
                    raise PathEnd_()
                eq = z3.BoolVal(False)
            else:
                ao = a.off if a.off is not None else z3.IntVal(0)
                bo = b.off if b.off is not None else z3.IntVal(0)
                if op == '==':
                    return ao == bo
                if op == '!=':
                    return z3.Not(ao == bo)
                return {'<': ao < bo, '<=': ao <= bo, '>': ao > bo, '>=': ao >= bo}[op]
            return eq if op == '==' else z3.Not(eq)
        a, b = self.num2(a, b)
        if a.sort() == StrSort:
            eq = a == b
            return {'==': eq, '!=': z3.Not(eq)}[op] if op in ('==', '!=') else \
                {'<': str_lt(a, b), '>': str_lt(b, a), '<=': z3.Not(str_lt(b, a)), '>=': z3.Not(str_lt(a, b))}[op]
        if op == '==':
            return a == b
        if op == '!=':
            return z3.Not(a == b)
        if a.sort() == B:
            a, b = b2i(a), b2i(b)
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]

    def num2(self, a, b):
        a, b = as_term(a), as_term(b)
        if not (z3.is_expr(a) and z3.is_expr(b)):
            raise Unsupported('arithmetic on %r, %r' % (a, b))
        if a.sort() != b.sort():
            if a.sort() == B:
                a = b2i(a)
            if b.sort() == B:
                b = b2i(b)
            if a.sort() == I and b.sort() == R:
                a = z3.ToReal(a)
            if b.sort() == I and a.sort() == R:
                b = z3.ToReal(b)
        return a, b

    def ptr_add(self, p, k, sign=1):
        if isinstance(p, MIt):
            return MIt(p.loc, z3.simplify(p.pos + k if sign > 0 else p.pos - k))
        if not isinstance(p, Ptr) or p.null:
            if isinstance(p, Ptr):
                if z3.is_int_value(k) and k.as_long() == 0:
                    return p
                self.oblige('null', 'null-arithmetic', z3.BoolVal(False))
                raise PathEnd_()
            raise Unsupported('pointer arithmetic on %r' % (p,))
        k = as_term(k)
        # a size_t holding a wrapped negative offset moves the pointer backwards
        if p.off is None:
            k = z3.simplify(k)
            if z3.is_int_value(k) and k.as_long() == 0:
                return p
            raise Unsupported('arithmetic on object pointer')
        return Ptr(p.loc, z3.simplify(p.off + k if sign > 0 else p.off - k))

    def arith(self, op, a, b, t):
        """Arithmetic of C type t on converted operands."""
        if isinstance(a, (Ptr, MIt)) or isinstance(b, (Ptr, MIt)):
            if op == '+':
                return self.ptr_add(a, b) if isinstance(a, (Ptr, MIt)) else self.ptr_add(b, a)
            if op == '-':
                if isinstance(b, Ptr):
                    if a.null or b.null:
                        if a.null and b.null:
                            return z3.IntVal(0)
                        raise Unsupported('null difference')
                    if not a.loc.same(b.loc):
                        self.oblige('bounds', 'unrelated-pointer-difference', z3.BoolVal(False))
                        raise PathEnd_()
                    if a.off is None:
                        return z3.IntVal(0)
                    return z3.simplify(a.off - b.off)
                return self.ptr_add(a, b, -1)
            raise Unsupported('pointer ' + op)
        a, b = self.num2(a, b)
        if t[0] in ('real', 'float'):
            if a.sort() == I:
                a = z3.ToReal(a)
            if b.sort() == I:
                b = z3.ToReal(b)
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if op == '/':
                self.oblige('div0', 'division', b != 0)
                return a / b
            raise Unsupported('float ' + op)
        if a.sort() == B:
            a, b = b2i(a), b2i(b)
        if t[0] == 'bool':
            if op == '&':
                return z3.And(a != 0, b != 0)
            if op == '|':
                return z3.Or(a != 0, b != 0)
        if t[0] != 'int':
            raise Unsupported('arithmetic type %r' % (t,))
        if op in ('<<', '>>', '&', '|', '^', '~'):
            a1, b1 = z3.simplify(a), z3.simplify(b)
            if z3.is_int_value(a1) and z3.is_int_value(b1):
                x, y = a1.as_long(), b1.as_long()
                r = {'<<': lambda: x << y, '>>': lambda: x >> y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y}[op]()
                return self.fit_int(z3.IntVal(r), t)
            if z3.is_int_value(b1) and op == '<<':
                return self.fit_int(a * (1 << b1.as_long()), t)
            if z3.is_int_value(b1) and op == '>>' and self.provable(a >= 0):
                return a / z3.IntVal(1 << b1.as_long())
            if z3.is_int_value(b1) and op == '&' and not t[2] and (b1.as_long() & (b1.as_long() + 1)) == 0:
                return a % z3.IntVal(b1.as_long() + 1)
            if op in ('&', '|', '^'):
                return BITOP[op](a, b)
            raise Unsupported('bit operation')
        if op == '+':
            return self.fit_int(a + b, t)
        if op == '-':
            return self.fit_int(a - b, t)
        if op == '*':
            return self.fit_int(a * b, t)
        if op in ('/', '%'):
            self.oblige('div0', 'division', b != 0)
            if self.provable(z3.And(a >= 0, b > 0)):
                return a / b if op == '/' else a % b
            if t[2]:
                q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
                return q if op == '/' else a - q * b
            return a / b if op == '/' else a % b
        raise Unsupported('operator ' + op)

    def fit_int(self, r, t):
        bits, signed = t[1], t[2]
        r = z3.simplify(r)
        if signed:
            lo, hi = -(2 ** (bits - 1)), 2 ** (bits - 1) - 1
            self.oblige('overflow', 'signed-overflow', z3.And(r >= lo, r <= hi))
            return r
        m = 2 ** bits
        if z3.is_int_value(r):
            return z3.IntVal(r.as_long() % m)
        if self.provable(z3.And(r >= 0, r < m)):
            return r
        return z3.If(z3.And(r >= 0, r < m), r, r % z3.IntVal(m))

    def convert_int(self, v, t):
        """IntegralCast to type t."""
        v = as_term(v)
        if v.sort() == B:
            return b2i(v)
        bits, signed = t[1], t[2]
        lo, hi = (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1) if signed else (0, 2 ** bits - 1)
        m = 2 ** bits
        v1 = z3.simplify(v)
        if z3.is_int_value(v1):
            return z3.IntVal((v1.as_long() - lo) % m + lo)
        if self.provable(z3.And(v >= lo, v <= hi)):
            return v
        return z3.If(z3.And(v >= lo, v <= hi), v, (v - lo) % z3.IntVal(m) + lo)

    def e_BinaryOperator(self, e):
        op = e['opcode']
        a, b = inner(e)
        if op == '=':
            if self.is_c():
                vb = self.rv(b)
                la = self.lv(a)
            else:
                vb = self.rv(b)
                la = self.lv(a)
            self.assign(la, vb, self.ty(a))
            return la if e.get('valueCategory') == 'lvalue' else self.load(la)
        if op == ',':
            self.eval(a)
            return self.eval(b)
        if op in ('&&', '||', '==', '!=', '<', '<=', '>', '>='):
            c = self.truth(e)
            return b2i(c) if self.ty(e)[0] == 'int' else c
        va, vb = self.rv(a), self.rv(b)
        return self.arith(op, va, vb, self.ty(e))

    def is_c(self):
        return self.acts[-1].tu.name == 'tarjan'

    def assign(self, loc, v, t):
        if isinstance(v, RawMem):
            v = self.type_mem(v, t)
        if isinstance(v, Uninit):
            self.oblige('uninit', 'read-uninitialised', z3.BoolVal(False))
            raise PathEnd_()
        self.write(loc, v)

    def e_CompoundAssignOperator(self, e):
        op = e['opcode'][:-1]
        a, b = inner(e)
        vb = self.rv(b)
        la = self.lv(a)
        va = self.read(la)
        ta = self.ty(a)
        if isinstance(va, (Ptr, MIt)):
            r = self.arith(op, va, vb, ta)
        else:
            ct = e.get('computeResultType')
            t = self.w.tp(self.acts[-1].tu).node(ct) if ct else ta
            lt = e.get('computeLHSType')
            t0 = self.w.tp(self.acts[-1].tu).node(lt) if lt else t
            if t0[0] == 'int' and z3.is_expr(va) and va.sort() == I and ta[0] == 'int' and t0 != ta:
                va = self.convert_int(va, t0)
            r = self.arith(op, va, vb, t)
            if ta[0] == 'int' and z3.is_expr(r) and r.sort() == I and t != ta:
                r = self.convert_int(r, ta)
            if ta[0] == 'int' and z3.is_expr(r) and r.sort() == R:
                r = self.real_to_int(r)
        self.write(la, r)
        return la if e.get('valueCategory') == 'lvalue' else r

    def real_to_int(self, v):
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))

    def e_UnaryOperator(self, e):
        op = e['opcode']
        a = inner(e)[0]
        if op == '&':
            s = strip(a)
            if s['kind'] == 'ArraySubscriptExpr':
                loc = self.e_ArraySubscriptExpr(s, check=False)
            elif s['kind'] == 'UnaryOperator' and s.get('opcode') == '*':
                return self.rv(inner(s)[0])
            else:
                loc = self.eval(a)
            if isinstance(loc, FuncRef):
                return loc
            if loc.path and loc.path[-1][0] == 'i':
                return Ptr(Loc(loc.root, loc.path[:-1]), loc.path[-1][1])
            return Ptr(loc)
        if op == '*':
            p = self.rv(a)
            if isinstance(p, FuncRef):
                return p
            return self.deref_ptr(p)
        if op == '!':
            c = z3.Not(self.truth(a))
            return b2i(c) if self.ty(e)[0] == 'int' else c
        if op in ('++', '--'):
            loc = self.lv(a)
            v = self.read(loc)
            t = self.ty(a)
            if isinstance(v, (Ptr, MIt)):
                nv = self.ptr_add(v, z3.IntVal(1), 1 if op == '++' else -1)
            elif t[0] in ('real', 'float'):
                nv = v + 1 if op == '++' else v - 1
            else:
                t1 = t if t[1] >= 32 else ('int', 32, True)
                nv = self.arith('+' if op == '++' else '-', v, z3.IntVal(1), t1)
                if t1 != t:
                    nv = self.convert_int(nv, t)
            self.write(loc, nv)
            if e.get('isPostfix'):
                return v
            return loc if e.get('valueCategory') == 'lvalue' else nv
        v = self.rv(a)
        t = self.ty(e)
        if op == '-':
            if t[0] == 'int':
                return self.fit_int(-as_term(v), t)
            return -v
        if op == '+':
            return v
        if op == '__extension__':
            return v
        if op == '~' and t[0] == 'int':
            return self.fit_int(-as_term(v) - 1, t) if t[2] else (2 ** t[1] - 1) - as_term(v)
        raise Unsupported('unary ' + op)

    def is_assert_fail(self, e):
        e = strip_all(e)
        if e['kind'] == 'CallExpr':
            c = strip_all(inner(e)[0])
            if c['kind'] == 'DeclRefExpr' and c['referencedDecl'].get('name') in ('__assert_fail', '__assert', 'abort'):
                return True
        return False

    def e_ConditionalOperator(self, e):
        c, a, b = inner(e)
        if self.is_assert_fail(b):
            self.oblige('assert', 'assert', self.truth(c))
            return None
        t = self.truth(c)
        if e.get('valueCategory') == 'prvalue' and self.simple(a) and self.simple(b):
            va, vb = self.rv(a), self.rv(b)
            if z3.is_expr(va) and z3.is_expr(vb):
                x, y = self.num2(va, vb)
                return z3.If(t, x, y)
        if self.branch(t):
            return self.eval(a)
        return self.eval(b)

    def simple(self, e):
        e = strip_all(e)
        return e['kind'] in ('IntegerLiteral', 'FloatingLiteral', 'DeclRefExpr', 'CXXBoolLiteralExpr')

    # ------------------------------------------------------------ casts
    def e_ImplicitCastExpr(self, e):
        return self.cast(e)

    e_CStyleCastExpr = e_ImplicitCastExpr
    e_CXXStaticCastExpr = e_ImplicitCastExpr
    e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_ImplicitCastExpr

    def cast(self, e):
        ck = e.get('castKind')
        s = inner(e)[0]
        if ck == 'LValueToRValue':
            v = self.eval(s)
            return self.read(v) if isinstance(v, Loc) else v
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'UncheckedDerivedToBase', 'DerivedToBase'):
            return self.eval(s)
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return self.eval(s)
        if ck == 'ArrayToPointerDecay':
            v = self.eval(s)
            if isinstance(v, Loc):
                x = self.load(v)
                if isinstance(x, Vec):
                    return Ptr(v, z3.IntVal(0))
                return x
            return v
        if ck == 'ToVoid':
            self.eval(s)
            return None
        if ck == 'NullToPointer':
            return NULL
        v = self.rv(s)
        t = self.ty(e)
        if ck == 'IntegralCast':
            return self.convert_int(v, t)
        if ck == 'IntegralToBoolean':
            return self.as_bool(v)
        if ck == 'PointerToBoolean':
            return self.as_bool(v)
        if ck == 'FloatingToBoolean':
            return v != 0
        if ck == 'IntegralToFloating':
            v = as_term(v)
            if v.sort() == B:
                v = b2i(v)
            return z3.ToReal(v) if not z3.is_int_value(z3.simplify(v)) else z3.RealVal(z3.simplify(v).as_long())
        if ck == 'FloatingCast':
            if t[0] == 'float':
                self.assumptions.add('float rounding treated as unknown')
                return self.fresh(R, 'f')
            return v
        if ck == 'FloatingToIntegral':
            r = self.real_to_int(v)
            lo, hi = (-(2 ** (t[1] - 1)), 2 ** (t[1] - 1) - 1) if t[2] else (0, 2 ** t[1] - 1)
            self.oblige('overflow', 'float-to-int', z3.And(r >= lo, r <= hi))
            return r
        if ck == 'BitCast':
            if isinstance(v, RawMem) and t[0] == 'ptr' and t[1][0] != 'void':
                return self.type_mem(v, t)
            return v
        if ck == 'BooleanToSignedIntegral':
            return b2i(v)
        raise Unsupported('cast ' + str(ck))

    def type_mem(self, raw, t):
        """Give a malloc'ed block its element type."""
        if t[0] != 'ptr':
            raise Unsupported('malloc as %r' % (t,))
        et = t[1]
        sz = self.sizeof(et)
        if et[0] == 'rec':
            self.oblige('bounds', 'malloc-size', raw.nbytes >= sz)
            q = et[1]
            loc = self.new_root(RecV(q, {n: UNINIT for n, ft, r in self.w.fields_of(q)}), et, 'malloc ' + q)
            self.heap[loc.root] = 'live'
            return Ptr(loc)
        vt = ('vec', et)
        v = self.fresh_tree(vt, 'mem')
        self.assume(z3.And(v.len * sz <= raw.nbytes, raw.nbytes < (v.len + 1) * sz))
        loc = self.new_root(v, vt, 'malloc %s[]' % (et[0],))
        self.heap[loc.root] = 'live'
        return Ptr(loc, z3.IntVal(0))

    def e_MaterializeTemporaryExpr(self, e):
        v = self.eval(inner(e)[0])
        if isinstance(v, Loc):
            return v
        loc = self.new_root(v, self.ty(e), 'tmp')
        self.temps.add(loc.root)
        return loc

    def e_CXXDefaultArgExpr(self, e):
        raise Unsupported('default argument')

    def e_CXXTemporaryObjectExpr(self, e):
        return self.e_CXXConstructExpr(e)

    def e_CXXStdInitializerListExpr(self, e):
        return self.eval(inner(e)[0])

    def e_StmtExpr(self, e):
        self.exec_stmt(inner(e)[0])
        return None

    # ------------------------------------------------------------ initialisation
    def init_value(self, e, ty):
        """Value for copy/direct initialisation of an object of type ty."""
        v = self.eval(e)
        if isinstance(v, Loc):
            x = self.load(v)
            while isinstance(x, Ref):
                v = x.loc
                x = self.load(v)
            if isinstance(x, Uninit):
                self.oblige('uninit', 'read-uninitialised', z3.BoolVal(False))
                raise PathEnd_()
            return self.value_copy(x)
        if isinstance(v, RawMem) and ty is not None and ty[0] == 'ptr':
            return self.type_mem(v, ty)
        if z3.is_expr(v) and ty is not None and leaf_sort(ty) is not None and v.sort() != leaf_sort(ty):
            return self.fit(v, ty)
        return v

    def value_copy(self, x):
        if isinstance(x, RecV):
            return RecV(x.name, {k: self.value_copy(y) for k, y in x.f.items()})
        return x

    def e_InitListExpr(self, e):
        t = self.ty(e)
        ch = inner(e)
        if e.get('field'):
            raise Unsupported('union init')
        if t[0] == 'rec':
            fs = self.w.fields_of(t[1])
            f = {}
            for i, (nm, ft, isref) in enumerate(fs):
                if i < len(ch):
                    if isref:
                        f[nm] = Ref(self.lv(ch[i]))
                    elif ch[i]['kind'] == 'CXXDefaultInitExpr':
                        f[nm] = self.field_default(t[1], nm, ft)
                    else:
                        f[nm] = self.init_value(ch[i], ft)
                else:
                    f[nm] = self.default_value(ft)
            return RecV(t[1], f)
        if leaf_sort(t) is not None or t[0] in ('ptr', 'iter'):
            return self.init_value(ch[0], t) if ch else self.default_value(t)
        if t[0] == 'arr' or t[0] == 'ilist':
            vals = [self.init_value(c, t[1]) for c in ch]
            v = self.default_value(('vec', t[1]))
            d = v.data
            for i, x in enumerate(vals):
                d = sto(d, z3.IntVal(i), x)
            n = t[2] if t[0] == 'arr' else len(vals)
            return Vec(t[1], z3.IntVal(n), d)
        if len(ch) == 1:
            return self.init_value(ch[0], t)
        if not ch:
            return self.default_value(t)
        raise Unsupported('initializer list for %r' % (t,))

    def field_default(self, q, nm, ft):
        r = self.w.rec(q)
        node = next(x[2] for x in r.fields if x[0] == nm)
        init = [c for c in inner(node) if 'valueCategory' in c]
        if not init:
            return self.default_value(ft)
        act = self.acts[-1]
        tu, act.tu = act.tu, r.tu
        try:
            return self.init_value(init[0], ft)
        finally:
            act.tu = tu

    def e_CXXDefaultInitExpr(self, e):
        raise Unsupported('default member init')

    def find_ctor(self, q, ctype, tu):
        """(Func or None, kind) for a record constructor."""
        best = None
        for t in [tu] + [x for x in self.prog.tus.values() if x is not tu]:
            for f in t.funcs.values():
                if f.is_ctor and f.rec is not None and f.rec.qual == q and \
                        f.node.get('type', {}).get('qualType') == ctype:
                    d = self.prog.func_def(t, f.node['id'])
                    if d is not None and d.body is not None and not self.implicit(d) and not self.implicit(f):
                        return d
                    best = f
        return best

    def implicit(self, f):
        return bool(f.node.get('isImplicit') or f.node.get('explicitlyDefaulted'))

    def e_CXXConstructExpr(self, e):
        t = self.ty(e)
        args = [a for a in inner(e)]
        ctype = e.get('ctorType', {}).get('qualType', '')
        if t[0] == 'rec':
            q = t[1]
            f = self.find_ctor(q, ctype, self.acts[-1].tu)
            if f is not None and f.body is not None and not self.implicit(f):
                return self.run_ctor(f, q, args, e)
            if len(args) == 1:
                v = self.eval(args[0])
                if isinstance(v, Loc):
                    x = self.load(v)
                    if '&&' in ctype:
                        self.moved_from(v)
                    return self.value_copy(x)
                return v
            if not args:
                if e.get('zeroing') or e.get('requiresZeroInitialization'):
                    return self.default_rec(q)
                return self.rec_default_init(q)
            raise Unsupported('constructor of ' + q)
        if t[0] == 'lambda':
            return self.rv(args[0])
        return self.std_construct(t, args, ctype, e)

    def rec_default_init(self, q):
        """Default initialisation: scalars without initialiser stay indeterminate."""
        v = self.default_rec(q)
        r = self.w.rec(q)
        f = dict(v.f)
        for nm, ft, isref in self.w.fields_of(q):
            node = next(x[2] for x in r.fields if x[0] == nm)
            if not [c for c in inner(node) if 'valueCategory' in c] and leaf_sort(ft) is not None and ft[0] != 'str':
                f[nm] = UNINIT
        return RecV(q, f)

    def moved_from(self, loc):
        if loc.root in self.temps:
            return
        v = self.load(loc)

        def mv(x):
            if isinstance(x, (Vec, MapV)):
                return self.havoc_value(x, None)
            if isinstance(x, RecV):
                return RecV(x.name, {k: mv(y) for k, y in x.f.items()})
            if isinstance(x, Ptr) and self.is_uptr(loc):
                return NULL
            return x
        nv = mv(v)
        self.note_self(loc)
        self.store[loc.root] = self.upd(self.store[loc.root], loc.path, nv)

    def is_uptr(self, loc):
        t = self.loc_type(loc)
        return t is not None and t[0] == 'uptr'

    def run_ctor(self, f, q, args, e):
        ty = ('rec', q)
        argl = self.bind_args(f, args)
        c = self.w.by_key.get(f.key)
        if c is not None and not c.inline:
            loc = self.new_root(self.fresh_tree(ty, 'obj'), ty, 'obj')
            self.apply_contract(c, f, loc, argl, None)
            return self.load(loc)
        loc = self.new_root(RecV(q, {n: UNINIT for n, t, r in self.w.fields_of(q)}), ty, 'obj')
        self.inline_call(f, loc, argl, e, ctor=True)
        return self.load(loc)

    def run_ctor_body(self, f, act, this):
        q = f.rec.qual
        done = set()
        for i in f.inits:
            init = inner(i)
            if 'anyInit' in i:
                nm = i['anyInit'].get('name')
                ft, isref = next((t, r) for n, t, r in self.w.fields_of(q) if n == nm)
                if isref:
                    v = Ref(self.lv(init[0]))
                elif init and init[0]['kind'] == 'CXXDefaultInitExpr':
                    v = self.field_default(q, nm, ft)
                elif init:
                    v = self.init_value(init[0], ft)
                else:
                    v = self.default_value(ft)
                self.store[this.root] = self.upd(self.store[this.root], this.f(nm).path, v)
                done.add(nm)
            else:
                # delegating constructor: the initialiser is a construct expression
                v = self.rv(init[0])
                if isinstance(v, RecV):
                    self.store[this.root] = self.upd(self.store[this.root], this.path, v)
                    done |= {n for n, t, r in self.w.fields_of(q)}
                else:
                    raise Unsupported('base initialiser')
        for nm, ft, isref in self.w.fields_of(q):
            if nm not in done:
                r = self.w.rec(q)
                node = next(x[2] for x in r.fields if x[0] == nm)
                if [c for c in inner(node) if 'valueCategory' in c]:
                    v = self.field_default(q, nm, ft)
                else:
                    v = self.uninit_value(ft)
                self.store[this.root] = self.upd(self.store[this.root], this.f(nm).path, v)
        if f.body is not None:
            self.exec_stmt(f.body)

    def e_CXXNewExpr(self, e):
        ch = inner(e)
        t = self.ty(e)[1]
        if e.get('isArray'):
            raise Unsupported('array new')
        if ch:
            v = self.init_value(ch[-1], t)
        else:
            v = self.default_value(t)
        return Ptr(self.new_root(v, t, 'new'))

    def e_CXXThrowExpr(self, e):
        from .core import Thrown
        raise Thrown('exception')

    def e_LambdaExpr(self, e):
        act = self.acts[-1]
        ch = inner(e)
        rec = ch[0]
        op = None
        for c in inner(rec):
            if c.get('name') == 'operator()':
                op = act.tu.funcs.get(c['id'])
        if op is None:
            raise Unsupported('generic lambda')
        env = dict(act.env)
        fields = [c for c in inner(rec) if c['kind'] == 'FieldDecl']
        caps = ch[1:-1]
        for fd, cp in zip(fields, caps):
            if fd['type'].get('qualType', '').rstrip().endswith('&'):
                continue
            s = strip_all(cp)
            if s['kind'] == 'DeclRefExpr' and s['referencedDecl']['id'] in env:
                i = s['referencedDecl']['id']
                env[i] = self.new_root(self.load(env[i]), self.rtype.get(env[i].root), 'capture')
        return Closure(op, env, act.this, act.tu)

    # ------------------------------------------------------------ calls
    def bind_args(self, f, args):
        tp = self.w.tp(f.tu)
        out = []
        if len(args) > len(f.params):
            raise Unsupported('variadic call')
        for i, p in enumerate(f.params):
            qt = p['type'].get('qualType', '')
            ty = tp.node(p['type'])
            if i >= len(args) or args[i]['kind'] == 'CXXDefaultArgExpr':
                init = [c for c in inner(p) if 'valueCategory' in c]
                if not init:
                    # default given on another declaration
                    for fd in f.tu.funcs.values():
                        if fd.key == f.key and len(fd.params) > i:
                            init = [c for c in inner(fd.params[i]) if 'valueCategory' in c]
                            if init:
                                break
                if not init:
                    raise Unsupported('default argument')
                out.append(self.new_root(self.init_value(init[0], ty), ty, p.get('name', '')))
                continue
            a = args[i]
            if qt.rstrip().endswith('&'):
                v = self.eval(a)
                out.append(v if isinstance(v, Loc) else self.new_root(v, ty, p.get('name', '')))
            else:
                out.append(self.new_root(self.init_value(a, ty), ty, p.get('name', '')))
        return out

    def call_func(self, f, this, argl, e):
        c = self.w.by_key.get(f.key)
        if c is not None and not c.inline and not (c is self.c and False):
            return self.apply_contract(c, f, this, argl, None)
        return self.inline_call(f, this, argl, e)

    def inline_call(self, f, this, argl, e, ctor=False, env=None, tu=None):
        from .core import Activation, ReturnEx
        cur = self.acts[-1]
        if len(self.acts) > 24 or sum(1 for a in self.acts if a.func is not None and a.func.key == f.key) > 1:
            raise Unsupported('recursion through ' + f.qual)
        if f.body is None:
            raise Unsupported('no body for ' + f.qual)
        self.inlined.add(f.qual)
        act = Activation(f, dict(env or {}), this, cur.chain + (e['id'], f.key))
        act.tu = tu or f.tu
        for p, l in zip(f.params, argl):
            act.env[p['id']] = l
            act.names[p.get('name', '')] = l
        self.acts.append(act)
        depth = len(self.acts)
        line = self.line
        try:
            if ctor:
                self.run_ctor_body(f, act, this)
                res = None
            else:
                self.exec_stmt(f.body)
                res = None
        except ReturnEx as r:
            res = r.v
        finally:
            del self.acts[depth - 1:]
            self.line = line
        return res

    def user_func(self, did, name):
        """Definition in the repository for a called declaration, or None."""
        tu = self.acts[-1].tu
        f = self.prog.func_def(tu, did)
        if f is not None and f.body is not None:
            return f
        if did not in tu.funcs and tu.name != 'tarjan' and name:
            g = self.prog.by_key(name)
            if g is not None and g.tu.name == 'tarjan':
                return g
        return None

    def e_CallExpr(self, e):
        ch = inner(e)
        c = strip(ch[0])
        args = ch[1:]
        if c['kind'] == 'DeclRefExpr':
            d = c['referencedDecl']
            name = d.get('name')
            if name in ('__assert_fail',):
                self.oblige('assert', 'assert', z3.BoolVal(False))
                raise PathEnd_()
            if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                f = self.user_func(d['id'], name)
                if f is not None:
                    return self.call_func(f, None, self.bind_args(f, args), e)
                return self.std_call(name, args, e, d)
        v = self.rv(ch[0])
        if isinstance(v, Closure):
            return self.call_closure(v, args, e)
        if isinstance(v, FuncRef):
            f = self.user_func(v.decl_id, v.name)
            if f is not None:
                return self.call_func(f, None, self.bind_args(f, args), e)
        raise Unsupported('indirect call')

    def call_closure(self, cl, args, e):
        argl = self.bind_args(cl.func, args)
        return self.inline_call(cl.func, cl.this, argl, e, env=cl.env, tu=cl.tu)

    def e_CXXMemberCallExpr(self, e):
        ch = inner(e)
        m = strip(ch[0])
        if m['kind'] != 'MemberExpr':
            raise Unsupported('member pointer call')
        base = inner(m)[0]
        if m.get('isArrow'):
            p = self.rv(base)
            loc = self.deref_ptr(p)
        else:
            v = self.eval(base)
            if isinstance(v, Loc):
                loc = v
            else:
                loc = self.new_root(v, self.ty(base), 'tmp')
                self.temps.add(loc.root)
        while isinstance(self.load(loc), Ref):
            loc = self.load(loc).loc
        f = self.user_func(m.get('referencedMemberDecl'), None)
        if f is not None:
            if self.implicit(f) and m.get('name') == 'operator=':
                return self.implicit_assign(loc, ch[1])
            return self.call_func(f, loc, self.bind_args(f, ch[1:]), e)
        return self.std_method(m.get('name'), loc, ch[1:], e)

    def implicit_assign(self, loc, arg):
        v = self.eval(arg)
        if isinstance(v, Loc):
            x = self.load(v)
            if arg.get('valueCategory') == 'xvalue':
                self.moved_from(v)
            v = x
        self.write(loc, self.value_copy(v))
        return loc

    def e_CXXOperatorCallExpr(self, e):
        ch = inner(e)
        c = strip(ch[0])
        args = ch[1:]
        d = c.get('referencedDecl', {})
        name = d.get('name', '')
        tu = self.acts[-1].tu
        f = self.user_func(d.get('id'), None)
        if name == 'operator=' and (f is None or self.implicit(f)):
            loc = self.lv_late(args[0], args[1])
            if loc is not None:
                return loc
        if f is not None and not self.implicit(f):
            if f.rec is not None and not f.is_static and d.get('kind') == 'CXXMethodDecl':
                if '(lambda' in f.rec.qual or f.rec.node.get('definitionData', {}).get('isLambda'):
                    cl = self.rv(args[0])
                    return self.call_closure(cl, args[1:], e)
                v = self.eval(args[0])
                loc = v if isinstance(v, Loc) else self.new_root(v, self.ty(args[0]), 'tmp')
                while isinstance(self.load(loc), Ref):
                    loc = self.load(loc).loc
                return self.call_func(f, loc, self.bind_args(f, args[1:]), e)
            return self.call_func(f, None, self.bind_args(f, args), e)
        if name == 'operator()':
            v = self.rv(args[0])
            if isinstance(v, Closure):
                return self.call_closure(v, args[1:], e)
        return self.std_operator(name, args, e)

    def lv_late(self, a, b):
        """Class assignment a = b for std and implicitly assigned types."""
        v = self.eval(b)
        loc = self.eval(a)
        if not isinstance(loc, Loc):
            loc = self.new_root(loc, self.ty(a))
        while isinstance(self.load(loc), Ref):
            loc = self.load(loc).loc
        if isinstance(v, Loc):
            if v.same(loc):
                return loc
            x = self.load(v)
            if b.get('valueCategory') == 'xvalue':
                self.moved_from(v)
            v = x
        if isinstance(v, Vec):
            self.write_vec(loc, v, 'self')
        else:
            self.write(loc, self.value_copy(v))
        return loc


def PathEnd_():
    from .core import PathEnd
    return PathEnd()


from .maps import mfun as maps_mfun
BITOP = {o: z3.Function('bit_' + n, I, I, I) for o, n in (('&', 'and'), ('|', 'or'), ('^', 'xor'))}
