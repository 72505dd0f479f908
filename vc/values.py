"""Symbolic values: trees with z3 terms at the leaves."""
import z3
from .frontend import Unsupported

StrSort = z3.DeclareSort('Str')
str_lt = z3.Function('str_lt', StrSort, StrSort, z3.BoolSort())
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Uninit:
    def __repr__(self):
        return 'UNINIT'


UNINIT = Uninit()


class Loc:
    """An lvalue: a root object and a path into it."""
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def f(self, name):
        return Loc(self.root, self.path + (('f', name),))

    def i(self, idx):
        return Loc(self.root, self.path + (('i', idx),))

    def k(self, key):
        return Loc(self.root, self.path + (('k', key),))

    def step(self, s):
        return Loc(self.root, self.path + (s,))

    def same(self, o):
        if self.root != o.root or len(self.path) != len(o.path):
            return False
        for a, b in zip(self.path, o.path):
            if a[0] != b[0]:
                return False
            if a[0] == 'f':
                if a[1] != b[1]:
                    return False
            elif not (a[1] is b[1] or (z3.is_expr(a[1]) and z3.is_expr(b[1]) and a[1].eq(b[1]))):
                return False
        return True

    def __repr__(self):
        return 'L%s%s' % (self.root, ''.join('.%s' % (p[1],) if p[0] == 'f' else '[%s]' % (p[1],) for p in self.path))


class RecV:
    __slots__ = ('name', 'f')

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return '%s%r' % (self.name, self.f)


class Vec:
    __slots__ = ('ety', 'len', 'data')

    def __init__(self, ety, ln, data):
        self.ety, self.len, self.data = ety, ln, data

    def __repr__(self):
        return 'Vec(%s)' % (self.len,)


class MapV:
    """std::map / std::set / std::unordered_set; val is None for sets."""
    __slots__ = ('kty', 'vty', 'dom', 'val')

    def __init__(self, kty, vty, dom, val):
        self.kty, self.vty, self.dom, self.val = kty, vty, dom, val


class Ptr:
    """Pointer or vector iterator.  loc None: null.  off None: pointer to the
    object at loc itself; otherwise element `off` of the Vec at loc."""
    __slots__ = ('loc', 'off', 'state')

    def __init__(self, loc, off=None, state=None):
        self.loc, self.off, self.state = loc, off, state     # state: the snapshot old(p) etc. refers to

    @property
    def null(self):
        return self.loc is None

    def __repr__(self):
        return 'NULL' if self.loc is None else 'Ptr(%r,%s)' % (self.loc, self.off)


NULL = Ptr(None)


class Ref:
    """A reference-typed member."""
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class MIt:
    """Map/set iterator; pos counts the elements before it."""
    __slots__ = ('loc', 'pos', 'key')

    def __init__(self, loc, pos, key=None):
        self.loc, self.pos, self.key = loc, pos, key


class Closure:
    def __init__(self, func, env, this, tu):
        self.func, self.env, self.this, self.tu = func, env, this, tu


class FuncRef:
    def __init__(self, name, decl_id, tu, ty=''):
        self.name, self.decl_id, self.tu, self.ty = name, decl_id, tu, ty


class Opaque:
    def __init__(self, what, data=None):
        self.what, self.data = what, data

    def __repr__(self):
        return 'Opaque(%s)' % self.what


class RawMem:
    """Result of malloc before its element type is known."""

    def __init__(self, nbytes):
        self.nbytes = nbytes


def is_leaf(v):
    return z3.is_expr(v)


def tmap(fn, v, *vs):
    """Apply fn at the leaves of parallel trees."""
    if z3.is_expr(v):
        return fn(v, *vs)
    if isinstance(v, RecV):
        return RecV(v.name, {k: tmap(fn, x, *[w.f[k] for w in vs]) for k, x in v.f.items()})
    if isinstance(v, Vec):
        return Vec(v.ety, tmap(fn, v.len, *[w.len for w in vs]), tmap(fn, v.data, *[w.data for w in vs]))
    if isinstance(v, MapV):
        return MapV(v.kty, v.vty, tmap(fn, v.dom, *[w.dom for w in vs]),
                    None if v.val is None else tmap(fn, v.val, *[w.val for w in vs]))
    raise Unsupported('container of %r' % (v,))


def sel(tree, k):
    return tmap(lambda a: z3.Select(a, k), tree)


def sto(tree, k, v):
    return tmap(lambda a, x: z3.Store(a, k, x), tree, v)


def const_lift(v, ks):
    return tmap(lambda x: z3.K(ks, x), v)


def ite_tree(c, a, b):
    return tmap(lambda x, y: x if x.eq(y) else z3.If(c, x, y), a, b)


def leaf_sort(ty):
    k = ty[0]
    if k == 'int':
        return I
    if k == 'real':
        return R
    if k == 'float':
        return R
    if k == 'bool':
        return B
    if k == 'str':
        return StrSort
    return None


def lift_sort(s, wraps):
    for w in reversed(wraps):
        s = z3.ArraySort(w, s)
    return s


class TypeInfo:
    """Builds value trees from types; knows record fields."""

    def __init__(self, fields_of):
        self.fields_of = fields_of          # rec qual -> [(name, ty, isref)]

    def key_sort(self, ty):
        s = leaf_sort(ty)
        if s is not None:
            return s
        if ty[0] == 'rec':
            fs = self.fields_of(ty[1])
            if len(fs) == 1:
                return self.key_sort(fs[0][1])
        raise Unsupported('map key type %r' % (ty,))

    def key_leaf(self, ty, v):
        if z3.is_expr(v):
            return v
        if isinstance(v, RecV) and len(v.f) == 1:
            return self.key_leaf(None, next(iter(v.f.values())))
        raise Unsupported('map key %r' % (v,))

    def key_value(self, ty, leaf):
        if leaf_sort(ty) is not None:
            return leaf
        fs = self.fields_of(ty[1])
        return RecV(ty[1], {fs[0][0]: self.key_value(fs[0][1], leaf)})

    def mk(self, ty, leaf, wraps=(), path=''):
        """leaf(ty, wraps, path) makes a leaf; wraps are the enclosing key sorts."""
        k = ty[0]
        if leaf_sort(ty) is not None:
            return leaf(ty, wraps, path)
        if k == 'vec':
            return Vec(ty[1], leaf(('int', 64, False, 'len'), wraps, path + '.len'),
                       self.mk(ty[1], leaf, tuple(wraps) + (I,), path + '.d'))
        if k in ('map', 'set'):
            ks = self.key_sort(ty[1])
            w = tuple(wraps) + (ks,)
            return MapV(ty[1], ty[2] if k == 'map' else None,
                        leaf(('bool',), w, path + '.dom'),
                        self.mk(ty[2], leaf, w, path + '.val') if k == 'map' else None)
        if k == 'pair':
            return RecV('pair', {'first': self.mk(ty[1], leaf, wraps, path + '.first'),
                                 'second': self.mk(ty[2], leaf, wraps, path + '.second')})
        if k == 'rec':
            return RecV(ty[1], {n: self.mk(t, leaf, wraps, path + '.' + n)
                                for n, t, isref in self.fields_of(ty[1])})
        if k in ('ptr', 'uptr', 'iter', 'opaque', 'void', 'lambda', 'ostream', 'arr'):
            return leaf(ty, wraps, path)
        raise Unsupported('value of type %r' % (ty,))
