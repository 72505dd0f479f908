"""Model of the standard-library facilities the repository uses (assumed
contracts of std::vector, std::map, std::set, std::unique_ptr, std::pair,
std::string, the algorithms, malloc/free/memcpy and ostream)."""
import z3
from .frontend import Unsupported, inner
from .values import *
from .spec import as_term, nxt
from .maps import mfun, facts
from .expr import PathEnd_, b2i, BITOP

MAXLEN = 2 ** 60


class StdModel:

    # ------------------------------------------------------------ helpers
    def write_vec(self, loc, v, part='self'):
        self.check_live(loc)
        if any(s[0] != 'f' for s in loc.path):
            self.record(loc)
        else:
            self.note((loc.root, tuple(s[1] for s in loc.path), part))
        self.store[loc.root] = self.upd(self.store[loc.root], loc.path, v)

    def map_facts(self, m, ordered=True):
        key = m.dom.get_id()
        if key in self.mapfacts:
            return
        self.mapfacts.add(key)
        self.keep.append(m.dom)
        for f in facts(m.dom, ordered):
            self.assume(f)
        if m.kty is not None and m.kty[0] == 'int':
            k = z3.Const('k!r', I)
            lo, hi = (-(2 ** (m.kty[1] - 1)), 2 ** (m.kty[1] - 1) - 1) if m.kty[2] else (0, 2 ** m.kty[1] - 1)
            self.assume(z3.ForAll([k], z3.Implies(z3.Select(m.dom, k), z3.And(lo <= k, k <= hi)),
                                  patterns=[z3.Select(m.dom, k)]))

    def map_size(self, m):
        n = mfun(m.dom.sort())[0](m.dom)
        self.assume(z3.And(n >= 0, n <= MAXLEN))
        return n

    def is_ordered(self, loc):
        t = self.loc_type(loc)
        return not (t is not None and t[0] == 'set' and not t[2])

    def fillv(self, ety, n, x):
        return Vec(ety, n, const_lift(x, I))

    def key(self, m, v):
        if isinstance(v, Loc):
            v = self.read(v)
        k = self.ti.key_leaf(m.kty, v)
        return k

    def elem(self, loc, idx, label='index'):
        v = self.load(loc)
        self.check_live(loc)
        self.oblige('bounds', label, z3.And(idx >= 0, idx < v.len))
        return loc.i(idx)

    def arg_locval(self, a):
        v = self.eval(a)
        return self.read(v) if isinstance(v, Loc) else v

    def arg_obj(self, a, ty=None):
        """Value of an argument without uninit checks on aggregates."""
        v = self.eval(a)
        if isinstance(v, Loc):
            x = self.load(v)
            while isinstance(x, Ref):
                x = self.load(x.loc)
            if a.get('valueCategory') == 'xvalue' and isinstance(x, (Vec, MapV)):
                self.moved_from(v)
            return x
        return v

    def range_vec(self, b, e):
        """(Vec, lo, hi) of an iterator range."""
        if not (isinstance(b, Ptr) and isinstance(e, Ptr)):
            raise Unsupported('iterator range')
        if b.null and e.null:
            return None, z3.IntVal(0), z3.IntVal(0)
        if b.null or e.null or not b.loc.same(e.loc) or b.off is None or e.off is None:
            self.oblige('bounds', 'mismatched-iterators', z3.BoolVal(False))
            raise PathEnd_()
        v = self.load(b.loc)
        self.oblige('bounds', 'iterator-range', z3.And(b.off >= 0, b.off <= e.off, e.off <= v.len))
        return v, b.off, e.off

    def shifted(self, v, lo):
        """Data of v shifted so that index 0 is element lo."""
        lo = z3.simplify(lo)
        if z3.is_int_value(lo) and lo.as_long() == 0:
            return v.data
        d = self.fresh_tree(('vec', v.ety), 'sh').data
        k = z3.Const('k!%d' % nxt(), I)
        from .spec import leaves
        for x, y in zip(leaves(d), leaves(v.data)):
            self.assume(z3.ForAll([k], z3.Select(x, k) == z3.Select(y, k + lo), patterns=[z3.Select(x, k)]))
        return d

    # ------------------------------------------------------------ constructors
    def std_construct(self, t, args, ctype, e):
        k = t[0]
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if k == 'vec':
            if not args:
                return self.default_value(t)
            if len(args) == 1:
                ta = self.ty(args[0])
                if ta[0] == 'vec':
                    return self.arg_obj(args[0])
                if ta[0] == 'int':
                    n = self.arg_locval(args[0])
                    return self.fillv(t[1], n, self.default_value(t[1]))
                if ta[0] in ('ilist', 'arr'):
                    return self.arg_obj(args[0])
            if len(args) == 2:
                ta = self.ty(args[0])
                if ta[0] == 'int':
                    n = self.arg_locval(args[0])
                    x = self.fit(self.arg_locval(args[1]), t[1])
                    return self.fillv(t[1], n, x)
                b, en = self.arg_locval(args[0]), self.arg_locval(args[1])
                v, lo, hi = self.range_vec(b, en)
                if v is None:
                    return self.default_value(t)
                return Vec(t[1], z3.simplify(hi - lo), self.shifted(v, lo))
        if k in ('map', 'set'):
            if not args:
                return self.default_value(t)
            if len(args) == 1 and self.ty(args[0])[0] in ('map', 'set'):
                return self.arg_obj(args[0])
            if len(args) == 2 and k == 'set':
                b, en = self.arg_locval(args[0]), self.arg_locval(args[1])
                v, lo, hi = self.range_vec(b, en)
                m = self.default_value(t)
                if v is None:
                    return m
                return self.set_of_range(m, v, lo, hi, t)
        if k == 'str':
            if not args:
                return self.default_value(t)
            v = self.arg_locval(args[0])
            if isinstance(v, Opaque):
                return z3.Const('str_%s' % v.data, StrSort)
            return v
        if k == 'pair':
            if not args:
                return self.default_value(t)
            if len(args) == 1:
                return self.value_copy(self.arg_obj(args[0]))
            a, b = self.arg_obj(args[0]), self.arg_obj(args[1])
            return RecV('pair', {'first': self.fit1(a, t[1]), 'second': self.fit1(b, t[2])})
        if k == 'uptr':
            if not args:
                return NULL
            v = self.eval(args[0])
            if isinstance(v, Loc):
                x = self.read(v)
                self.null_uptr(v)
                return x
            return v
        if k in ('iter', 'ptr'):
            if not args:
                return UNINIT
            return self.arg_locval(args[0])
        if k == 'opaque':
            if len(args) == 1:
                v = self.eval(args[0])
                return self.load(v) if isinstance(v, Loc) else v
            if not args:
                return Opaque(str(t))
        if leaf_sort(t) is not None and len(args) == 1:
            return self.arg_locval(args[0])
        raise Unsupported('construction of %r from %d arguments' % (t, len(args)))

    def fit1(self, v, t):
        if z3.is_expr(v):
            return self.fit(v, t)
        return v

    def null_uptr(self, loc):
        t = self.loc_type(loc)
        if t is not None and t[0] == 'uptr':
            self.write(loc, NULL)

    def set_of_range(self, m, v, lo, hi, t):
        d = self.fresh(m.dom.sort(), 'setdom')
        k = z3.Const('k!%d' % nxt(), I)
        w = z3.Function('wit!%d' % nxt(), I, I)
        self.assume(z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), z3.Select(d, z3.Select(v.data, k))),
                              patterns=[z3.Select(v.data, k)]))
        self.assume(z3.ForAll([k], z3.Implies(z3.Select(d, k),
                              z3.And(lo <= w(k), w(k) < hi, z3.Select(v.data, w(k)) == k)),
                              patterns=[z3.Select(d, k)]))
        return MapV(m.kty, m.vty, d, m.val)

    # ------------------------------------------------------------ methods
    def std_method(self, name, loc, args, e):
        v = self.load(loc)
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if isinstance(v, Vec):
            return self.vec_method(name, loc, v, args, e)
        if isinstance(v, MapV):
            return self.map_method(name, loc, v, args, e)
        if isinstance(v, (Ptr,)) or isinstance(v, RawMem):
            return self.ptr_method(name, loc, v, args, e)
        if isinstance(v, RecV) and v.name == 'ostream':
            return self.os_method(name, loc, v, args, e)
        if isinstance(v, RecV) and v.name == 'pair' and name == 'swap':
            o = self.eval(args[0])
            a, b = self.load(loc), self.load(o)
            self.write(loc, b)
            self.write(o, a)
            return None
        if z3.is_expr(v) and v.sort() == StrSort:
            if name == 'empty':
                return v == z3.Const('str_empty', StrSort)
            if name == 'compare':
                o = self.arg_locval(args[0])
                return z3.If(v == o, 0, z3.If(str_lt(v, o), -1, 1))
        raise Unsupported('method %s on %r' % (name, v))

    def vec_method(self, name, loc, v, args, e):
        if name == 'size':
            return v.len
        if name == 'empty':
            return v.len == 0
        if name == 'capacity':
            c = self.fresh(I, 'cap')
            self.assume(z3.And(c >= v.len, c <= MAXLEN))
            return c
        if name in ('begin', 'cbegin'):
            return Ptr(loc, z3.IntVal(0))
        if name in ('end', 'cend'):
            return Ptr(loc, v.len)
        if name == 'data':
            return Ptr(loc, z3.IntVal(0))
        if name == 'at':
            i = self.arg_locval(args[0])
            from .core import Thrown
            if not self.branch(z3.And(i >= 0, i < v.len)):
                raise Thrown('out_of_range')
            return loc.i(i)
        if name == 'operator[]':
            return self.elem(loc, self.arg_locval(args[0]))
        if name == 'front':
            return self.elem(loc, z3.IntVal(0), 'front')
        if name == 'back':
            return self.elem(loc, z3.simplify(v.len - 1), 'back')
        if name in ('push_back', 'emplace_back'):
            if name == 'emplace_back' and len(args) == 0:
                x = self.default_value(v.ety)
            elif name == 'emplace_back' and len(args) > 1:
                if v.ety[0] == 'pair' and len(args) == 2:
                    a, b = self.arg_obj(args[0]), self.arg_obj(args[1])
                    x = RecV('pair', {'first': self.fit1(a, v.ety[1]), 'second': self.fit1(b, v.ety[2])})
                else:
                    raise Unsupported('emplace_back')
            else:
                x = self.arg_obj(args[0])
                v = self.load(loc)
                if z3.is_expr(x):
                    x = self.to_ety(x, v.ety)
            self.assume(v.len < MAXLEN)
            self.write_vec(loc, Vec(v.ety, z3.simplify(v.len + 1), sto(v.data, v.len, x)), 'self')
            if name == 'emplace_back':
                return loc.i(v.len)
            return None
        if name == 'pop_back':
            self.oblige('bounds', 'pop_back', v.len > 0)
            self.write_vec(loc, Vec(v.ety, z3.simplify(v.len - 1), v.data), 'self')
            return None
        if name == 'clear':
            self.write_vec(loc, Vec(v.ety, z3.IntVal(0), v.data), 'self')
            return None
        if name in ('reserve', 'shrink_to_fit'):
            for a in args:
                self.arg_locval(a)
            return None
        if name == 'resize':
            n = self.arg_locval(args[0])
            x = self.to_ety(self.arg_locval(args[1]), v.ety) if len(args) > 1 else self.default_value(v.ety)
            z = z3.simplify(v.len)
            if z3.is_int_value(z) and z.as_long() == 0:
                self.write_vec(loc, self.fillv(v.ety, n, x), 'self')
                return None
            nv = self.fresh_tree(('vec', v.ety), 'rs')
            from .spec import leaves
            k = z3.Const('k!%d' % nxt(), I)
            for a, b, c in zip(leaves(nv.data), leaves(v.data), leaves(x)):
                self.assume(z3.ForAll([k], z3.Select(a, k) == z3.If(k < v.len, z3.Select(b, k), c),
                                      patterns=[z3.Select(a, k)]))
            self.write_vec(loc, Vec(v.ety, n, nv.data), 'self')
            return None
        if name == 'assign':
            if len(args) == 2 and self.ty(args[0])[0] == 'int':
                n = self.arg_locval(args[0])
                x = self.to_ety(self.arg_locval(args[1]), v.ety)
                self.write_vec(loc, self.fillv(v.ety, n, x), 'self')
                return None
            if len(args) == 2:
                s, lo, hi = self.range_vec(self.arg_locval(args[0]), self.arg_locval(args[1]))
                nv = self.default_value(('vec', v.ety)) if s is None else Vec(v.ety, z3.simplify(hi - lo), self.shifted(s, lo))
                self.write_vec(loc, nv, 'self')
                return None
        if name == 'swap':
            o = self.eval(args[0])
            ov = self.load(o)
            self.write_vec(o, v, 'self')
            self.write_vec(loc, ov, 'self')
            return None
        if name == 'insert':
            p = self.arg_locval(args[0])
            at_end = self.provable(p.off == v.len)
            if not at_end:
                raise Unsupported('insert not at end')
            if len(args) == 2:
                x = self.to_ety(self.arg_obj(args[1]), v.ety)
                self.write_vec(loc, Vec(v.ety, z3.simplify(v.len + 1), sto(v.data, v.len, x)), 'self')
                return Ptr(loc, v.len)
            if len(args) == 3 and self.ty(args[1])[0] == 'int':
                n = self.arg_locval(args[1])
                x = self.to_ety(self.arg_locval(args[2]), v.ety)
                return self.append_fn(loc, v, n, lambda leafs, k: leafs, x)
            if len(args) == 3:
                s, lo, hi = self.range_vec(self.arg_locval(args[1]), self.arg_locval(args[2]))
                if s is None:
                    return p
                nv = self.fresh_tree(('vec', v.ety), 'ap')
                from .spec import leaves
                k = z3.Const('k!%d' % nxt(), I)
                for a, b, c in zip(leaves(nv.data), leaves(v.data), leaves(s.data)):
                    self.assume(z3.ForAll([k], z3.Select(a, k) == z3.If(k < v.len, z3.Select(b, k), z3.Select(c, k - v.len + lo)),
                                          patterns=[z3.Select(a, k)]))
                self.write_vec(loc, Vec(v.ety, z3.simplify(v.len + hi - lo), nv.data), 'self')
                return p
        raise Unsupported('vector method ' + name)

    def append_fn(self, loc, v, n, fn, x):
        from .spec import leaves
        nv = self.fresh_tree(('vec', v.ety), 'ap')
        k = z3.Const('k!%d' % nxt(), I)
        for a, b, c in zip(leaves(nv.data), leaves(v.data), leaves(x)):
            self.assume(z3.ForAll([k], z3.Select(a, k) == z3.If(k < v.len, z3.Select(b, k), c),
                                  patterns=[z3.Select(a, k)]))
        self.oblige('bounds', 'insert-count', z3.And(n >= 0, n <= MAXLEN))
        self.write_vec(loc, Vec(v.ety, z3.simplify(v.len + n), nv.data), 'self')
        return Ptr(loc, v.len)

    def to_ety(self, x, ety):
        if z3.is_expr(x):
            return self.fit(x, ety)
        return x

    def map_method(self, name, loc, m, args, e):
        ks = m.dom.sort().domain()
        if name == 'size':
            return self.map_size(m)
        if name == 'empty':
            k = z3.Const('k!%d' % nxt(), ks)
            self.map_facts(m, self.is_ordered(loc))
            return self.map_size(m) == 0
        if name in ('begin', 'cbegin'):
            self.map_facts(m, self.is_ordered(loc))
            return MIt(loc, z3.IntVal(0))
        if name in ('end', 'cend'):
            self.map_facts(m, self.is_ordered(loc))
            return MIt(loc, self.map_size(m))
        if name == 'clear':
            self.set_map(loc, MapV(m.kty, m.vty, z3.K(ks, z3.BoolVal(False)), m.val))
            return None
        if name == 'find':
            k = self.key(m, self.eval(args[0]))
            return self.map_find(loc, m, k)
        if name == 'count':
            k = self.key(m, self.eval(args[0]))
            return b2i(z3.Select(m.dom, k))
        if name == 'at':
            from .core import Thrown
            k = self.key(m, self.eval(args[0]))
            if not self.branch(z3.Select(m.dom, k)):
                raise Thrown('out_of_range')
            return loc.k(k)
        if name in ('insert', 'emplace'):
            if m.val is None:
                if len(args) == 2:
                    b, en = self.arg_locval(args[0]), self.arg_locval(args[1])
                    v, lo, hi = self.range_vec(b, en)
                    if v is None:
                        return None
                    n = self.set_of_range(m, v, lo, hi, None)
                    d = self.fresh(m.dom.sort(), 'u')
                    k = z3.Const('k!%d' % nxt(), ks)
                    self.assume(z3.ForAll([k], z3.Select(d, k) == z3.Or(z3.Select(m.dom, k), z3.Select(n.dom, k)),
                                          patterns=[z3.Select(d, k)]))
                    self.set_map(loc, MapV(m.kty, m.vty, d, None))
                    return None
                k = self.key(m, self.eval(args[0]))
                self.set_map(loc, MapV(m.kty, m.vty, z3.Store(m.dom, k, z3.BoolVal(True)), None))
                return Opaque('insert-result')
            if len(args) == 1:
                pv = self.arg_obj(args[0])
                k, val = self.ti.key_leaf(m.kty, pv.f['first']), pv.f['second']
            else:
                k = self.key(m, self.eval(args[0]))
                val = self.arg_obj(args[1])
            m = self.load(loc)
            val = self.to_ety(val, m.vty)
            # insert keeps an existing mapping
            if self.branch(z3.Select(m.dom, k)):
                return Opaque('insert-result')
            self.set_map(loc, MapV(m.kty, m.vty, z3.Store(m.dom, k, z3.BoolVal(True)), sto(m.val, k, val)))
            return Opaque('insert-result')
        if name == 'erase' and len(args) == 1:
            v = self.eval(args[0])
            x = self.load(v) if isinstance(v, Loc) else v
            if isinstance(x, MIt):
                raise Unsupported('erase iterator')
            k = self.key(m, x)
            self.set_map(loc, MapV(m.kty, m.vty, z3.Store(m.dom, k, z3.BoolVal(False)), m.val))
            return b2i(z3.Select(m.dom, k))
        if name == 'operator[]':
            return self.map_index(loc, m, self.eval(args[0]))
        if name == 'swap':
            o = self.eval(args[0])
            ov = self.load(o)
            self.set_map(o, m)
            self.set_map(loc, ov)
            return None
        if name in ('reserve', 'rehash'):
            return None
        raise Unsupported('map method ' + name)

    def set_map(self, loc, m):
        self.check_live(loc)
        if any(s[0] != 'f' for s in loc.path):
            self.record(loc)
        else:
            self.note((loc.root, tuple(s[1] for s in loc.path), 'map'))
        self.store[loc.root] = self.upd(self.store[loc.root], loc.path, m)

    def map_find(self, loc, m, k):
        ms, mk, mr = mfun(m.dom.sort())
        n = self.map_size(m)
        if self.branch(z3.Select(m.dom, k)):
            r = mr(m.dom, k)
            self.assume(z3.And(r >= 0, r < n))
            return MIt(loc, r, k)
        return MIt(loc, n)

    def map_index(self, loc, m, kv):
        k = self.key(m, kv)
        if not self.branch(z3.Select(m.dom, k)):
            self.set_map(loc, MapV(m.kty, m.vty, z3.Store(m.dom, k, z3.BoolVal(True)),
                                   sto(m.val, k, self.default_value(m.vty))))
        return loc.k(k)

    def ptr_method(self, name, loc, p, args, e):
        if name == 'get':
            return p
        if name == 'reset':
            v = self.rv(args[0]) if args else NULL
            self.write(loc, v)
            return None
        if name == 'release':
            self.write(loc, NULL)
            return p
        if name == 'operator->':
            return p
        if name == 'operator*':
            return self.deref_ptr(p)
        if name == 'operator bool':
            return z3.BoolVal(not p.null)
        if name == 'swap':
            o = self.eval(args[0])
            a, b = self.load(loc), self.load(o)
            self.write(loc, b)
            self.write(o, a)
            return None
        if name == 'base':
            return p
        raise Unsupported('pointer method ' + name)

    # ------------------------------------------------------------ operators
    def std_operator(self, name, args, e):
        op = name[len('operator'):]
        if op == '[]':
            loc = self.lv(args[0])
            v = self.load(loc)
            while isinstance(v, Ref):
                loc = v.loc
                v = self.load(loc)
            if isinstance(v, Vec):
                return self.elem(loc, self.arg_locval(args[1]))
            if isinstance(v, MapV):
                kv = self.eval(args[1])
                return self.map_index(loc, self.load(loc), kv)
            if isinstance(v, Ptr):
                return self.deref_ptr(self.ptr_add(v, self.arg_locval(args[1])))
        if op in ('*', '->') and len(args) == 1:
            v = self.arg_locval(args[0])
            if isinstance(v, MIt):
                l = self.deref_mit(v)
            else:
                l = self.deref_ptr(v)
            if op == '*':
                return l
            if l.path and l.path[-1][0] == 'i':
                return Ptr(Loc(l.root, l.path[:-1]), l.path[-1][1])
            return Ptr(l)
        if op in ('++', '--'):
            loc = self.lv(args[0])
            v = self.read(loc)
            nv = self.ptr_add(v, z3.IntVal(1), 1 if op == '++' else -1)
            self.write(loc, nv)
            return v if len(args) == 2 else loc
        if op in ('+=', '-='):
            loc = self.lv(args[0])
            v = self.read(loc)
            if isinstance(v, (Ptr, MIt)):
                self.write(loc, self.ptr_add(v, self.arg_locval(args[1]), 1 if op == '+=' else -1))
                return loc
        if op in ('+', '-'):
            a, b = self.arg_locval(args[0]), self.arg_locval(args[1])
            if isinstance(a, (Ptr, MIt)) or isinstance(b, (Ptr, MIt)):
                return self.arith(op, a, b, None)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            a, b = self.arg_objs(args[0]), self.arg_objs(args[1])
            if isinstance(a, RecV) and a.name == 'pair' and isinstance(b, RecV):
                lt = lambda x, y: z3.Or(x.f['first'] < y.f['first'],
                                        z3.And(x.f['first'] == y.f['first'], x.f['second'] < y.f['second']))
                eq = z3.And(a.f['first'] == b.f['first'], a.f['second'] == b.f['second'])
                return {'==': eq, '!=': z3.Not(eq), '<': lt(a, b), '>': lt(b, a),
                        '<=': z3.Not(lt(b, a)), '>=': z3.Not(lt(a, b))}[op]
            if isinstance(a, (Vec, MapV)):
                ev = self.spec_env({}, None)
                c = ev.same(a, b)
                return c if op == '==' else z3.Not(c)
            return self.compare(op, a, b)
        if op == 'bool':
            return self.as_bool(self.arg_locval(args[0]))
        if op == '<<':
            loc = self.lv(args[0])
            v = self.load(loc)
            if isinstance(v, RecV) and v.name == 'ostream':
                return self.os_put(loc, args[1])
        if op in ('|', '&', '^', '|=', '&=') :
            a, b = self.arg_locval(args[0]), self.arg_locval(args[1])
            if z3.is_expr(a) and a.sort() == I:
                r = BITOP[op[0]](a, b)
                if op.endswith('='):
                    l = self.lv(args[0])
                    self.write(l, r)
                    return l
                return r
        if op == '~':
            return z3.Function('bit_not', I, I)(self.arg_locval(args[0]))
        raise Unsupported('operator ' + op)

    def arg_objs(self, a):
        v = self.eval(a)
        if isinstance(v, Loc):
            x = self.load(v)
            while isinstance(x, Ref):
                x = self.load(x.loc)
            if isinstance(x, RecV) and len(x.f) == 1:
                pass
            return x
        return v

    # ------------------------------------------------------------ functions
    def std_call(self, name, args, e, d):
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        lval = e.get('valueCategory') != 'prvalue'
        ret = lambda v: self.new_root(v, self.ty(e), 'ret') if lval and not isinstance(v, Loc) else v
        if name in ('move', 'forward', 'move_if_noexcept', 'as_const', 'addressof', '__addressof') and len(args) == 1:
            v = self.eval(args[0])
            if not isinstance(v, Loc):
                v = self.new_root(v, self.ty(args[0]), 'tmp')
            if 'addressof' in name:
                return Ptr(v)
            return v
        if name in ('max', 'min') and len(args) == 2:
            a, b = self.num2(self.arg_locval(args[0]), self.arg_locval(args[1]))
            return ret(z3.If(a < b, b, a) if name == 'max' else z3.If(b < a, b, a))
        if name in ('fabs', 'abs', 'fabsf'):
            a = self.arg_locval(args[0])
            if a.sort() == I:
                self.oblige('overflow', 'abs', a >= -(2 ** 31 - 1))
            return z3.If(a >= 0, a, -a)
        if name in ('fmax', 'fmin'):
            a, b = self.num2(self.arg_locval(args[0]), self.arg_locval(args[1]))
            return z3.If(a < b, b, a) if name == 'fmax' else z3.If(b < a, b, a)
        if name == 'infinity':
            self.oblige('assert', 'infinity-not-used', z3.BoolVal(False))
            raise PathEnd_()
        if name in ('max', 'min', 'lowest', 'epsilon') and not args:
            t = self.ty(e)
            if t[0] == 'int':
                from .core import int_range
                lo, hi = int_range(t)
                return z3.IntVal(hi if name == 'max' else lo)
            if t[0] in ('real', 'double', 'float'):
                from fractions import Fraction
                single = 'float' in str(e.get('type', {}).get('qualType', '')) and 'double' not in str(e.get('type', {}).get('qualType', ''))
                big, small, eps = (3.4028234663852886e+38, 2.0 ** -126, 2.0 ** -23) if single else (1.7976931348623157e308, 2.0 ** -1022, 2.0 ** -52)
                return z3.RealVal(Fraction({'max': big, 'lowest': -big, 'min': small, 'epsilon': eps}[name]))
        if name == 'make_pair':
            t = self.ty(e)
            a, b = self.arg_obj(args[0]), self.arg_obj(args[1])
            return RecV('pair', {'first': self.fit1(a, t[1]), 'second': self.fit1(b, t[2])} if t[0] == 'pair'
                        else {'first': a, 'second': b})
        if name in ('swap', 'iter_swap') and len(args) == 2:
            if name == 'iter_swap':
                a, b = self.deref_ptr(self.arg_locval(args[0])), self.deref_ptr(self.arg_locval(args[1]))
            else:
                a, b = self.eval(args[0]), self.eval(args[1])
            x, y = self.load(a), self.load(b)
            put = lambda l, v: self.write_vec(l, v, 'self') if isinstance(v, Vec) else \
                self.set_map(l, v) if isinstance(v, MapV) else self.write(l, v)
            put(a, y)
            put(b, x)
            return None
        if name == 'exchange' and len(args) == 2:
            a = self.eval(args[0])
            nv = self.arg_obj(args[1])
            x = self.load(a)
            self.write(a, self.to_ety(nv, self.loc_type(a)) if z3.is_expr(nv) else nv)
            return x
        if name in ('advance',):
            l = self.lv(args[0])
            v = self.read(l)
            self.write(l, self.ptr_add(v, self.as_signed(self.arg_locval(args[1]), args[1])))
            return None
        if name in ('next', 'prev'):
            v = self.arg_locval(args[0])
            n = self.as_signed(self.arg_locval(args[1]), args[1]) if len(args) > 1 else z3.IntVal(1)
            return self.ptr_add(v, n, 1 if name == 'next' else -1)
        if name == 'distance':
            a, b = self.arg_locval(args[0]), self.arg_locval(args[1])
            if isinstance(a, MIt):
                return b.pos - a.pos
            return self.arith('-', b, a, None)
        if name in ('begin', 'end', 'cbegin', 'cend', 'size', 'data', 'empty') and len(args) == 1:
            l = self.lv(args[0])
            v = self.load(l)
            if isinstance(v, (Vec, MapV)):
                return self.std_method(name, l, [], e)
        if name == 'accumulate' and len(args) == 3:
            v, lo, hi = self.range_vec(self.arg_locval(args[0]), self.arg_locval(args[1]))
            init = self.arg_locval(args[2])
            if v is None:
                return init
            t = self.ty(e)
            if t[0] == 'real' and v.ety[0] == 'real':
                rs = self.lib.fns['rsum'].f
                return init + rs(v.data, lo, hi)
            raise Unsupported('accumulate')
        if name == 'partial_sum' and len(args) == 3:
            b, en, o = [self.arg_locval(a) for a in args]
            v, lo, hi = self.range_vec(b, en)
            if v is None:
                return o
            if not (o.loc.same(b.loc) and self.provable(o.off == lo) and self.provable(lo == 0)):
                raise Unsupported('partial_sum to another range')
            rs = self.lib.fns['rsum'].f
            nd = self.fresh(v.data.sort(), 'psum')
            k = z3.Const('k!%d' % nxt(), I)
            self.assume(z3.ForAll([k], z3.Select(nd, k) ==
                        z3.If(z3.And(0 <= k, k < hi), rs(v.data, z3.IntVal(0), k + 1), z3.Select(v.data, k)),
                        patterns=[z3.Select(nd, k)]))
            self.write_vec(b.loc, Vec(v.ety, v.len, nd), 'data')
            self.npsum += 1
            self.acts[-1].names['_psum_src'] = v.data
            self.acts[0].names['_psum_src%d' % self.npsum] = v.data
            return Ptr(b.loc, hi)
        if name == 'sort' and len(args) == 2:
            return self.std_sort(args)
        if name in ('max_element', 'min_element') and len(args) == 2:
            b, en = self.arg_locval(args[0]), self.arg_locval(args[1])
            v, lo, hi = self.range_vec(b, en)
            if v is None:
                return en
            if not z3.is_expr(v.data):
                raise Unsupported(name)
            if not self.branch(lo < hi):
                return en
            p = self.fresh(I, name)
            k = z3.Const('k!%d' % nxt(), I)
            self.assume(z3.And(lo <= p, p < hi))
            x, y = z3.Select(v.data, k), z3.Select(v.data, p)
            self.assume(z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), x <= y if name == 'max_element' else x >= y),
                                  patterns=[x]))
            return Ptr(b.loc, p)
        if name == 'minmax_element' and len(args) == 2:
            raise Unsupported(name)
        if name in ('any_of', 'all_of', 'none_of', 'count_if', 'find_if', 'for_each', 'transform'):
            raise Unsupported('algorithm ' + name)
        if name in ('copy', 'copy_n', 'memcpy', 'memmove', '__builtin_memcpy'):
            return self.std_copy(name, args, e)
        if name == 'fill' or name == 'fill_n':
            if name == 'fill':
                v, lo, hi = self.range_vec(self.arg_locval(args[0]), self.arg_locval(args[1]))
                p = self.arg_locval(args[0])
            else:
                p = self.arg_locval(args[0])
                n = self.arg_locval(args[1])
                v, lo, hi = self.range_vec(p, self.ptr_add(p, n))
            x = self.to_ety(self.arg_locval(args[2]), v.ety)
            if self.provable(z3.And(lo == 0, hi == v.len)):
                self.write_vec(p.loc, Vec(v.ety, v.len, const_lift(x, I)), 'data')
                return None
            k = z3.Const('k!%d' % nxt(), I)
            nd = self.fresh(v.data.sort(), 'fill')
            self.assume(z3.ForAll([k], z3.Select(nd, k) == z3.If(z3.And(lo <= k, k < hi), x, z3.Select(v.data, k)),
                                  patterns=[z3.Select(nd, k)]))
            self.write_vec(p.loc, Vec(v.ety, v.len, nd), 'data')
            return None
        if name == 'malloc':
            n = self.rv(args[0])
            if self.choose(2) == 1:
                self.allocfail = True
                return NULL
            return RawMem(n)
        if name == 'calloc':
            raise Unsupported('calloc')
        if name == 'free':
            return self.do_free(self.rv(args[0]))
        if name in ('ios_base::scientific',):
            pass
        raise Unsupported('call of ' + str(name))

    def as_signed(self, v, a):
        """Value converted to a signed 64-bit distance."""
        return self.convert_int(v, ('int', 64, True))

    def do_free(self, p):
        if isinstance(p, RawMem):
            return None
        if not isinstance(p, Ptr):
            self.oblige('bounds', 'free', z3.BoolVal(False))
            raise PathEnd_()
        if p.null:
            return None
        r = p.loc.root
        if p.loc.path or self.heap.get(r) != 'live':
            self.oblige('bounds', 'invalid-free', z3.BoolVal(False))
            raise PathEnd_()
        if p.off is not None:
            self.oblige('bounds', 'free-start', p.off == 0)
        self.heap[r] = 'freed'
        return None

    def std_copy(self, name, args, e):
        if name == 'copy':
            b, en, o = [self.arg_locval(a) for a in args]
            v, lo, hi = self.range_vec(b, en)
            n = hi - lo if v is not None else z3.IntVal(0)
        elif name == 'copy_n':
            b, n, o = [self.arg_locval(a) for a in args]
            v, lo, hi = self.range_vec(b, self.ptr_add(b, n))
        else:
            o, b, nb = [self.arg_locval(a) for a in args]
            if isinstance(b, RawMem) or isinstance(o, RawMem):
                raise Unsupported('untyped memcpy')
            v0 = self.load(b.loc)
            if not isinstance(v0, Vec):
                raise Unsupported('memcpy of object')
            sz = self.sizeof(v0.ety)
            n = self.fresh(I, 'cnt')
            if self.provable(nb % sz == 0):
                pass
            self.oblige('bounds', 'memcpy-size', nb % sz == 0)
            self.assume(n * sz == nb)
            v, lo, hi = self.range_vec(b, self.ptr_add(b, n))
        if v is None:
            return o
        if o.null or o.off is None:
            self.oblige('null', 'copy-target', z3.BoolVal(False))
            raise PathEnd_()
        t = self.load(o.loc)
        self.check_live(o.loc)
        self.oblige('bounds', 'copy-target', z3.And(o.off >= 0, o.off + n <= t.len))
        if o.loc.same(b.loc):
            if name == 'memcpy':
                self.oblige('bounds', 'memcpy-overlap', z3.Or(o.off + n <= lo, hi <= o.off, n == 0))
            elif name == 'copy':
                self.oblige('bounds', 'copy-overlap', z3.Or(o.off <= lo, hi <= o.off))
        k = z3.Const('k!%d' % nxt(), I)
        nv = self.fresh_tree(('vec', t.ety), 'cp')
        from .spec import leaves
        for a, x, y in zip(leaves(nv.data), leaves(t.data), leaves(v.data)):
            self.assume(z3.ForAll([k], z3.Select(a, k) == z3.If(z3.And(o.off <= k, k < o.off + n),
                                  z3.Select(y, k - o.off + lo), z3.Select(x, k)), patterns=[z3.Select(a, k)]))
        self.write_vec(o.loc, Vec(t.ety, t.len, nv.data), 'data')
        return Ptr(o.loc, z3.simplify(o.off + n)) if name.startswith('copy') else o

    def std_sort(self, args):
        b, en = self.arg_locval(args[0]), self.arg_locval(args[1])
        v, lo, hi = self.range_vec(b, en)
        if v is None:
            return None
        if not self.provable(z3.And(lo == 0, hi == v.len)):
            raise Unsupported('sort of sub-range')
        from .spec import leaves
        nv = self.fresh_tree(('vec', v.ety), 'sorted')
        perm = self.fresh(z3.ArraySort(I, I), 'perm')
        inv = self.fresh(z3.ArraySort(I, I), 'inv')
        k, a, c = [z3.Const('k!%d' % nxt(), I) for _ in range(3)]
        n = v.len
        eqs = [z3.Select(x, k) == z3.Select(y, z3.Select(perm, k)) for x, y in zip(leaves(nv.data), leaves(v.data))]
        inr = lambda t: z3.And(0 <= t, t < n)
        self.assume(z3.ForAll([k], z3.Implies(inr(k), z3.And(inr(perm[k]), z3.Select(inv, perm[k]) == k, *eqs)),
                              patterns=[z3.Select(leaves(nv.data)[0], k), z3.Select(perm, k)]))
        self.assume(z3.ForAll([k], z3.Implies(inr(k), z3.And(inr(inv[k]), z3.Select(perm, inv[k]) == k)),
                              patterns=[z3.Select(inv, k)]))
        if v.ety[0] == 'pair':
            f, s = nv.data.f['first'], nv.data.f['second']
            le = z3.Or(f[a] < f[c], z3.And(f[a] == f[c], s[a] <= s[c]))
            pats = [z3.MultiPattern(f[a], f[c])]
        else:
            f = nv.data
            le = f[a] <= f[c]
            pats = [z3.MultiPattern(f[a], f[c])]
        self.assume(z3.ForAll([a, c], z3.Implies(z3.And(0 <= a, a <= c, c < n), le), patterns=pats))
        self.write_vec(b.loc, Vec(v.ety, v.len, nv.data), 'data')
        for act in self.acts:
            act.names['_perm'], act.names['_inv'] = perm, inv
        return None

    # ------------------------------------------------------------ ostream
    def fresh_ostream(self, base):
        return RecV('ostream', {'prec': self.fresh(I, base + '.prec'), 'flags': self.fresh(I, base + '.flags'),
                                'kind': self.fresh_tree(('vec', ('int', 32, True)), base + '.kind'),
                                'tok': self.fresh_tree(('vec', ('real',)), base + '.tok')})

    def os_method(self, name, loc, v, args, e):
        if name == 'precision':
            old = v.f['prec']
            if args:
                n = self.arg_locval(args[0])
                self.write(loc.f('prec'), n)
            return old
        if name == 'flags':
            old = v.f['flags']
            if args:
                n = self.arg_locval(args[0])
                self.write(loc.f('flags'), n)
            return old
        if name in ('setf', 'unsetf'):
            old = v.f['flags']
            xs = [self.arg_locval(a) for a in args]
            if name == 'setf' and len(xs) == 1:
                nv = BITOP['|'](old, xs[0])
            elif name == 'setf':
                nv = z3.Function('flag_setmask', I, I, I, I)(old, *xs)
            else:
                nv = z3.Function('flag_unset', I, I, I)(old, xs[0])
            self.write(loc.f('flags'), nv)
            return old
        raise Unsupported('ostream method ' + name)

    def os_put(self, loc, a):
        v = self.load(loc)
        x = self.eval(a)
        if isinstance(x, Loc):
            x = self.read(x)
        t = self.ty(a)
        if isinstance(x, Opaque) and x.what == 'string-literal':
            raise Unsupported('string output')
        if not z3.is_expr(x):
            raise Unsupported('output of %r' % (x,))
        kind = 1 if (t[0] == 'int' and t[1] == 8) else 0 if t[0] == 'int' else 2
        if x.sort() == I:
            x = z3.ToReal(x)
        if x.sort() != R:
            raise Unsupported('output')
        kv, tv = v.f['kind'], v.f['tok']
        self.write_vec(loc.f('kind'), Vec(kv.ety, z3.simplify(kv.len + 1), sto(kv.data, kv.len, z3.IntVal(kind))), 'self')
        self.write_vec(loc.f('tok'), Vec(tv.ety, z3.simplify(tv.len + 1), sto(tv.data, tv.len, x)), 'self')
        return loc
