"""Ghost enumeration of finite map/set domains: msize, mkey, mrank."""
import z3
from .values import I, B, StrSort, str_lt

_cache = {}


def mfun(dom_sort):
    ks = dom_sort.domain()
    nm = str(ks)
    if nm not in _cache:
        _cache[nm] = (z3.Function('msize_' + nm, dom_sort, I),
                      z3.Function('mkey_' + nm, dom_sort, I, ks),
                      z3.Function('mrank_' + nm, dom_sort, ks, I))
    return _cache[nm]


def facts(dom, ordered):
    """Enumeration facts for one finite domain term."""
    ms, mk, mr = mfun(dom.sort())
    ks = dom.sort().domain()
    p, q = z3.Const('p!m', I), z3.Const('q!m', I)
    k = z3.Const('k!m', ks)
    n = ms(dom)
    out = [n >= 0,
           z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n),
                     z3.And(z3.Select(dom, mk(dom, p)), mr(dom, mk(dom, p)) == p)),
                     patterns=[mk(dom, p)]),
           z3.ForAll([k], z3.Implies(z3.Select(dom, k),
                     z3.And(0 <= mr(dom, k), mr(dom, k) < n, mk(dom, mr(dom, k)) == k)),
                     patterns=[mr(dom, k)] if not z3.is_const(dom) and dom.decl().kind() == z3.Z3_OP_STORE
                     else [z3.Select(dom, k), mr(dom, k)])]
    if ordered and ks == I:
        out.append(z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q, q < n), mk(dom, p) < mk(dom, q)),
                             patterns=[z3.MultiPattern(mk(dom, p), mk(dom, q))]))
    return out
