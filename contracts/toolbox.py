"""Toolbox::Impl: assigned data, flow graphs, diagnostics requests."""
import re
from vc.core import Contract as C, Loop, By
from .base import FD

TI = FD + 'Toolbox::Impl::'
NMAX = '2147483647'
CAP = '6307200000'


def setup(L):
    W = [('D', 'sbarr'), ('E', 'siarr'), ('V', 'srarr'), ('c', 'int')]
    # what well w injects into (produces from) cell c
    L.macro('inj', ['E', 'V', 'w', 'c'], '(V[w][c] if E[w][c] and V[w][c] > 0 else 0)')
    L.macro('prod', ['E', 'V', 'w', 'c'], '(-V[w][c] if E[w][c] and V[w][c] < 0 else 0)')
    # summed over the first n wells
    L.fn('injsum', W + [('n', 'int')], 'real', '0 if n <= 0 else injsum(D, E, V, c, n-1) + inj(E, V, mkey(D, n-1), c)')
    L.fn('prodsum', W + [('n', 'int')], 'real', '0 if n <= 0 else prodsum(D, E, V, c, n-1) + prod(E, V, mkey(D, n-1), c)')
    for s in ('inj', 'prod'):
        L.lemma(s + 'sum_nonneg', W + [('n', 'int')], [], '%ssum(D, E, V, c, n) >= 0' % s, induct='n')
        L.lemma(s + 'sum_part', W + [('k', 'int'), ('n', 'int')], ['0 <= k', 'k < n'], '%ssum(D, E, V, c, n) >= %s(E, V, mkey(D, k), c)' % (s, s), induct='n', base='k+1',
                uses=['%ssum_nonneg(D, E, V, c, n-1)' % s])

    # D is a finite domain, listed by mkey
    L.fn('enumerated', [('D', 'sbarr')], 'bool', 'all(implies(0 <= p and p < msize(D), D[mkey(D, p)] and mrank(D, mkey(D, p)) == p) for p in ints if trig(mkey(D, p))) and '
         'all(implies(D[s], 0 <= mrank(D, s) and mrank(D, s) < msize(D) and mkey(D, mrank(D, s)) == s) for s in strs if trig(D[s]))')
    L.fn('inset', [('D', 'barr'), ('Q', 'barr')], 'bool', 'all(implies(D[c], Q[c]) for c in ints if trig(D[c]))')
    # net flux of connection i: the sum over its P phases
    L.fn('netflux', [('d', 'rarr'), ('P', 'int'), ('i', 'int')], 'real', 'rsum(d, i*P, i*P+P)')
    # flow from x to y through the first n connections of table cc
    L.fn('thru', [('cc', 'iarr'), ('d', 'rarr'), ('P', 'int'), ('x', 'int'), ('y', 'int'), ('n', 'int')], 'real',
         '0 if n <= 0 else thru(cc, d, P, x, y, n-1) + (netflux(d, P, n-1) if netflux(d, P, n-1) > 0 and cc[2*(n-1)] == x and cc[2*(n-1)+1] == y else (-netflux(d, P, n-1) if netflux(d, P, n-1) < 0 and cc[2*(n-1)+1] == x and cc[2*(n-1)] == y else 0))')
    L.lemma('thru_self', [('cc', 'iarr'), ('d', 'rarr'), ('P', 'int'), ('x', 'int'), ('n', 'int')], ['all(cc[2*k] != cc[2*k+1] for k in range(n) if trig(cc[2*k]))'], 'thru(cc, d, P, x, x, n) == 0', induct='n', uses=['cc[2*(n-1)] == cc[2*(n-1)]'])
    S = [('i', 'iarr'), ('j', 'iarr'), ('v', 'rarr')]
    L.lemma('csum_ext', S + [('a', 'iarr'), ('b', 'iarr'), ('w', 'rarr'), ('x', 'int'), ('y', 'int'), ('n', 'int')],
            ['all(i[k] == a[k] and j[k] == b[k] and v[k] == w[k] for k in range(n) if trig(i[k]))'], 'csum(i, j, v, x, y, n) == csum(a, b, w, x, y, n)', induct='n', uses=['i[n-1] == i[n-1]'])
    L.lemma('wsum_ext', [('i', 'iarr'), ('v', 'rarr'), ('a', 'iarr'), ('w', 'rarr'), ('x', 'int'), ('n', 'int')],
            ['all(i[k] == a[k] and v[k] == w[k] for k in range(n) if trig(i[k]))'], 'wsum(i, v, x, n) == wsum(a, w, x, n)', induct='n', uses=['i[n-1] == i[n-1]'])
    L.lemma('csum_turn', S + [('a', 'iarr'), ('b', 'iarr'), ('w', 'rarr'), ('x', 'int'), ('y', 'int'), ('n', 'int')],
            ['all(i[k] == b[k] and j[k] == a[k] and v[k] == w[k] for k in range(n) if trig(i[k]))'], 'csum(i, j, v, x, y, n) == csum(a, b, w, y, x, n)', induct='n', uses=['i[n-1] == i[n-1]'])
    L.lemma('csum_nonneg', S + [('x', 'int'), ('y', 'int'), ('n', 'int')], ['all(v[k] > 0 for k in range(n) if trig(v[k]))'], 'csum(i, j, v, x, y, n) >= 0', induct='n', uses=['v[n-1] == v[n-1]'])
    L.lemma('csum_has', S + [('x', 'int'), ('y', 'int'), ('n', 'int'), ('m', 'int')], ['all(v[k] > 0 for k in range(n) if trig(v[k]))', '0 <= m', 'm < n', 'i[m] == x', 'j[m] == y'], 'csum(i, j, v, x, y, n) > 0',
            induct='n', base='m+1', uses=['v[n-1] == v[n-1]', 'csum_nonneg(i, j, v, x, y, n-1)'])
    L.fn('joined', [('i', 'iarr'), ('j', 'iarr'), ('x', 'int'), ('y', 'int'), ('n', 'int')], 'bool', 'any(i[m] == x and j[m] == y for m in range(n) if trig(i[m]))')
    L.lemma('csum_some', S + [('x', 'int'), ('y', 'int'), ('n', 'int')], ['csum(i, j, v, x, y, n) > 0'], 'joined(i, j, x, y, n)', induct='n', uses=['i[n-1] == i[n-1]'])
    # ---- the flow graph: row x holds the cells that x flows to (dir: flow(.., x, y, ..)), each with the flow
    L.macro('matrix', ['g', 'nc'], 'csr_shape(g.csr_.ia_, nc, len(g.csr_.ja_)) and len(g.csr_.sa_) == len(g.csr_.ja_) and all(0 <= g.csr_.ja_[p] and g.csr_.ja_[p] < nc for p in range(len(g.csr_.ja_)) if trig(g.csr_.ja_[p])) and '
            'all(implies(g.csr_.ia_[r] <= k and k < l and l < g.csr_.ia_[r+1], g.csr_.ja_[k] < g.csr_.ja_[l]) for r in range(nc) for k in ints for l in ints if trig(g.csr_.ia_[r], g.csr_.ja_[k], g.csr_.ja_[l]))')
    # what g sends into a cell is what the reverse graph h lists for it
    L.macro('balanced', ['g', 'h', 'nc'], 'len(g.csr_.ja_) <= %s and all(g.csr_.sa_[p] > 0 for p in range(len(g.csr_.ja_)) if trig(g.csr_.sa_[p])) and '
            'all(colsum(g.csr_.ja_, g.csr_.sa_, c, len(g.csr_.ja_)) == rsum(h.csr_.sa_, h.csr_.ia_[c], h.csr_.ia_[c+1]) for c in range(nc) if trig(colsum(g.csr_.ja_, g.csr_.sa_, c, len(g.csr_.ja_))))' % NMAX)
    L.macro('outflow', ['g', 'cc', 'd', 'P', 'n', 'nc'], 'all(iff(edge(g.csr_.ia_, g.csr_.ja_, x, y), thru(cc, d, P, x, y, n) > 0) for x in range(nc) for y in ints if trig(edge(g.csr_.ia_, g.csr_.ja_, x, y)) if trig(thru(cc, d, P, x, y, n))) and '
            'all(implies(g.csr_.ia_[x] <= p and p < g.csr_.ia_[x+1], g.csr_.sa_[p] == thru(cc, d, P, x, g.csr_.ja_[p], n) and g.csr_.sa_[p] > 0) for x in range(nc) for p in ints if trig(g.csr_.ia_[x], g.csr_.sa_[p]))')
    L.macro('inflow', ['g', 'cc', 'd', 'P', 'n', 'nc'], 'all(iff(edge(g.csr_.ia_, g.csr_.ja_, x, y), thru(cc, d, P, y, x, n) > 0) for x in range(nc) for y in ints if trig(edge(g.csr_.ia_, g.csr_.ja_, x, y)) if trig(thru(cc, d, P, y, x, n))) and '
            'all(implies(g.csr_.ia_[x] <= p and p < g.csr_.ia_[x+1], g.csr_.sa_[p] == thru(cc, d, P, g.csr_.ja_[p], x, n) and g.csr_.sa_[p] > 0) for x in range(nc) for p in ints if trig(g.csr_.ia_[x], g.csr_.sa_[p]))')


M = 'dom(inflow_flux), dom(val(inflow_flux)), val(val(inflow_flux))'
EV = 'dom(val(inflow_flux)), val(val(inflow_flux))'


def total(kind, f, n, more='0'):
    """Table f holds, per cell, the sum over the first n wells (and `more`)."""
    t = '(%ssum(%s, c, %s) + %s)' % (kind, M, n, more)
    return 'all(iff(c in %s, %s > 0) and implies(c in %s, %s[c] == %s) for c in ints if trig(c in %s))' % (f, t, f, f, t, f)


def split(kind, f, done, seen=None):
    """Table f holds, per well that is done, exactly its own positive (negative) entries."""
    return ['all(implies(s in %s, s in inflow_flux and %s and any(%s(%s, s, c) > 0 for c in ints if trig(c in inflow_flux[s]))) for s in strs if trig(s in %s))' % (f, seen or done, kind, EV, f),
            'all(implies(s in inflow_flux and c in inflow_flux[s] and %s and %s(%s, s, c) > 0, s in %s and c in %s[s] and %s[s][c] == %s(%s, s, c)) for s in strs for c in ints if trig(c in inflow_flux[s]))' % (done, kind, EV, f, f, f, kind, EV),
            'all(implies(s in %s and c in %s[s], c in inflow_flux[s] and %s and %s(%s, s, c) > 0 and %s[s][c] == %s(%s, s, c)) for s in strs for c in ints if trig(c in %s[s]))' % (f, f, done, kind, EV, f, kind, EV, f)]


def tables(n, done, seen=None, more='0'):
    out = []
    for kind, tot, by in (('inj', 'only_inflow_flux_', 'inj_flux_by_id_'), ('prod', 'only_outflow_flux_', 'prod_flux_by_id_')):
        out.append((kind + '-total', total(kind, tot, n, more % kind if '%' in more else more)))
        out += [('%s-well%d' % (kind, k), x) for k, x in enumerate(split(kind, by, done, seen))]
    return out


GRAPH = 'g_.connCells_, flux_.data_, flux_.nphase_.total, flux_.nconn_.total, g_.numCells_'
DISTINCT = ('distinct', 'all(g_.connCells_[2*k] != g_.connCells_[2*k+1] for k in range(flux_.nconn_.total) if trig(g_.connCells_[2*k]))', 'C15 C18')
# what every accepted call leaves behind
VALID = [('table', 'len(g_.connCells_) % 2 == 0 and all(0 <= g_.connCells_[k] and g_.connCells_[k] < g_.numCells_ for k in range(len(g_.connCells_)) if trig(g_.connCells_[k]))'),
         ('cells', '0 <= g_.numCells_ and g_.numCells_ < ' + NMAX),
         ('fluxes', 'flux_.nconn_.total < %s and len(flux_.data_)' % NMAX + ' == flux_.nconn_.total * flux_.nphase_.total and flux_.nconn_.total * flux_.nphase_.total < 1152921504606846976 and flux_.nconn_.total >= 0 and flux_.nphase_.total >= 0')]
THRU = 'thru(g_.connCells_, flux_.data_, flux_.nphase_.total, x, y, flux_.nconn_.total)'
BUILT = [('down-matrix', 'matrix(downstream_conn_, g_.numCells_)'), ('up-matrix', 'matrix(upstream_conn_, g_.numCells_)'),
         ('downstream', 'outflow(downstream_conn_, %s)' % GRAPH), ('upstream', 'inflow(upstream_conn_, %s)' % GRAPH),
         ('down-through', 'balanced(downstream_conn_, upstream_conn_, g_.numCells_)'), ('up-through', 'balanced(upstream_conn_, downstream_conn_, g_.numCells_)')] + [
         (n + '-noself', 'all(implies(%s.csr_.ia_[c] <= k and k < %s.csr_.ia_[c+1], %s.csr_.ja_[k] != c) for c in range(g_.numCells_) for k in ints if trig(%s.csr_.ia_[c], %s.csr_.ja_[k]))' % ((g,) * 5), 'C15 C18')
         for n, g in (('down', 'downstream_conn_'), ('up', 'upstream_conn_'))]
DI, DJ, DV, UI, UJ, UV = ('%s_conn_.conns_.%s_' % (a, b) for a in ('downstream', 'upstream') for b in 'ijv')

# well tables agree with the totals
WELLS = [(n, 'all(implies(c in %s, %s[c] > 0) for c in ints if trig(c in %s)) and all(implies(s in %s and c in %s[s], c in %s and 0 < %s[s][c] and %s[s][c] <= %s[c]) for s in strs for c in ints if trig(c in %s[s]))' % (t, t, t, b, b, t, b, b, t, b))
         for n, t, b in (('injectors', 'only_inflow_flux_', 'inj_flux_by_id_'), ('producers', 'only_outflow_flux_', 'prod_flux_by_id_'))]
# ghost state: the latest inflow assignment (wells InD, cells InE, values InV), if there was one
GIVEN = {'Given': 'int', 'InD': 'sbarr', 'InE': 'siarr', 'InV': 'srarr'}
for k, t, b in (('inj', 'only_inflow_flux_', 'inj_flux_by_id_'), ('prod', 'only_outflow_flux_', 'prod_flux_by_id_')):
    WELLS += [(k + '-given', 'implies(Given == 1, all((T[c] if c in T else 0) == Ksum(InD, InE, InV, c, msize(InD)) for c in ints if trig(c in T) if trig(Ksum(InD, InE, InV, c, msize(InD)))))'.replace('T', t).replace('Ksum', k + 'sum'), 'C18'),
              (k + '-split', 'implies(Given == 1, all(implies(s in B, InD[s]) for s in strs if trig(s in B)) and all(implies(InD[s], (B[s][c] if s in B and c in B[s] else 0) == K(InE, InV, s, c)) for s in strs for c in ints if trig(c in B[s]) if trig(InE[s][c])))'
               .replace('B', b).replace('K(', k + '('), 'C18'),
              (k + '-none', 'implies(Given != 1, all(not (s in B) for s in strs if trig(s in B)))'.replace('B', b), 'C18')]
WELLS.append(('listed', 'implies(Given == 1, enumerated(InD))', 'C18'))
# class invariant: whatever was accepted so far
INV = VALID + WELLS + [('pvsize', 'len(pvol_) == 0 or len(pvol_) == g_.numCells_'), ('fluxsize', 'flux_.nconn_.total == 0 or 2 * flux_.nconn_.total == len(g_.connCells_)')] + [
    ('current-' + b[0], 'implies(conn_built_, %s)' % b[1]) + tuple(b[2:]) for b in BUILT]
# what callers must supply
USER = [DISTINCT,
        ('pore-volumes', 'all(pvol_[c] > 0 for c in range(len(pvol_)) if trig(pvol_[c]))')] + [
    ('cells-' + t, 'all(implies(c in %s, 0 <= c and c < g_.numCells_) for c in ints if trig(c in %s))' % (t, t)) for t in ('only_inflow_flux_', 'only_outflow_flux_')]


def diag(fn, g, h, tot, by):
    """Diagnostics along graph g (reverse h) from the wells in `by`, total sources tot."""
    bad = 'not (start_sets[k].id_ in %s) or any(c in start_sets[k].iset_ and not (c in %s) for c in ints if trig(c in start_sets[k].iset_))' % (by, tot)
    inp = ', '.join('arr(%s.csr_.%s)' % (x, y) for x in (g, h) for y in ('ia_', 'ja_', 'sa_')) + ', arr(pvol_), g_.numCells_, Src'
    src = 'all(Src[c] == (%s[c] if c in %s else 0) for c in range(g_.numCells_) if trig(Src[c]))' % (tot, tot)

    def part(s, f, what):
        a = '%s, dom(%s[%s]), val(%s[%s])' % (inp, by, s, by, s)
        return 'all(iff(c in {f}[{s}], lset({a})[c]) and implies(c in {f}[{s}], {f}[{s}][c] == {w}({a})[c]) for c in ints if trig(c in {f}[{s}]))'.format(f=f, s=s, a=a, w=what)

    def stored(o, n):
        return [('tof%s' % n, 'all({i} in {o}.tracerToF_ and {p} for k in range({n}) if trig({i}))'.format(i='start_sets[k].id_', o=o, n=n, p=part('start_sets[k].id_', o + '.tracerToF_', 'ltof'))),
                ('conc%s' % n, 'all({i} in {o}.tracer_ and {p} for k in range({n}) if trig({i}))'.format(i='start_sets[k].id_', o=o, n=n, p=part('start_sets[k].id_', o + '.tracer_', 'lconc')))]
    def only(o, n):
        return [(f, 'all(implies(s in %s.%s, any(start_sets[k].id_ == s for k in range(%s) if trig(start_sets[k].id_))) for s in strs if trig(s in %s.%s))' % (o, f, n, o, f)) for f in ('tracerToF_', 'tracer_')]
    tab = dict(GI=g + '.csr_.ia_', GJ=g + '.csr_.ja_', HI=h + '.csr_.ia_', HJ=h + '.csr_.ja_', HS=h + '.csr_.sa_', NC='g_.numCells_', TOT=tot, BY=by, CAP=CAP)

    def mm(s, o=''):
        return re.sub(r'\b(%s)\b' % '|'.join(tab), lambda x: tab[x.group(1)], s.replace('TOF', o + '.tracerToF_').replace('CONC', o + '.tracer_') if o else s)
    # R: any set of cells that holds the sources and is closed under flow (along the reverse graph)
    dryset = mm('all(implies(HI[c] <= k and k < HI[c+1] and R[HJ[k]], R[c]) for c in range(NC) for k in ints if trig(HI[c], HJ[k])) and all(implies(c in TOT, R[c]) for c in ints if trig(c in TOT))')

    def nocyc(s):
        return mm('implies(0 <= x and x < NC and closed(A, NC, GI, GJ) and not A[x] and all(A[GJ[e]] for e in range(GI[x], GI[x+1]) if trig(GJ[e])), %s)' % s)
    qty = mm('(rsum(HS, HI[x], HI[x+1]) + Src[x])')

    def tbal(t, own):
        return mm('tracbal(HJ, HS, HI[x], HI[x+1], %s, x, %s, %s)' % (t, own, qty))

    def fbal(f, t):
        return mm('tofbal(HJ, HS, HI[x], HI[x+1], {f}, {t}, x, pvol_[x], {q})'.format(f=f, t=t, q=qty))

    def balance(o):
        """C15: Tw, Rw are the tracer field and the time of flight before the cut, per well."""
        return [('w-field', mm('all(implies(s in CONC, Tw[s][c] == (CONC[s][c] if c in CONC[s] else 0)) for s in strs for c in range(NC) if trig(Tw[s][c]))', o), 'C15 C18'),
                ('w-tracer', mm(nocyc('all(implies(s in CONC, %s) for s in strs if trig(s in CONC))' % tbal('Tw[s]', '(BY[s][x] if x in BY[s] else 0)')), o), 'C15 C18'),
                ('w-everywhere', mm('implies(ranked(HI, HJ, NC, Rk), all(implies(s in CONC, %s) for s in strs for x in range(NC) if trig(Tw[s][x])))' % tbal('Tw[s]', '(BY[s][x] if x in BY[s] else 0)'), o), 'C18'),
                ('w-inflowing', mm('all(implies(s in CONC and x in CONC[s], 0 <= x and x < NC and %s > 0) for s in strs for x in ints if trig(x in CONC[s]))' % qty, o), 'C18'),
                ('w-tof', mm(nocyc('all(implies(s in TOF and x in TOF[s], TOF[s][x] == min(Rw[s][x], CAP) and %s) for s in strs if trig(s in TOF))' % fbal('Rw[s]', 'Tw[s]')), o), 'C15')]

    # C18: the fields requested, their own sources, and the sum over the requests
    n = 'len(start_sets)'
    kind = 'inj' if 'inj' in fn else 'prod'
    gr = 'HI, HJ, HS, NC, Src, Rk'
    reqs = [('Id', 'w', 'start_sets[w].id_'), ('Rr', 'w', 'mrank(InD, start_sets[w].id_)'), ('FT', 'w', 'Tw[start_sets[w].id_]'), ('SO', 'w', mm('owned(dom(BY[start_sets[w].id_]), val(BY[start_sets[w].id_]))')),
            ('S', 'c', 'fsum(FT, c, %s)' % n)]
    reqs = [x + ('C18',) for x in reqs]
    every = mm('upwind(%s) and all(Rk[c] >= 0 for c in range(NC) if trig(Rk[c])) and all(implies(start_sets[a].id_ == start_sets[b].id_, a == b) for a in range(%s) for b in range(%s) if trig(start_sets[a].id_, start_sets[b].id_)) and '
               'all(implies(s in BY, any(start_sets[k].id_ == s for k in range(%s) if trig(start_sets[k].id_))) for s in strs if trig(s in BY))' % (gr, n, n, n))
    addup = [By('order', mm('implies(upwind(%s), ranked(HI, HJ, NC, Rk))' % gr), props='C18'),
             By('sources', 'Src[c] == fsum(SO, c, %s)' % n, fix=[('c', '0', mm('NC'))], when='Given == 1 and ' + every, trig='Rk[c]', uses=['%s_sources(InD, InE, InV, SO, Id, %s, c, %scol(InD, InE, InV, c), Rr)' % (kind, n, kind)], props='C18'),
             By('balances', mm('perwell(%s, FT, SO, %s, c)' % (gr, n)), fix=[('c', '0', mm('NC'))], when='Given == 1 and ' + every, trig='Rk[c]', props='C18'),
             By('total', mm('implies(0 <= x and x < NC and %s > 0, fsum(FT, x, %s) == 1)' % (qty, n)), when='Given == 1 and ' + every,
                given=[mm('upwind(%s)' % gr), mm('all(Rk[c] >= 0 for c in range(NC) if trig(Rk[c]))'), mm('all(perwell(%s, FT, SO, %s, c) and Src[c] == fsum(SO, c, %s) for c in range(NC) if trig(Rk[c]))' % (gr, n, n)),
                       'all(S[y] == fsum(FT, y, %s) for y in ints if trig(S[y]))' % n],
                uses=[mm('wells_add_up(%s, FT, SO, %s, S, x)' % (gr, n))], props='C18')]

    def unity(o):
        return [('requests', 'all(FT[w] == Tw[start_sets[w].id_] for w in range(%s) if trig(FT[w]))' % n, 'C18'),
                ('add-up', mm('implies(%s, all(implies(s in CONC and x in CONC[s], fsum(FT, x, %s) == 1) for s in strs if trig(s in CONC)))' % (every, n), o), 'C18')]

    def fields(o):
        """C16 and C17 for the fields of every well reported so far."""
        return [('w-bounds', mm('all(implies(s in TOF and c in TOF[s], 0 <= TOF[s][c] and TOF[s][c] <= CAP) for s in strs for c in ints if trig(c in TOF[s]))', o), 'C16'),
                ('w-known', mm('all(implies(s in CONC, s in BY and s in TOF) for s in strs if trig(s in CONC))', o), 'C17'),
                ('w-domain', mm('all(implies(s in CONC, iff(c in TOF[s], c in CONC[s])) for s in strs for c in ints if trig(c in TOF[s]) if trig(c in CONC[s]))', o), 'C17'),
                ('w-range', mm('all(implies(s in CONC and c in CONC[s], 0 < CONC[s][c] and CONC[s][c] <= 1 and 0 <= c and c < NC) for s in strs for c in ints if trig(c in CONC[s]))', o), 'C17'),
                ('w-starts', mm('all(implies(s in CONC and c in BY[s], c in CONC[s]) for s in strs for c in ints if trig(c in BY[s]))', o), 'C17'),
                ('w-forward', mm('all(implies(s in CONC and u in CONC[s] and GI[u] <= e and e < GI[u+1], GJ[e] in CONC[s]) for s in strs for u in range(NC) for e in ints if trig(u in CONC[s], GJ[e]))', o), 'C17'),
                *balance(o),
                ('w-reached', mm('implies(closed(Q, NC, GI, GJ), all(implies(s in CONC and inset(dom(BY[s]), Q) and c in CONC[s], Q[c]) for s in strs for c in ints if trig(c in CONC[s])))', o), 'C17')]
    ok = '(start_sets[k].id_ in %s) and all(implies(c in start_sets[k].iset_, c in %s) for c in ints if trig(c in start_sets[k].iset_))' % (by, tot)
    return C(TI + fn, ['start_sets'], modifies=['downstream_conn_', 'upstream_conn_', 'conn_built_', 'Src', 'Raw', 'Lv', 'Ls', 'Ps', 'Cm', 'Tg', 'Rg', 'Tw', 'Rw', 'FT', 'SO', 'Id', 'Rr', 'S'],
             gexit=reqs, exit=[x for x in addup], ghost={'Src': 'rarr', 'Raw': 'rarr', 'Tg': 'rarr', 'Rg': 'rarr', 'Tw': 'srarr', 'Rw': 'srarr', 'Lv': 'rarr', 'Ls': 'barr', 'Ps': 'iarr', 'Cm': 'iarr', 'FT': 'irarr', 'SO': 'irarr', 'Id': 'isarr', 'Rr': 'iarr', 'S': 'rarr', **GIVEN},
             logic={'Rk': 'iarr', 'R': 'barr', 'Q': 'barr', 'A': 'barr', 'x': 'int'}, forall=['R', 'Q', 'A', 'x', 'Rk'], requires=INV + USER,
             throws='len(pvol_) == 0 or flux_.nconn_.total == 0 or any(%s for k in range(len(start_sets)))' % bad,
             ensures=[('sources', src), ('global', 'len(result.fd.pImpl_.tof_) == g_.numCells_ and all(result.fd.pImpl_.tof_[c] == gtof(%s)[c] for c in range(g_.numCells_) if trig(result.fd.pImpl_.tof_[c]))' % inp)] +
                     [('g-bounds', 'all(0 <= result.fd.pImpl_.tof_[c] and result.fd.pImpl_.tof_[c] <= %s for c in range(g_.numCells_) if trig(result.fd.pImpl_.tof_[c]))' % CAP, 'C16'),
                      ('g-dry', 'implies(%s, all(implies(not R[c], result.fd.pImpl_.tof_[c] == %s) for c in range(g_.numCells_) if trig(result.fd.pImpl_.tof_[c])))' % (dryset, CAP), 'C16'),
                      ('g-tracer', nocyc(tbal('Tg', 'Src[x]')), 'C15'), ('g-tof', nocyc('result.fd.pImpl_.tof_[x] == min(Rg[x], CAP) and ' + fbal('Rg', 'Tg')), 'C15')] +
                     fields('result.fd.pImpl_') + unity('result.fd.pImpl_') + stored('result.fd.pImpl_', 'len(start_sets)') + only('result.fd.pImpl_', 'len(start_sets)') + INV,
             loops=[Loop(inv=[('accepted', 'all(%s for k in range(_n) if trig(start_sets[k].id_))' % ok)]),
                    Loop(inv=[('cells', 'all(implies(c in start.iset_ and mrank(start.iset_, c) < _n, c in %s) for c in ints if trig(c in start.iset_))' % tot)]),
                    Loop(ginit=[('Src', 'arr(solver.source_term_)'), ('Tg', 'arr(solver.tracer_)'), ('Rg', 'Raw')], gend=[('Tw', 'store(Tw, start_sets[_n].id_, arr(solver.tracer_))'), ('Rw', 'store(Rw, start_sets[_n].id_, Raw)')],
                         inv=[('idle', 'all(solver.local_source_term_[c] == 0 for c in range(g_.numCells_) if trig(solver.local_source_term_[c]))'), ('wells', 'same(%s, old(%s))' % (by, by))] + stored('sol.pImpl_', '_n') + only('sol.pImpl_', '_n') + fields('sol.pImpl_'),
                         end=[By('this-well', 'implies(%s, %s)' % (mm('ranked(HI, HJ, NC, Rk)'), tbal('Tw[start_sets[_n].id_]', mm('(BY[start_sets[_n].id_][x] if x in BY[start_sets[_n].id_] else 0)'))), fix=[('x', '0', mm('NC'))], trig='solver.tracer_[x]', props='C18')])],
             props='C11 C12 C13 C14 C15 C16 C17 C18')


MEMBERS = r'(?<![.\w])(g_|pvol_|flux_|inj_flux_by_id_|prod_flux_by_id_|only_inflow_flux_|only_outflow_flux_|downstream_conn_|upstream_conn_|conn_built_)'


def via(cl, base='pImpl_'):
    """The same clauses seen through the public class."""
    if isinstance(cl, (list, tuple)) and not isinstance(cl, str):
        return [(c[0], via(c[1], base)) + tuple(c[2:]) for c in cl] if isinstance(cl, list) else tuple(via(c, base) for c in cl)
    return re.sub(MEMBERS, lambda x: base + '.' + x.group(1), cl)


TB = FD + 'Toolbox::'


def public(fn, param, impl):
    """A public member does exactly what the implementation's contract says."""
    return C(TB + fn, [param], modifies=via(tuple(impl.modifies)), requires=via(ref(impl.requires)), ensures=via(ref(impl.ensures)), throws=via(impl.throws) if impl.throws else None, ghost=impl.ghost, logic=impl.logic, forall=impl.forall, props=' '.join(sorted(impl.props)))


def ref(cls):
    return [(c.label, c.expr) + ((' '.join(sorted(c.props)),) if c.props else ()) for c in cls]


CONTRACTS = [
    C(TI + 'buildAssembledConnections', [], modifies=['downstream_conn_', 'upstream_conn_', 'conn_built_'], requires=VALID + [DISTINCT, ('full', '2 * flux_.nconn_.total == len(g_.connCells_)')],
      ensures=BUILT + [('built', 'conn_built_')], glocal={'I': 'iarr', 'J': 'iarr', 'V': 'rarr', 'N': 'int', 'U': 'iarr', 'W': 'iarr', 'X': 'rarr'},
      loops=[Loop(inv=[('lists', 'conninv(downstream_conn_.conns_) and conninv(upstream_conn_.conns_) and len(%s) == len(%s) and len(%s) == len(%s) and len(%s) == len(%s) and len(%s) <= _n' % (DI, UI, DV, DI, UV, DI, DI)),
                       ('rows', 'all(%s[k] == %s[k] for k in range(len(%s)) if trig(%s[k]) if trig(%s[k]))' % (DI, UJ, DI, DI, UJ)),
                       ('cols', 'all(%s[k] == %s[k] for k in range(len(%s)) if trig(%s[k]) if trig(%s[k]))' % (DJ, UI, DI, DJ, UI)),
                       ('same', 'all(%s[k] == %s[k] for k in range(len(%s)) if trig(%s[k]) if trig(%s[k]))' % (DV, UV, DI, DV, UV)),
                       ('inside', 'all(%s[k] > 0 and 0 <= %s[k] and %s[k] < g_.numCells_ and 0 <= %s[k] and %s[k] < g_.numCells_ for k in range(len(%s)) if trig(%s[k]) if trig(%s[k]) if trig(%s[k]))' % (DV, DI, DI, DJ, DJ, DI, DV, DI, DJ)),
                       ('sums', 'all(csum(%s, %s, %s, x, y, len(%s)) == thru(g_.connCells_, flux_.data_, flux_.nphase_.total, x, y, _n) for x in ints for y in ints if trig(csum(%s, %s, %s, x, y, len(%s))) if trig(thru(g_.connCells_, flux_.data_, flux_.nphase_.total, x, y, _n)))' % ((DI, DJ, DV, DI) * 2))],
                  gexit=[('I', 'arr(%s)' % DI), ('J', 'arr(%s)' % DJ), ('V', 'arr(%s)' % DV), ('N', 'len(%s)' % DI), ('U', 'arr(%s)' % UI), ('W', 'arr(%s)' % UJ), ('X', 'arr(%s)' % UV)],
                  end=['all(csum_ext(start(%s), start(%s), start(%s), %s, %s, %s, x, y, start(len(%s))) for x in ints for y in ints if trig(csum(%s, %s, %s, x, y, len(%s))))' % (DI, DJ, DV, DI, DJ, DV, DI, DI, DJ, DV, DI)]),
             Loop(inv=['connection_flux == rsum(flux_.data_, conn_idx * flux_.nphase_.total, conn_idx * flux_.nphase_.total + _n)'])],
      exit=[By('down', 'iff(edge(downstream_conn_.csr_.ia_, downstream_conn_.csr_.ja_, x, y), %s > 0)' % THRU, fix=[('x', '0', 'g_.numCells_'), ('y', None, None)],
               trig='edge(downstream_conn_.csr_.ia_, downstream_conn_.csr_.ja_, x, y)', uses=['csum_some(I, J, V, x, y, N)', 'all(csum_has(I, J, V, x, y, N, k) for k in range(N) if trig(I[k]))']),
            By('turned', 'csum(U, W, X, y, x, N) == %s' % THRU, fix=[('y', None, None), ('x', None, None)], trig='csum(U, W, X, y, x, N)', uses=['csum_turn(U, W, X, I, J, V, y, x, N)']),
            By('up', 'iff(edge(upstream_conn_.csr_.ia_, upstream_conn_.csr_.ja_, y, x), %s > 0)' % THRU, fix=[('y', '0', 'g_.numCells_'), ('x', None, None)],
               trig='edge(upstream_conn_.csr_.ia_, upstream_conn_.csr_.ja_, y, x)', uses=['csum_some(U, W, X, y, x, N)', 'all(csum_has(U, W, X, y, x, N, k) for k in range(N) if trig(U[k]))']),
            By('downflow', 'downstream_conn_.csr_.sa_[p] == %s and downstream_conn_.csr_.sa_[p] > 0' % THRU.replace(' y,', ' downstream_conn_.csr_.ja_[p],'), fix=[('x', '0', 'g_.numCells_'), ('p', None, None)],
               when='downstream_conn_.csr_.ia_[x] <= p and p < downstream_conn_.csr_.ia_[x+1]', trig='downstream_conn_.csr_.ia_[x], downstream_conn_.csr_.sa_[p]',
               uses=['downstream_conn_.csr_.ia_[g_.numCells_] == downstream_conn_.csr_.ia_[g_.numCells_]', 'edge(downstream_conn_.csr_.ia_, downstream_conn_.csr_.ja_, x, downstream_conn_.csr_.ja_[p]) == edge(downstream_conn_.csr_.ia_, downstream_conn_.csr_.ja_, x, downstream_conn_.csr_.ja_[p])']),
            By('upflow', 'upstream_conn_.csr_.sa_[p] == %s and upstream_conn_.csr_.sa_[p] > 0' % THRU.replace(' x,', ' upstream_conn_.csr_.ja_[p],'), fix=[('y', '0', 'g_.numCells_'), ('p', None, None)],
               when='upstream_conn_.csr_.ia_[y] <= p and p < upstream_conn_.csr_.ia_[y+1]', trig='upstream_conn_.csr_.ia_[y], upstream_conn_.csr_.sa_[p]',
               uses=['upstream_conn_.csr_.ia_[g_.numCells_] == upstream_conn_.csr_.ia_[g_.numCells_]', 'edge(upstream_conn_.csr_.ia_, upstream_conn_.csr_.ja_, y, upstream_conn_.csr_.ja_[p]) == edge(upstream_conn_.csr_.ia_, upstream_conn_.csr_.ja_, y, upstream_conn_.csr_.ja_[p])']),
            *[By(n + '-noself', '%s.csr_.ja_[k] != c' % g, fix=[('c', '0', 'g_.numCells_'), ('k', None, None)], when='%s.csr_.ia_[c] <= k and k < %s.csr_.ia_[c+1]' % (g, g), trig='%s.csr_.ia_[c], %s.csr_.ja_[k]' % (g, g),
                 uses=['edge(%s.csr_.ia_, %s.csr_.ja_, c, %s.csr_.ja_[k]) == edge(%s.csr_.ia_, %s.csr_.ja_, c, %s.csr_.ja_[k])' % ((g,) * 6), 'thru_self(g_.connCells_, flux_.data_, flux_.nphase_.total, c, flux_.nconn_.total)'], props='C15 C18')
              for n, g in (('down', 'downstream_conn_'), ('up', 'upstream_conn_'))],
            By('down-into', 'colsum(downstream_conn_.csr_.ja_, downstream_conn_.csr_.sa_, c, len(downstream_conn_.csr_.ja_)) == wsum(J, V, c, N)', fix=[('c', '0', 'g_.numCells_')], trig='colsum(downstream_conn_.csr_.ja_, downstream_conn_.csr_.sa_, c, len(downstream_conn_.csr_.ja_))', uses=['wsum(J, V, c, N) == wsum(J, V, c, N)']),
            By('up-into', 'colsum(upstream_conn_.csr_.ja_, upstream_conn_.csr_.sa_, c, len(upstream_conn_.csr_.ja_)) == wsum(W, X, c, N)', fix=[('c', '0', 'g_.numCells_')], trig='colsum(upstream_conn_.csr_.ja_, upstream_conn_.csr_.sa_, c, len(upstream_conn_.csr_.ja_))', uses=['wsum(W, X, c, N) == wsum(W, X, c, N)']),
            By('down-from', 'rsum(downstream_conn_.csr_.sa_, downstream_conn_.csr_.ia_[c], downstream_conn_.csr_.ia_[c+1]) == wsum(I, V, c, N)', fix=[('c', '0', 'g_.numCells_')], trig='downstream_conn_.csr_.ia_[c]', uses=['wsum(I, V, c, N) == wsum(I, V, c, N)', 'rsum_none(downstream_conn_.csr_.sa_, downstream_conn_.csr_.ia_[c])']),
            By('up-from', 'rsum(upstream_conn_.csr_.sa_, upstream_conn_.csr_.ia_[c], upstream_conn_.csr_.ia_[c+1]) == wsum(U, X, c, N)', fix=[('c', '0', 'g_.numCells_')], trig='upstream_conn_.csr_.ia_[c]', uses=['wsum(U, X, c, N) == wsum(U, X, c, N)', 'rsum_none(upstream_conn_.csr_.sa_, upstream_conn_.csr_.ia_[c])']),
            By('down-bal', 'colsum(downstream_conn_.csr_.ja_, downstream_conn_.csr_.sa_, c, len(downstream_conn_.csr_.ja_)) == rsum(upstream_conn_.csr_.sa_, upstream_conn_.csr_.ia_[c], upstream_conn_.csr_.ia_[c+1])', fix=[('c', '0', 'g_.numCells_')], trig='colsum(downstream_conn_.csr_.ja_, downstream_conn_.csr_.sa_, c, len(downstream_conn_.csr_.ja_))', uses=['upstream_conn_.csr_.ia_[c] == upstream_conn_.csr_.ia_[c]', 'wsum_ext(J, V, U, X, c, N)']),
            By('up-bal', 'colsum(upstream_conn_.csr_.ja_, upstream_conn_.csr_.sa_, c, len(upstream_conn_.csr_.ja_)) == rsum(downstream_conn_.csr_.sa_, downstream_conn_.csr_.ia_[c], downstream_conn_.csr_.ia_[c+1])', fix=[('c', '0', 'g_.numCells_')], trig='colsum(upstream_conn_.csr_.ja_, upstream_conn_.csr_.sa_, c, len(upstream_conn_.csr_.ja_))', uses=['downstream_conn_.csr_.ia_[c] == downstream_conn_.csr_.ia_[c]', 'wsum_ext(W, X, I, V, c, N)'])],
      props='C12 C13 C15 C16 C17 C18', elsewhere='C11 C14'),
    C(TI + 'Impl', ['g'], requires=[('table', VALID[0][1].replace('g_.', 'g.')), ('cells', VALID[1][1].replace('g_.', 'g.'))],
      ensures=INV + [('graph', 'g_.numCells_ == old(g.numCells_) and same(g_.connCells_, old(g.connCells_))'),
                     ('none', 'len(pvol_) == 0 and flux_.nconn_.total == 0 and all(not (s in inj_flux_by_id_) and not (s in prod_flux_by_id_) for s in strs)')], ghost=GIVEN, modifies=list(GIVEN), gexit=[('Given', '0')], props='C11 C13 C18'),
    C(TI + 'assignPoreVolume', ['pvol'], ghost=GIVEN, modifies=['pvol_'], requires=INV, throws='len(pvol) != g_.numCells_', ensures=[('stored', 'same(pvol_, pvol)')] + INV, props='C11 C13 C18'),
    C(TI + 'assignConnectionFlux', ['flux'], ghost=GIVEN, modifies=['flux_', 'conn_built_'], requires=INV + [('flux', VALID[2][1].replace('flux_.', 'flux.'))],
      throws='2 * flux.nconn_.total != len(g_.connCells_)', ensures=[('stored', 'same(flux_, flux)')] + INV, props='C11 C13 C18'),
    C(TI + 'assignInflowFlux', ['inflow_flux'], ghost=GIVEN, gentry=[('Given', '1'), ('InD', 'dom(inflow_flux)'), ('InE', 'dom(val(inflow_flux))'), ('InV', 'val(val(inflow_flux))')], modifies=list(GIVEN) + ['only_inflow_flux_', 'only_outflow_flux_', 'inj_flux_by_id_', 'prod_flux_by_id_'],
      ensures=tables('msize(inflow_flux)', 'True') + WELLS,
      exit=['all(%ssum_part(%s, c, mrank(inflow_flux, s), msize(inflow_flux)) for s in strs for c in ints if trig(c in %s_flux_by_id_[s]))' % (k, M, k) for k in ('inj', 'prod')],
      loops=[Loop(inv=[('range', '_n <= msize(inflow_flux)')] + tables('_n', 'mrank(inflow_flux, s) < _n')),
             Loop(inv=[('range', '_n <= msize(inflow_flux[mkey(inflow_flux, n0)])')] + tables('n0', '(mrank(inflow_flux, s) < n0 or (mrank(inflow_flux, s) == n0 and mrank(inflow_flux[s], c) < _n))', 'mrank(inflow_flux, s) <= n0',
                       '(%s(' + EV + ', mkey(inflow_flux, n0), c) if mrank(inflow_flux[mkey(inflow_flux, n0)], c) < _n else 0)'),
                  begin=['all(%ssum_nonneg(%s, c, n0) for c in ints if trig(%ssum(%s, c, n0)))' % (k, M, k, M) for k in ('inj', 'prod')])],
      props='C11 C13 C14 C18'),
    diag('injDiag', 'downstream_conn_', 'upstream_conn_', 'only_inflow_flux_', 'inj_flux_by_id_'),
    diag('prodDiag', 'upstream_conn_', 'downstream_conn_', 'only_outflow_flux_', 'prod_flux_by_id_'),
]

IMPL = {c.fn[len(TI):]: c for c in CONTRACTS}
CONTRACTS += [public('assignPoreVolume', 'pvol', IMPL['assignPoreVolume']), public('assignConnectionFlux', 'flux', IMPL['assignConnectionFlux']), public('assignInflowFlux', 'inflow_flux', IMPL['assignInflowFlux']),
              public('computeInjectionDiagnostics', 'start_sets', IMPL['injDiag']), public('computeProductionDiagnostics', 'start_sets', IMPL['prodDiag']),
              C(TB + 'Toolbox', ['conn'], sig='const ConnectivityGraph &', requires=[(n, x.replace('g_.', 'conn.')) for n, x in VALID[:2]],
                ensures=via(ref(IMPL['Impl'].ensures[:-2])) + [('graph', 'pImpl_.g_.numCells_ == conn.numCells_ and same(pImpl_.g_.connCells_, conn.connCells_)'), (via(ref(IMPL['Impl'].ensures[-1:]))[0])], props='C11 C13'),
              # moving hands over the very same implementation object, untouched
              C(TB + 'Toolbox', ['rhs'], sig='Toolbox &&', modifies=['rhs.pImpl_'], ensures=[('moved', 'sameregion(pImpl_, old(rhs.pImpl_))')], props='C13'),
              C(TB + 'operator=', ['rhs'], sig='Toolbox &&', modifies=['pImpl_', 'rhs.pImpl_'], ensures=[('moved', 'sameregion(pImpl_, old(rhs.pImpl_))')], props='C13')]
