"""TracerTofSolver: upwind transport solved in topological order."""
import re
from vc.core import Contract as C, Loop, By
from .base import FD

TS = FD + 'TracerTofSolver::'
NMAX = '2147483647'
ALL = 'C13 C15 C16 C17 C18'
REST = 'C11 C12 C14'      # properties that use the solver's contracts without redoing its proof
CAP = '6307200000'
TAB = dict(GI='g_.csr_.ia_', GJ='g_.csr_.ja_', GS='g_.csr_.sa_', HI='g_reverse_.csr_.ia_', HJ='g_reverse_.csr_.ja_', HS='g_reverse_.csr_.sa_',
           NC='len(pv_)', T='tracer_', F='tof_', SRC='source_term_', LOC='local_source_term_', ST='is_start_', NMAX=NMAX)


def m(s):
    return re.sub(r'\b(%s)\b' % '|'.join(TAB), lambda x: TAB[x.group(1)], s)


def setup(L):
    A = [('ja', 'iarr'), ('sa', 'rarr'), ('t', 'rarr'), ('lo', 'int'), ('hi', 'int')]
    # upwind tracer, and upwind time of flight times tracer, through positions [lo, hi)
    L.fn('usum', A, 'real', '0 if hi <= lo else usum(ja, sa, t, lo, hi-1) + t[ja[hi-1]] * sa[hi-1]')
    L.fn('vsum', [('ja', 'iarr'), ('sa', 'rarr'), ('f', 'rarr'), ('t', 'rarr'), ('lo', 'int'), ('hi', 'int')], 'real',
         '0 if hi <= lo else vsum(ja, sa, f, t, lo, hi-1) + f[ja[hi-1]] * t[ja[hi-1]] * sa[hi-1]')
    L.lemma('prod_nonneg', [('a', 'real'), ('b', 'real')], ['a >= 0', 'b >= 0'], 'a * b >= 0')
    L.lemma('prod_pos', [('a', 'real'), ('b', 'real')], ['a > 0', 'b > 0'], 'a * b > 0')
    L.lemma('prod_le', [('a', 'real'), ('b', 'real')], ['a <= 1', 'b >= 0'], 'a * b <= b')
    L.lemma('usum_nonneg', A, ['all(sa[k] >= 0 and t[ja[k]] >= 0 for k in range(lo, hi) if trig(sa[k]))'], 'usum(ja, sa, t, lo, hi) >= 0', induct='hi', base='lo',
            uses=['sa[hi-1] == sa[hi-1]', 'prod_nonneg(t[ja[hi-1]], sa[hi-1])'])
    L.lemma('usum_le', A, ['all(sa[k] >= 0 and t[ja[k]] <= 1 for k in range(lo, hi) if trig(sa[k]))'], 'usum(ja, sa, t, lo, hi) <= rsum(sa, lo, hi)', induct='hi', base='lo',
            uses=['sa[hi-1] == sa[hi-1]', 'prod_le(t[ja[hi-1]], sa[hi-1])'])
    L.lemma('srsum_nonneg', [('sa', 'rarr'), ('lo', 'int'), ('hi', 'int')], ['all(sa[k] >= 0 for k in range(lo, hi) if trig(sa[k]))'], 'rsum(sa, lo, hi) >= 0', induct='hi', base='lo',
            uses=['sa[hi-1] == sa[hi-1]'])
    L.lemma('usum_pos', A + [('i', 'int')], ['all(sa[k] >= 0 and t[ja[k]] >= 0 for k in range(lo, hi) if trig(sa[k]))', 'lo <= i', 'i < hi', 'sa[i] > 0', 't[ja[i]] > 0'],
            'usum(ja, sa, t, lo, hi) > 0', induct='hi', base='i+1', uses=['sa[hi-1] == sa[hi-1]', 'prod_nonneg(t[ja[hi-1]], sa[hi-1])', 'prod_pos(t[ja[i]], sa[i])', 'usum_nonneg(ja, sa, t, lo, hi-1)'])
    L.lemma('usum_zero', A, ['all(t[ja[k]] == 0 for k in range(lo, hi) if trig(ja[k]))'], 'usum(ja, sa, t, lo, hi) == 0', induct='hi', base='lo', uses=['ja[hi-1] == ja[hi-1]'])
    L.lemma('usum_ext', A + [('u', 'rarr')], ['all(t[ja[k]] == u[ja[k]] for k in range(lo, hi) if trig(ja[k]))'], 'usum(ja, sa, t, lo, hi) == usum(ja, sa, u, lo, hi)', induct='hi', base='lo',
            uses=['ja[hi-1] == ja[hi-1]'])
    B = [('ja', 'iarr'), ('sa', 'rarr'), ('f', 'rarr'), ('t', 'rarr'), ('lo', 'int'), ('hi', 'int')]
    L.lemma('vsum_nonneg', B, ['all(sa[k] >= 0 and t[ja[k]] >= 0 and f[ja[k]] >= 0 for k in range(lo, hi) if trig(sa[k]))'], 'vsum(ja, sa, f, t, lo, hi) >= 0', induct='hi', base='lo',
            uses=['sa[hi-1] == sa[hi-1]', 'prod_nonneg(f[ja[hi-1]], t[ja[hi-1]])', 'prod_nonneg(f[ja[hi-1]] * t[ja[hi-1]], sa[hi-1])'])
    L.lemma('vsum_ext', B + [('g', 'rarr'), ('u', 'rarr')], ['all(t[ja[k]] == u[ja[k]] and f[ja[k]] == g[ja[k]] for k in range(lo, hi) if trig(ja[k]))'], 'vsum(ja, sa, f, t, lo, hi) == vsum(ja, sa, g, u, lo, hi)',
            induct='hi', base='lo', uses=['ja[hi-1] == ja[hi-1]'])
    L.lemma('frac', [('x', 'real'), ('q', 'real')], ['0 <= x', 'x <= q', 'q > 0'], '0 <= x / q and x / q <= 1 and implies(x > 0, x / q > 0) and (x / q) * q == x')
    L.fn('edge', [('ia', 'iarr'), ('ja', 'iarr'), ('u', 'int'), ('c', 'int')], 'bool', 'any(ia[u] <= p and p < ia[u+1] and ja[p] == c for p in ints if trig(ja[p]))')
    # row c of the reverse graph
    L.macro('up', ['t', 'c'], m('usum(HJ, HS, t, HI[c], HI[c+1])'))
    L.macro('upv', ['f', 't', 'c'], m('vsum(HJ, HS, f, t, HI[c], HI[c+1])'))
    L.macro('own', ['c'], m('(LOC[c] if ST[c] != 0 else 0)'))
    L.macro('flow', ['c'], m('(influx_[c] + SRC[c])'))
    # the discrete upwind balance of cell c for fields f (time of flight) and t (tracer)
    L.macro('tbal', ['t', 'c'], 't[c] * flow(c) == up(t, c) + own(c)')
    L.fn('tofbal', [('ja', 'iarr'), ('sa', 'rarr'), ('lo', 'int'), ('hi', 'int'), ('f', 'rarr'), ('t', 'rarr'), ('c', 'int'), ('pv', 'real'), ('q', 'real')], 'bool',
         'f[c] * t[c] * q == pv * t[c] + vsum(ja, sa, f, t, lo, hi) if t[c] > 0 and q >= pv / %s else f[c] == %s' % (CAP, CAP))
    L.fn('tracbal', [('ja', 'iarr'), ('sa', 'rarr'), ('lo', 'int'), ('hi', 'int'), ('t', 'rarr'), ('c', 'int'), ('src', 'real'), ('q', 'real')], 'bool', 't[c] * q == usum(ja, sa, t, lo, hi) + src')
    L.macro('tbalance', ['t', 'c', 'src'], m('tracbal(HJ, HS, HI[c], HI[c+1], t, c, src, flow(c))'))
    L.macro('fbalance', ['f', 't', 'c'], m('tofbal(HJ, HS, HI[c], HI[c+1], f, t, c, pv_[c], flow(c))'))
    L.macro('fbal', ['f', 't', 'c'], m('f[c] * t[c] * flow(c) == pv_[c] * t[c] + upv(f, t, c) if t[c] > 0 and flow(c) >= pv_[c] / %s else f[c] == %s' % (CAP, CAP)))


    G = [('gi', 'iarr'), ('gj', 'iarr'), ('gs', 'rarr'), ('hi', 'iarr'), ('hj', 'iarr'), ('hs', 'rarr'), ('pv', 'rarr'), ('n', 'int'), ('src', 'rarr')]
    # what the solver returns, as a function of what it is given
    L.fn('gtof', G, 'rarr')
    for n, r in (('lset', 'barr'), ('ltof', 'rarr'), ('lconc', 'rarr')):
        L.fn(n, G + [('sd', 'barr'), ('sv', 'rarr')], r)
    L.macro('mirrored', [], m('all(iff(edge(GI, GJ, u, c), edge(HI, HJ, c, u)) for u in range(NC) for c in range(NC) if trig(edge(GI, GJ, u, c)) if trig(edge(HI, HJ, c, u)))'))
    # x lies on no flow cycle: some set closed under flow holds all its successors but not x
    L.macro('nocycle', ['A', 'x'], m('0 <= x and x < NC and closed(A, NC, GI, GJ) and not A[x] and all(A[GJ[e]] for e in range(GI[x], GI[x+1]) if trig(GJ[e]))'))
    # the solution order: component j is positions [cs[j], cs[j+1]) of the sequence
    L.macro('single', ['c'], 'component_starts_[Cm[c]+1] == component_starts_[Cm[c]] + 1')
    L.lemma('compuniq', [('st', 'iarr'), ('K', 'int'), ('a', 'int'), ('b', 'int'), ('p', 'int')],
            ['rising(st, K)', '0 <= a', 'a < K', '0 <= b', 'b < K', 'st[a] <= p', 'p < st[a+1]', 'st[b] <= p', 'p < st[b+1]'], 'a == b')


SHAPE = [('n', m('NC < ' + NMAX)),
         ('graph', m('csr_shape(GI, NC, len(GJ)) and len(GS) == len(GJ) and len(GJ) <= NMAX and all(0 <= GJ[p] and GJ[p] < NC for p in range(len(GJ)) if trig(GJ[p]))')),
         ('reverse', m('csr_shape(HI, NC, len(HJ)) and len(HS) == len(HJ) and len(HJ) <= NMAX and all(0 <= HJ[p] and HJ[p] < NC for p in range(len(HJ)) if trig(HJ[p]))')),
         ('positive', m('all(HS[p] > 0 for p in range(len(HJ)) if trig(HS[p])) and all(pv_[c] > 0 for c in range(NC) if trig(pv_[c]))')),
         ('influx', m('len(influx_) == NC and all(influx_[c] == rsum(HS, HI[c], HI[c+1]) for c in range(NC) if trig(influx_[c]))')),
         ('sources', m('len(SRC) == NC and all(SRC[c] >= 0 for c in range(NC) if trig(SRC[c]))')),
         ('consts', 'max_tof_ == %s and 0 <= gauss_seidel_tracer_tol_ and gauss_seidel_tracer_tol_ < 1 and gauss_seidel_tof_tol_ < 1e100' % CAP)]
NOSELF = [('noself', m('all(implies(HI[c] <= k and k < HI[c+1], HJ[k] != c) for c in range(NC) for k in ints if trig(HI[c], HJ[k]))'), 'C15 C18')]
STARTS = [('starts', m('len(ST) == NC and len(LOC) == NC and all(0 <= LOC[c] and LOC[c] <= SRC[c] and implies(ST[c] != 0, SRC[c] > 0) for c in range(NC) if trig(LOC[c]) if trig(ST[c]))'))]
FIELDS = [('fields', m('len(T) == NC and len(F) == NC and all(0 <= T[c] and T[c] <= 1 for c in range(NC) if trig(T[c])) and all(F[c] >= 0 for c in range(NC) if trig(F[c]))'))]
# R: any set of cells containing the sources and closed under flow
DRY0 = [('swept', m('all(implies(HI[c] <= k and k < HI[c+1] and R[HJ[k]], R[c]) for c in range(NC) for k in ints if trig(HI[c], HJ[k]))'), 'C16'),
        ('fedin', m('all(implies(not R[c], own(c) == 0) for c in range(NC) if trig(R[c]))'), 'C16')]
DRY = [('dry', m('all(implies(not R[c], T[c] == 0) for c in range(NC) if trig(T[c]))'), 'C16')]
ORDER = [('csr', 'csr(len(component_starts_) - 1, component_starts_) and component_starts_[len(component_starts_) - 1] <= len(sequence_) and len(sequence_) <= ' + m('NC')),
         ('seq', m('all(0 <= sequence_[p] and sequence_[p] < NC and Ls[sequence_[p]] and Ps[sequence_[p]] == p for p in range(component_starts_[len(component_starts_) - 1]) if trig(sequence_[p]))')),
         ('pos', m('all(implies(Ls[c], 0 <= Ps[c] and Ps[c] < component_starts_[len(component_starts_) - 1] and sequence_[Ps[c]] == c and 0 <= Cm[c] and Cm[c] < len(component_starts_) - 1 and '
                   'component_starts_[Cm[c]] <= Ps[c] and Ps[c] < component_starts_[Cm[c]+1]) for c in range(NC) if trig(Ls[c]))')),
         ('topo', m('all(implies(HI[c] <= k and k < HI[c+1] and Ls[HJ[k]], Ls[c] and Cm[HJ[k]] <= Cm[c]) for c in range(NC) for k in ints if trig(HI[c], HJ[k]))'), 'C15 C17 C18')]
KEYS = 'all(implies(c in startset, 0 <= c and c < NC) for c in ints if trig(c in startset))'
MIRROR = [('mirrored', 'mirrored()', 'C15 C17 C18')]


EXTRACT = [('sizes', m('len(component_starts_) == Kc + 1 and len(sequence_) == NC')),
            ('starts', 'all(component_starts_[j] == St[Kc] - St[Kc-j] for j in range(_n+1) if trig(component_starts_[j]))'),
            ('seq', m('all(0 <= sequence_[p] and sequence_[p] < NC and Ls[sequence_[p]] and Ps[sequence_[p]] == p for p in range(component_starts_[_n]) if trig(sequence_[p]))')),
            ('pos', m('all(implies(Ls[v] and Cm[v] < _n, sequence_[Ps[v]] == v) for v in range(NC) if trig(Ls[v]))'))]


EXBEGIN = [By('piece', 'implies(_n < Kc, 0 <= St[Kc-1-_n] and St[Kc-1-_n] < St[Kc-_n] and St[Kc-_n] <= St[Kc])', uses=['St[0] == St[0]', 'St[Kc-_n] == St[Kc-_n]', 'St[Kc-1-_n] == St[Kc-1-_n]', 'St[Kc] == St[Kc]']),
           By('comp', 'Cmp[Ve[q]] == Kc-1-_n', fix=[('q', 'St[Kc-1-_n]', 'St[Kc-_n]')], when='_n < Kc', trig='Ve[q]', uses=['compuniq(St, Kc, Kc-1-_n, Cmp[Ve[q]], q)'])]


EXEND = [By('before', 'Ps[v] < component_starts_[_n]', fix=[('v', '0', m('NC'))], when='Ls[v] and Cm[v] < _n', trig='Ls[v]', uses=['Cmp[v] == Cmp[v]', 'St[Kc-_n] == St[Kc-_n]', 'St[Cmp[v]] == St[Cmp[v]]', 'St[Cmp[v]+1] == St[Cmp[v]+1]']),
         By('here', 'sequence_[Ps[v]] == v', fix=[('v', '0', m('NC'))], when='Ls[v] and Cm[v] == _n', trig='Ls[v]',
            given=['Cmp[v] == Kc-1-_n', 'St[Cmp[v]] <= Pos[v] and Pos[v] < St[Cmp[v]+1] and Ve[Pos[v]] == v', 'Sr[_n] == St[Kc] - St[Kc-_n]', 'Sr[_n+1] == St[Kc] - St[Kc-_n-1]', 'Ps[v] == Sr[_n] + Pos[v] - St[Cmp[v]]',
                   'Sr[_n] <= Ps[v] and Ps[v] < Sr[_n+1]', 'Vr[Ps[v]] == Ve[St[Kc-1-_n] + Ps[v] - Sr[_n]]', 'sequence_[Ps[v]] == Vr[Ps[v]]'])]


def EXEXIT(u):
    """The order restated along the reverse graph; a cell on no cycle is alone in its component."""
    two = ['Ve[St[Cmp[x]]] == Ve[St[Cmp[x]]]', 'Ve[St[Cmp[x]]+1] == Ve[St[Cmp[x]]+1]', 'compuniq(St, Kc, Cmp[x], Cmp[Ve[St[Cmp[x]]]], St[Cmp[x]])', 'compuniq(St, Kc, Cmp[x], Cmp[Ve[St[Cmp[x]]+1]], St[Cmp[x]]+1)']
    return [By('up', m('Ls[c] and Cm[HJ[k]] <= Cm[c]'), fix=[('c', '0', m('NC')), ('k', None, None)], when=m('HI[c] <= k and k < HI[c+1] and Ls[HJ[k]]'), trig=m('HI[c], HJ[k]'),
               uses=[m('edge(HI, HJ, c, HJ[k]) == edge(HI, HJ, c, HJ[k])'), m('edge(GI, GJ, HJ[k], c) == edge(GI, GJ, HJ[k], c)'), m('HI[c+1] == HI[c+1]'), m('HI[NC] == HI[NC]'), 'Ls[c] == Ls[c]'], props='C15 C17 C18'),
            By('alone', 'St[Cmp[x]+1] == St[Cmp[x]] + 1', when='nocycle(A, x) and Ls[x]', uses=['A == A', 'store(A, x, True) == store(A, x, True)'] + two, props='C15 C18')] + ([
            By('all-alone', 'St[Cmp[c]+1] == St[Cmp[c]] + 1', fix=[('c', '0', m('NC'))], when=m('ranked(HI, HJ, NC, Rk) and Ls[c]'), trig='Ls[c]',
               uses=[m('above_closed(GI, GJ, HI, HJ, NC, Rk, c)'), 'above(Rk, c) == above(Rk, c)', 'store(above(Rk, c), c, True) == store(above(Rk, c), c, True)'] + [t.replace('[x]', '[c]') for t in two], props='C18')] if u else [])


REACHED = m('implies(closed(Q, NC, GI, GJ) and all(implies(c in startset, Q[c]) for c in ints if trig(c in startset)), all(implies(Ls[c], Q[c]) for c in range(NC) if trig(Ls[c])))')
IDLE = [('idle', m('len(LOC) == NC and all(LOC[c] == 0 for c in range(NC) if trig(LOC[c]))'))]
# where a solve starts: nothing left from earlier solves, driven by exactly the sources Lv
RESET = [('reset', m('all(T[c] == 0 for c in range(NC) if trig(T[c])) and all(F[c] == 0 for c in range(NC) if trig(F[c]))'), 'C13'),
         ('driven', m('len(LOC) == NC and len(ST) == NC and all(LOC[c] == Lv[c] and iff(ST[c] != 0, Lv[c] > 0) for c in range(NC) if trig(LOC[c]) if trig(ST[c]))'), 'C13')]
INPUT = m('arr(GI), arr(GJ), arr(GS), arr(HI), arr(HJ), arr(HS), arr(pv_), NC, arr(SRC)')
WHY = 'sequential code without static state is deterministic: what a solve returns is a function of the state it reads (graphs, pore volumes, sources; shown reset in everything else)'
STATE = ['Lv', 'is_start_', 'tof_', 'tracer_', 'sequence_', 'component_starts_', 'num_multicell_', 'max_size_multicell_', 'max_iter_multicell_', 'Ls', 'Ps', 'Cm', 'Raw']
GH = {'Ls': 'barr', 'Ps': 'iarr', 'Cm': 'iarr'}

def TBAL(t, when):
    return m('all(implies(Ls[c] and %s and single(c), tbal(%s, c)) for c in range(NC) if trig(Ls[c]))' % (when, t))


def FBAL(f, t, when):
    return m('all(implies(Ls[c] and %s and single(c), fbal(%s, %s, c)) for c in range(NC) if trig(Ls[c]))' % (when, f, t))


def FED(when):
    return m('all(implies(Ls[c] and %s and HI[c] <= k and k < HI[c+1] and T[HJ[k]] > 0, T[c] > 0) for c in range(NC) for k in ints if trig(Ls[c], HJ[k]))' % when)


def WET(when):
    return m('all(implies(Ls[c] and %s and ST[c] != 0 and LOC[c] > 0, T[c] > 0) for c in range(NC) if trig(Ls[c]))' % when)


CONTRACTS = [
    C(TS + 'solveSingleCell', ['cell'], logic={'R': 'barr'}, requires=SHAPE + STARTS + FIELDS + DRY0 + DRY + [('cell', m('0 <= cell and cell < NC'))],
      modifies=['data(tof_)', 'data(tracer_)'],
      ensures=[('tracer', m('T[cell] * flow(cell) == up(old(T), cell) + own(cell)'), 'C15 C18'),
               ('isolated', m('implies(flow(cell) == 0, T[cell] == 0)'), 'C15'),
               ('tof', m('F[cell] * T[cell] * flow(cell) == pv_[cell] * T[cell] + upv(old(F), old(T), cell) if T[cell] > 0 and flow(cell) >= pv_[cell] / %s else F[cell] == %s' % (CAP, CAP)), 'C15'),
               ('others', m('all(implies(c != cell, T[c] == old(T)[c]) for c in ints if trig(T[c])) and all(implies(c != cell, F[c] == old(F)[c]) for c in ints if trig(F[c]))')),
               ('fed', m('all(implies(old(T)[HJ[k]] > 0, T[cell] > 0) for k in range(HI[cell], HI[cell+1]) if trig(HJ[k]))'), 'C17'),
               ('wet', m('implies(ST[cell] != 0 and LOC[cell] > 0, T[cell] > 0)'), 'C17'),
               ('cap', m('implies(not R[cell], F[cell] == %s)' % CAP), 'C16')] + FIELDS + DRY,
      loops=[Loop(inv=[m('upwind_tof_contrib == vsum(HJ, HS, F, T, HI[cell], HI[cell] + _n)'), m('upwind_tracer_contrib == usum(HJ, HS, T, HI[cell], HI[cell] + _n)'), m('HI[cell] + _n <= HI[cell+1]')],
                  exit=[m('usum_nonneg(HJ, HS, T, HI[cell], HI[cell+1])'), m('usum_le(HJ, HS, T, HI[cell], HI[cell+1])'), m('vsum_nonneg(HJ, HS, F, T, HI[cell], HI[cell+1])'),
                        m('srsum_nonneg(HS, HI[cell], HI[cell+1])'), m('frac(up(T, cell) + own(cell), flow(cell))'), m('prod_pos(flow(cell), (up(T, cell) + own(cell)) / flow(cell))'),
                        ('dry', m('usum_zero(HJ, HS, T, HI[cell], HI[cell+1])'), 'C16'),
                        ('fed', m('all(usum_pos(HJ, HS, T, HI[cell], HI[cell+1], k) for k in range(HI[cell], HI[cell+1]) if trig(HJ[k]))'), 'C17')])],
      props=ALL, elsewhere=REST),
    C(TS + 'solveMultiCell', ['num', 'cells'], logic={'R': 'barr', 'lo': 'int'}, inst={'lo': 'off(cells)'}, requires=SHAPE + STARTS + FIELDS + DRY0 + DRY + [
          ('count', 'num_multicell_ < %s' % NMAX),
          ('cells', m('0 <= num and 0 <= lo and lo + num <= len(cells) and all(0 <= arr(cells)[j] and arr(cells)[j] < NC for j in range(lo, lo + num) if trig(arr(cells)[j]))'))],
      modifies=['data(tof_)', 'data(tracer_)', 'num_multicell_', 'max_size_multicell_', 'max_iter_multicell_'],
      ensures=[('count', 'num_multicell_ == old(num_multicell_) + 1'), ('others', m('all(T[c] == old(T)[c] or any(arr(cells)[j] == c for j in range(lo, lo + num)) for c in range(NC) if trig(T[c])) and all(F[c] == old(F)[c] or any(arr(cells)[j] == c for j in range(lo, lo + num)) for c in range(NC) if trig(F[c]))')),
               ('fed', m('all(implies(HI[arr(cells)[j]] <= k and k < HI[arr(cells)[j]+1] and T[HJ[k]] > 0, T[arr(cells)[j]] > 0) for j in range(lo, lo + num) for k in ints if trig(arr(cells)[j], HJ[k]))'), 'C17'),
               ('wet', m('all(implies(ST[arr(cells)[j]] != 0 and LOC[arr(cells)[j]] > 0, T[arr(cells)[j]] > 0) for j in range(lo, lo + num) if trig(arr(cells)[j]))'), 'C17'),
               ('cap', m('all(implies(not R[arr(cells)[j]], F[arr(cells)[j]] == %s) for j in range(lo, lo + num) if trig(arr(cells)[j]))' % CAP), 'C16')] + FIELDS + DRY,
      loops=[Loop(trust=[('num_iter < ' + NMAX, 'the Gauss-Seidel iteration of solveMultiCell takes fewer than 2^31 sweeps')], diverges='the Gauss-Seidel iteration of solveMultiCell takes fewer than 2^31 sweeps', inv=FIELDS + DRY + [
                  ('others', m('all(T[c] == old(T)[c] or any(arr(cells)[j] == c for j in range(lo, lo + num)) for c in range(NC) if trig(T[c])) and all(F[c] == old(F)[c] or any(arr(cells)[j] == c for j in range(lo, lo + num)) for c in range(NC) if trig(F[c]))')),
                  ('first', 'implies(_n == 0, max_tof_delta == 1e100)'),
                  ('fed', m('all(implies(_n > 0 and max_tracer_delta < 1 and HI[arr(cells)[j]] <= k and k < HI[arr(cells)[j]+1] and T[HJ[k]] > 0, T[arr(cells)[j]] > 0) for j in range(lo, lo + num) for k in ints if trig(arr(cells)[j], HJ[k]))'), 'C17'),
                  ('wet', m('all(implies(_n > 0 and max_tracer_delta < 1 and ST[arr(cells)[j]] != 0 and LOC[arr(cells)[j]] > 0, T[arr(cells)[j]] > 0) for j in range(lo, lo + num) if trig(arr(cells)[j]))'), 'C17'),
                  ('cap', m('all(implies(_n > 0 and not R[arr(cells)[j]], F[arr(cells)[j]] == %s) for j in range(lo, lo + num) if trig(arr(cells)[j]))' % CAP), 'C16')]),
             Loop(inv=FIELDS + DRY + [
                  ('others', m('all(T[c] == old(T)[c] or any(arr(cells)[j] == c for j in range(lo, lo + num)) for c in range(NC) if trig(T[c])) and all(F[c] == old(F)[c] or any(arr(cells)[j] == c for j in range(lo, lo + num)) for c in range(NC) if trig(F[c]))')),
                  ('steady', m('all(implies(max_tracer_delta < 1, iff(T[c] > 0, pre(T)[c] > 0)) for c in range(NC) if trig(T[c]))'), 'C17'),
                  ('fed', m('all(implies(max_tracer_delta < 1 and HI[arr(cells)[j]] <= k and k < HI[arr(cells)[j]+1] and T[HJ[k]] > 0, T[arr(cells)[j]] > 0) for j in range(lo, lo + _n) for k in ints if trig(arr(cells)[j], HJ[k]))'), 'C17'),
                  ('wet', m('all(implies(max_tracer_delta < 1 and ST[arr(cells)[j]] != 0 and LOC[arr(cells)[j]] > 0, T[arr(cells)[j]] > 0) for j in range(lo, lo + _n) if trig(arr(cells)[j]))'), 'C17'),
                  ('cap', m('all(implies(not R[arr(cells)[j]], F[arr(cells)[j]] == %s) for j in range(lo, lo + _n) if trig(arr(cells)[j]))' % CAP), 'C16')])],
      props=ALL, elsewhere=REST),
    C(TS + 'solve', [], logic={'R': 'barr'}, ghost=dict(GH, Raw='rarr', Lv='rarr'), requires=RESET + SHAPE + NOSELF + STARTS + FIELDS + DRY0 + DRY + ORDER + [('count', 'num_multicell_ == 0')],
      modifies=['data(tof_)', 'data(tracer_)', 'num_multicell_', 'max_size_multicell_', 'max_iter_multicell_', 'Raw'],
      ensures=[('cut', m('all(F[c] == min(Raw[c], %s) for c in range(NC) if trig(F[c]))' % CAP)), ('untouched', m('all(implies(not Ls[c], T[c] == old(T)[c] and Raw[c] == old(F)[c]) for c in range(NC) if trig(Ls[c]))')),
               ('tracer', TBAL('T', 'True'), 'C15 C18'), ('tof', FBAL('Raw', 'T', 'True'), 'C15'), ('fed', FED('True'), 'C17'), ('wet', WET('True'), 'C17'),
               ('cap', m('all(implies(not R[c] and Ls[c], F[c] == %s) for c in range(NC) if trig(F[c]))' % CAP), 'C16')] + FIELDS,
      loops=[Loop(decreases='len(component_starts_) - 1 - _n', inv=FIELDS + DRY + [
                  ('range', '_n <= len(component_starts_) - 1 and num_multicell_ <= _n'),
                  ('todo', m('all(T[c] == old(T)[c] or (Ls[c] and Cm[c] < _n) for c in range(NC) if trig(T[c])) and all(F[c] == old(F)[c] or (Ls[c] and Cm[c] < _n) for c in range(NC) if trig(F[c]))')),
                  ('tracer', TBAL('T', 'Cm[c] < _n'), 'C15 C18'), ('tof', FBAL('F', 'T', 'Cm[c] < _n'), 'C15'), ('fed', FED('Cm[c] < _n'), 'C17'), ('wet', WET('Cm[c] < _n'), 'C17'),
                  ('cap', m('all(implies(not R[c] and Ls[c] and Cm[c] < _n, F[c] == %s) for c in range(NC) if trig(F[c]))' % CAP), 'C16')],
                  begin=[By('comp', 'Ls[sequence_[p]] and Cm[sequence_[p]] == _n', fix=[('p', 'component_starts_[_n]', 'component_starts_[_n+1]')], when='_n < len(component_starts_) - 1', trig='sequence_[p]',
                            uses=['compuniq(component_starts_, len(component_starts_)-1, _n, Cm[sequence_[p]], p)'])],
                  end=[By('mine', 'component_starts_[_n] <= Ps[c] and Ps[c] < component_starts_[_n+1] and sequence_[Ps[c]] == c', fix=[('c', '0', m('NC'))], when='Ls[c] and Cm[c] == _n', trig='Ls[c]'),
                       By('same', m('T[HJ[k]] == start(T)[HJ[k]] and F[HJ[k]] == start(F)[HJ[k]]'), fix=[('c', '0', m('NC')), ('k', None, None)], when=m('Ls[c] and (Cm[c] < _n or (Cm[c] == _n and single(c))) and HI[c] <= k and k < HI[c+1]'), trig=m('Ls[c], HJ[k]'), props='C15 C18'),
                       By('bal', m('tbal(T, c)'), fix=[('c', '0', m('NC'))], when='Ls[c] and Cm[c] <= _n and single(c)', trig='Ls[c]', uses=[m('usum_ext(HJ, HS, start(T), HI[c], HI[c+1], T)')], props='C15 C18'),
                       By('bal2', m('fbal(F, T, c)'), fix=[('c', '0', m('NC'))], when='Ls[c] and Cm[c] <= _n and single(c)', trig='Ls[c]', uses=[m('vsum_ext(HJ, HS, start(F), start(T), HI[c], HI[c+1], F, T)')], props='C15')]),
             Loop(ginit=[('Raw', 'arr(tof_)')], inv=[m('all(F[c] == min(Raw[c], %s) for c in range(_n) if trig(F[c]))' % CAP), m('all(F[c] == Raw[c] for c in range(_n, NC) if trig(F[c]))')])],
      props=ALL, elsewhere=REST),

    C(TS + 'InOutFluxComputer::InOutFluxComputer', ['graph'], logic={'n': 'int'}, inst={'n': 'len(graph.csr_.ia_) - 1'},
      requires=[('shape', 'n >= 0 and n <= %s and csr_shape(graph.csr_.ia_, n, len(graph.csr_.ja_)) and len(graph.csr_.sa_) == len(graph.csr_.ja_) and all(0 <= graph.csr_.ja_[p] and graph.csr_.ja_[p] < n for p in range(len(graph.csr_.ja_)) if trig(graph.csr_.ja_[p]))' % NMAX)],
      ensures=[('influx', 'len(influx) == n and all(influx[c] == colsum(graph.csr_.ja_, graph.csr_.sa_, c, len(graph.csr_.ja_)) for c in range(n) if trig(influx[c]))')],
      loops=[Loop(inv=['len(influx) == n and len(outflux) == n', 'all(influx[c] == colsum(graph.csr_.ja_, graph.csr_.sa_, c, graph.csr_.ia_[_n]) for c in range(n) if trig(influx[c]))']),
             Loop(inv=['len(influx) == n and len(outflux) == n', 'graph.csr_.ia_[cell] + _n <= graph.csr_.ia_[cell+1]',
                       'all(influx[c] == colsum(graph.csr_.ja_, graph.csr_.sa_, c, graph.csr_.ia_[cell] + _n) for c in range(n) if trig(influx[c]))'])], props=ALL, elsewhere=REST),
    C(FD + 'expandSparse', ['n', 'v'], requires=['0 <= n', 'all(implies(c in v, 0 <= c and c < n) for c in ints if trig(c in v))'],
      ensures=['len(result) == n', 'all(result[c] == (v[c] if c in v else 0) for c in range(n) if trig(result[c]))'],
      loops=[Loop(inv=['len(r) == n', 'all(r[c] == (v[c] if c in v and mrank(v, c) < _n else 0) for c in range(n) if trig(r[c]))'])], props=ALL, elsewhere=REST),
    C(TS + 'prepareForSolve', [], requires=[('n', m('NC < ' + NMAX))], modifies=['is_start_', 'tof_', 'tracer_', 'num_multicell_', 'max_size_multicell_', 'max_iter_multicell_'],
      ensures=[('sizes', m('len(ST) == NC and len(T) == NC and len(F) == NC')), ('zero', m('all(ST[c] == 0 for c in range(NC) if trig(ST[c])) and all(T[c] == 0 for c in range(NC) if trig(T[c])) and all(F[c] == 0 for c in range(NC) if trig(F[c]))')),
               ('count', 'num_multicell_ == 0')], props=ALL, elsewhere=REST),
    C(TS + 'setupStartArray', ['startset'], requires=[m('len(ST) == NC'), m(KEYS)], modifies=['data(is_start_)'],
      ensures=[m('all(ST[c] == (1 if c in startset else old(ST)[c]) for c in range(NC) if trig(ST[c]))')],
      loops=[Loop(inv=[m('all(ST[c] == (1 if c in startset and mrank(startset, c) < _n else old(ST)[c]) for c in range(NC) if trig(ST[c]))')])], props=ALL, elsewhere=REST),
    C(TS + 'setupStartArrayFromSource', [], requires=[m('NC <= %s and len(ST) == NC and len(SRC) == NC' % NMAX)], modifies=['data(is_start_)'],
      ensures=[m('all(ST[c] == (1 if SRC[c] > 0 else old(ST)[c]) for c in range(NC) if trig(ST[c]))')],
      loops=[Loop(inv=[m('all(ST[c] == (1 if SRC[c] > 0 and c < _n else old(ST)[c]) for c in range(NC) if trig(ST[c]))')])], props=ALL, elsewhere=REST),
    C(TS + 'setupLocalSource', ['startset'], requires=[m('len(LOC) == NC and all(LOC[c] == 0 for c in range(NC) if trig(LOC[c]))'), m(KEYS), 'all(implies(c in startset, startset[c] >= 0) for c in ints if trig(c in startset))'], modifies=['data(local_source_term_)'],
      ensures=[m('all(LOC[c] == (startset[c] if c in startset else old(LOC)[c]) for c in range(NC) if trig(LOC[c]))')],
      loops=[Loop(inv=[m('all(LOC[c] == (startset[c] if c in startset and mrank(startset, c) < _n else old(LOC)[c]) for c in range(NC) if trig(LOC[c]))')])], props=ALL, elsewhere=REST),
    C(TS + 'cleanupLocalSource', ['startset'], requires=[m('len(LOC) == NC'), m(KEYS)], modifies=['data(local_source_term_)'],
      ensures=[m('all(LOC[c] == (0 if c in startset else old(LOC)[c]) for c in range(NC) if trig(LOC[c]))')],
      loops=[Loop(inv=[m('all(LOC[c] == (0 if c in startset and mrank(startset, c) < _n else old(LOC)[c]) for c in range(NC) if trig(LOC[c]))')])], props=ALL, elsewhere=REST),

    C(TS + 'computeOrdering', [], ghost=GH, glocal={'Pos': 'iarr', 'Cmp': 'iarr'}, logic={'A': 'barr', 'x': 'int'}, forall=['A', 'x'],
      requires=[c for c in SHAPE if c[0] in ('n', 'graph', 'reverse')] + MIRROR, modifies=['sequence_', 'component_starts_', 'Ls', 'Ps', 'Cm'],
      ensures=ORDER + [('every', m('all(Ls[c] for c in range(NC) if trig(Ls[c]))')), ('acyclic', 'implies(nocycle(A, x), single(x))', 'C15')],
      loops=[Loop(ginit=[('Ls', 'v', 'True'), ('Cm', 'v', 'Kc - 1 - Cmp[v]'), ('Ps', 'v', 'St[Kc] - St[Cmp[v]+1] + Pos[v] - St[Cmp[v]]')], inv=EXTRACT,
                  begin=EXBEGIN, end=EXEND)], exit=EXEXIT(0),
      props=ALL, elsewhere=REST),

    C(TS + 'computeLocalOrdering', ['startset'], ghost=GH, glocal={'Pos': 'iarr', 'Cmp': 'iarr'}, logic={'A': 'barr', 'x': 'int', 'Q': 'barr', 'Rk': 'iarr'}, forall=['A', 'x', 'Q', 'Rk'],
      requires=[c for c in SHAPE if c[0] in ('n', 'graph', 'reverse')] + MIRROR + [('keys', m(KEYS))], modifies=['sequence_', 'component_starts_', 'Ls', 'Ps', 'Cm'],
      ensures=ORDER + [('trimmed', 'len(sequence_) == component_starts_[len(component_starts_) - 1]'), ('starts', 'all(implies(c in startset, Ls[c]) for c in ints if trig(c in startset))'),
                       ('forward', m('all(implies(Ls[u] and GI[u] <= e and e < GI[u+1], Ls[GJ[e]]) for u in range(NC) for e in ints if trig(Ls[u], GJ[e]))'), 'C17'),
                       ('reached', REACHED, 'C17 C18'),
                       ('acyclic', 'implies(nocycle(A, x) and Ls[x], single(x))', 'C15 C18'),
                       ('all-acyclic', m('implies(ranked(HI, HJ, NC, Rk), all(implies(Ls[c], single(c)) for c in range(NC) if trig(Ls[c])))'), 'C18')],
      loops=[Loop(inv=['len(startcells) == _n and _n <= msize(startset)', 'all(startcells[k] == mkey(startset, k) for k in range(_n) if trig(startcells[k]))',
                       'all(implies(c in startset and mrank(startset, c) < _n, startcells[mrank(startset, c)] == c) for c in ints if trig(c in startset))']),
             Loop(ginit=[('Ls', 'v', 'Sx[v] == -2'), ('Cm', 'v', 'Kc - 1 - Cmp[v]'), ('Ps', 'v', 'St[Kc] - St[Cmp[v]+1] + Pos[v] - St[Cmp[v]]')], inv=EXTRACT, begin=EXBEGIN, end=EXEND)], exit=EXEXIT(1) + [('any', 'Q == Q', 'C17 C18')],
      props=ALL, elsewhere=REST),

    C(TS + 'solveGlobal', [], ghost=dict(GH, Raw='rarr', Lv='rarr'), gentry=[('Lv', 'arr(source_term_)')], trust=[(m('all(result[c] == gtof(%s)[c] for c in range(NC) if trig(result[c]))' % INPUT), WHY)], logic={'R': 'barr', 'A': 'barr', 'x': 'int'}, forall=['A', 'x', 'R'],
      requires=SHAPE + NOSELF + MIRROR + IDLE + [DRY0[0], ('fedin', m('all(implies(not R[c], SRC[c] == 0) for c in range(NC) if trig(R[c]))'), 'C16')],
      modifies=STATE + ['data(local_source_term_)'],
      ensures=[('size', m('len(result) == NC')), ('bounds', m('all(0 <= result[c] and result[c] <= %s for c in range(NC) if trig(result[c]))' % CAP), 'C16'),
               ('dry', m('all(implies(not R[c], result[c] == %s) for c in range(NC) if trig(result[c]))' % CAP), 'C16'),
               ('tracer', m('implies(nocycle(A, x), tbalance(T, x, SRC[x]))'), 'C15'),
               ('tof', m('implies(nocycle(A, x), result[x] == min(Raw[x], %s) and fbalance(Raw, T, x))' % CAP), 'C15')] + IDLE,
      exit=[m('Ls[x] == Ls[x]')],
      props=ALL, elsewhere=REST),
    C(TS + 'solveLocal', ['startset'], ghost=dict(GH, Raw='rarr', Lv='rarr'), gentry=[('Lv', 'c', '(startset[c] if c in startset else 0)'), ('Qf', 'c', 'flow(c) > 0')],
      trust=[('all(iff(c in result.tof, lset(%s, dom(startset), val(startset))[c]) and implies(c in result.tof, result.tof[c] == ltof(%s, dom(startset), val(startset))[c]) for c in ints if trig(c in result.tof))' % (INPUT, INPUT), WHY),
             ('all(iff(c in result.concentration, lset(%s, dom(startset), val(startset))[c]) and implies(c in result.concentration, result.concentration[c] == lconc(%s, dom(startset), val(startset))[c]) for c in ints if trig(c in result.concentration))' % (INPUT, INPUT), WHY)], glocal={'P': 'barr', 'Qf': 'barr'}, logic={'R': 'barr', 'A': 'barr', 'x': 'int', 'Q': 'barr', 'Rk': 'iarr'}, forall=['A', 'x', 'R', 'Q', 'Rk'], nothrow='C17',
      requires=SHAPE + NOSELF + MIRROR + IDLE + [DRY0[0], ('fedin', 'all(implies(c in startset, R[c]) for c in ints if trig(c in startset))', 'C16'), ('keys', m(KEYS)),
                ('rates', m('all(implies(c in startset, 0 < startset[c] and startset[c] <= SRC[c]) for c in ints if trig(c in startset))'))],
      modifies=STATE + ['data(local_source_term_)'],
      ensures=[('domain', 'all(iff(c in result.tof, c in result.concentration) for c in ints if trig(c in result.tof))', 'C15 C16 C17 C18'),
               ('starts', 'all(implies(c in startset, c in result.concentration) for c in ints if trig(c in startset))', 'C17'),
               ('forward', m('all(implies(u in result.concentration and GI[u] <= e and e < GI[u+1], GJ[e] in result.concentration) for u in range(NC) for e in ints if trig(u in result.concentration, GJ[e]))'), 'C17'),
               ('reached', m('implies(closed(Q, NC, GI, GJ) and all(implies(c in startset, Q[c]) for c in ints if trig(c in startset)), all(implies(c in result.concentration, Q[c]) for c in ints if trig(c in result.concentration)))'), 'C17 C18'),
               ('range', m('all(implies(c in result.concentration, 0 < result.concentration[c] and result.concentration[c] <= 1 and 0 <= c and c < NC) for c in ints if trig(c in result.concentration))'), 'C17'),
               ('bounds', 'all(implies(c in result.tof, 0 <= result.tof[c] and result.tof[c] <= %s) for c in ints if trig(c in result.tof))' % CAP, 'C16'),
               ('field', m('all(T[c] == (result.concentration[c] if c in result.concentration else 0) for c in range(NC) if trig(T[c]))'), 'C15 C18'),
               ('tracer', m('implies(nocycle(A, x), tbalance(T, x, (startset[x] if x in startset else 0)))'), 'C15 C18'),
               ('everywhere', m('implies(ranked(HI, HJ, NC, Rk), all(tbalance(T, c, (startset[c] if c in startset else 0)) for c in range(NC) if trig(T[c])))'), 'C18'),
               ('inflowing', m('all(implies(c in result.concentration, 0 <= c and c < NC and flow(c) > 0) for c in ints if trig(c in result.concentration))'), 'C18'),
               ('tof', m('implies(nocycle(A, x) and x in result.tof, result.tof[x] == min(Raw[x], %s) and fbalance(Raw, T, x))' % CAP), 'C15')] + IDLE,
      loops=[Loop(ginit=[('P', 'c', m('T[c] > 0'))],
                  init=[By('swept', m('P[GJ[e]]'), fix=[('u', '0', m('NC')), ('e', None, None)], when=m('P[u] and GI[u] <= e and e < GI[u+1]'), trig=m('P[u], GJ[e]'),
                           uses=[m('edge(GI, GJ, u, GJ[e]) == edge(GI, GJ, u, GJ[e])'), m('edge(HI, HJ, GJ[e], u) == edge(HI, HJ, GJ[e], u)'), 'Ls[u] == Ls[u]', m('Ls[GJ[e]] == Ls[GJ[e]]'), m('GI[u+1] == GI[u+1]'), m('GI[NC] == GI[NC]')], props='C17'),
                        ('P', 'P == P', 'C17')],
                  inv=[('range', '_n <= component_starts_[len(component_starts_)-1]'),
                       ('tof', m('all(iff(c in local_tof, 0 <= c and c < NC and Ls[c] and Ps[c] < _n) for c in ints if trig(c in local_tof)) and all(implies(c in local_tof, local_tof[c] == F[c]) for c in ints if trig(c in local_tof))')),
                       ('conc', m('all(iff(c in local_tracer, 0 <= c and c < NC and Ls[c] and Ps[c] < _n) for c in ints if trig(c in local_tracer)) and all(implies(c in local_tracer, local_tracer[c] == T[c]) for c in ints if trig(c in local_tracer))'))])],
      exit=[m('Ls[x] == Ls[x]'), By('outside', m('up(T, x) == 0'), when=m('0 <= x and x < NC and not Ls[x]'), uses=[m('usum_zero(HJ, HS, T, HI[x], HI[x+1])')], props='C15 C18'),
            By('all-outside', m('up(T, c) == 0'), fix=[('c', '0', m('NC'))], when='not Ls[c]', trig='Ls[c]', uses=[m('usum_zero(HJ, HS, T, HI[c], HI[c+1])')], props='C18'),
            By('onward', m('Qf[GJ[e]]'), fix=[('u', '0', m('NC')), ('e', None, None)], when=m('GI[u] <= e and e < GI[u+1]'), trig=m('GI[u], GJ[e]'),
               uses=[m('edge(GI, GJ, u, GJ[e]) == edge(GI, GJ, u, GJ[e])'), m('edge(HI, HJ, GJ[e], u) == edge(HI, HJ, GJ[e], u)'), m('GI[u+1] == GI[u+1]'), m('GI[NC] == GI[NC]'), m('HI[GJ[e]+1] == HI[GJ[e]+1]'), m('HI[NC] == HI[NC]'), m('influx_[GJ[e]] == influx_[GJ[e]]'), m('SRC[GJ[e]] == SRC[GJ[e]]'),
                     m('all(srsum_pos(HS, HI[GJ[e]], HI[GJ[e]+1], k) for k in range(HI[GJ[e]], HI[GJ[e]+1]) if trig(HJ[k]))')], props='C18'),
            By('fed-starts', 'Qf[c]', fix=[('c', None, None)], when='c in startset', trig='c in startset', uses=[m('srsum_nonneg(HS, HI[c], HI[c+1])'), m('HI[NC] == HI[NC]'), m('HI[c+1] == HI[c+1]'), m('influx_[c] == influx_[c]')], props='C18'),
            ('Qf', 'Qf == Qf', 'C18')],
      props=ALL, elsewhere=REST),
]
