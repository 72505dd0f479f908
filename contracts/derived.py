"""DerivedQuantities.cpp: F-Phi curve, Lorenz coefficient, sweep efficiency, well pairs."""
from vc.core import Contract as C, Loop, By
from .base import FD


def setup(L):
    # trapezoid area under (x, y) over the first n intervals
    L.fn('trap', [('x', 'rarr'), ('y', 'rarr'), ('n', 'int')], 'real',
         '0 if n <= 0 else trap(x, y, n-1) + (y[n-1] + y[n]) * (x[n] - x[n-1]) / 2')
    # number of intervals among the first n on which y changes
    L.fn('nchg', [('y', 'rarr'), ('n', 'int')], 'int',
         '0 if n <= 0 else nchg(y, n-1) + (1 if y[n] != y[n-1] else 0)')
    # trapezoid lower bound: y >= x pointwise, x non-decreasing: area >= (x_n^2 - x_0^2)/2
    L.lemma('trap_lower', [('x', 'rarr'), ('y', 'rarr'), ('n', 'int')],
            ['n >= 0', 'all(x[k] <= x[k+1] for k in range(n))', 'all(y[k] >= x[k] for k in range(n+1))'],
            '2 * trap(x, y, n) >= x[n]*x[n] - x[0]*x[0]', induct='n')
    # upper bound: y <= 1, x non-decreasing: area <= x_n - x_0
    L.lemma('trap_upper', [('x', 'rarr'), ('y', 'rarr'), ('n', 'int')],
            ['n >= 0', 'all(x[k] <= x[k+1] for k in range(n))', 'all(y[k] <= 1 for k in range(n+1))'],
            'trap(x, y, n) <= x[n] - x[0]', induct='n')
    L.lemma('mono_last', [('y', 'rarr'), ('n', 'int'), ('k', 'int')],
            ['0 <= k', 'k <= n', 'all(y[i] <= y[i+1] for i in range(n))'], 'y[k] <= y[n]', induct='n', base='k')
    L.lemma('nchg_bounds', [('y', 'rarr'), ('n', 'int')], ['n >= 0'], '0 <= nchg(y, n) and nchg(y, n) <= n', induct='n')
    # sum over the cells of a map
    L.fn('pairvol', [('pv', 'rarr'), ('a', 'rarr'), ('b', 'rarr'), ('bd', 'barr'), ('ad', 'barr'), ('n', 'int')], 'real',
         '0 if n <= 0 else pairvol(pv, a, b, bd, ad, n-1) + '
         '(pv[mkey(ad, n-1)] * a[mkey(ad, n-1)] * b[mkey(ad, n-1)] if mkey(ad, n-1) in bd else 0)')
    L.fn('pairflx', [('td', 'barr'), ('t', 'rarr'), ('qd', 'barr'), ('q', 'rarr'), ('pos', 'bool'), ('n', 'int')], 'real',
         '0 if n <= 0 else pairflx(td, t, qd, q, pos, n-1) + '
         '(q[mkey(qd, n-1)] * t[mkey(qd, n-1)] if mkey(qd, n-1) in td and iff(q[mkey(qd, n-1)] > 0, pos) else 0)')
    L.lemma('pairflx_pos', [('td', 'barr'), ('t', 'rarr'), ('qd', 'barr'), ('q', 'rarr'), ('n', 'int')],
            ['all(implies(c in td, t[c] >= 0) for c in ints if trig(td[c]))'],
            'pairflx(td, t, qd, q, True, n) >= 0', induct='n')
    L.lemma('pairflx_neg', [('td', 'barr'), ('t', 'rarr'), ('qd', 'barr'), ('q', 'rarr'), ('n', 'int')],
            ['all(implies(c in td, t[c] >= 0) for c in ints if trig(td[c]))'],
            'pairflx(td, t, qd, q, False, n) <= 0', induct='n')
    # the weighted sum does not depend on which of the two tracers is enumerated: it is the sum
    # over the intersection (see DESIGN.md); here: exchanging concentrations in a common enumeration
    #
    # ---- F-Phi curve
    L.lemma('rsum_nonneg', [('a', 'rarr'), ('lo', 'int'), ('hi', 'int')],
            ['all(a[k] >= 0 for k in range(lo, hi))'], 'rsum(a, lo, hi) >= 0', induct='hi', base='lo')
    L.lemma('rsum_ext', [('a', 'rarr'), ('b', 'rarr'), ('lo', 'int'), ('hi', 'int')],
            ['all(a[k] == b[k] for k in range(lo, hi))'], 'rsum(a, lo, hi) == rsum(b, lo, hi)', induct='hi', base='lo')
    L.lemma('rsum_split', [('a', 'rarr'), ('lo', 'int'), ('mid', 'int'), ('hi', 'int')],
            ['lo <= mid', 'mid <= hi'], 'rsum(a, lo, hi) == rsum(a, lo, mid) + rsum(a, mid, hi)', induct='hi', base='mid')
    L.lemma('rsum_pos', [('a', 'rarr'), ('lo', 'int'), ('hi', 'int'), ('i', 'int')],
            ['all(a[k] >= 0 for k in range(lo, hi) if trig(a[k]))', 'lo <= i', 'i < hi', 'a[i] > 0'], 'rsum(a, lo, hi) > 0',
            induct='hi', base='i', uses=['rsum_nonneg(a, lo, hi-1)'])
    L.lemma('div_nonneg', [('a', 'real'), ('b', 'real')], ['a >= 0', 'b > 0'], 'a / b >= 0')
    L.lemma('div_pos', [('a', 'real'), ('b', 'real')], ['a > 0', 'b > 0'], 'a / b > 0')
    L.lemma('ratio_le', [('p', 'real'), ('t', 'real'), ('u', 'real')], ['p >= 0', 't > 0', 't <= u'], 'p <= u * (p / t)')
    L.lemma('ratio_ge', [('p', 'real'), ('t', 'real'), ('u', 'real')], ['p >= 0', 't > 0', 't >= u'], 'p >= u * (p / t)')
    L.lemma('propor', [('a', 'real'), ('b', 'real'), ('t', 'real')], ['t > 0'], '(a / t) * b == (b / t) * a')
    L.lemma('cheb1', [('s', 'rarr'), ('g', 'rarr'), ('tau', 'real'), ('lo', 'int'), ('hi', 'int')],
            ['all(s[k] <= tau * g[k] for k in range(lo, hi) if trig(s[k]))'], 'rsum(s, lo, hi) <= tau * rsum(g, lo, hi)', induct='hi', base='lo')
    L.lemma('cheb2', [('s', 'rarr'), ('g', 'rarr'), ('tau', 'real'), ('lo', 'int'), ('hi', 'int')],
            ['all(s[k] >= tau * g[k] for k in range(lo, hi) if trig(s[k]))'], 'rsum(s, lo, hi) >= tau * rsum(g, lo, hi)', induct='hi', base='lo')
    # head (sk, gk) and tail (st, gt) of the two sums: the head is over-represented in g
    L.lemma('cheb', [('sk', 'real'), ('gk', 'real'), ('st', 'real'), ('gt', 'real'), ('tau', 'real')],
            ['sk <= tau * gk', 'st >= tau * gt', 'gk >= 0', 'gt >= 0', 'tau > 0', 'sk + st > 0', 'gk + gt > 0'],
            'gk / (gk + gt) >= sk / (sk + st)')


def fphi(A, B, PVn, FR):
    """Clauses of the F-Phi curve of travel times A, B and pore volumes PVn."""
    n = 'len(%s)' % PVn
    M = '%s * rsum(%s, 0, %s)' % (FR, PVn, n)
    T = lambda i: '(1e100 if {p}[{i}] > {M} else {A}[{i}] + {B}[{i}])'.format(p=PVn, i=i, M=M, A=A, B=B)
    P = lambda i: '(0 if {p}[{i}] > {M} else {p}[{i}])'.format(p=PVn, i=i, M=M)
    req = ['%s < 2147483647' % n,
           'implies(len({A}) == {n} and len({B}) == {n}, all({A}[i] + {B}[i] > 0 for i in range({n}) if trig({A}[i]) if trig({p}[i])))'.format(A=A, B=B, n=n, p=PVn),
           'all(%s[i] >= 0 for i in range(%s) if trig(%s[i]))' % (PVn, n, PVn),
           '0 <= w and w < %s and %s > 0' % (n, P('w'))]
    thr = 'len({A}) != {n} or len({B}) != {n}'.format(A=A, B=B, n=n)
    ens = [('size', 'len(result.first) == %s + 1 and len(result.second) == %s + 1' % (n, n)),
           ('start', 'result.first[0] == 0 and result.second[0] == 0'),
           ('end', 'result.first[%s] == 1 and result.second[%s] == 1' % (n, n)),
           ('monotone', 'all(result.first[k] <= result.first[k+1] and result.second[k] <= result.second[k+1] for k in range(%s) if trig(_perm[k]))' % n),
           ('perm', 'all(0 <= _perm[k] and _perm[k] < {n} and _inv[_perm[k]] == k for k in range({n}) if trig(_perm[k])) and '
                    'all(0 <= _inv[k] and _inv[k] < {n} and _perm[_inv[k]] == k for k in range({n}) if trig(_inv[k]))'.format(n=n)),
           ('order', 'all(implies(a <= b, %s <= %s) for a in range(%s) for b in range(%s) if trig(_perm[a], _perm[b]))' % (T('_perm[a]'), T('_perm[b]'), n, n)),
           ('storage', 'all((result.first[k+1] - result.first[k]) * %s == (result.first[j+1] - result.first[j]) * %s for k in range(%s) for j in range(%s) if trig(_perm[k], _perm[j]))'
            % (P('_perm[j]'), P('_perm[k]'), n, n)),
           ('flow', 'all((result.second[k+1] - result.second[k]) * (%s / %s) == (result.second[j+1] - result.second[j]) * (%s / %s) for k in range(%s) for j in range(%s) if trig(_perm[k], _perm[j]))'
            % (P('_perm[j]'), T('_perm[j]'), P('_perm[k]'), T('_perm[k]'), n, n)),
           ('concave', 'all(result.second[k] >= result.first[k] for k in range(%s + 1) if trig(result.first[k]))' % n)]
    return req, thr, ens, T, P


_req, _thr, _ens, _T, _P = fphi('it', 'pt', 'pv', 'fr')
_REQ, _THR, _ENS, _, _ = fphi('fwd.fd.pImpl_.tof_', 'rev.fd.pImpl_.tof_', 'pv', 'fr')
CUM1 = Loop(inv=['len(q) == _n + 1', 'q[0] == 0', 'all(q[k] == input[k-1].second for k in range(1, _n+1) if trig(q[k]))'])
CUM2 = Loop(inv=['len(q) == _n + 1', 'q[0] == 0', 'all(q[k] == input[k-1].second / input[k-1].first for k in range(1, _n+1) if trig(q[k]))'])


def norm(i):
    elt = 'input[k-1].second' if i == 1 else 'input[k-1].second / input[k-1].first'
    return Loop(begin=['assert all(_psum_src[k] == %s for k in range(1, len(q)) if trig(_psum_src[k]))' % elt,
                       'assert all(input[k-1].second >= 0 and input[k-1].first > 0 for k in range(1, len(q)) if trig(input[k-1].first))',
                       'all(div_nonneg(input[k-1].second, input[k-1].first) for k in range(1, len(q)) if trig(_psum_src[k]))',
                       'assert all(_psum_src[k] >= 0 for k in range(len(q)) if trig(_psum_src[k]))',
                       'assert input[_inv[w]].second > 0',
                       'div_pos(input[_inv[w]].second, input[_inv[w]].first)',
                       'assert _psum_src[_inv[w]+1] > 0',
                       'rsum_pos(_psum_src, 0, len(q), _inv[w]+1)',
                       'assert t > 0'],
                inv=['t == rsum(_psum_src, 0, len(q))',
                     'all(q[k] == rsum(_psum_src, 0, k+1) / t for k in range(_n) if trig(q[k]))',
                     'all(q[k] == rsum(_psum_src, 0, k+1) for k in range(_n, len(q)) if trig(q[k]))'])


CURVE = [
    C(FD + 'flowCapacityStorageCapacityCurve', ['it', 'pt', 'pv', 'fr'], sig='const std::vector<double> &, const std::vector<double> &, const std::vector<double> &',
      logic={'w': 'int'}, ghost_out={'_perm': 'iarr', '_inv': 'iarr'},
      requires=_req, throws=_thr, ensures=_ens,
      loops=[Loop(inv=['all(time_and_pv[k].first == %s and time_and_pv[k].second == %s for k in range(_n) if trig(time_and_pv[k].first))' % (_T('k'), _P('k'))]),
             CUM1, norm(1), CUM2, norm(2)],
      exit=['assert rsum(_psum_src1, 0, 0) == 0 and rsum(_psum_src2, 0, 0) == 0 and _psum_src1[0] == 0 and _psum_src2[0] == 0',
            'assert all(_psum_src1[k] >= 0 and _psum_src2[k] >= 0 for k in range(len(pv)+1) if trig(_psum_src1[k]))',
            'assert rsum(_psum_src1, 0, len(pv)+1) > 0 and rsum(_psum_src2, 0, len(pv)+1) > 0',
            By('incr', '(result.first[k+1] - result.first[k]) == %s / rsum(_psum_src1, 0, len(pv)+1) and '
               'result.second[k+1] - result.second[k] == (%s / %s) / rsum(_psum_src2, 0, len(pv)+1)' % (_P('_perm[k]'), _P('_perm[k]'), _T('_perm[k]')),
               fix=[('k', '0', 'len(pv)')], trig='_perm[k]',
               given=['result.first[k+1] == rsum(_psum_src1, 0, k+2) / rsum(_psum_src1, 0, len(pv)+1)',
                      'result.first[k] == rsum(_psum_src1, 0, k+1) / rsum(_psum_src1, 0, len(pv)+1)',
                      'result.second[k+1] == rsum(_psum_src2, 0, k+2) / rsum(_psum_src2, 0, len(pv)+1)',
                      'result.second[k] == rsum(_psum_src2, 0, k+1) / rsum(_psum_src2, 0, len(pv)+1)',
                      'rsum(_psum_src1, 0, k+2) == rsum(_psum_src1, 0, k+1) + _psum_src1[k+1]',
                      'rsum(_psum_src2, 0, k+2) == rsum(_psum_src2, 0, k+1) + _psum_src2[k+1]',
                      'rsum(_psum_src1, 0, len(pv)+1) > 0', 'rsum(_psum_src2, 0, len(pv)+1) > 0',
                      '_psum_src1[k+1] == %s' % _P('_perm[k]'), '_psum_src2[k+1] == %s / %s' % (_P('_perm[k]'), _T('_perm[k]')),
                      '%s > 0' % _T('_perm[k]'), '%s >= 0' % _P('_perm[k]')]),
            By('mono', 'result.first[k] <= result.first[k+1] and result.second[k] <= result.second[k+1]', fix=[('k', '0', 'len(pv)')], trig='_perm[k]',
               given=['result.first[k+1] - result.first[k] == %s / rsum(_psum_src1, 0, len(pv)+1)' % _P('_perm[k]'),
                      'result.second[k+1] - result.second[k] == (%s / %s) / rsum(_psum_src2, 0, len(pv)+1)' % (_P('_perm[k]'), _T('_perm[k]')),
                      '%s > 0' % _T('_perm[k]'), '%s >= 0' % _P('_perm[k]'),
                      'rsum(_psum_src1, 0, len(pv)+1) > 0', 'rsum(_psum_src2, 0, len(pv)+1) > 0'],
               uses=['div_nonneg(%s, rsum(_psum_src1, 0, len(pv)+1))' % _P('_perm[k]'),
                     'div_nonneg(%s, %s)' % (_P('_perm[k]'), _T('_perm[k]')),
                     'div_nonneg(%s / %s, rsum(_psum_src2, 0, len(pv)+1))' % (_P('_perm[k]'), _T('_perm[k]'))]),
            By('stor', '(result.first[k+1] - result.first[k]) * %s == (result.first[j+1] - result.first[j]) * %s' % (_P('_perm[j]'), _P('_perm[k]')),
               fix=[('k', '0', 'len(pv)'), ('j', '0', 'len(pv)')], trig='_perm[k], _perm[j]',
               given=['rsum(_psum_src1, 0, len(pv)+1) > 0', 'result.first[k+1] - result.first[k] == %s / rsum(_psum_src1, 0, len(pv)+1)' % _P('_perm[k]'),
                      'result.first[j+1] - result.first[j] == %s / rsum(_psum_src1, 0, len(pv)+1)' % _P('_perm[j]')],
               uses=['propor(%s, %s, rsum(_psum_src1, 0, len(pv)+1))' % (_P('_perm[k]'), _P('_perm[j]'))]),
            By('flw', '(result.second[k+1] - result.second[k]) * (%s / %s) == (result.second[j+1] - result.second[j]) * (%s / %s)' % (_P('_perm[j]'), _T('_perm[j]'), _P('_perm[k]'), _T('_perm[k]')),
               fix=[('k', '0', 'len(pv)'), ('j', '0', 'len(pv)')], trig='_perm[k], _perm[j]',
               given=['rsum(_psum_src2, 0, len(pv)+1) > 0', 'result.second[k+1] - result.second[k] == (%s / %s) / rsum(_psum_src2, 0, len(pv)+1)' % (_P('_perm[k]'), _T('_perm[k]')),
                      'result.second[j+1] - result.second[j] == (%s / %s) / rsum(_psum_src2, 0, len(pv)+1)' % (_P('_perm[j]'), _T('_perm[j]'))],
               uses=['propor(%s / %s, %s / %s, rsum(_psum_src2, 0, len(pv)+1))' % (_P('_perm[k]'), _T('_perm[k]'), _P('_perm[j]'), _T('_perm[j]'))]),
            By('head', '_psum_src1[k] <= time_and_pv[j-1].first * _psum_src2[k]', fix=[('k', '0', 'len(pv)+1'), ('j', '1', 'len(pv)+1')], when='k <= j',
               trig='_psum_src1[k], time_and_pv[j-1].first',
               given=['implies(k == 0, _psum_src1[k] == 0 and _psum_src2[k] == 0)',
                      'implies(k > 0, _psum_src1[k] == time_and_pv[k-1].second and _psum_src2[k] == time_and_pv[k-1].second / time_and_pv[k-1].first)',
                      'k >= 0', 'implies(k > 0, time_and_pv[k-1].second >= 0 and time_and_pv[k-1].first > 0 and time_and_pv[k-1].first <= time_and_pv[j-1].first)'],
               uses=['ratio_le(time_and_pv[k-1].second, time_and_pv[k-1].first, time_and_pv[j-1].first)']),
            By('tail', '_psum_src1[k] >= time_and_pv[j-1].first * _psum_src2[k]', fix=[('k', '0', 'len(pv)+1'), ('j', '1', 'len(pv)+1')], when='k >= j',
               trig='_psum_src1[k], time_and_pv[j-1].first',
               given=['implies(k == 0, _psum_src1[k] == 0 and _psum_src2[k] == 0)',
                      'implies(k > 0, _psum_src1[k] == time_and_pv[k-1].second and _psum_src2[k] == time_and_pv[k-1].second / time_and_pv[k-1].first)',
                      'k >= 0', 'implies(k > 0, time_and_pv[k-1].second >= 0 and time_and_pv[k-1].first > 0 and time_and_pv[k-1].first >= time_and_pv[j-1].first)'],
               uses=['ratio_ge(time_and_pv[k-1].second, time_and_pv[k-1].first, time_and_pv[j-1].first)']),
            By('conc', 'result.second[k] >= result.first[k]', fix=[('k', '1', 'len(pv)+1')], trig='result.first[k]',
               given=['result.first[k] == rsum(_psum_src1, 0, k+1) / rsum(_psum_src1, 0, len(pv)+1)',
                      'result.second[k] == rsum(_psum_src2, 0, k+1) / rsum(_psum_src2, 0, len(pv)+1)',
                      'k >= 1 and k <= len(pv)', 'time_and_pv[k-1].first > 0',
                      'rsum(_psum_src1, 0, len(pv)+1) > 0', 'rsum(_psum_src2, 0, len(pv)+1) > 0',
                      'all(_psum_src2[m] >= 0 for m in range(len(pv)+1))',
                      'all(implies(m <= j, _psum_src1[m] <= time_and_pv[j-1].first * _psum_src2[m]) for m in range(0, len(pv)+1) for j in range(1, len(pv)+1) if trig(_psum_src1[m], time_and_pv[j-1].first))',
                      'all(implies(m >= j, _psum_src1[m] >= time_and_pv[j-1].first * _psum_src2[m]) for m in range(0, len(pv)+1) for j in range(1, len(pv)+1) if trig(_psum_src1[m], time_and_pv[j-1].first))'],
               uses=['cheb1(_psum_src1, _psum_src2, time_and_pv[k-1].first, 0, k+1)',
                     'cheb2(_psum_src1, _psum_src2, time_and_pv[k-1].first, k+1, len(pv)+1)',
                     'rsum_nonneg(_psum_src2, 0, k+1)', 'rsum_nonneg(_psum_src2, k+1, len(pv)+1)',
                     'rsum_split(_psum_src1, 0, k+1, len(pv)+1)', 'rsum_split(_psum_src2, 0, k+1, len(pv)+1)',
                     'cheb(rsum(_psum_src1, 0, k+1), rsum(_psum_src2, 0, k+1), rsum(_psum_src1, k+1, len(pv)+1), rsum(_psum_src2, k+1, len(pv)+1), time_and_pv[k-1].first)']),
            ],
      props='C19'),
    C(FD + 'flowCapacityStorageCapacityCurve', ['fwd', 'rev', 'pv', 'fr'], sig='Forward',
      logic={'w': 'int'}, ghost_out={'_perm': 'iarr', '_inv': 'iarr'},
      requires=_REQ, throws=_THR, ensures=_ENS, props='C19'),
]

PV = 'len(pv) == len(it) and len(pv) == len(pt)'

CONTRACTS = CURVE + [
    C(FD + 'lorenzCoefficient', ['curve'],
      requires=['len(curve.first) < 2147483647', 'len(curve.first) >= 1'],
      throws='len(curve.first) != len(curve.second)',
      ensures=[('definition', 'result == 2 * (trap(curve.first, curve.second, len(curve.first) - 1) - 1/2)'),
               ('range', 'implies(curve.first[0] == 0 and curve.first[len(curve.first)-1] == 1 and curve.second[len(curve.first)-1] == 1 and '
                'all(curve.first[k] <= curve.first[k+1] for k in range(len(curve.first)-1)) and '
                'all(curve.second[k] <= curve.second[k+1] for k in range(len(curve.first)-1)) and '
                'all(curve.second[k] >= curve.first[k] for k in range(len(curve.first))), 0 <= result and result <= 1)')],
      exit=['trap_lower(curve.first, curve.second, len(curve.first)-1)',
            'all(mono_last(curve.second, len(curve.first)-1, k) for k in range(len(curve.first)) if trig(curve.second[k]))',
            'trap_upper(curve.first, curve.second, len(curve.first)-1)'],
      loops=[Loop(inv=[('area', 'integral == trap(curve.first, curve.second, _n)')])], props='C20'),
    C(FD + 'sweepEfficiency', ['curve'],
      requires=['len(curve.first) < 2147483647', 'len(curve.first) >= 1'],
      throws='len(curve.first) != len(curve.second)',
      ensures=[('origin', 'result.first[0] == 0 and result.second[0] == 0'),
               ('count', 'len(result.first) == 1 + nchg(curve.second, len(curve.first)-1) and len(result.second) == len(result.first)'),
               ('points', 'all(implies(curve.second[k+1] != curve.second[k], '
                'result.first[1 + nchg(curve.second, k)] == (curve.first[k+1]-curve.first[k])/(curve.second[k+1]-curve.second[k]) and '
                'result.second[1 + nchg(curve.second, k)] == curve.first[k+1] + (1 - curve.second[k+1]) * result.first[1 + nchg(curve.second, k)]) '
                'for k in range(len(curve.first)-1))')],
      loops=[Loop(inv=['len(tD) == 1 + nchg(curve.second, _n)', 'len(Ev) == len(tD)', 'tD[0] == 0 and Ev[0] == 0', 'nchg(curve.second, _n) >= 0',
                       'all(nchg(curve.second, k) >= 0 and nchg(curve.second, k) + (1 if curve.second[k+1] != curve.second[k] else 0) <= nchg(curve.second, _n) for k in range(_n) if trig(nchg(curve.second, k)))',
                       ('points', 'all(implies(curve.second[k+1] != curve.second[k], '
                        'tD[1 + nchg(curve.second, k)] == (curve.first[k+1]-curve.first[k])/(curve.second[k+1]-curve.second[k]) and '
                        'Ev[1 + nchg(curve.second, k)] == curve.first[k+1] + (1 - curve.second[k+1]) * tD[1 + nchg(curve.second, k)]) '
                        'for k in range(_n) if trig(nchg(curve.second, k)))')])],
      props='C20'),
    C(FD + 'injectorProducerPairVolume', ['fwd', 'rev', 'pv', 'inj', 'prod'],
      requires=['all(implies(inj in fwd.fd.pImpl_.tracer_ and c in fwd.fd.pImpl_.tracer_[inj], 0 <= c and c < len(pv)) for c in ints)'],
      ensures=[('sum', 'implies(inj in fwd.fd.pImpl_.tracer_ and prod in rev.fd.pImpl_.tracer_, result == pairvol(pv, val(fwd.fd.pImpl_.tracer_[inj]), val(rev.fd.pImpl_.tracer_[prod]), '
                'dom(rev.fd.pImpl_.tracer_[prod]), dom(fwd.fd.pImpl_.tracer_[inj]), msize(fwd.fd.pImpl_.tracer_[inj])))'),
               ('absent', 'implies(not (inj in fwd.fd.pImpl_.tracer_ and prod in rev.fd.pImpl_.tracer_), result == 0)')],
      loops=[Loop(inv=[('partial', 'volume == pairvol(pv, val(inj_tracer), val(prod_tracer), dom(prod_tracer), dom(inj_tracer), _n)'),
                       ('absent', 'implies(not (prod in rev.fd.pImpl_.tracer_), volume == 0)')])],
      props='C21'),
    C(FD + 'injectorProducerPairFlux', ['fwd', 'rev', 'inj', 'prod', 'q'],
      throws='not (inj in q) or not (prod in q)',
      ensures=[('inflow', 'implies(prod in rev.fd.pImpl_.tracer_, result.first == pairflx(dom(rev.fd.pImpl_.tracer_[prod]), val(rev.fd.pImpl_.tracer_[prod]), dom(q[inj]), val(q[inj]), True, msize(q[inj])))'),
               ('outflow', 'implies(inj in fwd.fd.pImpl_.tracer_, result.second == pairflx(dom(fwd.fd.pImpl_.tracer_[inj]), val(fwd.fd.pImpl_.tracer_[inj]), dom(q[prod]), val(q[prod]), False, msize(q[prod])))'),
               ('absent', 'implies(not (prod in rev.fd.pImpl_.tracer_), result.first == 0) and implies(not (inj in fwd.fd.pImpl_.tracer_), result.second == 0)'),
               ('first-sign', 'implies(all(implies(c in rev.fd.pImpl_.tracer_[prod], rev.fd.pImpl_.tracer_[prod][c] >= 0) for c in ints if trig(dom(rev.fd.pImpl_.tracer_[prod])[c])), result.first >= 0)'),
               ('second-sign', 'implies(all(implies(c in fwd.fd.pImpl_.tracer_[inj], fwd.fd.pImpl_.tracer_[inj][c] >= 0) for c in ints if trig(dom(fwd.fd.pImpl_.tracer_[inj])[c])), result.second <= 0)')],
      exit=['pairflx_pos(dom(rev.fd.pImpl_.tracer_[prod]), val(rev.fd.pImpl_.tracer_[prod]), dom(q[inj]), val(q[inj]), msize(q[inj]))',
            'pairflx_neg(dom(fwd.fd.pImpl_.tracer_[inj]), val(fwd.fd.pImpl_.tracer_[inj]), dom(q[prod]), val(q[prod]), msize(q[prod]))'],
      loops=[Loop(inv=[('partial', 'flux == pairflx(dom(tracer), val(tracer), dom(inflow_flux), val(inflow_flux), True, _n)'),
                       ('absent', 'implies(not (prod in rev.fd.pImpl_.tracer_), flux == 0)')]),
             Loop(inv=[('partial', 'flux == pairflx(dom(tracer), val(tracer), dom(inflow_flux), val(inflow_flux), False, _n)'),
                       ('absent', 'implies(not (inj in fwd.fd.pImpl_.tracer_), flux == 0)')])],
      props='C21'),
]
