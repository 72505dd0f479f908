"""AssembledConnections: connection lists, CSR assembly, weights, text output."""
from vc.core import Contract as C, Loop, By

AC = 'Opm::AssembledConnections::'
CN = AC + 'Connections::'
CSR = AC + 'CSR::'
TOOL = ' C12 C13 C15 C16 C17 C18'      # properties resting on assembled flow graphs
C7, C78 = 'C07' + TOOL, 'C07 C08' + TOOL
BIG = '1152921504606846976'


def setup(L):
    # ---- counting
    L.fn('cntlt', [('a', 'iarr'), ('r', 'int'), ('n', 'int')], 'int',
         '0 if n <= 0 else cntlt(a, r, n-1) + (1 if a[n-1] < r else 0)')
    L.fn('cnteq', [('a', 'iarr'), ('r', 'int'), ('n', 'int')], 'int',
         '0 if n <= 0 else cnteq(a, r, n-1) + (1 if a[n-1] == r else 0)')
    # index of occurrence number c of r among the first n
    L.fn('nth', [('a', 'iarr'), ('r', 'int'), ('c', 'int'), ('n', 'int')], 'int',
         '0 if n <= 0 else (n-1 if a[n-1] == r and cnteq(a, r, n-1) == c else nth(a, r, c, n-1))')
    # row of position p among rows [0, R)
    L.fn('rowat', [('a', 'iarr'), ('p', 'int'), ('R', 'int'), ('n', 'int')], 'int',
         '0 if R <= 0 else (R-1 if cntlt(a, R-1, n) <= p else rowat(a, p, R-1, n))')
    A = [('a', 'iarr'), ('r', 'int'), ('n', 'int')]
    L.lemma('cnt_bounds', A, ['n >= 0'], '0 <= cnteq(a, r, n) and cnteq(a, r, n) <= n and 0 <= cntlt(a, r, n) and cntlt(a, r, n) <= n', induct='n')
    L.lemma('cntlt_next', A, ['n >= 0'], 'cntlt(a, r+1, n) == cntlt(a, r, n) + cnteq(a, r, n)', induct='n')
    L.lemma('cntlt_mono', [('a', 'iarr'), ('r', 'int'), ('s', 'int'), ('n', 'int')], ['n >= 0', 'r <= s'], 'cntlt(a, r, n) <= cntlt(a, s, n)', induct='n')
    L.lemma('cntlt_all', A, ['n >= 0', 'all(a[k] < r for k in range(n))'], 'cntlt(a, r, n) == n', induct='n')
    L.lemma('cntlt_none', A, ['n >= 0', 'all(a[k] >= r for k in range(n))'], 'cntlt(a, r, n) == 0', induct='n')
    L.lemma('cnteq_none', A, ['n >= 0', 'all(a[k] != r for k in range(n))'], 'cnteq(a, r, n) == 0', induct='n')
    L.lemma('cnteq_mono', [('a', 'iarr'), ('r', 'int'), ('m', 'int'), ('n', 'int')], ['0 <= m', 'm <= n'], 'cnteq(a, r, m) <= cnteq(a, r, n)', induct='n', base='m')
    L.lemma('cnteq_strict', [('a', 'iarr'), ('r', 'int'), ('m', 'int'), ('n', 'int')], ['0 <= m', 'm < n', 'a[m] == r'], 'cnteq(a, r, m) < cnteq(a, r, n)',
            induct='n', base='m+1')
    L.lemma('nth_spec', [('a', 'iarr'), ('r', 'int'), ('c', 'int'), ('n', 'int')], ['n >= 0', '0 <= c', 'c < cnteq(a, r, n)'],
            '0 <= nth(a, r, c, n) and nth(a, r, c, n) < n and a[nth(a, r, c, n)] == r and cnteq(a, r, nth(a, r, c, n)) == c', induct='n')
    L.lemma('rowat_spec', [('a', 'iarr'), ('p', 'int'), ('R', 'int'), ('n', 'int')],
            ['n >= 0', '0 <= p', 'p < cntlt(a, R, n)', 'R >= 0', 'cntlt(a, 0, n) == 0'],
            '0 <= rowat(a, p, R, n) and rowat(a, p, R, n) < R and cntlt(a, rowat(a, p, R, n), n) <= p and p < cntlt(a, rowat(a, p, R, n)+1, n)', induct='R')
    # the position entry m takes when entries are bucketed by a
    L.fn('bpos', [('a', 'iarr'), ('m', 'int'), ('n', 'int')], 'int', 'cntlt(a, a[m], n) + cnteq(a, a[m], m)')
    L.fn('binv', [('a', 'iarr'), ('p', 'int'), ('R', 'int'), ('n', 'int')], 'int',
         'nth(a, rowat(a, p, R, n), p - cntlt(a, rowat(a, p, R, n), n), n)')
    L.lemma('bpos_range', [('a', 'iarr'), ('m', 'int'), ('n', 'int')], ['0 <= m', 'm < n'],
            ['cntlt(a, a[m], n) <= bpos(a, m, n)', 'bpos(a, m, n) < cntlt(a, a[m]+1, n)', '0 <= bpos(a, m, n) and bpos(a, m, n) < n'],
            uses=['cnt_bounds(a, a[m], m)', 'cnteq_strict(a, a[m], m, n)', 'cntlt_next(a, a[m], n)', 'cnt_bounds(a, a[m], n)', 'cnt_bounds(a, a[m]+1, n)'])
    L.lemma('bpos_inj', [('a', 'iarr'), ('m', 'int'), ('k', 'int'), ('n', 'int')], ['0 <= m', 'm < n', '0 <= k', 'k < n', 'm < k'],
            'bpos(a, m, n) != bpos(a, k, n) and implies(a[m] == a[k], bpos(a, m, n) < bpos(a, k, n))',
            uses=['bpos_range(a, m, n)', 'bpos_range(a, k, n)', 'cntlt_mono(a, a[m]+1, a[k], n)', 'cntlt_mono(a, a[k]+1, a[m], n)', 'cnteq_strict(a, a[m], m, k)'])
    L.lemma('bpos_surj', [('a', 'iarr'), ('p', 'int'), ('R', 'int'), ('n', 'int')],
            ['n >= 0', '0 <= p', 'p < n', 'R >= 0', 'all(0 <= a[k] and a[k] < R for k in range(n))'],
            '0 <= binv(a, p, R, n) and binv(a, p, R, n) < n and bpos(a, binv(a, p, R, n), n) == p',
            uses=['cntlt_all(a, R, n)', 'cntlt_none(a, 0, n)', 'rowat_spec(a, p, R, n)', 'cntlt_next(a, rowat(a, p, R, n), n)',
                  'nth_spec(a, rowat(a, p, R, n), p - cntlt(a, rowat(a, p, R, n), n), n)'])
    # ---- weights
    L.fn('wsum', [('e', 'iarr'), ('v', 'rarr'), ('k', 'int'), ('n', 'int')], 'real',
         '0 if n <= 0 else wsum(e, v, k, n-1) + (v[n-1] if e[n-1] == k else 0)')
    # sum of v over the connections from x to y
    L.fn('csum', [('i', 'iarr'), ('j', 'iarr'), ('v', 'rarr'), ('x', 'int'), ('y', 'int'), ('n', 'int')], 'real',
         '0 if n <= 0 else csum(i, j, v, x, y, n-1) + (v[n-1] if i[n-1] == x and j[n-1] == y else 0)')
    L.lemma('wsum_csum', [('e', 'iarr'), ('i', 'iarr'), ('j', 'iarr'), ('v', 'rarr'), ('k', 'int'), ('x', 'int'), ('y', 'int'), ('n', 'int')],
            ['all(iff(e[m] == k, i[m] == x and j[m] == y) for m in range(n) if trig(e[m]))'], 'wsum(e, v, k, n) == csum(i, j, v, x, y, n)', induct='n')
    # e in [lo, hi)
    L.fn('rangesum', [('e', 'iarr'), ('v', 'rarr'), ('lo', 'int'), ('hi', 'int'), ('n', 'int')], 'real',
         '0 if n <= 0 else rangesum(e, v, lo, hi, n-1) + (v[n-1] if lo <= e[n-1] and e[n-1] < hi else 0)')
    L.lemma('rangesum_next', [('e', 'iarr'), ('v', 'rarr'), ('lo', 'int'), ('hi', 'int'), ('n', 'int')], ['lo <= hi'],
            'rangesum(e, v, lo, hi+1, n) == rangesum(e, v, lo, hi, n) + wsum(e, v, hi, n)', induct='n')
    L.lemma('rangesum_empty', [('e', 'iarr'), ('v', 'rarr'), ('lo', 'int'), ('n', 'int')], [], 'rangesum(e, v, lo, lo, n) == 0', induct='n')
    L.lemma('rowsum', [('s', 'rarr'), ('e', 'iarr'), ('v', 'rarr'), ('lo', 'int'), ('hi', 'int'), ('n', 'int')],
            ['lo <= hi', 'all(s[k] == wsum(e, v, k, n) for k in range(lo, hi) if trig(s[k]))'],
            'rsum(s, lo, hi) == rangesum(e, v, lo, hi, n)', induct='hi', base='lo',
            uses=['rangesum_empty(e, v, lo, n)', 'rangesum_next(e, v, lo, hi-1, n)', 'rsum_none(s, lo)'])
    L.lemma('rangesum_wsum', [('e', 'iarr'), ('i', 'iarr'), ('v', 'rarr'), ('lo', 'int'), ('hi', 'int'), ('x', 'int'), ('n', 'int')],
            ['all(iff(lo <= e[m] and e[m] < hi, i[m] == x) for m in range(n) if trig(e[m]))'], 'rangesum(e, v, lo, hi, n) == wsum(i, v, x, n)', induct='n')
    # weight entering: sum of s over positions k < h with ja[k] == y
    L.fn('colsum', [('ja', 'iarr'), ('s', 'rarr'), ('y', 'int'), ('h', 'int')], 'real',
         '0 if h <= 0 else colsum(ja, s, y, h-1) + (s[h-1] if ja[h-1] == y else 0)')
    L.fn('colpart', [('e', 'iarr'), ('ja', 'iarr'), ('v', 'rarr'), ('y', 'int'), ('h', 'int'), ('n', 'int')], 'real',
         '0 if n <= 0 else colpart(e, ja, v, y, h, n-1) + (v[n-1] if e[n-1] < h and ja[e[n-1]] == y else 0)')
    L.lemma('colpart_next', [('e', 'iarr'), ('ja', 'iarr'), ('v', 'rarr'), ('y', 'int'), ('h', 'int'), ('n', 'int')], [],
            'colpart(e, ja, v, y, h+1, n) == colpart(e, ja, v, y, h, n) + (wsum(e, v, h, n) if ja[h] == y else 0)', induct='n')
    L.lemma('colpart_zero', [('e', 'iarr'), ('ja', 'iarr'), ('v', 'rarr'), ('y', 'int'), ('n', 'int')], ['all(e[m] >= 0 for m in range(n))'],
            'colpart(e, ja, v, y, 0, n) == 0', induct='n')
    L.lemma('colsum_part', [('e', 'iarr'), ('ja', 'iarr'), ('s', 'rarr'), ('v', 'rarr'), ('y', 'int'), ('h', 'int'), ('n', 'int')],
            ['h >= 0', 'all(e[m] >= 0 for m in range(n))', 'all(s[k] == wsum(e, v, k, n) for k in range(h) if trig(s[k]))'],
            'colsum(ja, s, y, h) == colpart(e, ja, v, y, h, n)', induct='h', uses=['colpart_zero(e, ja, v, y, n)', 'colpart_next(e, ja, v, y, h-1, n)'])
    L.lemma('colpart_wsum', [('e', 'iarr'), ('ja', 'iarr'), ('j', 'iarr'), ('v', 'rarr'), ('y', 'int'), ('h', 'int'), ('n', 'int')],
            ['all(e[m] < h and ja[e[m]] == j[m] for m in range(n) if trig(e[m]))'],
            'colpart(e, ja, v, y, h, n) == wsum(j, v, y, n)', induct='n')
    # ---- order
    L.lemma('rowuniq', [('a', 'iarr'), ('R', 'int'), ('r', 'int'), ('s', 'int'), ('p', 'int')],
            ['mono(a, R)', '0 <= r', 'r < R', '0 <= s', 's < R', 'a[r] <= p', 'p < a[r+1]', 'a[s] <= p', 'p < a[s+1]'], 'r == s')
    # an array that starts at 0 and climbs by at most one reaches every value in between
    L.macro('climbs', ['e', 'n'], 'all(implies(q == p+1, e[q] <= e[p] + 1) for p in range(n) for q in range(n) if trig(e[p], e[q]))')
    L.fn('wit', [('e', 'iarr'), ('q', 'int'), ('n', 'int')], 'int', '0 if n <= 0 else (n-1 if e[n-1] == q else wit(e, q, n-1))')
    L.lemma('climb', [('e', 'iarr'), ('q', 'int'), ('n', 'int')],
            ['n >= 1', 'e[0] <= q', 'q <= e[n-1]', 'climbs(e, n)'],
            '0 <= wit(e, q, n) and wit(e, q, n) < n and e[wit(e, q, n)] == q', induct='n', base='1', uses=['e[n-2] == e[n-2]', 'e[n-1] == e[n-1]'])
    # ---- the abstract state of a CSR structure: entry m is (R[m], C[m]) and sits at e[m]
    L.macro('mono', ['a', 'R'], 'all(implies(r <= s, a[r] <= a[s]) for r in range(R+1) for s in range(R+1) if trig(a[r], a[s]))')
    L.macro('csr_shape', ['ia', 'rows', 'n'],
            'len(ia) == rows + 1 and ia[0] == 0 and ia[rows] == n and mono(ia, rows)')
    L.macro('placed', ['ia', 'ja', 'e', 'R', 'C', 'n'],
            'all(ia[R[m]] <= e[m] and e[m] < ia[R[m]+1] and ja[e[m]] == C[m] for m in range(n) if trig(e[m]))')
    L.fn('hit', [('e', 'iarr'), ('n', 'int'), ('p', 'int')], 'bool', 'any(e[m] == p for m in range(n) if trig(e[m]))')
    # one line of text: source, blank, sink, blank, weight, newline
    L.macro('line', ['o', 'T', 'r', 'p', 'j', 'w'],
            'o.kind[T+6*p] == 0 and o.tok[T+6*p] == r and o.kind[T+6*p+1] == 1 and o.tok[T+6*p+1] == 32 and o.kind[T+6*p+2] == 0 and o.tok[T+6*p+2] == j and '
            'o.kind[T+6*p+3] == 1 and o.tok[T+6*p+3] == 32 and o.kind[T+6*p+4] == 2 and o.tok[T+6*p+4] == w and o.kind[T+6*p+5] == 1 and o.tok[T+6*p+5] == 10')
    L.macro('conninv', ['c'], 'len(c.i_) == len(c.j_) and c.max_i_ >= -1 and c.max_j_ >= -1 and c.max_i_ < 2147483647 and c.max_j_ < 2147483647 and '
            'all(0 <= c.i_[k] and c.i_[k] <= c.max_i_ for k in range(len(c.i_)) if trig(c.i_[k])) and all(0 <= c.j_[k] and c.j_[k] <= c.max_j_ for k in range(len(c.j_)) if trig(c.j_[k])) and '
            'implies(len(c.i_) == 0, c.max_i_ == -1 and c.max_j_ == -1) and implies(len(c.i_) > 0, hit(c.i_, len(c.i_), c.max_i_) and hit(c.j_, len(c.j_), c.max_j_))')
    L.macro('onto', ['e', 'n', 'h'], 'all(hit(e, n, p) for p in range(h) if trig(hit(e, n, p)))')


ROWOK = 'all(0 <= rowIdx[k] and rowIdx[k] < R for k in range(len(rowIdx)) if trig(rowIdx[k]))'

SORTED = 'all(implies(p < q and ia_[r] <= p and q < ia_[r+1], ja_[p] <= ja_[q]) for r in range(numRows_) for p in range(N) for q in range(N) if trig(ia_[r], ja_[p], ja_[q]))'
ASCEND = 'all(implies(ia_[r] <= k and k < l and l < ia_[r+1], ja_[k] < ja_[l]) for r in range(ROWS) for k in range(len(ja_)) for l in range(len(ja_)) if trig(ia_[r], ja_[k], ja_[l]))'
TPRE = ['numRows_ >= 0', 'numRows_ <= 2147483647', 'numCols_ >= 0', 'numCols_ <= 2147483647', 'N < ' + BIG,
        'csr_shape(ia_, numRows_, N)', 'len(ja_) == N',
        'all(0 <= ja_[p] and ja_[p] < numCols_ for p in range(N) if trig(ja_[p]))',
        'all(0 <= elmIdx_[m] and elmIdx_[m] < N for m in range(N) if trig(elmIdx_[m]))', 'onto(elmIdx_, N, N)']
# the compressed prefix
UNIQ = ['all(0 <= elmIdx_[p] and elmIdx_[p] < len(ja_) and ja_[elmIdx_[p]] == colIdx[p] for p in range(len(elmIdx_)) if trig(elmIdx_[p]))',
        'climbs(elmIdx_, len(elmIdx_))',
        'implies(len(elmIdx_) > 0, elmIdx_[0] == 0 and elmIdx_[len(elmIdx_)-1] == len(ja_) - 1)', 'implies(len(elmIdx_) == 0, len(ja_) == 0)']
SEG = ['all(elmIdx_[p] == pre(elmIdx_)[p] for p in range(old(ia_)[n0]) if trig(elmIdx_[p]))',
       'all(elmIdx_[p] >= pre(len(ja_)) for p in range(old(ia_)[n0], len(elmIdx_)) if trig(elmIdx_[p]))',
       'all(ja_[k] == pre(ja_)[k] for k in range(pre(len(ja_))) if trig(ja_[k]))',
       'all(implies(k < l, ja_[k] < ja_[l]) for k in range(pre(len(ja_)), len(ja_)) for l in range(pre(len(ja_)), len(ja_)) if trig(ja_[k], ja_[l]))']

APPEND = ('len(conns_.i_) == old(len(conns_.i_)) + 1 and len(conns_.j_) == old(len(conns_.i_)) + 1 and conns_.i_[old(len(conns_.i_))] == i and conns_.j_[old(len(conns_.i_))] == j and '
          'all(conns_.i_[k] == old(conns_.i_)[k] and conns_.j_[k] == old(conns_.j_)[k] for k in range(old(len(conns_.i_))) if trig(conns_.i_[k]) if trig(conns_.j_[k]))')
MAXHIT = By('max', 'hit(conns_.i_, len(conns_.i_), conns_.max_i_) and hit(conns_.j_, len(conns_.j_), conns_.max_j_)')

PLACED = 'placed(csr_.ia_, csr_.ja_, csr_.elmIdx_, I, J, N)'
IRANGE = 'all(0 <= I[m] and I[m] < numRows for m in range(N) if trig(csr_.elmIdx_[m]))'
CASC = ASCEND.replace('ROWS', 'numRows').replace('ia_', 'csr_.ia_').replace('ja_', 'csr_.ja_')
WT = 'old(len(conns_.v_)) > 0'

NI = 'Opm::NeighbourhoodIterator::'
INB = '0 <= off(neighbour_iter_) and off(neighbour_iter_) < len(neighbour_iter_) and 0 <= off(weight_iter_) and off(weight_iter_) < len(weight_iter_)'
LINES = 'all(implies(ac.csr_.ia_[r] <= p and p < %s, line(os, T, r, p, ac.csr_.ja_[p], ac.csr_.sa_[p])) for r in range(%s) for p in range(len(ac.csr_.ja_)) if trig(ac.csr_.ia_[r], ac.csr_.ja_[p]))'
LINES = LINES.replace('%s, line', 'ac.csr_.ia_[r+1], line')

CONTRACTS = [
    C(CSR + 'accumulateRowEntries', ['R', 'rowIdx'], modifies=['ia_'],
      requires=['R >= 0', 'R <= 2147483647', 'len(rowIdx) < ' + BIG, ROWOK],
      ensures=[('size', 'len(ia_) == R + 1'), ('total', 'ia_[0] == len(rowIdx)'),
               ('starts', 'all(ia_[r] == cntlt(rowIdx, r-1, len(rowIdx)) for r in range(1, R+1) if trig(ia_[r]))')],
      entry=['cntlt_none(rowIdx, 0, len(rowIdx))'],
      loops=[Loop(inv=['len(ia_) == R + 1', 'ia_[0] == 0',
                       'all(ia_[r] == cnteq(rowIdx, r-1, _n) for r in range(1, R+1) if trig(ia_[r]))'],
                  begin=['cnt_bounds(rowIdx, rowIdx[_n], _n)']),
             Loop(inv=['len(ia_) == R + 1', 'ia_[0] == cntlt(rowIdx, _n, len(rowIdx))', 'ia_[0] <= len(rowIdx)',
                       'all(ia_[r] == cntlt(rowIdx, r-1, len(rowIdx)) for r in range(1, _n+1) if trig(ia_[r]))',
                       'all(ia_[r] == cnteq(rowIdx, r-1, len(rowIdx)) for r in range(_n+1, R+1) if trig(ia_[r]))'],
                  begin=['cntlt_next(rowIdx, _n, len(rowIdx))', 'cnt_bounds(rowIdx, _n+1, len(rowIdx))', 'cnt_bounds(rowIdx, _n, len(rowIdx))'])],
      exit=['cntlt_all(rowIdx, R, len(rowIdx))'], props='C06 C07 C08'),
    C(CSR + 'createGraph', ['rowIdx', 'colIdx'], ghost_out={'pos': ('iarr', 'arr(elmIdx_)')}, modifies=['ia_', 'ja_', 'elmIdx_'], logic={'R': 'int'}, inst={'R': 'len(ia_) - 1'},
      requires=['R >= 0', 'len(rowIdx) < ' + BIG, ROWOK, 'len(colIdx) == len(rowIdx)', 'ia_[0] == len(rowIdx)',
                'all(ia_[r] == cntlt(rowIdx, r-1, len(rowIdx)) for r in range(1, R+1) if trig(ia_[r]))'],
      ensures=[('shape', 'csr_shape(ia_, R, len(rowIdx))'), ('sizes', 'len(ja_) == len(rowIdx) and len(elmIdx_) == len(rowIdx)'),
               ('placed', 'placed(ia_, ja_, elmIdx_, rowIdx, colIdx, len(rowIdx))'),
               ('range', 'all(0 <= elmIdx_[m] and elmIdx_[m] < len(rowIdx) for m in range(len(rowIdx)) if trig(elmIdx_[m]))'),
               ('onto', 'onto(elmIdx_, len(rowIdx), len(rowIdx))'),
               ('stable', 'all(implies(a < b and rowIdx[a] == rowIdx[b], elmIdx_[a] < elmIdx_[b]) for a in range(len(rowIdx)) for b in range(len(rowIdx)) if trig(elmIdx_[a], elmIdx_[b]))')],
      entry=['all(cntlt_mono(rowIdx, r, s, len(rowIdx)) for r in range(R+1) for s in range(R+1) if trig(cntlt(rowIdx, r, len(rowIdx)), cntlt(rowIdx, s, len(rowIdx))))'],
      loops=[Loop(inv=['len(ia_) == R + 1', 'ia_[0] == len(rowIdx)', 'len(ja_) == len(rowIdx)', 'len(elmIdx_) == _n',
                       'all(ia_[r] == cntlt(rowIdx, r-1, len(rowIdx)) + cnteq(rowIdx, r-1, _n) for r in range(1, R+1) if trig(ia_[r]))',
                       'all(elmIdx_[m] == bpos(rowIdx, m, len(rowIdx)) for m in range(_n) if trig(elmIdx_[m]))',
                       'all(ja_[bpos(rowIdx, m, len(rowIdx))] == colIdx[m] for m in range(_n) if trig(bpos(rowIdx, m, len(rowIdx))))'],
                  begin=['bpos_range(rowIdx, _n, len(rowIdx))',
                         'all(bpos_inj(rowIdx, m, _n, len(rowIdx)) for m in range(_n) if trig(bpos(rowIdx, m, len(rowIdx))))'])],
      exit=['cntlt_none(rowIdx, 0, len(rowIdx))', 'cntlt_all(rowIdx, R, len(rowIdx))',
            'all(cntlt_next(rowIdx, r-1, len(rowIdx)) for r in range(1, R+1) if trig(ia_[r]))',
            'assert all(ia_[r] == cntlt(rowIdx, r, len(rowIdx)) for r in range(R+1) if trig(ia_[r]))',
            By('mono', 'ia_[r] <= ia_[s]', fix=[('r', '0', 'R+1'), ('s', '0', 'R+1')], when='r <= s', trig='ia_[r], ia_[s]',
               given=['ia_[r] == cntlt(rowIdx, r, len(rowIdx))', 'ia_[s] == cntlt(rowIdx, s, len(rowIdx))'], uses=['cntlt_mono(rowIdx, r, s, len(rowIdx))']),
            'all(bpos_range(rowIdx, m, len(rowIdx)) for m in range(len(rowIdx)) if trig(elmIdx_[m]))',
            'all(bpos_inj(rowIdx, m, k, len(rowIdx)) for m in range(len(rowIdx)) for k in range(len(rowIdx)) if trig(elmIdx_[m], elmIdx_[k]))',
            By('surj', 'hit(elmIdx_, len(rowIdx), p)', fix=[('p', '0', 'len(rowIdx)')], trig='hit(elmIdx_, len(rowIdx), p)',
               uses=['bpos_surj(rowIdx, p, R, len(rowIdx))', 'elmIdx_[binv(rowIdx, p, R, len(rowIdx))] == elmIdx_[binv(rowIdx, p, R, len(rowIdx))]'])],
      props='C06 C07 C08'),
    C(CSR + 'expandStartPointers', [], logic={'R': 'int'}, inst={'R': 'len(ia_) - 1'},
      requires=['R >= 0', 'R <= 2147483647', 'csr_shape(ia_, R, ia_[R])', 'ia_[R] < ' + BIG],
      ensures=[('size', 'len(result) == ia_[R]'),
               ('rows', 'all(0 <= result[p] and result[p] < R and ia_[result[p]] <= p and p < ia_[result[p]+1] for p in range(len(result)) if trig(result[p]))'),
               ('order', 'all(implies(p <= q, result[p] <= result[q]) for p in range(len(result)) for q in range(len(result)) if trig(result[p], result[q]))')],
      loops=[Loop(inv=['_n <= R', 'row == _n', 'len(rowIdx) == ia_[_n]',
                       'all(0 <= rowIdx[p] and rowIdx[p] < _n and ia_[rowIdx[p]] <= p and p < ia_[rowIdx[p]+1] for p in range(len(rowIdx)) if trig(rowIdx[p]))',
                       'all(implies(p <= q, rowIdx[p] <= rowIdx[q]) for p in range(len(rowIdx)) for q in range(len(rowIdx)) if trig(rowIdx[p], rowIdx[q]))'])],
      props='C06 C07 C08'),
    C(CSR + 'remapElementIndex', ['elmIdx'], ghost_out={'E': ('iarr', 'old(arr(elmIdx_))'), 'IA0': ('iarr', 'old(arr(ia_))')}, modifies=['elmIdx_', 'elmIdx'],
      requires=['all(0 <= elmIdx[m] and elmIdx[m] < len(elmIdx_) for m in range(len(elmIdx)) if trig(elmIdx[m]))'],
      ensures=['len(elmIdx_) == old(len(elmIdx))', 'all(elmIdx_[m] == old(elmIdx_)[old(elmIdx)[m]] for m in range(len(elmIdx_)) if trig(elmIdx_[m]))'],
      loops=[Loop(inv=['len(elmIdx) == old(len(elmIdx))', 'all(elmIdx[m] == elmIdx_[old(elmIdx)[m]] for m in range(_n) if trig(elmIdx[m]))',
                       'all(elmIdx[m] == old(elmIdx)[m] for m in range(_n, len(elmIdx)) if trig(elmIdx[m]))'])],
      props='C06 C07 C08'),
    C(CSR + 'transpose', [], modifies=['ia_', 'ja_', 'elmIdx_', 'numRows_', 'numCols_'], logic={'N': 'int'}, inst={'N': 'len(elmIdx_)'},
      requires=['numRows_ >= 0', 'numRows_ <= 2147483647', 'numCols_ >= 0', 'numCols_ <= 2147483647', 'N < ' + BIG,
                'csr_shape(ia_, numRows_, N)', 'len(ja_) == N',
                'all(0 <= ja_[p] and ja_[p] < numCols_ for p in range(N) if trig(ja_[p]))',
                'all(0 <= elmIdx_[m] and elmIdx_[m] < N for m in range(N) if trig(elmIdx_[m]))', 'onto(elmIdx_, N, N)'],
      ensures=[('dims', 'numRows_ == old(numCols_) and numCols_ == old(numRows_)'), ('shape', 'csr_shape(ia_, numRows_, N)'),
               ('sizes', 'len(ja_) == N and len(elmIdx_) == N'),
               ('cols', 'all(0 <= ja_[p] and ja_[p] < numCols_ for p in range(N) if trig(ja_[p]))'),
               ('range', 'all(0 <= elmIdx_[m] and elmIdx_[m] < N for m in range(N) if trig(elmIdx_[m]))'),
               ('onto', 'onto(elmIdx_, N, N)'),
               ('rows', 'all(implies(old(ia_)[r] <= old(elmIdx_)[m] and old(elmIdx_)[m] < old(ia_)[r+1], ja_[elmIdx_[m]] == r) for m in range(N) for r in range(old(numRows_)) if trig(elmIdx_[m], old(ia_)[r]))'),
               ('place', 'all(ia_[old(ja_)[old(elmIdx_)[m]]] <= elmIdx_[m] and elmIdx_[m] < ia_[old(ja_)[old(elmIdx_)[m]]+1] for m in range(N) if trig(elmIdx_[m]))'),
               ('sorted', 'all(implies(p < q and ia_[r] <= p and q < ia_[r+1], ja_[p] <= ja_[q]) for r in range(numRows_) for p in range(N) for q in range(N) if trig(ia_[r], ja_[p], ja_[q]))')],
      exit=[By('cols', '0 <= ja_[p] and ja_[p] < numCols_', fix=[('p', '0', 'N')], trig='ja_[p]',
               given=['hit(pos, N, p)', 'all(ja_[pos[a]] == rowIdx[a] for a in range(N) if trig(pos[a]))',
                      'all(0 <= rowIdx[a] and rowIdx[a] < numCols_ for a in range(N) if trig(rowIdx[a]))']),
            By('onto', 'hit(elmIdx_, N, p)', fix=[('p', '0', 'N')], trig='hit(elmIdx_, N, p)',
               given=['hit(pos, N, p)', 'all(hit(old(elmIdx_), N, a) for a in range(N) if trig(pos[a]))', 'all(elmIdx_[m] == pos[old(elmIdx_)[m]] for m in range(N) if trig(old(elmIdx_)[m]))']),
            By('rows', 'ja_[elmIdx_[m]] == r', fix=[('m', '0', 'N'), ('r', '0', 'old(numRows_)')], when='old(ia_)[r] <= old(elmIdx_)[m] and old(elmIdx_)[m] < old(ia_)[r+1]',
               trig='elmIdx_[m], old(ia_)[r]', uses=['rowuniq(old(ia_), old(numRows_), r, rowIdx[old(elmIdx_)[m]], old(elmIdx_)[m])']),
            By('sorted', 'ja_[p] <= ja_[q]', fix=[('r', '0', 'numRows_'), ('p', '0', 'N'), ('q', '0', 'N')], when='p < q and ia_[r] <= p and q < ia_[r+1]',
               trig='ia_[r], ja_[p], ja_[q]', given=['hit(pos, N, p)', 'hit(pos, N, q)',
                      'all(ja_[pos[a]] == rowIdx[a] for a in range(N) if trig(pos[a]))',
                      'all(implies(a < b and colIdx[a] == colIdx[b], pos[a] < pos[b]) for a in range(N) for b in range(N) if trig(pos[a], pos[b]))',
                      'all(implies(a <= b, rowIdx[a] <= rowIdx[b]) for a in range(N) for b in range(N) if trig(rowIdx[a], rowIdx[b]))',
                      'all(ia_[colIdx[a]] <= pos[a] and pos[a] < ia_[colIdx[a]+1] and 0 <= colIdx[a] and colIdx[a] < numRows_ for a in range(N) if trig(pos[a]))',
                      'mono(ia_, numRows_)'],
               uses=['all(rowuniq(ia_, numRows_, r, colIdx[a], p) for a in range(N) if trig(pos[a]))', 'all(rowuniq(ia_, numRows_, r, colIdx[a], q) for a in range(N) if trig(pos[a]))'])],
      props='C06 C07 C08'),
    C(CSR + 'sort', [], modifies=['ia_', 'ja_', 'elmIdx_', 'numRows_', 'numCols_'], logic={'N': 'int', 'I': 'iarr', 'J': 'iarr'}, inst={'N': 'len(elmIdx_)'},
      requires=TPRE + ['placed(ia_, ja_, elmIdx_, I, J, N)', 'all(0 <= I[m] and I[m] < numRows_ for m in range(N) if trig(I[m]))'],
      ensures=[('dims', 'numRows_ == old(numRows_) and numCols_ == old(numCols_)'), ('shape', 'csr_shape(ia_, numRows_, N)'),
               ('sizes', 'len(ja_) == N and len(elmIdx_) == N'),
               ('cols', 'all(0 <= ja_[p] and ja_[p] < numCols_ for p in range(N) if trig(ja_[p]))'),
               ('range', 'all(0 <= elmIdx_[m] and elmIdx_[m] < N for m in range(N) if trig(elmIdx_[m]))'),
               ('onto', 'onto(elmIdx_, N, N)'), ('placed', 'placed(ia_, ja_, elmIdx_, I, J, N)'), ('sorted', SORTED)],
      props='C06 C07 C08'),
    C(CSR + 'condenseDuplicates', [], modifies=['ia_', 'ja_', 'elmIdx_'], logic={'R': 'int', 'N': 'int', 'I': 'iarr', 'J': 'iarr'},
      inst={'R': 'len(ia_) - 1', 'N': 'len(elmIdx_)'},
      requires=['R >= 0', 'R <= 2147483647', 'N < ' + BIG, 'csr_shape(ia_, R, N)', 'len(ja_) == N',
                'all(0 <= elmIdx_[m] and elmIdx_[m] < N for m in range(N) if trig(elmIdx_[m]))', 'onto(elmIdx_, N, N)',
                'placed(ia_, ja_, elmIdx_, I, J, N)', 'all(0 <= I[m] and I[m] < R for m in range(N) if trig(I[m]))', SORTED.replace('numRows_', 'R')],
      ensures=[('shape', 'csr_shape(ia_, R, len(ja_))'), ('size', 'len(elmIdx_) == N and len(ja_) <= N'),
               ('range', 'all(0 <= elmIdx_[m] and elmIdx_[m] < len(ja_) for m in range(N) if trig(elmIdx_[m]))'),
               ('onto', 'onto(elmIdx_, N, len(ja_))'), ('placed', 'placed(ia_, ja_, elmIdx_, I, J, N)'), ('ascending', ASCEND.replace('ROWS', 'R'))],
      loops=[
          Loop(inv=['_n <= R', 'len(ia_) == R + 1', 'off(end) == old(ia_)[_n]', 'len(elmIdx_) == old(ia_)[_n]', 'len(ja_) <= len(elmIdx_)',
                    'all(ia_[k] == old(ia_)[k] for k in range(_n, R+1) if trig(ia_[k]))',
                    'implies(_n > 0, ia_[0] == 0)', 'implies(_n == 0, len(ja_) == 0)',
                    'all(0 <= ia_[r] and ia_[r] <= len(ja_) for r in range(_n) if trig(ia_[r]))', 'all(implies(r <= s, ia_[r] <= ia_[s]) for r in range(_n) for s in range(_n) if trig(ia_[r], ia_[s]))'] + UNIQ + [
                    'all(implies(old(ia_)[r] <= p and p < old(ia_)[r+1], ia_[r] <= elmIdx_[p] and elmIdx_[p] < (ia_[r+1] if r+1 < _n else len(ja_))) for r in range(_n) for p in range(len(elmIdx_)) if trig(ia_[r], elmIdx_[p]))',
                    'all(implies(ia_[r] <= k and k < l and l < (ia_[r+1] if r+1 < _n else len(ja_)), ja_[k] < ja_[l]) for r in range(_n) for k in range(len(ja_)) for l in range(len(ja_)) if trig(ia_[r], ja_[k], ja_[l]))'],
               end=[By('below', 'ia_[r] <= elmIdx_[p] and elmIdx_[p] < ia_[r+1]', fix=[('r', '0', '_n'), ('p', '0', 'len(elmIdx_)')], when='old(ia_)[r] <= p and p < old(ia_)[r+1]', trig='ia_[r], elmIdx_[p]'),
                    By('asc', 'ja_[k] < ja_[l]', fix=[('r', '0', '_n'), ('k', '0', 'len(ja_)'), ('l', '0', 'len(ja_)')], when='ia_[r] <= k and k < l and l < ia_[r+1]', trig='ia_[r], ja_[k], ja_[l]',
                       given=['start(ia_)[r] == ia_[r]', 'ia_[r+1] == (start(ia_)[r+1] if r+1 < _n else start(len(ja_)))', 'ia_[r+1] <= start(len(ja_))', 'ja_[k] == start(ja_)[k]', 'ja_[l] == start(ja_)[l]',
                              'all(implies(start(ia_)[r] <= k and k < l and l < (start(ia_)[r+1] if r+1 < _n else start(len(ja_))), start(ja_)[k] < start(ja_)[l]) for r in range(_n) for k in range(start(len(ja_))) for l in range(start(len(ja_))) if trig(start(ia_)[r], start(ja_)[k], start(ja_)[l]))']),
                    By('asc2', 'ja_[k] < ja_[l]', fix=[('r', '0', '_n+1'), ('k', '0', 'len(ja_)'), ('l', '0', 'len(ja_)')], when='ia_[r] <= k and k < l and l < (ia_[r+1] if r+1 < _n+1 else len(ja_))', trig='ia_[r], ja_[k], ja_[l]',
                       given=['implies(r < _n, ja_[k] < ja_[l])', 'implies(r >= _n, ja_[k] < ja_[l])'])],
               exit=[By('pl', 'ia_[r] <= elmIdx_[p] and elmIdx_[p] < (ia_[r+1] if r+1 < R else len(ja_))', fix=[('r', '0', 'R'), ('p', '0', 'N')], when='old(ia_)[r] <= p and p < old(ia_)[r+1]', trig='ia_[r], elmIdx_[p]',
                        given=['_n == R', 'len(elmIdx_) == N',
                               'all(implies(old(ia_)[r] <= p and p < old(ia_)[r+1], ia_[r] <= elmIdx_[p] and elmIdx_[p] < (ia_[r+1] if r+1 < _n else len(ja_))) for r in range(_n) for p in range(len(elmIdx_)) if trig(ia_[r], elmIdx_[p]))'])]),
          Loop(inv=['old(ia_)[n0] <= off(begin)', 'off(begin) <= off(end)', 'off(end) == old(ia_)[n0+1]', 'len(elmIdx_) == off(begin)',
                    'pre(len(ja_)) <= len(ja_)', 'len(ja_) <= len(elmIdx_)', 'implies(off(begin) == old(ia_)[n0], len(ja_) == pre(len(ja_)))',
                    'implies(off(begin) > old(ia_)[n0], len(ja_) > pre(len(ja_)) and ja_[len(ja_)-1] == colIdx[off(begin)-1] and implies(off(begin) < off(end), ja_[len(ja_)-1] != colIdx[off(begin)]))'] + UNIQ + SEG, decreases='off(end) - off(begin)'),
          Loop(inv=['old(ia_)[n0] <= off(begin)', 'off(begin) < off(end)', 'off(end) == old(ia_)[n0+1]', 'len(elmIdx_) == off(begin) + 1',
                    'len(ja_) <= len(elmIdx_)', 'elmIdx_[off(begin)] == len(ja_) - 1', 'ja_[len(ja_)-1] == colIdx[off(begin)]'] + UNIQ +
                   ['all(elmIdx_[p] == pre(elmIdx_)[p] for p in range(pre(len(elmIdx_))) if trig(elmIdx_[p]))',
                    'all(elmIdx_[p] >= len(ja_) - 1 for p in range(pre(len(elmIdx_)), len(elmIdx_)) if trig(elmIdx_[p]))'])],
      exit=[By('pl', 'ia_[r] <= E[p] and E[p] < ia_[r+1]', fix=[('r', '0', 'R'), ('p', '0', 'N')], when='old(ia_)[r] <= p and p < old(ia_)[r+1]', trig='old(ia_)[r], E[p]',
               given=['ia_[r] == IA0[r]', 'ia_[r+1] == (IA0[r+1] if r+1 < R else len(ja_))',
                      'all(implies(old(ia_)[r] <= p and p < old(ia_)[r+1], IA0[r] <= E[p] and E[p] < (IA0[r+1] if r+1 < R else len(ja_))) for r in range(R) for p in range(N) if trig(IA0[r], E[p]))']),
            By('onto', 'hit(elmIdx_, N, q)', fix=[('q', '0', 'len(ja_)')], trig='hit(elmIdx_, N, q)',
               given=['N >= 1 and E[0] <= q and q <= E[N-1]', 'climbs(E, N)', 'all(hit(old(elmIdx_), N, p) for p in range(N) if trig(E[p]))',
                      'all(elmIdx_[m] == E[old(elmIdx_)[m]] for m in range(N) if trig(old(elmIdx_)[m]))'], uses=['climb(E, q, N)'])],
      props='C06 C07 C08'),
    C(CSR + 'accumulateConnWeights', ['v'], modifies=['sa_'], throws='len(v) != len(elmIdx_)',
      requires=['all(0 <= elmIdx_[m] and elmIdx_[m] < len(ja_) for m in range(len(elmIdx_)) if trig(elmIdx_[m]))'],
      ensures=[('size', 'len(sa_) == len(ja_)'), ('sums', 'all(sa_[k] == wsum(elmIdx_, v, k, len(v)) for k in range(len(sa_)) if trig(sa_[k]))')],
      loops=[Loop(inv=['len(sa_) == len(ja_)', 'all(sa_[k] == wsum(elmIdx_, v, k, _n) for k in range(len(sa_)) if trig(sa_[k]))'])], props='C06 C07 C08'),
    C(CSR + 'assemble', ['conns'], modifies=['ia_', 'ja_', 'elmIdx_', 'numRows_', 'numCols_'], logic={'I': 'iarr', 'J': 'iarr', 'N': 'int'},
      inst={'I': 'arr(conns.i_)', 'J': 'arr(conns.j_)', 'N': 'len(conns.i_)'},
      requires=['conninv(conns)', 'N < ' + BIG],
      ensures=[('n', 'len(elmIdx_) == N')] + [('csr%d' % k, x) for k, x in enumerate(TPRE)] + [
               ('dims', 'numRows_ == conns.max_i_ + 1'), ('placed', 'placed(ia_, ja_, elmIdx_, I, J, N)')],
      exit=[By('cols', '0 <= ja_[p] and ja_[p] < numCols_', fix=[('p', '0', 'N')], trig='ja_[p]',
               given=['hit(elmIdx_, N, p)', 'all(ja_[elmIdx_[m]] == J[m] for m in range(N) if trig(elmIdx_[m]))', 'all(0 <= J[m] and J[m] < numCols_ for m in range(N) if trig(J[m]))'])],
      props='C06 C07 C08'),
    C(CSR + 'create', ['conns', 'numrows'], modifies=['ia_', 'ja_', 'sa_', 'elmIdx_', 'numRows_', 'numCols_'], logic={'I': 'iarr', 'J': 'iarr', 'N': 'int'},
      inst={'I': 'arr(conns.i_)', 'J': 'arr(conns.j_)', 'N': 'len(conns.i_)'},
      requires=['conninv(conns)', 'len(conns.v_) == 0 or len(conns.v_) == N', 'N < ' + BIG, '0 <= numrows and numrows < ' + BIG],
      throws='N > 0 and conns.max_i_ >= numrows',
      ensures=[('shape', 'csr_shape(ia_, numrows, len(ja_))'), ('size', 'len(elmIdx_) == N and len(ja_) <= N'),
               ('range', 'all(0 <= elmIdx_[m] and elmIdx_[m] < len(ja_) for m in range(N) if trig(elmIdx_[m]))'),
               ('onto', 'onto(elmIdx_, N, len(ja_))'), ('placed', 'placed(ia_, ja_, elmIdx_, I, J, N)'), ('ascending', ASCEND.replace('ROWS', 'numrows')),
               ('unweighted', 'implies(len(conns.v_) == 0, len(sa_) == 0)'),
               ('weighted', 'implies(len(conns.v_) > 0, len(sa_) == len(ja_) and all(sa_[k] == wsum(elmIdx_, conns.v_, k, N) for k in range(len(ja_)) if trig(sa_[k])))')],
      props='C06 C07 C08'),
    C(AC + 'addConnection', ['i', 'j'], modifies=['conns_'], requires=['conninv(conns_)', '0 <= i and i < 2147483647', '0 <= j and j < 2147483647'],
      ensures=[('inv', 'conninv(conns_)'), ('appended', APPEND), ('weights', 'same(conns_.v_, old(conns_.v_))')], exit=[MAXHIT], props='C06 C07 C08'),
    C(AC + 'addConnection', ['i', 'j', 'v'], modifies=['conns_'], requires=['conninv(conns_)', '0 <= i and i < 2147483647', '0 <= j and j < 2147483647'],
      ensures=[('inv', 'conninv(conns_)'), ('appended', APPEND),
               ('weights', 'len(conns_.v_) == old(len(conns_.v_)) + 1 and conns_.v_[old(len(conns_.v_))] == v and all(conns_.v_[k] == old(conns_.v_)[k] for k in range(old(len(conns_.v_))) if trig(conns_.v_[k]))')],
      exit=[MAXHIT], props='C06 C07 C08'),
    C(AC + 'compress', ['numRows'], modifies=['conns_', 'csr_'], logic={'I': 'iarr', 'J': 'iarr', 'V': 'rarr', 'N': 'int'},
      inst={'I': 'arr(conns_.i_)', 'J': 'arr(conns_.j_)', 'V': 'arr(conns_.v_)', 'N': 'len(conns_.i_)'},
      requires=['conninv(conns_)', 'N < ' + BIG, '0 <= numRows and numRows < ' + BIG],
      throws='(len(conns_.v_) > 0 and len(conns_.v_) != N) or any(I[m] >= numRows for m in range(N) if trig(I[m]))',
      ensures=[('rows', 'len(csr_.ia_) == numRows + 1'), ('size', 'len(csr_.ja_) <= N'),
               ('column', 'all(any(J[m] == csr_.ja_[p] for m in range(N) if trig(J[m])) for p in range(len(csr_.ja_)) if trig(csr_.ja_[p]))'),
               ('row', 'all(any(csr_.ia_[I[m]] <= p and p < csr_.ia_[I[m]+1] for m in range(N) if trig(I[m])) for p in range(len(csr_.ja_)) if trig(csr_.sa_[p]))', C7), ('shape', 'csr_shape(csr_.ia_, numRows, len(csr_.ja_))'),
               ('ascending', ASCEND.replace('ROWS', 'numRows').replace('ia_', 'csr_.ia_').replace('ja_', 'csr_.ja_')),
               ('listed', 'all(any(csr_.ia_[I[m]] <= p and p < csr_.ia_[I[m]+1] and csr_.ja_[p] == J[m] for p in range(len(csr_.ja_))) for m in range(N) if trig(I[m]))'),
               ('only', 'all(implies(csr_.ia_[r] <= p and p < csr_.ia_[r+1], any(I[m] == r and J[m] == csr_.ja_[p] for m in range(N) if trig(I[m]))) for r in range(numRows) for p in range(len(csr_.ja_)) if trig(csr_.ia_[r], csr_.ja_[p]))'),
               ('fresh', 'conninv(conns_) and len(conns_.i_) == 0 and len(conns_.v_) == 0', 'C08'),
               ('unweighted', 'implies(old(len(conns_.v_)) == 0, len(csr_.sa_) == 0)'),
               ('weights', 'implies(old(len(conns_.v_)) > 0, len(csr_.sa_) == len(csr_.ja_) and all(implies(csr_.ia_[r] <= p and p < csr_.ia_[r+1], csr_.sa_[p] == csum(I, J, V, r, csr_.ja_[p], N)) for r in range(numRows) for p in range(len(csr_.ja_)) if trig(csr_.ia_[r], csr_.sa_[p])))', C78),
               ('leaving', 'implies(old(len(conns_.v_)) > 0, all(rsum(csr_.sa_, csr_.ia_[r], csr_.ia_[r+1]) == wsum(I, V, r, N) for r in range(numRows) if trig(csr_.ia_[r])))', C7),
               ('entering', 'implies(old(len(conns_.v_)) > 0, all(colsum(csr_.ja_, csr_.sa_, y, len(csr_.ja_)) == wsum(J, V, y, N) for y in ints if trig(wsum(J, V, y, N))))', C7)],
      exit=[By('row', 'any(csr_.ia_[I[m]] <= p and p < csr_.ia_[I[m]+1] for m in range(N) if trig(I[m]))', fix=[('p', '0', 'len(csr_.ja_)')], trig='csr_.sa_[p]', given=['hit(csr_.elmIdx_, N, p)', PLACED], props=C7),
            By('column', 'any(J[m] == csr_.ja_[p] for m in range(N) if trig(J[m]))', fix=[('p', '0', 'len(csr_.ja_)')], trig='csr_.ja_[p]',
               given=['hit(csr_.elmIdx_, N, p)', PLACED]),
            By('only', 'any(I[m] == r and J[m] == csr_.ja_[p] for m in range(N) if trig(I[m]))', fix=[('r', '0', 'numRows'), ('p', '0', 'len(csr_.ja_)')],
               when='csr_.ia_[r] <= p and p < csr_.ia_[r+1]', trig='csr_.ia_[r], csr_.ja_[p]',
               given=['hit(csr_.elmIdx_, N, p)', PLACED, 'mono(csr_.ia_, numRows)', IRANGE], uses=['all(rowuniq(csr_.ia_, numRows, r, I[m], p) for m in range(N) if trig(csr_.elmIdx_[m]))']),
            By('pos', 'iff(csr_.elmIdx_[m] == p, I[m] == r and J[m] == csr_.ja_[p])', fix=[('r', '0', 'numRows'), ('p', '0', 'len(csr_.ja_)'), ('m', '0', 'N')],
               when='csr_.ia_[r] <= p and p < csr_.ia_[r+1]', trig='csr_.ia_[r], csr_.ja_[p], csr_.elmIdx_[m]', props=C78,
               given=[PLACED, 'mono(csr_.ia_, numRows)', IRANGE, 'all(0 <= csr_.elmIdx_[m] and csr_.elmIdx_[m] < len(csr_.ja_) for m in range(N) if trig(csr_.elmIdx_[m]))', 'csr_.elmIdx_[m] == csr_.elmIdx_[m]', CASC],
               uses=['rowuniq(csr_.ia_, numRows, r, I[m], p)']),
            By('weights', 'csr_.sa_[p] == csum(I, J, V, r, csr_.ja_[p], N)', fix=[('r', '0', 'numRows'), ('p', '0', 'len(csr_.ja_)')],
               when=WT + ' and csr_.ia_[r] <= p and p < csr_.ia_[r+1]', trig='csr_.ia_[r], csr_.sa_[p]', props=C78,
               given=['csr_.sa_[p] == wsum(csr_.elmIdx_, V, p, N)', 'all(iff(csr_.elmIdx_[m] == p, I[m] == r and J[m] == csr_.ja_[p]) for m in range(N) if trig(csr_.elmIdx_[m]))'],
               uses=['wsum_csum(csr_.elmIdx_, I, J, V, p, r, csr_.ja_[p], N)']),
            By('leaving', 'rsum(csr_.sa_, csr_.ia_[r], csr_.ia_[r+1]) == wsum(I, V, r, N)', fix=[('r', '0', 'numRows')], when=WT, trig='csr_.ia_[r]', props=C7,
               given=['csr_.ia_[r] <= csr_.ia_[r+1]', 'all(csr_.sa_[k] == wsum(csr_.elmIdx_, V, k, N) for k in range(csr_.ia_[r], csr_.ia_[r+1]) if trig(csr_.sa_[k]))',
                      'all(iff(csr_.ia_[r] <= csr_.elmIdx_[m] and csr_.elmIdx_[m] < csr_.ia_[r+1], I[m] == r) for m in range(N) if trig(csr_.elmIdx_[m]))'],
               uses=['rowsum(csr_.sa_, csr_.elmIdx_, V, csr_.ia_[r], csr_.ia_[r+1], N)', 'rangesum_wsum(csr_.elmIdx_, I, V, csr_.ia_[r], csr_.ia_[r+1], r, N)']),
            By('entering', 'colsum(csr_.ja_, csr_.sa_, y, len(csr_.ja_)) == wsum(J, V, y, N)', fix=[('y', None, None)], when=WT, trig='wsum(J, V, y, N)', props=C7,
               given=['len(csr_.ja_) >= 0', 'all(csr_.elmIdx_[m] >= 0 for m in range(N) if trig(csr_.elmIdx_[m]))', 'all(csr_.sa_[k] == wsum(csr_.elmIdx_, V, k, N) for k in range(len(csr_.ja_)) if trig(csr_.sa_[k]))',
                      'all(csr_.elmIdx_[m] < len(csr_.ja_) and csr_.ja_[csr_.elmIdx_[m]] == J[m] for m in range(N) if trig(csr_.elmIdx_[m]))'],
               uses=['colsum_part(csr_.elmIdx_, csr_.ja_, csr_.sa_, V, y, len(csr_.ja_), N)', 'colpart_wsum(csr_.elmIdx_, csr_.ja_, J, V, y, len(csr_.ja_), N)'])],
      props='C06 C07 C08'),
    C(AC + 'cellNeighbourhood', ['cell'], inline=True,
      requires=['csr_shape(csr_.ia_, len(csr_.ia_)-1, len(csr_.ja_))', '0 <= cell and cell < len(csr_.ia_)-1', 'cell < 2147483647', 'len(csr_.sa_) == len(csr_.ja_)'],
      ensures=[('nbBegin', 'into(result.begin_.neighbour_iter_, csr_.ja_) and off(result.begin_.neighbour_iter_) == csr_.ia_[cell]'),
               ('wtBegin', 'into(result.begin_.weight_iter_, csr_.sa_) and off(result.begin_.weight_iter_) == csr_.ia_[cell]'),
               ('nbEnd', 'into(result.end_.neighbour_iter_, csr_.ja_) and off(result.end_.neighbour_iter_) == csr_.ia_[cell+1]'),
               ('wtEnd', 'into(result.end_.weight_iter_, csr_.sa_) and off(result.end_.weight_iter_) == csr_.ia_[cell+1]')], props='C07 C09'),
    C(AC + 'numRows', [], inline=True, requires=['len(csr_.ia_) >= 1'], ensures=['result == len(csr_.ia_) - 1'], props='C06 C07 C08 C09'),
    C(AC + 'startPointers', [], inline=True, ensures=['same(result, csr_.ia_)'], props='C06 C07 C08 C09'),
    C(AC + 'neighbourhood', [], inline=True, ensures=['same(result, csr_.ja_)'], props='C06 C07 C08 C09'),
    C(AC + 'connectionWeight', [], inline=True, ensures=['same(result, csr_.sa_)'], props='C06 C07 C08 C09'),
    C(NI + 'operator*', [], inline=True, requires=[INB],
      ensures=[('neighbour', 'result.neighbour == deref(neighbour_iter_)'), ('weight', 'result.weight == deref(weight_iter_)')], props='C07 C09'),
    C(NI + 'operator++', [], inline=True, modifies=['neighbour_iter_', 'weight_iter_'],
      ensures=[('neighbour', 'off(neighbour_iter_) == old(off(neighbour_iter_)) + 1'), ('weight', 'off(weight_iter_) == old(off(weight_iter_)) + 1')], props='C07 C09'),
    C(NI + 'operator!=', ['other'], inline=True, shape={'other.neighbour_iter_': ('neighbour_iter_', 'o1'), 'other.weight_iter_': ('weight_iter_', 'o2')},
      requires=['iff(off(neighbour_iter_) == off(other.neighbour_iter_), off(weight_iter_) == off(other.weight_iter_))'],
      ensures=['iff(result, off(neighbour_iter_) != off(other.neighbour_iter_))'], props='C07 C09'),
    C('Opm::operator<<', ['os', 'ac'], modifies=['os'], logic={'T': 'int', 'R': 'int'}, inst={'T': 'len(os.tok)', 'R': 'len(ac.csr_.ia_)-1'},
      requires=['csr_shape(ac.csr_.ia_, R, len(ac.csr_.ja_))', 'len(ac.csr_.sa_) == len(ac.csr_.ja_)', 'R >= 0', 'R <= 2147483647', 'len(os.kind) == T', 'T + 6*len(ac.csr_.ja_) < ' + BIG],
      ensures=[('precision', 'os.prec == old(os.prec)'), ('flags', 'os.flags == old(os.flags)'),
               ('length', 'len(os.tok) == T + 6*len(ac.csr_.ja_) and len(os.kind) == len(os.tok)'),
               ('before', 'all(os.tok[t] == old(os.tok)[t] and os.kind[t] == old(os.kind)[t] for t in range(T) if trig(os.tok[t]))'),
               ('lines', LINES % 'R')],
      loops=[Loop(inv=['len(os.tok) == T + 6*ac.csr_.ia_[_n] and len(os.kind) == len(os.tok)',
                       'all(os.tok[t] == old(os.tok)[t] and os.kind[t] == old(os.kind)[t] for t in range(T) if trig(os.tok[t]))',
                       LINES % '_n']),
             Loop(inv=['len(os.tok) == T + 6*(ac.csr_.ia_[n0] + _n) and len(os.kind) == len(os.tok)', 'ac.csr_.ia_[n0] + _n <= ac.csr_.ia_[n0+1]',
                       'all(os.tok[t] == old(os.tok)[t] and os.kind[t] == old(os.kind)[t] for t in range(T) if trig(os.tok[t]))',
                       LINES % 'n0',
                       'all(line(os, T, n0, p, ac.csr_.ja_[p], ac.csr_.sa_[p]) for p in range(ac.csr_.ia_[n0], ac.csr_.ia_[n0] + _n) if trig(ac.csr_.ja_[p]))'])],
      props='C09'),
]
