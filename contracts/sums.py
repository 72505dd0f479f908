"""C18: superposition of well tracers.  Pure lemmas over the contracts' clauses."""


def setup(L):
    H, N = ('h', 'rarr'), ('n', 'int')
    # ---- finite sums and their reindexing
    L.fn('isum', [H, N], 'real', '0 if n <= 0 else isum(h, n-1) + h[n-1]')
    L.fn('pick', [H, ('r', 'iarr'), N], 'real', '0 if n <= 0 else pick(h, r, n-1) + h[r[n-1]]')
    L.lemma('isum_ext', [H, ('g', 'rarr'), N], ['all(h[k] == g[k] for k in range(n) if trig(h[k]))'], 'isum(h, n) == isum(g, n)', induct='n', uses=['h[n-1] == h[n-1]'])
    L.lemma('isum_zero', [H, N], ['all(h[k] == 0 for k in range(n) if trig(h[k]))'], 'isum(h, n) == 0', induct='n', uses=['h[n-1] == h[n-1]'])
    L.lemma('isum_store', [H, ('i', 'int'), ('v', 'real'), N], ['0 <= i', 'i < n'], 'isum(store(h, i, v), n) == isum(h, n) - h[i] + v', induct='n', base='i+1', uses=['isum_ext(h, store(h, i, v), i)'])
    L.lemma('pick_ext', [H, ('g', 'rarr'), ('r', 'iarr'), N], ['all(h[r[k]] == g[r[k]] for k in range(n) if trig(r[k]))'], 'pick(h, r, n) == pick(g, r, n)', induct='n', uses=['r[n-1] == r[n-1]'])
    # every position with a non-zero value is picked exactly once
    L.lemma('reindex', [H, ('r', 'iarr'), ('K', 'int'), ('M', 'int')],
            ['all(0 <= r[k] and r[k] < M for k in range(K) if trig(r[k]))', 'all(implies(r[a] == r[b], a == b) for a in range(K) for b in range(K) if trig(r[a], r[b]))',
             'all(implies(h[i] != 0, any(r[k] == i for k in range(K) if trig(r[k]))) for i in range(M) if trig(h[i]))'],
            'pick(h, r, K) == isum(h, M)', induct='K', hyps=['reindex(store(h, r[K-1], 0), r, K-1, M)'],
            uses=['r[K-1] == r[K-1]', 'isum_store(h, r[K-1], 0, M)', 'pick_ext(h, store(h, r[K-1], 0), r, K-1)', 'isum_zero(h, M)'])
    # ---- several fields on one graph
    L.fn('fsum', [('FT', 'irarr'), ('c', 'int'), N], 'real', '0 if n <= 0 else fsum(FT, c, n-1) + FT[n-1][c]')
    G = [('ja', 'iarr'), ('sa', 'rarr')]
    L.fn('fup', G + [('FT', 'irarr'), ('lo', 'int'), ('hi', 'int'), N], 'real', '0 if n <= 0 else fup(ja, sa, FT, lo, hi, n-1) + usum(ja, sa, FT[n-1], lo, hi)')
    L.lemma('fup_none', G + [('FT', 'irarr'), ('lo', 'int'), ('hi', 'int'), N], ['hi <= lo'], 'fup(ja, sa, FT, lo, hi, n) == 0', induct='n')
    L.lemma('mul_sum', [('a', 'real'), ('b', 'real'), ('s', 'real')], [], '(a + b) * s == a * s + b * s')
    L.lemma('fup_step', G + [('FT', 'irarr'), ('lo', 'int'), ('hi', 'int'), N], ['lo < hi'], 'fup(ja, sa, FT, lo, hi, n) == fup(ja, sa, FT, lo, hi-1, n) + fsum(FT, ja[hi-1], n) * sa[hi-1]', induct='n',
            uses=['mul_sum(fsum(FT, ja[hi-1], n-1), FT[n-1][ja[hi-1]], sa[hi-1])'])
    L.lemma('usum_fsum', G + [('FT', 'irarr'), ('S', 'rarr'), ('lo', 'int'), ('hi', 'int'), N], ['all(S[ja[k]] == fsum(FT, ja[k], n) for k in range(lo, hi) if trig(ja[k]))'],
            'usum(ja, sa, S, lo, hi) == fup(ja, sa, FT, lo, hi, n)', induct='hi', base='lo', uses=['ja[hi-1] == ja[hi-1]', 'fup_none(ja, sa, FT, lo, hi, n)', 'fup_step(ja, sa, FT, lo, hi, n)'])
    L.lemma('superpose', G + [('FT', 'irarr'), ('SO', 'irarr'), ('q', 'real'), ('lo', 'int'), ('hi', 'int'), ('c', 'int'), N],
            ['all(FT[w][c] * q == usum(ja, sa, FT[w], lo, hi) + SO[w][c] for w in range(n) if trig(FT[w]))'],
            'fsum(FT, c, n) * q == fup(ja, sa, FT, lo, hi, n) + fsum(SO, c, n)', induct='n', uses=['FT[n-1] == FT[n-1]', 'mul_sum(fsum(FT, c, n-1), FT[n-1][c], q)'])
    # ---- the unit field solves the summed balance, and on an acyclic graph it is the only solution
    L.lemma('usum_one', G + [('t', 'rarr'), ('lo', 'int'), ('hi', 'int')], ['all(t[ja[k]] == 1 for k in range(lo, hi) if trig(ja[k]))'], 'usum(ja, sa, t, lo, hi) == rsum(sa, lo, hi)', induct='hi', base='lo', uses=['ja[hi-1] == ja[hi-1]'])
    L.lemma('unitary', [('a', 'real'), ('q', 'real')], ['q > 0', 'a * q == q'], 'a == 1')
    L.macro('qty', ['c'], '(rsum(HS, HI[c], HI[c+1]) + SRC[c])')
    U = [('HI', 'iarr'), ('HJ', 'iarr'), ('HS', 'rarr'), ('NC', 'int'), ('SRC', 'rarr'), ('Rk', 'iarr')]
    A, AS = 'HI, HJ, HS, NC, SRC, Rk', 'HI, HJ, HS, NC, SRC, Rk, S'
    L.fn('upwind', U, 'bool', 'all(implies(HI[c] <= k and k < HI[c+1], 0 <= HJ[k] and HJ[k] < NC and Rk[HJ[k]] < Rk[c] and qty(HJ[k]) > 0) for c in range(NC) for k in ints if trig(Rk[c], HJ[k]))')
    L.fn('unitbelow', U + [('S', 'rarr'), ('r', 'int')], 'bool', 'all(implies(Rk[c] < r and qty(c) > 0, S[c] == 1) for c in range(NC) if trig(Rk[c]))')
    L.fn('summed', U + [('S', 'rarr')], 'bool', 'all(S[c] * qty(c) == usum(HJ, HS, S, HI[c], HI[c+1]) + SRC[c] for c in range(NC) if trig(Rk[c]))')
    L.lemma('unit_cell', G + [('S', 'rarr'), ('lo', 'int'), ('hi', 'int'), ('a', 'real'), ('src', 'real')],
            ['all(S[ja[k]] == 1 for k in range(lo, hi) if trig(ja[k]))', 'rsum(sa, lo, hi) + src > 0', 'a * (rsum(sa, lo, hi) + src) == usum(ja, sa, S, lo, hi) + src'], 'a == 1',
            uses=['usum_one(ja, sa, S, lo, hi)', 'unitary(a, rsum(sa, lo, hi) + src)'])
    L.lemma('unit_next', U + [('S', 'rarr'), ('c', 'int')], ['0 <= c and c < NC', 'upwind(%s)' % A, 'unitbelow(%s, Rk[c])' % AS, 'qty(c) > 0', 'summed(%s)' % AS], 'S[c] == 1',
            uses=['Rk[c] == Rk[c]', 'unit_cell(HJ, HS, S, HI[c], HI[c+1], S[c], SRC[c])'])
    L.lemma('unit', U + [('S', 'rarr'), ('r', 'int')], ['upwind(%s)' % A, 'all(Rk[c] >= 0 for c in range(NC) if trig(Rk[c]))', 'summed(%s)' % AS], 'unitbelow(%s, r)' % AS, induct='r',
            uses=['all(unit_next(%s, c) for c in range(NC) if trig(Rk[c]))' % AS])
    # ---- the wells: request w asks for well Id[w], whose own injection is SO[w]
    W = [('D', 'sbarr'), ('E', 'siarr'), ('V', 'srarr')]
    L.lemma('injsum_isum', W + [H, ('c', 'int'), N], ['all(h[i] == inj(E, V, mkey(D, i), c) for i in range(n) if trig(h[i]))'], 'injsum(D, E, V, c, n) == isum(h, n)', induct='n', uses=['h[n-1] == h[n-1]'])
    L.lemma('prodsum_isum', W + [H, ('c', 'int'), N], ['all(h[i] == prod(E, V, mkey(D, i), c) for i in range(n) if trig(h[i]))'], 'prodsum(D, E, V, c, n) == isum(h, n)', induct='n', uses=['h[n-1] == h[n-1]'])
    L.lemma('fsum_pick', [H, ('r', 'iarr'), ('SO', 'irarr'), ('c', 'int'), N], ['all(SO[w][c] == h[r[w]] for w in range(n) if trig(r[w]))'], 'fsum(SO, c, n) == pick(h, r, n)', induct='n', uses=['r[n-1] == r[n-1]'])
    for s in ('inj', 'prod'):
        L.lemma(s + '_sources', W + [('SO', 'irarr'), ('Id', 'isarr'), ('K', 'int'), ('c', 'int'), H, ('r', 'iarr')],
                ['all(h[i] == %s(E, V, mkey(D, i), c) for i in range(msize(D)) if trig(h[i]))' % s,
                 'all(r[w] == mrank(D, Id[w]) and 0 <= r[w] and r[w] < msize(D) and mkey(D, r[w]) == Id[w] for w in range(K) if trig(r[w]))',
                 'all(implies(r[a] == r[b], a == b) for a in range(K) for b in range(K) if trig(r[a], r[b]))',
                 # every well that feeds c is requested
                 'all(implies(h[i] != 0, any(r[w] == i for w in range(K) if trig(r[w]))) for i in range(msize(D)) if trig(h[i]))',
                 'all(SO[w][c] == %s(E, V, Id[w], c) for w in range(K) if trig(r[w]))' % s],
                'fsum(SO, c, K) == %ssum(D, E, V, c, msize(D))' % s,
                uses=['%ssum_isum(D, E, V, h, c, msize(D))' % s, 'reindex(h, r, K, msize(D))', 'fsum_pick(h, r, SO, c, K)'])
    F = [('FT', 'irarr'), ('SO', 'irarr'), ('K', 'int')]
    # every requested field satisfies the upwind balance of cell c (C15)
    L.fn('perwell', U + F + [('c', 'int')], 'bool', 'all(FT[w][c] * qty(c) == usum(HJ, HS, FT[w], HI[c], HI[c+1]) + SO[w][c] for w in range(K) if trig(FT[w]))')
    L.lemma('sum_cell', U + F + [('S', 'rarr'), ('c', 'int')], ['perwell(%s, FT, SO, K, c)' % A, 'all(S[y] == fsum(FT, y, K) for y in ints if trig(S[y]))', 'SRC[c] == fsum(SO, c, K)'],
            'S[c] * qty(c) == usum(HJ, HS, S, HI[c], HI[c+1]) + SRC[c]', uses=['S[c] == S[c]', 'superpose(HJ, HS, FT, SO, qty(c), HI[c], HI[c+1], c, K)', 'usum_fsum(HJ, HS, FT, S, HI[c], HI[c+1], K)'])
    ADD = ['all(perwell(%s, FT, SO, K, c) and SRC[c] == fsum(SO, c, K) for c in range(NC) if trig(Rk[c]))' % A, 'all(S[y] == fsum(FT, y, K) for y in ints if trig(S[y]))']
    L.lemma('sum_all', U + F + [('S', 'rarr')], ADD, 'summed(%s)' % AS, uses=['all(sum_cell(%s, FT, SO, K, S, c) for c in range(NC) if trig(Rk[c]))' % A])
    L.lemma('wells_add_up', U + F + [('S', 'rarr'), ('x', 'int')], ['upwind(%s)' % A, 'all(Rk[c] >= 0 for c in range(NC) if trig(Rk[c]))'] + ADD + ['0 <= x and x < NC', 'qty(x) > 0'],
            'fsum(FT, x, K) == 1', uses=['sum_all(%s, FT, SO, K, S)' % A, 'unit(%s, Rk[x]+1)' % AS, 'Rk[x] == Rk[x]', 'S[x] == S[x]'])
    # on an acyclic graph no cell lies on a cycle, so the balance of C15 holds in every cell
    Q = [('GI', 'iarr'), ('GJ', 'iarr')] + U
    L.macro('mirror', [], 'all(iff(edge(GI, GJ, u, c), edge(HI, HJ, c, u)) for u in range(NC) for c in range(NC) if trig(edge(GI, GJ, u, c)) if trig(edge(HI, HJ, c, u)))')
    L.lemma('downhill', Q + [('u', 'int'), ('e', 'int')], ['upwind(%s)' % A, 'mirror()', '0 <= u and u < NC and GI[u] <= e and e < GI[u+1] and 0 <= GJ[e] and GJ[e] < NC'], 'Rk[u] < Rk[GJ[e]]',
            uses=['edge(GI, GJ, u, GJ[e]) == edge(GI, GJ, u, GJ[e])', 'edge(HI, HJ, GJ[e], u) == edge(HI, HJ, GJ[e], u)', 'Rk[GJ[e]] == Rk[GJ[e]]'])
    INSIDE = 'all(implies(GI[u] <= e and e < GI[u+1], 0 <= GJ[e] and GJ[e] < NC) for u in range(NC) for e in ints if trig(GI[u], GJ[e]))'
    STEP = [('B', 'barr'), ('x', 'int')]
    HIGH = ['upwind(%s)' % A, 'mirror()', 'all(iff(B[y], Rk[y] > Rk[x]) for y in ints if trig(B[y]))', '0 <= x and x < NC', INSIDE]
    L.lemma('no_cycle_step', Q + STEP + [('u', 'int'), ('e', 'int')], HIGH + ['0 <= u and u < NC and GI[u] <= e and e < GI[u+1] and (B[u] or u == x)'], 'B[GJ[e]]', uses=['GI[u] == GI[u]', 'B[u] == B[u]', 'B[GJ[e]] == B[GJ[e]]', 'downhill(GI, GJ, %s, u, e)' % A])
    L.lemma('no_cycle', Q + STEP, HIGH, 'closed(B, NC, GI, GJ) and not B[x] and all(B[GJ[e]] for e in range(GI[x], GI[x+1]) if trig(GJ[e]))',
            uses=['all(no_cycle_step(GI, GJ, %s, B, x, u, e) for u in range(NC) for e in ints if trig(B[u], GJ[e]))' % A, 'B[x] == B[x]'])
    # a cell without any inflow is reached by no well: all other cells are closed under flow
    REST = ['mirror()', 'all(iff(B[y], y != x) for y in ints if trig(B[y]))', '0 <= x and x < NC', 'HI[x] == HI[x+1]', INSIDE]
    L.lemma('no_entry_step', Q + STEP + [('u', 'int'), ('e', 'int')], REST + ['0 <= u and u < NC and GI[u] <= e and e < GI[u+1]'], 'B[GJ[e]]', uses=['GI[u] == GI[u]', 'B[GJ[e]] == B[GJ[e]]', 'edge(GI, GJ, u, GJ[e]) == edge(GI, GJ, u, GJ[e])', 'edge(HI, HJ, GJ[e], u) == edge(HI, HJ, GJ[e], u)'])
    L.lemma('no_entry', Q + STEP, REST, 'closed(B, NC, GI, GJ) and not B[x]', uses=['all(no_entry_step(GI, GJ, %s, B, x, u, e) for u in range(NC) for e in ints if trig(B[u], GJ[e]))' % A, 'B[x] == B[x]'])
    # ---- Rk ranks the cells along the flow: the graph is acyclic, and what lies above a cell is closed under flow
    K = [('GI', 'iarr'), ('GJ', 'iarr'), ('HI', 'iarr'), ('HJ', 'iarr'), ('NC', 'int'), ('Rk', 'iarr'), ('x', 'int')]
    L.fn('ranked', [('HI', 'iarr'), ('HJ', 'iarr'), ('NC', 'int'), ('Rk', 'iarr')], 'bool', 'all(implies(HI[c] <= k and k < HI[c+1], Rk[HJ[k]] < Rk[c]) for c in range(NC) for k in ints if trig(Rk[c], HJ[k]))')
    L.fn('above', [('Rk', 'iarr'), ('x', 'int')], 'barr', comp=('y', 'Rk[y] > Rk[x]'))
    RANK = ['ranked(HI, HJ, NC, Rk)', 'mirror()', '0 <= x and x < NC', INSIDE]
    L.lemma('above_step', K + [('u', 'int'), ('e', 'int')], RANK + ['0 <= u and u < NC and GI[u] <= e and e < GI[u+1] and (above(Rk, x)[u] or u == x)'], 'above(Rk, x)[GJ[e]]',
            uses=['GI[u] == GI[u]', 'above(Rk, x)[u] == above(Rk, x)[u]', 'above(Rk, x)[GJ[e]] == above(Rk, x)[GJ[e]]', 'edge(GI, GJ, u, GJ[e]) == edge(GI, GJ, u, GJ[e])', 'edge(HI, HJ, GJ[e], u) == edge(HI, HJ, GJ[e], u)', 'Rk[GJ[e]] == Rk[GJ[e]]'])
    L.lemma('above_closed', K, RANK, 'closed(above(Rk, x), NC, GI, GJ) and not above(Rk, x)[x] and all(above(Rk, x)[GJ[e]] for e in range(GI[x], GI[x+1]) if trig(GJ[e]))',
            uses=['all(above_step(GI, GJ, HI, HJ, NC, Rk, x, u, e) for u in range(NC) for e in ints if trig(above(Rk, x)[u], GJ[e]))', 'above(Rk, x)[x] == above(Rk, x)[x]'])
    L.lemma('srsum_pos', [('sa', 'rarr'), ('lo', 'int'), ('hi', 'int'), ('i', 'int')], ['all(sa[k] > 0 for k in range(lo, hi) if trig(sa[k]))', 'lo <= i', 'i < hi'], 'rsum(sa, lo, hi) > 0', induct='hi', base='i+1',
            uses=['sa[hi-1] == sa[hi-1]', 'sa[i] == sa[i]', 'srsum_nonneg(sa, lo, i)'])
    # ---- the requested fields (Toolbox): own source of a request, contributions of all wells to a cell
    L.fn('owned', [('D', 'barr'), ('V', 'rarr')], 'rarr', comp=('c', '(V[c] if D[c] else 0)'))
    for s in ('inj', 'prod'):
        L.fn(s + 'col', W + [('c', 'int')], 'rarr', comp=('i', '%s(E, V, mkey(D, i), c)' % s))
