"""Tarjan's algorithm: tarjan.c."""
import z3
from vc.core import Contract as C, Loop, By
from vc.values import Ptr, RecV, Vec, NULL

NMAX = '2147483647'
SOLVER = ' C13 C15 C16 C17 C18'       # the transport solver's properties rest on the decomposition
ALL = 'C01 C02 C03 C04 C05' + SOLVER
GRAPH = 'C01 C02 C03 C05' + SOLVER
TOPO = 'C01 C02 C03' + SOLVER
REACH = 'C01 C03' + SOLVER


def setup(L):
    # number of vertices not yet discovered
    L.fn('rem', [('S', 'iarr'), ('n', 'int')], 'int', '0 if n <= 0 else rem(S, n-1) + (1 if S[n-1] == -1 else 0)')
    L.lemma('rem_bounds', [('S', 'iarr'), ('n', 'int')], ['n >= 0'], '0 <= rem(S, n) and rem(S, n) <= n', induct='n')
    L.lemma('rem_some', [('S', 'iarr'), ('c', 'int'), ('n', 'int')], ['0 <= c', 'c < n', 'S[c] == -1'], 'rem(S, n) >= 1', induct='n', base='c+1',
            uses=['rem_bounds(S, n-1)'])
    L.lemma('rem_none', [('S', 'iarr'), ('n', 'int')], ['n >= 0', 'all(S[v] != -1 for v in range(n) if trig(S[v]))'], 'rem(S, n) == 0', induct='n')
    L.lemma('rem_all', [('S', 'iarr'), ('n', 'int')], ['n >= 0', 'all(S[v] == -1 for v in range(n) if trig(S[v]))'], 'rem(S, n) == n', induct='n')
    L.lemma('rem_same', [('S', 'iarr'), ('Z', 'iarr'), ('n', 'int')], ['n >= 0', 'all(iff(S[v] == -1, Z[v] == -1) for v in range(n) if trig(Z[v]))'],
            'rem(S, n) == rem(Z, n)', induct='n')
    L.lemma('rem_take', [('S', 'iarr'), ('Z', 'iarr'), ('c', 'int'), ('n', 'int')],
            ['0 <= c', 'c < n', 'S[c] == -1', 'Z[c] != -1', 'all(implies(v != c, iff(S[v] == -1, Z[v] == -1)) for v in range(n) if trig(Z[v]))'],
            'rem(Z, n) == rem(S, n) - 1', induct='n', base='c+1', uses=['rem_same(S, Z, n-1)'])
    # from every position the link leads upwards, staying below t: closed sets reach t
    L.lemma('upto', [('A', 'iarr'), ('P', 'iarr'), ('Y', 'iarr'), ('R', 'barr'), ('t', 'int'), ('m', 'int')],
            ['m >= 0', 'all(q < P[Y[A[q]]] and P[Y[A[q]]] <= t and A[P[Y[A[q]]]] == Y[A[q]] and implies(R[A[q]], R[Y[A[q]]]) for q in range(t-m+1, t) if trig(A[q]))'],
            'all(implies(R[A[q]], R[A[t]]) for q in range(t-m+1, t+1) if trig(A[q]))', induct='m')
    L.macro('mono', ['a', 'R'], 'all(implies(r <= s, a[r] <= a[s]) for r in range(R+1) for s in range(R+1) if trig(a[r], a[s]))')
    L.macro('rising', ['a', 'R'], 'all(implies(r < s, a[r] < a[s]) for r in range(R+1) for s in range(R+1) if trig(a[r], a[s]))')
    L.macro('graph', ['nv', 'ia', 'ja'],
            '0 <= nv and nv <= %s and len(ia) >= nv+1 and 0 <= ia[0] and ia[nv] <= len(ja) and mono(ia, nv) and all(implies(w == v+1, ia[w] - ia[v] <= %s) for v in range(nv) for w in range(nv+1) if trig(ia[v], ia[w])) and '
            'all(0 <= ja[e] and ja[e] < nv for e in range(ia[0], ia[nv]) if trig(ja[e]))' % (NMAX, NMAX))
    L.macro('closed', ['R', 'nv', 'ia', 'ja'], 'all(implies(R[v] and ia[v] <= e and e < ia[v+1], R[ja[e]]) for v in range(nv) for e in ints if trig(R[v], ja[e]))')
    # what the contracts say about paths P[0] -> P[1] -> .. -> P[k] (edge number E[i] from P[i] to P[i+1])
    L.macro('walk', ['P', 'E', 'k', 'nv', 'ia', 'ja'], 'all(0 <= P[i] and P[i] < nv and ia[P[i]] <= E[i] and E[i] < ia[P[i]+1] and ja[E[i]] == P[i+1] for i in range(k) if trig(P[i]))')
    G = [('P', 'iarr'), ('E', 'iarr'), ('ia', 'iarr'), ('ja', 'iarr'), ('nv', 'int'), ('k', 'int')]
    L.lemma('walk_descends', [('Cmp', 'iarr')] + G, ['k >= 0', 'walk(P, E, k, nv, ia, ja)', 'all(implies(ia[v] <= e and e < ia[v+1], Cmp[ja[e]] <= Cmp[v]) for v in range(nv) for e in ints if trig(ia[v], ja[e]))'],
            'Cmp[P[k]] <= Cmp[P[0]]', induct='k', uses=['P[k-1] == P[k-1]'])
    L.lemma('walk_closed', [('R', 'barr')] + G, ['k >= 0', 'walk(P, E, k, nv, ia, ja)', 'closed(R, nv, ia, ja)', 'R[P[0]]'], 'R[P[k]]', induct='k', uses=['P[k-1] == P[k-1]'])
    # a (partial) decomposition: K components, listed vertices 0 <= p < st[K]; Pos and Cmp locate each vertex
    L.macro('csr', ['K', 'st'], 'K >= 0 and K <= st[K] and st[0] == 0 and rising(st, K)')
    L.macro('partition', ['K', 'st', 've', 'n', 'Pos', 'Cmp'],
            'all(0 <= ve[p] and ve[p] < n and Pos[ve[p]] == p for p in range(n) if trig(ve[p])) and all(0 <= Pos[v] and Pos[v] < n and ve[Pos[v]] == v for v in range(n) if trig(Pos[v])) and '
            'all(0 <= Cmp[v] and Cmp[v] < K and st[Cmp[v]] <= Pos[v] and Pos[v] < st[Cmp[v]+1] for v in range(n) if trig(Cmp[v]))')
    L.macro('listed', ['K', 'st', 've', 'n', 'Pos', 'Cmp', 'S', 'N'],
            'all(0 <= ve[p] and ve[p] < n and S[ve[p]] == -2 and Pos[ve[p]] == p for p in range(st[K]) if trig(ve[p])) and '
            'all(implies(S[v] == -2, v < n and 0 <= Pos[v] and Pos[v] < st[K]) for v in range(N) if trig(S[v])) and all(implies(S[v] == -2, ve[Pos[v]] == v) for v in range(N) if trig(ve[Pos[v]])) and '
            'all(implies(S[v] == -2, 0 <= Cmp[v] and Cmp[v] < K and st[Cmp[v]] <= Pos[v] and Pos[v] < st[Cmp[v]+1]) for v in range(N) if trig(Cmp[v]))')


S, LK, T, ST, VE, K, VS, CS = ('work.status', 'work.link', 'work.time', 'scc.start', 'scc.vert', 'scc.ncomp', 'off(scc.vstack)', 'off(scc.cstack)')
STACKS = {'scc.vstack': ('scc.start', 'vs0'), 'scc.vstart': ('scc.start', 've0'), 'scc.cstack': ('scc.vert', 'cs0'), 'scc.cstart': ('scc.vert', 'ce0')}


def m(s, **kw):
    """Short names: S L T arrays, A start region, B vert region, K ncomp, vs cs stack tops."""
    import re
    s = re.sub(r'\bTOP\b', 'A[vs+1]', s)
    s = re.sub(r'\bCH\b', 'ja[ia[c]+S[c]]', s)
    s = s.replace('POPPED', 'old(S)[v] >= 0 and old(Pos)[v] <= pc')
    tab = dict(S=S, L=LK, T=T, A=ST, B=VE, K=K, vs=VS, cs=CS, N='work.nvert')
    tab.update(kw)
    return re.sub(r'\b(%s)\b' % '|'.join(tab), lambda x: tab[x.group(1)], s)


def eff_workspace(ex, names, this):
    """create_tarjan_workspace by contract: null, or one block seen as three disjoint arrays
    of nvert elements each (its verified layout)."""
    if alloc_fails(ex):
        return NULL
    n = ex.load(names['nvert'])
    ps = []
    for nm in ('status', 'link', 'time'):
        v = ex.fresh_tree(('vec', ('int', 32, True)), 'ws_' + nm)
        ex.assume(v.len == n)
        ps.append(ex.new_root(v, ('vec', ('int', 32, True)), 'ws.' + nm))
    ex.heap[ps[0].root] = 'live'
    for l in ps[1:]:
        ex.group[l.root] = ps[0].root
    ws = ex.new_root(RecV('TarjanWorkSpace', dict(nvert=n, status=Ptr(ps[0], z3.IntVal(0)), link=Ptr(ps[1], z3.IntVal(0)), time=Ptr(ps[2], z3.IntVal(0)))),
                     ('rec', 'TarjanWorkSpace'), 'ws')
    ex.heap[ws.root] = 'live'
    return Ptr(ws)


def alloc_fails(ex):
    if ex.func.tu.name != 'tarjan':
        ex.assumptions.add('memory allocation inside tarjan.c succeeds when called from TracerTofSolver')
        return False
    if ex.choose(2) == 1:
        ex.allocfail = True
        return True
    return False


def int_block(ex, nm, own=True):
    l = ex.new_root(ex.fresh_tree(('vec', ('int', 32, True)), nm), ('vec', ('int', 32, True)), nm)
    if own:
        ex.heap[l.root] = 'live'
    return l


def eff_tarjan(ex, names, this):
    """A decomposition by contract: null, or a new structure owning two new arrays (the
    stack pointers are left over and point into them)."""
    for loc, part in ex.mod_locs([x for x in ('region(work.status)', 'region(work.link)', 'region(work.time)') if 'work' in names] + ['Pos', 'Cmp'], names, this):
        ex.havoc_loc(loc, part)
    if alloc_fails(ex):
        return NULL
    a, b = int_block(ex, 'scc.start'), int_block(ex, 'scc.vert')
    st = lambda l: Ptr(l, ex.fresh(z3.IntSort(), 'stack'))
    k = ex.fresh(z3.IntSort(), 'ncomp')
    ex.assume(z3.And(k >= 0, k < 2 ** 64))
    r = ex.new_root(RecV('TarjanSCCResult', dict(ncomp=k, start=Ptr(a, z3.IntVal(0)), vert=Ptr(b, z3.IntVal(0)), vstack=st(a), vstart=st(a), cstack=st(b), cstart=st(b))), ('rec', 'TarjanSCCResult'), 'scc')
    ex.heap[r.root] = 'live'
    return Ptr(r)


def eff_reverse(ex, names, this):
    """Reversal by contract: on success the two arrays are replaced by new ones."""
    r = ex.fresh(z3.IntSort(), 'ok')
    if alloc_fails(ex):
        ex.assume(r == 0)
        return r
    ex.assume(r != 0)
    p = ex.load(names['scc'])
    for f in ('start', 'vert'):
        l = p.loc.f(f)
        ex.heap[ex.load(l).loc.root] = 'freed'
        ex.write(l, Ptr(int_block(ex, 'scc.' + f), z3.IntVal(0)))
    return r


POPPED = m('old(S)[v] >= 0 and old(Pos)[v] <= pc')
SIZES = [('sizes', m('nv <= N and N <= %s and len(S) >= N and len(L) >= N and len(T) >= N and len(A) >= N+1 and len(B) >= N' % NMAX))]
E2 = m('all(implies(S[v] == -2 and ia[v] <= e and e < ia[v+1], S[ja[e]] == -2 and Cmp[ja[e]] <= Cmp[v]) for v in range(nv) for e in ints if trig(S[v], ja[e]))')
SC = m('all(implies(S[u] == -2 and S[w] == -2 and Cmp[u] == Cmp[w] and R[u], R[w]) for u in range(N) for w in range(N) if trig(Cmp[u], Cmp[w]))')
# between two searches: stacks empty, every vertex listed or untouched
IDLE = [('vstack', m('vs == N and off(scc.vstart) == N')), ('cstack', m('cs == N-1 and off(scc.cstart) == N-1')), ('csr', m('csr(K, A)')), ('room', m('A[K] + rem(S, N) == N')),
        ('marks', m('all(S[v] == -1 or S[v] == -2 for v in range(N) if trig(S[v]))')), ('listed', m('listed(K, A, B, nv, Pos, Cmp, S, N)')),
        ('topo', E2, TOPO), ('strong', SC, REACH)]
LOCAL = [(a, m(x), p) for a, x, p in [
    ('vs', '0 <= vs and vs <= N and K <= vs', GRAPH), ('cs', '-1 <= cs and cs < N and implies(vs == N, cs == N-1)', GRAPH),
    ('csr', 'csr(K, A)', GRAPH), ('room', 'A[K] + rem(S, N) == cs + 1', GRAPH), ('time', 'time >= 0 and time + rem(S, N) <= N', GRAPH),
    ('listed', 'listed(K, A, B, nv, Pos, Cmp, S, N)', GRAPH),
    ('marks', 'all(S[v] >= -2 and implies(S[v] != -1, v < nv) for v in range(N) if trig(S[v]))', GRAPH),
    ('cstack', 'all(0 <= B[q] and B[q] < nv and S[B[q]] >= 0 and Pos[B[q]] == q for q in range(cs+1, N) if trig(B[q]))', GRAPH),
    ('onstack', 'all(implies(S[v] >= 0, cs < Pos[v] and Pos[v] < N and S[v] <= ia[v+1] - ia[v] and 0 <= L[v] and L[v] <= T[v] and T[v] < time) for v in range(N) if trig(S[v]))', GRAPH),
    ('found', 'all(implies(S[v] >= 0, B[Pos[v]] == v) for v in range(N) if trig(B[Pos[v]]))', GRAPH),
    ('vstack', 'all(0 <= A[p] and A[p] < nv and S[A[p]] >= -1 and implies(p > vs+1, S[A[p]] >= 0) for p in range(vs+1, N+1) if trig(A[p]))', GRAPH),
    ('older', 'all(implies(p < q and S[A[p]] >= 0, Pos[A[p]] < Pos[A[q]]) for p in range(vs+1, N+1) for q in range(vs+1, N+1) if trig(A[p], A[q]))', GRAPH),
    ('depth', 'all(implies(S[A[p]] >= 0, Pos[A[p]] <= p-1) for p in range(vs+1, N+1) if trig(A[p]))', GRAPH),
    ('root', 'implies(vs < N, A[N] == start) and implies(vs < N and S[start] >= 0, Pos[start] == N-1 and T[start] == 0) and implies(S[start] == -1, vs == N-1 and cs == N-1 and time == 0)', GRAPH),
    ('kept', 'all(implies(old(S)[v] == -2, S[v] == -2) for v in range(N) if trig(S[v]))', GRAPH),
    ('order', 'all(implies(S[u] >= 0 and S[v] >= 0 and Pos[u] < Pos[v], T[u] > T[v]) for u in range(N) for v in range(N) if trig(T[u], T[v]))', TOPO),
    ('owner', 'all(implies(S[x] >= 0, vs < Own[x] and Own[x] <= N and S[A[Own[x]]] >= 0 and Pos[x] <= Pos[A[Own[x]]] and L[A[Own[x]]] <= L[x] and (A[Own[x]] == x or (L[x] < T[x] and S[x] == 0))) for x in range(N) if trig(Own[x]))', TOPO),
    ('newest', 'all(implies(S[x] >= 0 and p < Own[x] and S[A[p]] >= 0, Pos[A[p]] < Pos[x]) for x in range(N) for p in range(vs+1, N+1) if trig(Own[x], A[p]))', TOPO),
    ('gray', 'all(implies(S[A[p]] >= 0, Own[A[p]] == p) for p in range(vs+1, N+1) if trig(Own[A[p]]))', TOPO),
    ('edges', 'all(implies(S[v] >= 0 and ia[v] + S[v] <= e and e < ia[v+1], (S[ja[e]] != -1 or (vs < N and ja[e] == TOP)) and implies(S[ja[e]] >= 0, L[v] <= T[ja[e]])) for v in range(nv) for e in ints if trig(S[v], ja[e]))', TOPO),
    ('topo', E2, TOPO),
    ('path', 'all(implies(p < q and R[A[q]], R[A[p]]) for p in range(vs+1, N+1) for q in range(vs+1, N+1) if trig(A[p], A[q]))', REACH),
    ('below', 'all(implies(S[x] >= 0 and R[A[Own[x]]], R[x]) for x in range(N) if trig(Own[x]))', REACH),
    ('link', 'all(implies(S[x] >= 0, 0 <= Y[x] and Y[x] < nv and S[Y[x]] >= 0 and T[Y[x]] == L[x] and implies(R[x], R[Y[x]])) for x in range(N) if trig(Y[x]))', REACH),
    ('strong', SC, REACH),
    ('reached', 'all(implies(S[v] != -1 and old(S)[v] == -1 and R[start], R[v]) for v in range(N) if trig(S[v]))', REACH),
]]


def REV_SIZES(a, b, k, n):
    return 'all(%s[j] == %s[%s] - %s[%s-j] for j in range(%s) if trig(%s[j]))' % (b, a, k, a, k, n, b)


def REV_CONTENT(a, v, b, w, k, n):
    """Component number j of the result holds component k-1-j of the input, in the same order."""
    return ('all(implies({b}[j] <= p and p < {b}[j+1], {w}[p] == {v}[{a}[{k}-1-j] + p - {b}[j]]) for j in range({n}) for p in ints if trig({b}[j], {w}[p]))'
            .format(a=a, v=v, b=b, w=w, k=k, n=n))


CONTRACTS = [
    C('assign_int_vector', ['n', 'val', 'v'], requires=['n <= len(v) and off(v) == 0'], modifies=['region(v)'],
      ensures=['all(v[i] == (val if 0 <= i and i < n else old(v[i])) for i in ints if trig(v[i]))'],
      loops=[Loop(inv=['all(v[i] == (val if 0 <= i and i < _n else old(v[i])) for i in ints if trig(v[i]))'])], props=GRAPH),
    C('copy_int_vector', ['n', 'src', 'dst'], shape={}, logic={'so': 'int', 'do': 'int'}, inst={'so': 'off(src)', 'do': 'off(dst)'},
      requires=['0 <= so and so + n <= len(src)', '0 <= do and do + n <= len(dst)', 'n < 1152921504606846976'], modifies=['region(dst)'],
      ensures=['all(arr(dst)[i] == (arr(src)[i - do + so] if do <= i and i < do + n else old(arr(dst))[i]) for i in ints if trig(arr(dst)[i]))'],
      loops=[Loop(inv=['all(arr(dst)[i] == (arr(src)[i - do + so] if do <= i and i < do + _n else old(arr(dst))[i]) for i in ints if trig(arr(dst)[i]))'])], props=ALL),
    C('create_tarjan_workspace', ['nvert'], requires=['nvert <= ' + NMAX], effect=eff_workspace,
      ensures=[('null', 'iff(isnull(result), allocfailed())', 'C05'),
               ('layout', 'True if isnull(result) else result.nvert == nvert and off(result.status) == 0 and (len(result.status) >= 3*nvert and off(result.link) == nvert and off(result.time) == 2*nvert '
                'if sameregion(result.status, result.link) and sameregion(result.status, result.time) else len(result.status) >= nvert and len(result.link) >= nvert and len(result.time) >= nvert)')],
      props=GRAPH),
    C('destroy_tarjan_workspace', ['ws'], inline=True, nullable=['ws'], heap=['ws', 'ws.status'], shape={'ws.link': ('ws.status', 'lo'), 'ws.time': ('ws.status', 'to')},
      ensures=[('freed', 'True if isnull(ws) else freed(ws) and freed(old(ws.status))')], props='C05'),
    C('destroy_tarjan_sccresult', ['scc'], inline=True, nullable=['scc'], heap=['scc', 'scc.start', 'scc.vert'], shape=STACKS,
      ensures=[('freed', 'True if isnull(scc) else freed(scc) and freed(old(scc.start)) and freed(old(scc.vert))')], props='C05'),
    C('tarjan_get_numcomponents', ['scc'], ensures=['result == scc.ncomp'], props=ALL),
    C('tarjan_get_strongcomponent', ['scc', 'compID'], inline=True, requires=['compID < scc.ncomp', 'len(scc.start) >= scc.ncomp + 1', 'rising(scc.start, scc.ncomp)'],
      ensures=[('size', 'result.size == scc.start[compID+1] - scc.start[compID]'), ('vertices', 'sameregion(result.vertex, scc.vert) and off(result.vertex) == scc.start[compID]')], props='C01 C04 C05'),

    C('capture_scc', ['c', 'work', 'scc'], shape=STACKS, ghost={'Pos': 'iarr', 'Cmp': 'iarr'}, logic={'k0': 'int', 's0': 'int', 'pc': 'int'},
      inst={'k0': K, 's0': 'scc.start[scc.ncomp]', 'pc': 'Pos[c]'},
      requires=[m(x) for x in ['0 <= N and N <= ' + NMAX, 'len(S) >= N', 'len(A) >= N+1', 'len(B) >= N', '0 <= k0 and k0 + 1 <= N', '0 <= c and c < N', '-1 <= cs0 and cs0 < pc and pc <= N-1', 'ce0 == N-1',
                               '0 <= s0 and s0 <= cs0 + 1', 'B[pc] == c', 'S[c] >= 0',
                               'all(0 <= B[q] and B[q] < N and S[B[q]] >= 0 and Pos[B[q]] == q for q in range(cs0+1, pc+1) if trig(B[q]))',
                               'all(implies(S[v] >= 0 and Pos[v] <= pc, cs0 < Pos[v] and B[Pos[v]] == v) for v in range(N) if trig(S[v]))']],
      modifies=['region(work.status)', 'region(scc.start)', 'region(scc.vert)', 'scc.ncomp', 'scc.cstack', 'Pos', 'Cmp'],
      ensures=[(a, m(x)) for a, x in [
          ('stack', 'cs == pc'), ('count', 'K == k0 + 1'), ('end', 'A[k0+1] == s0 + pc - cs0 and all(implies(j != k0+1, A[j] == old(A)[j]) for j in ints if trig(A[j]))'),
          ('done', 'all(S[v] == (-2 if POPPED else old(S)[v]) for v in range(N) if trig(S[v]))'),
          ('moved', 'all(B[p] == (old(B)[p-s0+cs0+1] if s0 <= p and p < s0+pc-cs0 else old(B)[p]) for p in ints if trig(B[p]))'),
          ('pos', 'all(Pos[v] == (s0 + old(Pos)[v] - cs0 - 1 if POPPED else old(Pos)[v]) for v in range(N) if trig(Pos[v]))'),
          ('cmp', 'all(Cmp[v] == (k0 if POPPED else old(Cmp)[v]) for v in range(N) if trig(Cmp[v]))')]],
      gexit=[('Cmp', 'v', m('k0 if POPPED else Cmp[v]').replace('POPPED', POPPED)), ('Pos', 'v', m('s0 + Pos[v] - cs0 - 1 if POPPED else Pos[v]').replace('POPPED', POPPED))],
      loops=[Loop(inv=[m(x) for x in ['cs == cs0 + _n', 'cs0 + _n < pc', 'A[k0+1] == s0 + _n and all(implies(j != k0+1, A[j] == old(A)[j]) for j in ints if trig(A[j]))', 'K == k0',
                                      'all(S[v] == (-2 if old(S)[v] >= 0 and Pos[v] <= cs0 + _n else old(S)[v]) for v in range(N) if trig(S[v]))',
                                      'all(B[p] == (old(B)[p-s0+cs0+1] if s0 <= p and p < s0 + _n else old(B)[p]) for p in ints if trig(B[p]))']],
                  begin=[m('old(B)[cs+1] == old(B)[cs+1]')], decreases=m('pc - cs'))],
      props=GRAPH),
    C('tarjan_find_start', ['seed', 'work'], requires=['len(work.status) >= work.nvert', 'work.nvert <= ' + NMAX, 'seed <= work.nvert'],
      ensures=['seed <= result and result <= work.nvert', 'implies(result < work.nvert, work.status[result] != -2)', 'all(work.status[v] == -2 for v in range(seed, result) if trig(work.status[v]))'],
      loops=[Loop(inv=['all(work.status[v] == -2 for v in range(seed, start) if trig(work.status[v]))'])], props=GRAPH),
    C('tarjan_local', ['start', 'ia', 'ja', 'work', 'scc'], shape=STACKS, ghost={'Pos': 'iarr', 'Cmp': 'iarr'}, glocal={'Own': 'iarr', 'Y': 'iarr'}, logic={'R': 'barr', 'nv': 'int'},
      requires=[('graph', 'graph(nv, ia, ja)'), ('closed', 'closed(R, nv, ia, ja)', REACH)] + SIZES + [('start', m('0 <= start and start < nv and S[start] == -1'))] + IDLE,
      modifies=['region(work.status)', 'region(work.link)', 'region(work.time)', 'region(scc.start)', 'region(scc.vert)', 'scc.ncomp', 'scc.vstack', 'scc.cstack', 'Pos', 'Cmp'],
      ensures=IDLE + [('done', m('S[start] == -2')), ('kept', m('all(implies(old(S)[v] == -2, S[v] == -2) for v in range(N) if trig(S[v]))')),
                      ('reached', m('all(implies(S[v] == -2 and old(S)[v] == -1 and R[start], R[v]) for v in range(N) if trig(S[v]))'), REACH)],
      entry=[m('rem_some(S, start, N)')],
      # each round discovers a vertex, or pushes an undiscovered one, or pops one, or ticks off an edge
      loops=[Loop(inv=LOCAL, forget=True, decreases=[m(x) for x in ('rem(S, N)', '(0 if vs < N and S[TOP] == -1 else 1)', 'N - vs', 'S[TOP]')],
                  begin=[m(x) for x in ['rem_bounds(S, N)', 'rem_some(S, TOP, N)', 'assert implies(vs + 1 < N, S[A[vs+2]] >= 0 and cs < Pos[A[vs+2]] and Pos[A[vs+2]] <= vs + 1)',
                         'assert implies(vs < N and S[TOP] == -1, cs <= vs)',
                         'assert implies(vs < N, 0 <= TOP and TOP < nv)', 'assert implies(vs < N, 0 <= ia[TOP] and ia[TOP] <= ia[TOP+1] and ia[TOP+1] <= ia[nv])', 'assert implies(vs < N and S[TOP] >= 0, ia[TOP] + S[TOP] <= ia[TOP+1])','assert implies(vs < N and S[TOP] > 0, 0 <= ja[ia[TOP]+S[TOP]-1] and ja[ia[TOP]+S[TOP]-1] < nv)',
                         'assert implies(vs < N and ia[TOP+1] > ia[TOP], 0 <= ja[ia[TOP+1]-1] and ja[ia[TOP+1]-1] < nv)']] + [
                         By('mine', m('Own[x] == vs+1 and S[x] == 0 and L[TOP] <= L[x]'), fix=[('x', '0', m('N'))], when=m('vs < N and S[TOP] == 0 and S[x] >= 0 and Pos[x] <= Pos[TOP]'), trig=m('S[x]'), props=TOPO),
                         By('inner', m('S[ja[e]] == -2 or (S[ja[e]] >= 0 and Pos[ja[e]] <= Pos[TOP])'), fix=[('x', '0', 'nv'), ('e', None, None)],
                            when=m('vs < N and S[TOP] == 0 and L[TOP] == T[TOP] and S[x] >= 0 and Pos[x] <= Pos[TOP] and ia[x] <= e and e < ia[x+1]'), trig=m('S[x], ja[e]'),
                            uses=[m('T[ja[e]] == T[ja[e]]')], props=TOPO),
                         By('downpath', m('implies(vs < N and R[start], R[TOP])'), props=REACH),
                         By('links', m('q < Pos[Y[B[q]]] and Pos[Y[B[q]]] <= Pos[TOP] and B[Pos[Y[B[q]]]] == Y[B[q]] and implies(R[B[q]], R[Y[B[q]]])'), fix=[('q', m('cs+1'), m('Pos[TOP]'))],
                            when=m('vs < N and S[TOP] == 0 and L[TOP] == T[TOP]'), trig=m('B[q]'), uses=[m('S[B[q]] == S[B[q]]'), m('T[Y[B[q]]] == T[Y[B[q]]]')], props=REACH),
                         ('upto', m('upto(B, Pos, Y, R, Pos[TOP], Pos[TOP] - cs)'), REACH),
                         By('same', m('iff(R[x], R[TOP])'), fix=[('x', '0', m('N'))], when=m('vs < N and S[TOP] == 0 and L[TOP] == T[TOP] and S[x] >= 0 and Pos[x] <= Pos[TOP]'), trig=m('S[x]'),
                            given=None, uses=[m('B[Pos[x]] == B[Pos[x]]')], props=REACH)],
                  gbegin=[('Pos', m('store(Pos, TOP, cs if S[TOP] == -1 else Pos[TOP])')), ('Own', m('store(Own, TOP, vs+1)')), ('Y', m('store(Y, TOP, TOP if S[TOP] == -1 else Y[TOP])'))],
                  gend=[('Own', 'x', m('vs + 1 if vs == start(vs) + 1 and Own[x] == vs else Own[x]')),
                        ('Y', m('(store(Y, TOP, Y[c] if S[c] >= 0 and L[TOP] == L[c] else Y[TOP]) if vs == start(vs) + 1 else store(Y, c, CH if S[CH] >= 0 and T[CH] == L[c] else Y[c]))'))],
                  end=[By('edges' + a, m('(S[ja[e]] != -1 or (vs < N and ja[e] == TOP)) and implies(S[ja[e]] >= 0, L[v] <= T[ja[e]])'), fix=[('v', '0', 'nv'), ('e', None, None)],
                          when=m('S[v] >= 0 and ia[v] + S[v] <= e and e < ia[v+1] and ' + w), trig=m('S[v], ja[e]'), uses=[m('start(S)[v] == start(S)[v]'), m('start(S)[ja[e]] == start(S)[ja[e]]')], props=TOPO)
                       for a, w in (('0', 'v != c'), ('1', 'v == c and e == ia[c] + S[c]'), ('2', 'v == c and e > ia[c] + S[c]'))] + [m(x) for x in ['rem_take(start(S), S, c, N)', 'rem_same(start(S), S, N)', 'rem_some(S, TOP, N)', 'rem_bounds(S, N)']])],
      props=GRAPH),

    C('tarjan', ['nv', 'ia', 'ja'], ghost={'Pos': 'iarr', 'Cmp': 'iarr'}, logic={'R': 'barr'}, forall=['R'], effect=eff_tarjan, ghost_out={'St': ('iarr', 'Pos if isnull(result) else arr(result.start)'), 'Ve': ('iarr', 'Pos if isnull(result) else arr(result.vert)'), 'Kc': ('int', '0 if isnull(result) else result.ncomp')},
      requires=[('graph', 'graph(nv, ia, ja)'), ('closed', 'closed(R, nv, ia, ja)', 'C01' + SOLVER)], modifies=['Pos', 'Cmp'],
      ensures=[('null', 'iff(isnull(result), allocfailed())', 'C05' + SOLVER)] + [(a, 'True if isnull(result) else ' + x, p) for a, x, p in [
          ('room', 'len(result.start) >= nv + 1 and len(result.vert) >= nv and off(result.start) == 0 and off(result.vert) == 0', 'C01 C05' + SOLVER),
          ('csr', 'csr(result.ncomp, result.start)', 'C01 C05' + SOLVER), ('total', 'result.start[result.ncomp] == nv', 'C01 C05' + SOLVER),
          ('listed', 'partition(result.ncomp, result.start, result.vert, nv, Pos, Cmp)', 'C01 C05' + SOLVER),
          ('topo', 'all(implies(ia[v] <= e and e < ia[v+1], Cmp[ja[e]] <= Cmp[v]) for v in range(nv) for e in ints if trig(ia[v], ja[e]))', 'C01 C02' + SOLVER),
          ('strong', 'all(implies(Cmp[u] == Cmp[w] and R[u], R[w]) for u in range(nv) for w in range(nv) if trig(Cmp[u], Cmp[w]))', 'C01' + SOLVER)]],
      loops=[Loop(inv=[(a, m(x), p) for a, x, p in [(c[0], c[1], c[2] if len(c) > 2 else GRAPH) for c in IDLE if c[0] != 'cstack'] + [
                  ('cstack', 'implies(N > 0, cs == N-1 and off(scc.cstart) == N-1)', GRAPH),
                  ('progress', 'start <= N and implies(start < N, S[start] != -2) and all(S[v] == -2 for v in range(start) if trig(S[v]))', GRAPH)]],
                  init=[m('rem_all(S, N)')], exit=[m('rem_none(S, N)')], decreases=m('N - start'))],
      props='C01 C02 C05' + SOLVER),
    C('tarjan_reachable_sccs', ['nv', 'ia', 'ja', 'nstart', 'start_pts', 'work'], ghost={'Pos': 'iarr', 'Cmp': 'iarr'}, logic={'R': 'barr'}, forall=['R'], effect=eff_tarjan, ghost_out={'Sx': ('iarr', 'arr(work.status)'), 'St': ('iarr', 'Pos if isnull(result) else arr(result.start)'), 'Ve': ('iarr', 'Pos if isnull(result) else arr(result.vert)'), 'Kc': ('int', '0 if isnull(result) else result.ncomp')},
      requires=[('graph', 'graph(nv, ia, ja)'), ('closed', 'closed(R, nv, ia, ja)', 'C03' + SOLVER),
                ('space', m('nv <= N and N <= %s and len(S) >= N and len(L) >= N and len(T) >= N' % NMAX)),
                ('starts', 'nstart <= len(start_pts) and all(0 <= start_pts[i] and start_pts[i] < nv for i in range(nstart) if trig(start_pts[i]))')],
      modifies=['region(work.status)', 'region(work.link)', 'region(work.time)', 'Pos', 'Cmp'],
      ensures=[('null', 'iff(isnull(result), allocfailed())', 'C05' + SOLVER)] + [(a, 'True if isnull(result) else ' + m(x, A='result.start', B='result.vert', K='result.ncomp'), p) for a, x, p in [
          ('room', 'len(A) >= K + 1 and len(B) >= A[K] and off(A) == 0 and off(B) == 0 and A[K] <= N', 'C03 C05' + SOLVER),
          ('csr', 'csr(K, A)', 'C03 C05' + SOLVER), ('listed', 'listed(K, A, B, nv, Pos, Cmp, S, N)', 'C03 C05' + SOLVER),
          ('starts', 'all(S[start_pts[i]] == -2 for i in range(nstart) if trig(start_pts[i]))', 'C03' + SOLVER),
          ('topo', 'all(implies(S[v] == -2 and ia[v] <= e and e < ia[v+1], S[ja[e]] == -2 and Cmp[ja[e]] <= Cmp[v]) for v in range(nv) for e in ints if trig(S[v], ja[e]))', 'C02 C03' + SOLVER),
          ('strong', 'all(implies(S[u] == -2 and S[w] == -2 and Cmp[u] == Cmp[w] and R[u], R[w]) for u in range(N) for w in range(N) if trig(Cmp[u], Cmp[w]))', 'C03' + SOLVER),
          ('reached', 'implies(all(R[start_pts[i]] for i in range(nstart) if trig(start_pts[i])), all(implies(S[v] == -2, R[v]) for v in range(N) if trig(S[v])))', 'C03' + SOLVER)]],
      loops=[Loop(inv=[(a, m(x), p) for a, x, p in [(c[0], c[1], c[2] if len(c) > 2 else GRAPH) for c in IDLE if c[0] != 'cstack'] + [
                  ('cstack', 'implies(N > 0, cs == N-1 and off(scc.cstart) == N-1)', GRAPH),
                  ('starts', 'all(S[start_pts[i]] == -2 for i in range(_n) if trig(start_pts[i]))', 'C03' + SOLVER),
                  ('reached', 'implies(all(R[start_pts[i]] for i in range(nstart) if trig(start_pts[i])), all(implies(S[v] == -2, R[v]) for v in range(N) if trig(S[v])))', 'C03' + SOLVER)]], init=[m('rem_all(S, N)')], exit=[m('rem_bounds(S, N)')])],
      props='C02 C03 C05' + SOLVER),
    C('reverse_scc_core', ['src', 'dst'],
      requires=['csr(src.ncomp, src.start)', 'len(src.start) >= src.ncomp + 1', 'len(src.vert) >= src.start[src.ncomp]', 'len(dst.start) >= src.start[src.ncomp] + 1', 'len(dst.vert) >= src.start[src.ncomp]', 'src.start[src.ncomp] <= ' + NMAX],
      modifies=['dst.ncomp', 'region(dst.start)', 'region(dst.vert)'],
      ensures=[('count', 'dst.ncomp == src.ncomp'), ('sizes', REV_SIZES('src.start', 'dst.start', 'src.ncomp', 'src.ncomp + 1')), ('content', REV_CONTENT('src.start', 'src.vert', 'dst.start', 'dst.vert', 'src.ncomp', 'src.ncomp'))],
      loops=[Loop(inv=['comp == src.ncomp - _n and dst.ncomp == _n and _n <= src.ncomp', REV_SIZES('src.start', 'dst.start', 'src.ncomp', '_n + 1'), REV_CONTENT('src.start', 'src.vert', 'dst.start', 'dst.vert', 'src.ncomp', '_n')],
                  begin=['src.start[comp] == src.start[comp]', 'src.start[comp-1] == src.start[comp-1]', 'dst.start[_n] == dst.start[_n]'])],
      props='C02 C04 C05' + SOLVER),
    C('tarjan_reverse_sccresult', ['scc'], shape=STACKS, heap=['scc.start', 'scc.vert'], effect=eff_reverse, ghost_out={'Sr': ('iarr', 'arr(scc.start)'), 'Vr': ('iarr', 'arr(scc.vert)')},
      requires=['csr(scc.ncomp, scc.start)', 'len(scc.start) >= scc.ncomp + 1', 'len(scc.vert) >= scc.start[scc.ncomp]', 'scc.start[scc.ncomp] <= ' + NMAX],
      modifies=['scc.start', 'scc.vert', 'region(scc.start)', 'region(scc.vert)'],
      ensures=[('flag', 'iff(result == 0, allocfailed())', 'C05' + SOLVER), ('count', 'scc.ncomp == old(scc.ncomp)', 'C02 C04' + SOLVER), ('place', 'off(scc.start) == 0 and off(scc.vert) == 0', 'C04 C05' + SOLVER),
               ('sizes', 'implies(result != 0, len(scc.start) >= scc.ncomp + 1 and %s)' % REV_SIZES('old(scc.start)', 'scc.start', 'scc.ncomp', 'scc.ncomp + 1'), 'C02 C04 C05' + SOLVER),
               ('content', 'implies(result != 0, len(scc.vert) >= scc.start[scc.ncomp] and %s)' % REV_CONTENT('old(scc.start)', 'old(scc.vert)', 'scc.start', 'scc.vert', 'scc.ncomp', 'scc.ncomp'), 'C02 C04 C05' + SOLVER),
               ('unchanged', 'implies(result == 0, all(scc.start[j] == old(scc.start)[j] for j in range(scc.ncomp + 1) if trig(scc.start[j])) and all(scc.vert[p] == old(scc.vert)[p] for p in range(scc.start[scc.ncomp]) if trig(scc.vert[p])))', 'C04')],
      props='C02 C04 C05' + SOLVER),
]
