"""ConnectivityGraph, ConnectionValues, CellSet, CellSetID, Solution."""
from vc.core import Contract as C, Loop
from .base import FD

CG = FD + 'ConnectivityGraph::'
CV = FD + 'ConnectionValues::'
CS = FD + 'CellSet::'
ID = FD + 'CellSetID::'
SO = FD + 'Solution::'
SI = FD + 'Solution::Impl::'

BAD = 'len(cells) % 2 != 0 or any(cells[k] < 0 or cells[k] >= ncell for k in range(len(cells)))'

CVINV = ['len(data_) == nconn_.total * nphase_.total', 'nconn_.total * nphase_.total < 1152921504606846976', 'nconn_.total >= 0 and nphase_.total >= 0']
CVBAD = 'conn.id >= nconn_.total or phase.id >= nphase_.total'

CONTRACTS = [
    # ---- ConnectivityGraph
    C(CG + 'ConnectivityGraph', ['ncell', 'cells'], requires=['ncell >= 0'],
      throws=BAD,
      ensures=[('cells', 'numCells_ == ncell'), ('table', 'same(connCells_, cells)'),
               ('even', 'len(connCells_) % 2 == 0'),
               ('range', 'all(0 <= connCells_[k] and connCells_[k] < ncell for k in range(len(cells)) if trig(connCells_[k]))')],
      props='C10'),
    C(CG + 'numCells', [], ensures=['result == numCells_'], props='C10'),
    C(CG + 'numConnections', [], requires=['len(connCells_) % 2 == 0'], ensures=['2*result == len(connCells_)'], props='C10'),
    C(CG + 'connection', ['i'], requires=['len(connCells_) % 2 == 0', '2*i < len(connCells_)', 'i >= 0'],
      ensures=['result.first == connCells_[2*i] and result.second == connCells_[2*i+1]'], props='C10'),
    # ---- ConnectionValues
    C(CV + 'ConnectionValues', ['nconn', 'nphase'], requires=['nconn.total * nphase.total < 1152921504606846976', 'nconn.total >= 0', 'nphase.total >= 0'],
      ensures=[('nconn', 'nconn_.total == nconn.total'), ('nphase', 'nphase_.total == nphase.total'),
               ('size', 'len(data_) == nconn.total * nphase.total'),
               ('zero', 'all(data_[k] == 0 for k in range(len(data_)))')], props='C10'),
    C(CV + 'numConnections', [], ensures=['result == nconn_.total'], props='C10'),
    C(CV + 'numPhases', [], ensures=['result == nphase_.total'], props='C10'),
    C(CV + 'operator()', ['conn', 'phase'], sig='double (const ConnID &, const PhaseID &) const', inline=True,
      requires=CVINV, throws=CVBAD,
      ensures=[('value', 'result == data_[conn.id * nphase_.total + phase.id]')], props='C10'),
    C(CV + 'operator()', ['conn', 'phase'], sig='double &(const ConnID &, const PhaseID &)', inline=True,
      requires=CVINV, throws=CVBAD,
      ensures=[('element', 'refidx(data_) == conn.id * nphase_.total + phase.id')], props='C10'),
    # ---- CellSetID / CellSet
    C(ID + 'CellSetID', ['id'], ensures=['id_ == id'], props='C22'),
    C(ID + 'to_string', [], ensures=['result == id_'], props='C22'),
    C(ID + 'operator<', ['other'], ensures=['iff(result, id_ < other.id_)'], props='C22', inline=True),
    C(CS + 'CellSet', ['id'], ensures=[('id', 'id_ == id'), ('empty', 'all(not (k in iset_) for k in ints)')], props='C22'),
    C(CS + 'CellSet', ['id', 'cells'],
      ensures=[('id', 'id_ == id'),
               ('all', 'all(cells[k] in iset_ for k in range(len(cells)) if trig(cells[k]))'),
               ('only', 'all(implies(c in iset_, any(cells[k] == c for k in range(len(cells)))) for c in ints)')], props='C22'),
    C(CS + 'insert', ['i'], modifies=['iset_'],
      ensures=['all(iff(c in iset_, c in old(iset_) or c == i) for c in ints)'], props='C22'),
    C(CS + 'id', [], ensures=['result == id_'], props='C22', inline=True),
    # ---- Solution
    C(SI + 'assignToF', ['tof'], modifies=['tof_', 'tof'], ensures=['same(tof_, old(tof))'], props='C22', inline=True),
    C(SI + 'assign', ['i', 'x', 'soln'], modifies=['soln', 'x'],
      ensures=[('stored', 'i in soln and same(soln[i], old(x))'),
               ('dom', 'all(implies(k != i.id_, iff(k in soln, k in old(soln))) for k in strs)'),
               ('others', 'all(implies(k != i.id_ and k in old(soln), same(soln[k], old(soln[k]))) for k in strs)')], props='C22', inline=True),
    C(SI + 'assign', ['i', 'tof'], sig='TimeOfFlight &&', modifies=['tracerToF_', 'tof'], inline=True,
      ensures=[('stored', 'i in tracerToF_ and same(tracerToF_[i], old(tof.data))'),
               ('others', 'all(implies(k != i.id_, iff(k in tracerToF_, k in old(tracerToF_)) and same(tracerToF_[k], old(tracerToF_[k]))) for k in strs)')], props='C22'),
    C(SI + 'assign', ['i', 'conc'], sig='TracerConcentration &&', modifies=['tracer_', 'conc'], inline=True,
      ensures=[('stored', 'i in tracer_ and same(tracer_[i], old(conc.data))'),
               ('others', 'all(implies(k != i.id_, iff(k in tracer_, k in old(tracer_)) and same(tracer_[k], old(tracer_[k]))) for k in strs)')], props='C22'),
    C(SI + 'startPoints', [], inline=True,
      ensures=[('sound', 'all(result[k] in tracer_ for k in range(len(result)))'),
               ('complete', 'all(implies(s in tracer_, result[mrank(tracer_, s)].id_ == s and mrank(tracer_, s) < len(result)) for s in strs)'),
               ('once', 'len(result) == msize(tracer_)'),
               ('distinct', 'all(implies(a < b, result[a].id_ != result[b].id_) for a in range(len(result)) for b in range(len(result)))')],
      loops=[Loop(inv=['len(s) == _n', '_n <= msize(tracer_)', 'all(s[k].id_ == mkey(tracer_, k) for k in range(_n))'])], props='C22'),
    C(SI + 'timeOfFlight', [], inline=True, ensures=['same(result, tof_)'], props='C22'),
    C(SI + 'timeOfFlight', ['t'], inline=True,
      ensures=[('found', 'implies(t in tracerToF_, same(result, tracerToF_[t]))'),
               ('absent', 'implies(not (t in tracerToF_), all(not (c in result) for c in ints))')], props='C22'),
    C(SI + 'concentration', ['t'], inline=True,
      ensures=[('found', 'implies(t in tracer_, same(result, tracer_[t]))'),
               ('absent', 'implies(not (t in tracer_), all(not (c in result) for c in ints))')], props='C22'),
]
