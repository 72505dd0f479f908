"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
T='opm/utility/graph/tarjan.c'; TH='opm/utility/graph/tarjan.h'
A='opm/utility/graph/AssembledConnections.cpp'; AH='opm/utility/graph/AssembledConnections.hpp'
AI='opm/utility/graph/AssembledConnectionsIteration.hpp'
FD='opm/flowdiagnostics/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None)))

prop('C01','Strong components are exactly the mutual-reachability classes',
 'For every directed graph given in valid CSR form, the full decomposition lists every vertex in exactly one component, every component is non-empty, and two vertices are listed in the same component if and only if each can be reached from the other along directed edges. The listed components are contiguous and their sizes add up to the number of vertices.',
 ['inputs'],'all directed graphs (any vertex count, any edges including self-loops and duplicates)',
 'The tests decompose eight fixed graphs on 4 or 16 vertices; the claim is about every graph, including deep cycles, cross edges and shapes where low-links propagate through several levels.',
 [T,TH],[('iterative depth-first search with low-links','tarjan_local, discover_vertex, dfs_from_descendant, complete_dfs_from_vertex, capture_scc'),('restart from every vertex not yet done','tarjan_global, tarjan_find_start')],
 [('status','per-vertex DFS state: undiscovered / remaining descendants / done','struct TarjanWorkSpace'),('start,vert','CSR list of components','struct TarjanSCCResult')],
 ['tarjan','tarjan_get_numcomponents','tarjan_get_strongcomponent'])
prop('C02','Components are delivered in reverse topological order',
 'For every directed graph and every set of start vertices, in the sequence of components returned by the full or the start-restricted decomposition every edge leads from its component to the same or an earlier one. After a successful order reversal every edge leads to the same or a later component.',
 ['inputs'],'all directed graphs, all start sets',
 'The tests compare a few fixed orders; the ordering must hold for every graph because the transport solver visits cells in that order and reads upwind values without re-checking.',
 [T,TH],[('component captured only when all its descendants are done','complete_dfs_from_vertex, capture_scc'),('order reversal','tarjan_reverse_sccresult, reverse_scc_core')],
 [('start,vert','component sequence','struct TarjanSCCResult')],['tarjan','tarjan_reachable_sccs','tarjan_reverse_sccresult'])
prop('C03','Start-restricted decomposition covers exactly the reachable vertices',
 'Given any list of start vertices (repetitions and mutually reachable entries allowed, in any order), the restricted decomposition lists precisely the vertices reachable from some start vertex, each exactly once. The components it lists are the same mutual-reachability classes the full decomposition would give.',
 ['inputs'],'all directed graphs, all finite start lists',
 'Tests use single or two start vertices on fixed 2x2 and 4x4 meshes; nothing exercises repeated starts, starts inside already captured components or starts on cycles.',
 [T,TH],[('skip start vertices already done, otherwise run the local search','tarjan_reachable_sccs, tarjan_local')],
 [('status','DONE marks vertices already captured','struct TarjanWorkSpace')],['tarjan_reachable_sccs'])
prop('C04','Order reversal keeps every component intact',
 'Reversing a decomposition of any size turns component number k of n into component number n-1-k, keeps the number of components and, within each component, the vertices and their order. When the reversal reports failure, the decomposition is left exactly as it was.',
 ['inputs','fault_sequences'],'all decomposition results, with the internal allocation succeeding or failing',
 'Tests never reverse components with more than a few vertices (a different copy routine is used for large ones) and never make an allocation fail.',
 [T,TH],[('copy components back to front into a fresh result, then swap','reverse_scc_core, copy_int_vector, swap_scc, tarjan_reverse_sccresult')],
 [('start,vert,ncomp','component sequence','struct TarjanSCCResult')],['tarjan_reverse_sccresult'])
prop('C05','Graph decomposition keeps strict memory discipline',
 'For every valid graph, every start list and every pattern of allocation failures, the decomposition routines touch no memory outside the caller-supplied arrays and their own allocations, never modify the caller-supplied graph or start list, and leak nothing. If any internal allocation fails the decomposition routines return a null result and the reversal returns false.',
 ['inputs','fault_sequences'],'all graphs, all start lists, all allocation failure patterns',
 'No test injects allocation failures, and stack/result arrays share storage so that an off-by-one is silent unless the graph has exactly the wrong shape.',
 [T,TH],[('vertex stack shares the start array, component stack shares the vertex array, both growing downwards','initialise_stacks, push/peek'),('paired allocate/destroy','create_tarjan_workspace, allocate_scc_result, destroy_*')],
 [('vstack,cstack','stacks overlaid on result arrays','struct TarjanSCCResult')],['tarjan','tarjan_reachable_sccs','tarjan_reverse_sccresult','create_tarjan_workspace'])
prop('C06','Assembled adjacency is exactly the set of added connections',
 'For every sequence of added connections with non-negative entity numbers and every row count that covers the sources, compressing yields exactly that many rows, row i lists in strictly ascending order every j for which a connection (i,j) was added, each once, and nothing else. This holds for weighted and unweighted connection lists.',
 ['inputs'],'all finite connection sequences, all admissible row counts',
 'Tests assemble graphs with at most four vertices; ordering and duplicate handling come from two bucket-sort passes whose index arithmetic is only wrong for particular degree patterns.',
 [A,AH],[('bucket insert, double transposition, duplicate condensation','CSR::assemble, CSR::sort, CSR::condenseDuplicates, CSR::create')],
 [('ia_,ja_','CSR start pointers and columns','AssembledConnections::CSR')],['AssembledConnections::compress','startPointers','neighbourhood','numRows'])
prop('C07','Assembled weights are the sums over repeated connections',
 'For every sequence of weighted connections, after compressing the weight reported for (i,j) is the sum of the weights of all added connections from i to j. Iterating over the neighbourhood of an entity pairs each neighbour with exactly that weight, and the total weight leaving and entering each entity equals the total that was added.',
 ['inputs'],'all finite weighted connection sequences',
 'Tests add at most a handful of weights on four vertices; the weight of a connection travels through three successive index remappings.',
 [A,AH,AI],[('element index remapped through assembly, two transpositions and condensation','CSR::createGraph, CSR::transpose, CSR::remapElementIndex, CSR::unique, CSR::accumulateConnWeights'),('paired iteration over neighbours and weights','AssembledConnections::cellNeighbourhood, NeighbourhoodIterator')],
 [('elmIdx_','position of every added connection in the compressed structure','AssembledConnections::CSR'),('sa_','accumulated weights','AssembledConnections::CSR')],['connectionWeight','cellNeighbourhood'])
prop('C08','Assembly rejects bad requests and starts afresh after each compression',
 'Compressing fails with an exception, and leaves the previously compressed graph unchanged, exactly when weighted and unweighted connections were mixed or a source entity number is not below the requested row count. After a successful compression, later additions form a new graph: the next compression depends only on the connections added since then and on its own row count.',
 ['histories','inputs'],'all interleavings of additions and compressions on one object',
 'Each test compresses an object once; no test reuses one, so state surviving from an earlier graph goes unnoticed.',
 [A,AH],[('validity and row-range checks before any change','AssembledConnections::compress, Connections::isValid, CSR::create'),('connection list destroyed after use','Connections::clear')],
 [('max_i_,max_j_','largest source / sink seen','AssembledConnections::Connections')],['AssembledConnections::addConnection','AssembledConnections::compress'])
prop('C09','Text output lists each connection once and restores the stream',
 'Writing a compressed weighted graph to a stream emits, row by row in ascending row order, one line per stored connection with source, sink and weight. Afterwards the precision and format flags of the stream are what they were before, whatever they were.',
 ['inputs','configurations'],'all compressed weighted graphs, all prior stream format states',
 'No test covers the output operator.',
 [A],[('save and restore precision and flags around the loop','operator<<(ostream&, AssembledConnections)')],
 [],['operator<<'])
prop('C10','Connection tables and connection values are faithful and range checked',
 'A connectivity graph is accepted only if its table has an even number of entries all lying in [0, number of cells), and then reports the given cell and connection counts and returns each connection as given. Connection values start at zero, a value written for a (connection, phase) pair is read back from that pair and no other write affects it, and any access with a connection or phase number out of range throws.',
 ['inputs','histories'],'all tables and cell counts; all sequences of reads and writes',
 'Tests use one 2x2 table and one 1-phase value set; negative indices, several phases and the addressing of the last phase are never tried.',
 [FD+'ConnectivityGraph.cpp',FD+'ConnectionValues.cpp'],[('constructor validation','ConnectivityGraph::ConnectivityGraph'),('row-major addressing with bounds check','ConnectionValues::operator()')],
 [('connCells_','flat neighbourship table','ConnectivityGraph'),('data_','flat value table','ConnectionValues')],['ConnectivityGraph','ConnectionValues'])
prop('C11','The toolbox rejects inconsistent requests and stays usable',
 'Assigning pore volumes or connection fluxes whose size does not match the connectivity throws; asking for diagnostics before both are assigned throws; and asking for injection (production) diagnostics for a start set whose identifier carries no injection (production) in the latest inflow assignment, or which contains a cell without any injection (production), throws. A rejected call changes nothing: all previously assigned data and later results are as if it had not been made.',
 ['inputs','histories'],'all call sequences on a toolbox',
 'Tests check two rejected start-set lists right after set-up; sizes, call order, mixed-sign wells and use after a rejected call are not tried.',
 [FD+'Toolbox.cpp'],[('checks before assignment','Toolbox::Impl::assignPoreVolume, assignConnectionFlux'),('start-set validation before solving','Toolbox::Impl::injDiag, prodDiag')],
 [('pvol_,flux_,inj_flux_by_id_,prod_flux_by_id_','latest assigned data','Toolbox::Impl')],['Toolbox::assign*','Toolbox::compute*Diagnostics'])
prop('C12','Flow directions follow the net flux, mirrored for production',
 'The flow graph used for injection diagnostics has, for each connection with non-zero net flux (the sum over all phases), one edge from first to second cell if the net flux is positive and from second to first if negative, weighted by its magnitude; connections with zero net flux contribute nothing. Production diagnostics use the same graph with every edge reversed, so they equal the injection diagnostics of the problem with all connection fluxes and inflows negated.',
 ['inputs'],'all connection tables, phase counts and flux values',
 'Tests use one phase and mostly one flow direction; sign handling per phase combination and exact mirroring are never compared.',
 [FD+'Toolbox.cpp'],[('phase summation and orientation','Toolbox::Impl::buildAssembledConnections'),('roles of the two graphs swapped','Toolbox::Impl::prodDiag')],
 [('downstream_conn_,upstream_conn_','mirrored flow graphs','Toolbox::Impl')],['Toolbox::computeInjectionDiagnostics','Toolbox::computeProductionDiagnostics'])
prop('C13','Diagnostics depend only on the latest assigned data',
 'The result of a diagnostics call on a toolbox depends only on its connectivity, on the latest accepted pore volumes, connection fluxes and inflow fluxes, and on the requested start sets. Earlier assignments, earlier diagnostics calls, their order, and moving the toolbox make no difference.',
 ['histories'],'all sequences of assignments and diagnostics calls',
 'Each test assigns once and computes; only a longer history can reveal a stale cached flow graph or leftover source terms.',
 [FD+'Toolbox.cpp',FD+'TracerTofSolver.cpp'],[('cached flow graphs invalidated on new fluxes','Toolbox::Impl::assignConnectionFlux, buildAssembledConnections'),('inflow tables cleared before refilling','Toolbox::Impl::assignInflowFlux'),('solver state reset before each solve','TracerTofSolver::prepareForSolve, cleanupLocalSource')],
 [('conn_built_','whether the cached flow graphs match the fluxes','Toolbox::Impl')],['Toolbox::compute*Diagnostics'])
prop('C14','Inflow is split by sign, per well and per cell',
 'For every inflow assignment, the injection source of a cell is the sum over all wells of their positive entries for that cell and its production source the sum of the magnitudes of the negative entries; each well tracer is driven by exactly that well\'s own positive (negative) entries, and zero entries count for neither. Cells not mentioned have no source.',
 ['inputs'],'all maps from well identifiers to cell rates',
 'Tests have at most two wells sharing one cell; cross-flowing wells and cells that both inject and produce are not tried.',
 [FD+'Toolbox.cpp',FD+'TracerTofSolver.cpp'],[('sign split and accumulation','Toolbox::Impl::assignInflowFlux'),('sparse to dense source term','expandSparse')],
 [('only_inflow_flux_,only_outflow_flux_','total sources per cell','Toolbox::Impl')],['Toolbox::assignInflowFlux'])
prop('C15','Each acyclic cell satisfies the upwind transport balance',
 'For every flow field with positive pore volumes and connections joining distinct cells, each computed field satisfies, in every cell that lies on no flow cycle, the discrete upwind balance: tracer times total inflow equals the sum of upwind tracer times flux plus the cell\'s own tracer source, and (time of flight) times tracer times total inflow equals pore volume times tracer plus the sum of upwind time of flight times tracer times flux, where total inflow is the inflow through connections plus the total source. The only exceptions are the documented 200-year caps: cells without tracer or filled too slowly take the cap, and reported values are cut at it.',
 ['inputs'],'all flow fields, pore volumes, sources and start sets',
 'Tests check the equations indirectly on four tiny meshes with equal fluxes and volumes.',
 [FD+'TracerTofSolver.cpp'],[('single-cell upwind update in topological order','TracerTofSolver::solveSingleCell, solve, computeOrdering, computeLocalOrdering')],
 [('tof_,tracer_','solution fields','TracerTofSolver'),('sequence_,component_starts_','solution order','TracerTofSolver')],['TracerTofSolver::solveGlobal','TracerTofSolver::solveLocal'])
prop('C16','Time of flight is complete and bounded',
 'For every flow field the global time of flight has one value per cell, each between zero and 200 years, and cells that no source can reach get exactly 200 years. Per-well time-of-flight values obey the same bounds.',
 ['inputs'],'all flow fields including isolated cells, stagnant regions and flow cycles',
 'No test has an unreached cell, an extremely slow cell or a cycle, so none of the capping branches is exercised.',
 [FD+'TracerTofSolver.cpp'],[('final threshold over all cells','TracerTofSolver::solve'),('cap for cells without tracer or slow fill','TracerTofSolver::solveSingleCell')],
 [('max_tof_','200 years in seconds','TracerTofSolver')],['Solution::timeOfFlight'])
prop('C17','Per-well fields live exactly on the swept region with tracer in (0,1]',
 'For every flow field the per-well concentration and per-well time of flight are given for exactly the cells reachable downstream (upstream for production) from the cells in which that well injects (produces), and every concentration is greater than zero and at most one. A diagnostics call on valid input therefore never fails for lack of tracer.',
 ['inputs'],'all flow fields and start sets, cyclic or not',
 'Tests list the cells for two hand-made meshes; region boundaries depend on reachability in the whole flow graph.',
 [FD+'TracerTofSolver.cpp',FD+'Toolbox.cpp',T],[('solution extracted over the restricted decomposition only','TracerTofSolver::solveLocal, computeLocalOrdering'),('iteration until no cell changes between zero and non-zero','TracerTofSolver::solveMultiCell')],
 [('sequence_','cells of the swept region','TracerTofSolver')],['Solution::concentration','Solution::timeOfFlight'])
prop('C18','Tracers of all wells add up to one',
 'For every acyclic flow field in which every cell with outflow through connections also has inflow or injection, the concentrations of all injecting wells add up to one in each cell reached by at least one injector. Likewise, mirrored, for producers and the cells they drain.',
 ['inputs'],'all acyclic flow fields and well sets',
 'Tests check sums on two hand-made meshes only; the identity couples source splitting, inflow totals and upwind sums across all cells.',
 [FD+'TracerTofSolver.cpp',FD+'Toolbox.cpp'],[('total inflow used as divisor equals the upwind fluxes plus all sources','TracerTofSolver::InOutFluxComputer, solveSingleCell'),('sum of per-well sources equals the total source','Toolbox::Impl::assignInflowFlux')],
 [('influx_','total inflow per cell','TracerTofSolver')],['Solution::concentration'])
prop('C19','The flow-capacity/storage-capacity curve is a normalised concave curve',
 'For all positive travel times and non-negative pore volumes with a positive retained total, the curve has one more point than there are cells, starts at (0,0), ends at (1,1), is non-decreasing in both coordinates and never lies below the diagonal; cells are taken in order of increasing total travel time and a cell whose pore volume exceeds the given fraction of the total contributes nothing. Inputs of unequal length are rejected with an exception.',
 ['inputs'],'all travel-time and pore-volume vectors, all cut-off fractions',
 'Tests compute the curve for one five-cell line and one tiny example.',
 [FD+'DerivedQuantities.cpp'],[('sort by total travel time','flowCapacityStorageCapacityCurve'),('accumulate and normalise','cumulativeNormalized')],
 [],['flowCapacityStorageCapacityCurve'])
prop('C20','Lorenz coefficient and sweep efficiency match their definitions',
 'For every curve the Lorenz coefficient is twice the area between the piecewise linear curve and the diagonal, and lies between zero and one for every normalised curve that is non-decreasing and never below the diagonal. Sweep efficiency starts at (0,0) and has one further point per curve interval on which flow capacity changes, with abscissa (storage increment)/(flow increment) and ordinate storage + (1 - flow) times that abscissa; curves with coordinate lists of unequal length are rejected by both.',
 ['inputs'],'all curves',
 'Tests evaluate two example curves; skipped intervals and curves of one point are not tried.',
 [FD+'DerivedQuantities.cpp'],[('trapezoid quadrature','lorenzCoefficient'),('interval loop skipping zero flow increments','sweepEfficiency')],
 [],['lorenzCoefficient','sweepEfficiency'])
prop('C21','Well-pair volume and flux are the exact tracer-weighted sums',
 'The volume of an injector-producer pair is the sum, over all cells having both tracers, of pore volume times both concentrations. The pair fluxes are the sum over the injector\'s positive entries of rate times producer tracer and the sum over the producer\'s non-positive entries of rate times injector tracer (entries in cells without that tracer contribute nothing), so the first is never negative and the second never positive; a well missing from the inflow map is rejected.',
 ['inputs'],'all pairs of solutions, pore volumes and inflow maps',
 'Tests evaluate one or two pairs where every cell carries both tracers and each well has entries of a single sign.',
 [FD+'DerivedQuantities.cpp'],[('intersection sum','injectorProducerPairVolume'),('sign-filtered sum','pairFlux, injectorProducerPairFlux')],
 [],['injectorProducerPairVolume','injectorProducerPairFlux'])
prop('C22','Result and cell-set containers store and return exactly what was put in',
 'A solution object returns for each identifier the latest concentration and per-well time of flight assigned to it (empty if none), keeps the two kinds and different identifiers apart, lists exactly the identifiers having a concentration, and copies are independent of the original. A cell set contains exactly the cells it was built from or had inserted, each once, under the identifier it was given, and identifiers compare like their strings.',
 ['histories','inputs'],'all sequences of assignments, insertions, copies and queries',
 'Tests query a handful of identifiers after one assignment each.',
 [FD+'Solution.cpp',FD+'CellSet.cpp'],[('separate maps keyed by identifier','Solution::Impl'),('index set','CellSet')],
 [('tracerToF_,tracer_','per-well fields','Solution::Impl'),('iset_','cells','CellSet')],['Solution','CellSet','CellSetID'])

if __name__=='__main__':
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
    with open(out,'w') as f:
        for p in P: f.write(json.dumps(p)+'\n')
    for p in P:
        assert len(p['title'])<=80,p['id']
    print(len(P))
