#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "All ranks agree on the classes of shared unknowns",
 "When the classes of shared unknowns are built from a consistent description of which ranks hold which unknown, every unknown lies in exactly one class, the class's members are exactly the ranks that hold the unknown, and class 0 is the purely local one on every rank. All members of a class agree on its global identifier, no two different classes have the same identifier, they agree on its master (the smallest member), and any two ranks list the classes they have in common in the same relative order. Asking for the class of the union or of the intersection of two classes gives the class with exactly these members whenever the rank has it.",
 ["inputs", "configurations"], "every assignment of unknowns to non-empty sets of ranks, every number of ranks, with rank 0 holding unknowns or idle",
 "The tests run three fixed numbers of ranks on a few meshes whose partitions give a handful of sharing patterns and look only at iteration counts; disagreement about a rarely occurring pattern (chains, classes one rank lacks, idle ranks) is not visible there.",
 ["src/base/distributed/eqchierarchy.cpp", "src/base/distributed/eqchierarchy.hpp"],
 [("construction of the hierarchy, numbering of classes, merge and intersect tables", "src/base/distributed/eqchierarchy.cpp")],
 [("idx table, ids, distant-process table, merge table", "the classes as one rank sees them", "EQCHierarchy")],
 ["class lists, ids, members and master on every rank after construction"])

prop("C02", "Collective exchange of data on shared classes is exact and clean",
 "Reducing rows of data attached to classes of shared unknowns leaves every member of a class with the same row: the given reduction applied once to the members' rows in ascending rank order, and rows nobody shares are reduced alone. Scattering gives every member the master's row, gathering gives the master every member's row, and an all-reduction of values per unknown gives the reduction over exactly the ranks that hold it. The exchange ends on every rank for every sharing pattern, including empty rows and ranks that share nothing, whatever the order in which messages arrive, and leaves no message or request behind.",
 ["inputs", "schedules", "configurations"], "every sharing pattern, every row length (0 included), every order of message arrival, repeated exchanges",
 "The test meshes exercise a few patterns under whatever arrival order the machine happens to produce, and never look at the exchanged values.",
 ["src/base/distributed/reducetable.hpp", "src/base/distributed/eqchierarchy.hpp", "src/base/distributed/mpiwrap_extension.hpp", "src/base/mesh/base_mesh.hpp"],
 [("gather to the master, reduce, scatter back", "src/base/distributed/reducetable.hpp: ReduceTable, ScatterEQCData, GatherEQCData"),
  ("all-reduction of nodal data", "src/base/mesh/base_mesh.hpp: AllreduceNodalData, ScatterNodalData")],
 [], ["the row tables on every rank after each exchange", "the list of sent and received messages per rank"])

prop("C03", "Moving a distributed vector to its owners and back loses nothing",
 "Every shared unknown has exactly one owner among the ranks that hold it, and all ranks agree who that is. Converting a vector from 'each rank holds a part of the sum' to 'the owner holds the sum, everybody else zero' preserves the sum at every unknown, and converting on to 'everybody holds the sum' gives all holders the owner's value; the reverse conversions are the transposes. This holds for every order in which messages complete, for split start/apply/finish calls, and for repeated use of the same exchange object on different vectors.",
 ["schedules", "inputs", "histories"], "every sharing pattern and block size, every completion order of the messages, every legal sequence of start/apply/finish calls",
 "The tests only see converged iteration counts; a lost or doubled contribution for one interface unknown under one completion order changes them little or not at all.",
 ["src/base/linalg/dcc_map.cpp", "src/base/linalg/dcc_map.hpp"],
 [("choice of the owner", "BasicDCCMap / ChunkedDCCMap constructors"), ("buffered exchange", "DCCMap::StartDIS2CO, ApplyDIS2CO, FinishDIS2CO, StartCO2CU, ApplyCO2CU, FinishCO2CU, ApplyM, ApplyG")],
 [("m_buffer, g_buffer, requests", "messages in flight", "DCCMap")],
 ["the vector's entries and parallel status on every rank after each call"])

prop("C04", "The hybrid splitting of a distributed matrix represents the same matrix",
 "Splitting a distributed symmetric matrix into an owner-to-owner part and the remaining coupling part neither loses nor doubles an entry: for every vector the two parts applied one after the other give the same result as the distributed matrix, and so does the transposed product. The owner part couples only unknowns owned by the same rank and contains the full sums of the ranks' contributions.",
 ["inputs", "configurations"], "every symmetric distributed matrix, sharing pattern, block size and number of ranks",
 "The tests use matrices from a few finite element discretisations; patterns in which an entry is contributed by a rank that owns neither unknown, or by several ranks, are not singled out and products are never compared.",
 ["src/base/linalg/hybrid_matrix.cpp", "src/base/linalg/hybrid_matrix.hpp"],
 [("exchange and merging of diagonal blocks, rest matrix", "DecomposeSparseMatrixHybrid"), ("products", "HybridBaseMatrix::Mult, MultAdd, MultTrans, MultTransAdd")],
 [], ["entries of both parts on every rank", "results of products"])

prop("C05", "Smoothing flags are hints: same iterate, and a residual that is right",
 "The flags that say that the residual is already known, that it should be kept up to date, or that the start vector is zero never change the new iterate of a smoothing step, as long as what they claim is true; whenever an up-to-date residual is requested, the residual vector afterwards is the right-hand side minus the matrix times the new iterate. This holds for every smoother the library builds (point, block, dynamic block, multi-step and symmetrised wrappers, auxiliary-space and multigrid as smoother), forward and backward, in one process and distributed, and after any sequence of earlier calls.",
 ["histories", "configurations", "inputs"], "every smoother type, flag combination, direction, number of steps, vector contents and sequence of calls",
 "The tests drive each smoother through one fixed order of calls inside a preconditioner, where a stale residual only slows convergence a little.",
 ["src/base/smoothers/base_smoother.cpp", "src/base/smoothers/hybrid_base_smoother.cpp", "src/base/smoothers/gssmoother.cpp", "src/base/smoothers/block_gssmoother.cpp", "src/base/smoothers/loc_block_gssmoother_impl.hpp", "src/base/smoothers/dyn_block_smoother.cpp", "src/base/solve/amg_matrix.cpp"],
 [("flag handling", "Smooth / SmoothBack / SmoothK / SmoothBackK / SmoothSymm of all smoothers"), ("stages", "HybridBaseSmoother::SmoothImpl")],
 [], ["iterate and residual after each call"])

prop("C06", "Smoothers relax exactly the free unknowns, backward transposes forward",
 "A smoothing step computes the new iterate as the old one plus a fixed linear operator applied to the residual, so an exact solution is left unchanged; it uses the residual of, and changes, only free unknowns, and fixed ones keep their value bit for bit (auxiliary-space smoothing relaxes directions instead of unknowns and is excepted from the first half). In one process point and block variants are the Gauss-Seidel (or Jacobi) sweep over the free unknowns or the given blocks of them in one fixed order (ascending for unknowns, as given for blocks unless they are coloured for parallel work), backward in the reversed order; distributed ones do this on each owner's part with a diagonal that is at least that of the matrix; in every configuration the backward operator is the transpose of the forward one for symmetric matrices, and the symmetrised and multi-step wrappers are the corresponding compositions.",
 ["inputs", "configurations"], "every symmetric matrix, set of free unknowns, blocking, block size and number of steps",
 "The tests accept any convergent smoother; an update that skips an unknown, uses a wrong diagonal for some set of free unknowns, or a backward sweep that is not the transpose still passes.",
 ["src/base/smoothers/gssmoother.cpp", "src/base/smoothers/base_smoother.cpp", "src/base/smoothers/block_gssmoother.cpp", "src/base/smoothers/loc_block_gssmoother_impl.hpp", "src/base/smoothers/dyn_block_smoother.cpp", "src/base/smoothers/hybrid_smoother.cpp"],
 [("sweeps", "GSS3, GSS4, JacobiSmoother, BSmoother, BSmoother2, DynBlockSmoother"), ("composition", "ProxySmoother, HiptMairSmoother, HybridSmoother")],
 [], ["iterates for unit and random vectors"])

prop("C07", "Distributed smoothing does not depend on communication mode or timing",
 "For a distributed smoother, overlapping communication with computation, doing the communication in a background thread, and the order or delay of messages do not change the iterate or the residual, and after every call all ranks hold the same value for a shared unknown. Work handed to the background thread is executed exactly once and before its result is used, no hand-over is lost, and no interleaving of the threads (including tear-down) blocks for ever.",
 ["schedules", "configurations", "histories"], "every interleaving of compute and communication thread, every message timing, all overlap and thread settings, every sequence of smoother calls and destruction",
 "The tests never switch the overlapping or threaded modes on and see one interleaving per run.",
 ["src/base/smoothers/hybrid_base_smoother.cpp", "src/base/smoothers/hybrid_base_smoother.hpp", "src/base/linalg/dcc_map.cpp"],
 [("background thread", "BackgroundMPIThread"), ("staged sweep with overlapping exchange", "HybridBaseSmoother::SmoothImpl")],
 [("thread_ready, thread_done, end_thread, thread_exec_fun", "hand-over between compute and communication thread", "BackgroundMPIThread")],
 ["vectors after each call", "progress of all threads"])

prop("C08", "A multigrid cycle is the recursive definition of its cycle",
 "Applying the multigrid operator gives exactly the iterate of the textbook recursion for the configured cycle (V, W or BS): pre-smooth, restrict the residual, recurse, prolongate and add, post-smooth with the backward smoother, and solve on the coarsest level. The result depends only on the right-hand side (never on earlier applications or on the contents of the output vector), is linear in it, adds correctly when asked to add a multiple, and is a symmetric operator when matrix and coarse solver are; ranks that hold no coarse unknowns take part without changing it.",
 ["histories", "configurations", "inputs"], "every number of levels (one included), cycle type, presence of a coarse solver, set of ranks that drop out, and sequence of applications",
 "The tests use the V-cycle inside a Krylov solver, which hides an operator that is slightly wrong, unsymmetric or history dependent.",
 ["src/base/solve/amg_matrix.cpp", "src/base/solve/amg_matrix.hpp"],
 [("cycles", "AMGMatrix::SmoothV, SmoothW, SmoothBS, SmoothVFromLevel, CINV"), ("embedding into the finest space", "EmbeddedAMGMatrix"), ("multigrid as smoother", "AMGSmoother")],
 [("x_level, rhs_level, res_level", "work vectors kept between applications", "AMGMatrix")],
 ["output vector of every application", "order of calls to level smoothers and transfers"])

prop("C09", "Grid transfers are transposes, compose, and give the Galerkin matrix",
 "Every transfer between two levels is linear, restriction is the transpose of prolongation (seen as operators on distributed vectors), and the adding variants add the scaled transfer to the target. Joining several steps into one, and exchanging the order of a prolongation and a redistribution, does not change the combined transfer; the coarse matrix produced by a step is the transposed prolongation times matrix times prolongation, also across redistribution, where ranks that give up their unknowns end with none.",
 ["inputs", "configurations"], "every prolongation, block size, number of steps, grouping of ranks and vector in any parallel status",
 "The tests never compare a joined step with its parts or look at a coarse matrix; an error in one variant (add instead of set, one block size, one redistribution pattern) shows at most as slightly slower convergence.",
 ["src/base/coarsening/dof_map.cpp", "src/base/coarsening/dof_map.hpp", "src/base/coarsening/dof_contract.cpp", "src/base/coarsening/dof_contract.hpp"],
 [("steps", "ProlMap, CtrMap, ConcDMS, MultiDofMapStep, DynBlockProlMap"), ("joining", "MakeSingleStep2/3, Concatenate, PullBack, SwapWithProl"), ("level map", "DOFMap::TransferAtoB, AddC2F, ConcStep")],
 [], ["target vectors", "coarse matrices"])

prop("C10", "Coarsening partitions the free vertices and all ranks agree on it",
 "Each coarsening step maps every vertex to at most one coarse vertex: fixed (Dirichlet) vertices to none, a free one to none only if it has no edge on any rank or carries weight of its own that can dominate, and every coarse vertex has at least one fine vertex, so the coarse level is never larger than the fine one. All ranks that share a vertex agree on the coarse vertex it goes to, a coarse vertex is shared by exactly the ranks that need it, and its members are connected in the fine mesh. The coarse mesh has an edge between two coarse vertices exactly if some fine edge connects their members, and every fine edge is mapped to that edge or, inside one coarse vertex, to none. The weights of an H1 mesh add up: those of the members for a vertex (with the edges to dropped neighbours), those of the fine edges for an edge. Joining two steps into one gives the composed maps.",
 ["inputs", "configurations"], "every mesh graph, edge weights, Dirichlet set, partition into ranks and coarsening algorithm and its options",
 "The tests look at iteration counts on a few meshes; a rank-dependent or incomplete map for one interface pattern still converges.",
 ["src/base/coarsening/agglomerate_map.cpp", "src/base/coarsening/agglomerate_map.hpp", "src/base/coarsening/agglomerator_impl.hpp", "src/base/coarsening/spw_agg_impl.hpp", "src/base/coarsening/mis_agg_impl.hpp", "src/base/coarsening/base_coarse.cpp"],
 [("agglomeration", "SPWAgglomerator, MISAgglomerator"), ("coarse mesh", "AgglomerateCoarseMap::BuildMappedMesh / FillAgglomerates")],
 [], ["vertex and edge maps, coarse mesh on every rank"])

prop("C11", "Redistributing a mesh keeps every node, edge and datum",
 "Merging the parts of several ranks onto fewer ranks keeps the global mesh: every vertex and every edge of the original mesh corresponds to exactly one in the merged mesh with the same end points, and no others appear; a vertex is held by exactly the new owners of the ranks that held it, an edge by every rank that holds both ends. Data attached to vertices or edges arrives unchanged if it was consistent on all ranks and with the same sums if it was distributed, sums and copies over all holders of a node reach each of them, ranks outside the new set hold nothing, and sending a mesh to another rank and reading it back gives the same mesh.",
 ["inputs", "configurations"], "every mesh, partition, grouping of ranks, and attached data in either parallel status",
 "The tests reach redistribution with one automatic grouping for two and five ranks and never compare the meshes.",
 ["src/base/coarsening/grid_contract.cpp", "src/base/coarsening/grid_contract.hpp", "src/base/mesh/base_mesh.cpp", "src/base/mesh/base_mesh_impl.hpp", "src/base/mesh/alg_mesh.hpp"],
 [("contraction", "GridContractMap::BuildCEQCH, BuildNodeMaps, MapNodeData"), ("mesh messages", "NgsAMG_Comm::Send/Recv of meshes")],
 [], ["mesh and data on every rank before and after"])

prop("C12", "The level hierarchy is built in finitely many steps within its limits",
 "Setting up the hierarchy always ends, on all ranks together, with the same sequence of level decisions everywhere. Successive levels strictly shrink, there are never more levels than the configured maximum, coarsening goes on until the configured coarse size or level limit is reached or a coarsening attempt stagnates (makes too little progress), no level smaller than the configured minimum is created, and the matrix, mesh, unknowns and smoother of each level have matching sizes. There are at least two levels; if no coarse level is possible, every rank reports that as an error. Building again for the same problem and options gives the same levels, and limits alone only decide how much of that sequence of levels is built.",
 ["inputs", "configurations"], "every problem, number of ranks, and combination of level, size, coarsening and redistribution options",
 "The tests use default limits with a few problems; limits that bind exactly, stagnating coarsening and ranks dropping out at the same time are not reached.",
 ["src/base/factory/base_factory.cpp", "src/base/factory/base_factory.hpp", "src/base/precond/amg_pc.cpp"],
 [("level loop and step acceptance", "BaseAMGFactory::SetUpLevels, RSU, DoStep, TryCoarseStep, TryContractStep"), ("assembly of the multigrid operator", "BaseAMGPC::BuildAMGMat")],
 [("State: current level, redistribution bookkeeping", "what the next step may do", "BaseAMGFactory::State")],
 ["number and sizes of levels on every rank"])

prop("C13", "The assembled preconditioner is one fixed symmetric operator",
 "Applied to a symmetric problem, the finished preconditioner is a linear symmetric operator that is positive on right-hand sides supported on free unknowns; it returns the same result for the same right-hand side however often and in whatever order it is applied, in either parallel status of the input, and all ranks agree on shared unknowns. It leaves unknowns with Dirichlet conditions at zero, and correcting an approximate solution by the preconditioned residual never increases the energy of its error. This holds however the problem is posed (higher order, rotations, compound or compressed spaces, static condensation, BDDC), and after the form is assembled again with other coefficients for the new matrix.",
 ["histories", "inputs", "configurations"], "every supported problem class and option set, number of ranks and sequence of applications",
 "The tests run one conjugate gradient solve per configuration; small asymmetry, dependence on earlier applications or disagreement between ranks passes.",
 ["src/base/precond/amg_pc.cpp", "src/base/precond/amg_pc_vertex_impl.hpp", "src/base/factory/vertex_factory_impl.hpp", "src/base/solve/amg_matrix.cpp"],
 [("build and application", "BaseAMGPC::BuildAMGMat, Mult; VertexAMGPC")],
 [], ["result vectors of applications"])

prop("C14", "Options given for all levels or per level take effect as given",
 "An option with per-level values has on level k the k-th listed value if there is one and otherwise its general value; the general value is the one given by the user, or the default if the user gave none, and unknown names of enumerated values leave the default. Copying, assigning or moving an option set changes nothing, and or-combining two boolean option sets gives on every level the or of both.",
 ["inputs", "configurations", "histories"], "every combination of given and missing general and per-level values, every level, every sequence of copies, assignments and combinations",
 "The tests set a handful of options to one value each and only see their effect on convergence.",
 ["src/base/utils/SpecOpt.hpp", "src/base/factory/base_factory.cpp", "src/base/precond/amg_pc.cpp"],
 [("option objects", "SpecOpt"), ("reading of flags", "SetFromFlags, SetFromFlagsEnum, SetEnumOpt")],
 [], ["value of the option on each level"])

prop("C15", "The stationary solver stops where it says and reports what happened",
 "A stationary iteration performs at most the allowed number of steps and stops after the first step whose residual norm is below the tolerance times the initial one; with tolerance zero it performs exactly the allowed number of steps. It reports convergence exactly in the first case together with the number of steps actually performed, the recorded errors are those of the iterates, the returned residual belongs to the returned iterate, and starting flags (zero start vector, known residual, initialise) do not change the result when they are true.",
 ["inputs", "histories", "configurations"], "every number of steps, tolerance, right-hand side, flag combination and sequence of solves with one solver object",
 "No test uses this solver.",
 ["src/base/solve/LinearSolver.cpp", "src/base/solve/LinearSolver.hpp"],
 [("iteration loop", "LinearSolver::Solve"), ("one step", "AMGAsLinearSolver::DoIteration")],
 [("converged, needed_steps, errors", "what the solver reports", "LinearSolver")],
 ["reported values and vectors after a solve"])

prop("C16", "Sparse matrix building blocks compute what their algebra says",
 "For sparse matrices with scalar or small dense entries, product, transpose, application to vectors, triple product with a prolongation from both sides, conversion of an operator expression (sums, products, transposes, embeddings, block matrices, identities) to one sparse matrix, restriction to blocks of rows and columns and dropping of small entries give exactly the entries of the corresponding dense operation, in rows sorted by column and without duplicate columns. The array and table helpers underneath (search and insertion in sorted arrays, merging and intersecting of sorted lists) agree with the set operations they stand for.",
 ["inputs"], "every sparsity pattern (empty rows, empty matrices, rectangular shapes) and entry size the library instantiates",
 "The tests reach these routines only through complete solver runs with regular patterns.",
 ["src/base/linalg/utils_sparseMM.cpp", "src/base/linalg/utils_sparseMM.hpp", "src/base/linalg/utils_sparseLA.cpp", "src/base/linalg/utils_sparseLA.hpp", "src/base/utils/utils_arrays_tables.hpp"],
 [("kernels", "MatMultAB, TransposeSPM, RestrictMatrix, merge_arrays, find_in_sorted_array")],
 [], ["entries of the results"])

prop("C17", "Block-compressed matrices are the same operators as the scalar ones",
 "Grouping the rows and columns of a scalar sparse matrix into blocks of equal pattern changes its storage only: every entry is represented once, products with vectors (also scaled and added; transposed where that is offered) equal those of the scalar matrix, and so does a smoothing step on the blocks compared with block Gauss-Seidel over the same groups. This holds for every pattern, in particular for singleton groups, rows without entries and rectangular matrices, and in distributed form.",
 ["inputs", "configurations"], "every sparsity pattern, grouping and number of ranks",
 "No test uses this matrix format.",
 ["src/base/linalg/dyn_block.cpp", "src/base/linalg/dyn_block.hpp", "src/base/smoothers/dyn_block_smoother.cpp"],
 [("conversion and products", "DynBlockSparseMatrix"), ("smoothing", "DynBlockSmoother, HybridDynBlockSmoother")],
 [], ["products, iterates"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
