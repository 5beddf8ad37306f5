#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
  assert len(title) <= 80, (id, len(title))
  a = {"files": ["tensornetwork/" + f for f in files],
       "mechanism": [{"name": n, "where": "tensornetwork/" + w} for n, w in mech]}
  if state:
    a["state"] = [{"name": n, "meaning": m, "where": "tensornetwork/" + w} for n, m, w in state]
  if observe:
    a["observe_at"] = observe
  a["hook_needed"] = None
  P.append({"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


p("C01", "ncon computes the labelled sum for every labelling",
  "For every valid label structure, ncon returns the tensor whose entries are the sum over all positive "
  "labels of the products of the input entries, with open axes ordered -1, -2, ...: this includes labels repeated on "
  "one tensor (traces), closed labels on three or more tensors, open batch labels, disconnected networks, and "
  "integer as well as string labels. Contractions, transpositions and traces never mix up axes.",
  ["inputs", "programs"],
  "every assignment of integer labels (any magnitude, any order type) to the axes of up to three tensors, and every value of the tensor entries",
  "The existing ncon tests fix a dozen label patterns with constant or random arrays; they cannot cover all orderings/pairings of labels, and the ncon test module is not even collectable without torch.",
  ["ncon_interface.py", "backends/numpy/numpy_backend.py"],
  [("ncon", "ncon_interface.py"), ("_jittable_ncon", "ncon_interface.py"), ("_partial_trace", "ncon_interface.py"), ("_batch_cont", "ncon_interface.py")],
  ["tensornetwork.ncon"])

p("C02", "ncon's value does not depend on con_order; out_order only permutes",
  "Every con_order that lists the closed labels yields the same value, whatever the order, and out_order determines only the axis order of the "
  "result: axis k carries the k-th label of out_order. Invalid label structures or orders are rejected with ValueError rather than evaluated, and ncon neither modifies the "
  "tensors nor the label lists it is given.",
  ["inputs", "programs"],
  "every permutation of the closed labels as con_order, every permutation of the open labels as out_order, every value of the entries, for networks of up to 4 tensors",
  "Tests pass a handful of fixed con_order/out_order pairs, compared on one random array each.",
  ["ncon_interface.py"],
  [("_jittable_ncon", "ncon_interface.py"), ("_check_network", "ncon_interface.py"), ("ncon", "ncon_interface.py")],
  ["tensornetwork.ncon"])

p("C03", "Node contractions preserve the network's value and dangling edges",
  "contract, contract_between, contract_parallel, the @ operator, contract_trace_edges, outer_product and contract_copy_node each replace the involved nodes by a node whose tensor is the exact sum over "
  "the shared edges, whatever the number, axis positions or order of those edges. Every edge that was dangling or leads to another node survives, still attached to the new node and in the documented axis "
  "order (or exactly in output_edge_order).",
  ["inputs", "programs"],
  "every way of wiring two or three nodes of up to order 3 (parallel edges, trace edges, crossed axes, edges to third nodes), every output edge order, every value of the entries",
  "Tests check individual hand-wired graphs with ones or random numbers; a bug that only swaps axes for one relative edge order or one size asymmetry is not sampled.",
  ["network_components.py", "backends/numpy/numpy_backend.py"],
  [("contract", "network_components.py"), ("contract_between", "network_components.py"), ("_remove_edges", "network_components.py"), ("_remove_trace_edge", "network_components.py"), ("outer_product", "network_components.py"), ("contract_parallel", "network_components.py")],
  ["tensornetwork.contract", "tensornetwork.contract_between", "Node.tensor", "Node.edges"])

p("C04", "Nodes and edges stay mutually consistent under every operation history",
  "After any sequence of connect, disconnect, reorder_edges, reorder_axes, flatten, split and contract operations, each node's k-th edge "
  "refers back to that node and axis k, non-dangling edges are shared by exactly the two axes they join and joined axes have equal dimension; check_correct accepts such graphs and rejects any graph in which a node's edge does not refer back. An operation that is rejected with an error leaves the "
  "graph as it was.",
  ["histories"],
  "every sequence of up to three operations with symbolic operands on networks of two or three nodes",
  "Unit tests run one operation on one graph and inspect selected attributes; the invariant quantifies over histories.",
  ["network_components.py", "network_operations.py"],
  [("connect", "network_components.py"), ("disconnect", "network_components.py"), ("Node.reorder_edges", "network_components.py"), ("check_correct", "network_operations.py")],
  ["Node.edges", "Edge.node1", "Edge.axis1", "tensornetwork.check_correct"],
  [("Node.edges", "one Edge per axis", "network_components.py"), ("Edge._nodes/_axes", "end points of the edge", "network_components.py")])

p("C05", "Flattening, splitting, slicing and reordering edges only relabel data",
  "reorder_edges/reorder_axes permute the tensor consistently with the edges, flatten_edges(_between) followed by contraction gives the same value as contracting the edges separately, "
  "split_edge inverts flatten_edges for any factorisation of the dimension, and slice_edge on a connected edge restricts both sides to the same index range.",
  ["inputs", "programs"],
  "every permutation / subset / order of edges of networks with up to 3 nodes of order up to 4, every dimension assignment up to 3, every slice window, all tensor entries",
  "Tests flatten or split one fixed pair of edges, mostly with equal dimensions and values of one.",
  ["network_components.py"],
  [("flatten_edges", "network_components.py"), ("split_edge", "network_components.py"), ("_flatten_trace_edges", "network_components.py"), ("slice_edge", "network_components.py"), ("reorder_axes", "network_components.py")],
  ["Node.tensor", "tensornetwork.contract_between"])

p("C06", "All contractors agree with the sum over all internal indices",
  "optimal, branch, greedy, auto and custom contractors (and the explicit contract_path and bucket contractors) return the same tensor: the sum over every "
  "internal edge of the product of node entries, with free edges in output_edge_order; for every graph with or without trace edges, parallel edges, disconnected parts, scalars or copy tensors. The input's dangling edges are the edges of the result and no tensor is altered.",
  ["inputs", "programs", "configurations"],
  "every connection pattern of up to 4 nodes from the bounded family, every contractor, every output edge order, every value of the entries",
  "Tests contract a few fixed graphs of ones; value equality between contractors over all wirings is not sampled.",
  ["contractors/opt_einsum_paths/path_contractors.py", "contractors/opt_einsum_paths/utils.py", "contractors/bucket_contractor.py", "contractors/custom_path_solvers/nconinterface.py", "network_components.py"],
  [("base", "contractors/opt_einsum_paths/path_contractors.py"), ("auto", "contractors/opt_einsum_paths/path_contractors.py"), ("contract_path", "contractors/opt_einsum_paths/path_contractors.py"), ("bucket", "contractors/bucket_contractor.py"), ("contract_copy_node", "network_components.py")],
  ["tensornetwork.contractors.*"])

p("C07", "Splitting a node and recontracting reproduces the tensor",
  "split_node, split_node_full_svd, split_node_qr and split_node_rq return factors whose contraction equals the original tensor when nothing is truncated, for every bipartition and order of left and right edges; the isometric factors are isometries, the "
  "given edges end up on the left and right node in the given order, and edges to other nodes stay connected. With truncation (by number, by error, or both limits together), the reported discarded values are exactly those removed from the kept factors.",
  ["inputs", "programs"],
  "every ordered bipartition of the edges of a node of order up to 4, every tensor value whose LAPACK factorisation satisfies its contract, truncation limits within range",
  "Tests split along one or two fixed bipartitions of random tensors.",
  ["network_operations.py", "backends/numpy/decompositions.py"],
  [("split_node", "network_operations.py"), ("split_node_qr", "network_operations.py"), ("split_node_rq", "network_operations.py"), ("split_node_full_svd", "network_operations.py")],
  ["tensornetwork.split_node*"])

p("C08", "SVD truncation keeps as few values as the limits allow, never fewer",
  "With max_singular_values and/or max_truncation_error (absolute or relative to the largest value) the decomposition keeps the largest singular values, as few as possible "
  "such that the norm of the discarded ones does not exceed the error limit, and never more than max_singular_values; discarded values are returned, and u, s, vh have matching truncated shapes. Without limits nothing is discarded; with an error limit as large as the whole spectrum everything may be.",
  ["inputs", "configurations"],
  "every descending non-negative singular spectrum with up to 4 values, every error limit (symbolic real), every max_singular_values, absolute and relative mode, every pivot axis",
  "Tests use two or three fixed spectra and limits; the boundary cases (ties, equality with the limit, zero spectrum) are not sampled.",
  ["backends/numpy/decompositions.py", "backends/tensorflow/decompositions.py", "backends/numpy/numpy_backend.py"],
  [("svd", "backends/numpy/decompositions.py"), ("svd", "backends/tensorflow/decompositions.py")],
  ["backend.svd", "tensornetwork.split_node"])

p("C09", "Copies of networks are faithful and independent",
  "copy, conjugated copy, replicate_nodes, reduced_density and copy_like operations yield networks with the same wiring, dangling edges, names and (conjugated) entries, and the original "
  "network keeps its value and structure when the copy is contracted or rewired (copies may share the underlying arrays). remove_node and get_subgraph/reachable queries report exactly the edges and nodes they describe.",
  ["inputs", "programs"],
  "every wiring of up to three nodes incl. copy nodes, trace and parallel edges, all entries (complex)",
  "Tests copy two or three fixed graphs and compare a few attributes.",
  ["network_operations.py", "network_components.py"],
  [("copy", "network_operations.py"), ("reduced_density", "network_operations.py"), ("replicate_nodes", "network_operations.py"), ("remove_node", "network_operations.py")],
  ["tensornetwork.copy", "tensornetwork.reduced_density"])

p("C10", "Serialising and loading a network restores it exactly",
  "Loading what nodes_to_json or save_nodes wrote gives a network with the same nodes in the same order, names, axis names, edge names, wiring and tensor entries, "
  "including edge bindings; a JSON export of some of the nodes turns the edges to the others into dangling edges. Saving leaves the original network unchanged, also when it is refused or fails half-way.",
  ["inputs", "programs"],
  "every wiring of up to three nodes incl. dangling, parallel and trace edges, arbitrary names, any entries; networks of more than ten nodes for the file format",
  "Tests round-trip a few fixed graphs; ordering effects with many nodes and the state of the saved network afterwards are not looked at.",
  ["network_operations.py", "utils.py", "network_components.py"],
  [("nodes_to_json", "network_operations.py"), ("nodes_from_json", "network_operations.py"), ("save_nodes", "utils.py"), ("load_nodes", "utils.py")],
  ["tensornetwork.nodes_to_json", "tensornetwork.save_nodes"])

p("C11", "Path solvers return valid orders and the claimed optimal cost",
  "For every network, the custom path solvers (greedy and full) return a contraction order that is valid for the network and mentions every closed label once; the cost they report is the cost of that order (as ncon_cost_check computes it), "
  "and the full solver's cost is no larger than the cost of any other pairwise order that takes outer products only when nothing is connected any more.",
  ["inputs"],
  "every bond-dimension assignment (symbolic; 1 or 1.25 to 64) for networks of two to five tensors",
  "Tests compare against stored orders of a few networks with one set of dimensions.",
  ["contractors/custom_path_solvers/pathsolvers.py", "contractors/custom_path_solvers/nconinterface.py"],
  [("full_solve_complete", "contractors/custom_path_solvers/pathsolvers.py"), ("greedy_cost_solve", "contractors/custom_path_solvers/pathsolvers.py"), ("ncon_solver", "contractors/custom_path_solvers/nconinterface.py")],
  ["tensornetwork.contractors.ncon_solver"])

p("C12", "Symmetry charges form the group they claim",
  "For U(1), Z2, ZN and product charges, fusing is associative and commutative, the identity charge is neutral and fusing a charge with its dual gives the identity; "
  "fusing charge lists fuses every pair in row-major order with each flow sign applied. Dual is an involution and results stay inside the group and inside the charge dtype (N has to fit it).",
  ["inputs"],
  "every charge value representable in the charge dtype (16-bit bit-vectors), every N up to the bound, product charges of up to three symmetries",
  "Tests draw charges from a small random range with one seed.",
  ["block_sparse/charge.py", "block_sparse/utils.py"],
  [("U1Charge.fuse", "block_sparse/charge.py"), ("ZNCharge", "block_sparse/charge.py"), ("fuse_charges", "block_sparse/charge.py"), ("BaseCharge.__add__", "block_sparse/charge.py")],
  ["tensornetwork.U1Charge", "tensornetwork.fuse_charges"])

p("C13", "Charge and index set operations treat charges by value",
  "unique, intersect, reduce, equality, comparison and indexing of charge collections give the result defined by the charge values themselves, for "
  "every multiset of charges, every number of symmetries, and whatever internal compressed representation the collection currently has.",
  ["inputs", "histories"],
  "every collection of up to 4 charges with values in the bounded range, up to 3 symmetries, built through every combination of dual/mul/index/fuse within the bound",
  "Tests compare on a few seeds with one representation; representation-dependent errors need particular collections.",
  ["block_sparse/charge.py", "block_sparse/utils.py"],
  [("BaseCharge.unique", "block_sparse/charge.py"), ("unique", "block_sparse/utils.py"), ("intersect", "block_sparse/utils.py"), ("charge_equal", "block_sparse/charge.py"), ("collapse/expand", "block_sparse/utils.py")],
  ["BaseCharge.unique", "Index.__eq__"])

p("C14", "Block bookkeeping enumerates exactly the symmetry-allowed entries",
  "For any charges, flows and leg bipartition, the block maps of a block-sparse tensor partition its stored data: each allowed entry (total charge zero) appears in exactly one block at its row/column position, no forbidden entry is stored, and the number of stored entries is the number of allowed ones. "
  "reduce_charges and the strides they yield agree with enumerating all charge combinations.",
  ["inputs"],
  "every charge assignment (bounded values) for tensors with up to 4 legs of dimension up to 2 or 3, every flow pattern, every bipartition and leg permutation",
  "Tests compare against a reference on random charges with fixed seeds and shapes.",
  ["block_sparse/blocksparse_utils.py", "block_sparse/blocksparsetensor.py"],
  [("compute_num_nonzero", "block_sparse/blocksparse_utils.py"), ("reduce_charges", "block_sparse/blocksparse_utils.py"), ("_find_diagonal_sparse_blocks", "block_sparse/blocksparse_utils.py"), ("_find_transposed_diagonal_sparse_blocks", "block_sparse/blocksparse_utils.py")],
  ["BlockSparseTensor.todense", "BlockSparseTensor.contiguous"])

p("C15", "Block-sparse tensor operations equal the dense operations",
  "transpose, reshape, contiguous, tensordot (inner, outer and partial contractions in any axis order), outer product, trace, diag (the block diagonals), conj, H (which reverses the flows), addition, subtraction, scalar multiplication, norm, compare_shapes and fromdense/todense of symmetric tensors commute with conversion to dense arrays. "
  "This holds for all leg orders and storage layouts an earlier operation may have left behind, and operands keep their value.",
  ["inputs", "histories"],
  "every charge assignment in the bounded range for tensors of up to 4 legs, every flow pattern, axis permutation and contraction axes within the bound, all stored entries symbolic",
  "Tests compare a few random shapes and charges per operation with one seed each; particular charge coincidences and layout histories are not reached.",
  ["block_sparse/blocksparsetensor.py", "block_sparse/blocksparse_utils.py", "backends/symmetric/symmetric_backend.py"],
  [("BlockSparseTensor.transpose", "block_sparse/blocksparsetensor.py"), ("tensordot", "block_sparse/blocksparsetensor.py"), ("_align_storage_layout", "block_sparse/blocksparsetensor.py"), ("ChargeArray.reshape", "block_sparse/blocksparsetensor.py")],
  ["BlockSparseTensor.todense"])

p("C16", "Block-sparse decompositions recombine and conserve charge",
  "svd, qr, rq, eigh, eig, inv and pinv of symmetric tensors return symmetric tensors whose product reproduces the input, with isometric factors and block-diagonal charge structure; truncated "
  "svd keeps the globally largest singular values over all charge sectors subject to the limits (by number, absolute or relative error), and drops the corresponding rows and columns in every sector.",
  ["inputs", "configurations"],
  "every charge assignment within the bound for matrices and order-3 tensors, every block spectrum (symbolic), every truncation limit",
  "Tests use random charges with a fixed seed and compare singular values numerically; interleavings of spectra across sectors are not enumerated.",
  ["backends/symmetric/decompositions.py", "block_sparse/linalg.py"],
  [("svd", "backends/symmetric/decompositions.py"), ("svd", "block_sparse/linalg.py"), ("qr", "block_sparse/linalg.py"), ("eigh", "block_sparse/linalg.py"), ("inv", "block_sparse/linalg.py")],
  ["symmetric backend svd/qr/rq/eigh/inv"])

p("C17", "Block-data caching never changes a result",
  "Enabling caching, in any order with disabling, clearing or repeating operations, leaves the value of every block-sparse operation exactly as without caching, "
  "for any history of tensors with different charges, symmetries, flows and bipartitions.",
  ["histories"],
  "every pair of tensors with bounded charges/legs/flows/charge types whose operations run one after the other with caching on; all entries symbolic",
  "Tests run one operation with caching enabled; key collisions need two particular tensors in one history.",
  ["block_sparse/caching.py", "block_sparse/blocksparse_utils.py"],
  [("_to_string", "block_sparse/blocksparse_utils.py"), ("cacher", "block_sparse/caching.py")],
  ["BlockSparseTensor.todense"],
  [("cacher.cache", "block data keyed by a string of charges/flows/order", "block_sparse/caching.py")])

p("C18", "Moving the MPS centre preserves the state and its canonical form",
  "Shifting the orthogonality centre of a matrix product state (or canonicalising it) without truncation leaves the represented state unchanged up to the documented normalisation, returns its norm at the centre, and leaves every tensor left of the centre left-isometric and every tensor right of it right-isometric. "
  "The centre position is what was requested, for every history of moves, and the arrays the MPS was built from are not modified.",
  ["inputs", "histories"],
  "every start and target site of chains of up to 4 sites, all tensor entries, any QR/RQ factors satisfying their contract",
  "Tests check norms on random states with a few positions.",
  ["matrixproductstates/base_mps.py", "matrixproductstates/finite_mps.py", "matrixproductstates/infinite_mps.py"],
  [("BaseMPS.position", "matrixproductstates/base_mps.py"), ("FiniteMPS.canonicalize", "matrixproductstates/finite_mps.py")],
  ["FiniteMPS.tensors", "FiniteMPS.check_canonical"])

p("C19", "MPS observables equal brute-force expectation values",
  "measure_local_operator, measure_two_body_correlator, left_envs, right_envs and transfer-operator application return exactly the expectation values and environments obtained by contracting the full state with the operators, for every site, operator (also non-Hermitian) and complex state in the "
  "canonical form the MPS claims; correlators have one value per entry of sites2, in the given order.",
  ["inputs"],
  "every operator site combination on chains of up to 4 sites, complex symbolic tensors and operators, every centre position incl. None",
  "Tests use states with constant entries or real random states where conjugation and index-order errors cancel.",
  ["matrixproductstates/base_mps.py", "matrixproductstates/finite_mps.py"],
  [("measure_local_operator", "matrixproductstates/base_mps.py"), ("measure_two_body_correlator", "matrixproductstates/base_mps.py"), ("left_envs", "matrixproductstates/finite_mps.py"), ("right_envs", "matrixproductstates/finite_mps.py")],
  ["FiniteMPS.measure_*"])

p("C20", "Gates act on an MPS as the operator on the full state",
  "apply_one_site_gate and apply_two_site_gate change the represented state exactly by the gate acting on those sites when nothing is truncated, for each choice of centre position. Afterwards the tensors are isometric on the sides the recorded "
  "centre position claims (or the centre is None; one-site gates away from the centre have to be unitary for that), so that later measurements are right; the returned truncation weight lists the discarded values.",
  ["inputs", "configurations"],
  "every gate (all entries symbolic, complex), every pair of neighbouring sites of chains of up to 4 sites, every centre position choice and truncation option",
  "Tests apply a few random or identity gates and check norms; the canonical-form claim after gates without truncation is not checked.",
  ["matrixproductstates/base_mps.py"],
  [("apply_two_site_gate", "matrixproductstates/base_mps.py"), ("apply_one_site_gate", "matrixproductstates/base_mps.py")],
  ["FiniteMPS.tensors", "FiniteMPS.center_position"])

p("C21", "DMRG environments and effective Hamiltonians match the full problem",
  "The left and right environments kept during DMRG, at every centre position and after every move, equal the contraction of all tensors on that side, the one- and two-site effective Hamiltonian "
  "applied to the current tensor(s) equals the projection of the full operator, and compute_energy is <psi|H|psi> of the state. Local updates keep the state canonical, and environments recomputed after tensors were exchanged by hand are those of the new tensors.",
  ["inputs", "histories"],
  "all MPS/MPO entries symbolic on chains of up to 4 sites, every sequence of centre moves within the bound",
  "Tests run DMRG to convergence on two models and compare the final energy.",
  ["matrixproductstates/dmrg.py", "matrixproductstates/mpo.py"],
  [("BaseDMRG.position", "matrixproductstates/dmrg.py"), ("add_left_layer", "matrixproductstates/dmrg.py"), ("single_site_matvec", "matrixproductstates/dmrg.py"), ("two_site_matvec", "matrixproductstates/dmrg.py")],
  ["FiniteDMRG.left_envs", "FiniteDMRG.compute_energy"])

p("C22", "Built-in MPOs represent their Hamiltonians for all couplings",
  "Contracting the tensors of the XXZ, transverse-field Ising and 2D free-fermion MPOs gives exactly the sum of the documented local terms (with Jordan-Wigner signs for fermions), for all couplings, fields and lattice sizes (at least two sites), including site-dependent couplings.",
  ["inputs", "configurations"],
  "all couplings and fields symbolic (site dependent), chains of 2..5 sites, all grids with up to 6 sites",
  "Tests compare energies or a stored matrix for one set of couplings.",
  ["matrixproductstates/mpo.py"],
  [("FiniteXXZ", "matrixproductstates/mpo.py"), ("FiniteTFI", "matrixproductstates/mpo.py"), ("FiniteFreeFermion2D", "matrixproductstates/mpo.py")],
  ["FiniteMPO.tensors"])

p("C23", "Quantum operator algebra equals dense linear algebra",
  "For operators and vectors represented by tensor networks (including identities), @, tensor_product, scalar multiplication, adjoint, trace, partial_trace, norm, projector and reduced_density evaluate to the dense results with "
  "axes in out-then-in order (norm is the squared 2-norm). Operands are not changed, and spaces that do not match are rejected.",
  ["inputs", "programs"],
  "every composition of up to two (thorough: three) operations on one- and two-subsystem operators, vectors and identities, complex symbolic entries, every subset of subsystems traced out",
  "Tests evaluate a few compositions on random tensors; chains of identities and orders of set iteration are not covered.",
  ["quantum/quantum.py", "network_operations.py"],
  [("QuOperator", "quantum/quantum.py"), ("eliminate_identities", "quantum/quantum.py"), ("identity", "quantum/quantum.py")],
  ["QuOperator.eval"])

p("C24", "Backends implement the same mathematics",
  "For each tensor operation of the backend interface (tensordot, transpose, reshape, slice, trace, diagonal, diagflat, broadcast multiplication, outer product, einsum, matmul, arithmetic, power, pivot, sum, norm, index_update, item, inverse, eigh), NumPy, JAX and TensorFlow backends compute the same function of the entries, that of the NumPy definition, for all argument combinations "
  "all of them accept.",
  ["inputs", "configurations"],
  "all entries symbolic, tensors of order up to 4, all axes/offset/permutation arguments in the bound",
  "Each backend has its own tests with its own random arrays and few argument combinations; agreement over all arguments is not tested.",
  ["backends/numpy/numpy_backend.py", "backends/jax/jax_backend.py", "backends/tensorflow/tensorflow_backend.py", "backends/tensorflow/tensordot2.py"],
  [("NumPyBackend", "backends/numpy/numpy_backend.py"), ("JaxBackend", "backends/jax/jax_backend.py"), ("TensorFlowBackend", "backends/tensorflow/tensorflow_backend.py"), ("tensordot", "backends/tensorflow/tensordot2.py")],
  ["backend methods"])

p("C25", "The Tensor API and node linear algebra mean what they say",
  "tn.Tensor methods and operators (arithmetic incl. reflected, @, transposes, conj, H, reshape/squeeze/ravel/flatten, ncon-builder calls), and tensordot, kron, outer, trace, diagonal, "
  "node kron/transpose/conj, equal the mathematical operation on the underlying arrays for all shapes and axes. Operands of different backends are rejected, and operands are unchanged.",
  ["inputs"],
  "all entries symbolic (complex), shapes of order up to 4 and dimension up to 3, all axes and permutations",
  "Tests check each method once per backend on one shape.",
  ["tensor.py", "linalg/operations.py", "linalg/node_linalg.py", "linalg/linalg.py"],
  [("Tensor", "tensor.py"), ("kron", "linalg/operations.py"), ("kron", "linalg/node_linalg.py"), ("transpose", "linalg/node_linalg.py")],
  ["tensornetwork.Tensor"])

p("C26", "QR, RQ and wrappers factor any tensor about any pivot",
  "qr and rq about any pivot axis return factors whose product is the tensor, an isometric Q and triangular R; with non_negative_diagonal the diagonal of R is real and non-negative and the product is still the tensor, for real and complex input.",
  ["inputs", "configurations"],
  "every tensor of order up to 4 whose LAPACK factors satisfy their contract (arbitrary complex phases on the diagonal), every pivot axis",
  "Tests check a few random tensors; phases of complex diagonals are whatever LAPACK returns for them.",
  ["backends/numpy/decompositions.py", "backends/tensorflow/decompositions.py"],
  [("qr", "backends/numpy/decompositions.py"), ("rq", "backends/numpy/decompositions.py")],
  ["backend.qr", "backend.rq"])

p("C27", "Krylov solvers return genuine eigenpairs and leave inputs alone",
  "When the Krylov space is exhausted, eigsh_lanczos returns eigenvalue/eigenvector pairs of the operator it was given, lowest first, for every Hermitian operator and start vector; eigs, gmres and transfer_matrix_eigs pass the operator, start vector and arguments on faithfully and return its eigenpairs or solution. Neither the initial state nor operator arguments, nor arrays "
  "the operator returned, are modified, and results do not depend on earlier calls.",
  ["inputs", "histories"],
  "every Hermitian operator on spaces of up to 4 dimensions (5 for start vectors along a basis vector) and every start vector (symbolic), NumPy and symmetric backends, with and without re-orthogonalisation",
  "Tests run one random matrix per configuration with a tolerance and do not look at the input afterwards.",
  ["backends/numpy/numpy_backend.py", "backends/symmetric/symmetric_backend.py", "linalg/krylov.py"],
  [("eigsh_lanczos", "backends/numpy/numpy_backend.py"), ("eigsh_lanczos", "backends/symmetric/symmetric_backend.py")],
  ["backend.eigsh_lanczos"])

p("C28", "Default-backend contexts nest like a stack",
  "Under every history of entering and leaving backend contexts (including leaving through exceptions) and setting the default, the default backend is that of the innermost open context, or else the last one set outside; setting the default inside a context is "
  "refused without effect. New nodes use that backend, and likewise node-collection contexts collect exactly the nodes created inside them.",
  ["histories"],
  "every history of up to five enter/exit/raise/set operations with symbolic operation and operand choice",
  "Tests run one or two nested contexts.",
  ["backend_contextmanager.py", "ops.py", "network_components.py"],
  [("DefaultBackend", "backend_contextmanager.py"), ("set_default_backend", "backend_contextmanager.py"), ("NodeCollection", "network_components.py")],
  ["tensornetwork.set_default_backend", "tensornetwork.DefaultBackend"])

p("C29", "Tensor-network Keras layers compute the network they describe",
  "DenseDecomp, DenseMPO, DenseCondenser, DenseExpander, DenseEntangler and Conv2DMPO layers apply exactly the linear map obtained by contracting their kernel tensors (plus bias, then activation) to each batch element, independent of the other batch elements, in both data formats of the convolution; compute_output_shape and layers rebuilt from their configuration agree.",
  ["inputs", "configurations"],
  "all kernel, bias and input entries, small layer sizes",
  "Tests check output shapes and training loss, not the function computed.",
  ["tn_keras/dense.py", "tn_keras/mpo.py", "tn_keras/condenser.py", "tn_keras/expander.py", "tn_keras/entangler.py", "tn_keras/conv2d_mpo.py"],
  [("call", "tn_keras/mpo.py"), ("call", "tn_keras/entangler.py")],
  ["layer call"])

p("C30", "Infinite MPS canonicalisation yields the Schmidt form of the same state",
  "Canonicalising an infinite matrix product state preserves the state (up to norm and a gauge that cancels around the unit cell) and yields left-isometric site tensors with a connector matrix that is the inverse of the Schmidt matrix; the squared Schmidt values are the right fixed point of the "
  "unit cell's transfer operator. This holds also for states that already have a connector, at every centre position, and when canonicalising repeatedly.",
  ["inputs", "histories"],
  "unit cells of one to three sites of bond dimension up to 2 whose dominant eigenvectors meet their contract, arbitrary complex entries within the families of checks/c30.py",
  "Tests check norms of random unit cells that never had a connector, with real entries.",
  ["matrixproductstates/infinite_mps.py", "matrixproductstates/base_mps.py"],
  [("canonicalize", "matrixproductstates/infinite_mps.py"), ("transfer_matrix_eigs", "matrixproductstates/infinite_mps.py"), ("apply_transfer_operator", "matrixproductstates/base_mps.py")],
  ["InfiniteMPS.canonicalize", "InfiniteMPS.connector_matrix"])

p("C31", "The PyTorch backend agrees with the NumPy backend",
  "Every operation of the PyTorch backend computes the same function of its inputs as the NumPy backend.",
  ["inputs", "configurations"],
  "all entries and arguments",
  "PyTorch is not even installed where the tests run.",
  ["backends/pytorch/pytorch_backend.py", "backends/pytorch/decompositions.py"],
  [("PyTorchBackend", "backends/pytorch/pytorch_backend.py")],
  ["backend methods"])

p("C32", "Restarted Arnoldi/Lanczos and GMRES in JAX converge to true solutions",
  "The JAX implementations of implicitly restarted Arnoldi/Lanczos and GMRES return (Ritz) pairs and solutions whose residual is within the requested tolerance, or report that they did not converge.",
  ["inputs"],
  "all operators and start vectors",
  "Tests run a few random matrices.",
  ["backends/jax/jitted_functions.py"],
  [("gmres_wrapper", "backends/jax/jitted_functions.py")],
  ["backend.eigs", "backend.gmres"])

p("C33", "Nodes are built, described and combined as documented",
  "from_topology wires tensors exactly as the einsum-like string says (equal letters share an edge, single letters dangle) and rejects impossible strings; node +, -, * and / with nodes or numbers give a new unconnected node with the element-wise result and leave the operands alone, "
  "refusing other types and other backends; shapes, dimensions, axis numbers and names, dangling, non-dangling and trace queries, edge ends and slices of edges describe the node's actual wiring. switch_backend changes backend and tensor type only. Contracted edges and disabled nodes refuse to be used.",
  ["inputs", "programs"],
  "every topology string of up to three parts and five axes, every wiring of up to three nodes, every entry",
  "Tests check one or two hand-made nodes per accessor and one topology.",
  ["network_components.py", "utils.py", "network_operations.py"],
  [("from_topology", "utils.py"), ("Node", "network_components.py"), ("Edge", "network_components.py"), ("switch_backend", "network_operations.py")],
  ["tensornetwork.from_topology", "tensornetwork.Node", "tensornetwork.Edge"])

p("C34", "Symmetric MPS, MPO and DMRG equal their dense counterparts",
  "On the symmetric backend a FiniteMPS and a FiniteDMRG mean the same as on dense tensors: moving or restoring the orthogonality centre keeps the state (up to the returned norm) and leaves isometric tensors around the centre, environments, local expectation values, correlators, transfer operators, "
  "one- and two-site gates with or without truncation, DMRG environments, effective Hamiltonians, local updates, sweeps and energies equal those of the dense tensors; charges of bonds fit, charges of physical and boundary legs stay, and the tensors given are not modified.",
  ["inputs", "programs"],
  "every stored entry, every centre, site and direction, charges of several groups, every vector the eigensolver may return",
  "The MPS and DMRG test suites run dense backends only; the symmetric path is exercised by one example.",
  ["matrixproductstates/finite_mps.py", "matrixproductstates/base_mps.py", "matrixproductstates/dmrg.py", "backends/symmetric", "block_sparse"],
  [("BaseMPS", "matrixproductstates/base_mps.py"), ("FiniteMPS", "matrixproductstates/finite_mps.py"), ("BaseDMRG", "matrixproductstates/dmrg.py"), ("SymmetricBackend", "backends/symmetric/symmetric_backend.py")],
  ["tensornetwork.FiniteMPS", "tensornetwork.FiniteDMRG", "backend='symmetric'"])

p("C35", "Networks of block-sparse nodes mean the same as dense networks",
  "Nodes holding block-sparse tensors can be used like dense nodes: contracting edges, pairs, parallel edges, traces and whole networks in any order, outer products (also with rank-0 pieces), ncon, flattening and splitting edges, reordering axes, splitting nodes, arithmetic, copies and conjugation give the block-sparse "
  "form of what the dense tensors give, with the edges in the requested order, and leave the input tensors alone; charges that do not fit and mixed backends are refused.",
  ["inputs", "programs"],
  "every stored entry, every network of the family, every order of contraction and of output edges, every partition of the legs, charges of several groups",
  "Tests contract one or two symmetric nodes with fixed charges; disconnected pieces and rank-0 tensors were never tried.",
  ["network_components.py", "network_operations.py", "ncon_interface.py", "contractors", "backends/symmetric", "block_sparse"],
  [("contract_between", "network_components.py"), ("outer_product", "network_components.py"), ("ncon", "ncon_interface.py"), ("SymmetricBackend", "backends/symmetric/symmetric_backend.py")],
  ["tensornetwork.Node(..., backend='symmetric')", "tensornetwork.ncon", "tensornetwork.contractors"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
  for r in P:
    f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P))
