NOTE = ("The analysis reads the current source and derives, for generic (arbitrary) tensor entries, the exact contraction every analysed entry point computes; "
        "chain lengths, bond and local dimensions and site positions are enumerated over a finite structural grid (listed in the evidence), entries are unrestricted. "
        "An equality is decided by normal form; where two normal forms differ they are compared at sample values of the atoms. Trusted: the numpy/scipy models in sa/nd.py and sa/models.py.")
I = ["inputs"]
IC = ["inputs", "configurations"]
H = ["histories"]

prop("C01", "Overlaps and norms of finite MPS are the full contraction", 
     "The overlap of two open-boundary matrix-product states equals the contraction of their full state vectors with the receiver as ket and the argument as bra: linear in every entry of the receiver, conjugate-linear in every entry of the argument, with no entry left out. The norm is the self-overlap, the full-vector overlap is the complex conjugate of the overlap, and the overlap with a product state equals the overlap with the corresponding matrix-product state.",
     I, "all tensor entries (complex), all chain lengths, local dimensions and bond-dimension profiles",
     "Tests compare a few random states of equal bond dimension; they cannot rule out a contraction that drops, transposes or conjugates a block only visible for other shapes or entries.",
     [FM], [("overlap", "fMPS.overlap"), ("norm", "fMPS.norm"), ("full contraction", "fMPS.full_overlap"), ("product states", "fMPS.product_state_overlap")])

prop("C02", "Finite-chain expectation values are <psi|O|psi> for every entry point",
     "Every way of asking a finite matrix-product state for the expectation value of an operator (one site, several operators on one site, strings on several sites, one grouped operator on several sites, a uniform product of operators) returns the sandwich of that operator between the bra and the ket of the state, with the operator's row index on the bra and the column index on the ket (its real part; divided by the squared norm where the state is normalised on the way). This holds for non-Hermitian and complex operators, for every site, and whatever bookkeeping about gauge the state carries, provided it is true.",
     IC, "all states, all complex operators, all sites and site sets, all gauge configurations",
     "Tests use real-symmetric Pauli operators or compare one entry point with itself, which cannot see a transposed operator; they sample a few sites and one gauge.",
     [FM], [("single site", "fMPS.E"), ("strings", "fMPS.E_k"), ("several operators", "fMPS.Es"), ("uniform", "fMPS.E_L")])

prop("C03", "Infinite-chain expectation values have the correct operator orientation",
     "The expectation value of an operator in a uniform infinite matrix-product state equals the sandwich of that operator between the left environment, the tensor, its conjugate and the right environment, with the operator's row index on the bra, for every gauge choice (left, right, mixed, general) and for lists of operators. Without a stated gauge the environments are the leading left and right eigenvectors of the transfer matrix; after canonicalisation the expectation values and the two-site energy are those of the state before it (bond dimension at least two).",
     IC, "all tensors and environments, all complex operators, every gauge option",
     "Tests evaluate real symmetric operators or Hermitian averages of a few random states, for which the transposed operator gives the same real value.",
     [IM], [("one operator", "iMPS.E"), ("several operators", "iMPS.Es"), ("Vidal form", "ivMPS.E")])

prop("C04", "Reduced density matrices and partial traces trace out the right factors",
     "The reduced density matrix of a finite state over a list of sites equals the partial trace of its normalised projector (ket times conjugated bra) over exactly the other sites, rows and columns in the requested site order; for product states it is given as one matrix per site. The transition density matrix of two product states is the partial trace of the first times the conjugate of the second. The stand-alone partial-trace functions give, for every non-empty set of kept factors and all unequal factor dimensions, the matrix obtained by summing over the discarded factors, the kept ones in the order of the spaces. The local overlap of two states is the trace of the product of their reduced density matrices.",
     I, "all states and matrices, all kept subsets, all dimension lists",
     "Tests check symmetric or equal-dimension cases on sampled states; a swapped factor pair of equal dimension or a conjugated result on a real state passes.",
     [FM, TE, SP], [("reduced density", "fMPS.rho"), ("transition density", "fMPS.rho_proj"), ("matrix partial trace", "tensor.partial_trace"), ("vector partial trace", "tensor.ρA"), ("spin partial trace", "spin.partial_trace")])

prop("C05", "Changing gauge without truncation does not change the physical state",
     "Bringing a finite matrix-product state into left, right or mixed canonical or orthogonal form, at any centre and without a bond limit, and aligning its gauge to another state, leaves the full state vector the same up to normalisation and a global phase. Rebuilding a state from a full vector and recombining it gives the vector back.",
     I, "all tensor entries, lengths, bond profiles, centre positions",
     "Tests check a handful of random full-rank states at one length; a wrong factor absorbed at one position or a wrong reshape order for some length is not visible there.",
     [FM, TE], [("right canonical", "fMPS.right_canonicalise"), ("left canonical", "fMPS.left_canonicalise"), ("mixed", "fMPS.mixed_canonicalise"), ("orthogonal", "fMPS.right_orthogonalise, left_orthogonalise, mixed_orthogonalise"), ("from vector", "fMPS.left_from_state, right_from_state"), ("alignment", "fMPS.match_gauge_to")])

prop("C06", "Canonical forms are isometric and their gauge flags tell the truth",
     "After a canonicalisation, orthogonalisation or construction from a vector, every tensor left of the recorded orthogonality centre is a left isometry and every tensor right of it a right isometry, and the flags stating that the state is in such a form are set only when this holds. Operations that replace tensors by others do not leave flags behind that promise a form the state no longer has.",
     ["inputs", "histories"], "all states and all sequences of gauge-changing and state-changing operations",
     "Tests check isometry right after one canonicalisation of sampled states, never the flags after a sequence of operations.",
     [FM, TE], [("flags", "fMPS.canonical, fMPS.orthogonal, fMPS.oc"), ("canonicalise", "fMPS.left_canonicalise, right_canonicalise, mixed_canonicalise"), ("orthogonalise", "fMPS.*_orthogonalise")])

prop("C07", "Truncation keeps the leading singular triples and respects the bond limit",
     "Truncating to a bond limit keeps exactly the leading singular values together with their matching left and right vectors, never more than the limit, and returns factors whose shared dimension agrees. This holds for the matrix-level truncations, for two-site splits and for truncating canonicalisation of a whole chain.",
     IC, "all matrices and states, all bond limits including limits above, at and below the rank",
     "Tests use a few limits on sampled matrices; an off-by-one in one of the three slices appears only for particular combinations of limit and shape.",
     [TE, FM, PE], [("row/column truncation", "tensor.truncate_A, tensor.truncate_B, tensor.tr_svd"), ("two-site split", "fMPS.separate_tensor_svd"), ("chains", "fMPS.left_canonicalise(D), fMPS.right_canonicalise(D)")])

prop("C08", "Serialisation and storage round-trip",
     "Serialising a state to a flat vector and deserialising it, in complex or real form, or storing it to a file and loading it again, reproduces every tensor entry and the structural attributes (length, period, local and bond dimension). Writer and reader agree for every chain length, bond profile and local dimension.",
     I, "all states, both number representations, both file layouts",
     "Tests round-trip a few standard shapes; a layout that happens to agree for those is not distinguishable from a correct one.",
     [FM, IM], [("vectors", "fMPS.serialize, fMPS.deserialize, iMPS.serialize, iMPS.deserialize"), ("files", "fMPS.store, fMPS.load, iMPS.store, iMPS.load")])

prop("C09", "Computing a quantity never modifies its operands; copies are independent",
     "Calling a method that returns a new quantity or a new state (overlaps, expectation values, densities, derivatives, sums, products, truncations, operator conversions) leaves all arguments unchanged and its receiver as well: same tensors, same lists and dictionaries, same physical state. (Documented exceptions: expectation values and densities of a finite state may change its gauge, and the operations documented as in place change their receiver.) Changing a copy's tensors by site assignment or by any in-place gauge operation leaves the original unchanged and vice versa.",
     ["inputs", "histories"], "all inputs, all later uses of the operands",
     "Tests look at return values; a silently modified argument shows only when the caller uses the operand afterwards.",
     [FM, FT, IM, TE, SP, HA, PE], [("state methods", "fMPS, fTFD, iMPS, ivMPS, fPEPS, fMPO methods"), ("Hamiltonian tables", "Hamiltonians.Hamiltonian"), ("helpers", "tensor.*, spin.*")])

prop("C11", "Network contraction is independent of the chosen order and follows its labels",
     "Contracting a labelled list of tensors sums over every positive label exactly once, arranges the open legs in the order of the negative labels (or the requested final order), and gives the same value for every contraction order, including traces, disconnected parts, outer products and scalars. Label lists that are inconsistent with the tensors are rejected when checking is enabled.",
     ["inputs", "configurations"], "all tensors, all label assignments of the shapes listed, all contraction orders",
     "Tests exercise no contraction order explicitly; the surrounding code always uses the default order and disables the label check.",
     [NC, FM], [("contraction", "ncon.ncon"), ("label checks", "ncon.do_check_indices")])

prop("C12", "Caching never changes the value of a second-order tensor",
     "The second-derivative and Christoffel tensors of a state for a pair or triple of sites depend only on the state, the Hamiltonian and those sites: computing them after any other ones, in any order, with or without a shared cache identifier, gives the value a fresh computation gives. Cached intermediate results are never shared between different site tuples.",
     H, "all orders of requests, all chain lengths, all site tuples",
     "Tests request a few pairs on short chains, where no two cached keys coincide.",
     [FM], [("second derivatives", "fMPS.F1, fMPS.F2"), ("connection", "fMPS.christoffel"), ("Jacobian", "fMPS.jac")])

prop("C13", "The time-derivative tensors are the projected Hamiltonian action",
     "For a state in left-canonical form the time-derivative tensors returned for a Hamiltonian are linear in the Hamiltonian (with factor -i), satisfy the left gauge condition at every site, and equal the projection of the Hamiltonian action on the tangent space; the same holds, with both environments kept in full, for a state in any other gauge (mixed canonical, normalised or not, or as an integrator reaches between canonicalisations), whose null projectors and tangent coordinates are those of the metric of the environments; giving the Hamiltonian as nearest-neighbour terms or as one full matrix yields the same derivative.",
     I, "all states in any gauge, all Hamiltonian matrices, all sites",
     "Tests integrate a few steps of one model and compare with exact evolution within a tolerance; a missing or double-counted term at a boundary bond may hide within it.",
     [FM], [("derivative", "fMPS.dA_dt"), ("projector", "fMPS.left_null_projector"), ("tangent vectors", "fMPS.extract_tangent_vector, fMPS.import_tangent_vector")])

prop("C14", "Integrator steps are the exact Euler and Runge-Kutta 4 schemes",
     "One Euler step adds dt times the derivative at the current state, and one fourth-order step combines the four stage derivatives with the classical Runge-Kutta coefficients and stage points, for finite and infinite chains alike and for any derivative function. A step never changes the state it was given, and a supplied Hamiltonian overrides the stored one.",
     I, "all states, all derivative functions, all (symbolic) step sizes",
     "Tests check trajectories numerically at one step size with tolerances too coarse to see a wrong stage coefficient.",
     [FT, IT], [("finite", "fTDVP.Trajectory.euler, fTDVP.Trajectory.rk4"), ("infinite", "iTDVP.Trajectory.euler, iTDVP.Trajectory.rk4")])

prop("C15", "Trajectory histories stay aligned with times and bond dimensions",
     "After any sequence of integrations, expansions, clears, copies, saves and restarts, the recorded history of a trajectory contains one entry per recorded time step, each decodable with the bond dimension recorded for it, and decoding yields the states in the order they were visited. Observables computed from the history have one row per recorded state. The library integrator is handed one autonomous equation: at every call the derivative of the state its vector encodes, from the current state, over the times asked for.",
     H, "all sequences of trajectory operations",
     "Tests run a single integration per trajectory object and look at the end point or one observable.",
     [FT, IT], [("history", "fTDVP.Trajectory.mps_history, Ds"), ("integrations", "eulerint, rk4int, invfreeint, edint, odeint"), ("decoding", "mps_list, mps_evs, deserialize, clear, save")])

prop("C16", "Hamiltonian terms become matrices with each coefficient counted once",
     "A Hamiltonian given as Pauli-string coefficients and turned into nearest-neighbour matrices, a full matrix or a matrix-product operator represents, for every chain length, exactly the sum of its terms over all positions, each with its coefficient and each counted once. All the representations of one Hamiltonian agree with each other.",
     IC, "all coefficient dictionaries, all chain lengths",
     "Tests use a few fixed models at a few lengths; a field double counted or halved at a boundary for another length passes.",
     [HA], [("dense", "Hamiltonian.to_matrix, Hamiltonian.to_full"), ("bonds", "Hamiltonian.to_matrices"), ("mpo", "Hamiltonian.to_mpo")])

prop("C17", "Built-in operators satisfy their defining algebra",
     "The spin and ladder operators of every spin satisfy the angular momentum algebra and the right Casimir value; embedding in a many-body space puts the operator on the requested factor and the identity on all others; the gate constructors and generator tables are unitary, Hermitian or traceless and mutually orthogonal as their names say, and the Levi-Civita tensor is the signature of its index permutation. Group elements are the exponentials of their generators, and expanding in generators inverts summing them.",
     IC, "all spins up to 9/2 and all positions and numbers of bodies in the grid",
     "Tests check commutation relations for a few spins and one embedding; gates and generator tables are not covered.",
     [SP], [("spins", "spin.spins, spin.ladders, spin.paulis"), ("embedding", "spin.N_body_spins, spin.n_body"), ("tables", "spin.lambdas, spin.slambdas, spin.swap, spin.CNOT, spin.CZ, spin.levi_civita")])

prop("C18", "Operator index bookkeeping splits and joins tensor factors consistently",
     "The element functions, splitting functions and basis iterators for products of local spaces use one factor ordering: splitting a two- or three-site operator into products of local operators and multiplying back out reproduces the operator, for every local dimension.",
     IC, "all operators, all local dimensions",
     "Tests exercise the two-dimensional case, where a literal two and the local dimension cannot be told apart.",
     [TE], [("splitting", "tensor.split_up, tensor.split_up_3"), ("elements", "tensor.loc, tensor.loc_3, tensor.p"), ("basis", "tensor.basis_iterator, tensor.single_basis_iterator")])

prop("C19", "Lattice transformations of PEPS and MPOs are consistent symmetries",
     "Transposing, reversing rows or reversing columns of a two-dimensional tensor network permutes the lattice and the legs of every tensor together: the transformed network describes the same state with its sites relabelled, applying the same transformation twice gives the original back, and the recorded lattice size and orthogonality centre move along. The leg flips of matrix-product operators are likewise involutions that transpose or reverse the operator.",
     IC, "all networks, rectangular lattices, all orthogonality centres",
     "Tests transpose square random lattices; a leg permutation that is wrong only for rectangular lattices or distinct bond dimensions is invisible.",
     [PE], [("PEPS", "fPEPS.T, fPEPS.R, fPEPS.U"), ("MPO", "fMPO.transpose_ud, fMPO.transpose_lr, fMPO.rotate_90, fMPO.unrotate_90, fMPO.reverse")])

prop("C20", "PEPS contractions equal the contraction of the full network",
     "Norms, overlaps, expectation values, density matrices, environments, sums and operator application on a two-dimensional tensor network equal the corresponding contraction of the complete state vector it encodes, for rectangular lattices and unequal bond dimensions.",
     IC, "all tensors, rectangular lattices within the grid, all sites",
     "Tests use small square lattices with random tensors and compare quantities computed through the same code.",
     [PE], [("overlap", "fPEPS.overlap, fPEPS.norm"), ("expectation", "fPEPS.E, fPEPS.E_k"), ("state", "fPEPS.recombine, fPEPS.add, fPEPS.apply, fPEPS.from_mps")])

prop("C21", "Grouping and ungrouping tensor legs are inverse",
     "Grouping legs of a tensor into composite legs and ungrouping again with the returned description gives back the original tensor with its legs in the original order, for every partition and order of legs; grouping itself only reorders and merges legs.",
     I, "all tensors and all leg partitions up to five legs",
     "Not covered by the existing tests.",
     [PT], [("pipes", "peps_tools.group_legs, peps_tools.ungroup_legs, peps_tools.inverse_transpose")])

prop("C22", "Every name used by a library function is defined when it is used",
     "No library function can fail because it refers to a name that is defined neither locally on every path to the use, nor in an enclosing scope, nor in its module, nor because it calls a method or reads an attribute that no class in the library (or the array and container types) provides, nor because it calls a library function, constructor or own method with arguments that its signature does not accept.",
     ["programs"], "all functions of the library and all paths through them",
     "A path that no test takes fails with a name error only when a user takes it.",
     [FM, FT, IM, IT, TE, NC, SP, HA, PE, PT, SV, EX], [("all modules", "xmps/*.py")],
     technique="static analysis: scope resolution, definite-assignment dataflow and attribute-provision lint over the syntax tree",
     note="Sound scope resolution per module (star imports resolved); definite assignment by forward dataflow over each function's control flow; attribute provision by name over all classes of the library and the modelled array type.")

prop("C23", "Robust decompositions fall back to the stable driver and never lose errors",
     "The robust singular value decomposition returns the factors of the matrix it was given: it tries the fast driver first, falls back to the slower driver on the caller's original matrix when the fast one does not converge, passes the caller's options on to both, leaves the caller's matrix alone unless told that it may be overwritten, runs only the slow driver when that is asked for, rejects unknown drivers, warns of a failure exactly when asked to, and raises an error when no driver succeeds.",
     ["fault_sequences"], "all failures of the fast driver, all option combinations",
     "Tests never make the fast driver fail.",
     [SV], [("fallback", "svd_robust.svd")])

prop("C24", "State arithmetic is the arithmetic of state vectors",
     "Adding two finite matrix-product states and multiplying one by a scalar act on the full state vector as vector addition and scalar multiplication; appending and extending concatenate the tensors; the item-wise operators act on every tensor entry of every site. The doubled (thermofield) states obey the same rules.",
     I, "all states, all scalars, unequal bond dimensions, all lengths",
     "Tests check addition for one pair of random states.",
     [FM], [("sum", "fMPS.add, fTFD.add"), ("scalar", "fMPS.mul"), ("item-wise", "fMPS.__add__, __sub__, __mul__, __truediv__")])

prop("C25", "Applying a gate multiplies the state vector by that gate",
     "Applying a one-site operator or a two-site operator (nearest neighbour or distant) to a matrix-product state produces, when nothing is truncated, the state vector multiplied by that operator on the named sites in the named order; post-selecting a site projects it on the chosen basis state and removes it. Regrouping and splitting tensors preserve the state.",
     I, "all states, all operators, all site pairs in both orders, all split options",
     "Tests apply symmetric gates to neighbouring sites of short chains.",
     [FM], [("one site", "fMPS.apply"), ("two sites", "fMPS.apply_two_site"), ("projection", "fMPS.post_select"), ("grouping", "group_tensors, separate_tensor_svd, separate_tensor_qr, separate_tensor_rq")])

prop("C26", "Doubled states keep their class and pairing under every operation",
     "A thermofield-double state built from a matrix-product state represents the tensor pair of that state, its expectation values act on the requested half with the right orientation, and its arithmetic returns thermofield-double states.",
     I, "all states and operators, both halves",
     "Tests cover one construction and symmetric operators.",
     [FM], [("doubled state", "fTFD.from_fMPS, fTFD.E, fTFD.Es, fTFD.add, fTFD.symmetry, fTFD.symmetrise")])

prop("C27", "Transfer maps agree in matrix, forward and adjoint form",
     "The transfer map of one or two uniform tensors acts the same whether applied as a function or as the explicit matrix, its reported adjoint is the adjoint of that matrix, and environments, null-space projectors and fixed-point normalisations built from it refer to the same map.",
     I, "all tensors (pairs of different tensors included), all vectors",
     "Tests compare on random Hermitian matrices or through converged fixed points.",
     [IM, TE], [("two tensors", "iMPS.Map"), ("one tensor", "iMPS.TransferMatrix"), ("transfer products", "tensor.ldot, tensor.rdot"), ("partial transfers", "fMPS.left_transfer, fMPS.right_transfer, fMPS.get_envs")])

prop("C28", "Example and product-state constructors produce the documented states",
     "The constructors for product, Bell, computational-basis and other example states, the conversion between the two finite forms and the random constructors give states with the documented amplitudes and with tensors whose neighbouring bond dimensions match and never exceed the requested limit, for every length and local dimension.",
     IC, "all lengths, local dimensions, bond limits and labels in the grid",
     "Tests check orthogonality or norms of short examples.",
     [EX, FM, IM, PE], [("examples", "mps_examples.bell, comp_z, comp_x, i_comp_z"), ("products", "fMPS.from_product_state, fMPS.from_product_states"), ("shapes", "fMPS.create_structure, fMPS.random, iMPS.random, fPEPS.create_structure, fMPO.create_structure"), ("forms", "vfMPS.from_fMPS, vfMPS.to_fMPS")])

prop("C29", "Matrix-product operators multiply and act as the operators they encode",
     "The product of two matrix-product operators encodes the product of the encoded operators, the operator built from a matrix-product state or Hamiltonian encodes it, the trivial operator is the identity, and recombining gives the encoded operator for unequal bond dimensions.",
     I, "all tensors, lengths and bond dimensions in the grid",
     "Tests compare the norm of one product.",
     [PE, HA], [("product", "fMPO.__mul__"), ("encoding", "fMPO.recombine, fMPO.trivial, fMPO.from_mps")])

prop("C30", "Energies, environments and matrix helpers compute what their names say",
     "The energy of a state is the expectation value of the Hamiltonian whether it is given as bond terms or as a full matrix, environments contain the partial contractions of the state, and Hamiltonian and state helpers (null spaces, embeddings, unitary extensions) return matrices with their defining relation to the input.",
     I, "all states, all Hamiltonians",
     "Tests compare the two forms of the energy for one model.",
     [FM, TE], [("energy", "fMPS.energy"), ("environments", "fMPS.get_envs"), ("helpers", "tensor.get_null_space, tensor.embed, tensor.deembed, tensor.unitary_extension, tensor.direct_sum")])

prop("C31", "Canonical forms of infinite states are the same state in the promised gauge",
     "Bringing a uniform infinite state into left, right, mixed or Vidal form yields tensors that are exactly isometric on the named side up to the leading eigenvalue of the transfer map, whose recorded Schmidt matrix is the square root of the remaining environment, and that describe the same physical state: the transfer map of the result is similar to the normalised transfer map of the input. The gauge asked for is recognised by value.",
     IC, "all injective tensors of bond dimension at least two (the fixed-point solver returning an eigenvector), all forms",
     "Tests check the isometry of sampled random tensors with one spelling of the gauge name and never that the state is the same one.",
     [IM], [("forms", "iMPS.left_canonicalise, iMPS.right_canonicalise, iMPS.canonicalise, iMPS.mixed, iMPS.vidal"), ("normalisation", "iMPS.normalise, iMPS.eigs")])

prop("C32", "Second-order tensors are the projected second derivatives of the state",
     "For a left-canonical state, the tensor for a pair of sites is the Hamiltonian sandwiched between the tangent vectors of those two sites (first kind), or between the second derivative of the state with respect to both sites and the state (second kind), expressed in the null-space coordinates; swapping the two sites gives the conjugate transpose of the first kind and the transpose of the second kind; the connection tensor is the overlap of second and first derivatives.",
     I, "all states in the required form, all complex Hermitian nearest-neighbour Hamiltonians, all pairs of sites",
     "Tests check gauge conditions of these tensors and compare two implementations sharing the same conventions, never their value.",
     [FM], [("first kind", "fMPS.F1"), ("second kind", "fMPS.F2"), ("connection", "fMPS.christoffel")])

prop("C33", "Enlarging the bond dimension keeps the state and follows the evolution",
     "Enlarging a finite state by zeros to a bond limit gives the same physical state on the standard structure for that limit, which the recorded bond dimension describes. Enlarging a state in canonical form along the evolution keeps the state at vanishing time step; to first order in the step its part inside the tangent space, and where the limit admits all missing directions the whole change, is that of the evolution with the Hamiltonian (up to a multiple of the state); the bond dimensions never exceed the limit and no gauge flags are left set. The projection error is the squared norm of that missing component times the squared time step.",
     IC, "all states, Hamiltonians (nearest-neighbour terms) and time steps, structural grid of lengths and limits",
     "Tests expand sampled states and compare norms or overlaps at one length; a transposed Hamiltonian or projector in the added directions does not show there.",
     [FM, FT], [("zeros", "fMPS.expand"), ("evolution", "fMPS.dynamical_expand, fMPS.grow"), ("error", "fMPS.projection_error, fMPS.should_expand")])

prop("C34", "Entanglement entropies are those of the Schmidt weights across the bond",
     "The entanglement entropy of a finite state at a site is minus the sum of p log p over its squared Schmidt coefficients across the bond left of the site, whatever gauge the state is in; weights that vanish contribute nothing. The von Neumann and Renyi entropies of a trajectory are, for every recorded state (from integration or exact evolution, whatever the bond dimensions along the chain and the history), the largest entropy over its bonds.",
     ["inputs", "histories"], "all states, weights including exact zeros, all bonds, all recorded histories in the grid",
     "Tests never compare an entropy with an independent value.",
     [FM, FT], [("state", "fMPS.entanglement_entropy"), ("trajectory", "Trajectory.schmidts, Trajectory.von_neumann, Trajectory.renyi")])

prop("C35", "Tangent vectors of infinite states are the projected energy gradient",
     "For a uniform infinite state with complex tensors in any gauge: the fixed points handed out are the leading left and right eigenvectors of its transfer map with matching bra and ket legs, paired to one; the null projectors are the projectors on the directions orthogonal to the tensor in the metric of the left (right) environment; the environment equations solved for the left and right half chains are those of the energy density with the divergent part projected out; the tangent vector returned by dA_dt is minus i times the gradient of the energy projected on the tangent space, in the left tangent gauge; and the energy of a normalised state is the two-site expectation value of the Hamiltonian term.",
     I, "all injective tensors of bond dimension at least two, all complex Hermitian two-site terms (bounded shapes)",
     "Tests check that residuals vanish, which any wrong equation satisfies at its own solution; transposed environments are invisible for the real symmetric models and diagonal environments they use.",
     [IM], [("projectors", "iMPS.left_null_projector, iMPS.right_null_projector"), ("half chains", "iMPS.Lh, iMPS.Rh"), ("tangent vector", "iMPS.dA_dt"), ("energy", "iMPS.energy, iMPS.eigs")])

prop("C36", "Networks behave as sequences with exact comparison",
     "A network compares equal to another exactly when both hold the same number of tensors (rows and columns in two dimensions) of the same shapes with equal entries, and, where centres are recorded, the same centre; != is the negation. Indexing, negative indexing, one-based calls, iteration and length follow the list of tensors; assignment replaces one tensor, leaves the others and drops gauge flags; a copy equals the original, has its class and sizes, and assigning to it leaves the original alone; the structure lists the bond dimensions.",
     IC, "all tensors on a grid of lengths and shapes including prefixes of one another and broadcastable shapes",
     "Tests compare states with themselves after a round trip and never with a shorter or broadcastable one.",
     [FM, IM, PE], [("comparison", "fMPS.__eq__, iMPS.__eq__, fPEPS.__eq__"), ("indexing", "fMPS.__getitem__, fMPS.__call__, fMPS.__setitem__"), ("copies", "fMPS.copy, iMPS.copy, fPEPS.copy")])

prop("C37", "Moving the orthogonality centre of a PEPS preserves the state",
     "Moving the orthogonality centre of a two-dimensional network one column or row (or along any path) without truncation gives a network with the same lattice, the same state, the new centre recorded and the network it was applied to unchanged, for every unitary the disentangling step may come up with; the tensors left behind are isometries towards the new centre and the other columns (rows) stay; splitting a tensor into three is exact; expectation values of an isometric network read at the moved centre are those of the full state, one or several at a time; a network without centre or a move off the lattice is an error. The disentangler itself always stops, whatever the entropies it sees, and returns a unitary and the Renyi-2 entropy belonging to it.",
     IC, "all tensors on small lattices, all unitaries",
     "The existing test of the moves is switched off at the pinned commit; a sampled run sees one disentangler and square lattices of equal bonds, where transposed legs fit.",
     [PE, "xmps/peps_tools.py"], [("moves", "fPEPS.moses_move_right, fPEPS.moses_move_oc_to"), ("splitting", "split_tensor, unsplit_tensor"), ("values", "fPEPS.iso_E, fPEPS.iso_Es"), ("disentangler", "peps_tools.renyi_2_disentangler")])

NAT = "Truth depends on rounding, iteration counts or spectra of runtime matrices; no static argument in reach bounds them, and a sampled run would not be static analysis."
prop("N01", "Time evolution conserves energy and norm within the integrator's order", "Evolving a state with an integrator changes its norm and its energy by no more than the integrator's order in the step size predicts.", I, "all states, Hamiltonians, step sizes and times", "Tests sample one model and step size.", [FT], [("integrators", "fTDVP.Trajectory")], claimed=False, na=NAT)
prop("N02", "Ground-state search lowers the energy and converges", "The ground-state search for infinite chains never increases the energy and stops at the requested tolerance.", I, "all Hamiltonians and starting states", "Tests run one model.", ["xmps/iOptimize.py"], [("search", "find_ground_state")], claimed=False, na=NAT)
prop("N03", "Lyapunov spectra are symplectically paired", "The Lyapunov exponents computed for a Hamiltonian flow come in pairs of opposite sign.", I, "all trajectories", "Tests compare one short run.", [FT], [("spectrum", "fTDVP.Trajectory.lyapunov")], claimed=False, na=NAT)
prop("N04", "Canonicalisation of infinite states converges to the fixed point", "The iterative canonicalisation of a uniform infinite state terminates with isometric tensors and a unit leading eigenvalue to the requested accuracy.", I, "all injective tensors", "Tests check sampled random tensors.", [IM], [("fixed points", "iMPS.canonicalise, iMPS.mixed")], claimed=False, na=NAT)
prop("N05", "Truncation error equals the discarded weight", "The distance between a state and its truncation is the square root of the discarded squared singular values, up to rounding.", I, "all states", "Tests use tolerance checks on random states.", [FM], [("truncation", "fMPS.left_canonicalise")], claimed=False, na=NAT)
