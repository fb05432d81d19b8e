"""Writes /verif/properties.jsonl (the human-edited source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

M, G, HG, SF, LA = ("qsymm/model.py", "qsymm/groups.py", "qsymm/hamiltonian_generator.py",
                    "qsymm/symmetry_finder.py", "qsymm/linalg.py")
KC, LLL, RMT = "qsymm/kwant_continuum.py", "qsymm/kwant_linalg_lll.py", "qsymm/kwant_rmt.py"

prop("P01", "Symbolic matrix models obey the algebra of matrix-valued functions",
     "Every expression built from symbolic matrix models with addition, subtraction, negation, scalar, symbol, array and "
     "model multiplication (elementwise and matrix, from either side), division by numbers, conjugation, transposition, "
     "trace, reshape, rounding, copying and conversion between dense and sparse storage denotes the same matrix-valued function of momenta "
     "and parameters as the same expression evaluated on plain numeric matrices at that point. "
     "The declared shape, storage format and momenta of every result agree with the matrices it holds, and operands that cannot be combined "
     "(different shapes, storage or momenta) are rejected instead of giving a wrong result.",
     ["inputs", "histories"],
     "all operation sequences over dense, sparse, scalar and operator-valued models of any size, any momenta, any parameters, any key structure (polynomial, exponential, constant, empty)",
     "test_model runs each operator once on a few random 2-term models; combinations (trace of a product of a symbol-multiplied empty difference, array on the left, scalar models, non-square shapes, mixed formats) are never composed",
     [M], [("per-term dict arithmetic", "Model.__add__, __mul__, __rmul__, __matmul__, __rmatmul__, zeros_like"),
           ("shape/format inference", "model._shape_and_format"), ("key normalization", "model._symbol_normalizer")],
     [("data/shape/format/momenta", "term dictionary and declared metadata", "Model")],
     ["pointwise value of the model", "shape, format, momenta attributes"])

prop("P02", "The lattice (Bloch) representation is interchangeable with the symbolic one",
     "Converting a symbolic model whose momentum dependence is a sum of hopping exponentials to the Bloch form and back, and performing any "
     "arithmetic, conjugation, rotation or substitution on either form, gives the same function of momenta and parameters. "
     "A Bloch term is identified with another exactly when hopping vector (up to rounding) and coefficient coincide, so equal terms are merged and distinct ones never are. "
     "Input that is not of hopping form is rejected.",
     ["inputs", "histories"],
     "all hopping vectors (integer, rational, irrational, float, zero, any dimension 1-3), all coefficient structures (numbers, symbols, powers, extra exponentials), all operation sequences",
     "tests check a handful of hand-written exponents; sums in exponents, negative and repeated hops, coefficient exponentials and cancellation between hops are sampled at one or two points",
     [M], [("key <-> (hop, coeff) conversion", "model._to_bloch_coeff, BlochCoeff.tosympy"),
           ("tolerant hashing/equality of terms", "BlochCoeff.__hash__/__eq__"),
           ("hop rotation", "BlochModel.rotate_momenta")])

prop("P03", "Operations never alter their inputs and never depend on earlier calls",
     "No library call (arithmetic, symmetry application, group generation, symmetry search, family generation or post-processing, lattice reduction, parsing) changes the value or behaviour of any object passed "
     "to it, and a copy shares no mutable state with its original. "
     "The result of every call (as a function, a set or, where a basis of terms is returned, the space it spans) depends only on its arguments, not on which calls (including failing ones) were made before it, on set or dictionary iteration order, or on cached intermediate results.",
     ["histories", "inputs"],
     "all sequences of public calls, successful or failing, on shared argument objects",
     "each test builds fresh arguments, uses them once and never looks at them again; interleavings of calls that share models, candidate sets, hopping lists or caches are not exercised",
     [M, G, HG, SF, KC, LA],
     [("value copies in every model operation", "Model.copy, zeros_like"), ("memoized group operations", "groups._mul/_inv/_eq/_make_int (lru_cache)"),
      ("temporary change of sympy's global list converter", "kwant_continuum.sympify"), ("copying of candidates/hoppings/symmetries", "discrete_symmetries, bloch_family, continuum_pairing")],
     [("lru caches, sympy converter table", "process-wide state shared by all calls", "groups.py, model.py, kwant_continuum.py")])

prop("P04", "Substitution has pointwise meaning and keeps momentum bookkeeping right",
     "Substituting numbers, symbols or expressions for momenta or parameters in a model (as a pair, list or dictionary, given by symbol or by name) yields the model whose value at every remaining point equals the original "
     "value at the substituted point. Renamed momenta take the place of the old ones, momenta replaced by momentum-independent values are removed, all others stay, and the same holds for lattice models.",
     ["inputs", "histories"],
     "all substitutions (simultaneous or successive, numeric, symbolic, momentum renaming, elimination of any subset of momenta) on polynomial, exponential and mixed models",
     "test_Model_subs checks one model with a few substitutions; swaps, name keys, lone exponentials, partially numeric exponents and repeated substitutions are not covered",
     [M], [("momentum bookkeeping", "Model.subs"), ("numerical exponent evaluation", "Model.subs"), ("conversion round trip", "BlochModel.subs")])

prop("P05", "Parsing and export preserve the meaning of a Hamiltonian",
     "A Hamiltonian given as text, symbolic expression or nested list (with user definitions, Pauli matrices, Kronecker products, trigonometric and exponential functions) is read as exactly the function it "
     "denotes, and exporting a model as a symbolic expression or as a callable gives back the same function with every free symbol as a named argument. "
     "Splitting an expression into monomials loses nothing: the sum of monomial times coefficient is the original expression and no coefficient contains a generator; positions and momenta do not commute until explicitly made commutative.",
     ["inputs"],
     "all expressions of the grammar (sums, products, powers, functions, matrices, tensor products, user definitions) up to any depth, and all models",
     "the package has no parser tests of its own and only a few literal Hamiltonians are parsed in the suite",
     [KC, M], [("text to sympy", "kwant_continuum.sympify"), ("monomial decomposition", "kwant_continuum.monomials, make_commutative"),
               ("trigonometric rewriting", "model.substitute_exponents"), ("export", "Model.tosympy, Model.lambdify")])

prop("P06", "Truncation keeps exactly the requested terms",
     "A model created with a list of retained terms holds exactly those terms of its input, and every product or sum of such models equals the untruncated result with all other terms discarded. "
     "Truncation holds regardless of how the terms are written, how the input is given (dictionary, text, expression) and how many operations follow.",
     ["inputs", "histories"],
     "all retained sets, all inputs and all operation sequences on truncated models",
     "the suite checks keep in one multiplication of two dictionary models; construction from text, lattice models and chains of operations are not covered",
     [M], [("filter on construction and in products", "Model.__init__, __mul__, __matmul__, __rmul__")])

prop("P07", "Comparison, rounding and removal of small terms respect the function's value",
     "Two models compare equal exactly when they agree as functions within tolerance, regardless of which terms are stored explicitly as zeros, of storage format details or term order; comparison is symmetric and zero equals an empty model. "
     "Dropping small terms removes exactly the terms whose Frobenius norm is below the stated tolerance, for dense and sparse storage alike, and rounding changes no entry by more than half a unit of the last kept digit.",
     ["inputs"],
     "all pairs of models over a set of terms and coefficient magnitudes from exactly zero through just below and above tolerance to order one, dense and sparse",
     "tests only compare models expected to be equal; near-tolerance coefficients, missing keys, nilpotent and sparse matrices are not explored",
     [M, LA], [("tolerant comparison", "Model.allclose/__eq__, linalg.allclose"), ("small-term removal", "Model.eliminate_zeros, Model.around")])

prop("P08", "Symmetry operations form a group and act on models by the documented rule",
     "Multiplication of symmetry operations is associative with identity, inverse and integer powers, including the antiunitary composition of the Hilbert-space parts and the addition of conjugation and sign flags. "
     "Applying an operation to a model gives plus or minus U H(R^-1 k) U^dagger, with complex conjugation and reversed momenta if antiunitary, at every momentum, and applying a product equals applying its factors in turn; this holds alike for symbolic and lattice models and for integer, exact and floating-point rotations.",
     ["inputs", "histories"],
     "all operations of any point group in 1-3 dimensions times the four conjugation/sign classes, any unitary part, any model, any product of operations",
     "tests only use the action indirectly with a few generators; inverses and products of antiunitary operations with complex U, and non-orthogonal lattice-coordinate rotations are not checked against the formula",
     [G, M], [("composition and inverse", "PointGroupElement.__mul__/inv/__pow__"), ("action", "PointGroupElement.apply"), ("momentum rotation", "Model.rotate_momenta, BlochModel.rotate_momenta")],
     [("multiplication caches", "memoized rotation products/inverses", "groups._mul, _inv")])

prop("P09", "Identity, hashing and ordering of symmetry operations are consistent",
     "Two operations are equal exactly when rotation (up to rounding), conjugation and sign agree and, under strict comparison, the Hilbert-space parts agree up to a phase; equal operations of one kind of arithmetic hash alike and behave as one element in sets. "
     "Integer rotations are recognised however they are supplied (list of array types, exact or floating), and the ordering is a strict total order on distinct operations that puts unitary ones and the identity first, so sorted results are reproducible.",
     ["inputs"],
     "all pairs and triples of operations of the crystallographic groups in integer, exact and floating-point form with all flags and unitary parts",
     "tests never compare operations across representations nor check the order or hash laws",
     [G], [("equality", "PointGroupElement.__eq__, groups._eq, _make_int"), ("hash", "PointGroupElement.__hash__"), ("ordering", "PointGroupElement.__lt__")])

prop("P10", "Group generation yields exactly the generated group and all its subgroups",
     "The group generated from any generating set is closed under products and inverses, contains the generators and nothing outside the generated group, and does not depend on generator order or redundancy; strict generation additionally distinguishes Hilbert-space parts up to phase. "
     "Subgroup enumeration returns every subgroup exactly once, each with elements that generate it, and the predefined square, cubic and hexagonal groups are the full groups of their documented order with and without time reversal and particle-hole symmetry.",
     ["inputs"],
     "all generating subsets of the finite point groups (with conjugation/sign flags) and all finite groups among them",
     "tests generate a few full groups and check sizes of none of the subgroup lattices",
     [G], [("closure iteration", "groups.generate_group"), ("subgroup extension by cyclic groups", "groups.generate_subgroups"), ("predefined groups", "groups.square/cubic/hexagonal")])

prop("P11", "Elementary operations and spin representations match geometry",
     "Rotations, mirrors, inversion, time reversal, particle-hole and chiral operations have the documented real-space action, flags and square, and with a spin given the Hilbert-space part is exp(-i n.s), so it rotates the spin vector with the (proper part of the) same rotation; time reversal flips it. "
     "Angular-momentum matrices of every spin and of real orbitals are Hermitian with the right commutators, Casimir and dimension, and the predefined point groups with spin are consistent projective representations whichever form of rotation is chosen.",
     ["inputs"],
     "all angles that are rational fractions of a turn, all axes on a grid, all spins up to any value, user-supplied spin matrices, all predefined groups",
     "only a few spin-1/2 and spin-0 examples appear in tests; consistency between real-space and spin rotation is not tested for predefined groups",
     [G], [("factories", "groups.rotation, mirror, inversion, time_reversal, particle_hole, chiral, identity"), ("spin algebra", "groups.spin_matrices, spin_rotation, L_matrices"), ("predefined groups", "groups.square/cubic/hexagonal")])

prop("P12", "Printed names of symmetries describe the operation they belong to",
     "The short name, the full description and the LaTeX form of every symmetry operation and continuous generator can be produced without error, and the angle, axis, mirror normal and flags they show reproduce the operation's real-space action and class. "
     "Distinct real-space actions and classes therefore get distinct names.",
     ["inputs"],
     "all elements of all crystallographic point groups in 1-3 dimensions (several orientations), all flag combinations, generators with any combination of rotation and onsite part",
     "printing is not asserted anywhere in the suite",
     [G], [("naming", "groups.pretty_print_pge, pretty_print_cgg, rotation_to_angle, _round_axis, _array_to_latex")])

prop("P13", "Lattice symmetry operators built from site permutations map sites correctly",
     "The operator built from a site permutation carries the orbitals of every site to the orbitals of its image site, transformed by the onsite action of the original site, and is block-structured according to the given orbital numbers. "
     "Composing two such operators composes their permutations, rotations and onsite actions in the same order, and malformed permutations or incompatible orbital numbers are rejected.",
     ["inputs"],
     "all permutations of up to any number of sites with any orbital numbers, onsite actions (common, per-site, default) and flags",
     "no test calls this construction",
     [G], [("block matrix assembly", "groups.symmetry_from_permutation")])

prop("P14", "The discrete symmetry search is sound, complete and reproducible",
     "Every operation returned leaves the Hamiltonian family invariant with a unitary Hilbert-space part, the result is closed under multiplication, and no candidate that is a symmetry of the family for some unitary is missing; the generator form generates the same group. "
     "The result does not depend on the order of candidates or terms, on the basis in which the family is written, on dense or sparse storage or on whether the model is symbolic or lattice type.",
     ["inputs"],
     "all Hamiltonian families (including ones with onsite conserved quantities, degenerate or non-Hermitian terms) and all candidate groups",
     "tests check soundness on random-matrix families with a known symmetry; absence of missed or spurious symmetries over all families and candidate sets cannot be sampled",
     [SF, LA, M], [("block reduction", "_reduce_hamiltonian, separate_lie_algebra, symmetry_adapted_sun"), ("unitary search per block", "_find_unitary, _find_unitary_blocks, _construct_unitary"), ("candidate pruning", "discrete_symmetries")],
     [("symset/not_symmetries", "growing set of established symmetries and non-symmetries", "discrete_symmetries")])

prop("P15", "Conserved quantities and rotation generators found are exactly the true ones",
     "The onsite conserved quantities returned are Hermitian, traceless, linearly independent, commute with every member of the family and together with the identity span all matrices that do. "
     "The continuous rotation generators returned annihilate the family, are independent, and modulo onsite conserved quantities span all real-space rotations (with suitable Hilbert-space action) that do; prettified output spans the same space.",
     ["inputs"],
     "all Hamiltonian families with any block structure, multiplicities and degeneracies, polynomial momentum dependence in 2 and 3 dimensions",
     "tests check a few random-matrix direct sums and one or two k.p models",
     [SF, LA], [("commutant by null space", "linalg.solve_mat_eqn, nullspace"), ("central decomposition", "separate_lie_algebra, simult_diag, symmetry_adapted_sun"), ("generator assembly", "conserved_quantities, continuous_symmetries"), ("sparsification", "linalg.sparse_basis")])

prop("P16", "Generated continuum families are exactly the symmetric Hamiltonians",
     "For any symmetry set (discrete and continuous), dimension and allowed momentum powers, the generated continuum family consists of linearly independent Hermitian terms that satisfy every symmetry and together span all Hermitian polynomial Hamiltonians of the allowed powers that do. "
     "The span does not depend on symmetry order, redundancy, prettification, momentum names or the linear-algebra backend.",
     ["inputs", "configurations"],
     "all symmetry sets, dimensions 0-3, total and per-direction power specifications, matrix sizes and options",
     "tests compare dimension and soundness for a few symmetry sets; completeness against an independent count and the power bookkeeping are not checked",
     [HG, LA], [("constraint null space", "constrain_family, linalg.nullspace, family_to_vectors"), ("monomial enumeration", "continuum_variables, matrix_basis"), ("prettifying", "make_basis_pretty, linalg.rref")])

prop("P17", "Generated pairing families are exactly the symmetric pairing terms",
     "The generated pairing functions are linearly independent, make the Bogoliubov-de Gennes Hamiltonian obey the particle-hole symmetry of the chosen square, transform under every normal-state symmetry with the chosen phases, and span all polynomial pairing functions of the allowed powers that do. "
     "The given symmetries are not changed.",
     ["inputs", "configurations"],
     "all symmetry sets, phases, particle-hole squares, dimensions, powers and matrix sizes",
     "one test with a few configurations checks dimension and equality of some families only",
     [HG], [("Bogoliubov-de Gennes extension and constraint", "continuum_pairing, constrain_family")])

prop("P18", "Generated lattice families are exactly the symmetric tight-binding Hamiltonians",
     "For any hopping list, orbital content and symmetry generators, the generated lattice family consists of linearly independent Hermitian terms that obey every symmetry, and it spans all Hermitian Hamiltonians on the symmetry-completed hoppings (and onsite terms, if requested) that do. "
     "Symmetrizing and constraining give the same family when the hopping list is already complete, and so do symbolic and lattice output, prettified or not; hoppings absent from the symmetry orbit never appear.",
     ["inputs", "configurations"],
     "all hopping sets, site counts, orbital numbers, point groups, conserved quantities and options",
     "tests cover graphene, one square-lattice example and a few consistency checks",
     [HG, G], [("symmetrization or constraint of hopping terms", "bloch_family, symmetrize_monomial, constrain_family, remove_duplicates")])

prop("P19", "Family post-processing preserves exactly the intended linear span",
     "Removing duplicates keeps the span with a linearly independent family, prettifying and rounding keep the span and its dimension, subtracting one family from another leaves a complement within the first family orthogonal to the second and refuses inputs where that is impossible, and vectorizing or combining families with coefficients is the corresponding linear map. "
     "Averaging a term over a group gives its projection onto invariant terms, and the symmetry check accepts exactly the families that are symmetric.",
     ["inputs"],
     "all families of models over a set of terms and small coefficient matrices, including empty, zero, dependent and complex-dependent ones, of symbolic and lattice type",
     "tests check a few random or hand-written families",
     [HG, LA], [("span arithmetic", "remove_duplicates, subtract_family, make_basis_pretty, hamiltonian_from_family, symmetrize_monomial, check_symmetry"), ("vectorization and row reduction", "linalg.family_to_vectors, rref, nullspace")])

prop("P20", "The Bravais point group found is the full point group of the lattice",
     "For every 1-, 2- or 3-dimensional lattice, embedded in any number of dimensions and given by any basis, the group returned consists of exactly the orthogonal maps that carry the lattice to itself (times time reversal and particle-hole if requested). "
     "The generator form generates the same group.",
     ["inputs"],
     "all lattices (all 14 three-dimensional Bravais types and special parameter values inside them), all bases, orientations, scales and embeddings",
     "the test compares group sizes for one representative of each Bravais type",
     [SF, LLL], [("reduction and neighbor classification", "bravais_point_group, equals, bravais_group_2d/3d, check_bravais_symmetry"), ("lattice reduction", "kwant_linalg_lll.lll, voronoi")])

prop("P21", "Lattice reduction and closest-vector search are exact",
     "Basis reduction returns a reduced basis of the same lattice (size-reduced vectors whose orthogonalized lengths shrink at most by the requested factor) together with the integer transformation relating the two. Closest-vector search returns exactly the requested number of nearest lattice points (or all points at the requested number of shortest distances) in order, and the Voronoi vectors returned are exactly the relevant ones in reduced form and always contain them otherwise.",
     ["inputs"],
     "all lattices of dimension 1-3 in ambient dimension up to any number, all target points, counts and grouping options",
     "these routines have no tests of their own in this package",
     [LLL], [("LLL iteration", "lll, gs, is_c_reduced"), ("bounded enumeration", "cvp"), ("Voronoi relevance", "voronoi")])

prop("P22", "Linear-algebra kernels return complete and independent solutions",
     "Null spaces (dense and sparse, with complement), solutions of simultaneous matrix equations, simultaneous eigenspaces, row reduction, matrix bases and proportionality tests return results that satisfy their defining equations, are independent (orthonormal where stated), have the exact dimension of the solution space, and respect the documented tolerance and format. "
     "Row reduction reports the transformation that produces the reduced form.",
     ["inputs"],
     "all matrices over a small integer (and Gaussian-integer) alphabet up to the enumerated size, rank-deficient and rectangular ones included, and all option combinations",
     "tests cover one simultaneous diagonalization and one sparse basis example on random matrices",
     [LA], [("kernels", "linalg.nullspace, solve_mat_eqn, simult_diag, rref, sparse_basis, matrix_basis, prop_to_id, split_list, mtm, allclose, _inv_int")])

prop("P23", "Random-matrix generators obey their symmetry class for every draw",
     "Every Hamiltonian drawn is Hermitian and every scattering matrix unitary, and each satisfies exactly the time-reversal, particle-hole and chiral relations documented for its Altland-Zirnbauer class and, where requested, has the requested topological invariant, whatever numbers the random source returns and for every admissible size. "
     "Inadmissible sizes, classes or invariants are rejected, and equal seeds give equal draws.",
     ["inputs", "configurations"],
     "all ten symmetry classes, all admissible sizes, all topological charges, all outputs of the random source",
     "the package has no test of these generators; the finder tests use them with fixed seeds for a few classes",
     [RMT], [("symmetric assembly of random entries", "kwant_rmt.gaussian, circular, ensure_rng")])

prop("P24", "Continuous symmetry generators act as derivatives of finite symmetries",
     "Applying a continuous generator to a model equals the derivative at zero of applying the finite one-parameter group it generates, so it is linear in the model, obeys the product rule and vanishes exactly when all the finite operations leave the model invariant. "
     "Generators whose real-space part is not Hermitian and antisymmetric, or whose Hilbert-space part is not Hermitian, are rejected.",
     ["inputs"],
     "all generators (rotation only, onsite only, both, neither) in any dimension and all polynomial or exponential models",
     "tests only use generators that already are symmetries of the model",
     [G, M], [("infinitesimal action", "ContinuousGroupGenerator.apply, Model.transform_symbolic"), ("validation", "ContinuousGroupGenerator.__init__")])

prop("P25", "Generating and finding are mutually consistent",
     "The symmetries found for a family generated from a symmetry group contain that group, with Hilbert-space parts that agree up to onsite symmetries of the family, and generating the family again from the symmetries found returns the same span. "
     "Iterating generate and find reaches this fixed point in one step for every group, representation and momentum order, for continuum and lattice families.",
     ["inputs", "histories"],
     "all groups, representations, powers and lattices, any number of generate/find rounds",
     "test_mutual runs random representations of a couple of groups",
     [HG, SF], [("generation", "continuum_hamiltonian, bloch_family"), ("search", "symmetries, discrete_symmetries, continuous_symmetries")])

prop("P26", "Block decomposition is an exact symmetry-adapted basis",
     "The symmetry-adapted decomposition of a Hamiltonian family consists of orthonormal columns that together form a unitary, in which every member of the family is block diagonal with identical blocks within each multiplicity sector and no further conserved quantity inside a block; inequivalent sectors are never merged and equivalent ones never split. "
     "The Lie-algebra splitting into center and semisimple part, structure constants, Killing form and simultaneous diagonalization satisfy their defining relations.",
     ["inputs"],
     "all direct-sum structures (irreducible sizes, multiplicities), bases and orders of the family up to the enumerated total dimension",
     "tests decompose a few random direct sums",
     [SF, LA], [("decomposition", "_reduce_hamiltonian, separate_lie_algebra, symmetry_adapted_sun, struct_const, killing, casimir"), ("diagonalization", "linalg.simult_diag")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
