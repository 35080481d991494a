TRUST = "Trusts the reference model in /verif/harness, g++/clang sanitizers and GMP. "

prop("E01", "Arithmetic on expressions denotes the exact operator",
     "Every expression built from fermion, boson and spin generators with sums, differences, products and scalars denotes exactly the operator that was written down: bringing products to normal order with the (anti)commutation relations never changes the operator. Generators of different algebras, different indices or different spins act on independent degrees of freedom and stay independent.",
     "all expression trees and products of generators, all mixtures of algebras, spins, index sequences and scalar types",
     "The tests multiply a handful of chosen pairs and triples; the rewriting is recursive and its outcome depends on the whole word, on mixtures of spins and algebras and on repeated generators.",
     [EX + "expression.hpp", EX + "generator_fermion.hpp", EX + "generator_boson.hpp", EX + "generator_spin.hpp"],
     [("normalize_and_store / reduce_powers_and_store", EX + "expression.hpp"),
      ("swap_with, simplify_prod, reduce_power", EX + "generator_*.hpp")],
     over=("inputs", "programs"),
     note=TRUST + "Random trees and words are evaluated both by the library and, with no reordering, in an exact rational Fock-like representation; equality of the action is decided exactly.")

prop("E02", "Expressions have one canonical form, so equal operators compare equal",
     "The stored form of an expression is canonical: each monomial is in the documented order with no reducible product left in it, monomials are distinct and sorted by length and then lexicographically, and no coefficient is zero. Hence two expressions that describe the same operator compare equal however they were built, and expressions of different operators compare unequal; for spins above 1/2 this is claimed while the number of raising and lowering operators of a site in a product stays below its multiplicity.",
     "all pairs of expression trees that are equal as operators, all generator words, scalar types with exact arithmetic on the inputs",
     "Confluence of the rewriting is a statement about all words and all ways to build them; tests compare a few chosen results.",
     [EX + "expression.hpp", EX + "monomial.hpp", EX + "generator_fermion.hpp", EX + "generator_boson.hpp", EX + "generator_spin.hpp"],
     [("normalize_and_store, store_monomial", EX + "expression.hpp"), ("operator== / operator<", EX + "monomial.hpp")],
     over=("inputs", "programs"),
     note=TRUST + "An independently written normal-ordering algorithm predicts the exact list of monomials and coefficients; rewritten variants of a tree must compare equal and perturbed ones unequal.")

prop("E03", "Every spelling of an arithmetic operation gives the same expression",
     "Expressions form an associative algebra over their scalars, and every spelling of an operation agrees: binary operators, compound assignments, scalar constants on the left or right, unary minus, and operands with different but compatible scalar types. This includes compound assignments whose right-hand side is the expression itself or one of its own coefficients, and operands are never modified except for the assigned one.",
     "all expressions, scalars (including 0 and values that cancel a term), operand scalar type pairs and histories of compound assignments",
     "There are about twenty separately written code paths (same type / different type, prefix / postfix, constant term present / absent / cancelling); tests exercise one or two values for each.",
     [EX + "expression.hpp", I + "scalar_traits.hpp"],
     [("operator+,-,*, +=, -=, *= and their *_impl paths", EX + "expression.hpp"), ("add_assign, sub_assign, mul_assign", I + "scalar_traits.hpp")],
     over=("inputs", "histories"),
     note=TRUST + "Stateful sequences of arithmetic statements over several variables, mirrored step by step in a reference map from monomials to exact coefficients.")

prop("E04", "Hermitian conjugation is the adjoint",
     "Conjugating an expression yields the adjoint operator: matrix elements are transposed and complex conjugated, sums map to sums with conjugated coefficients, products are reversed, and conjugating twice gives the expression back. Adding or subtracting the Hermitian-conjugate placeholder adds or subtracts exactly that adjoint.",
     "all expressions over real, rational and complex scalars, including coefficients near or below the zero tolerance",
     "Tests conjugate a few fixed expressions; the loop reuses intermediate results between monomials, so the outcome depends on the whole sum.",
     [EX + "expression.hpp", EX + "hc.hpp", EX + "generator_fermion.hpp", EX + "generator_boson.hpp", EX + "generator_spin.hpp"],
     [("conj(expression)", EX + "expression.hpp"), ("generator conj()", EX + "generator_*.hpp"), ("hc", EX + "hc.hpp")],
     note=TRUST + "Checked as the adjoint with respect to an exactly weighted inner product, against a model adjoint and through algebraic laws.")

prop("E05", "The choice of scalar type never changes the result",
     "The same computation carried out with integer, arbitrary precision integer, rational, arbitrary precision rational, floating point and complex scalars gives the same operator whenever the values are representable. Structure constants and constants that a scalar type cannot represent are rejected with an exception, never rounded or truncated.",
     "all expression programs, all supported scalar types",
     "Tests check the conversion functions on a few constants and run arithmetic mostly with doubles.",
     [I + "scalar_traits.hpp", I + "utility.hpp", I + "scalars/gmpxx.hpp", I + "scalars/boost_rational.hpp", EX + "expression.hpp"],
     [("scalar_traits<S>::make_const / is_zero / conj", I + "scalar_traits.hpp"), ("var_number", I + "utility.hpp")],
     over=("inputs", "configurations"),
     note=TRUST + "Differential: one program, eight scalar types, compared exactly; impossible structure constants must throw std::runtime_error.")

prop("E06", "Generators, index sequences, monomials and spaces are totally ordered",
     "Comparison operators of generators, dynamic index sequences, monomials and elementary spaces are mutually consistent strict total orders that agree with equality and with the documented canonical order.",
     "all pairs and triples of generators, dynamic indices, monomials and elementary spaces of mixed algebras, spins, dimensions and index lengths",
     "Tests check one sorted list per kind; transitivity and consistency quantify over all pairs and triples.",
     [EX + "generator.hpp", EX + "generator_fermion.hpp", EX + "generator_boson.hpp", EX + "generator_spin.hpp", EX + "dyn_indices.hpp", EX + "monomial.hpp", LO + "elementary_space.hpp", LO + "elementary_space_boson.hpp", LO + "elementary_space_spin.hpp"],
     [("equal/less/greater", EX + "generator_*.hpp"), ("operator<", EX + "dyn_indices.hpp"), ("less/greater", LO + "elementary_space*.hpp")],
     note=TRUST + "Random pools of objects; every pair is compared with an independent three-way comparison written from the documentation.")

prop("E07", "Index types are labels: static and dynamic indices behave alike",
     "An expression, its products, its conjugate and the linear operator made from it depend on indices only through which are equal and how they are ordered; programs written with statically typed indices and with dynamic index sequences give the same results, and each named operator constructor yields the operator it documents for every index sequence.",
     "all programs over generators, index sequences of any length and type (integers, strings), all named constructors and spin multiplicities",
     "The static and the dynamic constructors are separate macro-generated families; tests call each once with one or two index lists.",
     [EX + "factories.hpp", EX + "factories_dyn.hpp", EX + "dyn_indices.hpp", EX + "generator.hpp", EX + "expression.hpp"],
     [("DEFINE_FACTORY*", EX + "factories.hpp"), ("DEFINE_FACTORY*", EX + "factories_dyn.hpp"), ("dyn_indices_generic", EX + "dyn_indices.hpp")],
     over=("inputs", "programs"),
     note=TRUST + "Differential between index families through order-preserving relabelling; factories against explicitly constructed monomials.")

prop("E08", "User-defined algebras are normal-ordered by their own relations",
     "For an algebra supplied by the user through its exchange relations, its optional simplification of ordered pairs and powers, and its conjugation, products are rewritten with exactly these relations until no rule applies, whatever numeric type the structure constants are given in. The resulting expressions denote the products of the algebra, are canonical, and mix with the predefined algebras by commuting with them.",
     "all words over several consistent user algebras (Clifford, Pauli, quaternion-like, Lie with central terms, parafermion-like zero exchange), all ways of spelling structure constants",
     "Tests define two algebras and multiply a few pairs.",
     [EX + "expression.hpp", EX + "generator.hpp", I + "utility.hpp"],
     [("normalize_and_store", EX + "expression.hpp"), ("swap_with / simplify_prod / reduce_power dispatch", EX + "generator.hpp"), ("linear_function, var_number", I + "utility.hpp")],
     over=("inputs", "programs"),
     note=TRUST + "Each algebra has an exact faithful matrix representation; products are compared with matrix products and the canonical basis is checked for irreducibility.")

prop("E09", "Expressions transform, convert and iterate without loss",
     "Visiting an expression enumerates each of its monomials with its coefficient once and in order, forwards or backwards; mapping coefficients through a function replaces each coefficient by the function's value and drops the vanishing ones; converting or assigning between scalar types, copying, moving, clearing and swapping preserve or transfer the terms exactly.",
     "all expressions, coefficient functions and scalar conversions",
     "Tests transform a single three-term expression.",
     [EX + "expression.hpp"],
     [("transform, converting constructor and assignment, const_iterator", EX + "expression.hpp")],
     over=("inputs", "histories"),
     note=TRUST + "Random expressions and pure functions against the reference term list.")

prop("E10", "Printed expressions are faithful",
     "The text printed for a generator, monomial or expression identifies it: reading the text back term by term (coefficient, generator names, indices, powers) and rebuilding the operator gives an expression equal to the printed one.",
     "all expressions over all generators, spins, index sequences and scalar types, including empty and constant ones",
     "Tests compare a few strings.",
     [EX + "expression.hpp", EX + "monomial.hpp", EX + "generator_fermion.hpp", EX + "generator_boson.hpp", EX + "generator_spin.hpp", EX + "dyn_indices.hpp", I + "utility.hpp"],
     [("operator<< and to_string()", EX + "*.hpp"), ("tuple_to_string", I + "utility.hpp")],
     note=TRUST + "Round trip print, parse, rebuild, with a parser written for the documented notation.")

prop("E11", "Monomials behave as immutable sequences of generators",
     "A monomial is exactly the sequence of generators it was made from: random access, forward and reverse iteration, iterator arithmetic, equality, ordering, concatenation of any mixture of generators, monomials and ranges, appending (including a monomial to itself), swapping two positions and the sortedness test all act as on that sequence, and copies share no observable state.",
     "all generator sequences and histories of monomial operations",
     "Tests use one monomial of five generators.",
     [EX + "monomial.hpp"],
     [("monomial, concatenate, append, swap_generators, const_iterator", EX + "monomial.hpp")],
     over=("inputs", "histories"),
     note=TRUST + "Stateful model-based test against a vector of generator descriptions.")

prop("H01", "A Hilbert space lays out its elementary spaces in disjoint bit ranges",
     "Elementary spaces occupy consecutive disjoint bit ranges in the documented order, wide enough for their dimension and independent of the order in which they were added; the total bit count, dimension, vector size, algebra bit ranges, position, equality and lookups agree with that layout, and duplicates, missing spaces and sizes that exceed the index type are reported by the documented exceptions. Copies, assigned and moved-to spaces behave exactly like the original.",
     "all sets of elementary spaces (any algebra, spin, dimension, index), insertion orders, and histories of add, copy, assign, move",
     "Tests use one fixed ten-element space; copying is tested only through equality, which ignores part of the state.",
     [LO + "hilbert_space.hpp", LO + "elementary_space.hpp", LO + "elementary_space_fermion.hpp", LO + "elementary_space_boson.hpp", LO + "elementary_space_spin.hpp"],
     [("recompute_bit_ranges, add, copy/assignment", LO + "hilbert_space.hpp"), ("n_bits / dim", LO + "elementary_space_*.hpp")],
     over=("inputs", "histories"),
     note=TRUST + "Stateful model-based test; the model recomputes the layout from the documented rules.")

prop("H02", "Enumerating basis states visits each exactly once in ascending order",
     "Enumerating the basis states of a Hilbert space visits exactly the valid basis state indices, each once, in ascending order, for any dimensions of the elementary spaces, also when enumerations of one space are nested or stopped early by an exception; single-space basis state indices have the documented position.",
     "all products of elementary spaces, including dimensions that are not powers of two and very large sparse spaces",
     "Tests enumerate six shapes; mixed radix carries, merged dimensions and large counts depend on all combinations of sizes.",
     [LO + "hilbert_space.hpp"],
     [("sparse_foreach_basis_state, init_foreach_alg, foreach, basis_state_index", LO + "hilbert_space.hpp")],
     over=("inputs", "histories"),
     note=TRUST + "Mixed-radix reference enumeration; huge spaces by a prefix.")

prop("H03", "A Hilbert space built from an expression is the one the expression needs",
     "A Hilbert space constructed from an expression contains exactly one elementary space for each distinct degree of freedom occurring in it, with fermions of dimension two, spins of their multiplicity and bosons of the requested truncation, and any linear operator of that expression can then be built on it. Generators for which no elementary space can be made are rejected with the documented exception.",
     "all expressions, boson truncations (including non powers of two), chains of elementary space makers and user algebras",
     "Tests build spaces from two expressions.",
     [LO + "es_constructor.hpp", LO + "hilbert_space.hpp"],
     [("es_constructor, boson_es_constructor, default_es_constructor", LO + "es_constructor.hpp"), ("hilbert_space(expression)", LO + "hilbert_space.hpp")],
     note=TRUST + "Set model of the degrees of freedom of the random expression.")

prop("H04", "Bit-level primitives are exact on every platform path",
     "Population count, trailing zero count, bit deposit and bit extraction, and power-of-two helpers return the mathematically defined result for every 64-bit argument, in each of the implementations selected at compile time.",
     "all 64-bit arguments, all compile-time selected implementations (compiler builtins, BMI2 instructions, portable fallback)",
     "Tests check a few words and only the implementation the test machine selects.",
     [LO + "bit_ops.hpp"],
     [("popcount, count_trailing_zeros, deposit_bits, extract_bits, next_pow2, pow2", LO + "bit_ops.hpp")],
     over=("inputs", "configurations"),
     note=TRUST + "Naive bit-by-bit reference, the header compiled three ways into one binary.")

prop("L01", "Linear operators act as the matrices of their expressions",
     "A linear operator maps each basis state and each state vector to what the matrix of its expression prescribes in the orthonormal basis: fermionic signs follow from the fermion order, bosonic amplitudes are square roots of occupation numbers within the truncation, spin amplitudes are the angular momentum matrix elements, and other modes are untouched.",
     "all expressions and basis states in Hilbert spaces of up to 63 bits with any number of modes, truncations and spins",
     "Tests check single monomials in one small fixed space; sign masks, shifts and square-root tables depend on positions and powers.",
     [LO + "loperator.hpp", LO + "monomial_action.hpp", LO + "monomial_action_fermion.hpp", LO + "monomial_action_boson.hpp", LO + "monomial_action_spin.hpp"],
     [("monomial_action_*::act", LO + "monomial_action_*.hpp"), ("loperator::act_impl", LO + "loperator.hpp")],
     note=TRUST + "Independent matrix elements; square roots are compared with a relative tolerance of 1e-10.")

prop("L02", "Operators respect sums, products, adjoints and linearity",
     "The operator of a sum is the sum of the operators, that of a product (within the untruncated part of the space) their composition, that of a conjugate the adjoint matrix, and every operator acts linearly on superpositions; all equivalent ways to apply an operator give the same vector and leave the input unchanged.",
     "all pairs of expressions, Hilbert spaces, and state vectors",
     "These are relations between arbitrary operators; tests compare single results.",
     [LO + "loperator.hpp", LO + "monomial_action.hpp", EX + "expression.hpp"],
     [("loperator::operator(), operator*", LO + "loperator.hpp")],
     note=TRUST + "Metamorphic relations; compositions only use states far enough from the boson truncation.")

prop("L03", "The result does not depend on the state vector type",
     "Acting on the same state stored as a standard vector, a sparse vector, an Eigen vector, segment, column block or map, or through views of these, with source and destination of different types, gives the same amplitudes, writes nothing outside the destination, and the result replaces whatever the destination contained.",
     "all operators, states, storage types, and source/destination combinations",
     "Tests cover most types with a single operator and state.",
     [LO + "state_vector.hpp", LO + "state_vector_eigen3.hpp", LO + "sparse_state_vector.hpp", LO + "loperator.hpp"],
     [("get_element, update_add_element, zeros_like, set_zeros, foreach", LO + "state_vector*.hpp")],
     over=("inputs", "configurations"),
     note=TRUST + "Differential across eight storage types with guard elements around segments and maps.")

prop("L04", "Operators that do not fit the Hilbert space are rejected",
     "Constructing a linear operator succeeds if and only if every generator of every monomial of the expression has its elementary space in the Hilbert space and its algebra among the supported ones; otherwise a dedicated exception naming the offending generator is thrown and no operator results, wherever in the expression the generator stands.",
     "all expressions and all Hilbert spaces missing one or more of the needed elementary spaces",
     "Tests remove one space from one expression.",
     [LO + "monomial_action.hpp", LO + "monomial_action_fermion.hpp", LO + "monomial_action_boson.hpp", LO + "monomial_action_spin.hpp"],
     [("unknown_generator", LO + "monomial_action.hpp")],
     note=TRUST + "Set model of needed and present spaces decides which outcome is right.")

prop("L05", "Parametric operators equal their evaluated counterparts",
     "Acting with an operator whose coefficients are functions of parameters equals acting with the ordinary operator whose coefficients are those functions' values, through every overload and storage argument, for any parameter values and any number of parameters, including temporaries; converting at fixed parameters gives that ordinary operator.",
     "all parametric expressions, parameter values and argument value categories, and repeated use of the same coefficient store",
     "Tests use one two-parameter operator.",
     [LO + "loperator.hpp"],
     [("parametric_loperator::operator(), at, act_and_store_coeffs", LO + "loperator.hpp")],
     over=("inputs", "histories"),
     note=TRUST + "Differential against operators rebuilt with evaluated coefficients.")

prop("L06", "Operators of user-defined algebras act through the whole stack",
     "A user who supplies an algebra's generators, its elementary spaces and the action of its products on basis states gets a working operator for any expression mixing that algebra with the predefined ones and with other algebras of the user: it acts as the product of the individual actions, in every combination of algebras the operator type lists, on full, compressed and mapped state vectors, in Hilbert spaces built by hand or from the expression, and its invariant subspaces, matrix elements and reachable basis states are those of the exact matrix.",
     "all expressions over two user algebras and the predefined ones, all combinations of algebras, Hilbert spaces and state vectors",
     "Tests act with one user algebra that is alone in its Hilbert space.",
     [LO + "monomial_action.hpp", LO + "loperator.hpp", LO + "elementary_space.hpp", LO + "hilbert_space.hpp"],
     [("monomial_action_impl, find_algebra_monomial_subrange", LO + "monomial_action.hpp"), ("loperator_base", LO + "loperator.hpp"), ("hilbert_space(expr, es_constr)", LO + "hilbert_space.hpp")],
     over=("inputs", "programs"),
     note=TRUST + "Words are applied generator by generator to occupation numbers by a model that knows only the representation; matrices with dyadic elements are compared exactly.")

prop("V01", "Compressed views index the basis states densely and without collisions",
     "A compressed view maps the basis states of a (non-empty) Hilbert space one-to-one onto consecutive positions in ascending order, enumeration is the inverse of this map, and acting through views gives exactly the uncompressed result.",
     "all Hilbert spaces of any mixture of dimensions, all states and operators",
     "Tests enumerate a few fixed shapes.",
     [LO + "compressed_state_view.hpp", LO + "hilbert_space.hpp"],
     [("map_index, foreach, init", LO + "compressed_state_view.hpp")],
     note=TRUST + "Mixed-radix reference ranking.")

prop("V02", "An N-fermion sector is ranked one-to-one by every ranking method",
     "A view of the sector with a fixed number of fermions maps the basis states of the sector one-to-one onto 0 to size minus one with every ranking method, enumeration and the list of basis states are consistent with that map, the sector size is the binomial coefficient times the dimension of the rest of the space, and the other degrees of freedom are kept intact; the size of a sector with an impossible fermion number is zero, while views of it and lists of its states are rejected. (Hilbert spaces in which every elementary space has at least two states.)",
     "all numbers of fermionic modes up to 63, fermion numbers, surrounding non-fermionic spaces, ranking methods and table parameters",
     "Tests enumerate small spaces with few shapes; the ranking tables and bit manipulations depend on sizes and word boundaries.",
     [LO + "n_fermion_sector_view.hpp"],
     [("combination_ranking, staggered_ranking, trie_ranking, n_fermion_sector_view", LO + "n_fermion_sector_view.hpp")],
     over=("inputs", "configurations"),
     note=TRUST + "Exhaustive over generated sectors of moderate size; sampled states with exact combinatorial rank for big ones.")

prop("V03", "A multisector with several fixed fermion numbers is ranked one-to-one",
     "A view of the subspace with fixed numbers of fermions in several disjoint groups of modes maps its basis states one-to-one onto 0 to size minus one, enumeration and the list of basis states are consistent with that map, modes outside the groups and other degrees of freedom are unrestricted, and sizes are the products of binomials. Overlapping groups, unknown modes and (except by the size function, which gives zero) impossible fermion numbers are rejected with an exception. (Hilbert spaces in which every elementary space has at least two states.)",
     "all partitions of fermionic modes into groups, interleaved orders, fermion numbers, surrounding spaces and ranking methods, histories of copying and moving views",
     "Tests use a few fixed groupings.",
     [LO + "n_fermion_sector_view.hpp"],
     [("n_fermion_multisector_view, multisector_unranking_generator", LO + "n_fermion_sector_view.hpp")],
     over=("inputs", "histories", "configurations"),
     note=TRUST + "Brute-force enumeration of the constraint as the reference.")

prop("V04", "Acting inside a fermion sector equals acting in the full space",
     "For an operator that maps one fermion sector into another, acting through sector or multisector views of the source and destination gives exactly the restriction of the full-space action, for every storage type and ranking method.",
     "all number-conserving and number-changing operators, sector pairs, states and ranking methods",
     "Tests run one model Hamiltonian.",
     [LO + "n_fermion_sector_view.hpp", LO + "loperator.hpp"],
     [("get_element/update_add_element/foreach of sector views", LO + "n_fermion_sector_view.hpp")],
     note=TRUST + "Differential against the full-space action.")

prop("V05", "Mapped bases are one-to-one and act as restrictions",
     "A basis mapping built from a list of distinct basis states, from the states an operator reaches, or from products of powers of (one or more) operators applied to the vacuum contains exactly the documented basis states numbered consecutively from zero, its inverse is its inverse, and acting through mapped views equals the restriction of the full-space action.",
     "all lists of states, operators, operator lists with power sums, and states",
     "Tests build three mappers in one space.",
     [LO + "mapped_basis_view.hpp"],
     [("basis_mapper, mapped_basis_view", LO + "mapped_basis_view.hpp")],
     note=TRUST + "Reference reachability computed with the model.")

prop("P01", "Phase-one partition yields exactly the connected components",
     "Partitioning the basis of a Hilbert space by an operator assigns every basis state to exactly one invariant subspace, and two states share a subspace if and only if they are connected by a chain of nonzero matrix elements; subspaces are numbered consecutively, the lists of basis states agree with the state-to-subspace map, and reported matrix elements are those of the operator.",
     "all operators and Hilbert spaces",
     "Tests partition one model.",
     [LO + "space_partition.hpp", LO + "disjoint_sets.hpp"],
     [("space_partition constructor, subspace_basis, operator[]", LO + "space_partition.hpp")],
     note=TRUST + "Breadth-first search over the model's matrix.")

prop("P02", "Phase-two partition makes the given operators one-to-one on subspaces",
     "After merging for one or several pairs of mutually adjoint operators every subspace is mapped by each of these operators into at most one subspace and is reached from at most one, simultaneously for all pairs merged so far; the merged partition is the finest coarsening with this property, and the returned matrix elements and connections are exactly those of the operators.",
     "all Hamiltonians, operator pairs, sequences of merges with several operator pairs",
     "Tests merge for the creation and annihilation operators of one model.",
     [LO + "space_partition.hpp", LO + "disjoint_sets.hpp"],
     [("merge_subspaces, find_connections", LO + "space_partition.hpp")],
     over=("inputs", "histories"),
     note=TRUST + "Reference fixpoint computation on the model's matrices.")

prop("P03", "Disjoint sets maintain exactly the partition generated by the unions",
     "After any sequence of additions and unions two elements have the same representative if and only if they are linked by the unions performed, the representative is a member of its own set and stays stable under lookup, sizes and set counts are exact, and compression and normalisation change only representatives, the latter to the smallest member of each set.",
     "all histories of make, union, find, compress and normalise operations",
     "Tests run one short sequence.",
     [LO + "disjoint_sets.hpp"],
     [("disjoint_sets", LO + "disjoint_sets.hpp")],
     over=("histories",),
     note=TRUST + "Stateful model-based test.")

prop("S01", "Sparse state vectors behave as vectors without stored zeros",
     "A sparse state vector behaves as a vector of its fixed size: elements never written read as zero, updates accumulate, enumeration visits exactly the nonzero elements once, the number of stored amplitudes counts the nonzero ones, and pruning removes exactly the amplitudes that satisfy the criterion. (An amplitude written directly through the subscript operator stays stored, even as a zero, until the vector is pruned.)",
     "all histories of reads, updates, cancellation, clearing and pruning over several scalar types",
     "Tests perform a few updates.",
     [LO + "sparse_state_vector.hpp", LO + "state_vector.hpp"],
     [("sparse_state_vector, update_add_element, foreach, prune", LO + "sparse_state_vector.hpp")],
     over=("histories",),
     note=TRUST + "Stateful model-based test against a map.")

prop("C01", "Constant objects can be shared by threads and used in nested calls",
     "Const operations on expressions, monomials, Hilbert spaces, linear and parametric operators, state-space partitions, basis mappers and constant state vector views have no hidden side effects: any number of them on the same objects (or on an object and its copies), running concurrently in several threads, nested in each other's callbacks, or started after a call was left by an exception thrown by its callback, involves no data race and gives every caller the result it would get alone, the first call on an object included. (disjoint_sets, whose documented lookups compress paths, is excluded.)",
     "all sets of shared objects, operations on them and schedules",
     "Tests are single-threaded and never call back into the object they are enumerating.",
     [EX + "expression.hpp", EX + "monomial.hpp", LO + "loperator.hpp", LO + "hilbert_space.hpp", LO + "n_fermion_sector_view.hpp", LO + "compressed_state_view.hpp", LO + "mapped_basis_view.hpp", LO + "space_partition.hpp", LO + "monomial_action.hpp"],
     [("const member functions and foreach()", LO + "loperator.hpp"), ("mutable members of enumeration algorithms", LO + "n_fermion_sector_view.hpp")],
     over=("inputs", "schedules"),
     note=TRUST + "Interleavings are those the scheduler produces; ThreadSanitizer's happens-before analysis reports conflicting accesses even when they did not collide.")

prop("C02", "Operations that fail part-way leak nothing and corrupt nothing",
     "When a memory allocation or an operation of a user-defined scalar type throws in the middle of a library call, the exception reaches the caller (or the call still gives the right result), no memory or object is leaked, constant operands and shared objects keep their values and work as before, an object that was being modified can be copied, assigned to and destroyed, expressions, monomials, Hilbert spaces and sparse vectors among them remain valid (canonical expressions without zero coefficients, spaces whose size, bit ranges and enumeration agree), a Hilbert space that failed to be assigned or extended and an expression that failed to be multiplied by another one are unchanged, and repeating the call afterwards gives the regular result.",
     "all operations, operands and points of failure",
     "Tests never make an allocation or a scalar operation fail.",
     [EX + "expression.hpp", EX + "monomial.hpp", LO + "hilbert_space.hpp", LO + "loperator.hpp", LO + "space_partition.hpp", LO + "sparse_state_vector.hpp", LO + "mapped_basis_view.hpp"],
     [("hilbert_space::add, operator=", LO + "hilbert_space.hpp"), ("expression arithmetic", EX + "expression.hpp")],
     over=("inputs", "crash_points"),
     note=TRUST + "Operator new is replaced and counts blocks; allocations of GMP and the streams' own exception handling are outside.")

prop("X01", "Every language standard, compiler and build option gives the same results",
     "A program that uses the library gives the same results whether it is compiled as C++11, C++14 or C++17, by g++ or clang++, with or without optimisation, assertions and BMI2 instructions, and whatever the sizes of the tables of square roots; running it again in the same process does not change its results either.",
     "all programs over the public interface, all supported compilation modes",
     "The tests are compiled in one configuration only.",
     [I + "metafunctions.hpp", I + "utility.hpp", EX + "expression.hpp", LO + "bit_ops.hpp", LO + "hilbert_space.hpp", LO + "monomial_action_boson.hpp", LO + "monomial_action_spin.hpp", LO + "mapped_basis_view.hpp", LO + "n_fermion_sector_view.hpp"],
     [("replacements for C++14/17 features", I + "metafunctions.hpp"), ("implementations selected by macros", LO + "bit_ops.hpp")],
     over=("programs", "configurations"),
     note="Differential: seven copies of the library, compiled from the same headers in different modes into different namespaces, interpret the same random program; their printed results must be equal. Trusts the two compilers; errors common to all modes are the business of the other properties.")
