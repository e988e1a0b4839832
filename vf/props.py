"""Metadata of every property (claimed or not): the single source of properties.jsonl and MANIFEST.json (python3 vf/gen.py)."""
P = []
SM = 'include/altruct/structure/math/'


def p(pid, title, statement, why, files, mech, text, over=('inputs',), technique=None, note=None, na=None, level='proof'):
    P.append(dict(id=pid, title=title, statement=statement, why=why, files=files, mech=mech, text=text, over=list(over),
                  technique=technique, note=note, na=na, level=level))


VN = 'value-numbering dataflow analysis of LLVM IR (canonical polynomials / decision diagrams), no execution'
BV = 'bit-level abstract interpretation of LLVM IR (canonical decision diagrams), no execution'
VN_NOTE = ('Exhaustive over the analysed functions: every path is merged into one canonical value per result, equality of canonical forms is decided, not sampled. '
           'Assumes the element type obeys commutative-ring laws (modulus-like, exact); trusts the clang 18 front end and -O2 pipeline and the analyser in /verif/tool.')

p('C01', 'cl3 (3D Clifford algebra): sums, products, inverses and involutions are exact',
  'For every rotor, vector and multivector of the three-dimensional Clifford algebra, over any exact commutative element type: +, -, unary -, scalar * and /, and * in every mix of the three kinds give component for component the value defined by the algebra with e1^2=e2^2=e3^2=1. '
  'Conjugation, reversion, grade involution and the inverse agree with that algebra, x * x.inv() being one whenever the inverse exists. Constructors and conversions from scalars, parts and casts leave every component that is not given at zero.',
  'A bilinear product has dozens of signed terms; the tests multiply a few fixed small numbers, so a term that is zero or equal in the samples can be wrong.',
  [SM + 'clifford3.h'], [('rotor / vector / multivector operator definitions', SM + 'clifford3.h')], 'all element values, all operand kinds', technique=VN, note=VN_NOTE)
p('C02', 'pga (3D projective geometric algebra): sums, all products, duals are exact',
  'For every pair of blade kinds of the projective geometric algebra, over any exact commutative element type: sum, difference, geometric product, wedge (^), inner product (|), join (&) give component for component the value that the algebra with signature (0,1,1,1) prescribes, restricted to no fewer components than the result can have. '
  'Negation, dual, reversion, grade involution and conjugation, scaling and division by a scalar act on every blade kind as the algebra prescribes.',
  '13 blade kinds give 169 operand pairs for each of six operators; the tests cover sampled operands and cannot cover all sign patterns and zero patterns.',
  [SM + 'pga.h'], [('blade kinds, combine traits, product kernels', SM + 'pga.h')], 'all element values, all pairs of blade kinds', technique=VN, note=VN_NOTE)
p('C03', 'quadratic and complex numbers follow (a + b*sqrt(D)) arithmetic exactly',
  'For quadratic numbers with any storage kind of D (instance, static, constant) and for complex numbers, over any exact commutative element type: +, -, *, /, unary -, scalar * and /, conj, norm and inverse have exactly the components that a + b*sqrt(D) arithmetic prescribes. '
  'The D of every result is that of its operands; identity and zero built from a value keep its D.',
  'Tests evaluate fixed small numbers; the formulas are identities over all elements, all D and all storage kinds.',
  [SM + 'quadratic.h', SM + 'complex.h'], [('quadratic operators, quadratic_members storage', SM + 'quadratic.h')], 'all element values, all D, all storage kinds', technique=VN, note=VN_NOTE)
p('C04', 'vector2d / vector3d / vectorNd: operators, dot, cross and norms are exact',
  'For 2-D, 3-D and N-dimensional vectors over any exact commutative element type: +, -, unary -, scaling, component-wise * and /, dot product, cross product, squared length, rotation helpers and element access give, component for component, the defining formula of the operation.',
  'Tests use fixed vectors in which swapped components or signs may coincide.',
  [SM + 'vector2d.h', SM + 'vector3d.h', SM + 'vectorNd.h'], [('vector operators', SM + 'vector2d.h, vector3d.h, vectorNd.h')], 'all component values', technique=VN, note=VN_NOTE)
p('C05', 'moebius transforms: application, composition, inverse and powers are exact',
  'For every Moebius transform over an exact commutative element type, as a rational function of its argument: applying it evaluates (a x + b) / (c x + d), multiplying transforms composes these functions, the inverse undoes it, and the helper transforms (identity, zero, translation, scaling) are the functions their names say.',
  'Tests apply a few transforms at a few points; composition order and coefficient placement are identities over all coefficients.',
  [SM + 'moebius_tr.h'], [('moebius_tr operators', SM + 'moebius_tr.h')], 'all coefficients and arguments', technique=VN, note=VN_NOTE)
p('C06', 'with_infinity: arithmetic with infinity follows the documented tables',
  'For every pair of operands, each finite or infinite, of a number type extended with a single point at infinity: +, -, *, /, unary - and their in-place forms give the exact finite result or infinity, as the documented operation tables state wherever they define a result (a finite non-zero number divided by zero is infinity, a finite number divided by infinity is zero). Copying, assigning, conjugating and building zero, identity or infinity from an operand keep or produce the finiteness their name says.',
  'The tables have many finite/infinite/zero combinations per operator; the tests sample concrete values.',
  [SM + 'with_infinity.h'], [('operation tables', SM + 'with_infinity.h')], 'all operands, every finite/infinite/zero combination', technique=VN, note=VN_NOTE)
p('C07', 'fractions keep their value, lowest terms and a positive denominator',
  'For every pair of fractions with non-zero denominators over exact integers: +, -, *, /, unary - give the exact rational value of the operation, in-place forms give the same, and results are reduced to lowest terms with the sign in the numerator as normalisation prescribes. Comparison operators order fractions by their rational value.',
  'Values and signs of numerators and denominators are unbounded; tests use a few small ones, so a missing reduction or sign case can go unnoticed.',
  [SM + 'fraction.h'], [('fraction::normalize and operators', SM + 'fraction.h')], 'all numerators and denominators (no overflow)', technique=VN, note=VN_NOTE + ' gcd is interpreted algebraically (the sign and common-divisor laws of gcd are assumed).')
p('C08', 'comparison operators of every value type form one consistent total order',
  'For every mathematical value type (matrices, polynomials and series included), graph, graph edge, triple and polynomial hash with comparison operators: == holds exactly when all compared components are equal (a plain edge compares its target, a full edge both ends), != is its negation, < is irreflexive, asymmetric, transitive and total over components (so values usable as keys of ordered containers), and >, <=, >= are derived from the same order.',
  'Order laws quantify over pairs and triples of values; tests compare a few pairs and cannot see an asymmetry or a component left out.',
  [SM + f for f in ('quadratic.h', 'vector2d.h', 'vector3d.h', 'vectorNd.h', 'with_infinity.h', 'moebius_tr.h', 'clifford3.h', 'modulo.h', 'galois_field_2.h', 'nimber.h')] + ['include/altruct/algorithm/math/triples.h', 'include/altruct/structure/graph/graph.h', 'include/altruct/algorithm/hash/polynomial_hash.h'],
  [('operator == != < > <= >= families', 'the listed headers')], 'all pairs and triples of values', technique=VN, note=VN_NOTE.replace('commutative-ring laws', 'total-order laws'))
p('C09', 'in-place operators equal the binary ones, also when operands alias',
  'For cl3, pga, quadratic, complex, vectors, moebius transforms, with_infinity and fraction: x op= y leaves x equal to x op y for every supported operator and operand kind, returns x, and does not change y. This also holds when y is x itself or a component of x.',
  'Aliasing is about which object is passed, not which value; tests nearly always use distinct objects, so an operand overwritten half-way is invisible.',
  [SM + f for f in ('clifford3.h', 'pga.h', 'quadratic.h', 'vector2d.h', 'vector3d.h', 'vectorNd.h', 'moebius_tr.h', 'with_infinity.h', 'fraction.h')],
  [('compound assignment operators', 'the listed headers')], 'all values, every aliasing of operands with the target', technique=VN, note=VN_NOTE)
p('C10', 'run-time element context (e.g. modulus) is carried into every result component',
  'When the element type carries run-time context (such as a modulus or a field extension held per instance), every component of every result of cl3, pga, quadratic, complex, vector, moebius, with_infinity and fraction operations carries the context of the operands. Zero and one constants that the operations introduce are built from an operand, never default-constructed.',
  'Tests use plain integers or compile-time moduli, for which a default-constructed zero is indistinguishable from a context-carrying one.',
  [SM + f for f in ('clifford3.h', 'pga.h', 'quadratic.h', 'vector2d.h', 'vector3d.h', 'vectorNd.h', 'moebius_tr.h', 'with_infinity.h', 'fraction.h')] + ['include/altruct/algorithm/math/base.h'],
  [('zeroOf / identityOf / castOf based construction', 'the listed headers')], 'all values and contexts', technique=VN, note=VN_NOTE)
p('C11', 'pga: sandwich products, norms, inverses and constructors agree with the algebra',
  'For every blade kind of the projective geometric algebra over any exact commutative element type: the sandwich (conjugation) operator equals the product x * y * reverse(x) of the full algebra, norms equal the scalar part of x * reverse(x), and inverses satisfy x * x.inv() = 1 whenever the norm is invertible. Point, line and plane constructors place their arguments in the components the algebra assigns to them.',
  'Closed-form expansions of sandwich products have dozens of terms whose signs sampled tests cannot separate.',
  [SM + 'pga.h'], [('operator %, inv, norm2, make_*', SM + 'pga.h')], 'all element values, all blade kinds', technique=VN, note=VN_NOTE)

BV_NOTE = ('Exact over all inputs of the stated widths: every bit of every result is one canonical decision diagram over the input bits, equality is decided, not sampled; also decides that no undefined '
           'integer arithmetic is reachable. Trusts the clang 18 front end and -O1 pipeline and the analyser in /verif/tool.')
p('B01', 'bit manipulation functions are exact for every value of every width',
  'For every value of the 8, 16, 32 and 64 bit unsigned types: integer logarithm, bit count, bit reversal, highest/lowest bit, next power of two, power-of-two tests, leading/trailing zero counts, or/xor prefixes, Gray code conversions, sign-magnitude conversion and the single-bit and mask helpers compute exactly the function they are named for, '
  'at every bit position and without undefined arithmetic. Next-combination yields the next larger value with the same number of ones within the given size (up to the full width) and reports the last one.',
  'There are 2^64 inputs; the tests evaluate tens, so an error that needs a particular bit pattern (a table entry, the top bit, the full width) goes unseen.',
  ['include/altruct/algorithm/math/bits.h', 'src/algorithm/math/bits.cpp'], [('bit tricks and 16-bit lookup tables', 'include/altruct/algorithm/math/bits.h, src/algorithm/math/bits.cpp')],
  'all values of each integer width, all bit positions', technique=BV, note=BV_NOTE)
p('B02', 'modular arithmetic is exact for every operand and modulus, without overflow',
  'For every integer element type of modulo: for all canonical operands and every positive modulus up to the largest value of the type, +, - and unary - give the canonical residue, normalisation maps every value of every integer type to its residue in [0, M), and the class operators and in-place forms agree, keep the modulus and stay correct when an operand is the target. '
  'Multiplication gives the canonical residue of the exact product, inverse and division satisfy x * x.inv() = 1 and (x / y) * y = x whenever they exist.',
  'Overflow appears only for moduli or operands near the limits of the type, which sampled tests do not reach; the number of operand/modulus triples is 2^192.',
  [SM + 'modulo.h', 'include/altruct/algorithm/math/base.h'], [('modulo_add/sub/neg/mul/inv/div/normalize', SM + 'modulo.h'), ('gcd_ex, add_overflow', 'include/altruct/algorithm/math/base.h')],
  'all canonical operands, all moduli', technique=BV, note=BV_NOTE + ' Additive operations and normalisation: all 8-64 bit operands and moduli (a 64-bit remainder by an unknown modulus is the same abstract remainder on both sides). Multiplication, inverse, division: all 8-bit operands for a list of moduli (39 quick, 165 thorough), 16/32-bit products as remainder of the exact product, 63/64-bit products against rotation with an all-ones modulus.')

GL = 'abstract interpretation of LLVM IR (path-joined states, normal forms over symbolic elements), no execution'
GL_NOTE = ('For each listed size: all element values at once, every program path joined, result equality decided on canonical forms, not sampled; also decides that the analysed code reads no uninitialised, freed or '
           'out-of-bounds memory and leaks nothing. Bounded in the container sizes, which are enumerated in the witness (loop counts are data-independent given the sizes). Assumes exact commutative-ring (field, where divided) element laws; '
           'trusts the clang 18 front end and -O1 pipeline and the analyser in /verif/tool.')
AM = 'include/altruct/algorithm/math/'
p('D01', 'FFT and fast convolutions equal their defining sums for all element values',
  'For sequences over any exact ring with the required root of unity: the transform equals the evaluation at the powers of the root, inverse transform undoes it, and cyclic and ordinary convolutions equal the defining sums, including in-place and shared buffers. '
  'The and/or/xor/max convolutions and their transforms equal the sums over the index pairs that combine to each index. No call reads or writes outside the arrays it was given.',
  'The defining sums are identities over all elements; tests transform a few integer vectors, in which wrong twiddles or index maps can cancel.',
  [AM + 'fft.h', AM + 'convolutions.h'], [('transforms and convolutions', AM + 'fft.h, ' + AM + 'convolutions.h')], 'all element values, listed sizes', technique=GL, note=GL_NOTE, level='other')
p('D02', 'polynom: arithmetic, division, calculus are exact for all coefficients',
  'For polynomials over any exact field: +, -, *, scaling, truncated products and both multiplication kernels have the coefficients of the definition, division by long and Hensel method gives p = q*d + r with deg r < deg d, and inverse, derivative, integral, reversal, evaluation and comparison follow their definitions. '
  'In-place forms, operands that alias the target (the polynomial itself or one of its own coefficients) and leading zeros give the same results, and operands are unchanged.',
  'Kernels split by size thresholds and truncation, aliasing and cancelling coefficients; tests use a few integer polynomials with distinct operands.',
  [SM + 'polynom.h'], [('polynom operators, _mul_long, _mul_karatsuba, quot_rem', SM + 'polynom.h')], 'all coefficients, listed degrees', technique=GL, note=GL_NOTE, level='other')
p('D03', 'series: arithmetic, inverse, composition, exp/ln, powers are exact',
  'For formal power series modulo x^N over any exact field: +, -, *, /, scaling, shifting by any number of places, substitution, derivative, integral and pointwise operations have the coefficients of the definition and keep the order N. '
  'inverse, composition, reversion, exp, ln, Newton root finding and pow satisfy their defining identities modulo x^N for every kind of constant term (zero, one, other) and by either power algorithm, aliased and in-place forms included.',
  'The identities hold over all coefficients; tests expand a few fixed series and never reach the logarithmic power path with vanishing or shifted-out terms.',
  [SM + 'series.h', SM + 'polynom.h'], [('series operations', SM + 'series.h')], 'all coefficients, listed orders', technique=GL, note=GL_NOTE, level='other')
p('D04', 'matrix: products, determinant, inverse, rank and powers are exact',
  'For matrices over any exact field: +, -, unary, scaling, product, transposition, blocks, identity and integer powers (negative included) have the entries of the definition; det equals the permutation expansion, inverse is a two-sided inverse whenever det is not zero, and rank is the largest order of a non-vanishing minor. '
  'This holds for every zero pattern of the entries (every pivot choice), in-place and aliased forms give the same result, and operands are unchanged.',
  'Elimination branches on zero entries: 2^9 zero patterns for 3x3 alone, tests use a few matrices that are mostly regular.',
  [SM + 'matrix.h'], [('matrix operators, gauss', SM + 'matrix.h')], 'all entries including every zero pattern, listed dimensions', technique=GL, note=GL_NOTE, level='other')
p('D05', 'run-time element context survives series, matrices, recurrences, table sums',
  'When the element type carries run-time context (such as a per-instance modulus), every element of every result of transforms, convolutions, polynom, series and matrix operations, of number tables, linear recurrences and Dirichlet / summation functions carries the context of the operands, including zero padding, identities and constants the algorithms introduce. No result depends on the context of an earlier call.',
  'Tests use plain numbers or compile-time moduli, for which a default-constructed constant is indistinguishable from a context-carrying one.',
  [AM + 'fft.h', AM + 'convolutions.h', SM + 'polynom.h', SM + 'series.h', SM + 'matrix.h', AM + 'ranges.h', AM + 'recurrence.h', AM + 'sums.h', AM + 'divisor_sums.h'], [('ZERO_COEFF, id_coeff, zeroOf / identityOf based construction', 'the listed headers')],
  'all element values and contexts, listed sizes', technique=GL, note=GL_NOTE, level='other')
CO = 'include/altruct/structure/container/'
p('D06', 'segment trees answer every range query like a fold of the plain array',
  'For segment_tree and lazy_segment_tree over any associative, not necessarily commutative operation: after construction from a range, single and range modification, set, lazy range update (whole-segment or descending to the leaves), rebuild of an element, range or everything, and restore, every range query equals the left-to-right fold of the corresponding plain array and every element equals the array element. '
  'No operation touches memory outside the tree.',
  'Tests use commutative sums on a few ranges; wrong combination order, missed propagation on particular boundaries or padding is invisible there.',
  [CO + 'segment_tree.h', CO + 'lazy_segment_tree.h'], [('get/set/update/rebuild/restore', CO + 'segment_tree.h, ' + CO + 'lazy_segment_tree.h')], 'all element values, all ranges and update pairs for the listed sizes', technique=GL, note=GL_NOTE, level='other')
p('D07', 'number tables, powers, power sums and linear recurrences match definitions',
  'For every element value of any exact field: range, powers, factorials, inverse factorials (from any known k! with k below the table size), inverses, element-wise power, invert, negate, alternate, accumulate and differentiate give the defining value at every index and touch nothing outside the given range, and powT equals repeated multiplication for every exponent type. '
  'The n-th element of a linear recurrence (Fibonacci and Lucas included), its characteristic polynomial, recovery of the recurrence from its terms, Bernoulli numbers, sums of powers k^p and k^m x^k, sums of rounded-down quotients of any signs, discrete polynomial integrals and the figurate sequences satisfy their defining recurrences.',
  'These are identities over all elements and arguments; tests look at a few integers, sizes zero and one and non-trivial steps are rarely among them.',
  [AM + 'ranges.h', AM + 'base.h', AM + 'recurrence.h', AM + 'polynoms.h', AM + 'sums.h', AM + 'sequences.h'], [('table builders, powT', AM + 'ranges.h, ' + AM + 'base.h'), ('recurrences and sums', AM + 'recurrence.h, ' + AM + 'sums.h, ' + AM + 'polynoms.h')], 'all element values, listed sizes and exponents', technique=GL, note=GL_NOTE, level='other')
p('D08', 'Dirichlet convolutions, inverses and fast partial sums equal their definitions',
  'For arbitrary arithmetic functions (arbitrary multiplicative or completely multiplicative ones where required) over any exact field: Dirichlet convolution, division (by any function with invertible value at 1), inverse, Moebius transform and their multiplicative and completely multiplicative variants equal or invert the divisor sum at every index. '
  'Sieved and sublinear partial sums (sieve_m, sum_m, sum_sqrt and its two-function forms, sums of multiplicative functions from sums over primes with any sufficient prime table, sums of k^L (mu * g)(k) for any polynomial g, of generalised totients and of squarefree counts, coprime sums) equal the plain sum they replace, and the Fenwick tree returns every prefix sum.',
  'Tests use number-theoretic functions with g(1) = 1 and small integer values; index, exponent and boundary errors cancel or are not reached for most n.',
  [AM + 'divisor_sums.h', AM + 'sums.h', CO + 'sqrt_map.h', SM + 'fenwick_tree.h'], [('dirichlet_*, calc_*multiplicative, sieve_m*, sum_m', AM + 'divisor_sums.h'), ('sum_multiplicative, sum_multiplicative_34', AM + 'divisor_sums.h'), ('sum_sqrt*', AM + 'sums.h')], 'all function values, listed n', technique=GL, note=GL_NOTE, level='other')

GR_NOTE = ('For each listed size: every order of the elements (ties included) or every graph / network / operation choice at once, as one symbolic state with every program path joined; results are decided on decision diagrams, not sampled; '
           'also decides that the analysed code reads no uninitialised, freed or out-of-bounds memory, frees nothing twice and leaks nothing. Bounded in the listed sizes. Trusts the clang 18 front end and -O1 pipeline and the analyser in /verif/tool.')
EG = 'experimental/include/altruct/algorithm/graph/'


def e(pid, title, statement, why, files, mech, text):
    p(pid, title, statement, why, files, mech, text, technique=GL, note=GR_NOTE, level='other', over=('inputs', 'histories'))


e('E01', 'binary_heap yields its elements in order, whatever their order on insertion',
  'For every sequence of elements under any strict weak order, equal elements included: after any inserts or construction from a range the front of binary_heap is a smallest element (by the given order), removing fronts yields all elements in order, sort leaves the storage sorted and rebuild restores a heap. Sizes are exact and no memory outside the heap is touched.',
  'The heap has n! insertion orders and ties; tests use one or two sequences of distinct integers.',
  [CO + 'binary_heap.h'], [('heap_up / heap_down / sort', CO + 'binary_heap.h')], 'all element orders incl. ties, up to 4 elements (5 thorough)')
e('E02', 'binary_search_tree and treap behave as sorted containers for every history',
  'For binary_search_tree and treap under every duplicate policy (store, count, ignore), every order of keys (equal keys included) and every sequence of treap priorities: after inserts, erasures by key, by key and count and by position, iteration forwards and backwards, size, count, count_less, find, lower_bound, upper_bound, equal_range, find_kth, rank, iterator arithmetic (const, non-const and reverse) and comparison of whole containers agree with a sorted array; erasing a range returns its end. '
  'Copies, moves, swaps and clears are independent and complete, equal keys keep insertion order, and no node is leaked, freed twice or used after being freed.',
  'Shape depends on key order and random priorities; rotations and deletions with particular neighbours are not reached by the tests\' few sequences.',
  [CO + 'binary_search_tree.h', CO + 'treap.h'], [('insert / erase / rotate / iterators', CO + 'binary_search_tree.h, ' + CO + 'treap.h')], 'all key orders and priorities, up to 3 elements (4 thorough)')
e('E03', 'rope is a faithful sequence and lazy_treap an aggregating sorted container',
  'For every sequence of priorities: rope keeps its elements in sequence order under push_back, insertion and erasure at any position or range, element access, iterator arithmetic, copy, move, swap and comparison (lexicographic). lazy_treap keeps elements sorted, returns for every range the aggregate of its elements in order (for operations that do not commute), also after insertions, erasures, copies and range updates (order-dependent, pushed down to the ends before and aggregated up from them after), and neither leaks nor touches freed nodes.',
  'Tree shape depends on random priorities; tests see one random seed and commutative aggregates.',
  [CO + 'rope.h', CO + 'lazy_treap.h', CO + 'treap.h'], [('rope positions, lazy_treap propagation', CO + 'rope.h, ' + CO + 'lazy_treap.h')], 'all priorities, up to 4 elements')
e('E04', 'link_cut_tree answers path, root, parent and ancestor queries on every forest',
  'For every rooted forest built by link and changed by cut and re-link, with queries interleaved in any way that rearranges the auxiliary trees: depth, find_parent, find_root and find_lca agree with the plain parent array, get returns the aggregate of the path from the root to the node in path order (for operations that do not commute) also after a value was changed, and traverse finds the node at each depth. No memory is leaked or misused.',
  'The splay trees depend on the whole history of accesses; tests run a short history with commutative sums.',
  [CO + 'link_cut_tree.h'], [('access / splay / rotate / link / cut', CO + 'link_cut_tree.h')], 'all forests on up to 5 nodes (6 thorough), all single cuts and re-links')
e('E05', 'directed graphs: containers, closure, SCC, sorting, DFS, DSU and 2-SAT are right',
  'For every directed graph: transitive_closure has exactly the edges joined by a path, tarjan_scc partitions the nodes into mutually reachable sets in topological order, iterative_dfs enters every reachable node once with right root, parent and depth and leaves it once, parents lists its tree; for every acyclic graph transitive_reduction keeps exactly the edges without a longer path and topological_sort and in_degrees are right. '
  'graph edge deletion, node deletion, contraction and deduplication keep exactly the other edges, disjoint_set agrees with connectivity, counts and number of sets under any unions, and sat2 reports satisfiability exactly, respecting preassigned values and returning a satisfying assignment.',
  'There are 4096 digraphs on four nodes alone; tests use one or two drawings.',
  [EG + f for f in ('transitive_closure.h', 'tarjan_scc.h', 'topological_sort.h', 'iterative_dfs.h', 'sat2.h')] + ['include/altruct/structure/graph/graph.h', 'include/altruct/structure/graph/disjoint_set.h'],
  [('graph algorithms on adjacency lists', EG), ('graph container and disjoint sets', 'include/altruct/structure/graph/')], 'all directed graphs on up to 4 nodes (DFS 3), all formulas of 2 clauses over 2 variables')
e('E06', 'undirected graphs: biconnectivity, colourings, shortest paths, spanning trees',
  'For every simple undirected graph: chain_decomposition, cut_edges, cut_vertices, biconnected_components and block_cut_tree agree with separation of nodes by removing a node or an edge, and chromatic_polynomial evaluates to the number of proper colourings. '
  'For every assignment of weights, absent edges included: dijkstra and floyd_warshall return the shortest distances and a neighbour on a shortest path, and prim_spanning_tree returns a minimum spanning tree of the component of the root.',
  'Tests draw one or two graphs with one set of weights each; wrong updates need a particular order of weights.',
  [EG + f for f in ('chain_decomposition.h', 'chromatic_polynomial.h', 'dijkstra.h', 'floyd_warshall.h', 'prim_spanning_tree.h')], [('chain decomposition', EG + 'chain_decomposition.h'), ('relaxation', EG + 'dijkstra.h, ' + EG + 'floyd_warshall.h, ' + EG + 'prim_spanning_tree.h')],
  'all simple graphs on up to 4 nodes (5 thorough), weights from three values')
e('E07', 'ancestors, distances and heavy-light paths are exact on every forest',
  'For every forest: lowest_common_ancestor returns depth, ancestor and distance (none for unconnected nodes). heavy_light_decomposition numbers the nodes so that subtrees and chains are contiguous, follows a heaviest child, reports chain parents, subtree sizes and k-th parents exactly, and path walks visit every node (or edge) of the path exactly once at its right place in the right direction; the given graph keeps its edges and their data.',
  'Shapes of trees and orders of adjacency lists vary; tests use one tree.',
  [EG + 'lowest_common_ancestor.h', EG + 'heavy_light_decomposition.h'], [('euler tour, chains, walk', EG + 'lowest_common_ancestor.h, ' + EG + 'heavy_light_decomposition.h')], 'all forests on up to 5 nodes')
e('E08', 'flows, matchings and assignments are feasible and optimal on every network',
  'For every network: dinic_flow and push_relabel_flow (both selection rules) return a value equal to the minimum cut and a feasible, conserved flow of that value. For every bipartite graph bipartite_matching returns a largest matching made of given edges; for every cost matrix hungarian returns the largest and smallest total cost with a permutation attaining it, leaving the costs unchanged.',
  'Residual arcs and relabelling only matter on particular capacities; tests use one network each.',
  [EG + f for f in ('dinic_flow.h', 'push_relabel_flow.h', 'bipartite_matching.h', 'hungarian.h')], [('augmentation, relabelling, slack updates', EG + 'dinic_flow.h, ' + EG + 'push_relabel_flow.h, ' + EG + 'hungarian.h')],
  'all networks on up to 4 nodes with capacities 0..3, all bipartite graphs 3x3, 3x3 costs from two to four values')
e('E09', 'places and elements have exact lifetimes; the bounded allocator keeps its range',
  'For every sequence of requests and returns: bounded_contiguous_allocator hands out places inside one range that never moves, never one in use, exactly as many as its capacity, and refuses further requests, requests for several places and requests of an empty range. '
  'A copied, converted or assigned allocator has the capacity of the original and a range of its own, a moved one takes the range along, and trees and ropes on it can be copied, moved and exchanged. '
  'Trees, treaps, ropes and link-cut trees hold one place per element, destroy every element exactly once and return every place, also after copies, moves, assignments, erasures and clearing.',
  'Reuse after returns in another order, and copies made while places are in use, have no test.',
  ['include/altruct/structure/container/bounded_contiguous_allocator.h'], [('bounded_contiguous_allocator', 'include/altruct/structure/container/bounded_contiguous_allocator.h'), ('_buy, _free, _free_all, clone_subtree, swap', 'include/altruct/structure/container/binary_search_tree.h'), ('_buy, _free, _destroy', 'include/altruct/structure/container/link_cut_tree.h')],
  'all sequences of 6 (thorough: 8) operations on capacities 1 to 3; fixed scripts of container operations')
EC = 'experimental/include/altruct/structure/container/'
e('F01', 'string structures: KMP, suffix array, Aho-Corasick, palindromes, prefix tree',
  'For every text and pattern: kmp_search reports exactly the matches, suffix_array the sorted suffixes, common prefix lengths and substring comparisons, aho_corasick_trie exactly the occurrences of every word of any dictionary (repeated and nested words included). '
  'palindrome_tree has exactly the distinct palindromic substrings with their lengths, suffix links and occurrence counts, and prefix_tree maps words to numbers and back under any insertions and erasures. '
  'None of them reads outside its input or leaks or double-frees its nodes.',
  'Failure links and suffix ranks only go wrong on strings with particular overlaps; tests use one string each.',
  ['include/altruct/algorithm/search/kmp_search.h'] + [EC + f for f in ('suffix_array.h', 'aho_corasick_trie.h', 'palindrome_tree.h', 'prefix_tree.h')],
  [('failure links, suffix ranks, palindromic suffixes', EC), ('KMP', 'include/altruct/algorithm/search/kmp_search.h')], 'all strings over 2 to 3 letters up to length 7, all dictionaries of up to 3 words, all histories of a few insertions and erasures')
e('F02', 'searching, range minima, sequence helpers and divisor-quotient maps',
  'binary_search returns the first position satisfying a monotone predicate and evaluates it inside the range only, for signed, unsigned, narrow and extreme ranges, and lower and upper bounds agree with counting. direct_rmq returns the first smallest position of every range of every sequence, also from copies. '
  'reversed, take, sorted, filter, transform, run_length, contains, compare and reserve_more behave as documented on every sequence. '
  'sqrt_map and lohi_map behave as maps on their keys under every history of insertions, updates, erasures and lookups, and throw for absent keys.',
  'Off-by-one errors and stale cells depend on the history or on the last element; tests use one sequence or a fixed order of operations.',
  ['include/altruct/algorithm/search/binary_search.h', 'include/altruct/algorithm/collections/collections.h', EC + 'range_minimum_query.h', CO + 'sqrt_map.h', CO + 'lohi_map.h'],
  [('binary search', 'include/altruct/algorithm/search/binary_search.h'), ('block trees and sparse table', EC + 'range_minimum_query.h'), ('two-part tables', CO + 'sqrt_map.h, ' + CO + 'lohi_map.h')],
  'all ranges of up to 7 positions, all sequences of up to 12 elements (two to three values) or 5 elements in any order, all histories of 3 operations')
e('F03', 'polynomial hashes of pieces depend on the text of the piece only',
  'polynomial_hash1 and polynomial_hash (one or more bases) add, subtract, multiply, shift by powers of the base and compare like residues modulo M, for hashes as well as for scalars, in place and not; shifts up and down undo each other, whatever exponents were used before. '
  'cumulative_hash gives for every text and every range the hash of exactly that piece, so equal pieces have equal hashes wherever they stand, also after push_back, pop_back, copies and a second assign.',
  'The tables of powers grow with the history of calls and are shared by all objects; tests compare a few hashes with values computed by the same code.',
  ['include/altruct/algorithm/hash/polynomial_hash.h'], [('add, sub_shr, ensure; cumulative_hash::get', 'include/altruct/algorithm/hash/polynomial_hash.h')], 'all texts up to 3 letters over 3 symbols, boundary values of the residues, exponents up to 9')
p('B03', 'bit_vector operations act bit by bit, whatever the word size and alignment',
  'For every contents, size, range and shift count of the listed sizes and every word type: construction, access (through proxies too, including v[i] = v[j]), set, flip, resize, reserve, push and pop, shifts, logical operators between vectors of different sizes, reverse, rotate, swap of ranges, apply, scan, compare, the order operators and hamming_distance do to the bits of the given range exactly what they do to a plain sequence of bits, and nothing to any other bit. '
  'Bits past the end stay zero and no word outside the vector is accessed, even when the ranges overlap or belong to one vector.',
  'Word boundaries give several cases per operation and alignment; tests use one random vector, and shifts are not tested at all.',
  [CO + 'bit_vector.h'], [('word-parallel operations', CO + 'bit_vector.h')], 'all contents; sizes up to about three words, all ranges and alignments (a listed selection for comparisons and two-range operations)', technique=BV,
  note=BV_NOTE + ' Bounded in the listed sizes; std::vector and std::string are replaced by arrays with checked indices.', level='other')

p('B04', 'GF(2) vectors, nimbers and range reduction: exact on every bit pattern',
  'galois_field_2 operators act on every bit as GF(2) arithmetic (sum is exclusive or, product is and, dividing by one bits undoes multiplying). nimber arithmetic is the field of nimbers: sums are exclusive or, products follow the rule for Fermat powers, every non-zero nimber times its inverse is one, and the square of the square root is the value. integer_to_range always lands in the requested range and keeps values that already fit; biggest_multiple is the largest multiple of the width that fits the word.',
  'Nimber products combine every pair of bits through recursion and a memo table; tests use a small multiplication table, so a wrong level or a carry between levels above it stays invisible.',
  [SM + 'galois_field_2.h', SM + 'nimber.h', 'include/altruct/algorithm/random/random.h'], [('galois_field_2 operators', SM + 'galois_field_2.h'), ('nimber mul, inverse, sqrt, lift', SM + 'nimber.h'), ('integer_to_range, biggest_multiple', 'include/altruct/algorithm/random/random.h')],
  'all words of 8 to 64 bits (nimber: all 8- and 16-bit products, all 8-bit inverses, products of powers of two by all 32-bit words)', technique=BV, note=BV_NOTE + ' Nimber square roots 8 and 16 bits, inverses 8 bits; the memo table starts empty.', level='other')
p('B05', 'double_int: wide integers built from words behave as two\'s complement',
  'For double_int over any word, nested to any depth: sums, differences, negation, increments, full and truncated products, comparisons (signed and unsigned), bitwise operators, shifts by any non-negative count and leading-zero counts give exactly the two\'s-complement result of the total width, carries and borrows in and out included. In-place operators agree with the binary ones, postfix increment changes its operand and returns the old value.',
  'The repository\'s test of this header is commented out; carries, cross terms of the three-product multiplication and shift counts at word boundaries need all bit patterns.',
  ['experimental/include/altruct/structure/math/double_int.h'], [('double_int and prim_int operators', 'experimental/include/altruct/structure/math/double_int.h')],
  'all operands: sums, orders, shifts for 8 to 64 bits in 2 to 8 words; products of 8-bit values in 2 and 4 words', technique=BV, note=BV_NOTE + ' Words: the repository\'s prim_int of 8, 16 and 32 bits, and model words of 1, 2 and 4 bits. Division is documented as unfinished (TODO) and not claimed; integer arguments must fit one word.', level='other')
IO = 'include/altruct/io/'
p('H01', 'readers deliver every byte once and in order, however the source is chunked',
  'For every content (bytes above 127 and NUL included), every way the source splits it into pieces and every buffer size: string, file and buffered readers and fast_read return each byte exactly once, in order and as 0..255, report the end as -1 and raise the failure flag exactly when asked for more than there is. '
  'Single characters, unread, blocks, reserve, skip and raw data can be mixed in any order without losing, repeating or inventing a character, and data is terminated and stays inside the buffer. '
  'Lines, words, signs and integers (least value included) are parsed as their decimal meaning and leave the following character in place.',
  'Tests read plain ASCII text through one buffer size and one chunking; refills in the middle of a token or at an unread, high bytes and least integers are schedules and inputs they never reach.',
  [IO + 'reader.h', IO + 'fast_io.h'], [('refill / reserve / read_char / unread_char', IO + 'reader.h, ' + IO + 'fast_io.h'), ('token parsing', IO + 'reader.h, ' + IO + 'fast_io.h')],
  'all contents over representative bytes up to 4 characters, all chunkings, buffer sizes 1 to 5, all mixes of 3 operations', over=('inputs', 'schedules', 'histories'), technique=GL,
  note=GR_NOTE + ' C library calls (fread, fgetc, strlen) are stand-ins; std::string is the real one.', level='other')
p('H02', 'writers pass on every byte once and in order, for every buffer size',
  'For every mix of characters, blocks, strings (NUL and high bytes included), raw buffer use, reserve and flush, and every buffer size: what reaches the sink of a string, file or buffered writer or fast_write is exactly what was written, once, in order, and nothing beyond the capacity of a string_writer or of the buffer is touched. '
  'Integers are written in decimal with sign and minimal length for every value of the type, the least included. '
  'Flushing and destroying a writer hand over everything, moving one keeps what it holds, and two writers never share state.',
  'Flush points depend on the sizes and order of writes; tests use one sequence and one buffer size and no extreme integers.',
  [IO + 'writer.h', IO + 'fast_io.h'], [('write / reserve / flush', IO + 'writer.h, ' + IO + 'fast_io.h'), ('write_integral_number', IO + 'writer.h, ' + IO + 'fast_io.h')],
  'all mixes of 3 operations, buffer sizes 1 to 4; all 8-bit integers, wider ones near zero and at the limits', over=('inputs', 'histories'), technique=GL,
  note=GR_NOTE + ' C library calls (fwrite, fputc, fflush, strlen) are stand-ins; std::string is the real one. Floating-point output is not claimed.', level='other')


def j(pid, title, statement, why, files, mech, text, note=''):
    p(pid, title, statement, why, files, mech, text, technique=GL, note=GR_NOTE + note, level='other')


MA = 'include/altruct/algorithm/math/'
j('J01', 'permutations, combinations, partitions and Farey neighbours are exact',
  'For permutations of every size, however written as cycles: conversion to and from lines, products, inverses, quotients, powers of every (negative) exponent, roots and application give the permutation the definition prescribes, and ==, < compare the permutations, not the way they are written. '
  'next_combination and next_partition visit every combination (repeated elements included) and partition once, in order, then report the end; nth_permutation gives the n-th in order. '
  'Range reductions give the least, greatest and least absent elements; Farey neighbours are the next fractions of bounded denominator above and below; repeating decimals reproduce the fraction.',
  'Tests use a few hand-picked permutations and multisets; two spellings of one permutation, repeated elements and negative fractions occur in none of them.',
  [SM + 'permutation.h', MA + 'combinatorics.h', MA + 'reduce.h', MA + 'fractions.h'], [('permutation', SM + 'permutation.h'), ('next_combination, next_partition, nth_permutation', MA + 'combinatorics.h'), ('reduce_*', MA + 'reduce.h'), ('farey_neighbour, repeating_decimal', MA + 'fractions.h')],
  'all permutations of up to 5 elements and small exponents, all multisets of up to 5 small elements, all fractions with small terms')
j('J02', 'expression parsing: precedence, associativity, calls and evaluation are right',
  'For every well-formed infix token sequence over operands, binary, prefix and postfix operators, parentheses, function calls and separators, and for every combination of precedences and associativities of the operators: to_postfix yields exactly the postfix sequence that the grammar prescribes, with the right number of arguments of every call, an unparenthesised prefix operator never stealing or losing an operand. '
  'evaluate_postfix applies every function to its own arguments in order; the operation tables for general, integer and floating values pair every operator with its own function, arity and precedence.',
  'Tests parse a dozen expressions; the interplay of precedences, associativity and prefix operators needs all sequences over all precedence settings.',
  ['include/altruct/algorithm/parser/shunting_yard.h'], [('shunting_yard to_postfix, evaluate_postfix, operator tables', 'include/altruct/algorithm/parser/shunting_yard.h')],
  'all well-formed sequences of up to 7 tokens, all orders of three precedences', ' Elementary functions of the floating-point table are not interpreted.')
j('J03', 'sieves, arithmetic-function tables and factorizations are exact and in bounds',
  'For every limit n, 0 and 1 included, the sieves fill exactly the first n entries of their tables with what the definitions say (primes, prime counts, Euler phi, Moebius mu, numbers of prime factors, divisor counts and sums, biggest and smallest factors) and touch nothing outside tables of the documented size; segmented sieves do the same for every segment. '
  'factor_integer yields each prime once with its exponent; divisors, phi, lambda, sigma and signed squarefree divisors computed from a factorization are those of the number. The primality tests decide primality, Pollard\'s method splits composites and general factorization splits completely on every number checked; numbers over allowed primes are each enumerated once, fractions of products are reduced to lowest terms, digit conversions are inverse to each other.',
  'Tests compare a few fixed limits; accesses one past a table, empty segments and limits below two go unnoticed without exact-size tables.',
  ['src/algorithm/math/primes.cpp', MA + 'primes.h', MA + 'factorization.h'], [('sieves', 'src/algorithm/math/primes.cpp'), ('factor_integer, divisors, euler_phi, carmichael_lambda', MA + 'factorization.h, src/algorithm/math/primes.cpp')],
  'limits 0 to 37 at every size of interest, all segments within small windows, all numbers to 36; primality and general factorization for all small numbers, published pseudoprimes to the used bases and primes next to every threshold')
j('J04', 'counting functions equal what they count',
  'Stirling numbers of both kinds (tables, rows, columns, single terms), numbers of partitions and of partitions into distinct parts, the Euler function series and prime-power sums equal the number of objects, counted one by one, for every size; prime counting (all variants, moduli 1 and 3 mod 4 included) and the Mertens function (sieved, odd, even, at every quotient n/k) equal the sums over a sieve for every argument. '
  'Prime and factorial holders return the same primes, counts, factorials and inverses whatever the order and size of the requests made before.',
  'Tests compare single well-known values; empty tables, arguments around squares and every grown-then-shrunk request order need all arguments.',
  [MA + 'counting.h', MA + 'prime_counting.h', MA + 'prime_pi.h', MA + 'mertens.h', SM + 'prime_holder.h', SM + 'factorial_holder.h'], [('stirling, partitions, euler_function', MA + 'counting.h'), ('prime_pi, prime_power_sum_sqrt', MA + 'prime_counting.h, ' + MA + 'prime_pi.h'), ('mertens', MA + 'mertens.h'), ('prime_holder, factorial_holder', SM)],
  'table sizes and arguments up to fixed small limits, every one of them')
j('J05', 'modular equations: remainders, roots, orders, logarithms are complete and right',
  'For every modulus and right-hand side: the Chinese remainder theorem (moduli not coprime included) gives the combined residue or reports that there is none, Garner gives the mixed-radix number, the Jacobi symbol is right for negative numbers too. '
  'Square roots modulo primes, prime powers (Hensel) and composites, k-th roots and roots of unity are all of them, each once; multiplicative orders, primitive roots and discrete logarithms satisfy their defining equations and are least where documented.',
  'Tests use a few moduli; non-coprime congruences, residues sharing a factor with the modulus and order of the inputs matter only for particular combinations.',
  [MA + 'modulos.h', 'src/algorithm/math/modulos.cpp'], [('chinese_remainder, garner, jacobi, sqrt_mod, primitive_root, discrete_log', MA + 'modulos.h, src/algorithm/math/modulos.cpp')],
  'all moduli below fixed small limits and all residues')
j('J06', 'factorials, binomials and multinomials by primes and modulo prime powers',
  'For every n, k and prime (power): the exponent of a prime in a factorial, binomial or multinomial coefficient, and the factorization of these numbers into primes, are those of the number itself. '
  'Factorials with the multiples of p removed, binomials and multinomials modulo p^k (definition, interpolated and tabulated variants) agree with each other and with the exact number reduced modulo p^k.',
  'Tests compare a few arguments; the variants switch algorithm at multiples of p and p^k, where one-off errors hide.',
  [MA + 'comb_primes.h', MA + 'comb_mod_pp.h'], [('factorial_prime_exponent, binomial, multinomial', MA + 'comb_primes.h'), ('factorial_mod_pp, binomial_mod_pp', MA + 'comb_mod_pp.h')],
  'all arguments up to fixed small limits and small prime powers')
j('J07', 'continued fractions, lattice points, sums of squares and Pell equations',
  'Continued fractions are canonical and their convergents satisfy the determinant identity and end with the number; convergents of square roots are best approximations with the first denominator above the bound; the lattice point closest to a line and the minimum of a floor ladder over an interval are attained and beaten by no other point. '
  'Representations as sums of two squares are all of them, each once, and their count is right; solutions of x^2 - D y^2 = N (positive x, y) up to a bound are all of them, each once, including classes without a small positive representative, and so are the least solutions of every class and the listed units; sums of two squares of all primes in a table agree with the single ones.',
  'Tests use a few equations; missing solution classes and ties on interval borders show only when everything else in range is enumerated too.',
  [MA + 'convergents.h', MA + 'squares_r.h', MA + 'pell.h'], [('continued_fraction, convergents, line_closest_lattice_point', MA + 'convergents.h'), ('cornacchia, squares_r', MA + 'squares_r.h'), ('pell', MA + 'pell.h')],
  'fixed sets of coefficients, all offsets and intervals within small windows, solutions up to fixed bounds')
j('J08', 'Pythagorean, Eisenstein and almost-Pythagorean triples: all, each once',
  'For every limit: the Pythagorean, 60 and 120 degree Eisenstein and almost-Pythagorean triples up to the limit (all, or primitive ones only) are all generated, each once, with their sides in the documented order; likewise all triples with a given leg. '
  'For a^2 + b^2 + k = c^2 the generators are primitive, and the tree grown from them holds every primitive triple up to the limit once (apart from the degenerate ones of k = 0 and 1).',
  'A triple that is missing or listed twice shows only against an independent enumeration at the right limit; tests compare one limit.',
  [MA + 'triples.h'], [('pythagorean_triples, eisenstein_triples60/120, almost_pythagorean_triples, generate_pythagorean_triples', MA + 'triples.h')],
  'limits up to 50, legs up to 30, k up to 12')
j('J09', 'integer quotients, roots, powers and common divisors match their definitions',
  'For every argument of either sign: div_floor, div_ceil and div_round are the exact quotient rounded as named (halves away from zero), multiple is the smallest sufficient multiple, and gcd, gcd_ex (coefficients included, whichever outputs are requested), gcd_max and lcm satisfy their defining equations. '
  'Square and cube roots (rounded towards or away from zero, for every integer type and for user-defined integers) are exact next to perfect powers too, perfect squares and cubes are recognised, and powers, absolute value, minimum, maximum and bounds are as defined.',
  'Nearly every module builds on these; rounding shows only for particular signs and remainders, and a floating-point root is wrong only next to large perfect powers.',
  [MA + 'base.h', 'src/algorithm/math/base.cpp'], [('div_*, gcd*, lcm, powT, generic roots', MA + 'base.h'), ('isqrt, isqrtc, icbrt, icbrtc', 'src/algorithm/math/base.cpp')],
  'all pairs of small arguments of either sign, the ends of the types, neighbours of perfect powers of every magnitude')
j('J10', 'random generators produce the published sequences and stay in range',
  'For every seeding: the Mersenne twister and the xorshift64* and xorshift1024* generators produce the word sequences of their published recurrences; copies, assigned and loaded generators continue where the original stood and on their own. '
  'Integers and reals drawn from a range stay inside it, open ends excluded, consume the same sequence and, where promised uniform, reject the incomplete last block.',
  'A slip in the refill across the end of the state, or in a saved state, first shows after hundreds of draws from a particular position; tests compare averages and a few values.',
  ['include/altruct/algorithm/random/mersenne_twister.h', 'include/altruct/algorithm/random/xorshift.h', 'include/altruct/algorithm/random/random.h'],
  [('mtrand', 'include/altruct/algorithm/random/mersenne_twister.h'), ('xorshift_64star, xorshift_1024star', 'include/altruct/algorithm/random/xorshift.h')],
  'fixed seeds, up to 1300 draws, copies at the ends of the state, ranges at the ends of the word', note='only the seeds and lengths named are enumerated')
j('D09', 'modular products of polynomials are exact in every kernel',
  'For every modulus up to 32 bits, prime or not, fixed or chosen at run time: the product of two polynomials over integers modulo M equals the defining sums, whether computed term by term, by splitting, by floating-point transforms of two or three blocks, or by transforms modulo two primes. '
  'Every kernel writes exactly the requested coefficients.',
  'Rounding in the transforms and the recombination of blocks fail for large moduli and particular lengths only; tests multiply a few polynomials modulo one prime.',
  [MA + 'polynom_mod.h', MA + 'fft.h', 'include/altruct/structure/math/root_wrapper.h'], [('polynom_mul<modulo>', MA + 'polynom_mod.h'), ('fft, convolution', MA + 'fft.h')],
  'six moduli, largest and generated coefficients, results up to 31 terms (thorough: up to the switch-over between kernels)', note='floating-point arithmetic and the trigonometric functions are folded at compile time as on this host')

j('J11', 'monotonic search and real zeros of polynomials find what is there',
  'For a functor monotonic in either direction on an interval and any value it attains there, monotonic_search returns an argument inside the interval with that value, up to the given tolerances. '
  'For every polynomial: find_zeros returns its real zeros within the window in order, multiple ones too, and nothing that is no zero.',
  'Zeros at the ends of an interval, values other than zero and multiple zeros take paths the single tested cubic does not.',
  [MA + 'polynoms.h'], [('monotonic_search, find_zeros', MA + 'polynoms.h')],
  'linear and cubic functors on all intervals within [-3, 6] with quarter steps; polynomials built from up to five zeros', note='floating-point arithmetic is folded at compile time, to fixed tolerances')

AST = 'rules over the type-checked syntax tree (custom libTooling lint), no execution'
ALL = ['include/altruct', 'experimental/include/altruct', 'src/algorithm/math', 'src/io']
p('G01', 'results do not depend on hidden state left by earlier calls',
  'What a library function returns is determined by its arguments and the objects it is given: no header or source keeps a mutable object of static storage duration, other than the documented class-wide parameters (modulus, series order, tolerance, hash parameters), the standard streams, the operator tables and the memo tables that are only ever extended. '
  'No function-local static is initialised from the arguments of the call that happens to come first. Hence calls with different arguments, element types, orders or threads do not influence each other.',
  'A test sees one history of calls per process; a static buffer or cached first argument gives right results until a second user, type or thread comes along.',
  ALL, [('polynomial_hash, modulo, quadratic, series static storage', 'include/altruct/structure'), ('memo tables', MA + 'prime_pi.h, include/altruct/structure/math/nimber.h')],
  'all histories of calls; every variable of static storage duration in every file', over=('histories', 'schedules'), technique=AST,
  note='Decides, for every variable of static storage duration, whether it can change or remember a call. The listed exceptions are trusted by name; their own correctness is the subject of other properties (the memo tables of J04, B04).', level='other')
p('G02', 'every piece of memory has one owner, also after copies and moves',
  'A class whose destructor releases memory, and a class that keeps pointers into itself, never ends up copied memberwise: its copy operations are written out or deleted and give the copy memory of its own, and a move leaves the source without it. '
  'Classes that allocate have a destructor that releases.',
  'Double frees and dangling pointers after copying appear only in programs that copy or move the object, and often only much later.',
  ALL, [('destructors and copy operations', 'include/altruct/io/fast_io.h, reader.h, writer.h; include/altruct/structure/container/binary_search_tree.h; include/altruct/structure/graph/link_cut_tree.h; include/altruct/algorithm/random/mersenne_twister.h')],
  'all programs that copy or move an object of the library; every class', over=('programs', 'histories'), technique=AST,
  note='Per class: destructor closure, copy and move operations, self-pointing members. What the written-out copies do is decided by E02, E04, F01, H01 and H02 for their classes.', level='other')
p('G03', 'integers given as 64 bits are computed in 64 bits',
  'When an integer-generic function or class (number theory, sums over divisors, modular arithmetic, fractions, recurrences, Pell, combinatorics modulo prime powers, sqrt_map) is used with 64-bit integers it compiles, and no argument, local variable, return value, table index or template parameter on the way silently drops to 32 bits, nor is a product of two 32-bit values computed in 32 bits before being widened. '
  'Narrowings remain only where the operands themselves bound the value (remainders by a 32-bit modulus, sizes) or an explicit cast of a root or quotient of the argument states the bound.',
  'The difference appears only for arguments above 2^31, which tests avoid because they are slow to check.',
  [MA[:-1], 'include/altruct/structure/math', 'include/altruct/structure/container/sqrt_map.h', 'src/algorithm/math'], [('integral conversions in instantiated bodies', MA)],
  'all argument values above 2^31 of every instantiated function', technique=AST.replace('syntax tree', 'instantiated syntax tree'),
  note='Flags every lossy integral conversion (implicit, or explicit outside a short list of bounded ones) in function bodies instantiated with int64_t. Overflow of 64-bit arithmetic itself is not claimed.', level='other')
p('G04', 'every header compiles on its own and may be used from several units',
  'Each header of the library can be the first and only one a program includes, with either standard library and in C++14 and C++17 mode; every name a template uses without qualification is declared by what the header itself includes. '
  'No header defines a function or variable that two translation units of one program could not share, or imports a namespace into its users.',
  'The test files include headers in one order, after others, into one program with one standard library.',
  ALL[:2], [('#include lists and definitions', 'include/altruct, experimental/include/altruct')],
  'all headers, each alone, in four compiler configurations', over=('programs', 'configurations'), technique=AST,
  note='The compiler front end itself decides that a header parses alone; the lint decides unqualified dependent names and definitions that break the one-definition rule. C++20 is not claimed (collections.h uses std::result_of).', level='other')
p('G05', 'parallel_execute runs every job once, under whatever scheduling',
  'For every number of threads and jobs and every interleaving: each job of the provider is executed exactly once by a worker owned by the executing thread, its result is collected exactly once together with its own job, and all threads have ended when parallel_execute returns. '
  'The job provider, worker provider and result collector are each only ever called under one and the same mutex, next_job only after has_next_job within one critical section, no job executes and no mutex is acquired while another mutex is held, so neither races nor deadlocks are possible. '
  'LOCK runs its body once and releases however it is left; range_job_provider splits a range into consecutive pieces.',
  'The concurrency test is not among the reliable ones, and a schedule that breaks check-then-act or shares a job between threads is rare on any machine.',
  ['include/altruct/concurrency/concurrency.h'], [('parallel_execute, LOCK, range_job_provider, add_result_collector', 'include/altruct/concurrency/concurrency.h')],
  'all interleavings: lock discipline per call; nested schedules of up to 3 threads and 3 jobs', over=('schedules', 'inputs'), technique=GL,
  note=GR_NOTE + ' std::thread, mutex and the lock classes are stand-ins with free scheduling choices. The lock discipline (same mutex for every call on an object, one critical section per fetched job) covers all schedules; the job accounting is decided on schedules in which a thread that starts while another holds no mutex runs to its end.', level='other')
