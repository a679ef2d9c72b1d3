C = 'src/include/containers/'
PROPS = [
 dict(id='C01', title='Container accessors stop on invalid arguments and only then',
  statement='For every container state and every argument, an element access, removal or iterator query on a sequence, queue, stack, map, multimap, set or multiset that names an element that is not there (an index outside the container, an empty container, a missing key or value) ends the program with an error message and a failing exit status before any element is read or written. Every access that names an existing element returns normally with that element. No call reads or writes outside the elements the container holds.',
  over=['inputs', 'histories'],
  quant='every container content and size, every index including negative and boundary values, every key',
  why='The death tests try two or three indexes on one container of fixed size; an off-by-one at the last element, a guard dropped from one overload (const, rvalue) or a guard with the wrong side of the boundary is invisible to them.',
  files=[C + f for f in ('List.h', 'Vector.h', 'Queue.h', 'Stack.h', 'Map.h', 'MultiMap.h', 'Set.h', 'MultiSet.h')] + ['src/include/utils/error.h'],
  mech=[('boundary and emptiness checks before each element access', C + 'List.h, Vector.h, Queue.h, Stack.h'),
        ('presence check before get/find/erase', C + 'Map.h, MultiMap.h, MultiSet.h'),
        ('error(): message and exit(EXIT_FAILURE)', 'src/include/utils/error.h')],
  note='Holds for every content, size up to INT_MAX and argument, for int and std::string elements; assumes the standard library behaves as documented and that iterators are not used after invalidation.'),
 dict(id='C02', title='Sequence containers hold exactly the elements put in, in order',
  statement='After any operation on a list, vector, queue or stack, its contents are exactly those the operation is documented to produce from its previous contents: the named elements are added, removed, replaced, sorted, reversed or joined, and every other element keeps its value and position. Sizes, emptiness and conversions to and from standard containers agree with those contents. Copies are independent of their source.',
  over=['inputs', 'histories'],
  quant='every initial content and size, every element value, index and count, and two-step histories of operations',
  why='Each test runs one operation on one literal list and compares one result; changes that show only for another size, for the last or first position, for aliased operands or after a preceding operation pass them.',
  files=[C + f for f in ('List.h', 'Vector.h', 'Queue.h', 'Stack.h')],
  mech=[('delegation to the wrapped standard container', C + 'List.h, Vector.h, Queue.h, Stack.h'),
        ('clear() draining loops', C + 'Queue.h, Stack.h'),
        ('shuffle/merge/joint element movement', C + 'List.h, Vector.h')],
  note='The final contents are compared with the contents computed by the documented operation on the standard container, for every content and size; element types int and std::string.'),
 dict(id='C03', title='Maps and sets hold exactly the entries stored',
  statement='After any operation on a map, multimap, set or multiset its entries are exactly those the operation is documented to produce from its previous entries: storing under a key changes that key only, removal removes all entries of that key and nothing else, lookups and counts report exactly what is stored and change nothing. Unique containers never hold two entries of one key. Copies are independent of their source.',
  over=['inputs', 'histories'],
  quant='every initial content, key and value, present or absent, and two-step histories of operations',
  why='The tests store a few literal keys; they cannot quantify over which key is present, over duplicates, or over the entries that must not change.',
  files=[C + f for f in ('Map.h', 'MultiMap.h', 'Set.h', 'MultiSet.h')],
  mech=[('delegation to the wrapped standard container', C + 'Map.h, MultiMap.h, Set.h, MultiSet.h')],
  note='Entries are compared with those of the standard container after the documented operation, for every content and key; key and value types int and std::string.'),
 dict(id='C04', title='Container comparison operators agree with the contents',
  statement='For any two containers of the same kind, each of ==, !=, <, <=, > and >= gives the result the standard container gives on the same contents. The six results are therefore mutually consistent, and comparing changes neither operand.',
  over=['inputs'],
  quant='every pair of contents, including equal contents and a container compared with itself',
  why='The tests compare one or two pairs of literals; a swapped or strict/non-strict operator differs only on pairs (equal contents, prefix, reversed order) they do not try.',
  files=[C + f for f in ('List.h', 'Vector.h', 'Queue.h', 'Stack.h', 'Map.h', 'MultiMap.h', 'Set.h', 'MultiSet.h')],
  mech=[('comparison operators over the wrapped container', C + '*.h')],
  note='Lexicographic order of the contents is a three-way value; each operator is compared with the standard one over every outcome.'),
 dict(id='C05', title='Random APIs accept exactly their documented parameter ranges',
  statement='Constructing any distribution, or drawing from a generator or a random function over a range, with parameters outside the documented domain (a probability outside [0, 1], a non-positive shape, scale, rate, deviation or degree of freedom, a negative trial count, an empty or reversed range) ends the program with an error message and a failing exit status. With parameters inside the domain, boundary values included, the object is built or the draw returns, and the accessors report exactly the parameters given. This holds whether the generator is owned, shared or supplied by the caller.',
  over=['inputs'],
  quant='every parameter value of every distribution, generator method and random function, with and without a caller-supplied generator',
  why='The death tests use one bad literal for some constructors; the boundary (0, 1, equal bounds, extreme integers) and the overloads taking a generator are not tried, and no test proves that all valid parameters are accepted.',
  files=['src/include/random/' + f for f in ('Random.h', 'random_functions.h', 'BernoulliDistribution.h', 'BinomialDistribution.h', 'GammaDistribution.h', 'ChiSquaredDistribution.h', 'ExponentialDistribution.h', 'NegativeBinomialDistribution.h', 'GeometricDistribution.h', 'NormalDistribution.h', 'PoissonDistribution.h', 'StudentTDistribution.h', 'UniformDistribution.h', 'UniformIntDistribution.h')] + ['src/random/Random.cpp'],
  mech=[('parameter guards in each constructor', 'src/random/*Distribution.cpp'), ('range guards of the draws', 'src/random/Random.cpp'),
        ('error(): message and exit(EXIT_FAILURE)', 'src/include/utils/error.h')],
  note='All parameter values; doubles are treated as reals (NaN excluded).'),
 dict(id='C06', title='Math functions stop outside their domain and only there',
  statement='factorial, permutation, binomial, binaryPow, genericBinaryPow and Fraction construction and division end the program with an error message and a failing exit status exactly when an argument is outside the documented domain: a negative count or exponent, r larger than n, a zero denominator or divisor, a non-positive exponent for a type without a known unit. For every argument in the domain, zero and equal arguments included, they return without dividing by zero or accessing memory they do not own. gcd and lcm never divide by zero on arguments in their domain.',
  over=['inputs'],
  quant='every integer argument of every listed function and of its int and long instantiations',
  why='The tests call each function with a few small literals and one bad literal; boundary arguments (0, r equal to n, exponent 0) and the other template instantiations are not covered.',
  files=['src/include/math_utils/math_functions.h', 'src/math_utils/binary_pow.cpp', 'src/include/math_utils/Fraction.h'],
  mech=[('argument guards', 'src/include/math_utils/math_functions.h'), ('zero denominator guard', 'src/include/math_utils/Fraction.h')],
  note='All integer arguments; wrap-around of a result too large for its type is not excluded.'),
 dict(id='C07', title='Draws depend only on the generator state and the parameters',
  statement='Two generators with the same seed give the same sequence of draws, whatever other generators, distributions or random functions do in between. setSeed restarts the sequence of that seed, and a copied generator continues independently with the same draws. Two distributions with equal parameters, each on a generator of the same seed, give the same samples; a distribution draws only from the generator it was given, and keeps nothing outside itself and that generator between samples.',
  over=['inputs', 'histories'],
  quant='every seed (zero and negative included), every parameter in the documented domain, interleaved draws from other generators and distributions',
  why='The tests draw from one seeded generator at a time; a static variable, a second hidden generator or a draw from the C library still gives plausible numbers in every single-generator test.',
  files=['src/include/random/Random.h', 'src/random/Random.cpp', 'src/include/random/Distribution.h', 'src/random/StudentTDistribution.cpp', 'src/include/random/ChiSquaredDistribution.h', 'src/random/NormalDistribution.cpp', 'src/random/GammaDistribution.cpp'],
  mech=[('seeding of the wrapped engine', 'src/random/Random.cpp'), ('generator pointer held by each distribution', 'src/include/random/*Distribution.h'), ('nested distributions drawing from the outer generator', 'src/random/StudentTDistribution.cpp, src/include/random/ChiSquaredDistribution.h')],
  note='Relational: two runs over symbolic seeds and parameters are compared draw by draw; additionally no draw may read a mutable global or another entropy source. The quality of the standard engine is assumed.'),
 dict(id='C08', title='Distributions release exactly the generators they created',
  statement='A distribution built without a generator creates one and frees it exactly once, when it is destroyed or when another generator is set. A generator supplied by the caller is never freed or changed by construction, replacement or destruction, and is used for the draws from then on. After any sequence of construction, setRandomGenerator calls, draws and destruction nothing is leaked, freed twice or used after being freed.',
  over=['histories', 'inputs'],
  quant='every distribution class, every parameter in its domain, own and supplied generators, repeated replacement by the same or another generator',
  why='The tests neither check for leaks nor replace generators more than once; a missing or doubled delete on one path changes no test result.',
  files=['src/include/random/Distribution.h'] + ['src/include/random/%sDistribution.h' % d for d in ('Bernoulli', 'Binomial', 'ChiSquared', 'Exponential', 'Gamma', 'Geometric', 'NegativeBinomial', 'Normal', 'Poisson', 'StudentT', 'Uniform', 'UniformInt')],
  mech=[('ownership flag and conditional delete', 'src/include/random/*.h'), ('setRandomGenerator', 'src/include/random/*.h')],
  note='Ownership of every heap object is tracked through all paths of the lifetime scripts; longer scripts than those listed follow the same code but are not enumerated.'),
 dict(id='C09', title='Every sample lies in the documented range',
  statement='nextInt(min, max), nextDouble(min, max) and the corresponding functions and uniform distributions return a value not below min and strictly below max, for every generator state; an empty double range gives its bound. A Bernoulli sample with probability 0 is false and with 1 is true; a binomial sample lies in 0..n and is 0 or n for probability 0 or 1; Poisson, negative binomial and geometric samples are not negative, and are 0 where the parameter is 1; gamma, chi-squared and exponential samples are not negative. Sampling accesses no memory outside the distribution and takes no square root of a negative number.',
  over=['inputs', 'histories'],
  quant='every generator state, every parameter in the documented domain, first and following samples',
  why='The tests draw some hundreds of samples with one seed and one parameter set; extreme draws, wide integer ranges and edge parameters are not reached.',
  files=['src/random/Random.cpp'] + ['src/random/%sDistribution.cpp' % d for d in ('Binomial', 'Gamma', 'NegativeBinomial', 'Normal', 'Poisson', 'StudentT')] + ['src/include/random/UniformDistribution.h', 'src/include/random/UniformIntDistribution.h', 'src/include/random/BernoulliDistribution.h', 'src/include/random/ExponentialDistribution.h'],
  mech=[('scaling of the raw word into the range', 'src/random/Random.cpp'), ('lookup and accumulation loops', 'src/random/*Distribution.cpp')],
  note='The raw engine word is an arbitrary 64-bit value. Arithmetic on doubles is exact in the analysis except that a sum or product may round up to its bound in nextDouble; termination of the rejection loops is not claimed.'),
 dict(id='C15', title='gcd, lcm and Fraction arithmetic are exact and canonical',
  statement='gcd divides both arguments and every common divisor divides it; lcm times gcd is the product. A Fraction built from any numerator and non-zero denominator has the value asked for, a positive denominator and no common factor. Every arithmetic operator on fractions, in its plain, compound, int-operand and self-operand forms, gives the mathematical result and leaves its other operands unchanged, and every comparison agrees with the order of the values.',
  over=['inputs'],
  quant='every pair of fractions and integers whose cross products fit in int',
  why='The tests check single literal computations; a wrong sign, a missing reduction or a swapped operand in one of the operator forms shows only for other values or other forms.',
  files=['src/include/math_utils/Fraction.h', 'src/include/math_utils/math_functions.h'],
  mech=[('reduction by gcd and sign normalisation', 'src/include/math_utils/Fraction.h'), ('Euclidean algorithm', 'src/include/math_utils/math_functions.h')],
  note='Proved for all operands in the range (terms below 10000 for operators, 30000 for construction) with an algebraic gcd domain.'),
 dict(id='C16', title='Sums, statistics, powers and factorials follow their definitions',
  statement='For every array or container of numbers, sum is the sum of the elements (each mapped when a function is given), mean is the sum over the count, variance and sample_variance are the mean squared deviation with divisors n and n - 1, and the standard deviations are their square roots, up to floating-point rounding. factorial, permutation and binomial are the numbers in their definitions, binaryPow and genericBinaryPow the repeated product. None of them modifies its input, reads outside it, or overflows an intermediate integer while the true result is representable as declared.',
  over=['inputs'],
  quant='every array content and size, every container content, every base and exponent in the representable range',
  why='The tests compute one or two small data sets; a wrong divisor for some sizes, an element skipped at an end, an accumulator of the wrong type or a special case for one base passes them.',
  files=['src/math_utils/statistics.cpp', 'src/include/math_utils/math_functions.h', 'src/math_utils/binary_pow.cpp'],
  mech=[('accumulation loops', 'src/math_utils/statistics.cpp, src/include/math_utils/math_functions.h'), ('repeated squaring', 'src/math_utils/binary_pow.cpp, src/include/math_utils/math_functions.h')],
  note='All contents and sizes up to 10^6; doubles are treated as reals, so rounding and numerical stability are outside.'),
 dict(id='C17', title='Points, lines and circles compute their geometric definitions',
  statement='For all coordinates, point addition, subtraction, scaling, division, dot and cross products, length and normalisation give the coordinate-wise or textbook value, in their plain, compound and self-operand forms, and leave their operands unchanged. Point equality means no coordinate differs by more than 1e-6, and the four order operators are the lexicographic order. The intersection of two lines that are not parallel lies on both; distances to a line and to a segment are those to the nearest point (outside the 1e-6 tolerance at the segment ends); circle area, perimeter and points follow the radius and centre given. Copies are independent, and no operation leaks memory.',
  over=['inputs'],
  quant='every coordinate, vector, scalar, radius and angle, points of 1, 2 and 3 dimensions',
  why='Each test computes one literal example; a swapped coordinate, a wrong branch for a point beyond a segment end or a value changed half-way agrees with it.',
  files=['src/include/geometry/Point.h', 'src/include/geometry/Line.h', 'src/include/geometry/Circle.h', 'src/geometry/Line.cpp'],
  mech=[('coordinate loops', 'src/include/geometry/Point.h'), ('projection tests and cross products', 'src/geometry/Line.cpp'), ('area, perimeter, point at an angle', 'src/include/geometry/Circle.h')],
  note='Doubles are treated as reals: identities of rational functions and square roots are decided exactly, rounding is outside.'),
 dict(id='C18', title='Matrices own their elements and compute their definitions',
  statement='A new matrix is zero; one built from rows has their elements and shape. Copies, assignments (also to itself, to a matrix of another size and from a temporary) and the results of operators own their elements: changing one matrix never changes another, and every element block is freed exactly once. Matrices are equal exactly when shape and all elements are. Sum, difference, product, their compound and self-operand forms, powers (exponent 0 included) and the identity are the textbook ones and leave their other operands unchanged. reduce() gives the row echelon form with leading ones, exchanging rows and skipping columns where needed. Operands whose shapes do not fit stop the program with a message, and no operation accesses an element outside a matrix, one without columns included.',
  over=['inputs', 'histories'],
  quant='every element value, for all shapes up to 3 x 4 that the specifications enumerate',
  why='The tests use one pair of 3 x 3 literals, never free or reassign matrices of different shapes, and cannot see leaks or double frees.',
  files=['src/include/math_utils/Matrix.h'],
  mech=[('deepCopy() and clear()', 'src/include/math_utils/Matrix.h'), ('element loops of the operators', 'src/include/math_utils/Matrix.h'), ('Gaussian elimination in reduce()', 'src/include/math_utils/Matrix.h')],
  note='All element values for the enumerated shapes; larger shapes follow the same loops but are not enumerated. Doubles are treated as reals.'),
 dict(id='C19', title='The search tree holds exactly the inserted nodes, in rank order',
  statement='After any sequence of insert, erase, find, pre and suf calls on a BST, find(k) returns the node of rank k exactly when such a node was inserted and not erased since, and null otherwise (with equal ranks, one of them). pre(x) and suf(x) of a node in the tree return the nodes with the next lower and next higher rank, or null at the ends. Erasing removes only that node; an erased node is not touched again and may be freed or inserted anew. The nodes belong to the caller: the tree never frees one, nor changes a rank or value.',
  over=['inputs', 'histories'],
  quant='every assignment of ranks to up to 5 nodes and every order of insertion, each node erased, re-inserted or asked for its neighbours, longer scripts of up to 9 nodes, and given histories of up to 31 nodes',
  why='The tests insert the ranks 0 to 3 in increasing order, erase two nodes and check one find; rotations in the other direction, wrong parent links and lost subtrees appear only in other orders and later operations.',
  files=['src/include/graph/BST.h', 'src/graph/BST.cpp'],
  mech=[('rotate() and splay()', 'src/graph/BST.cpp'), ('erase() by case of children', 'src/graph/BST.cpp')],
  note='All ranks are symbolic; the number of nodes is bounded as stated. Larger trees run the same rotations but are not enumerated.'),
 dict(id='C20', title='Tree ancestors, LCA, heights and distances follow their definitions',
  statement='In a Tree built by setRoot and addNode, each node has the father it was added to, the sons added to it in order, its degree, and a height equal to its number of steps to the root. getAncestor(l) for l up to the height is the node l steps up, LCA(x, y) is the deepest node above both (a node counts as above itself), and getDistance is the length of the path between them. Queries access no memory outside the tables and change nothing; the tree does not free the caller\'s nodes, and new nodes and trees start initialised. A node made the root of a tree has no father and height 0, whatever tree it was in before.',
  over=['inputs', 'histories'],
  quant='every tree shape of up to 5 nodes with every pair of nodes, forked paths up to depth 35, and given shapes of up to 30 nodes',
  why='The tests use one tree of depth 2; the doubling tables have a second level only there, and mistakes at deeper levels or in uneven branches are not reached.',
  files=['src/include/graph/Tree.h', 'src/graph/Tree.cpp'],
  mech=[('power-of-two ancestor table', 'src/graph/Tree.cpp'), ('height equalisation and descent in LCA()', 'src/graph/Tree.cpp')],
  note='Shapes are bounded as stated; the values are arbitrary. getAncestor above the root is outside its precondition.'),
 dict(id='C21', title='Interval queries equal a scan of the values after any updates',
  statement='For a SegmentTree built from any values, querySum, queryMax and queryMin over every interval give the sum, greatest and least of the current values in it, where addInterval and mulInterval have added to or multiplied each value of their interval, in the order called, whatever queries came in between. Construction does not change the given vector and copies are independent. No operation accesses anything outside the tree\'s arrays.',
  over=['inputs', 'histories'],
  quant='every value and operand; sizes up to 9, all intervals for small sizes, sequences of up to three updates; given histories on sizes up to 70',
  why='The tests query once after at most one update on the queried interval itself; pending updates that are combined, pushed down or not yet pushed down, and nodes that are only partly covered, are not exercised.',
  files=['src/include/graph/SegmentTree.h'],
  mech=[('lazy add and multiply flags pushed down by update()', 'src/include/graph/SegmentTree.h'), ('interval recursion', 'src/include/graph/SegmentTree.h')],
  note='Sums are decided as polynomial identities in the values and operands; extremes for sizes up to 5 and multipliers of either sign.'),
 dict(id='C22', title='Vertices and edges keep their identity, ends and ownership straight',
  statement='No two vertices and no two edges ever have the same id: a copy gets a new one, assignment keeps the target\'s, and equality compares ids while < compares values. A new vertex or edge is valid and has the value given (0 by default); a setter changes its own field only. addEdge creates one edge with the ends and value given, listed last among the outgoing edges of its source and the incoming edges of its target, so that degrees count every edge, parallel ones and loops included, and both ends see later changes to it. A copy of a vertex, or a vertex assigned, has the value, the validity and the edges of its source. Destroying the vertices frees every edge exactly once.',
  over=['inputs', 'histories'],
  quant='every value and mark, graphs of up to three vertices with parallel edges and loops, copies and assignments of vertices and edges',
  why='The tests create single edges and read them back; reused ids, an edge listed at one end only, and memory freed twice or never are invisible to them.',
  files=['src/include/graph/Vertex.h', 'src/graph/Vertex.cpp', 'src/include/graph/Edge.h', 'src/graph/Edge.cpp'],
  mech=[('static id counters', 'src/graph/Vertex.cpp, src/graph/Edge.cpp'), ('ownership of outgoing edges', 'src/graph/Vertex.cpp')],
  note='Copying or assigning a vertex that has outgoing edges shares or leaks them on the present tree: listed as known findings.'),
 dict(id='C10', title='JSON values own their contents: copies are deep, nothing leaks',
  statement='Copying a JSON value, of any type and nesting, gives a value with equal contents that is independent of its source: changing or destroying one never changes the other. Assignment, by copy or by move, replaces the target of any type by exactly the value assigned, also when the source is the target itself or one of its own members or elements; a value moved from can still be read and assigned. Every string, array and object behind a value is freed exactly once, when its owner is destroyed, replaced or turned into another type, and none is used afterwards.',
  over=['inputs', 'histories'],
  quant='every pair of the seven types as target and source, every stored number, nested arrays and objects, self and member assignments',
  why='The tests copy and assign a few values and compare one field; shared ownership, a leak, a double free or a use after free does not change those results.',
  files=['src/include/json/Json.h', 'src/json/Json.cpp'],
  mech=[('type-tagged union with owning pointers', 'src/include/json/Json.h'), ('copy and move constructors, assignment operators, freeMemory()', 'src/json/Json.cpp')],
  note='All type combinations with symbolic numbers; nesting up to two levels. The wrapped std::map and std::deque are replaced by small reference containers in drivers/stdlite.'),
 dict(id='C11', title='JSON values are read and written only as what they are',
  statement='Reading a JSON value as a number, truth value or text gives the stored value when it has that type and the documented default otherwise; iteration over an object or array visits its members or elements, and over any other value nothing. size, length, hasKey and the type queries agree with the contents. Writing through a key or an index first turns the value into an object or array and extends it with nulls as far as needed, keeping what an object or array already held. Lookups in a constant value return the member or element, null for a missing key, and change nothing; a lookup in a value of another type, an index outside a constant array, a negative index and an initializer with a key but no value are refused (an error message, or std::out_of_range). No access uses the bits of one type as another.',
  over=['inputs', 'histories'],
  quant='every one of the seven types, every stored number, every index including negative ones, present and missing keys',
  why='The tests read each value as what was stored; reading it as something else, constant lookups that miss, and indexes past or before the array are not tried.',
  files=['src/include/json/Json.h', 'src/json/Json.cpp'],
  mech=[('type guards in every accessor', 'src/json/Json.cpp, src/include/json/Json.h'), ('setType() on write', 'src/json/Json.cpp')],
  note='All seven types with symbolic numbers; indexes up to 6 for growing arrays, all integers for the guards.'),
 dict(id='C12', title='JSON text is read and written faithfully, bad text is refused',
  statement='loadJSON turns JSON text into the value it denotes: literals, signed numbers with fraction and exponent, strings with every simple escape, arrays and objects in order and nested, with white space anywhere between tokens, the last value winning for a repeated key. dumpJSON and operator<< write text that denotes the value, with strings escaped, and reading that text back gives an equal value. Text that is not JSON (a missing bracket, quote, colon, comma, digit or value, an unknown word, a bad escape) stops with an error message, as the parser documents. No text makes reading access memory outside it.',
  over=['inputs'],
  quant='arbitrary characters and digits in texts of every listed form up to about ten characters; given documents nested up to nine levels and numbers of all widths',
  why='The tests parse a handful of literal documents; which characters end a number, how an escape at the end of the text is treated and what follows a value are not sampled.',
  files=['src/json/json_functions.cpp', 'src/include/json/json_functions.h', 'src/json/Json.cpp'],
  mech=[('recursive descent parser', 'src/json/json_functions.cpp'), ('dump and escape', 'src/json/Json.cpp')],
  note='Texts are bounded in length with arbitrary characters at the interesting positions. Kept as the tests pin them: toString() gives the escaped text, \\u escapes are kept literally. The round trip of arbitrary doubles is outside (it is a rounding question).'),
 dict(id='C13', title='URL encoding is transmissible and decoding undoes it',
  statement='urlEncode keeps letters, digits and the unreserved characters - _ . ~ and writes every other byte as % and two upper-case hexadecimal digits, in order and independent of its neighbours, so its result holds no other character. urlDecode of an encoded text is the original, for every byte string; it reads escapes in either case and + as a space, and leaves every other character as it is, an escape cut off at the end included. No text makes decoding read outside the text.',
  over=['inputs'],
  quant='every byte, alone and next to every other byte; every text of any length for memory safety; given texts of up to 400 bytes',
  why='The tests encode two literal texts; bytes above 127, bytes below 16 (leading zero), lower-case escapes and truncated escapes are not sampled.',
  files=['src/network/network_functions.cpp'],
  mech=[('character loop with hexadecimal formatting', 'src/network/network_functions.cpp')],
  note='All bytes symbolically; results for texts of up to three characters (the loop carries no state between characters), memory safety for texts of any length.'),
 dict(id='C14', title='Base64 text is the standard encoding and decoding undoes it',
  statement='base64Encode gives the standard encoding (RFC 4648 alphabet, padding with =) of the bytes given, for every byte value including 0 and those above 127; a length argument pads the text with = up to that length, and gives an empty text if it does not fit. base64Decode of an encoded text gives back the original bytes and their number, with or without the padding; bits left over at the end are no byte. No input makes either access memory outside the text or its tables.',
  over=['inputs'],
  quant='every byte at every position of texts of 1 to 7, 13 and 20 bytes, given texts of up to 258 bytes, every character of texts of 4 characters for safety',
  why='The tests encode and decode three literal texts; bytes with the high bit set, zero bytes, and texts whose length leaves a remainder are hardly sampled.',
  files=['src/base64/base64_functions.cpp'],
  mech=[('six-bit regrouping and the alphabet table', 'src/base64/base64_functions.cpp')],
  note='Every bit symbolic, decided bit by bit; lengths up to 7, covering all remainders modulo 3 more than once.'),
 dict(id='C23', title='Search, edit distance, map, filter and zip follow their definitions',
  statement='kmpSearch(text, pattern, start) is the first position not before start at which the pattern occurs, or -1 if there is none, also for an empty pattern and a start beyond the end. editDistance is the least number of single-character insertions, deletions and replacements that turn one text into the other. mapAll gives the results of the function on each element in order, filterContainer gives exactly the elements satisfying the predicate in order, and zip gives the tuples of elements at equal positions up to the shortest container. None changes its input unless documented or accesses memory outside it.',
  over=['inputs'],
  quant='every text of up to 5 characters with every pattern of up to 4, longer fixed patterns in arbitrary texts, every start; every pair of texts of up to 3 characters; every element value',
  why='The tests use a few literal texts; the failure function matters only for patterns with borders, and empty or overlong arguments are not sampled.',
  files=['src/algorithm/kmp.cpp', 'src/algorithm/edit_distance.cpp', 'src/include/algorithm/Map.h', 'src/include/algorithm/Filter.h', 'src/include/algorithm/Zip.h'],
  mech=[('failure table', 'src/algorithm/kmp.cpp'), ('dynamic programming table', 'src/algorithm/edit_distance.cpp'), ('iteration over all containers', 'src/include/algorithm/Zip.h')],
  note='All character values; lengths bounded as stated.'),
 dict(id='C24', title='Trie is a set of strings under every history of inserts and removes',
  statement='After any history of insert and remove, contain(s) is true exactly for the strings inserted and not removed since, size() is their number, and iteration visits each of them exactly once and nothing else. Inserting a present string and removing an absent one (also from an empty trie, also the empty string) change nothing; strings that are prefixes of each other are kept apart; a removed string can be inserted again. Tries are independent of each other, also when they use different character adapters, and an adapter may number more characters than the default one. With the default adapter a lone character that is no lower letter stops with a message. No operation accesses memory outside the trie.',
  over=['inputs', 'histories'],
  quant='every choice of three or four words of up to 3 letters over an alphabet of 2 or 3 letters through a fixed history of inserts and removes with all the observations between, every letter of the default and of a wide adapter, and longer fixed histories that relocate nodes and reuse tails',
  why='The double array relocates nodes only when particular words collide, and removal frees slots reused later; the tests insert a handful of words in one order.',
  files=['src/string_utils/Trie.cpp', 'src/include/string_utils/Trie.h'],
  mech=[('node relocation', 'src/string_utils/Trie.cpp'), ('tail split', 'src/string_utils/Trie.cpp'), ('growing arrays', 'src/include/string_utils/Trie.h'), ('depth-first visit', 'src/string_utils/Trie.cpp')],
  note='Letters symbolic over small alphabets; word lengths and history shapes bounded as stated.'),
 dict(id='C25', title='BigNum is exact integer arithmetic, or stops when out of room',
  statement='A BigNum built from a decimal text or an int64 has that value, whatever zeros stand in front. +, -, *, their assignment forms, the forms with an int on the right, unary minus, abs, ++ and -- (prefix and postfix) give the exact integer result for operands of any sign and length, including results with fewer digits, zero, and an operand that is also the target; operands are unchanged. The six comparisons agree with the order of the values, and all ways to make zero are equal. toString and << give the canonical decimal text (no leading zeros, no minus before 0). Copies are independent, and assigning a shorter number leaves nothing of the longer one. A result that fills the capacity is right; one that needs more digits stops with a message and a failing status.',
  over=['inputs'],
  quant='every value of operands of 0 to 4 digits of either sign for sums, differences and comparisons; every product of numbers of one or two digits and of one to three digits with given factors; every int64 of up to three digits and the extreme ones; every three-digit value at full capacity',
  why='Carries, borrows and sign combinations multiply; the tests compute a few positive literals.',
  files=['src/include/math_utils/BigNum.h'],
  mech=[('carry and borrow propagation', 'src/include/math_utils/BigNum.h'), ('sign dispatch', 'src/include/math_utils/BigNum.h'), ('length trimming', 'src/include/math_utils/BigNum.h'), ('capacity check', 'src/include/math_utils/BigNum.h')],
  note='Digits symbolic; digit counts bounded as stated.'),
 dict(id='C26', title='stringCast reads the number a text begins with',
  statement='stringCast<T>(text) for integer and floating types is the number the text begins with after white space (optional sign, digits, and for floating types fraction and exponent), reading ends at the first character that cannot continue it, and a text that begins with no number, or is empty, gives 0. It works for any text content, never reads outside the text or uninitialised memory, and the cast object may be used after the text it was made from is gone.',
  over=['inputs'],
  quant='every text of signs, digits and arbitrary neighbouring characters of up to about ten characters, with all digit values',
  why='Tests cast a few well-formed literals; empty, malformed and temporary texts decide the rest.',
  files=['src/include/string_utils/StringCast.h'],
  mech=[('number extraction from the text', 'src/include/string_utils/StringCast.h')],
  note='Digits symbolic; text shapes bounded as stated. Rounding of floating texts is read as exact real arithmetic.'),
 dict(id='C30', title='Values are written to streams as their text; vectors are read back',
  statement='Writing a Vector to a stream appends its elements in order between braces, separated by a comma and a blank ({} when it is empty); a Point appends its coordinates the same way between parentheses, a Fraction numerator/denominator in lowest terms with a positive denominator, a Matrix one line for each row. The stream is returned and the value is unchanged. Reading a Vector of numbers or characters from a stream that holds such a text, with any white space between its parts, replaces the old contents by exactly these elements and leaves the stream just behind the closing brace, so that what was written is read back and values can follow each other. Any other text (no opening brace, a missing or doubled comma, an element that cannot be read, no closing brace, nothing at all) stops the program with a message and a failing status; reading never goes on without end and never uses an uninitialised character.',
  over=['inputs'],
  quant='every value of the elements for writing vectors of up to four elements; every digit and white space character in the reading shapes, and every character at the places where a text can go wrong; vectors of up to 60 elements with given values',
  why='The tests write one vector of seven numbers and read one back; other sizes, white space, malformed texts and what follows in the stream are not tried.',
  files=['src/include/containers/Vector.h', 'src/include/geometry/Point.h', 'src/include/math_utils/Fraction.h', 'src/include/math_utils/Matrix.h'],
  mech=[('operator<< and operator>> of Vector', 'src/include/containers/Vector.h'), ('operator<< of Point', 'src/include/geometry/Point.h'), ('operator<< of Fraction', 'src/include/math_utils/Fraction.h'), ('operator<< and toString of Matrix', 'src/include/math_utils/Matrix.h')],
  note='Element values symbolic; shapes bounded as stated; string streams, whose text, position and error bits are modelled as the standard says. A loop that still runs after 500 rounds on these short texts counts as one that does not end.'),
 dict(id='C27', title='Samples follow the named distribution',
  statement='The long-run frequencies of the samples of each distribution class are those of the distribution it is named after with the given parameters.',
  over=['inputs', 'histories'], quant='every parameter in the documented domain, infinite sequences of samples',
  why='Tests draw finitely many samples with few parameters.',
  files=['src/include/random/Distribution.h'], mech=[('transform of uniform draws', 'src/random/GammaDistribution.cpp')],
  na='A statement about frequencies over the output of the standard engine: no static argument in reach bounds it. The universally quantified parts (domain, range, determinism) are C05, C07 and C09.', note=''),
 dict(id='C28', title='Every draw ends',
  statement='Every call of a distribution returns.',
  over=['inputs', 'schedules'], quant='every parameter in the documented domain and every engine state',
  why='Tests use few parameters.',
  files=['src/random/PoissonDistribution.cpp', 'src/random/GammaDistribution.cpp', 'src/random/NormalDistribution.cpp'], mech=[('rejection loops', 'src/random/GammaDistribution.cpp')],
  na='The rejection loops end with probability one only, for no bound that a static argument over the code could give; it also depends on floating-point underflow, which the analysis treats as exact.', note=''),
 dict(id='C29', title='JSON doubles survive dump and parse',
  statement='Parsing the text a double was dumped to gives the same double.',
  over=['inputs'], quant='every finite double',
  why='Tests use a few short decimals.',
  files=['src/json/Json.cpp'], mech=[('number formatting', 'src/json/Json.cpp')],
  na='A question of the rounding of decimal conversion inside the standard library; the analysis treats doubles as reals. (With the default stream precision it does not hold for every double.)', note=''),
]
