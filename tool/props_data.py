prop('C01', 'Substring search returns the first occurrence at or after the start',
 'For every text, pattern and start position, the substring search returns the smallest index not less than the start at which the pattern occurs in the text, and -1 exactly when there is none. An empty pattern is found at the start position if that lies inside or at the end of the text. It always terminates and reads and writes only inside its own strings and tables.',
 'for all byte strings text and pattern whose lengths fit an int and all start positions',
 'The tests search a handful of literal texts. The failure table is only exercised on patterns with self-overlap, and a wrong fall-back shows only on particular pattern/text pairs.',
 ['src/algorithm/kmp.cpp'], [('failure table with skipped equal characters', 'kmpSearch, first loop'), ('matching loop', 'kmpSearch, second loop')],
 note='Contract on kmpSearch: r == first occurrence >= start, or -1 iff none; loop invariants for the failure table and the scan; termination.')
prop('C02', 'Edit distance is the Levenshtein distance',
 'For all pairs of strings, the edit distance function returns the minimum number of single-character insertions, deletions and substitutions that turn one string into the other. It reads and writes only inside the strings and its own table.',
 'for all pairs of byte strings whose lengths fit the int computations',
 'The tests compare a few literal pairs; the table recurrence has to be right in every cell for every pair of strings.',
 ['src/algorithm/edit_distance.cpp'], [('dynamic-programming table', 'editDistance'), ('minimum of three', 'min3')],
 note='Contract on editDistance: result equals the recursive Levenshtein definition.')
prop('C06', 'gcd and lcm satisfy their defining divisibility properties',
 'For all integers, the absolute value of gcd(a, b) divides both arguments and no larger integer does (gcd(0, 0) is 0), and it is non-negative for non-negative arguments. For arguments that are not both zero and whose product is representable, lcm(a, b) is, up to sign, a common multiple that divides every common multiple. Neither loops forever nor divides by zero.',
 'for all pairs of int and 64-bit integers, in all type combinations',
 'Tests sample a few small positive pairs; sign, zero, mixed widths and termination for all pairs are not reached.',
 ['src/include/math_utils/math_functions.h'], [('Euclidean loop', 'gcd'), ('a * b / gcd(a, b)', 'lcm')],
 note='Instances (int,int), (long,long), (int,long), (long,int) of gcd and (int,int), (long,long) of lcm.')
prop('C07', 'Integer and generic power functions compute base^exp',
 'For every base and non-negative exponent whose power is representable, the 64-bit power function returns base^exp without overflowing on the way. For every type with an associative product and every positive exponent, the generic power function returns the product of exp copies of the base (and 1 for exponent 0 where the type can be built from 1). Exponents outside the allowed range end in the library error exit.',
 'for all bases, exponents and associative multiplications',
 'Tests evaluate a few powers; the square-and-multiply invariant must hold for every bit pattern of the exponent, and overflow depends on exact values.',
 ['src/math_utils/binary_pow.cpp', 'src/include/math_utils/math_functions.h'], [('square-and-multiply loop', 'binaryPow, genericBinaryPow')],
 note='genericBinaryPow is verified for an abstract type with an associative, partial multiplication, and for int64_t.')
prop('C08', 'Factorial, permutation and binomial equal their definitions',
 'Whenever the exact value (and, for the binomial, the intermediate Pascal rows) is representable, factorial(n), permutation(n, r) and binomial(n, r) return n!, n!/(n-r)! and n!/(r!(n-r)!) exactly, including r = 0 and r = n. Arguments outside 0 <= r <= n end in the library error exit.',
 'for all argument values and the integer types int and 64-bit',
 'Tests check a few points; boundary cases such as r = 0 and the symmetric branch of the binomial were never sampled.',
 ['src/include/math_utils/math_functions.h'], [('product loop', 'factorial, permutation'), ('row-by-row Pascal recurrence and symmetry', 'binomial')])
prop('C03', 'Base64 encoding follows RFC 4648 and decoding inverts it',
 'For every byte string (NUL bytes and bytes above 127 included), base64Encode without a length returns exactly the RFC 4648 text: 6 bits per character, padded with "=" to a multiple of four. With an explicit length it pads to that length, or returns the empty string if the text does not fit. For every string over the alphabet and "=", base64Decode returns the whole bytes spelled by its characters, so decode(encode(s)) = s for every s.',
 'for all byte strings and all length arguments',
 'Tests encode a few ASCII literals; all 256 byte values in all three alignments, NUL bytes and every padding length cannot be sampled by hand.',
 ['src/base64/base64_functions.cpp'], [('bit string cut in groups of 6', 'base64Encode'), ('padding', 'base64Encode, length branch'), ('bit string cut in groups of 8', 'base64Decode')],
 note='The round trip is a lemma over the two contracts.')
prop('C04', 'URL percent-encoding is exact and decoding inverts it',
 'For every byte string, urlEncode keeps the RFC 3986 unreserved characters (letters, digits, - _ . ~) and turns every other byte into % and two upper-case hexadecimal digits, and nothing else. For every string whose % escapes are complete, urlDecode returns the decoded bytes (upper- and lower-case digits accepted, + read as a space), so decode(encode(s)) = s for every s. Decoding any string, malformed escapes included, stays inside the string.',
 'for all byte strings',
 'Tests use a few literals; all 256 byte values and escapes at every position, in particular at the end of the string, are not sampled.',
 ['src/network/network_functions.cpp'], [('per-character escape', 'urlEncode'), ('escape parsing', 'urlDecode, hexToInt')],
 note='The round trip and the character set of the encoding are lemmas over the two contracts.')
prop('C09', 'Fraction arithmetic and comparison are exact rational arithmetic',
 'A Fraction is always in lowest terms with a positive denominator. Its value is the exact quotient it was built from, for every non-zero denominator of either sign, and sums, differences, products, quotients, their assignment forms and the forms with an int on the left have the exact rational value whenever the integer products they form are representable. The six comparisons agree with the order of the rational values, and the output operator writes numerator/denominator. A zero denominator or divisor ends in the library error exit, and nothing else does.',
 'for all pairs of fractions and integers within the int products the class forms',
 'Tests try one or two values per operator, never an int on the left, a division-assignment that is not an integer division, or a negative denominator in most operators.',
 ['src/include/math_utils/Fraction.h'], [('normalisation by the gcd', 'Fraction(int, int)'), ('cross multiplication', 'arithmetic and comparison operators'), ('int on the left', 'friend operators')],
 note='Uniqueness of the normal form (field equality = value equality) is a lemma proved from Bezout. Aliased operands (f += f) are only covered by the refuter.')
prop('C10', 'BigNum is exact signed decimal arithmetic',
 'For every capacity MAX_SIZE, a BigNum built from a 64-bit integer or from a decimal string (leading zeros and -0 allowed) has exactly that value, and sums, differences, products, negation, absolute value, increments, their assignment forms and the forms with a 64-bit integer have the exact integer value whenever the result has at most MAX_SIZE digits. The six comparisons and cmp agree with the order of the values (of the absolute values where asked), text output is the canonical decimal numeral (no leading zeros, no -0), and copies are independent and equal. No operation reads or writes outside the digit array.',
 'for all capacities, operands of all signs and digit counts whose result fits',
 'Tests use a few small numbers; carries and borrows that ripple through every digit, operands of very different lengths, zero, and results that fill the capacity exactly are not sampled.',
 ['src/include/math_utils/BigNum.h'], [('carry and borrow loops', 'add, sub, mul'), ('sign cases', 'operator+, operator-'), ('canonical form', 'constructors, sub, toString'), ('sign-aware comparison', 'cmp')],
 note='MAX_SIZE is a symbolic constant (2..10^7) in the proof; precondition: operands in canonical form, which every constructor and operation re-establishes. Aliased operands (a += a) are only covered by the refuter.')

prop('C11', 'Matrix operations are the linear-algebra operations, and own their storage',
 'Construction, copying, assignment, ==, !=, +, -, *, their assignment forms, idMat and pow give exactly the matrices of linear algebra for every shape for which they are defined (pow(A, 0) is the identity, pow(A, n) the n-fold product); reduce leaves a row echelon form with leading ones that has the same solutions; toString and << list the rows with entries separated by ", ". Copies are independent of their originals, operands are not changed, and no operation accesses storage outside the rows, uses storage after it was freed or frees it twice.',
 'for all shapes and entries, with exact arithmetic on the entries',
 'Tests multiply a few small matrices; rectangular shapes, zero rows, pivots that need a swap, dependent rows, odd and even exponents and the ownership of rows after several assignments are not sampled.',
 ['src/include/math_utils/Matrix.h'], [('entry-wise postconditions', 'operator*, operator+, operator-'), ('powers', 'pow'), ('null space preserved, echelon form', 'reduce'), ('storage owned exactly once', 'deepCopy, clear, operator=, operator*=')],
 note='Instance Matrix<double> with the arithmetic of the entries treated as exact real arithmetic; the refuter uses int, int64_t, double and a finite field. Preconditions: conforming shapes (asserted by the code), at least one column for toString and reduce.')

prop('C14', 'SegmentTree queries equal those of a plain array after any history of updates',
 'After construction from a vector and any sequence of addInterval, mulInterval and queries, queryMax, queryMin and querySum over an interval return the maximum, minimum and sum of the elements that a plain array holds after the same additions and multiplications (negative and zero factors included); queries do not change the array, and no operation accesses a node outside the tree.',
 'for all sizes up to 2^28, all intervals that meet the array, and all histories, with exact arithmetic on the values',
 'Tests build four-element trees and make one update and one query; lazily propagated flags, composed additions and multiplications, leaves at the deepest level and queries that span updated and untouched parts are not sampled.',
 ['src/include/graph/SegmentTree.h'], [('pending flags composed and pushed', 'update'), ('node values from children', 'init, pullUp'), ('range decomposition', 'queryMax, queryMin, querySum, addInterval, mulInterval'), ('node indices below 4 * size', 'all')],
 note='Instance SegmentTree<double> with values treated as exact reals; the refuter uses int, long and double. The class invariant (every node summarises its subtree, pending flags included) is proved to be established by the constructor and preserved by every public operation, so the result holds for every history.')

prop('C12', 'Tree ancestors, lowest common ancestors and distances are exact',
 'For every tree built with setRoot and addNode (each node added once, as a leaf), the height of a node is its distance from the root, getAncestor(k) is the node k steps above it for every k up to its height, LCA(x, y) is the deepest node that is an ancestor of both (a node counts as an ancestor of itself), and getDistance(x, y) is the number of edges on the path between them. Adding a node changes none of this for the nodes already in the tree. No operation reads past an ancestor table or follows a null pointer.',
 'for all tree shapes up to height 2^30 and all pairs of nodes',
 'Tests use one five-node tree; ancestor tables of different lengths on the way up, paths whose length is not a power of two and unbalanced pairs are not sampled.',
 ['src/graph/Tree.cpp', 'src/include/graph/Tree.h'], [('power-of-two ancestor tables', 'Tree::addNode'), ('binary decomposition of the level', 'Node::getAncestor'), ('descending jumps', 'Tree::LCA')],
 note='Nodes live in an explicit heap in the proof, so aliasing of x, y and table entries is covered. Preconditions: k is between 0 and the height; both nodes belong to the same tree; an added node is not already above its father.')
prop('C13', 'BST keeps every inserted node, in order of rank, through any operations',
 'For every sequence of insert, erase, pre, suf and find on a BST (a node is inserted only while it is in no tree, and erased or asked for neighbours only while it is in the tree), the tree holds exactly the nodes inserted and not yet erased, ordered by rank: insert adds its node without losing or reordering another one, erase takes out exactly its node and leaves it ready to be inserted again, pre(x) and suf(x) return the nodes directly before and after x in that order (null at the ends) and leave the order as it was, and find(k) returns a node of rank k exactly if there is one. Ranks and values of nodes never change, and no null or foreign pointer is followed.',
 'for all histories of operations, all numbers of nodes and all int ranks, equal ranks included',
 'Tests do a handful of inserts and finds; rebalancing by rotations after each access, erasing with one or two children and neighbours above a node depend on the history of the tree.',
 ['src/graph/BST.cpp', 'src/include/graph/BST.h'], [('single rotation and the parent link', 'BST::rotate'), ('zig-zig and zig-zag steps', 'BST::splay'), ('joining the two subtrees', 'BST::erase'), ('neighbours', 'BST::pre / BST::suf'), ('descent', 'BST::insert / BST::find')],
 note='The nodes live in an explicit heap in the proof; the invariant (in-order sequence, subtree ranges, parent and child links) is re-established by every operation, so it holds for every history.')
prop('C16', 'Vector, List, Stack and Queue behave as sequences, with checked access',
 'For every history of operations, a Vector or List holds exactly the sequence that its history prescribes: push appends, pop removes and returns the last element, insert(i, x) puts x before position i (0 <= i <= size), erase(i) removes position i, set and assignment through operator[], get, first and last change exactly the designated element, clear empties, size and isEmpty report the length, and List adds push_front, pop_front, sort (a sorted permutation), reverse and merge (of two sorted lists: a sorted union, the argument is left empty). A Stack returns elements last-in first-out, a Queue first-in first-out; top, first and last designate the element at that end. The comparison operators are equality and lexicographic order of the sequences. Constructors, assignments and conversions from and to the standard containers carry over the same sequence and leave the source as it was. An index out of range or access to an end of an empty container ends in the library error exit, never in a read outside the container.',
 'for all histories, all sizes that fit an int, all indices and all int elements (other element types: refuter only)',
 'Tests apply a few operations to short containers; index 0, size-1, size, negative indices and empty containers in combination with every operation are not sampled.',
 ['src/include/containers/Vector.h', 'src/include/containers/List.h', 'src/include/containers/Stack.h', 'src/include/containers/Queue.h'], [('range and emptiness checks', 'boundaryCheck, emptyCheck, insert'), ('positions through iterators', 'insert, erase, List::operator[]'), ('clear by repeated pop', 'Stack::clear, Queue::clear')],
 over=('inputs', 'histories'), note='Every public member except iterators and Vector stream I/O is under contract, for element type int; what the standard containers do is assumed (tool/rt_containers.rs). Aliasing of arguments with the container itself is exercised by the refuter only.')
prop('C17', 'Set, MultiSet, Map and MultiMap behave as their mathematical namesakes',
 'For every history of operations, a Set holds exactly the values inserted and not erased since, each once; a MultiSet holds each value as often as it was inserted since it was last erased (erase removes all its copies and ends in the library error exit if there is none), and count and contains report that; a Map holds for each key the value last stored under it: set and operator[] create or overwrite exactly that key (operator[] creates it with the default value), get designates the value of an existing key and ends in the library error exit for a missing one, erase removes exactly that key; a MultiMap holds the pairs given, count(k) is the number of pairs with key k, find(k) is the set of their values and erase(k) removes exactly those pairs. Iteration and conversion give the elements in key order; the comparison operators are equality and lexicographic order in that order; constructors, assignment and conversions carry over the same contents and leave the source as it was.',
 'for all histories and all int keys and values (other key types: refuter only)',
 'Tests insert a few elements; duplicates, missing keys and their combination with every operation are not sampled.',
 ['src/include/containers/Set.h', 'src/include/containers/MultiSet.h', 'src/include/containers/Map.h', 'src/include/containers/MultiMap.h'], [('missing key check', 'Map::keyCheck, MultiSet::erase'), ('collecting the values of a key', 'MultiMap::find')],
 over=('inputs', 'histories'), note='Every public member except iterators is under contract, for int keys and values; what the standard containers do is assumed (tool/rt_containers.rs).')
prop('C18', 'Random integers lie in their range, reach all of it, and repeat with the seed',
 'For every state of the generator and all bounds min < max, nextInt(min, max) returns min + (g mod (max - min)), where g is the next 64-bit output of the engine: it lies in [min, max), every value of the range is produced by some engine output, and no two values differ by more than one in the number of outputs that produce them. The same holds for nextInt(max) with min = 0, for nextInt() over all int values and for nextBool. Each call consumes exactly one engine output, and two generators with the same seed (given to the constructor or to setSeed) return the same sequence for the same calls. Bounds with max <= min end in the library error exit; no bound makes the computation overflow.',
 'for all seeds, all engine states and all int bounds',
 'Tests draw a few numbers from small ranges; ranges wider than INT_MAX and extreme bounds are not sampled, and range membership has to hold for each of 2^64 engine outputs.',
 ['src/random/Random.cpp', 'src/include/random/Random.h'], [('reduction modulo the width and shift', 'Random::nextInt'), ('full range', 'Random::nextInt()')],
 over=('inputs', 'histories'), note='The engine itself (std::mt19937_64) is assumed deterministic. UniformIntDistribution and the randomInt family, which only forward, are exercised by the refuter (bounded).')
prop('C23', 'Random reals and distributions transform the draws as their definitions say',
 'Write u for the next 64-bit engine output divided by 2^64 - 1. For every state of the generator, nextDouble(min, max) with min <= max is u*(max - min) + min and lies in [min, max) (it is min if they are equal; where rounding would reach max it is the number next below max); nextDouble(max) starts at 0 and nextDouble() is the unit draw on [0, 1). Each takes one engine output. The distributions turn these draws into samples: Uniform and UniformInt (default minimum 0) forward to nextDouble and nextInt; Bernoulli is true exactly if a unit draw is less than p; Binomial, Poisson, NegativeBinomial and Geometric (NegativeBinomial with r = 1) return the least k whose cumulative probability exceeds one unit draw, with probabilities C(n,k) p^k (1-p)^(n-k), exp(-lambda) lambda^k / k! and C(k+r-1,k) p^r (1-p)^k, so 0 <= k (<= n); Normal is the polar method of Marsaglia: pairs of draws on [-1, 1) until s = a*a + b*b is at most 1 and not 0, then a*f*stddev + mean and at the next call, without a draw, b*f*stddev + mean, with f = sqrt(-2 log(s) / s); Gamma is theta times (minus the sum of the logarithms of floor(k) draws of 1 - u, plus for a fractional k the accepted xi of the Ahrens-Dieter method); Exponential is Gamma(1, 1/lambda), ChiSquared is Gamma(r/2, 2), and StudentT is a standard normal times sqrt(r / a chi-squared sample of r). Parameters outside the domain of the distribution, max < min and negative maxima end in the library error exit; the accessors return the parameters given. A distribution built on a generator draws from exactly that generator and never destroys it; one built without owns a generator of its own, destroyed exactly once; setRandomGenerator switches to the given generator and leaves its state unchanged.',
 'for all engine states, all parameters and all histories of draws and exchanged generators; arithmetic on double is treated as exact in the proof, and the refuter checks results to a relative error of 1e-9 and the interval [min, max) exactly',
 'Tests draw a few hundred numbers and look at their mean; the ends of the intervals, which extreme engine outputs reach, rejected draws, the spare normal value, fractional and integer shapes and the ownership of generators are not sampled.',
 ['src/random/Random.cpp', 'src/include/random/Distribution.h', 'src/random/BinomialDistribution.cpp', 'src/random/PoissonDistribution.cpp', 'src/random/NegativeBinomialDistribution.cpp', 'src/random/NormalDistribution.cpp', 'src/random/GammaDistribution.cpp', 'src/random/StudentTDistribution.cpp', 'src/random/BernoulliDistribution.cpp', 'src/random/UniformDistribution.cpp', 'src/random/UniformIntDistribution.cpp', 'src/include/random/GeometricDistribution.h', 'src/include/random/ExponentialDistribution.h', 'src/include/random/ChiSquaredDistribution.h'], [('half-open interval', 'Random::nextDouble'), ('cumulative table', 'BinomialDistribution::init and next'), ('running probability', 'PoissonDistribution::next, NegativeBinomialDistribution::next'), ('acceptance and spare value', 'NormalDistribution::next'), ('integer and fractional part of the shape', 'GammaDistribution::next'), ('owned or borrowed generator', 'Distribution')],
 over=('inputs', 'histories'), note='Assumed: the engine is deterministic; signs of exp, log and pow (tool/rt_real.rs). Preconditions: the draws let the rejection loops and the inversions end (probability 1), lambda of Exponential is not 0, a StudentT does not draw a chi-squared value of 0. Parameters whose probabilities leave the range of double are known findings. The order of the two draws inside StudentT is unsequenced in C++; the proof takes the left one first, the refuter accepts both.')
prop('C19', 'mapAll, filterContainer and zip treat each element once, in order',
 'For every container and every function, a function with state included, mapAll calls the function exactly once on each element in iteration order and returns the results in that order; filterContainer calls it exactly once on each element in order and returns exactly the elements for which it answered true, in order; both leave the container as it was. For any number of containers, zip returns as many rows as the shortest argument has elements, row i holding the i-th element of each argument in argument order; a Zip object gives the same result through its conversion and its call operator, and the arguments are unchanged.',
 'for all contents and lengths, all functions (also functions whose answer depends on their earlier calls)',
 'Tests map, filter and zip one short list each; equal neighbours, empty arguments, a shortest argument in any position and functions with state are not sampled.',
 ['src/include/algorithm/Map.h', 'src/include/algorithm/Filter.h', 'src/include/algorithm/Zip.h'], [('one call per element', 'mapAll, filterContainer'), ('running minimum of the lengths', 'Zip::zip_'), ('variadic recursion', 'Zip::zip_')],
 note='Proved for std::vector<int> and std::list<int> with a function whose answer is an arbitrary function of all its arguments so far, and for zip with one, two and three vectors; other element types, containers and argument counts: refuter only.')
prop('C20', 'Sum, mean, variance and standard deviation follow their definitions',
 'For every array or container, sum adds exactly the first size elements (all elements of a container), sum with a function adds the results of one call per element in order, mean is the sum over the number of elements, variance is the mean squared distance from the mean, sample_variance divides by one less, and stddev and sample_stddev are the non-negative square roots of these. The int, double and container forms agree. A size of zero or less sums to 0 and a negative size gives 0 for all of them. The data are not changed and nothing outside the first size elements is read.',
 'for all arrays and containers whose int sums fit the element type; arithmetic on double is treated as exact in the proof, and the refuter checks results to a relative error of 1e-9, values close together and far from zero included',
 'Tests use two or three short arrays; values that are close together and far from zero, sizes smaller than the array and negative sizes are not sampled.',
 ['src/math_utils/statistics.cpp', 'src/include/math_utils/math_functions.h'], [('summation loops', 'sum'), ('two passes around the mean', 'variance, sample_variance'), ('N or N - 1', 'sample_variance')],
 note='Proved for int and double arrays and std::vector of both; other containers: refuter only. Preconditions: size is not 0 for mean and variance, more than 1 element for the sample forms.')
prop('C21', 'Points, lines and circles obey the laws of Euclidean geometry',
 'For every dimension N and all coordinates: a Point starts at the origin or at the given coordinates; copies, assignment and the index operator give exactly its coordinates; +, -, += and -= work coordinate by coordinate, * and / (and *=, /=) by a number scale every coordinate (also when the number is one of the point\'s own coordinates), and the binary forms leave their operands as they were; the product of two points and dot are the sum of the coordinate products; len is the non-negative square root of the point\'s product with itself; normalize turns a non-zero point into the multiple of itself of length 1; == holds exactly when no coordinate differs by more than 1e-6, and <, <=, >, >= are the lexicographic order; a point is printed as "(x0, x1, ...)". In the plane, cross is v0*w1 - v1*w0; getIntersection of two lines that are not parallel lies on both; disToLine is the least distance from the point to any point of the line, and disToSegment the least distance to the points of the segment from A to A + v (up to the tolerance 1e-6 / |v| of its comparisons). A circle of centre O and radius r (origin and 1 by default) has area and perimeter pi*r*r and 2*pi*r with pi between 3.1415926 and 3.1415927, and getPoint(rad) is O + r*(cos rad, sin rad), at distance |r| from O.',
 'for all dimensions, coordinates, factors, lines with non-zero direction and angles; arithmetic on double is treated as exact in the proof, and the refuter checks results to a relative error of 1e-9',
 'Tests use one line at the origin, one point on one side of one segment and points of two or three small dimensions; short directions, points beyond the far end, negative differences and high dimensions are not sampled.',
 ['src/include/geometry/Point.h', 'src/include/geometry/Line.h', 'src/include/geometry/Circle.h', 'src/geometry/Line.cpp'], [('coordinate loops', 'Point::operator+ and the others'), ('which end of the segment is nearer', 'disToSegment'), ('parameter on the first line', 'getIntersection'), ('symmetric tolerance', 'Point::operator==')],
 note='Proved for Point<N> with N any number, Point<2>, Line and Circle. Preconditions: divisors and directions are not zero, lines are not parallel, the stream has no field width. Assumed: sqrt, sin and cos (sin^2 + cos^2 = 1).')
prop('C22', 'JSON values are independent trees that keep exactly what was stored',
 'For every history of operations, a JSONObject holds exactly the value that its history prescribes: null, a bool, an int, a double, a string, an array or an object, nested to any depth. Construction and assignment from a C++ value (nullptr included) give a value of the matching type; copies are deep (changing a copy never changes the original or any part of it), a move leaves its source null, and assigning a value to itself, to one of its parts, or a part to the whole gives the value that was assigned. operator[] and at with a key or an index make the value an object or array if it is none (losing the old value), create exactly the missing element (null; an array is filled with nulls up to the index) and designate it; append adds its arguments in order; an initializer list pairs keys and values, the last of equal keys counts. getType, isNull, length, size (-1 for a value without elements), hasKey and the const at report that without changing it; toInt, toDouble, toBool, toString and the conversion operators give the value of the matching type and 0, 0.0, false or "" for every other type, toString in escaped form. Every array, object and string is owned by exactly one value: none is used after it is freed, freed twice or lost.',
 'for all histories, all nesting depths and contents, all non-negative indices below INT_MAX',
 'Tests build a few small objects; assigning between a value and its own parts, changing the type of a value that owns others, and copies of copies are not sampled.',
 ['src/json/Json.cpp', 'src/include/json/Json.h', 'src/json/json_functions.cpp'], [('ownership of the union', 'setType, clearData, copy and move'), ('assignment from a part of itself', 'operator='), ('creation of missing elements', 'operator[], at, append')],
 over=('inputs', 'histories'), note='The union and its owned storage are modelled as a value that may be read only through the member last written; std::map, std::deque and std::string are assumed (tool/rt_json.rs, tool/cxx.rs). Arguments that alias the object itself, the float conversions and the range iterators are exercised by the refuter (bounded). Preconditions: the const at needs an existing key or index, an index is not negative.')
prop('C05', 'JSON text: loading gives the value written, and loading a dump gives it back',
 'For every text, loadJSON either returns the value that the text spells at its beginning or ends in the library error exit; it never reads outside the text. White space may stand before every token; an object has quoted keys (the last of equal keys counts), a colon after each key and commas between its members; an array has commas between its elements; a string runs to its closing quote with the escapes \\", \\\\, \\/, \\b, \\f, \\n, \\r, \\t decoded and \\u with four hex digits kept as written; an integer without point or exponent is an int, any other number a double, the number before the exponent times ten to the exponent; true, false and null are themselves. An unterminated string, array or object, a missing colon or comma, a bad escape, an exponent without digits and an unknown word end in the error exit. dump writes every value in this syntax, members in key order and indented by depth, and strings and keys escaped by jsonEscape; operator<< writes dump(). Loading a dump (with blank indentation) gives the dumped value back: the same tree with the same keys, strings, ints and bools, and each double as its six-decimal print reads.',
 'for all texts shorter than INT_MAX, all trees with finite doubles, all depths',
 'Tests load and dump a few small documents; documents cut off at any place, escapes in keys, deep nesting, exponents at the end of the text and strings with every control character are not sampled.',
 ['src/json/Json.cpp', 'src/json/json_functions.cpp', 'src/include/string_utils/StringCast.h'], [('position after each token', 'parse_next and the parse functions'), ('end of text inside a token', 'parse_string_value, parse_number'), ('escape and unescape are inverse', 'jsonEscape, parse_string_value'), ('round trip', 'dump, loadJSON')],
 note='Ints in the text must fit an int. Arithmetic, scanning and printing of doubles is uninterpreted in the proof (a printed finite double is a number with a point; x * 10^0 = x; the refuter checks the values); isspace, the stream conversion in stringCast and std::to_string are assumed (tool/cxx.rs, tool/rt_json.rs). Stack depth is not modelled.')
prop('C15', 'A Trie is the set of the words inserted and not removed',
 'For every history of insert, remove and contain on a Trie (default or custom mapper, words over its alphabet, the empty word included), contain(w) is true exactly if w was inserted and not removed since; insert and remove change nothing for any other word, whatever prefixes the words share; size() is the number of words in the set (inserting a word again or removing an absent one changes nothing); iteration gives exactly these words, each once, in the order of the mapped characters. Tries do not influence each other. No operation reads or writes outside the tables.',
 'for all histories, all sets of words, all mappers with at most 256 codes; tables below 2^31 entries',
 'Tests insert a handful of short words; the double-array layout after collisions, moved children, split tails, reused tail slots and wide alphabets depends on the whole history of the trie.',
 ['src/string_utils/Trie.cpp', 'src/include/string_utils/Trie.h'], [('collision: moving the children of a node', 'Trie::insert_'), ('splitting a tail', 'Trie::insert_'), ('free tail slots', 'Trie::nextTail, Trie::remove_'), ('tables that grow', 'AutoArray::set'), ('backtracking', 'Trie::visit')],
 over=('inputs', 'histories'), note='insert, remove, contain and size and everything they call are proved, and so is iteration: Trie::visit moves to the next leaf in the order of the codes (with termination), operator++ and the constructors of the iterator follow it, operator* is the word of the leaf, == compares positions, and leaves and words correspond one to one (lemmas word_has_leaf, leaf_has_word, leaf_word_inj, all_ahead), provided mapInt gives back the character of a number and the trie does not change while an iterator is in use (begin() and end() included). Preconditions: words over the alphabet of the mapper (and without the end mark), room in the 32-bit tables. The mapper is an arbitrary pure injective function with mapChar(1) = 1 and codes from 1 to 256, as the documentation asks; that the default mapper is one is a contract of its own, and the link through the function pointer is assumed.')
