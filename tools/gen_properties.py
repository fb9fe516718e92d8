#!/usr/bin/env python3
"""Writes properties.jsonl (the human-edited source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
V="src/validate.h"; GG="src/graph_gen.h"; GV="src/graph_val.h"

p("C01","Whitespace-sensitive reading accepts exactly one byte layout",
 "On a whitespace-sensitive input stream a script of reads (tokens, space, newline, end of file) succeeds iff the remaining bytes are exactly those tokens and separators: any missing, extra, leading, trailing or exchanged whitespace byte stops the program at the first read that cannot be satisfied, with the stream's own verdict. Every successful read consumes exactly the bytes it names, so the tokens returned are the maximal runs of non-whitespace bytes at the current position. A token may not start with a whitespace or other non-graphic byte, and reading at the end of input fails.",
 ["inputs","histories"],"every byte string and every sequence of read operations",
 "The tests feed a few well-formed and a few broken strings; the byte layout x read script space is not sampled, in particular errors late in a script or at end of input.",
 [V],[("InputStream::space/newline/eof/noteof/string","src/validate.h:2318-2400")],["InputStream operations","exit code"])
p("C02","Whitespace-insensitive reading depends only on the token sequence",
 "On a whitespace-insensitive input stream the outcome of a script of reads depends only on the sequence of whitespace-separated tokens of the input: any amount and kind of whitespace before, between and after tokens is accepted, separator checks never fail and never consume a token, a token read succeeds iff a token is left, and the end-of-file check succeeds iff no token is left.",
 ["inputs","histories"],"every byte string and every sequence of read operations",
 "Tests use a couple of fixed whitespace variants; equivalence over all layouts is a relation between runs they never compare.",
 [V],[("InputStream::eof/noteof/string","src/validate.h:2318-2400")],["InputStream operations","exit code"])
p("C03","Integer tokens: canonical grammar, exact value, half-open range",
 "Reading an integer succeeds iff the token is a canonical decimal integer (no plus sign, no leading zeros, no minus zero, nothing else around it) whose value fits in signed 64 bits and, when bounds are given, lies in [lower, upper); the value returned is then exactly the value written. Otherwise the stream's verdict is issued and no value is returned. The string classification helper for integers accepts exactly the same tokens with the same value.",
 ["inputs"],"every token and every pair of bounds",
 "A handful of tokens are tried; the 64-bit boundaries, sign and zero forms crossed with bounds are not.",
 [V],[("InputStream::integer, INTEGER_REGEX, details::parse, isInteger","src/validate.h:2470-2490")],["InputStream::integer","isInteger"])
p("C04","Real tokens: grammar, bounds, decimals and value",
 "Reading a real succeeds iff the token is a decimal number in the documented permissive form (never NaN or infinity), and strict reading iff it is in plain canonical decimal form with a number of decimals in [minDecimals, maxDecimals) and a value in [lower, upper) compared without tolerance; non-strict bounds accept a value in [lower, upper) or within the stream's tolerance of either bound. The value returned is the decimal value written, up to floating point rounding. All other tokens give the stream's verdict.",
 ["inputs"],"every token, bounds, decimal limits and tolerance",
 "Few tokens are tested; strict/non-strict boundary behaviour and the count of decimals are sampled at single points.",
 [V],[("InputStream::real/realStrict, REAL_REGEX, STRICT_REAL_REGEX","src/validate.h:2530-2620")],["InputStream::real","InputStream::realStrict","isReal"])
p("C05","String tokens, expectations and case handling",
 "A string read with length bounds succeeds iff the token length lies in [lower, upper), with a pattern iff the whole token matches; on a case-insensitive stream letters are folded to one case and comparisons ignore case, on a case-sensitive stream bytes are returned and compared as written. Expecting a given string, integer or real succeeds iff the next token equals it (reals: within the stream's absolute or relative tolerance) and otherwise gives the stream's verdict; comparing two strings reports the first differing position.",
 ["inputs","configurations"],"every token, bound, pattern, expected value and case/tolerance configuration",
 "Expectation reads and length bounds are tested with single values; expectReal is not tested at all.",
 [V],[("InputStream::string(...), expectString/expectInt/expectReal, stringEqual","src/validate.h:2395-2470,2625-2670")],["InputStream","stringEqual"])
p("C06","Bulk reads equal the same single reads with the right separators",
 "Reading count strings, integers, reals or strict reals in one call behaves exactly like count single reads with the same arguments interleaved with count-1 reads of the chosen separator (space unless newline is asked for): same values, same bytes consumed, same constraint updates, same point of failure. No separator is read before the first or after the last element, and a separator other than space or newline is refused before anything is read.",
 ["inputs","histories"],"every input, count, separator and argument form",
 "Only a few bulk reads on well-formed input are tested.",
 [V],[("strings/integers/reals/realsStrict","src/validate.h:2430-2625")],["InputStream bulk reads"])
p("C07","Constraint log records exactly what was read",
 "When a constraints file is requested, at exit it holds one line per constraint that was logged, in order of first mention, giving whether the lower and upper limit were attained, the minimum and maximum value seen, and the least lower and greatest (inclusive for integers) upper limit given; unused constraints give no line. Container and string constraints log sizes, a constraint can only be used with one type, and the file is also written when the run ends in a rejecting verdict.",
 ["histories"],"every sequence of logged values and limits over any set of names",
 "Tests log a few values and do not examine attained flags over arbitrary update orders, the exit path, or type misuse.",
 [V],[("Bounds, Constraint, ConstraintsLogger","src/validate.h:2117-2250")],["constraints file"])
p("C08","Every rejection ends the process with the role's verdict",
 "A failed read in any role ends the process at once with the exit code of the stream it failed on: the submission or checked file's streams reject as wrong (43), the already-validated test data streams report an internal failure (1); accepting happens only by an explicit accept (42). Nothing after the failing read runs, the judge message says what failed and goes to stdout for input and answer validators and to the feedback directory's judge message file for output validators and interactors, and team messages go only to the team message file. A program which never called init can read nothing and gives no verdict: it ends abnormally.",
 ["inputs","configurations"],"every role, stream and kind of failing read",
 "The tests replace process exit by an exception and never run the roles as processes, so exit codes, message files and non-continuation are not observed.",
 [V],[("Verdicts, exitVerdict, role init functions, InputStream::fail","src/validate.h:195-222,2665-2725,2871-3024")],["exit status","stdout","feedback directory"])
p("C09","Flags and defaults reach every stream; settings freeze at init",
 "After init each role's streams use the case, space and float tolerance settings in force: role defaults (strict for input and answer validators, lenient otherwise; test data streams always whitespace-insensitive), overridden by settings assigned before init and by the case_sensitive, space_change_sensitive, float_tolerance, float_absolute_tolerance and float_relative_tolerance flags, where the specific tolerance flags win over the common one. Settings cannot be changed after init, init cannot run twice, and multipass cannot start before init.",
 ["configurations"],"every role x flag combination x pre-init assignment",
 "Tests call no role init with flags at all; the wiring from command line to stream behaviour is never executed.",
 [V],[("ValidateBase::details::init and role init","src/validate.h:2798-3024")],["behaviour of each stream after init"])
p("C10","Command line parsing is a partition of the arguments",
 "The argument list is split into the commands (arguments that are -- plus a non-empty name) each owning exactly the following non-command arguments, and arguments before the first command belong to the empty command; looking up a command reports existence, parameter count, each parameter and conversions to text, integer and real (single, list, fixed-size) consistent with that split, and raw lookup of any argument yields everything after its first occurrence. A repeated command is refused, malformed numbers and too few parameters are refused, and defaults apply only when the parameter is absent.",
 ["inputs"],"every argument vector and query",
 "Tests use one or two fixed argument vectors.",
 [V],[("CommandParser, Command, Parameter","src/validate.h:1923-2110")],["CommandParser API"])
p("C11","Multipass runs hand state and input to exactly the next pass",
 "Over a sequence of runs sharing a feedback directory, run k (from 0) sees pass number k, reads as previous state exactly what run k-1 wrote as next state, and starts with an empty next state; no previous state exists in pass 0. The next pass's input file is written only when the run asks for a next pass, contains exactly what that run wrote as next pass input, and asking for it ends the run accepting.",
 ["histories","crash_points"],"every sequence of passes with arbitrary written states, including runs that end in a rejection at any point",
 "There is no test of multipass at all; it needs several processes in sequence.",
 [V],[("Multipass::init, NEXT","src/validate.h:2961-3009")],["feedback directory","exit status"])
p("C12","Float comparison is the documented tolerance relation",
 "Two finite reals are equal iff their absolute difference is at most the absolute tolerance or their difference relative to the expected value is at most the relative tolerance; NaN equals only NaN, an infinity equals only the infinity of the same sign. The one-sided comparisons hold iff the plain comparison holds or the two are equal in that sense, and negative tolerances are refused.",
 ["inputs"],"all pairs of reals including infinities, NaN, zeros and values at the tolerance boundary",
 "Tests check a few pairs; the asymmetry of the relative tolerance, zero expected values and special values are not crossed.",
 [V],[("floatEqual/floatLess/floatGreater","src/validate.h:905-930,2808-2830")],["floatEqual","floatLess","floatGreater"])
p("C13","Output formatting of values, collections and joins",
 "Written values appear in the documented form: booleans as words, reals in fixed notation with the default precision, and containers, pairs, tuples and arrays element by element (recursively) separated by single spaces with no leading or trailing separator. A join writes its elements in order with the chosen separator exactly between consecutive elements (nothing for the no-separator value), gives the same text as a string conversion, and is empty for an empty collection; text containers count as single elements.",
 ["inputs"],"every nesting of values and every separator",
 "A fixed list of joins is tested; nested, empty and mixed collections over all separators are not.",
 [V],[("OutputStream, join","src/validate.h:244-425")],["OutputStream","join().asString()"])
p("C14","Random integers, bits and reals: in range and exactly uniform",
 "A random integer in [lower, upper) always lies in the range and, over the uniformly distributed words of the engine, every value has exactly the same probability, for any bounds up to the full 64-bit span; a random bit is exactly fair and a random real lies in [0,1), [0,upper) or [lower,upper). An empty or inverted range is refused.",
 ["inputs"],"every bound pair and every engine word",
 "Statistical tests cannot see a bias of one word in 2^64 or errors at extreme bounds; the 128-bit and fallback multiplications are not compared over boundary words.",
 [V],[("Random::integer/bit/real","src/validate.h:1350-1440")],["Random::integer","Random::real","Random::bit"])
p("C15","Same seed, same output on every compiler and word size",
 "Random values are a function of the seed and call sequence alone: the default engine is the standard 64-bit Mersenne twister, seeded with the given seed or the documented default or the seed command line flag, and integers, bits, strings, permutations, graphs and all other integer-based generators give identical results for every compiler, language standard and word size. Reseeding restarts the same sequence.",
 ["configurations","histories"],"every seed, call sequence and build configuration",
 "Each test build only looks at itself; no test compares outputs of two builds.",
 [V,GG],[("RandomEngine, Random::*","src/validate.h:77-92,1323-1917")],["printed values of identical programs built differently"])
p("C16","Random sequence generators return valid objects",
 "For every legal argument: distinct values are distinct and in range, permutations are permutations with the requested offset, cycle lengths or fixed points, increasing/decreasing (strict or not) sequences are so ordered and in range, partitions have the requested number of parts each at least the minimum and the requested sum, strings use only the alphabet, bracket sequences are balanced, shuffles and rotations preserve the multiset (rotation: cyclic order, by the returned amount) and selection returns an element. Impossible arguments are refused.",
 ["inputs"],"all arguments and all engine outputs",
 "Tests check a few sizes with one seed; degenerate sizes (0, 1, full range) and overloads are not crossed.",
 [V],[("Random::distinct..bracketSequence, select, shuffle, rotate","src/validate.h:1600-1815")],["returned sequences"])
p("C17","Random sequence generators are exactly uniform",
 "Every possible result of shuffle, selection, rotation, permutation (plain, with cycle lengths, with fixed points), distinct and strictly ordered samples, partitions with a minimum, strings and bracket sequences has exactly the same probability over the engine's output.",
 ["inputs"],"all equally likely engine outputs for every small argument",
 "A uniformity bug leaves every single result valid; tests look at single results.",
 [V],[("Random::*","src/validate.h:1600-1815")],["outcome counts over all scripted engine outputs"])
p("C18","Random distributions stay in range and follow their definition",
 "Discrete choices return index i with probability proportional to weight i (never an index of weight zero); binomial, geometric, exponential, normal, minimum and maximum variates always lie in the requested half-open range, binomial(n,p) in [0,n], and the minimum/maximum of n<5 uniform values is distributed exactly as stated. Illegal parameters are refused.",
 ["inputs"],"all parameters and engine outputs",
 "Range violations need rare engine words; tests draw a few values from one seed.",
 [V],[("Random::discrete/normal/exponential/geometric/binomial/maximum/minimum/minmax","src/validate.h:1441-1580")],["returned values"])
p("C19","Modular arithmetic is exact over the full 64-bit range",
 "applyMod returns the representative in [0,mod), mulMod and powMod return the exact product and power modulo mod for every base of either sign and every positive 64-bit modulus, and multInv returns the unique inverse in [0,mod) iff the argument is coprime to the modulus and -1 otherwise. Non-positive moduli and negative exponents are refused.",
 ["inputs"],"all 64-bit arguments",
 "A few values are tested; products overflowing 64 or 128 bits and the fallback without 128-bit integers are different code paths that share no test values.",
 [V],[("mulMod/powMod/multInv","src/validate.h:1007-1085")],["applyMod","mulMod","powMod","multInv"])
p("C20","Primality and prime generation are exact",
 "isPrime is true exactly for the primes among all 64-bit integers, primes(lower, upper) lists exactly the primes in the half-open interval in increasing order, and a random prime is a prime of the requested interval or the request is refused.",
 ["inputs"],"all 64-bit integers and intervals",
 "Tests sample small numbers; strong pseudoprimes, segment boundaries and large intervals are not.",
 [V],[("isPrime, primes, Random::prime","src/validate.h:1087-1160,1583-1600")],["isPrime","primes","Random::prime"])
p("C21","Polygon predicates are exact",
 "For integer polygons within the accepted coordinate range: isConvex holds iff the points are, in order, the corners (straight corners allowed) of a counterclockwise convex polygon walked around once, with positive area and no repeated consecutive point, isStrictlyConvex iff additionally no corner is straight, isCCW iff the signed area is positive, and isSimple iff no two edges touch other than neighbouring edges at their shared corner. Cross product, dot product and the point arithmetic agree for every point type. Polygons with coordinates beyond the limit are refused.",
 ["inputs"],"all small integer polygons, including degenerate ones and ones at the coordinate limit",
 "Only a few polygons are tested; the sweep line has many order-dependent cases.",
 [V],[("isConvex/isStrictlyConvex/isSimple/isCCW/cross/dot","src/validate.h: Geometry")],["predicates"])
p("C22","Random geometry satisfies its promise",
 "A random convex polygon has exactly n corners, is convex (corners may be straight) and counterclockwise, and fills the square of the given dimension: both coordinates have minimum -(dim-1) and maximum dim-1. Random non-collinear points are n distinct points within the given dimension no three of which lie on a line. Every legal request succeeds.",
 ["inputs"],"all legal n and dim and all engine outputs",
 "Random geometry is tested for a few sizes with one seed.",
 [V],[("Random::convex, Random::nonCollinearPoints","src/validate.h: Random geometry")],["returned points"])
p("C23","Sequence predicates and their witnesses",
 "isPerm, anyAdjacent, noneAdjacent, allAdjacent, areIncreasing/NonDecreasing/Decreasing/NonIncreasing and areDistinct return true exactly when the property holds, for iterator and container forms alike, including empty and one-element sequences. When a reason is attached it is a genuine witness: the first offending adjacent position, or an element that is repeated or out of range.",
 ["inputs"],"all sequences over small alphabets and all offsets",
 "Tests use a few sequences; the container and iterator overloads are tested unevenly (container allAdjacent never).",
 [V],[("isPerm..areDistinct","src/validate.h:560-690")],["boolean<T>"])
p("C24","Text, range and container helpers",
 "Character classification and case conversion behave as ASCII for every byte value, their string forms hold iff they hold for all characters and report a failing character; range lists exactly the arithmetic progression in [from,to) for positive or negative steps (zero refused), the Thue-Morse helper gives the bit parity of each index of its half-open range; append, flatten, contains, sign and dist act as their names say also for self-append and unsigned or extreme arguments. The named alphabets hold each character of their class exactly once; the x, y, z accessors read and write the same coordinate of pairs, tuples, arrays, complex numbers and plain structs, and dot, cross and the pair/complex conversion follow from them.",
 ["inputs"],"all bytes, all small strings, ranges and containers",
 "Tests sample single characters and ranges.",
 [V],[("isLower.. range, thueMorse, append, flatten","src/validate.h:447-545,692-810")],["helpers"])
p("C25","A generated graph always equals its edit history",
 "After any sequence of adding, erasing and looking up edges (addEdge, eraseEdge, findEdge, hasEdge, getEdgeById, getEdges, operator[]), writing node and edge data, setting the minimal id, permuting, reversing, normalizing, appending, combining and copying graphs, a graph of graph_gen.h holds exactly the nodes and labelled edges the history implies: node and edge counts, degrees, adjacency, lookup, data and iteration order (edges sorted by id, neighbours per node) agree with each other and with the history. The written form lists exactly these edges with the current ids. Operations on nodes which do not exist are refused without effect.",
 ["histories"],"all sequences of operations on directed and undirected graphs with and without node and edge data",
 "graph_gen.h has no tests.",
 [GG],[("Graph, Node, Edge","src/graph_gen.h")],["Graph API"])
p("C26","Graph algebra matches the mathematical definition",
 "complement, reverse, power, transitiveClosure, lineGraph, range, undirected, directed, append, combine and the tensor (product), cartesian and strong products return exactly the graph of the textbook definition, with the data carried along as documented, for undirected and directed graphs alike. Operations which return a new graph leave their inputs unchanged.",
 ["inputs"],"all small graphs",
 "graph_gen.h has no tests.",
 [GG],[("Graph::complement.. products","src/graph_gen.h")],["Graph API"])
p("C27","Named graph families are the named graphs",
 "independent, clique, bipartite, star, path, cycle, wheel, lolly, broom, grid, hypercube, completeTree, booleanLattice, rado, pruefer, ffWorstcase and mcmfWorstcase return the graph of that name with the given parameters (nodes numbered from zero, each edge exactly once, oriented as the name says for directed graphs and with the right capacities and costs for the flow networks). Decoding a Pruefer sequence gives the one tree with that sequence.",
 ["inputs"],"all small parameters, directed and undirected",
 "graph_gen.h has no tests.",
 [GG],[("family constructors","src/graph_gen.h")],["returned graphs"])
p("C28","Random graphs have the promised shape and distribution",
 "randomTree returns a tree on n nodes with every labelled tree equally likely, randomGraph a simple graph with exactly m edges (every such graph equally likely), or each edge independently with probability p, or with exactly the given degree sequence; randomBipartite only joins the two sides with exactly k edges or independently with probability p, randomGrowingGraph joins node i to a random set of earlier nodes whose size is p times a random real in [0,i+1) rounded down. subgraph(m) keeps exactly m edges and permutate renames the nodes, each uniformly. Infeasible parameters are refused.",
 ["inputs"],"all small parameters and all engine outputs",
 "graph_gen.h has no tests.",
 [GG],[("random graph constructors","src/graph_gen.h")],["returned graphs","outcome counts over all scripted engine outputs"])
p("C29","Incremental graph validation agrees with the definitions at every step",
 "After every single edge insertion the answers of graph_val.h's Graph (node and edge counts, adjacency, degrees, hasEdge, hasSelfloop, hasMultiedge, isConnected, isForest, isTree, isBipartite, areConnected) and DiGraph (the same counts with in and out edges and degrees, hasReverse, isDAG, isTree) are exactly those of the multigraph inserted so far. The certificates returned are valid: isDAG gives a topological order and isTree the root.",
 ["histories"],"every sequence of edge insertions on few nodes, directed and undirected",
 "graph_val.h has no tests.",
 [GV],[("Graph, DiGraph","src/graph_val.h")],["graph_val API"])
p("C30","Union-find tracks the partition",
 "After any sequence of unionSets calls the union-find structures report two elements as connected iff the unions so far connect them, findSet returns one common representative per set which is a member of that set, and unionSets returns whether it merged two different sets.",
 ["histories"],"every sequence of unions and finds on few elements, long chains",
 "There is no test for it.",
 [V,GV,GG],[("UnionFind","src/graph_val.h, src/graph_gen.h")],["UnionFind API"])
p("C31","The small RNG is xoshiro256** with exact jumps",
 "For every seed the generator of rng.h outputs the xoshiro256** sequence starting from the state derived by its seeding (the fixed constants xor the seed, then one jump), and jump advances the state by exactly 2^128 calls. Equal seeds or copied states give equal futures, and the generator meets the standard engine interface (min, max, result type) over the full 64-bit range.",
 ["inputs","histories"],"all seeds and interleavings of calls, jumps and copies",
 "There is no test for it.",
 ["src/rng.h"],[("Xoshiro256","src/rng.h")],["generator outputs"])
p("C32","The secure RNG is AES-256 in counter mode",
 "For every key and block the cipher of secure_rng.h is AES-256 (FIPS 197), and the generator outputs for the 128-bit little-endian counter values 1, 2, 3 ... (with all carries) the xor of the two halves of the encrypted counter, never repeating or skipping a block. A seed is xored into the initial counter, and equal seeds or copied generators give equal streams.",
 ["inputs","histories"],"all seeds and request sequences, counters at every carry position",
 "There is no test for it.",
 ["src/secure_rng.h"],[("AES, AES_RNG","src/secure_rng.h")],["generator outputs"])
p("C33","Written PNG files decode to exactly the drawn pixels",
 "For every image size and content the written file is a well-formed 8-bit RGBA PNG (signature, chunk order, lengths, checksums, compressed stream, adler sum) which decodes to exactly the image's pixels, with the rows bottom-up iff FLIP_Y is set. The file is written when the image is destroyed, when write() is called or when it is assigned over, and only if it has a file name and is not empty.",
 ["inputs","configurations"],"all sizes and pixel contents including empty and block-boundary sizes",
 "There is no test for it.",
 ["src/visualizer_png.h"],[("Image::write, chunks, zlib, crc","src/visualizer_png.h")],["written file"])
p("C34","Raster drawing changes exactly the named pixels",
 "Each drawing operation inside the image (setting pixels, clear, copy, fillRectangle with border and fill, floodFill of the 4-connected area of equal color, drawLine) changes exactly the pixels of its geometric definition, combines colors by the chosen blend mode (assign, alpha blend, add, subtract) and leaves all other pixels as they were. Color arithmetic (construction, conversion, lerp, blend, saturating add and subtract, comparison) is exact up to rounding of the division.",
 ["histories"],"all small images, coordinates inside the image and operation sequences",
 "There is no test for it.",
 ["src/visualizer_png.h"],[("Image drawing functions","src/visualizer_png.h")],["pixels"])
p("C35","SVG output is well formed and its view box covers what was drawn",
 "For every drawing the written SVG is well-formed XML and contains the drawn elements in order, nested as drawn, with the given coordinates (y axis flipped), styles, text and comments. Its view box is the bounding box of all drawn elements (enlarged by the border); bounding boxes, points, dimensions and colors follow their arithmetic definition. Written numbers and colors do not depend on the state of the stream, and the file is written exactly once when the document ends or is written.",
 ["histories"],"all sequences of drawn elements",
 "There is no test for it.",
 ["src/visualizer_svg.h"],[("SVG document and elements","src/visualizer_svg.h")],["written file"])
p("C36","Overridden compile-time settings take effect everywhere",
 "Settings overridden before including validate.h take effect at every place they govern: the random engine (all random values, default seed, Random::seed and --seed), the default precision (streams, joins, constraint log), the default tolerance (floatEqual/Less/Greater, stream tolerances, attained flags of the constraint log), the default case (toDefaultCase and case-insensitive reads) and the exit function (every verdict, including failed reads and the end of a multipass pass, goes through it exactly once).",
 ["configurations"],"every single setting and their combination",
 "The tests override only the exit function and always use the defaults of everything else.",
 [V],[("configuration macros and constants, exitVerdict, RandomEngine","src/validate.h:1-222")],["outputs, exit status and constraints file of programs built with overridden settings"])
p("C37","The report of a failed read names the offending input and where it is",
 "Whenever a typed read, separator, expectation or end-of-file check fails on a seekable stream, the report gives the one-based line and zero-based column of the refused token or byte, an excerpt of that line (at most 80 bytes, elided ends marked) and a marker which covers exactly the refused piece. The reason states the values involved: the token or its value and the bounds, or the expected and the seen value with their exact differences and the first differing position. On streams that cannot be repositioned, and at the end of the input, no position is claimed.",
 ["inputs"],"all contents, stream modes and sequences of reads",
 "The tests look only at verdicts, never at the report.",
 [V],[("InputStream::fail, expectString, expectReal and the range checks","src/validate.h:2283-2750")],["text written to the report stream"])
p("C38","Whole programs: tests survive the pipe from generator to validator",
 "For every kind of test and every seed, what a generator writes with the library is read back by an input validator of the same kind with exactly the values that were generated, and accepted. After any change to the bytes in between, the validator accepts exactly when the changed file is still a test of the kind (layout, ranges, permutation or graph conditions), and otherwise rejects. An interactor and a team that alternate over pipes never deadlock: every guess that is read is answered before the next one is awaited, also when the team closes its output early, and the verdict is determined by the dialogue.",
 ["inputs","histories","schedules"],"all kinds and seeds of tests, all damages, all team behaviours",
 "Tests exercise each class alone and in-process; no test runs a generator into a validator or an interactor against a team.",
 [V,"src/graph_gen.h"],[("OutputStream, InputStream, Random, graph output, Interactor","src/validate.h:2141-2750")],["generated text, exit codes, answers of the interactor"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
