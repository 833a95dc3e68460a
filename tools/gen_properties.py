import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
D="src/data_structure/"; G="src/graph/"; M="src/math/"; X="src/misc/"; S="src/string/"; T="src/traits/"
p("C01","Disjoint sets: partition = connectivity of the joins so far",
 "After any sequence of joins and queries, two elements are in the same set exactly when they are connected by the joins performed so far. A join returns true exactly when it merged two different sets; the representative of an element is a member of its set, is the same for all members, and changes only when a join merges the set; the reported set size and the listing of all groups (each element listed exactly once) describe the same partition.",
 ["histories"],"every number of elements and every sequence of join / same / find / size / groups calls",
 "No test exercises this structure at all; correctness depends on the whole join history (link by size after path compression).",
 [D+"union_find.rs"],[("join / find with path compression",D+"union_find.rs"),("size, groups, is_same",D+"union_find.rs")],["return values of join, is_same, find, size, groups"],
 state=[("parent forest and set sizes","current partition",D+"union_find.rs")])
p("C02","Fenwick tree: prefix and range sums equal the running array",
 "After any history of construction (empty or from a slice) and point additions, the prefix sum up to i and the range sum over [l, r) equal the sums of the plain array obtained by performing the same additions, for every 0 <= l <= r <= n and every n including 0. Queries never change the contents.",
 ["histories","inputs"],"every length, initial contents, element type and sequence of add / pref / sum calls",
 "One fixed array of length 5 is tested; the index arithmetic depends on the bits of n and of each index.",
 [D+"fenwick_tree.rs"],[("low-bit walk in add/pref, linear construction",D+"fenwick_tree.rs")],["pref, sum"],
 state=[("tree array","partial sums over low-bit ranges",D+"fenwick_tree.rs")])
p("C03","Fenwick tree: partition point and search over the prefix sums",
 "For every array and every predicate that partitions its prefix-sum array, the partition point is the number of leading prefix sums satisfying the predicate, exactly as if the prefix-sum array were materialised and binary-searched; for an empty tree it is 0. The search for a target returns the first index whose prefix sum is at least the target, or n if there is none.",
 ["histories","inputs"],"every length (including 0 and non powers of two), contents after any updates, and every partitioning predicate or target",
 "Doc tests use one array of length 5 and a handful of thresholds.",
 [D+"fenwick_tree.rs"],[("binary descent over powers of two",D+"fenwick_tree.rs")],["partition_point, search"])
p("C04","Min-heap: pops the minimum and conserves its elements",
 "At every point of any history, peek and pop give an element with the least key among those pushed or appended and not yet popped, and exactly these elements are held: nothing is lost, duplicated or invented by push, pop, append, clear or conversion to a sorted vector. Length and emptiness agree with that multiset, append leaves the other heap empty, and the sorted vector lists the remaining elements in the reverse of pop order (largest first).",
 ["histories"],"every interleaving of push, pop, peek, len, append, clear and into_sorted_vec over any number of heaps, including equal keys",
 "No test exercises the heap.",[D+"min_heap.rs"],[("reversed ordering wrapper around a max-heap",D+"min_heap.rs")],["pop, peek, len, is_empty, into_sorted_vec"])
p("C05","Sparse table: idempotent range query equals the fold of the range",
 "For every slice (of any length), every associative and idempotent operation (commutative or not) and every 0 <= l < r <= n, the query over [l, r) equals folding the operation over v[l], ..., v[r-1] from left to right. Neither the filler value passed at construction nor elements outside [l, r) can influence the answer.",
 ["inputs"],"every slice, every associative idempotent operation, every non-empty range",
 "The tests use min on arrays of length 8 and 1000 only, so operand order, filler leakage and other lengths are not observed.",
 [D+"sparse_table.rs",X+"util.rs"],[("doubling rows and two overlapping blocks",D+"sparse_table.rs"),("floor log2",X+"util.rs")],["get"])
p("C06","Segment tree: point updates and ordered range products",
 "For every monoid (not only commutative ones) and any history of point assignments on an array of any length, including 0, reading a position, the product of a range [l, r) and the product of everything equal those of the plain array combined strictly from left to right; empty ranges give the identity. Queries never change the contents.",
 ["histories","inputs"],"every length, every monoid, every sequence of set / get / prod / all_prod calls and every range",
 "One array of length 10 with the commutative, idempotent max monoid is tested, which hides operand order, duplicated and out-of-range elements.",
 [D+"segtree.rs",X+"util.rs",T+"monoid.rs"],[("bottom-up tree update and two-sided product",D+"segtree.rs")],["get, prod, all_prod"],
 state=[("tree array d","products of aligned blocks",D+"segtree.rs")])
p("C07","Lazy segment tree: range updates apply exactly once, in order",
 "For every monoid with a compatible family of maps (distributing over the product; composition need not commute, and maps need not keep the identity value) and any history of point assignments, point updates, range updates and queries, every element equals its last assigned value with exactly the later covering updates applied to it, each once and in the order issued. Point reads, range products (combined left to right) and the total product are computed from exactly these values, and queries never change what later queries return.",
 ["histories","inputs"],"every length including 0 and non powers of two, every monoid/map family, and every interleaving of set, apply, apply_range, get, prod, all_prod",
 "The test uses commuting additions under max on one array of length 10 with a single range update, so update order, double or lost propagation across interleavings are not observed.",
 [D+"lazy_segtree.rs",T+"monoid.rs"],[("push-down of pending maps before access, recomputation after",D+"lazy_segtree.rs")],["get, prod, all_prod"],
 state=[("pending maps lz and block products d","deferred updates",D+"lazy_segtree.rs")])
p("C08","Segment trees: boundary searches give the exact boundary",
 "On both the plain and the lazy segment tree, in any reachable state and for every predicate that is true on the identity and monotone along the searched direction, the right search from l returns the largest r such that the predicate holds for the product of [l, r), and the left search from r returns the least l such that it holds for the product of [l, r). This holds for every n (including 0), every start position including both ends, and non-commutative monoids; searching never changes the contents.",
 ["histories","inputs"],"every reachable state, start position and monotone predicate",
 "The tests scan threshold predicates of max on one array of length 10.",
 [D+"segtree.rs",D+"lazy_segtree.rs"],[("max_right / min_left climbs and descents",D+"segtree.rs"),("max_right / min_left with push-down",D+"lazy_segtree.rs")],["max_right, min_left"])
p("C09","Heavy-light decomposition: path and subtree operations hit exact node sets",
 "On every tree, root and history of node assignments, path updates and subtree updates, a path operation between u and v acts on exactly the nodes of the unique simple path (both ends included, each once) and a subtree operation on exactly the descendants of the node including itself. Path and subtree products over a commutative monoid, and single-node reads, reflect exactly the updates issued so far, each applied once and in order; initial per-node values, when given, are attached to the right nodes.",
 ["histories","inputs"],"every tree shape and adjacency order, every root, and every interleaving of updates and queries",
 "No test exercises the decomposition.",
 [G+"heavy_light_decomp.rs",D+"lazy_segtree.rs"],[("heavy child choice, chain heads, positions",G+"heavy_light_decomp.rs"),("chain climbing in path operations",G+"heavy_light_decomp.rs")],["path_prod, subtree_prod, get"],
 state=[("pos / head / parent arrays","linear layout of chains",G+"heavy_light_decomp.rs")])
p("C10","Ancestor queries: LCA, ancestry, depth, distance and jump table are exact",
 "For every rooted tree, the lowest common ancestor of two nodes is the deepest node that is an ancestor of both (a node counts as its own ancestor), the ancestor test holds exactly for ancestor-or-self pairs, and the distance is the number of edges on the path between the nodes. The published depths, entry/exit intervals and power-of-two ancestor table describe the same tree, with jumps above the root staying at the root.",
 ["inputs"],"every tree, adjacency order, root and pair of nodes",
 "No test exercises it; the jump loop depends on depth bits and on the number of levels for the given n.",
 [G+"binary_lifting.rs",X+"util.rs"],[("depth-first numbering and doubling table",G+"binary_lifting.rs"),("lca jump loop",G+"binary_lifting.rs")],["lca, is_ancestor, dis, pa, dep, tin, tout"])
p("C11","Bipartite matching: the answer is the maximum matching size",
 "For every bipartite graph the solver returns the size of a maximum matching. Edges may be added after a solve, repeatedly and including duplicates, and each further solve returns the maximum matching size of all edges added so far.",
 ["histories","inputs"],"every bipartite graph, edge order, and interleaving of add_edge and solve",
 "No test exercises it; a greedy or partially augmenting search agrees with the optimum on simple graphs.",
 [G+"bipartite_matching.rs"],[("augmenting-path search with visited marks per phase",G+"bipartite_matching.rs")],["solve"],
 state=[("partner arrays","current matching",G+"bipartite_matching.rs")])
p("C12","Max flow: the answer equals the minimum cut, also incrementally",
 "For every directed network with non-negative integer capacities (parallel, antiparallel and self-loop edges included, any supported integer type in which the total flow fits), the returned flow equals the minimum cut capacity between two distinct terminals. The flow persists: after further edges are added, the values returned by all calls so far for the same terminals sum to the maximum flow of the current network, and each call is the largest additional amount.",
 ["histories","inputs"],"every network, capacity assignment, integer type, and interleaving of add_edge and max-flow calls",
 "No test exercises it; wrong residual handling shows only on networks that need flow to be rerouted.",
 [G+"max_flow.rs",T+"integral.rs"],[("level graph, blocking flow with current-arc pointers, paired residual edges",G+"max_flow.rs")],["get_max_flow"],
 state=[("residual capacities","flow pushed so far",G+"max_flow.rs")])
p("C13","Strongly connected components with reverse topological numbering",
 "For every directed graph (self-loops and parallel edges included), two vertices get the same component number exactly when each is reachable from the other. The numbers used are exactly 0 to count-1, and every edge between different components goes from a higher to a lower number.",
 ["inputs"],"every directed graph and adjacency order",
 "No test exercises it.",[G+"tarjan.rs"],[("low-link depth-first search with stack",G+"tarjan.rs")],["scc"])
p("C14","Shortest paths: exact distances, none iff unreachable",
 "For every directed graph with non-negative integer weights (zero weights, self-loops and parallel edges included) and every source, the result gives each vertex the minimum total weight over all paths from the source, the source itself 0, and no distance exactly for the unreachable vertices.",
 ["inputs"],"every weighted digraph and source for which path lengths fit the word size",
 "No test exercises it.",[G+"shortest_path.rs",D+"min_heap.rs"],[("label-setting search with a min-heap and stale-entry skip",G+"shortest_path.rs")],["dijkstra"])
p("C15","Prefix function is exact for every sequence",
 "For every sequence of comparable symbols (including the empty one), entry i of the result is the length of the longest proper prefix of s[0..=i] that is also a suffix of it.",
 ["inputs"],"every sequence over every alphabet","No test exercises it; errors show only on particular periodic patterns.",
 [S+"kmp.rs"],[("border chain fallback loop",S+"kmp.rs")],["kmp"])
p("C16","Z function is exact for every sequence",
 "For every sequence of comparable symbols (including the empty one), entry i >= 1 of the result is the length of the longest common prefix of s and s[i..], and entry 0 is 0.",
 ["inputs"],"every sequence over every alphabet","No test exercises it; window reuse errors show only on particular overlaps.",
 [S+"z_algorithm.rs"],[("rightmost window reuse",S+"z_algorithm.rs")],["z_function"])
p("C17","Multi-pattern matching reports exactly the occurrences",
 "For every set of non-empty patterns over the configured alphabet, inserted in any order, and every text, the all-matches query lists for each text position exactly the patterns ending there, each once and longest first, and the count query gives each pattern's number of occurrences (overlaps included). The single-match query answers, for each position, the pattern equal to the longest suffix of the text read so far that is a prefix of some pattern, and nothing if that suffix is not itself a pattern; a pattern inserted more than once is reported under its latest index only.",
 ["inputs","histories","configurations"],"every pattern set (prefixes, suffixes and repeats of one another included), insertion order, alphabet offset/size, and text",
 "No test exercises it; suffix-link errors need patterns nested in one another at particular depths.",
 [S+"aho_corasick.rs"],[("breadth-first construction of failure and output links",S+"aho_corasick.rs"),("automaton walk in the three queries",S+"aho_corasick.rs")],["find, find_all, find_cnt"])
p("C18","Modular integers: exact ring arithmetic in canonical form",
 "For every modulus m with 1 <= m <= 2^31, static or dynamic, every value ever produced by construction, addition, subtraction, multiplication, negation, sums, products or their assigning and by-reference forms is the unique representative in [0, m) of the exact integer result. Two values are equal, hash equally and print the same exactly when they are congruent.",
 ["inputs","histories","configurations"],"every modulus up to 2^31, every pair of operands, every chain of operations",
 "Tests sample a few values for one prime modulus; the dynamic-modulus reduction and the extreme moduli are not exercised.",
 [X+"modint.rs",M+"internal_math.rs"],[("add/sub/mul/neg implementations and operator forwarding",X+"modint.rs"),("Barrett reduction",M+"internal_math.rs")],["val, ==, Display, Hash"])
p("C19","Modular integers: lossless conversion from every integer type and text",
 "Converting any value of any primitive integer type (8 to 128 bits, signed or unsigned, pointer-sized) or the decimal text of any 64-bit signed integer gives its exact residue in [0, m), including the extreme values of each type and negative numbers; any other text is refused, or, when it is a decimal number, gives the exact residue. Mixing a modular integer with a primitive integer in an arithmetic operator equals converting the primitive first.",
 ["inputs","configurations"],"every value of every primitive integer type, every modulus, static and dynamic",
 "Tests sample small values of five types for one modulus.",
 [X+"modint.rs"],[("per-type reduction implementations",X+"modint.rs")],["new, from, parse, mixed operators"])
p("C20","Modular power, inverse and division are exact or refused",
 "For every modulus up to 2^31, raising to any 64-bit exponent gives the exact power (the zeroth power is 1 mod m), and inverse and division give the unique canonical solution whenever the divisor is coprime to the modulus, for prime and composite, static and dynamic moduli. When the divisor is not invertible the operation panics instead of returning a value.",
 ["inputs","configurations"],"every modulus, base, 64-bit exponent and divisor",
 "Tests divide a few values by a few units of one prime modulus.",
 [X+"modint.rs",M+"internal_math.rs"],[("square-and-multiply, Fermat inverse for prime hint, extended-gcd inverse otherwise",X+"modint.rs"),("inv_gcd",M+"internal_math.rs")],["pow, inv, /"])
p("C21","Dynamic modulus: every operation uses the latest modulus of its own family",
 "After any sequence of modulus changes, every operation on values of a dynamic-modulus family created since the change uses exactly the modulus set last for that family, and the family reports that modulus. Families with different identifiers never affect one another, and a family whose modulus was never set uses 998244353.",
 ["histories","configurations"],"every sequence of set_modulus calls interleaved with operations over several families",
 "A doc test sets the modulus once and reads it back.",
 [X+"modint.rs"],[("per-identifier reducer state updated by set_modulus",X+"modint.rs")],["modulus, val of results"],
 state=[("modulus and reciprocal","reducer of the family",X+"modint.rs")])
p("C22","Factorial tables give exact binomials and permutations",
 "For every prime modulus p, table size n < p and 0 <= k <= m <= n, the combination query equals the binomial coefficient C(m, k) mod p and the permutation query equals m!/(m-k)! mod p.",
 ["inputs","configurations"],"every table size, modulus and argument pair",
 "No test exercises it.",[M+"factorial.rs",X+"modint.rs"],[("factorial and inverse factorial tables",M+"factorial.rs")],["choose, perm"])
p("C23","gcd, lcm and Bezout coefficients are exact",
 "For every pair of integers of a supported type, the gcd is the greatest common divisor (up to sign when an argument is negative; gcd(a, 0) is a), and the lcm is the least common multiple (up to sign) whenever the arguments are not both zero and it fits the type, even if the product of the arguments does not fit. For signed types, the extended form returns (x, y, g) with a*x + b*y = g, where g is the gcd of a and b up to sign, without overflow.",
 ["inputs"],"every pair of values of every integer type (signed types for the extended form; the minimum value of a signed type excluded)",
 "No test exercises these functions.",[M+"number_theory.rs",T+"integral.rs"],[("Euclid loops",M+"number_theory.rs")],["gcd, lcm, ex_gcd"])
p("C24","Linear congruence systems: least solution and period, or none",
 "For every system a[i]*x = b[i] (mod m[i]) with positive moduli (not necessarily coprime; coefficients and right sides of any sign, zero included; intermediate products fitting 63 bits), the solver returns no solution exactly when none exists. Otherwise it returns the least non-negative solution together with the positive period L such that the solutions are exactly that value plus multiples of L.",
 ["inputs"],"every system of congruences within the size bound",
 "No test exercises it; sign handling and non-coprime moduli need particular systems.",
 [M+"number_theory.rs"],[("incremental merging of congruences by extended gcd",M+"number_theory.rs")],["ex_crt"])
p("C25","Token reader: the exact token sequence, in order, once each",
 "For every text, the successive reads of any mixture of kinds (parsed value, optional value, integers, bytes, characters, vectors) consume the maximal runs of non-whitespace of the text from left to right, each exactly once, none skipped or split, and return each token's exact value. The optional read returns nothing exactly when no token is left and then stays exhausted.",
 ["inputs","histories"],"every text (any Unicode whitespace, empty text, trailing whitespace) and every sequence of reads",
 "No test exercises it.",[X+"input.rs"],[("whitespace-splitting iterator shared by all readers",X+"input.rs")],["read, checked_read, i32, i64, usize, bytes, chars, vec"])
p("C26","Recursive closures behave as recursive functions with shared state",
 "For every arity from 0 to 9, calling a recursive closure runs its body with exactly the given arguments in the given positions, nested calls made from the body run to completion and return their result to the call site that made them, and the caller then continues with its own arguments intact. State captured by the closure is shared by all nested calls: each sees the effects of every earlier call.",
 ["programs","histories"],"every arity, call tree (any branching and depth) and captured state",
 "No test exercises it.",[X+"recursive_function.rs"],[("self-referential callable with interior mutability",X+"recursive_function.rs")],["call"])
p("C27","Built-in monoids and numeric constants are right for every integer type",
 "For every supported integer type, the provided max, min, additive and multiplicative monoids combine by the named operation and their identity leaves every value of the type unchanged on either side. The type's zero, one, minimum and maximum constants are the true ones. Over an element type of the user's own the monoids use that type's order, sum, product and constants, with the operands in the order given.",
 ["inputs","configurations"],"every supported integer type and every value, extremes included",
 "Only the i32 max monoid is exercised indirectly.",[X+"monoids.rs",T+"numeric.rs"],[("monoid definitions",X+"monoids.rs"),("per-type constants",T+"numeric.rs")],["identity, binary_operation, zero, one, min_value, max_value"])
p("C28","Out-of-contract requests are refused and change nothing",
 "A request that violates a stated precondition panics and never returns a value: element, position or vertex out of range and reversed ranges for disjoint sets, segment trees (plain, lazy and on trees) and flow networks, an empty range for a sparse table, a search predicate that is false on the identity, mismatched sizes or an out-of-range root at construction on a tree, k > n or n beyond the table for factorials, an empty pattern, a zero modulus. After a refused request the structure still answers every valid request as if it had never been made.",
 ["inputs","histories"],"every invalid request at every point of every history of valid ones",
 "No test issues an invalid request to these structures.",
 [D+"segtree.rs",D+"lazy_segtree.rs",D+"union_find.rs",D+"sparse_table.rs",G+"heavy_light_decomp.rs",G+"max_flow.rs",M+"factorial.rs",S+"aho_corasick.rs",X+"modint.rs"],
 [("assertions at the entry of each operation","all listed files")],["panic or return of each call, later query results"])
p("C29","Internal number theory: primality, roots, powers, inverses are exact",
 "The primality test used to validate moduli is right for every 32-bit signed integer, the primitive root of a prime is its least (or tabulated) generator of the full multiplicative group, modular power and reduction are exact for all 64-bit arguments and 31-bit moduli, and the gcd-inverse pair (g, x) satisfies g = gcd(a, b), x*a = g (mod b), 0 <= x < b/g for all 64-bit a and positive b.",
 ["inputs"],"every argument in the documented ranges",
 "Tests sieve up to one million and sample larger values; strong pseudoprimes and extreme arguments are not reached.",
 [M+"internal_math.rs"],[("Miller-Rabin with bases 2, 7, 61",M+"internal_math.rs"),("primitive root search, square-and-multiply, contract-annotated extended gcd",M+"internal_math.rs")],["guarded re-export of the crate-private functions"],
 hook="cfg-guarded public re-export of crate-private functions")
p("C30","Integer logarithms are exact over the whole word",
 "For every positive machine-word integer i the floor logarithm is the k with 2^k <= i < 2^(k+1), and for every 32-bit unsigned n the ceiling logarithm is the least k with 2^k >= n (0 for n = 0 and 1).",
 ["inputs"],"every argument","Tests sample the ceiling logarithm at thirteen points; the floor one is untested.",
 [X+"util.rs"],[("leading-zero arithmetic",X+"util.rs")],["lg, ceil_lg"])
p("C31","Operations cost what they advertise, in calls to the user's operations",
 "Counted in calls to the user-supplied operations (monoid products, update applications and compositions, predicate calls, comparisons, equality tests, additions), every call stays within the order it advertises, on every size and input. Building a segment tree (plain, lazy, on a tree) or Fenwick tree of n elements, and computing a prefix function or Z-function, is linear in n; building a sparse table is O(n log n), its queries are constant. Single-element, range, prefix and search calls on segment and Fenwick trees are O(log n); path calls on a tree are O(log^2 n) for every shape of tree, its subtree calls O(log n). Heap push and pop make O(log n) comparisons, peek none or constantly many, sorting O(n log n). The constants are those of /verif/spec/Costs.tla, about twice what the algorithms need.",
 ["inputs","configurations"],"every size, argument, tree shape, word and history; every monoid, predicate and order",
 "Tests use arrays of about ten elements and do not count anything; a degraded walk (a whole-array scan, an unshortened failure chain, a wrong heavy child) gives the same answers.",
 [D+"segtree.rs",D+"lazy_segtree.rs",D+"fenwick_tree.rs",D+"min_heap.rs",D+"sparse_table.rs",G+"heavy_light_decomp.rs",S+"kmp.rs",S+"z_algorithm.rs"],
 [("node walks of both segment trees",D+"segtree.rs and "+D+"lazy_segtree.rs"),("failure links and the match window",S+"kmp.rs and "+S+"z_algorithm.rs"),("heavy child choice",G+"heavy_light_decomp.rs")],["counts kept by the user's own operations during each call"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+"\n" for x in P))
print(len(P))
