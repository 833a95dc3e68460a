"""Which stages decide which property."""
ASSUME = [
    "TLC and the CommunityModules evaluate the specifications correctly",
    "rustc compiles the driver and the library faithfully; the driver runs with overflow checks and debug assertions on",
    "the driver encodes arguments and results faithfully (results outside 32 bits become a sentinel no specification accepts)",
]


def model(module, comp=None, consts=None, thorough=None, **kw):
    d = dict(kind="model", module=module, consts=consts or {}, thorough=thorough or {}, **kw)
    if comp:
        d["comp"] = comp
    return d


def trace(module, comp, quick, thorough, **kw):
    return dict(kind="trace", module=module, comp=comp, n=(quick, thorough), **kw)


PROPS = {
    "C01": dict(
        stages=[model("UnionFindAlg", "union_find", dict(N=4), dict(N=5), trace="UnionFindTrace"),
                trace("UnionFindTrace", "union_find", 3200, 20000)],
        explain="forest algorithm refined to partitions for all histories of N elements, every transition replayed; random histories validated"),
    "C02": dict(
        stages=[model("FenwickAlg", "fenwick", dict(N=4, Bound=1, Kind='"sums"'), dict(N=6), trace="FenwickTrace"),
                trace("FenwickTrace", "fenwick", 4800, 30000)],
        explain="Fenwick tree algorithm refined to the plain array for all arrays and additions within bounds, every transition replayed; random histories validated"),
    "C03": dict(
        stages=[model("FenwickAlg", "fenwick_search", dict(N=4, Bound=1, Kind='"search"'), dict(N=6), trace="FenwickTrace"),
                trace("FenwickTrace", "fenwick_search", 4800, 30000)],
        explain="descent algorithm checked against the definition of the partition point for all arrays within bounds, every transition replayed; random histories validated"),
    "C04": dict(
        stages=[model("HeapAlg", "heap", dict(MaxPush=4), dict(MaxPush=6), trace="HeapTrace"),
                trace("HeapTrace", "heap", 4800, 30000)],
        explain="binary heap algorithm refined to bags, every transition replayed; random histories over several heaps with keyed, identified elements validated"),
    "C05": dict(
        stages=[model("SparseAlg", "sparse", {}, dict(Sizes="0 .. 70"), trace="SparseTrace"),
                trace("SparseTrace", "sparse", 3200, 12000)],
        explain="table construction and queries over symbolic blocks (right for every associative idempotent operation) for all ranges of each size; random histories with symbolic and concrete operations validated"),
    "C06": dict(
        stages=[model("SegTreeAlg", "segtree", dict(Lazy="FALSE", Sizes="{0, 1, 2, 3, 4, 5}", Muts=2, Kind='"products"'), dict(Muts=3), trace="SegTrace"),
                trace("SegTrace", "segtree", 4000, 20000)],
        explain="node-array algorithm over the free monoid refined to the plain array, every transition replayed; random histories validated"),
    "C07": dict(
        stages=[model("SegTreeAlg", "lazy", dict(Lazy="TRUE", Sizes="{0, 1, 2, 3, 4}", Muts=2, Kind='"products"'), dict(Muts=3), trace="SegTrace"),
                trace("SegTrace", "lazy", 4000, 20000)],
        explain="lazy propagation over free words and free updates refined to the plain array, every transition replayed; random histories validated"),
    "C08": dict(
        stages=[model("SegTreeAlg", "search", dict(Lazy="TRUE", Sizes="{0, 1, 2, 3}", Muts=2, Kind='"searches"'), dict(Muts=3), trace="SegTrace"),
                model("SegTreeAlg", "search", dict(Lazy="FALSE", Sizes="{0, 1, 2, 3, 4, 5}", Muts=1, Kind='"searches"'), dict(Muts=2), trace="SegTrace"),
                trace("SegTrace", "search", 4800, 20000)],
        explain="search algorithms on both trees checked against the definition of the boundary in every reachable state, every transition replayed; random histories validated"),
    "C09": dict(
        stages=[model("HldAlg", "hld", dict(Sizes="{1, 2, 3, 4}", Muts=1), dict(Muts=2), trace="HldTrace"),
                trace("HldTrace", "hld", 4000, 20000)],
        explain="heavy-light layout and climbing algorithm checked against the array of nodes for every rooted labelled tree up to the given sizes, every transition replayed on both path and subtree operations; random histories on larger trees validated"),
    "C10": dict(
        stages=[model("LiftAlg", "lift", dict(Sizes="{1, 2, 3, 4}"), dict(Sizes="{1, 2, 3, 4, 5}"), trace="LiftTrace"),
                trace("LiftTrace", "lift", 4000, 20000)],
        explain="entry/exit stamping and doubling table built step by step for every rooted labelled tree up to the given sizes, checked against ancestor sets and replayed; random trees (paths, stars, random, caterpillars) validated"),
    "C11": dict(
        stages=[model("MatchingAlg", "matching", dict(NL=3, NR=2, MaxEdges=4), dict(NL=3, NR=3, MaxEdges=5), trace="MatchingTrace"),
                trace("MatchingTrace", "matching", 4000, 20000)],
        explain="phased augmenting search checked to reach a maximum matching for every edge sequence within bounds, solves interleaved with insertions, every history replayed; random histories validated against Koenig-certified optima"),
    "C12": dict(
        stages=[model("DinicAlg", "flow", dict(N=3, MaxEdges=3), dict(MaxEdges=4), trace="FlowTrace"),
                trace("FlowTrace", "flow", 4000, 20000)],
        explain="level graph, blocking flow and residual pairs checked to reach the minimum cut for every small network with incremental edges and calls, every history replayed; random networks validated with a cut certificate"),
    "C13": dict(
        stages=[model("TarjanAlg", "scc", dict(N=3, Loops="TRUE"), dict(), fill="GraphTrace"),
                trace("GraphTrace", "scc", 4000, 20000)],
        explain="one-step-per-state low-link search checked for every digraph up to N vertices, replayed; random graphs validated"),
    "C14": dict(
        stages=[model("DijkstraAlg", "dijkstra", dict(N=3, W="{0, 1, 2}"), {}, trace="GraphTrace"),
                trace("GraphTrace", "dijkstra", 4000, 20000)],
        explain="label-setting search with arbitrary tie-breaking checked for every weighted digraph up to N vertices, replayed; random graphs validated"),
    "C15": dict(
        stages=[model("KmpAlg", "kmp", dict(Symbols="{1, 2}", MaxLen=11), dict(MaxLen=14)),
                model("KmpAlg", "kmp", dict(Symbols="{1, 2, 3}", MaxLen=7), dict(MaxLen=9)),
                trace("StringsTrace", "kmp", 3200, 20000)],
        explain="border-chain loop checked for every word over the alphabets up to the given lengths, replayed; random, periodic and Fibonacci-like words validated"),
    "C16": dict(
        stages=[model("ZAlg", "z", dict(Symbols="{1, 2}", MaxLen=10), dict(MaxLen=13)),
                model("ZAlg", "z", dict(Symbols="{1, 2, 3}", MaxLen=7), dict(MaxLen=8)),
                trace("StringsTrace", "z", 3200, 20000)],
        explain="window algorithm checked for every word over the alphabets up to the given lengths, replayed; random, periodic and Fibonacci-like words validated"),
    "C17": dict(
        stages=[model("AhoAlg", "aho", dict(MaxLen=3, MaxPats=3, Text="DeBruijn6"), dict(MaxPats=3, MaxLen=4, Text="DeBruijn6")),
                model("AhoAlg", "aho", dict(Symbols="{0, 1, 2}", MaxLen=2, MaxPats=3, Text="Ternary3", Alpha=2), dict(MaxPats=4)),
                trace("PatternsTrace", "aho", 2000, 20000)],
        explain="trie, failure and output links checked against longest-suffix semantics for every pattern list within bounds, each run on a text containing all short words; random pattern sets, alphabets and texts validated"),
    "C18": dict(
        stages=[model("BarrettAlg", "ring", dict(H=6, Static="TRUE"), dict(H=7), trace="ResiduesTrace"),
                trace("ResiduesTrace", "ring", 3200, 20000)],
        explain="word-level Barrett reduction (H-bit half words) exact for every modulus and pair, replayed on dynamic and static families in every operator form; random chains with moduli up to 2^31 validated"),
    "C19": dict(
        stages=[model("ConvertAlg", "convert", dict(MaxM=8, Wide="TRUE"), dict(MaxM=40), trace="ResiduesTrace"),
                trace("ResiduesTrace", "convert", 3200, 20000)],
        explain="residue of every 8-bit value (both signs) for every modulus up to MaxM and the extreme ones, replayed on twelve types and decimal text; random wide values validated"),
    "C20": dict(
        stages=[model("FieldAlg", "field", dict(MaxM=24, MaxE=20), dict(MaxM=64, MaxE=40), trace="ResiduesTrace"),
                trace("ResiduesTrace", "field", 3200, 20000)],
        explain="Euclidean loop and repeated squaring with their contracts for every modulus, residue and exponent in bounds, replayed; random moduli up to 2^31 and 64-bit exponents validated"),
    "C21": dict(
        stages=[model("FamiliesAlg", "families", dict(Depth=4), dict(Depth=5), trace="ResiduesTrace"),
                trace("ResiduesTrace", "families", 3200, 20000)],
        explain="two-word modulus state of several families: every history of Depth requests replayed; random histories over several families validated"),
    "C22": dict(
        stages=[model("FactorialAlg", "factorial", {}, dict(Primes="Large"), trace="FactorialsTrace"),
                trace("FactorialsTrace", "factorial", 2400, 8000)],
        explain="construction loops checked for every table size below every small prime against Pascal's triangle, replayed; random static and dynamic primes validated"),
    "C23": dict(
        stages=[model("EuclidAlg", "divisors", dict(W=5, Wide="TRUE"), dict(W=8), fill="DivisorsTrace"),
                trace("DivisorsTrace", "divisors", 2400, 15000)],
        explain="Euclid's recursion with overflow bookkeeping for every pair of values of a small signed type, executed on the real types and judged by certificates; random wide values of all twelve types validated"),
    "C24": dict(
        stages=[model("CrtAlg", "congruences", {}, dict(As="More", Bs="More", Moduli="1 .. 6"), trace="CongruencesTrace"),
                model("CrtAlg", "congruences", dict(Moduli="{4, 6}", As="Tiny", Bs="Tiny", MaxLen=3),
                      dict(Moduli="{2, 4, 6, 9}"), trace="CongruencesTrace"),
                trace("CongruencesTrace", "congruences", 400, 15000)],
        explain="incremental merging checked against exhaustive search for every system within bounds, replayed; random systems with terms up to 2^60 decided by pairwise compatibility"),
    "C25": dict(
        stages=[model("ReaderAlg", "reader", dict(MaxLen=5), dict(MaxLen=6), trace="ReaderTrace"),
                trace("ReaderTrace", "reader", 2000, 30000)],
        explain="splitting iterator checked against maximal runs for every text over the symbols up to MaxLen and every read sequence, replayed; random Unicode texts and read mixtures validated"),
    "C26": dict(
        stages=[model("RecursionAlg", "recursion", dict(MaxCalls=7), dict(MaxCalls=9), trace="RecursionTrace"),
                trace("RecursionTrace", "recursion", 2400, 15000)],
        explain="stack machine checked against denotational semantics for every call tree up to MaxCalls and every arity, replayed with full reports; random call trees validated"),
    "C27": dict(
        stages=[model("MonoidAlg", "monoids", trace="MonoidsTrace"),
                trace("MonoidsTrace", "monoids", 1920, 12000)],
        explain="monoid laws for every 8-bit value and the edge values of all twelve types, replayed; random values validated"),
    "C28": dict(
        stages=[model("SegTreeAlg", "segtree", dict(Lazy="FALSE", Sizes="{0, 1, 2, 3, 4, 5}", Muts=1, Kind='"refusals"'), dict(Muts=2), trace="SegTrace"),
                model("SegTreeAlg", "lazy", dict(Lazy="TRUE", Sizes="{0, 1, 2, 3}", Muts=2, Kind='"refusals"'), dict(Sizes="{0, 1, 2, 3, 4, 5}"), trace="SegTrace"),
                model("HldAlg", "hld", dict(Sizes="{1, 2, 3}", Muts=1, Invalid="TRUE"), dict(Sizes="{1, 2, 3, 4}"), trace="HldTrace"),
                model("SparseAlg", "sparse", dict(Sizes="0 .. 18", Invalid="TRUE"), dict(Sizes="0 .. 34"), trace="SparseTrace"),
                model("DinicAlg", "flow", dict(Invalid="TRUE", MaxEdges=2), dict(MaxEdges=3), trace="FlowTrace"),
                model("FactorialAlg", "factorial", dict(Invalid="TRUE"), trace="FactorialsTrace"),
                model("FamiliesAlg", "families", dict(Depth=3, Invalid="TRUE"), dict(Depth=4), trace="ResiduesTrace"),
                model("UnionFindAlg", "union_find", dict(N=4, Invalid="TRUE"), dict(N=5), trace="UnionFindTrace"),
                model("AhoAlg", "aho", dict(MaxLen=2, MaxPats=3, Invalid="TRUE"), dict(MaxLen=3), trace="PatternsTrace"),
                trace("SegTrace", "seg_inv", 2400, 10000), trace("HldTrace", "hld_inv", 2400, 10000),
                trace("SparseTrace", "sparse_inv", 1600, 6000), trace("FlowTrace", "flow_inv", 2400, 10000),
                trace("FactorialsTrace", "factorial_inv", 1200, 4000), trace("ResiduesTrace", "modulus_inv", 1200, 5000),
                trace("UnionFindTrace", "union_find_inv", 1600, 8000), trace("PatternsTrace", "aho_inv", 750, 5000)],
        explain="histories mixing valid and invalid requests: the specification demands refusal of every invalid one and unchanged answers afterwards"),
    "C29": dict(
        internal=True,
        stages=[model("InternalAlg", "internal", {}, dict(MaxN=60000, MaxB=150, MaxM=64), trace="InternalTrace"),
                trace("InternalTrace", "internal", 1600, 8000)],
        explain="Miller-Rabin and the gcd-inverse loop step by step for every small argument, replayed through the hook; random arguments, strong pseudoprimes and extreme values validated by trial division"),
    "C30": dict(
        stages=[model("LogAlg", "logs", {}, dict(Bits=14), trace="LogsTrace"),
                trace("LogsTrace", "logs", 2400, 20000)],
        explain="leading-zero arithmetic for every Bits-bit word, and every word near sums and differences of powers of two of the real sizes, replayed; random words validated"),
    "C31": dict(
        stages=[model("CostAlg", "cost", {}, dict(Sizes="0 .. 70", Calls="0 .. 20"), fill="CostTrace"),
                trace("CostTrace", "cost", 4800, 16000)],
        explain="the walks behind every counted operation, one loop iteration per step with every answer the user's operations may give, stay within the budgets for every size, position and range explored; the same calls on the real structures, and random calls on large ones with adversarial inputs, report the operations they made and are judged by the same budgets"),
}
