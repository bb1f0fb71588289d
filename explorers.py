"""Which explorers (programs of mc/) decide which property."""


def both(src):
    return [(src, "-DCONF=conf0"), (src, "-DCONF=conf1")]


# as users compile the library: without its assertions
RELEASE = ["-DNDEBUG", "-O2"]

EXPLORERS = {
    "algebra": {"units": both("algebra.cc")},
    "canon": {"units": both("canon.cc")},
    "hom": {"units": both("hom.cc")},
    "values": {"units": [("values.cc", ""),
                         ("values.cc", '-DVT=unsigned -DVT_N=8 -DVT_NAME=unsigned'),
                         ("values.cc", '-DVT=int -DVT_N=6 -DVT_NAME=int'),
                         ("values.cc", '-DVT=std::string -DVT_N=6 -DVT_NAME=string')], "asan": True},
    "order": {"units": [("order.cc", "-DCONF=conf0"), ("order.cc", "-DCONF=conf2")]},
    "mem": {"units": [("mem.cc", "")], "asan": True},
    "memrel": {"units": [("mem.cc", "")], "asan": True, "flags": RELEASE},
    "own": {"units": both("own.cc"), "asan": True},
    "ownpaths": {"units": [(s, d + " -DENUMERATIONS") for s, d in both("own.cc")]},
    "fault": {"units": both("fault.cc"), "asan": True},
    "mgr": {"units": [("mgr.cc", "")] + [("mgr_conf.cc", "-DMAKER=make_any_%s -DMCONF=%s%s" % (c, "sdd::" if c[-1] in "012" else "", c))
                                          for c in ("conf0", "conf1", "conf2", "conf_b", "conf_s")], "asan": True},
    "history": {"units": both("history.cc")},
    "homcons": {"units": both("homcons.cc")},
    "scale": {"units": both("scale.cc"), "flags": RELEASE},
    "scalehom": {"units": both("scalehom.cc"), "flags": RELEASE},
    "scaleown": {"units": both("scaleown.cc"), "asan": True, "flags": ["-DNDEBUG"]},
    "outputs": {"units": [("outputs.cc", "-DCONF=conf0"), ("outputs.cc", "-DCONF=conf1 -DWITH_FLAT_SET"), ("outputs.cc", "-DCONF=conf2")]},
    "dd": {"units": [("dd.cc", "-DCONF=conf0"), ("dd.cc", "-DCONF=conf1 -DWITH_FLAT_SET")]},
}
for _n in ("values", "order", "mgr", "homcons", "dd"):
    EXPLORERS[_n + "rel"] = dict(EXPLORERS[_n], flags=RELEASE)

NOTE = "Bounded exhaustive. Trusts the explicit-set model, the reading of the public interface by the harness and that larger " \
       "spaces add no new case. "

PROPERTIES = {
    "C01": {
        "level": "model_checking",
        "runs": [{"explorer": "algebra"}, {"explorer": "scale", "select": "/C01/"}],
        "bounds": "every set (and every pair of sets, every sequence of 3-4 operands) over shapes of at most 8-9 "
                  "assignments, flat and hierarchical; relations over n values (n<=64, 255, 258) and automata over "
                  "n levels (n<=12, 100); families of diagrams over frames of up to hundreds of leaves in several arrangements; automata of thousands of states by level and residue",
        "technique": "exhaustive enumeration of operands on the real library against an explicit-set model",
        "note": NOTE + "Every operand tuple of the stated shapes, several table/cache sizes and address policies.",
    },
    "C02": {
        "level": "model_checking",
        "runs": [{"explorer": "canon"}, {"explorer": "scale", "select": "/C02/"}],
        "bounds": "every set of shapes of at most 12 assignments by 5 constructions and 12 identities; all edges of the graph of sets; all "
                  "insertion orders of sets of 3-6 assignments; nodes of 1..260 arcs; all placements of blocks with at most 2 (thorough 3) deviations; families of large diagrams by several constructions",
        "technique": "exhaustive enumeration of construction histories and of heap placements on the real library against an explicit-set model",
        "note": NOTE + "The allocator of the explorer decides the addresses, so the address-dependent order of arcs is explored and reproducible.",
    },
    "C03": {
        "level": "model_checking",
        "runs": [{"explorer": "history"}, {"explorer": "scale", "select": "/C03/"}, {"explorer": "scalehom", "select": "/C03/"}],
        "bounds": "every program of 3-4 (thorough 5) steps out of 15 (operations, applications, resets) in long-lived and fresh managers under 5 resource "
                  "configurations; each of the six sizes varied over 8-31 values; every placement with at most 1 (thorough 2) deviations; all pairs of applications interleaved; families of large diagrams and homomorphisms under small and large resources",
        "technique": "exhaustive enumeration of operation sequences, resource sizes and heap placements on the real library against an explicit-set model",
        "note": NOTE + "The allocator of the explorer decides the addresses, so executions are reproducible.",
    },
    "C04": {
        "level": "model_checking",
        "runs": [{"explorer": "own"}, {"explorer": "ownpaths"}, {"explorer": "scaleown", "select": "/C04/"}],
        "bounds": "every sequence of up to 3 (thorough 4) of 42 handle operations and up to 4-5 of each kind, over 3 diagram registers, 2 homomorphism registers and a container; "
                  "applications of all pairs of a base of homomorphisms, plain and rewritten; containers and abandoned enumerations of every set of small shapes; hundreds of handles and of large diagrams, copied, moved and dropped in several orders",
        "technique": "exhaustive enumeration of sequences of handle operations on the real library (AddressSanitizer, exact counts of unified elements and of heap blocks) against a hash-consing model",
        "note": NOTE + "Counts are taken after the caches have been filled with known operations.",
    },
    "C05": {
        "level": "model_checking",
        "runs": [{"explorer": "dd", "select": "/top/"}, {"explorer": "ddrel", "select": "/top/", "tier": "thorough"}, {"explorer": "scale", "select": "/C05/"}],
        "bounds": "all pairs of 232 diagrams of mixed shapes under the six operators, all triples of 57 and quadruples of 21 in every order; one incompatible operand at every place among many or at every depth of large diagrams",
        "technique": "exhaustive enumeration of operand tuples on the real library against a set-of-words model",
        "note": NOTE + "Where the statement leaves it open (incompatibility below compatible roots), both a refusal and the exact result are accepted.",
    },
    "C06": {
        "level": "model_checking",
        "runs": [{"explorer": "dd", "select": "/count/"}, {"explorer": "ddrel", "select": "/count/", "tier": "thorough"}, {"explorer": "scale", "select": "/C06/"}],
        "bounds": "every set of 14 (thorough 18) shapes of at most 12 (16) assignments; every prefix of every enumeration and every pair of "
                  "interleaved enumerations of shapes of 4-6 (8) assignments; families up to 64^200 and 7^512 assignments; families of large diagrams",
        "technique": "exhaustive enumeration of diagrams and of enumeration prefixes on the real library against an explicit-set model",
        "note": NOTE,
    },
    "C07": {
        "level": "model_checking",
        "runs": [{"explorer": "hom", "select": "/eval/"}, {"explorer": "scalehom", "select": "/C07/"}],
        "bounds": "every expression of a grammar of all combinators up to two combinators over 25-45 leaves, on every set of shapes of 4-9 "
                  "assignments, flat and nested; fixpoints of every relation over 3 (4) states; homomorphisms over frames of tens of levels, with tens of operands, chains and counters of hundreds of states",
        "technique": "exhaustive enumeration of expressions and operands on the real library against a denotational model",
        "note": NOTE,
    },
    "C08": {
        "level": "model_checking",
        "runs": [{"explorer": "hom", "select": "/rewrite/"}, {"explorer": "scalehom", "select": "/C08/"}],
        "bounds": "rewriting of every expression of the same grammar under every order of the shape, on every set; all transition systems of up "
                  "to 3 (thorough 4) transitions out of a pool, several hierarchies; rings, pipelines and counters of tens of levels in several hierarchies",
        "technique": "exhaustive enumeration of expressions, orders and transition systems on the real library against a denotational model",
        "note": NOTE,
    },
    "C09": {
        "level": "model_checking",
        "runs": [{"explorer": "homcons"}, {"explorer": "homconsrel", "tier": "thorough"}, {"explorer": "scalehom", "select": "/C09/"}],
        "bounds": "every pair of expressions of a grammar of all constructors over small bases, in every construction order; all operand sequences of sums and "
                  "compositions of 3-4 operands; every invalid call of a menu; sums, compositions and intersections of up to hundreds of operands in several orders",
        "technique": "exhaustive enumeration of constructor expressions on the real library against a denotational model and the documented identities",
        "note": NOTE,
    },
    "C10": {
        "level": "model_checking",
        "runs": [{"explorer": "fault"}, {"explorer": "scaleown", "select": "/C10/"}],
        "bounds": "every callback invocation of every application of a menu of homomorphisms (plain and rewritten, flat and nested orders) as the point of failure, then the retry, again interrupted at "
                  "every point; caches of 2-16 and of default size; incompatible intermediate results; every callback of applications over frames of tens of levels as the point of failure",
        "technique": "exhaustive enumeration of the failure points of computations on the real library (AddressSanitizer, exact counts of unified elements and of heap blocks) against a denotational model",
        "note": NOTE + "The failures are those of user callbacks and of incompatible operands; exhaustion of memory within operations is out of scope.",
    },
    "C11": {
        "level": "model_checking",
        "runs": [{"explorer": "order", "select": "/order/"}, {"explorer": "orderrel", "select": "/order/"}],
        "bounds": "every forest of at most 8 (thorough 10) levels, two namings, four ways to write it, every identifier and group size; seven arrangements of up to 258 levels",
        "technique": "exhaustive enumeration of order builders on the real library against a forest model",
        "note": NOTE,
    },
    "C12": {
        "level": "model_checking",
        "runs": [{"explorer": "values"}, {"explorer": "valuesrel"}],
        "bounds": "every pair of sets over 6-8 values for 3 value types and bit sets of several sizes; every sequence of updates up to depth 4-5; large sets of up to 256 values, every value inserted and erased",
        "technique": "exhaustive enumeration of sets and update sequences on the real containers (AddressSanitizer) against std::set",
        "note": NOTE,
    },
    "C13": {
        "level": "model_checking",
        "runs": [{"explorer": "mgr"}, {"explorer": "mgrrel", "tier": "thorough"}],
        "bounds": "every sequence of up to 4-6 (thorough 5-8) of init, copy, move, assign, use and destroy over 1-3 configurations out of five, some sharing their value sets; "
                  "every allocation of an initialisation as the point of failure; hundreds of successive managers and of copies",
        "technique": "exhaustive enumeration of lives of managers and of failing allocations on the real library (AddressSanitizer, exact heap balance) against a model of registered managers",
        "note": NOTE,
    },
    "C14": {
        "level": "model_checking",
        "runs": [{"explorer": "mem", "select": "^cache/"}, {"explorer": "memrel", "select": "^cache/"}],
        "bounds": "every sequence of lookups, failing lookups, filtered lookups and clears up to depth 6-8 over 3-5 operations, capacities 2-8, forced collisions; cycles around capacities up to 1000",
        "technique": "exhaustive enumeration of operation sequences on the real cache (AddressSanitizer) against an LRU model",
        "note": NOTE,
    },
    "C15": {
        "level": "model_checking",
        "runs": [{"explorer": "mem", "select": "^table/"}, {"explorer": "memrel", "select": "^table/"}],
        "bounds": "every sequence of insertions, erasures and clears up to depth 6-9 over 3-5 elements with all hash assignments of a menu, initial sizes 1-8; turnover of up to 70000 elements",
        "technique": "exhaustive enumeration of operation sequences on the real tables (AddressSanitizer) against a set model",
        "note": NOTE,
    },
    "C16": {
        "level": "model_checking",
        "runs": [{"explorer": "mem", "select": "^arena/"}, {"explorer": "memrel", "select": "^arena/"}],
        "bounds": "every sequence of allocations of a menu of sizes, releases and scopes up to depth 5-7, every small buffer size, blocks adjacent to the buffer, odd sizes",
        "technique": "exhaustive enumeration of allocation sequences on the real arena (AddressSanitizer) against an interval model",
        "note": NOTE,
    },
    "C17": {
        "level": "model_checking",
        "runs": [{"explorer": "order", "select": "/force/"}, {"explorer": "orderrel", "select": "/force/"}],
        "bounds": "every hypergraph over 1-5 identifiers with up to 3-4 hyperedges of a menu, several iteration counts, both directions; chains, rings, stars and combs of up to 63 identifiers",
        "technique": "exhaustive enumeration of hypergraphs on the real heuristic against recomputed spans",
        "note": NOTE,
    },
    "C18": {
        "level": "model_checking",
        "runs": [{"explorer": "dd", "select": "/tools/"}, {"explorer": "ddrel", "select": "/tools/", "tier": "thorough"}, {"explorer": "outputs"}, {"explorer": "scale", "select": "/C18/"}],
        "bounds": "every set of 14 (thorough 18) shapes of at most 12 (16) assignments; every hypergraph of 3-4 vertices and up to 3 hyperedges; families of large diagrams; every homomorphism of up to two combinators drawn and parsed back; statistics serialized; every order of at most 8 levels written and read back",
        "technique": "exhaustive enumeration of diagrams on the real tools, outputs parsed back and compared with a hash-consing model",
        "note": NOTE,
    },
}
