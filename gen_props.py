#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line) and MANIFEST.json from the tables of this file and of explorers.py."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
from explorers import PROPERTIES

P = []

def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

prop("C01", "Union, intersection and difference denote the set operations",
     "For any diagrams over the same variables (flat or hierarchical, any number of levels and values, and of arcs up to what alpha_size_type can count), the "
     "binary and n-ary union and intersection, the difference and their compound assignments yield exactly the set "
     "of assignments of the corresponding set operation on the operands, for any number and order of operands. "
     "Operands are not altered.",
     ["inputs", "configurations"], "every pair/sequence of compatible diagrams, both kinds of value sets",
     "the tests check some dozens of hand-written operand pairs of at most a few arcs; partition refinement, "
     "common/rest bookkeeping and terminal cases depend on the shape of every operand",
     ["sdd/dd/sum.hh", "sdd/dd/intersection.hh", "sdd/dd/difference.hh", "sdd/dd/square_union.hh", "sdd/dd/nary.hh"],
     [("n-ary sum of nodes (partition refinement)", "sdd/dd/sum.hh"), ("n-ary intersection", "sdd/dd/intersection.hh"),
      ("difference", "sdd/dd/difference.hh"), ("operand normalisation of n-ary builders", "sdd/dd/nary.hh"),
      ("merging of arcs with equal successors", "sdd/dd/square_union.hh")],
     observe=["operator+ - & and += -= &= on SDD", "sdd::sum", "sdd::intersection"])

prop("C02", "Two live diagrams are equal iff they denote the same set",
     "At any time, two diagrams of the same configuration compare equal, and hash equal, if and only if they denote the "
     "same set over the same levels, whatever the constructors, operations, operation order and intermediate "
     "deallocations that produced each of them. In particular a diagram is empty exactly when it denotes no assignment.",
     ["inputs", "histories", "configurations"], "every way of building every set, every layout of the nodes in memory",
     "tests compare a few pairs built in one way; canonicity depends on the order of insertions, on the addresses of "
     "nodes (arcs are ordered by address) and on what was freed before",
     ["sdd/dd/definition.hh", "sdd/dd/node.hh", "sdd/dd/alpha.hh", "sdd/mem/unique_table.hh", "sdd/mem/hash_table.hh",
      "sdd/dd/square_union.hh", "sdd/dd/sum.hh", "sdd/values/flat_set.hh"],
     [("unification of nodes", "sdd/mem/unique_table.hh"), ("canonical order of arcs", "sdd/dd/alpha.hh"),
      ("equality and hash of nodes", "sdd/dd/node.hh"), ("unification of values", "sdd/values/flat_set.hh")],
     observe=["operator== != < and std::hash of SDD", "SDD::empty()"])

prop("C03", "Results do not depend on table, cache or arena sizes, nor on history",
     "The result of every operation and homomorphism application is the same whatever the sizes of the tables, caches "
     "and temporary buffer chosen at initialisation, whatever was computed, evicted, reset or freed before, and wherever "
     "nodes happen to be placed in memory. Only time and statistics may change.",
     ["histories", "configurations", "programs"],
     "every program over a small alphabet of operations, under every resource configuration of a menu and every "
     "placement policy",
     "tests use one configuration with large tables and start each case on a fresh manager, so evictions, rehashes, "
     "exhausted buffers and reused addresses are never reached",
     ["sdd/mem/cache.hh", "sdd/mem/hash_table.hh", "sdd/mem/unique_table.hh", "sdd/mem/linear_alloc.hh", "sdd/dd/context.hh",
      "sdd/hom/context.hh", "sdd/hom/evaluation.hh", "sdd/manager.hh"],
     [("LRU eviction", "sdd/mem/cache.hh"), ("rehash of unique tables", "sdd/mem/hash_table.hh"),
      ("fallback of the temporary buffer", "sdd/mem/linear_alloc.hh"), ("keys of cached operations", "sdd/hom/evaluation.hh"),
      ("reset of the evaluation cache", "sdd/manager.hh")],
     observe=["results of operations and applications", "manager::reset_hom_cache"])

prop("C04", "Handles own what they reach; everything else is reclaimed",
     "For any sequence of copies, moves, assignments (including self-assignment and assignment from a part of the "
     "assigned diagram), swaps, operations and destructions of handles, no live diagram, homomorphism or value set is "
     "altered or freed, and no memory is accessed after being freed or out of bounds. Unified elements are reclaimed as "
     "soon as neither a handle nor another live element nor a cached operation uses them, and destroying the last manager returns all memory.",
     ["histories", "programs", "configurations"], "every sequence of handle operations up to a depth",
     "tests never assign parts of a diagram to itself, never look at what is reclaimed and are not built with a memory checker",
     ["sdd/mem/ptr.hh", "sdd/mem/unique.hh", "sdd/mem/unique_table.hh", "sdd/mem/hash_table.hh", "sdd/internal_manager.hh",
      "sdd/values_manager.hh", "sdd/hom/consolidate.hh", "sdd/dd/alpha.hh", "sdd/mem/variant.hh"],
     [("reference counting smart pointer", "sdd/mem/ptr.hh"), ("erasure from unique tables", "sdd/mem/unique_table.hh"),
      ("deletion handlers", "sdd/internal_manager.hh"), ("operands stored behind their owner", "sdd/hom/consolidate.hh")],
     observe=["manager statistics (number of unified elements)", "allocator", "contents of live diagrams"])

prop("C05", "Incompatible diagrams are refused with an exception, never silently mixed",
     "An operation whose operands' roots are on different variables, of different kinds (flat, hierarchical) or "
     "a terminal and a node throws the documented incompatibility exception, for any number and order of operands (|0| is compatible "
     "with everything, so an intersection may stop as soon as it is empty); deeper "
     "incompatibilities either throw it or do not influence the exact result, and compatible operands never throw. After the "
     "exception all operands are unchanged and the library goes on giving exact results.",
     ["inputs", "histories"], "every tuple of small diagrams of mixed shapes, in every order",
     "tests check a few two-operand cases, never what happens afterwards nor n-ary mixes",
     ["sdd/dd/top.hh", "sdd/dd/check_compatibility.hh", "sdd/dd/sum.hh", "sdd/dd/intersection.hh", "sdd/dd/difference.hh"],
     [("compatibility check of operands", "sdd/dd/check_compatibility.hh"), ("incompatibility exception", "sdd/dd/top.hh")],
     observe=["exception sdd::top", "results afterwards"])

prop("C06", "Counting and path enumeration are exact",
     "size() is the exact number of assignments of a diagram, at any magnitude, and enumerating its paths yields "
     "pairwise disjoint products of values, in the order of the levels (nested levels included), whose union is exactly the set (both terminals, |0| and |1|, have one empty path).",
     ["inputs"], "every diagram of small shapes; families with counts beyond 64 bits",
     "tests count a handful of small diagrams and enumerate paths of a few",
     ["sdd/dd/count_combinations.hh", "sdd/dd/path_generator.hh", "sdd/values/size.hh"],
     [("recursive count with memo", "sdd/dd/count_combinations.hh"), ("coroutine enumeration", "sdd/dd/path_generator.hh")],
     observe=["SDD::size()", "SDD::paths()"])

prop("C07", "Homomorphism evaluation follows the semantics of each combinator",
     "Applying a homomorphism to a diagram yields the image of the set under the function its expression denotes: identity, "
     "constant, prefixing, value functions on any (also nested) variable, local application, composition, union, intersection of selectors, "
     "conditional, fixpoint and user-defined inductive homomorphisms, composed in any way. Declaring a homomorphism a selector or able to skip levels does not change results.",
     ["inputs", "programs", "histories"], "every expression of a bounded grammar applied to every set of small shapes",
     "tests apply some tens of hand-written homomorphisms to one or two diagrams each",
     ["sdd/hom/evaluation.hh", "sdd/hom/composition.hh", "sdd/hom/sum.hh", "sdd/hom/intersection.hh", "sdd/hom/fixpoint.hh",
      "sdd/hom/local.hh", "sdd/hom/function.hh", "sdd/hom/inductive.hh", "sdd/hom/if_then_else.hh", "sdd/hom/cons.hh",
      "sdd/hom/constant.hh", "sdd/order/carrier.hh"],
     [("evaluation with level skipping", "sdd/hom/evaluation.hh"), ("selector shortcuts", "sdd/hom/local.hh, sdd/hom/function.hh")],
     observe=["homomorphism::operator()(order, SDD)"])

prop("C08", "Rewriting for saturation preserves the denoted function",
     "For any order and homomorphism, the rewritten homomorphism applied to any diagram over this order gives the same result as the original one, "
     "and saturated fixpoints terminate on the exact least set (e.g. the reachable states of a finite system) whatever the hierarchy of the order.",
     ["inputs", "programs"], "every expression of a bounded grammar, every small transition system, several hierarchies",
     "tests check the syntactic form of a few rewritings and a couple of evaluations",
     ["sdd/hom/rewrite.hh", "sdd/hom/saturation_fixpoint.hh", "sdd/hom/saturation_sum.hh", "sdd/hom/saturation_intersection.hh"],
     [("partition in F, G, L parts", "sdd/hom/rewrite.hh"), ("saturated evaluation", "sdd/hom/saturation_fixpoint.hh")],
     observe=["sdd::rewrite", "homomorphism::operator()"])

prop("C09", "Homomorphism construction is unified, simplified soundly and validated",
     "Building the same homomorphism twice gives equal handles with equal hashes, the documented simplifications (neutral "
     "identity, idempotent fixpoint, flattened and merged unions, useless conditionals) give equal handles, and homomorphisms which differ in any of "
     "their components, or denote different functions, are never equal. Invalid arguments (no operands, non-selector predicate, unknown identifier) are refused with the "
     "documented exceptions.",
     ["inputs", "programs", "histories"], "every pair of expressions of a bounded grammar, built in every order",
     "tests compare some pairs of each kind",
     ["sdd/hom/definition.hh", "sdd/hom/sum.hh", "sdd/hom/composition.hh", "sdd/hom/fixpoint.hh", "sdd/hom/local.hh",
      "sdd/hom/if_then_else.hh", "sdd/hom/cons.hh", "sdd/hom/function.hh", "sdd/hom/inductive.hh", "sdd/order/order.hh"],
     [("unification", "sdd/hom/definition.hh"), ("simplifying constructors", "sdd/hom/*.hh")],
     observe=["operator== and std::hash of homomorphism", "exceptions of constructors"])

prop("C10", "An exception at any point of a computation leaves the library exact",
     "If a user function, inductive homomorphism or an incompatible intermediate result throws at any point of an application, the exception "
     "reaches the caller, all diagrams and homomorphisms held by the user are unchanged, and any later computation, including a retry of the interrupted one, "
     "gives the exact result. No memory is leaked or corrupted.",
     ["fault_sequences", "programs"], "every callback invocation of a computation as the point of failure, every pair of such points",
     "one test interrupts one computation at one point and does not look at the results afterwards",
     ["sdd/mem/cache.hh", "sdd/hom/evaluation.hh", "sdd/mem/linear_alloc.hh", "sdd/hom/inductive.hh", "sdd/hom/function.hh"],
     [("cache insertion after evaluation only", "sdd/mem/cache.hh"), ("scoped rewinding of the temporary buffer", "sdd/mem/linear_alloc.hh")],
     observe=["propagated exception", "result of the retry", "statistics"])

prop("C11", "Orders describe exactly the hierarchy they are built from",
     "An order built from any builder numbers the levels of each hierarchy, finds each identifier at its place with the path that "
     "leads to it, lists identifiers in depth-first order, compares and hashes by content, and refuses duplicate and unknown identifiers; "
     "strategies that flatten or regroup levels keep exactly the same identifiers in the same sequence. Diagrams and "
     "functions built with an order act on the levels of the named identifiers.",
     ["inputs", "programs"], "every builder (forest of levels) up to a size, every identifier, every group size",
     "tests use a few small orders",
     ["sdd/order/order.hh", "sdd/order/order_builder.hh", "sdd/order/order_node.hh", "sdd/order/order_identifier.hh",
      "sdd/order/carrier.hh", "sdd/order/strategies/flatten.hh", "sdd/order/strategies/identifiers_per_hierarchy.hh", "sdd/dd/definition.hh"],
     [("numbering and lookup", "sdd/order/order.hh"), ("persistent builder", "sdd/order/order_builder.hh")],
     observe=["order accessors", "SDD(order, initializer)", "carrier"])

prop("C12", "Value sets implement finite sets",
     "For any contents, insertion, erasure, lookup, iteration, union, intersection, difference, equality, ordering and hash of the provided value sets agree with "
     "finite sets of integers: operations are exact, equal contents compare and hash equal, the order is a strict total order, copies are independent.",
     ["inputs", "histories"], "every pair of sets over a domain and every sequence of updates up to a depth",
     "tests check a few sets",
     ["sdd/values/flat_set.hh", "sdd/values/bitset.hh", "sdd/values/empty.hh", "sdd/values/size.hh"],
     [("unified sorted vector", "sdd/values/flat_set.hh"), ("fixed-size bit set", "sdd/values/bitset.hh")],
     observe=["operations of values::flat_set and values::bitset"])

prop("C13", "Managers: one at a time per configuration, complete teardown, reusable",
     "At any time at most one manager exists for a configuration or for a kind of value set: initialising again while one is alive throws and "
     "leaves the existing one fully usable, copies keep it alive, and after the last copy is gone initialisation succeeds again and behaves as the first time. "
     "Managers of unrelated configurations are independent. An initialisation that fails for lack of memory leaves nothing behind and can be retried.",
     ["histories", "configurations", "fault_sequences"], "every sequence of init, copy, use and destroy over several configurations up to a depth",
     "tests create one manager per case",
     ["sdd/manager.hh", "sdd/internal_manager.hh", "sdd/values_manager.hh", "sdd/internal_manager_fwd.hh", "sdd/values_manager_fwd.hh"],
     [("global registration", "sdd/manager.hh"), ("teardown order", "sdd/internal_manager.hh, sdd/values_manager.hh")],
     observe=["sdd::init", "results and statistics of a re-created manager"])

prop("C14", "The operation cache is transparent, bounded and least-recently-used",
     "For any sequence of lookups, failing evaluations and clears, a cache returns the value its operation evaluates to, evaluates an operation only when it is not stored or is filtered, "
     "never stores more than its capacity, drops exactly the least recently used entry when full, stores nothing for an evaluation that failed, "
     "and its statistics count exactly what happened.",
     ["histories", "fault_sequences", "configurations"], "every sequence over a small alphabet of operations, all small capacities, forced collisions",
     "tests perform two or three lookups",
     ["sdd/mem/cache.hh", "sdd/mem/cache_entry.hh", "sdd/mem/lru_list.hh", "sdd/mem/hash_table.hh"],
     [("lookup, LRU list, pool", "sdd/mem/cache.hh")], observe=["mem::cache::operator(), clear, size, statistics"])

prop("C15", "Hash and unique tables behave as sets under any insert/erase sequence",
     "For any sequence of insertions, erasures and clears, with any collisions and across rehashing, a table contains exactly the "
     "elements inserted and not erased: inserting an equal element returns the stored one, stored elements never move or get lost, sizes and statistics are exact.",
     ["histories", "configurations"], "every sequence over a small set of colliding elements, all small initial sizes",
     "tests insert and erase a few elements in one order",
     ["sdd/mem/hash_table.hh", "sdd/mem/unique_table.hh", "sdd/util/next_power.hh"],
     [("intrusive chaining and rehash", "sdd/mem/hash_table.hh"), ("allocation cache", "sdd/mem/unique_table.hh")],
     observe=["mem::hash_table", "mem::unique_table"])

prop("C16", "Temporary memory: blocks never overlap and survive until released",
     "For any buffer size and any nested sequence of allocations, releases and scopes, blocks handed out by the temporary-memory arena are disjoint from each other while live and "
     "keep their content, requests that do not fit are still served, and leaving a scope gives back what was taken within it.",
     ["histories", "configurations"], "every sequence of allocate, deallocate, open and close scope up to a depth, all small buffer sizes",
     "no test exercises the arena",
     ["sdd/mem/linear_alloc.hh", "sdd/dd/context.hh"], [("bump allocation with fallback and rewinding", "sdd/mem/linear_alloc.hh")],
     observe=["mem::arena, mem::rewinder, mem::linear_alloc"])

prop("C17", "FORCE returns the best order it found, deterministically",
     "For any hypergraph the ordering heuristic returns an order with exactly the given identifiers, once each; its total span is the smallest of the "
     "spans it reports (with no iteration, it is the initial order); the result depends only on the hypergraph, not on other hypergraphs built or ordered before, and the reverse option returns the mirrored order.",
     ["inputs", "histories"], "every small hypergraph over up to 4-5 identifiers",
     "tests only run it on a couple of graphs",
     ["sdd/order/strategies/force.hh", "sdd/order/strategies/force_hypergraph.hh", "sdd/order/strategies/force_vertex.hh", "sdd/order/strategies/force_hyperedge.hh"],
     [("iteration and selection of the best order", "sdd/order/strategies/force.hh")],
     observe=["force::worker::operator()", "force::worker::spans()"])

prop("C18", "Tools report the diagram faithfully",
     "Numbers of nodes and arcs, memory size, statistics, textual and graph outputs of a diagram (and those of a homomorphism, its JSON form, the graph output of a hypergraph, the statistics of a manager, the serialized statistics) "
     "describe exactly what they are given: every node, arc and value appears once, sharing is respected (each shared node counts once), and equal outputs are produced for equal diagrams. "
     "An order written with dump_order() and read back with load_order() keeps its identifiers, in their order, and its nesting (hierarchies of a single level excepted).",
     ["inputs"], "every diagram of small shapes, every small homomorphism, hypergraph and order",
     "tests count nodes and arcs of three diagrams",
     ["sdd/tools/nodes.hh", "sdd/tools/arcs.hh", "sdd/tools/size.hh", "sdd/tools/sdd_statistics.hh", "sdd/tools/dot/sdd.hh",
      "sdd/tools/dot/force_hypergraph.hh", "sdd/tools/dot/homomorphism.hh", "sdd/tools/manager_statistics.hh", "sdd/tools/serialization.hh", "sdd/tools/order.hh", "sdd/tools/js.hh", "sdd/dd/node.hh"],
     [("visitors with memo", "sdd/tools/*.hh")], observe=["tools functions", "operator<<"])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i not in PROPERTIES:
            na.append({"property": i, "reason": "its explorer is not built yet"})
            continue
        s = PROPERTIES[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": s["technique"], "level": s["level"],
                       "level_note": s["note"]})
    m = {"version": 1, "setup_cmd": "python3 check.py --list", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the explorers drive the public API and own allocation addresses through operator new. "
                  "Each check compiles its explorers from /repo's working tree in a temporary directory."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
