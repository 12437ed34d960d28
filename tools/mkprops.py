#!/usr/bin/env python3
"""Writes properties.jsonl and the checks of MANIFEST.json (one source for both)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW, DT, TC, UT = "tpp/detail/swiss_table.hpp", "tpp/detail/dense_table.hpp", "tpp/detail/table_common.hpp", "tpp/detail/utility.hpp"
SP = ["tpp/sparse_set.hpp", "tpp/sparse_map.hpp"]; ST = ["tpp/stable_set.hpp", "tpp/stable_map.hpp"]; DE = ["tpp/dense_set.hpp", "tpp/dense_map.hpp"]
MU = ["tpp/dense_multiset.hpp", "tpp/dense_multimap.hpp", "tpp/detail/multikey.hpp"]
BASE_WHY = "The tests insert a few hundred consecutive integers or strings with std::hash in one fixed order and look them up; "
P = []
def prop(i, title, statement, over, text, why, files, mech, observe, state=None):
    d = {"id": i, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, i
    P.append(d)

SWSTATE = [("metadata array", "per slot: empty, deleted, or 7 bits of the hash of the element", SW), ("number of empty slots", "how many insertions fit before the table is rebuilt", SW)]
DSTATE = [("sparse array", "per bucket: index of the first element of its chain", DT), ("dense array", "elements in one contiguous buffer, chained by index", DT)]

prop("C01", "sparse_* tables are exact unique-key sets and maps",
     "After any sequence of operations, a sparse_set, sparse_map, ordered_sparse_set or ordered_sparse_map contains exactly the keys that were inserted and not erased since: every lookup (find, contains, count-like queries, at, operator[], equal ranges where offered) finds a present key and never an absent one, size() and empty() agree, and no key is ever stored twice. Every insertion reports whether it inserted and refers to the element with that key; every erasure removes that element only. This holds for every legal hash function, including ones that send all keys to the same value.",
     ["inputs", "histories"], "all operation sequences over all keys, hash functions and table sizes",
     BASE_WHY + "they never see colliding probe groups, tombstones in a full probe sequence, wrap-around at the end of the table or a rebuild in place.",
     SP + [SW, TC], [("probe sequence and group matching", f"{SW} find_node/probe"), ("insertion into the first free slot", f"{SW} insert/emplace paths"), ("erasure to tombstone or empty", f"{SW} erase_node"), ("rebuild in place and growth", f"{SW} rehash/resize")],
     ["return values of insert/emplace/erase", "find/contains/at/operator[]", "size()", "iteration"], SWSTATE)
prop("C02", "stable_* tables are exact unique-key sets and maps",
     "After any sequence of operations (including extraction and re-insertion of nodes), a stable_set, stable_map, ordered_stable_set or ordered_stable_map contains exactly the keys that were inserted and not removed since: every lookup finds a present key and never an absent one, size() and empty() agree, and no key is stored twice. Every insertion reports whether it inserted and refers to the element with that key; every erasure removes that element only. This holds for every legal hash function.",
     ["inputs", "histories"], "all operation sequences over all keys, hash functions and table sizes",
     BASE_WHY + "colliding hashes, tombstones and rebuilds of tables of separately allocated nodes are not reached.",
     ST + [SW, TC, "tpp/detail/stable_traits.hpp"], [("probe sequence and group matching", f"{SW} find_node/probe"), ("pointers to separately allocated elements", "tpp/detail/stable_traits.hpp"), ("rebuild in place and growth", f"{SW} rehash/resize")],
     ["return values of insert/emplace/erase", "find/contains/at/operator[]", "size()", "iteration"], SWSTATE)
prop("C03", "dense_* tables are exact unique-key sets and maps",
     "After any sequence of operations, a dense_set, dense_map, ordered_dense_set or ordered_dense_map contains exactly the keys that were inserted and not erased since: every lookup finds a present key and never an absent one, size() and empty() agree, and no key is stored twice, whatever the hash function and whatever the maximum load factor is set to. Every insertion reports whether it inserted and refers to the element with that key; every erasure removes that element only, although the last element takes its place in the contiguous storage. The bucket interface (bucket, bucket_count, bucket_size) agrees with the contents.",
     ["inputs", "histories"], "all operation sequences over all keys, hash functions, load factors and table sizes",
     BASE_WHY + "chains of colliding elements, erasure of a chain's head, middle and tail while the last element is moved into the gap, and unusual load factors are not reached.",
     DE + [DT, TC], [("chains of indices per bucket", f"{DT} find/insert"), ("swap with the last element on erasure", f"{DT} erase_node"), ("rebuild of the bucket array", f"{DT} rehash")],
     ["return values of insert/emplace/erase", "find/contains/at/operator[]", "size()", "iteration", "bucket interface"], DSTATE)
prop("C04", "Multi-key tables keep every key of an element unique and consistent",
     "In dense_multiset and dense_multimap, after any sequence of operations every element is found by each one of its keys and by no other, and no two elements share a key of the same position: insertion happens if and only if none of the keys is present, and otherwise changes nothing and refers to an element that blocks it. Erasing an element by any of its keys, by iterator, range or predicate removes it from the index of every other key and leaves all other elements reachable by all of their keys. The mapped value stays attached to its keys.",
     ["inputs", "histories"], "all operation sequences over all combinations of keys and all hash functions",
     "The tests insert a handful of elements with two keys and erase one; partially overlapping keys and colliding hashes in one index only are never combined with erasure.",
     MU + [DT], [("one bucket array and one chain per key position", f"{DT} node links and insert"), ("unlinking from every index on erasure", f"{DT} erase_node")],
     ["insert/emplace/try_emplace results", "find<I>/contains<I>/at<I>/erase<I>", "iteration"], DSTATE)
prop("C05", "Mapped values change exactly when the operation says so",
     "In every map, insert, emplace and try_emplace of a present key leave its mapped value (and the arguments of try_emplace) untouched, insert_or_assign and emplace_or_replace replace it, operator[] creates a default value for an absent key only, and every other operation leaves all mapped values as they were. The reported iterator always refers to the element with that key and the reported flag says whether an element was created. The same holds for the forms that take a hint, a node or a differently typed key.",
     ["inputs", "histories"], "all sequences of map operations over all keys and values",
     "The tests call each form once or twice on fresh keys; assignments to keys that were displaced, moved or re-inserted are not covered.",
     ["tpp/sparse_map.hpp", "tpp/stable_map.hpp", "tpp/dense_map.hpp", SW, DT, TC], [("try_emplace/insert_or_assign paths", f"{SW}, {DT}"), ("replacement of an element in place", f"{TC} replace")],
     ["mapped values seen by find/at/operator[]/iteration", "return values"])
prop("C06", "Iteration visits every element exactly once, also after erasure",
     "At every moment, forward iteration (const and non-const, and backward iteration where offered) visits every element exactly once and ends, and iterators of the dense containers support consistent random access. Erasing by iterator returns an iterator from which iteration continues with exactly the elements not visited yet, erasing a range removes exactly that range, and erase_if removes exactly the elements that satisfy the predicate, calls it once per element and returns how many went. An iterator that refers to an element not affected by an operation that does not rebuild the table stays usable.",
     ["inputs", "histories"], "all container states reached by operation sequences, all erase positions and ranges, all predicates (subsets)",
     "The tests iterate freshly filled tables; erase-while-iterating over tables with tombstones, full groups and collisions is not covered.",
     SP + ST + DE + [SW, DT, TC], [("iteration over occupied slots by group masks", SW), ("swap-with-last and the iterator returned", f"{DT} erase"), ("order links", f"{TC} ordered_link")],
     ["begin/end, rbegin/rend", "erase(iterator)/erase(range)/erase_if results"])
prop("C07", "ordered_* containers preserve insertion order",
     "Every ordered_* container iterates its elements in the order in which their keys were first inserted, with elements inserted through a hint placed right before the hinted position: this order survives lookups, overwriting of mapped values, erasure of other elements, growth, rehash, rebuilds in place, copying, moving, swapping, and extraction. A key that is erased and inserted again goes to the end. front() and back() are the first and the last element of that order.",
     ["inputs", "histories"], "all operation sequences over all keys, hash functions and table sizes",
     "The tests check the order of one sequence of insertions; order after hinted insertion, erasure, rebuild in place and assignment between containers of different states is not sampled.",
     SP + ST + DE + [SW, DT, TC], [("doubly linked list of relative offsets through the elements", f"{TC} ordered_link"), ("relinking when elements are relocated", f"{SW}/{DT} rehash, move, swap")],
     ["iteration order", "front()/back()"], [("order links", "relative offsets to the previous and next element", TC)])
prop("C08", "Copies are equal to their source and independent of it",
     "A container copied by construction (with or without an explicit allocator) or assignment equals its source element by element, mapped values and (for ordered containers) order included, whatever the states of source and target were, and every element of the copy can be looked up, erased and re-inserted. Later changes to either one are never visible in the other. The source is not changed by being copied.",
     ["inputs", "histories"], "all pairs of container states reached by operation sequences, followed by all continuations",
     "The tests copy one filled container into a fresh one; copies of tables with tombstones, collisions, erased blocks, larger or smaller targets and continuations after the copy are not covered.",
     SP + ST + DE + [SW, DT, TC], [("copy construction and assignment", f"{SW} copy_data, {DT} copy_data"), ("buffers reused by assignment", f"{SW} swiss_table_buffer operator=")],
     ["operator==, lookup and iteration of both containers"])
prop("C09", "Move and swap transfer the contents for any pair of states",
     "Move construction, move assignment and swap (member and free function) between containers in any pair of states transfer all elements, mapped values and order exactly; swap exchanges both sides. A moved-from container is valid: it can be queried, inserted into, assigned, swapped, cleared and destroyed like any other. Self-assignment and self-swap leave the contents unchanged.",
     ["inputs", "histories"], "all pairs of container states reached by operation sequences, followed by all continuations",
     "The tests move one filled container and look at the target; use of the moved-from side, empty and never-allocated operands, and chains of moves and swaps are not covered.",
     SP + ST + DE + [SW, DT, TC], [("exchange of buffers, sizes, functors and allocators", f"{SW} swap/move, {DT} swap/move_from"), ("relinking of the list header", f"{TC} ordered_link::relink_from/swap")],
     ["lookup and iteration of both containers", "results of operations on the moved-from side"])
prop("C10", "References to elements of stable_* containers stay valid",
     "In a stable container the address of an element never changes between its insertion and its erasure: growth, rehash, reserve, rebuilds, insertion and erasure of other elements, moving or swapping the container (with equal allocators), extraction into a node and re-insertion, and merging leave every reference and pointer to it valid and referring to the same key and value.",
     ["inputs", "histories"], "all operation sequences over all keys, hash functions and table sizes",
     "The tests never hold a reference across operations.",
     ST + [SW, "tpp/detail/stable_traits.hpp", TC], [("elements allocated one by one, the table holds pointers", "tpp/detail/stable_traits.hpp"), ("relocation of pointers only", SW)],
     ["addresses of elements"])
prop("C11", "Node extraction, insertion and merge move elements and lose none",
     "extract removes exactly the named element from a stable container and hands it over unchanged (the mapped value of a map's element and the key of a set's can be changed through the node); inserting a node puts exactly that element in when its key is absent, and otherwise leaves the container unchanged and returns the node. merge moves exactly the elements whose keys are absent in the target and leaves all the others in the source, for any two containers (also with functors of other types or states) including one with itself and the ordered versions. Empty nodes are accepted everywhere and change nothing; no element is lost, duplicated or destroyed twice.",
     ["inputs", "histories"], "all sequences of extract, insert(node), insert_or_assign(node), node moves and merges over two containers",
     "The tests extract one node and merge two disjoint or overlapping integer tables once.",
     ST + [SW, TC, "tpp/detail/stable_traits.hpp"], [("node handles", f"{TC} node_handle"), ("extraction and insertion of nodes", f"{SW} extract_node/insert_node/merge")],
     ["contents of containers and nodes", "insert_return"])
prop("C12", "Every element and allocation is released exactly once",
     "Over any history of operations on any number of containers, every element is constructed in properly allocated memory, never read or assigned outside its lifetime and destroyed exactly once; every allocation is returned exactly once, to an allocator equal to the one it came from and with the same size. When all containers and nodes are gone nothing is left. Lookups, iteration and comparison allocate nothing.",
     ["inputs", "histories"], "all operation sequences over one and several containers",
     "The tests do not count objects or allocations, and leaks or double destruction of integers and short strings stay invisible.",
     SP + ST + DE + [SW, DT, TC, UT], [("construction, relocation and destruction of elements", f"{UT} relocate, {SW}, {DT}"), ("allocation and deallocation of buffers", f"{SW} swiss_table_buffer, {UT} realloc_buffer")],
     ["constructors, destructors and allocators of instrumented types"])
prop("C13", "Failed operations leave containers valid and leak nothing",
     "When an allocation, the construction of an element, the hash function or the comparison throws, no element or memory is leaked and the container stays fully usable with every key at most once. Inserting a single element, rehash, reserve and erasing by key have no effect at all when they fail; bulk insertion, assignment and merging keep a subset of the elements involved, with correct values. A constructor that fails releases everything. (Moves and swaps of elements that throw are covered where an element is relocated to new memory, not where packed storage assigns elements over one another.)",
     ["fault_sequences", "inputs", "histories"], "an exception at every single fallible step of every operation in every explored state",
     "No test injects a fault.",
     SP + ST + DE + [SW, DT, TC, UT], [("allocate-first growth and clean-up handlers", f"{SW} reallocate, {DT} reserve/rehash"), ("guards around element construction", f"{TC}, {SW} emplace, {DT} emplace")],
     ["state after the exception", "later operations", "object and allocation counts"])
prop("C14", "Rehash, growth and reclamation of erased slots are invisible",
     "rehash, reserve, automatic growth and the reclamation of slots of erased elements never change which elements a container holds, their values or their order, at any size and for any distribution of hashes. Every operation terminates, also when a table has been filled and emptied arbitrarily often, has no free slot that was never used, or when all hashes are equal.",
     ["inputs", "histories"], "every number of elements up to a bound, every pattern of erased slots of a full table, all insert/erase cycles",
     "The tests never fill a table, erase and go on; rebuilds in place (which need many erased slots) are not executed at all.",
     SP + ST + DE + [SW, DT], [("rebuild in place when many slots are erased", f"{SW} rehash in place"), ("growth", f"{SW} resize, {DT} maybe_rehash")],
     ["lookup and iteration before and after", "termination"], SWSTATE)
prop("C15", "All build configurations behave the same",
     "For the same sequence of operations every supported build (C++17 or C++20, gcc or clang, with SSE2, SSSE3 or without SIMD, debug or release, any optimisation level) gives the same observable results: return values, contents, sizes, and the iteration order of ordered containers.",
     ["configurations", "inputs", "histories"], "all pairs of configurations, all operation sequences",
     "The tests are built in one configuration.",
     SP + ST + DE + [SW, "tpp/detail/arch.hpp", UT, TC], [("SIMD and portable group matching", f"{SW} block types"), ("combined or separate metadata and element buffers", f"{SW} swiss_table_buffer")],
     ["all results of the interface"])
prop("C16", "Capacity functions keep their promises and space stays bounded",
     "reserve(n) makes room so that insertion up to n elements allocates no new table and invalidates no iterator; rehash(n) gives at least n buckets and room for the present elements; a request that cannot be met throws and changes nothing; capacity() is never below size(), max_size() never below capacity's needs, and load_factor() is the ratio of size to bucket_count; in the dense containers it does not exceed max_load_factor() after an insertion that created an element. Clearing or erasing does not grow a table. Under any history of insertions and erasures with at most n elements at a time the number of buckets stays within a constant factor of n.",
     ["inputs", "histories"], "all sizes and load factors up to a bound and all long insert/erase histories",
     "The tests call reserve and rehash once and check the size only; the effect of tombstones on growth is not sampled.",
     SP + ST + DE + [SW, DT], [("growth policy", f"{SW} resize/rehash thresholds, {DT} maybe_rehash"), ("reserve", f"{SW}/{DT} reserve")],
     ["bucket_count(), capacity(), load_factor(), allocations"])
prop("C17", "Equality compares contents, whatever the history",
     "Two containers compare equal if and only if they hold the same keys (and, for maps, equal mapped values for them), regardless of the order of insertion, capacity, hash layout, tombstones or allocator; operator!= is its negation. Comparing is symmetric and changes nothing. References to elements of maps, as iterators give them, compare and order as pairs of key and mapped value, decompose into the two, and pass on what the comparison of mapped values throws.",
     ["inputs", "histories"], "all pairs of container states reached by operation sequences",
     "The tests compare a container with its copy.",
     SP + ST + DE, [("comparison", "operator== in the container headers")], ["operator==, operator!="])
prop("C18", "Lookup by another key type behaves like lookup by key",
     "With transparent hash and comparison functors, find, contains, at, operator[], erase, extract, bucket and the insertion forms that accept a differently typed key behave exactly as with the equal key, and construct a key from it only when an element is created. Without a present key they have no effect.",
     ["inputs", "histories"], "all operation sequences mixing both key types",
     "The tests use transparent lookup on one string table.",
     SP + ST + DE, [("overloads for transparent functors", "is_transparent overloads in the container headers")], ["results", "constructions of keys"])
prop("C19", "Allocators and functors propagate as their traits say",
     "Copy and move construction, assignment and swap give each container the allocator that its propagation traits demand (select_on_container_copy_construction, propagate_on_container_copy_assignment, ..._move_assignment, ..._swap, is_always_equal), and the hash and comparison functors of the source. Memory is always returned through an allocator equal to the one it came from, and elements move one by one when the buffers cannot be taken over. No other operation changes allocator or functors. get_allocator, hash_function and key_eq report what is in use.",
     ["configurations", "inputs", "histories"], "all combinations of propagation traits, equal and unequal allocators, all pairs of container states",
     "The tests use std::allocator only, for which every rule is trivial.",
     SP + ST + DE + [SW, DT, UT], [("allocator-aware construction, assignment and swap", f"{SW} swiss_table_buffer, {DT}"), ("comparison of allocators", f"{UT} allocator_eq")],
     ["get_allocator()", "hash_function()/key_eq()", "the allocator every block is returned to"])
prop("C20", "Operations do not disturb what the caller passed in",
     "An insertion that does not happen leaves the arguments it was given (moved or not) intact (but for rvalue arguments of emplace and of insertions of a type other than insert_type, from which an element has to be constructed first), values passed by const reference are never changed, and an argument (element, key or mapped value) passed as an rvalue is moved from exactly when an element was created or assigned from it. Elements are copied only by operations asked to copy. Ranges given to constructors, insert and assign are left as they were unless they consist of move iterators.",
     ["inputs", "histories"], "all insertion forms in all container states",
     "The tests never look at an argument after the call.",
     SP + ST + DE + [SW, DT], [("forwarding of arguments", f"{SW}/{DT} insert, try_emplace, insert_or_assign")], ["the arguments after the call"])
prop("C21", "Bulk operations equal inserting the elements one by one",
     "Constructing from, assigning or inserting a range or initializer list (any iterator category, any duplicates, any initial capacity) gives the same contents, values and order as inserting the elements one after another into the corresponding container. Assignment first removes the former contents. Later operations cannot tell the difference.",
     ["inputs", "histories"], "all sequences of elements up to a length, all kinds of ranges, all target states",
     "The tests use one list without duplicates.",
     SP + ST + DE + [SW, DT, UT], [("range insertion with reservation", f"{UT} distance_or_n, {SW}/{DT} insert(first, last)")], ["contents and order"])
prop("C22", "Operations that find nothing to do change nothing",
     "Lookups, iteration, comparison, erasure of an absent key, an erase_if that matches no element and clearing an empty container change nothing at all: not the contents, the order of iteration, the number of buckets, the address of any element or any iterator. The same holds for operations on other containers. Inserting a present key changes neither contents nor order, and no address, iterator or bucket count either (dense containers excepted for the forms that have to construct an element first: emplace, emplace_hint and insertion of a non-const lvalue or of another type than insert_type).",
     ["inputs", "histories"], "all container states reached by operation sequences",
     "The tests do not compare the whole container before and after such calls.",
     SP + ST + DE + [SW, DT], [("lookup before modification", f"{SW}/{DT} insert and erase")], ["contents, addresses, bucket_count before and after"])
prop("C23", "Arguments may refer to the container's own elements",
     "Operations given references to keys or mapped values that live in the same container (insert, try_emplace, insert_or_assign, emplace_or_replace, operator[], erase, extract, count, find) with a key that is present behave as if they had been given copies: the result, the contents, the order and the mapped values are those of the model, whatever the size of the container is (including just before growth and rebuilds), and nothing destroyed or moved from is read. (Not promised: emplace in dense containers; mapped values of own elements given for a new key.)",
     ["inputs", "histories"], "all container states and fill levels reached by operation sequences",
     "The tests never pass a reference into the container.",
     SP + ST + DE + [SW, DT], [("lookup before growth, use of the key after unlinking", f"{SW}/{DT} insert, try_emplace, erase, extract")], ["contents, order, arguments read after destruction"])

NOTE = {"C13": "Enumerates a fault at every fallible step of every operation in every explored state of the real containers; trusts the reference oracle in harness/ and the bounds in DESIGN.md."}
def main():
    import sys
    sys.path.insert(0, HERE)
    from plan import PLAN, LEVEL
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i not in PLAN:
            na.append({"property": i, "reason": "no check is built yet"})
            continue
        checks.append({"property": i, "quick_cmd": f"python3 run.py check {i} --tier quick", "thorough_cmd": f"python3 run.py check {i} --tier thorough",
                       "technique": "explicit-state model checking of the real code against a reference model" if LEVEL[i] == "model_checking" else "exhaustive fault enumeration over explicitly explored states of the real code",
                       "level": LEVEL[i],
                       "level_note": NOTE.get(i, "Every operation sequence within the stated depth or state bound is executed on the real containers (compiled from /repo) and compared with a reference model after each step; trusts that oracle and holds within the bounds in DESIGN.md.")})
    m = {"version": 1, "setup_cmd": "python3 run.py setup", "hooks": {"guard": "none", "enable": "no hooks: the checks compile the unmodified headers of /repo with instrumented element, functor and allocator types", "source_commits": []},
         "checks": checks, "not_applicable": na, "notes": "run.py drives everything; plan.py lists the binaries of each check; harness/ holds the explorer, the oracle and the enumerated programs."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
main()
