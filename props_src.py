#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one place (run by hand, output committed)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from obligations import CHECKS
HERE = os.path.dirname(os.path.abspath(__file__))


def m(name, where):
    return {"name": name, "where": where}


P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": mech}}
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append(d)


prop("M01", "Lookup returns exactly what is stored under the key",
     "Looking up a byte string (as an owned value or as a borrowed reference) returns the value most recently inserted under exactly that byte string, and nothing if it was never inserted. This holds wherever the key ended up in the tree: in the first node, behind any number of routing nodes, to the right of a split that is not yet announced above, or in a deeper layer whose own top was split.",
     ["inputs", "histories"], "every key of 0..=256 bytes, every reachable tree shape and node content",
     "Tests look up keys they inserted a few thousand at a time; the answer depends on the relative order of all chunks, length classes, suffixes and separators around the key, which they sample.",
     ["src/tree/generic.rs", "src/ksearch.rs", "src/leaf24.rs", "src/leaf_trait.rs"],
     [m("descent through routing nodes", "tree/generic.rs reach_leaf_concurrent_generic"), m("search inside a leaf, layer descent, B-link walk", "tree/generic.rs get_concurrent_generic, get_ref_generic, advance_to_key_by_bound_generic, maybe_parent_generic")])
prop("M02", "Insert changes exactly one key and reports the old value",
     "Inserting under any byte string of at most 256 bytes succeeds, returns the value that was stored under exactly that byte string (or nothing), and from then on lookup returns the new value for it and the same answer as before for every other byte string. The reported number of entries is always the number of distinct keys inserted.",
     ["inputs", "histories"], "every key and value, every prior content of the affected nodes",
     "Tests check the keys they insert; that no other key's answer changed needs all other keys, node contents and slot orders.",
     ["src/tree/generic.rs", "src/leaf24.rs", "src/permuter24.rs", "src/slot.rs"],
     [m("locked insert", "tree/generic.rs insert_concurrent_generic, search_for_insert_generic, assign_slot_generic"), m("slot allocation", "leaf24.rs can_reuse_slot0, permuter24.rs insert_from_back")])
prop("M03", "Keys sharing a prefix of any length coexist",
     "Two different keys are kept apart however long their common prefix is: both stay retrievable with their own values whether they differ in the first bytes, only in the last one, or because one is a prefix of the other or has extra trailing zero bytes. Inserting a key that collides with a stored one on a whole chunk never loses, duplicates or swaps the stored key's value.",
     ["inputs", "histories"], "every pair of keys, every position and length of the common prefix",
     "The collision path builds a chain of nodes whose length depends on the shared prefix and whose order depends on the first differing bytes; tests use a handful of prefixes.",
     ["src/tree/generic.rs", "src/leaf24.rs", "src/key.rs"],
     [m("layer creation", "tree/generic.rs create_layer_concurrent_generic, assign_final_layer_entries"), m("key advance", "key.rs shift, compare")])
prop("M04", "Splitting nodes loses, duplicates and misplaces nothing",
     "When a full node is split, every entry stays in exactly one of the two halves, unchanged, and lookups and insertions reach it before, during and after the new node is announced to the levels above. This includes splits of the topmost node, of the top of a deeper layer, and splits that cascade through several levels.",
     ["inputs", "histories"], "every content of a full node, every insert position, every shape of the levels above",
     "A split happens once per dozen inserts and the outcome depends on duplicates of a chunk around the middle, on the insert position and on the fill of all ancestors; tests only split with a few key distributions.",
     ["src/leaf24.rs", "src/internode.rs", "src/tree/split/propagation.rs", "src/tree/split/root_creation.rs", "src/tree/generic.rs"],
     [m("leaf split", "leaf24.rs calculate_split_point, split_into_preallocated, split_all_to_right_preallocated, link_sibling"), m("propagation", "tree/split/propagation.rs propagation_loop; root_creation.rs"), m("routing node split", "internode.rs split_into")])
prop("M05", "Keys are decomposed without loss and in order",
     "Every byte string of at most 256 bytes is accepted and represented faithfully: the eight-byte chunks and remainders it is cut into determine it uniquely, and comparing two keys chunk by chunk (with the remaining length) gives their bytewise lexicographic order. Longer byte strings are rejected, never truncated.",
     ["inputs"], "all byte strings of every length",
     "There are 256^n keys; tests use short ASCII ones and a few boundary lengths.",
     ["src/key.rs"], [m("Key", "key.rs new, read_ikey, shift, shift_by, unshift, compare")])
prop("M06", "Slot bookkeeping is always an exact permutation",
     "In every leaf each slot is either in use by exactly one entry or free, and the visible entries keep their order: adding an entry takes a free slot and puts it at the requested position without disturbing the others, and removing, swapping free slots, resizing or freezing never makes a slot appear twice or disappear.",
     ["inputs", "histories"], "every reachable arrangement of 24 slots, every position",
     "There are 24! arrangements; tests walk through a few.",
     ["src/permuter24.rs", "src/freeze24.rs", "src/leaf24/freeze.rs"], [m("Permuter24", "permuter24.rs"), m("freezing", "freeze24.rs, leaf24/freeze.rs")])
prop("M07", "Routing nodes send every key to the one right child",
     "A routing node sends each key to the single child whose range contains it. Adding a separator with its child, or splitting a full routing node into two with one separator moved up, preserves all separators and children in order.",
     ["inputs"], "every content of a routing node, every key and position",
     "Each insert position, fill level and key order is a different path; tests sample them.",
     ["src/internode.rs", "src/ksearch.rs"], [m("routing", "ksearch.rs upper_bound_internode_generic/direct"), m("mutation", "internode.rs insert_key_and_child, split_into")])
prop("M08", "Writers exclude each other and readers notice every write",
     "At most one thread at a time holds a node for writing, and a lock is always released by its holder. A reader that took a snapshot of a node's version and later finds it unchanged has not overlapped any modification of that node, and finds out whenever the node was split or deleted in between.",
     ["schedules", "histories"], "every interleaving of lock, mark, unlock and read steps of any number of threads",
     "A missed transition shows only when another thread acts between two particular steps; stress tests rarely hit them and cannot enumerate them.",
     ["src/nodeversion.rs", "src/tree/optimistic.rs"], [m("version word protocol", "nodeversion.rs lock, try_lock, mark_insert, mark_split, unlock, stable, has_changed, has_split")])
prop("M09", "A lookup racing with writers returns a value the key held",
     "A lookup that overlaps insertions and splits by other threads returns a value that was stored under its key at some moment of the lookup, or nothing only if the key was absent at some moment of it. A key that is present throughout is always found, however the node it lives in is rearranged or split meanwhile.",
     ["schedules"], "every placement of other writers' complete modifications between the lookup's reads of shared nodes",
     "The window between reading a node and validating it is a few instructions wide; stress tests sample it.",
     ["src/tree/generic.rs", "src/nodeversion.rs", "src/leaf24.rs"], [m("optimistic read and retry", "tree/generic.rs get_concurrent_generic, get_ref_generic, advance_to_key_generic")])
prop("M10", "Key remainders are stored apart and unaltered",
     "The part of a key beyond the chunk a leaf compares is stored per entry and read back byte for byte. Storing, replacing or removing one entry's remainder, and growing or compacting the storage, never changes another entry's remainder or makes a removed one visible.",
     ["inputs", "histories"], "every remainder content and length, every order of stores and removals",
     "Corruption needs a particular sequence of lengths and reuse of freed space; tests exercise a few.",
     ["src/suffix.rs", "src/leaf24.rs"], [m("suffix bag", "suffix.rs"), m("leaf suffix API", "leaf24.rs assign_ksuf, clear_ksuf, ksuf_equals, ksuf_match_result")])
prop("M11", "Every stored value has exactly one owner and one release",
     "The tree holds each stored value exactly once; a replaced value is handed back to the caller and the tree's own hold on it is released exactly once, not before it has become unreachable for new readers. Moving an entry to another node or layer neither copies nor releases its value, and values handed to callers stay valid after the entry is replaced.",
     ["inputs", "histories"], "every operation, every node content and kind of value storage",
     "A double release or a leak is silent in ordinary runs; tests count references on a few operations only.",
     ["src/slot.rs", "src/leaf_trait.rs", "src/value.rs", "src/tree/generic.rs", "src/leaf24.rs"], [m("value pointers", "slot.rs, value.rs output_to_raw/output_from_raw/cleanup_value_ptr"), m("deferred release", "tree/generic.rs defer_retire in insert paths")])
prop("M12", "Nodes are released once, and only with the tree",
     "Every node the tree creates is recorded with its allocator, stays allocated as long as the tree exists, and is released exactly once, together with the values it still holds, when the tree is dropped. Sub-trees of deeper layers and nodes at any height are included.",
     ["inputs", "histories"], "every tree shape at the time of the drop",
     "Leaks and double frees depend on the shape; tests drop a few shapes and do not count allocations.",
     ["src/alloc24.rs", "src/alloc_trait.rs", "src/tree/generic.rs", "src/leaf24.rs"], [m("allocator and teardown", "alloc24.rs teardown_tree, Drop; leaf24.rs Drop")])
prop("M13", "Operations of all threads are linearizable as a whole",
     "Every history of concurrent lookups and insertions is equivalent to some sequential order of them that respects real time, on every hardware memory model the crate supports.",
     ["schedules"], "every interleaving and every allowed memory-order relaxation of any number of threads",
     "Needs all schedules of whole operations; stress tests sample some.",
     ["src/tree/generic.rs", "src/nodeversion.rs", "src/ordering.rs"], [m("whole protocol", "tree/generic.rs, nodeversion.rs")])
prop("M14", "Every operation finishes",
     "No lookup or insertion waits forever: locks are always obtained in an order that cannot deadlock, and every retry is caused by progress of another thread.",
     ["schedules"], "every fair schedule of any number of threads", "Liveness is about infinite schedules.",
     ["src/tree/generic.rs", "src/tree/split/propagation.rs", "src/nodeversion.rs"], [m("retry loops and lock order", "tree/generic.rs, propagation.rs")])

NA = {
    "M13": "whole-history linearizability over all schedules and memory models: the available deductive back end (Kani/CBMC) has no threads and executes atomics sequentially; the per-operation pieces that can be put into contracts are M08 and M09",
    "M14": "termination under fair schedules: Kani does not verify termination and has no fairness; a bounded run would be a different technique",
}
LATER = {
    "M03": "", "M04": "", "M09": "", "M10": "", "M11": "", "M12": "",
}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in CHECKS:
            c = CHECKS[i]
            d = {"property": i, "quick_cmd": "python3 check.py %s" % i,
                 "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                 "technique": "contract-based deductive verification (Kani contracts on the real code, CBMC back end)",
                 "level": c["level"], "level_note": c["note"], "evidence_file": "evidence/%s.json" % i}
            checks.append(d)
        else:
            na.append({"property": i, "reason": NA.get(i) or "not claimed yet"})
    man = {"version": 1, "setup_cmd": "python3 check.py --build-only", "checks": checks, "not_applicable": na,
           "notes": "All contracts live in /verif/kani and are checked against /repo's current source; no hooks in /repo. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
