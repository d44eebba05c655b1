"""Registry: which harnesses (contracts) decide which property."""

TRUSTED = [
    "Kani 0.68 compilation of Rust MIR to goto programs, CBMC 6.11 symbolic execution and CaDiCaL",
    "atomics are executed sequentially: memory orderings and thread interleavings are not modelled by the verifier",
    "seize, parking_lot and portable-atomic are replaced by sequential contract crates (kani/dep): retire() records and optionally runs the reclaimer, a Mutex is a cell, AtomicU128 is a cell",
    "SIMD/prefetch intrinsics are not reached by the verified paths or are stubbed to no-ops",
]

HARNESSES = {}


def H(name, what, cost=10, **kw):
    HARNESSES[name] = dict(what=what, cost=cost, **kw)
    return name


# ---------------------------------------------------------------- keys
READ_IKEY = "Key::read_ikey -> its contract (proved by c_key::key_read_ikey)"
KB = "none: every key of 0..=256 bytes"
H("c_key::key_read_ikey", "Key::read_ikey(d, off) = next eight bytes, big endian, zero padded; no out-of-bounds read", 13, bound=KB, stubbed=False)
H("c_key::key_layers_low", "Key::new/shift/shift_by/unshift/unshift_all: chunk, suffix, remaining length, shift count at layers 0..15", 22, bound=KB, stubs=[READ_IKEY])
H("c_key::key_layers_high", "the same at layers 16..32", 31, bound=KB, stubs=[READ_IKEY])
H("c_key::key_limit", "every length up to 256 is accepted by every constructor", 4, bound=KB, stubbed=False)
H("c_key::key_too_long", "a key longer than 256 bytes is rejected by panic", 3, stubbed=False, should_panic="exceeds maximum|too long|MAX_KEY", bound="lengths 257..=300")
H("c_key::key_order_inline", "chunk order plus length class = bytewise order (keys ending inside a chunk)", 4, stubbed=False)
H("c_key::key_order_suffixed", "the same when a suffix or a layer is involved", 3, stubbed=False)
KEYS = ["c_key::" + x for x in ("key_read_ikey", "key_layers_low", "key_layers_high", "key_limit", "key_too_long", "key_order_inline", "key_order_suffixed")]

# ---------------------------------------------------------------- permuter
for n, w, c in (
    ("perm_make", "empty/make_sorted yield a permutation of all slots with the stated size", 21),
    ("perm_insert", "insert_from_back(i): the back slot appears at i, everything else keeps its order", 6),
    ("perm_remove", "remove/remove_to_back and friends: the slot leaves the visible prefix, order of others kept", 4),
    ("perm_swap", "swap_free_slots only exchanges two free slots", 4),
    ("perm_access", "get/back/back_at_offset/size/set_size read and write exactly their field", 3),
    ("perm_rotate", "rotate keeps a permutation", 4),
    ("perm_freeze", "freezing changes only the freeze mark and is recognised", 1),
):
    H("c_perm::" + n, "Permuter24: " + w, c, stubbed=False, bound="none: every 24-slot permutation word")
PERM = ["c_perm::" + x for x in ("perm_make", "perm_insert", "perm_remove", "perm_swap", "perm_access", "perm_rotate", "perm_freeze")]

for n, w, c in (
    ("freeze_restore", "freeze_permutation: snapshot = the word before, readers and exchanges are refused, giving up restores the word", 10),
    ("freeze_publish", "unfreeze_set_permutation publishes exactly the new word; cas_permutation_raw exchanges from the expected word only", 10),
    ("freeze_words", "Freeze24Utils: unfreezing with the saved slot restores the word", 3),
):
    H("c_freeze::" + n, "LeafNode24: " + w, c, stubbed=False, bound="none: every 24-slot permutation word")
FREEZE = ["c_freeze::" + x for x in ("freeze_restore", "freeze_publish", "freeze_words")]
for n, w in (("make", "empty/make_sorted"), ("insert", "insert_from_back and the copying variant"), ("remove", "remove, remove_to_back"),
             ("swap", "swap_free_slots, exchange, rotate"), ("access", "size/get/set/back/set_size"), ("freeze", "freeze mark")):
    H("c_perm15::p15_" + n, "Permuter<15> and <7>: " + w + ", pointwise", 3, stubbed=False, bound="none: every word, widths 15 and 7")
PERM15 = ["c_perm15::p15_" + x for x in ("make", "insert", "remove", "swap", "access", "freeze")]

# ---------------------------------------------------------------- suffix storage
SB = "contents symbolic; bounded: suffix lengths enumerated (0..5 bytes, long cases 70/80/248), capacities as allocated by the code"
BX = "Box::new -> typed static pool (same value, fresh address)"
for n, w, c in (
    ("suffix_slots", "new/with_capacity: no slot has a suffix; get of an empty slot is None", 18),
    ("suffix_try_assign", "try_assign_in_place: true and this slot's bytes replaced, or false and nothing changed; other slots unchanged", 10),
    ("suffix_assign", "assign: the slot holds exactly the given bytes, other slots unchanged", 13),
    ("suffix_clear", "clear: the slot has no suffix, other slots unchanged", 10),
    ("suffix_reassign", "several assigns in a row keep the latest bytes of every slot", 13),
    ("suffix_clone", "clone: the copy holds the same bytes in every slot and the original is unchanged", 13),
    ("suffix_compact", "compact: live suffixes keep their bytes", 3),
    ("suffix_compact_drop", "compact with dead slots: live suffixes keep their bytes, dead slots are empty", 3),
    ("suffix_long", "suffixes of 70, 80 and 248 bytes are kept exactly", 2),
):
    H("c_suffix::" + n, "SuffixBag: " + w, c, bound=SB, stubbed=False)
for n, w, c in (
    ("leaf_suffix_assign", "assign_ksuf: readers of every other slot see the same bytes before and after, this slot exactly the given bytes; the replaced bag is retired once and never freed in place", 78),
    ("leaf_suffix_assign_shorter", "the same when the slot already had a longer suffix", 85),
    ("leaf_suffix_clear", "clear_ksuf: slot empty, others unchanged, replaced bag retired once", 22),
    ("leaf_suffix_match", "ksuf/ksuf_equals/ksuf_compare/ksuf_matches agree with the stored bytes", 31),
    ("leaf_suffix_grow", "growing beyond the capacity keeps every suffix", 17),
):
    H("c_suffix::" + n, "LeafNode24: " + w, c, bound=SB, stubs=[BX])
SUFFIX = ["c_suffix::" + x for x in ("suffix_slots", "suffix_try_assign", "suffix_assign", "suffix_clear", "suffix_reassign", "suffix_clone", "suffix_compact", "suffix_compact_drop", "suffix_long", "leaf_suffix_assign", "leaf_suffix_assign_shorter", "leaf_suffix_clear", "leaf_suffix_match", "leaf_suffix_grow")]

# ---------------------------------------------------------------- internode
ST_I = "InternodeNode::ikey -> watched-entry view of an arbitrary sorted array (accessor proved by c_inode::inode_frame)"
H("c_inode::inode_new", "constructors: empty, height, flags, no parent", 4, stubbed=False)
H("c_inode::inode_frame", "every accessor writes exactly its own cell", 4, stubbed=False)
H("c_inode::inode_insert_small", "insert_key_and_child(p,k,c) on 0..7 keys: new key/child in place, all others kept in order", 40, stubbed=False)
H("c_inode::inode_insert_large", "the same on 8..14 keys", 38, stubbed=False)
H("c_inode::inode_find", "find_insert_position: number of separators not above the key", 38, stubs=[ST_I])
H("c_inode::inode_route", "upper_bound_internode_generic routes to the child whose range holds the key", 32, stubs=[ST_I])
H("c_inode::inode_route_direct", "upper_bound_internode_direct agrees", 32, stubs=[ST_I])
H("c_inode::inode_split", "split_into: left keys + popped key + right keys = old keys with the new one inserted; children likewise", 18, stubbed=False)
H("c_inode::inode_split_upper", "split_into above the leaf level re-parents exactly the moved children", 20, stubbed=False)
INODE = ["c_inode::" + x for x in ("inode_new", "inode_frame", "inode_insert_small", "inode_insert_large", "inode_find", "inode_route", "inode_route_direct", "inode_split", "inode_split_upper")]

# ---------------------------------------------------------------- leaf
L_STUBS = ["LeafNode24 slot accessors (ikey, keylenx, value pointer, suffix; get and set) -> watched-entry ghost cells (accessors proved by c_leaf::leaf_frame)", "Permuter24::make_sorted -> its contract (proved by c_perm::perm_make)"]
H("c_leaf::leaf_frame", "every slot accessor reads/writes exactly its own cell of its own slot", 6, stubbed=False)
H("c_leaf::leaf_new", "a new leaf is empty, unlinked, unlocked, with the right flags", 6, stubbed=False)
H("c_leaf::leaf_link", "link_sibling splices a node into the doubly linked leaf list", 2, stubbed=False)
H("c_leaf::leaf_split", "split_into_preallocated: every entry is in exactly one half with its chunk, length class, value and suffix; order kept; separator = first chunk on the right", 104, stubs=L_STUBS)
H("c_leaf::leaf_split_stay", "the same for the entries that stay", 60, stubs=L_STUBS)
H("c_leaf::leaf_split_all", "split_all_to_right_preallocated: every entry moves right unchanged", 79, stubs=L_STUBS)
for n, w, c in (("", "a full leaf", 33), ("_23", "23 entries", 33), ("_low", "0..=11 entries", 32), ("_12", "12..=15 entries", 60), ("_16", "16..=19 entries", 60), ("_20", "20..=22 entries", 60)):
    H("c_leaf::leaf_split_point" + n, "calculate_split_point: inside the leaf, never between equal chunks, separator correct, exists on a full leaf: " + w, c, stubs=["Permuter24::get, LeafNode24::ikey -> watched-entry views"])
SPLIT_POINT = ["c_leaf::leaf_split_point" + x for x in ("", "_23", "_low", "_12", "_16", "_20")]
LEAF = ["c_leaf::leaf_frame", "c_leaf::leaf_new", "c_leaf::leaf_link"]

# ---------------------------------------------------------------- driver
QUIET = "NodeVersion::{stable,has_changed,has_changed_or_locked,has_split,is_deleted,is_dirty,is_splitting} -> their contract for a quiescent node (proved by c_version)"
GH = "node types -> ghost nodes of width 3 whose trait methods are their contracts (kani/src/ghost.rs); the real methods are proved against the same contracts"
DB = "bounded: ghost node width 3, suffixes <= 12 bytes, keys <= 20 bytes"
H("seq::seq_get_single", "get/get_ref on one leaf with inline and suffix entries", 29, bound=DB, stubs=[READ_IKEY, GH])
H("seq::seq_get_single_suffixes", "get/get_ref on one leaf with several suffix entries", 23, bound=DB, stubs=[READ_IKEY, GH])
for m, fn, f in (("get", "get", 1.0), ("ref", "get_ref", 1.0)):
    H("seq::seq_%s_blink" % m, fn + " follows the B-link when the key is to the right", 50, bound=DB + ", one B-link hop", stubs=[READ_IKEY, QUIET, GH])
    H("seq::seq_%s_internode_1" % m, fn + " through a root with one separator", 60, bound=DB, stubs=[READ_IKEY, QUIET, GH])
    H("seq::seq_%s_internode_3" % m, fn + " through a root with three separators", 75, bound=DB, stubs=[READ_IKEY, QUIET, GH])
    H("seq::seq_%s_layer" % m, fn + " descends into a layer and compares the right chunk there", 70, bound=DB + ", one layer", stubs=[READ_IKEY, QUIET, GH])
    H("seq::seq_%s_layer_promoted" % m, fn + ": the same when the layer's root was split", 90, bound=DB + ", one layer", stubs=[READ_IKEY, QUIET, GH])
for n in (1, 2):
    H("seq::seq_insert_room_%d" % n, "insert into a leaf with room (%d entries): whole-view postcondition, frame, ownership, lock released" % n, 70, bound=DB, stubs=[READ_IKEY, GH])
ROOM = ["seq::seq_insert_room_1", "seq::seq_insert_room_2"]
GET = ["seq::" + x for x in ("seq_get_single", "seq_get_single_suffixes", "seq_get_blink", "seq_get_internode_1", "seq_get_internode_3", "seq_get_layer", "seq_get_layer_promoted", "seq_ref_blink", "seq_ref_internode_1", "seq_ref_internode_3", "seq_ref_layer", "seq_ref_layer_promoted")]

# ---------------------------------------------------------------- version protocol
RG = "core::sync::atomic::{atomic_load,store,compare_exchange(_weak),or,and}, fence, spin_loop, yield_now on the watched word -> rely-guarantee steps: before each access other threads take any step the protocol allows, after each own step the guarantee is checked (kani/src/rg.rs)"
RGB = "interference: any protocol-conforming new value of the word before each access; spin loops: the environment yields after a bounded number of rounds"
for n, w, c in (
    ("version_flags", "every flag query reports exactly its flag; root marks change nothing else", 2),
    ("version_lock", "lock(): returns only when this thread took the lock bit in one step from an unlocked clean word", 13),
    ("version_lock_yield", "lock_with_yield(): the same", 9),
    ("version_try_lock", "try_lock(): the same or None without any write", 2),
    ("version_stable", "stable(): the returned word is clean and was current at some moment", 5),
    ("version_reader", "has_changed/has_changed_or_locked/has_split/is_*: false only if no section overlapped since the snapshot", 10),
    ("version_section", "mark_insert/mark_split/mark_deleted/unlock: only the holder writes, dirty while modifying, the right counter moves, released once", 10),
    ("version_sections", "any sequence of marks within a section", 20),
    ("version_sections_many", "counters after many sections differ", 2),
    ("version_section_step", "every section moves the version counter forward by a small step (no wrap-around within 1000 sections, by induction)", 3),
    ("version_new_for_split", "a split sibling starts locked, dirty, with the inherited counters and is unlocked once", 5),
):
    spin = n in ("version_lock", "version_lock_yield", "version_stable", "version_sections", "version_sections_many")
    H("c_version::" + n, "NodeVersion: " + w, c, stubs=[RG], bound=RGB if spin else "none: any protocol-conforming new value of the word before each access")
VERSION = ["c_version::" + x for x in ("version_flags", "version_lock", "version_lock_yield", "version_try_lock", "version_stable", "version_reader", "version_section", "version_sections", "version_sections_many", "version_section_step", "version_new_for_split")]

# ---------------------------------------------------------------- splits (driver)
NOP = "core::hint::spin_loop, prefetch -> no-op"
GSPLIT = "bounded: ghost leaf and routing-node width 3, at most two full levels above the leaf"
for n, w, c in (
    ("split_root_leaf", "make_split_leaf, topmost leaf: the new root routes to both halves, root pointer moved, everything unlocked and recorded", 4),
    ("split_layer_root_leaf", "the same for the top of a deeper layer: the tree's root pointer stays", 4),
    ("split_parent_room_1", "parent with one separator: it routes to both halves, every other entry kept", 5),
    ("split_parent_room_2", "parent with two separators", 6),
    ("split_parent_full_root", "full parent at the top: split, one separator up, new root, children re-parented", 9),
    ("split_parent_full_layer", "full parent at the top of a layer", 7),
    ("split_parent_full_grand", "full parent below a parent with room", 7),
    ("split_cascade_root", "parent and grandparent full: both split, new root", 10),
    ("split_cascade_layer", "the same at the top of a layer", 9),
    ("split_parent_moved", "another thread splits the parent while this one waits for its lock", 6),
    ("split_leaf_root_1", "handle_leaf_split on the topmost leaf: every key reachable by its range, halves linked", 9),
    ("split_leaf_root_2", "the same with a right neighbour", 9),
    ("split_leaf_layer", "the same at the top of a layer", 9),
    ("split_leaf_parent", "the same below a parent", 9),
):
    H("seq_split::" + n, w, c, bound=GSPLIT, stubs=[GH, NOP])
SEQ_SPLIT = ["seq_split::" + x for x in ("split_root_leaf", "split_layer_root_leaf", "split_parent_room_1", "split_parent_room_2", "split_parent_full_root", "split_parent_full_layer", "split_parent_full_grand", "split_cascade_root", "split_cascade_layer", "split_parent_moved", "split_leaf_root_1", "split_leaf_root_2", "split_leaf_layer", "split_leaf_parent")]

# ---------------------------------------------------------------- layer creation
CB = "bounded: at most two shared chunks below the conflict, remainder lengths enumerated (1..16 bytes, every combination class), bytes symbolic"
for n, w, c in (
    ("layer_inline", "both keys end inside the next chunk", 16),
    ("layer_prefix", "one key ends, the other goes on", 15),
    ("layer_suffixed", "both go on beyond the next chunk", 10),
    ("layer_twig_1", "one whole shared chunk more", 23),
    ("layer_twig_2", "two whole shared chunks more", 20),
):
    H("seq_create::" + n, "create_layer_concurrent_generic: both keys are found in the new layer with their own values, nodes recorded, old entry untouched until installed: " + w, c, bound=CB, stubs=[READ_IKEY, GH])
CREATE = ["seq_create::" + x for x in ("layer_inline", "layer_prefix", "layer_suffixed", "layer_twig_1", "layer_twig_2")]

# ---------------------------------------------------------------- insert (driver loop)
IB = "bounded: ghost node width 3, concrete slot orders, the passes of the retry loop as planned"
WALK = "reach_leaf_concurrent_generic and advance_to_key_by_bound_generic -> their contract (proved by seq_walk); create_layer_concurrent_generic -> its contract (proved by seq_create); handle_leaf_split_generic -> its contract (proved by seq_split)"
for n, w, c in (
    ("ins_conflict_1", "a key that shares the chunk of a longer entry: the entry becomes the layer", 6),
    ("ins_conflict_3", "the same in a full leaf", 12),
    ("ins_full_left", "full leaf, key below the separator", 25),
    ("ins_full_left_2", "full leaf, key below the separator, split after two entries", 37),
    ("ins_full_right", "full leaf, key above the separator", 40),
    ("ins_full_right_2", "full leaf, key above the separator, split after two entries", 34),
    ("ins_full_at", "full leaf, key equal to the separator", 37),
    ("ins_full_at_2", "full leaf, key equal to the separator, split after two entries", 40),
    ("ins_layer", "the key goes on in an existing layer (4 more bytes)", 20),
    ("ins_layer_full_chunk", "the key goes on in an existing layer (8 more bytes)", 23),
    ("ins_layer_promoted_left", "the layer's top was split, key in the left part", 20),
    ("ins_layer_promoted_right", "the layer's top was split, key in the right part", 19),
    ("ins_blink_left", "a right neighbour exists, key stays", 8),
    ("ins_blink_at", "a right neighbour exists, key belongs there", 8),
    ("ins_race_left", "the leaf is split by another thread before the lock, key stays", 6),
    ("ins_race_right", "the leaf is split by another thread before the lock, key moves", 7),
    ("ins_race_at", "the leaf is split by another thread before the lock, the key is the new lower bound", 7),
    ("ins_slot0", "slot 0 free but holding the lower bound of a linked leaf", 8),
):
    H("seq_ins::" + n, "insert: whole-view postcondition, frame, ownership, locks released: " + w, c, bound=IB, stubs=[READ_IKEY, GH, WALK, NOP])
INS = ["seq_ins::" + x for x in ("ins_conflict_1", "ins_conflict_3", "ins_full_left", "ins_full_left_2", "ins_full_right", "ins_full_right_2", "ins_full_at", "ins_full_at_2", "ins_layer", "ins_layer_full_chunk", "ins_layer_promoted_left", "ins_layer_promoted_right", "ins_blink_left", "ins_blink_at", "ins_race_left", "ins_race_right", "ins_race_at", "ins_slot0")]
INS_FULL = [x for x in INS if "full_" in x and "chunk" not in x]
INS_CONF = ["seq_ins::ins_conflict_1", "seq_ins::ins_conflict_3", "seq_ins::ins_layer", "seq_ins::ins_layer_full_chunk", "seq_ins::ins_layer_promoted_left", "seq_ins::ins_layer_promoted_right"]
INS_RACE = ["seq_ins::ins_race_left", "seq_ins::ins_race_right", "seq_ins::ins_race_at"]

# ---------------------------------------------------------------- lookups under interference
RB = "bounded: ghost node width 3; one interfering writer section at a time on the leaf, taken in any number of steps before every shared read of the lookup"
RENV = "every shared read (slot fields, permutation, next, version words through atomic_load) first lets the writer take any number of its steps; stable() -> its contract (proved by c_version)"
for n, w, c in (
    ("race_insert_0", "another key is inserted in front", 24),
    ("race_insert_1", "another key is inserted in the middle", 18),
    ("race_insert_own", "this key is inserted", 16),
    ("race_update_get", "an entry gets a new value", 5),
    ("race_split_stay", "the leaf is split, the key stays", 24),
    ("race_split_move", "the leaf is split, the key moves", 24),
    ("race_split_move_2", "the leaf is split, the key moves (two stay)", 25),
    ("race_split_next", "the leaf is split while the key lives in its right neighbour", 30),
    ("race_layer_get", "the key's entry becomes a layer", 8),
    ("race_ref_insert_0", "get_ref: another key is inserted", 29),
    ("race_ref_insert_own", "get_ref: this key is inserted", 23),
    ("race_ref_update", "get_ref: an entry gets a new value", 7),
    ("race_ref_split_stay", "get_ref: the leaf is split, the key stays", 23),
    ("race_ref_split_move", "get_ref: the leaf is split, the key moves", 31),
    ("race_ref_split_next", "get_ref: the leaf is split while the key lives in its right neighbour", 31),
    ("race_ref_layer", "get_ref: the key's entry becomes a layer", 11),
):
    H("rg_get::" + n, "lookup returns what the key held at some moment while: " + w, c, bound=RB, stubs=[READ_IKEY, GH, RENV, WALK])
RACE = ["rg_get::" + x for x in ("race_insert_0", "race_insert_1", "race_insert_own", "race_update_get", "race_split_stay", "race_split_move", "race_split_move_2", "race_split_next", "race_layer_get", "race_ref_insert_0", "race_ref_insert_own", "race_ref_update", "race_ref_split_stay", "race_ref_split_move", "race_ref_split_next", "race_ref_layer")]

# ---------------------------------------------------------------- walks
WB = "bounded: ghost routing-node width 3, two levels, chain of three leaves; one interfering writer section in any steps"
WENV = "reads of the modified routing node answer before/anything/after; stable() -> its contract (proved by c_version)"
for n, w, c, st in (
    ("walk_descend", "reach_leaf_concurrent_generic, undisturbed, two levels: the leaf that covers the key", 48, []),
    ("walk_descend_insert", "reach_leaf_concurrent_generic while a separator is added: never to the right of the key", 65, [WENV]),
    ("walk_descend_split", "reach_leaf_concurrent_generic while the node is split: never to the right of the key", 75, [WENV]),
    ("walk_top", "maybe_parent_generic ends at the node without parent", 3, []),
    ("walk_chain", "advance_to_key_by_bound_generic and advance_to_key_generic, undisturbed: the leaf that covers the key", 12, []),
    ("walk_split_stay", "advance_to_key_generic while the leaf is split, key stays", 7, [RENV]),
    ("walk_split_move", "advance_to_key_generic while the leaf is split, key moves", 6, [RENV]),
    ("walk_bound_split_stay", "advance_to_key_by_bound_generic while the leaf is split, key stays", 6, [RENV]),
    ("walk_bound_split_move", "advance_to_key_by_bound_generic while the leaf is split, key moves", 6, [RENV]),
):
    H("seq_walk::" + n, w, c, bound=WB, stubs=[READ_IKEY, GH, NOP] + st)
WALK_Q = ["seq_walk::walk_descend", "seq_walk::walk_top", "seq_walk::walk_chain"]
WALK_R = ["seq_walk::" + x for x in ("walk_descend_insert", "walk_descend_split", "walk_split_stay", "walk_split_move", "walk_bound_split_stay", "walk_bound_split_move")]

# ---------------------------------------------------------------- values
KSUFC = "LeafNode24::assign_ksuf -> its contract (proved by c_suffix)"
H("c_value::value_shared", "LeafValue: output_to_raw and output_from_raw add one reference, consume moves it, cleanup gives back exactly one", 3, stubbed=False)
H("c_value::value_inline", "LeafValueIndex: every raw pointer is its own copy and is released by its own cleanup", 2, stubbed=False)
H("c_value::value_inline_released", "LeafValueIndex: cleanup really releases (reading afterwards has to fail)", 2, stubbed=False, should_panic="deallocated dynamic object|pointer invalid|dead object")
H("c_value::assign_shared", "LeafNode24<LeafValue>: assign_from_key_arc stores chunk, length class, suffix and the one reference it was given; try_clone_output adds one; take moves it out", 30, stubs=[READ_IKEY, KSUFC], bound="none: every key of 0..=28 bytes at layers 0..2 and every slot")
H("c_value::assign_inline", "LeafNode24<LeafValueIndex>: the same for inline values", 26, stubs=[READ_IKEY, KSUFC], bound="none: every key of 0..=28 bytes at layers 0..2 and every slot")
H("c_value::leaf_drop", "LeafNode24::drop releases each held value once and no layer, for every content", 8, stubbed=False)
VALUE = ["c_value::" + x for x in ("value_shared", "value_inline", "value_inline_released", "assign_shared", "assign_inline", "leaf_drop")]
ASSIGN = ["c_value::assign_shared", "c_value::assign_inline"]

# ---------------------------------------------------------------- allocator
AB = "bounded: three nodes; retire/teardown/drop orders enumerated"
for n, w, c in (
    ("alloc_leaves", "drop", 18), ("alloc_leaves_teardown", "teardown, then drop", 18),
    ("alloc_leaves_retire", "one node retired, then drop", 15), ("alloc_leaves_retire_later", "one node retired, teardown, drop", 15),
):
    H("c_alloc::" + n, "SeizeAllocator24: every recorded leaf is released exactly once: " + w, c, bound=AB, stubbed=False)
for n, w in (("alloc_inodes", "drop"), ("alloc_inodes_teardown", "teardown, then drop"), ("alloc_inodes_retire", "one node retired, then drop")):
    H("c_alloc::" + n, "SeizeAllocator24: no routing node is released early or twice: " + w, 9, bound=AB, stubbed=False)
for n in ("released_0", "released_1", "released_2", "torn_0", "torn_2", "retired"):
    H("c_alloc::alloc_inodes_" + n, "SeizeAllocator24: every routing node is released (reading it afterwards has to fail)", 9, bound=AB, stubbed=False, should_panic="deallocated dynamic object|pointer invalid|dead object")
H("c_alloc::tree_drop", "a tree records its first node; dropping it runs the deferred releases, then the teardown, once", 2, stubs=[GH])
ALLOC = ["c_alloc::" + x for x in ("alloc_leaves", "alloc_leaves_teardown", "alloc_leaves_retire", "alloc_leaves_retire_later", "alloc_inodes", "alloc_inodes_teardown", "alloc_inodes_retire", "alloc_inodes_released_0", "alloc_inodes_released_1", "alloc_inodes_released_2", "alloc_inodes_torn_0", "alloc_inodes_torn_2", "alloc_inodes_retired", "tree_drop")]

# ---------------------------------------------------------------- driver on the real leaf
WV = ["LeafNode24 slot accessors -> view of one arbitrary watched entry among arbitrary others (accessors proved by c_leaf::leaf_frame)",
      "LeafNode24::{ksuf,ksuf_equals,assign_ksuf,clear_ksuf} -> their contracts (proved by c_suffix, bounded)", READ_IKEY, NOP]
WN = "none: all 24 slots, every number and order of entries, every key of 0..=256 bytes; a tree of one leaf"
WS = "bounded in the key only: every key of 0..=20 bytes; all 24 slots, every number and order of entries; a tree of one leaf"
for n, w, c, b in (
    ("wide_get", "get returns the value stored under the key, or nothing", 70, WN),
    ("wide_get_ref", "get_ref does", 70, WN),
    ("wide_layer", "get enters a layer exactly for keys that go on behind its chunk", 90, WN),
    ("wide_layer_ref", "get_ref does", 95, WN),
    ("wide_add", "insert of a new key into a leaf with room: one free slot filled with the key, every other entry kept in place and order, sorted, owned once, counted, lock released", 110, WN),
    ("wide_update", "insert of a present key: its value replaced, the old one handed back and retired once, nothing else written", 140, WS),
    ("wide_conflict", "insert of a key that collides with an entry: exactly that entry becomes the layer, each value keeps one owner", 80, WS),
):
    quiet = [QUIET] if "get" in n or "layer" in n else ["handle_leaf_split_generic -> must not be called; create_layer_concurrent_generic -> its contract (proved by seq_create, bounded)"]
    H("c_wide::" + n, "real tree driver on the real LeafNode24: " + w, c, bound=b, stubs=WV + quiet)
WIDE_GET = ["c_wide::" + x for x in ("wide_get", "wide_get_ref", "wide_layer", "wide_layer_ref")]
WIDE_INS = ["c_wide::wide_add", "c_wide::wide_update"]

LEAF_SPLIT = ["c_leaf::leaf_split", "c_leaf::leaf_split_stay", "c_leaf::leaf_split_all"] + SPLIT_POINT + [ "c_leaf::leaf_link", "c_leaf::leaf_new"]

CHECKS = {
    "M01": dict(level="proof", quick=WIDE_GET + GET + KEYS[:1] + ["c_inode::inode_route"] + WALK_Q,
                note="get/get_ref of the real driver proved on the real 24-slot leaf for every content and every key, and routing in the real node for every content; across several nodes and layers checked over ghost nodes of width 3 with short chains (bounded, counted apart)",
                explanation="get/get_ref of the real tree driver discharge the lookup specification over ghost nodes"),
    "M02": dict(level="proof", quick=WIDE_INS + ROOM + ["c_leaf::leaf_frame", "c_perm::perm_insert"] + INS + WALK_Q,
                note="insert into a leaf with room proved on the real driver and the real 24-slot leaf for every content; conflicts, splits, layers, B-links and retries checked over ghost nodes of width 3 (bounded, counted apart)",
                explanation="insert of the real tree driver discharges the insert specification"),
    "M03": dict(level="other", quick=["c_wide::wide_conflict"] + CREATE + INS_CONF + ASSIGN + ["c_key::key_order_inline", "c_key::key_order_suffixed", "c_key::key_layers_low", "seq::seq_get_layer", "seq::seq_ref_layer"],
                note="layer creation, the conflict path of insert and the lookup in layers proved on the real driver over ghost nodes (at most two shared chunks below the conflict); assign_from_key_arc on the real leaf in both storage modes",
                explanation="contracts of layer creation and of the conflict path"),
    "M04": dict(level="proof", quick=LEAF_SPLIT + ["c_inode::inode_split", "c_inode::inode_split_upper", "c_version::version_new_for_split"] + SEQ_SPLIT + INS_FULL,
                note="split functions of the real leaf and routing node proved for every content; the propagation on the real driver over ghost nodes of width 3 with up to two full levels above",
                explanation="contracts of the split functions on the real nodes and of the propagation"),
    "M05": dict(level="proof", quick=KEYS, note="complete over all keys of 0..=256 bytes", explanation="contracts of Key on the real code"),
    "M06": dict(level="proof", quick=PERM + FREEZE + PERM15, note="complete over all 24-slot permutation words (and over all words of the narrow permuter at widths 15 and 7)", explanation="contracts of Permuter24, of freezing a leaf's permutation, and of the narrow permuter, on the real code"),
    "M07": dict(level="proof", quick=INODE, note="complete over all contents of the real routing node", explanation="contracts of InternodeNode and the routing search on the real code"),
    "M08": dict(level="proof", quick=VERSION, note="rely-guarantee proof of the version word protocol on the real code; sequential consistency is assumed",
                explanation="each NodeVersion operation keeps the guarantee and delivers its postcondition under every protocol-conforming interference"),
    "M09": dict(level="other", quick=RACE + WALK_R + INS_RACE + ["c_version::version_reader", "c_version::version_stable"],
                note="rely-guarantee proof of get/get_ref of the real driver over ghost nodes: one interfering writer section, any interleaving of its steps with the lookup's reads, sequential consistency; bounded ghost width",
                explanation="the lookup is checked against every interleaving with the steps of one writer section"),
    "M10": dict(level="other", quick=SUFFIX, note="contracts of the real SuffixBag and the leaf's suffix methods; contents symbolic, lengths enumerated (bounded)",
                explanation="contracts of the suffix storage on the real code"),
    "M11": dict(level="proof", quick=VALUE + ["c_wide::wide_update", "c_wide::wide_conflict", "seq::seq_insert_room_1", "seq_ins::ins_conflict_1", "seq_ins::ins_full_left", "seq_ins::ins_full_right", "seq_ins::ins_layer", "seq_create::layer_inline", "seq_create::layer_twig_1", "c_leaf::leaf_frame"],
                note="ownership contracts of the real value slots and leaf methods; ownership ledger of the real driver's insert over ghost nodes (bounded width)",
                explanation="every conversion and every insert path keeps the ownership ledger"),
    "M12": dict(level="other", quick=ALLOC + SEQ_SPLIT + CREATE + ["c_value::leaf_drop"],
                note="allocator and tree drop on the real code (three nodes); every node created by splits and layer creation is recorded once (ghost nodes)",
                explanation="every created node is recorded and every recorded node is released once"),
}

# Native search binaries (/verif/witness).  They look for a concrete failing input when an
# obligation fails, and they are the bounded stand-in while an obligation is undecided.
WITNESS = {
    "M01": [("w_tree", "M01")], "M02": [("w_tree", "M02")], "M03": [("w_tree", "M03"), ("w_key", "M03"), ("w_suffix", "M03")],
    "M04": [("w_tree", "M04"), ("w_inode", "M04")], "M05": [("w_key", "M05")], "M06": [("w_perm", "M06")],
    "M07": [("w_inode", "M07")], "M08": [("w_version", "M08")], "M09": [("w_tree", "M09")], "M10": [("w_suffix", "M10")],
    "M11": [("w_tree", "M11")], "M12": [("w_tree", "M12")],
}
# Scope outside the verifier's reach, covered on every run by the bounded stand-in only
# (never counted as proved).
_WIDE = "the composition at the real node widths (24 slots, 15 separators) and at any depth: the proofs cover the real nodes against their contracts and the real driver over ghost nodes of width 3"
STANDIN = {
    "M01": _WIDE, "M02": _WIDE, "M03": _WIDE, "M04": _WIDE,
    "M08": "memory orderings on this machine's hardware (the proofs assume sequential consistency)",
    "M09": "several writers at once on real nodes and hardware (the proofs cover one interfering section, sequentially consistent)",
    "M10": "suffix storage beyond a few hundred bytes, up to several hundred KiB",
    "M11": "the real reclamation library (seize is a contract crate in the proofs)",
    "M12": "the real reclamation library and whole trees (seize is a contract crate in the proofs)",
}
