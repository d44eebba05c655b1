//! Contracts of the real node allocator (`alloc24.rs`): every node handed to it is
//! released exactly once: when it is retired, at teardown, or with the allocator.
use crate::c_value::{CLEANED, CS, ctok};
use masstree::alloc24::SeizeAllocator24;
use masstree::alloc_trait::NodeAllocatorGeneric;
use masstree::internode::InternodeNode;
use crate::ghost;
use masstree::leaf_trait::*;
use masstree::leaf24::LeafNode24;

type L = LeafNode24<CS>;
type I = InternodeNode<CS, 15>;
type A = SeizeAllocator24<CS>;

fn leaf(i: usize) -> Box<L> {
    let l = <L as TreeLeafNode<CS>>::new_boxed();
    TreeLeafNode::set_leaf_value_ptr(&*l, 0, ctok(i));
    l
}
fn freed(i: usize) -> u8 {
    unsafe { CLEANED.v[i] }
}
/// `a`, `b`: how the second and third leaf end; teardown before the drop or not
fn leaves(retire: bool, teardown: bool, eager: bool) {
    unsafe {
        CLEANED.v = [0; 24];
        seize::EAGER.v = eager;
    }
    let a: A = SeizeAllocator24::new();
    let p0 = NodeAllocatorGeneric::alloc_leaf(&a, leaf(0));
    let p1 = Box::into_raw(leaf(1));
    NodeAllocatorGeneric::track_leaf(&a, p1);
    let p2 = NodeAllocatorGeneric::alloc_leaf(&a, leaf(2));
    assert!(p0 != p1 && p1 != p2 && p0 != p2 && a.leaf_count() == 3 && a.internode_count() == 0, "every leaf is recorded");
    assert!(TreeLeafNode::leaf_value_ptr(unsafe { &*p2 }, 0) == ctok(2), "the node is the one handed over");
    let c = seize::Collector::new();
    let g = c.enter();
    if retire {
        unsafe { NodeAllocatorGeneric::retire_leaf(&a, p1, &g) };
        assert!(a.leaf_count() == 2 && freed(1) == eager as u8 && freed(0) == 0 && freed(2) == 0, "a retired leaf is released by the collector only");
    }
    if teardown {
        NodeAllocatorGeneric::teardown_tree(&a, p0 as *mut u8);
        assert!(freed(0) == 1 && freed(2) == 1 && a.leaf_count() == 0, "teardown releases every leaf");
    }
    drop(a);
    assert!(freed(0) == 1 && freed(2) == 1 && freed(1) == (!retire || eager) as u8, "every leaf is released exactly once");
    core::mem::forget(g);
    core::mem::forget(c);
}
macro_rules! h { ($($n:ident = $e:expr;)*) => { $(
    #[kani::proof]
    #[kani::unwind(26)]
    fn $n() { $e; kani::cover!(true); }
)* } }
h! {
    alloc_leaves = leaves(false, false, true);
    alloc_leaves_teardown = leaves(false, true, true);
    alloc_leaves_retire = leaves(true, false, true);
    alloc_leaves_retire_later = leaves(true, true, false);
}

// ---------------------------------------------------------------- routing nodes
fn inode() -> *mut u8 {
    Box::into_raw(<I as TreeInternode<CS>>::new_boxed(0)) as *mut u8
}
/// `which` node is read after the allocator (or the collector) has released it
fn inodes(retire: bool, teardown: bool, which: usize) {
    unsafe { seize::EAGER.v = true };
    let a: A = SeizeAllocator24::new();
    let n = inode();
    let p0 = NodeAllocatorGeneric::<CS, L>::alloc_internode_erased(&a, n);
    assert!(p0 == n, "the node is the one handed over");
    let p1 = inode();
    NodeAllocatorGeneric::<CS, L>::track_internode_erased(&a, p1);
    let p2 = NodeAllocatorGeneric::<CS, L>::alloc_internode_erased(&a, inode());
    assert!(a.internode_count() == 3 && a.leaf_count() == 0, "every routing node is recorded");
    let c = seize::Collector::new();
    let g = c.enter();
    if retire {
        unsafe { NodeAllocatorGeneric::<CS, L>::retire_internode_erased(&a, p1, &g) };
        assert!(a.internode_count() == 2, "a retired node is the collector's");
    }
    let alive = |p: *mut u8| TreeInternode::<CS>::nkeys(unsafe { &*(p as *const I) }) == 0;
    assert!(alive(p0) && alive(p2) && (retire || alive(p1)), "nodes stay allocated as long as the tree");
    if teardown {
        NodeAllocatorGeneric::<CS, L>::teardown_tree(&a, p0);
        assert!(a.internode_count() == 0);
    }
    drop(a);
    match which {
        0 => assert!(alive(p0)),
        1 => assert!(alive(p1)),
        2 => assert!(alive(p2)),
        _ => {}
    }
    core::mem::forget(g);
    core::mem::forget(c);
}
macro_rules! hi { ($($n:ident = $e:expr;)*) => { $(
    #[kani::proof]
    #[kani::unwind(18)]
    fn $n() { $e; }
)* } }
hi! {
    alloc_inodes = inodes(false, false, 9);
    alloc_inodes_teardown = inodes(false, true, 9);
    alloc_inodes_retire = inodes(true, false, 9);
    alloc_inodes_released_0 = inodes(false, false, 0);
    alloc_inodes_released_1 = inodes(false, false, 1);
    alloc_inodes_released_2 = inodes(false, false, 2);
    alloc_inodes_torn_0 = inodes(false, true, 0);
    alloc_inodes_torn_2 = inodes(false, true, 2);
    alloc_inodes_retired = inodes(true, false, 1);
}

// ---------------------------------------------------------------- the tree
/// A tree records its first node, and its drop runs the deferred releases, then the
/// teardown, once.
#[kani::proof]
#[kani::unwind(5)]
fn tree_drop() {
    ghost::init();
    unsafe {
        ghost::TEARDOWNS.v = 0;
        seize::RECLAIMED_ALL.v = 0;
    }
    let t = ghost::GTree::with_allocator(ghost::GAlloc);
    assert!(unsafe { ghost::TRACKED_LEAVES.v == 1 && ghost::TEARDOWNS.v == 0 }, "the first node is recorded with the allocator");
    drop(t);
    assert!(unsafe { ghost::TEARDOWNS.v == 1 && seize::RECLAIMED_ALL.v == 1 }, "dropping the tree releases everything once");
    kani::cover!(true);
}
