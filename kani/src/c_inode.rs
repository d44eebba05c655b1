//! Contracts of the real `InternodeNode` (width 15), complete over its contents.
//! Sizes and positions are enumerated, contents are arbitrary.
use masstree::internode::InternodeNode;
use masstree::leaf_trait::TreeInternode;
use masstree::nodeversion::NodeVersion;
use masstree::value::LeafValueIndex;

type S = LeafValueIndex<u64>;
type I = InternodeNode<S>;
const IWD: usize = 15;

// typed static storage keeps field-level precision in the verifier
static mut A: I = unsafe { core::mem::zeroed() };
static mut B: I = unsafe { core::mem::zeroed() };

fn any_ptr() -> *mut u8 {
    let a: usize = kani::any();
    a as *mut u8
}
fn any_upto(n: usize) -> usize {
    let v: usize = kani::any();
    kani::assume(v <= n);
    v
}
/// keys and children of an internode, as plain values
#[derive(Clone, Copy)]
struct View {
    k: [u64; IWD + 1],
    c: [*mut u8; IWD + 2],
}
fn view(b: &I) -> View {
    let mut v = View { k: [0; IWD + 1], c: [core::ptr::null_mut(); IWD + 2] };
    let mut i = 0;
    while i < IWD {
        v.k[i] = b.ikey(i);
        v.c[i] = b.child(i);
        i += 1;
    }
    v.c[IWD] = b.child(IWD);
    v
}
/// an internode with `n` keys and arbitrary separators and children
fn any_inode(b: &'static mut I, n: usize) -> &'static I {
    *b.version_mut() = NodeVersion::new(false);
    let mut i = 0;
    while i < IWD {
        b.set_ikey(i, kani::any());
        b.set_child(i, any_ptr());
        i += 1;
    }
    b.set_child(IWD, any_ptr());
    b.set_nkeys(n as u8);
    b.set_parent(core::ptr::null_mut());
    b
}
#[kani::proof]
#[kani::unwind(19)]
fn inode_new() {
    let h: u32 = kani::any();
    let a = <I as TreeInternode<S>>::new_boxed(h);
    let r = <I as TreeInternode<S>>::new_root_boxed(h);
    let pv = NodeVersion::new(false);
    let s = <I as TreeInternode<S>>::new_boxed_for_split(&pv, h);
    let j = any_upto(IWD);
    macro_rules! blank { ($x:expr) => {
        assert!($x.nkeys() == 0 && $x.height() == h && $x.children_are_leaves() == (h == 0) && $x.parent().is_null() && $x.child(j).is_null(), "a new internode is empty");
        assert!(!$x.version().is_leaf() && !$x.version().is_deleted() && !$x.is_full());
    } }
    blank!(a);
    blank!(r);
    blank!(s);
    assert!(r.is_root() && !a.is_root() && !s.is_root());
    assert!(!a.version().is_locked() && !r.version().is_locked());
    assert!(s.version().is_locked() && s.version().is_splitting() && s.version().is_split_locked(), "a split sibling is born locked");
}
/// reads return what was written, at that index only
#[kani::proof]
#[kani::unwind(19)]
fn inode_frame() {
    let b = any_inode(unsafe { &mut *(&raw mut A) }, 7);
    let v = view(b);
    let mut i = 0;
    while i < IWD {
        let (k, c) = (kani::any(), any_ptr());
        TreeInternode::assign(b, i, k, c);
        let mut j = 0;
        while j < IWD {
            assert!(b.ikey(j) == if j == i { k } else { v.k[j] }, "assign writes one separator");
            assert!(b.child(j + 1) == if j == i { c } else { v.c[j + 1] }, "assign writes one child");
            j += 1;
        }
        assert!(b.child(0) == v.c[0] && b.nkeys() == 7);
        b.set_ikey(i, v.k[i]);
        b.set_child(i + 1, v.c[i + 1]);
        i += 1;
    }
    let p = any_ptr();
    TreeInternode::set_parent(b, p);
    assert!(TreeInternode::parent(b) == p && b.nkeys() == 7);
    TreeInternode::inc_nkeys(b);
    assert!(b.nkeys() == 8);
}
/// insertion of (key, right child) at position p: everything before stays, the rest moves up by one
fn insert_at(n: usize, p: usize) {
    let b = any_inode(unsafe { &mut *(&raw mut A) }, n);
    let (k, c) = (kani::any(), any_ptr());
    let v = view(b);
    TreeInternode::insert_key_and_child(b, p, k, c);
    let w = view(b);
    assert!(b.nkeys() == n + 1, "one key more");
    assert!(w.k[p] == k && w.c[p + 1] == c, "the new separator and its right child sit together");
    let mut j = 0;
    while j <= n {
        if j < p {
            assert!(w.k[j] == v.k[j], "separators before stay");
        }
        if j >= p && j < n {
            assert!(w.k[j + 1] == v.k[j], "separators after move up by one");
        }
        if j <= p {
            assert!(w.c[j] == v.c[j], "children up to the split child stay");
        } else {
            assert!(w.c[j + 1] == v.c[j], "children after move up by one");
        }
        j += 1;
    }
}
/// every size and position (120 cases), arbitrary contents
fn inserts(from: usize, to: usize) {
    let mut n = from;
    while n < to {
        let mut p = 0;
        while p <= n {
            insert_at(n, p);
            p += 1;
        }
        n += 1;
    }
}
#[kani::proof]
#[kani::unwind(19)]
fn inode_insert_small() {
    inserts(0, 11);
}
#[kani::proof]
#[kani::unwind(19)]
fn inode_insert_large() {
    inserts(11, 15);
}
/// Contract of `ikey` (see inode_frame): the n-th stored separator.
static mut KEYS: crate::G<[u64; IWD]> = crate::G { v: [0; IWD], magic: 0x5eed0000002d002e };
fn st_ikey<S: masstree::slot::ValueSlot, const WIDTH: usize>(_n: &InternodeNode<S, WIDTH>, i: usize) -> u64 {
    assert!(i < IWD, "contract: separator index in range");
    unsafe { KEYS.v[i] }
}
/// `n` separators, of which a prefix is smaller than `k`, at most one equals it
fn any_keys(k: u64) -> (&'static I, usize, usize, usize) {
    let n = any_upto(IWD);
    let b = unsafe { &mut *(&raw mut A) };
    b.set_nkeys(n as u8);
    let ks: [u64; IWD] = kani::any();
    let (tl, tu) = (any_upto(n), any_upto(n));
    kani::assume(tu == tl || tu == tl + 1);
    let mut i = 0;
    while i < IWD {
        kani::assume(i >= n || ((ks[i] < k) == (i < tl) && (ks[i] <= k) == (i < tu)));
        i += 1;
    }
    unsafe { KEYS.v = ks };
    (b, n, tl, tu)
}
#[kani::proof]
#[kani::unwind(19)]
#[kani::stub(masstree::internode::InternodeNode::ikey, st_ikey)]
fn inode_find() {
    let k: u64 = kani::any();
    let (b, n, tl, _) = any_keys(k);
    let p = TreeInternode::find_insert_position(b, k);
    assert!(p == tl, "insert position separates smaller from larger separators");
    assert!(b.is_full() == (n == IWD));
    let j = any_upto(IWD - 1);
    assert!(TreeInternode::compare_key(b, k, j) == k.cmp(unsafe { &KEYS.v[j] }));
    kani::cover!(p == 15);
}
#[kani::proof]
#[kani::unwind(19)]
#[kani::stub(masstree::internode::InternodeNode::ikey, st_ikey)]
fn inode_route() {
    let k: u64 = kani::any();
    let (b, _, tl, tu) = any_keys(k);
    let u = masstree::ksearch::upper_bound_internode_generic::<S, I>(k, b);
    assert!(u == tu, "a search follows the child whose range holds the chunk");
    kani::cover!(u == 15);
    kani::cover!(u == tl + 1);
}
#[kani::proof]
#[kani::unwind(19)]
#[kani::stub(masstree::internode::InternodeNode::ikey, st_ikey)]
fn inode_route_direct() {
    let k: u64 = kani::any();
    let (b, _, _, tu) = any_keys(k);
    let v = masstree::ksearch::upper_bound_internode_direct::<S, IWD>(k, b);
    assert!(v == tu, "a search follows the child whose range holds the chunk");
}
/// split of a full internode while inserting: the merged sequence of separators is cut at
/// one key, which moves up; no separator or child is lost, duplicated or reordered
fn split_at(p: usize) {
    let b = any_inode(unsafe { &mut *(&raw mut A) }, IWD);
    let r = unsafe { &mut *(&raw mut B) };
    let (k, c) = (kani::any(), any_ptr());
    let v = view(b);
    let g = b.version().lock();
    *r.version_mut() = NodeVersion::new_for_split(b.version());
    let rp: *mut I = r;
    let (popup, left) = TreeInternode::split_into(b, r, rp, p, k, c);
    let m = b.nkeys();
    assert!(m >= 1 && r.nkeys() >= 1 && m + r.nkeys() == IWD, "the merged separators are divided around one");
    let (x, y) = (view(b), view(r));
    let mut j = 0;
    while j <= IWD {
        let mk = if j < p { v.k[j] } else if j == p { k } else { v.k[j - 1] };
        let got = if j < m { x.k[j] } else if j == m { popup } else { y.k[j - m - 1] };
        assert!(got == mk, "separators keep their order across the split");
        j += 1;
    }
    j = 0;
    while j <= IWD + 1 {
        let mc = if j <= p { v.c[j] } else if j == p + 1 { c } else { v.c[j - 1] };
        let got = if j <= m { x.c[j] } else { y.c[j - m - 1] };
        assert!(got == mc, "children keep their order across the split");
        j += 1;
    }
    assert!(left == (p < m), "the caller is told which side received the new child");
    assert!(r.height() == 0 && b.height() == 0);
    core::mem::forget(g);
}
#[kani::proof]
#[kani::unwind(19)]
fn inode_split() {
    let mut p = 0;
    while p <= IWD {
        split_at(p);
        p += 1;
    }
}
/// above the leaf level the moved children point to the right sibling
static mut KIDS: [I; IWD + 2] = unsafe { core::mem::zeroed() };
fn split_upper_at(p: usize) {
    let b = unsafe { &mut *(&raw mut A) };
    let r = unsafe { &mut *(&raw mut B) };
    let kids = unsafe { &*(&raw const KIDS) };
    let bp = b as *const I as *mut u8;
    let mut i = 0;
    while i < IWD {
        b.set_ikey(i, kani::any());
        i += 1;
    }
    i = 0;
    while i <= IWD {
        b.set_child(i, &kids[i] as *const I as *mut u8);
        i += 1;
    }
    i = 0;
    while i <= IWD + 1 {
        kids[i].set_parent(bp);
        i += 1;
    }
    b.set_nkeys(IWD as u8);
    *b.version_mut() = NodeVersion::new(false);
    let c = &kids[16] as *const I as *mut u8;
    let g = b.version().lock();
    *r.version_mut() = NodeVersion::new_for_split(b.version());
    let rp: *mut I = r;
    let _ = TreeInternode::split_into(b, r, rp, p, kani::any(), c);
    assert!(r.height() == 1, "siblings have the same height");
    i = 0;
    while i <= IWD + 1 {
        let merged = if i == 16 { p + 1 } else if i <= p { i } else { i + 1 };
        let right = merged > b.nkeys();
        // the new child of the left half is linked by the caller
        if i != 16 || right {
            assert!(kids[i].parent() == if right { rp as *mut u8 } else { bp }, "a moved child names the right sibling as its parent");
        }
        i += 1;
    }
    core::mem::forget(g);
}
#[kani::proof]
#[kani::unwind(19)]
fn inode_split_upper() {
    unsafe { core::ptr::write(&raw mut A, *I::new(1)) };
    let mut p = 0;
    while p <= IWD {
        split_upper_at(p);
        p += 1;
    }
}
