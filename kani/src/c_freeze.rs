//! Contracts of freezing a leaf's permutation, on the real `LeafNode24`.
use crate::c_perm::any_valid;
use masstree::freeze24::Freeze24Utils;
use masstree::leaf24::LeafNode24;
use masstree::leaf_trait::*;
use masstree::nodeversion::NodeVersion;
use masstree::permuter24::Permuter24;
use masstree::value::LeafValueIndex;

type L = LeafNode24<LeafValueIndex<u64>>;
static mut A: L = unsafe { core::mem::zeroed() };

fn leaf(w: Permuter24) -> &'static L {
    let l = unsafe { &mut *(&raw mut A) };
    *l.version_mut() = NodeVersion::new(true);
    TreeLeafNode::set_permutation(l, w);
    l
}
fn reads(l: &L, w: Permuter24, what: &'static str) {
    let _ = what;
    assert!(TreeLeafNode::permutation_raw(l) == w.value(), "the published word is the expected one");
    match TreeLeafNode::permutation_try(l) {
        Ok(p) => assert!(p.value() == w.value(), "an unfrozen permutation is readable"),
        Err(()) => assert!(false, "an unfrozen permutation is readable"),
    }
    assert!(TreeLeafNode::permutation_wait(l).value() == w.value(), "waiting on an unfrozen permutation returns it");
}
fn frozen(l: &L, w: Permuter24) {
    let raw = TreeLeafNode::permutation_raw(l);
    assert!(TreeLeafNode::permutation_try(l).is_err(), "a frozen permutation is refused to readers");
    assert!(TreeLeafNode::is_perm_frozen(l) && TreeLeafNode::is_permutation_frozen(l));
    assert!(Freeze24Utils::is_frozen(raw) && <Permuter24 as TreePermutation>::is_frozen_raw(raw));
    assert!((raw ^ w.value()) & ((1u128 << 120) - 1) == 0, "freezing touches only the mark");
    // nobody publishes over a frozen word by expecting the old one
    let n = Permuter24::from_value(kani::any());
    match TreeLeafNode::cas_permutation_raw(l, w, n) {
        Ok(()) => assert!(false, "a frozen permutation cannot be exchanged"),
        Err(e) => {
            assert!(TreeLeafNode::permutation_raw(l) == raw, "a failed exchange changes nothing");
            assert!(e.is_frozen() && e.current().value() == raw, "a failed exchange reports the frozen word");
        }
    }
}
/// freeze, then give up: the word before is back
#[kani::proof]
#[kani::unwind(26)]
fn freeze_restore() {
    let w = any_valid();
    let l = leaf(w);
    reads(l, w, "before");
    let mut g = l.version().lock();
    g.mark_split();
    let f = TreeLeafNode::freeze_permutation(l);
    assert!(FreezeGuardOps::snapshot(&f).value() == w.value() && FreezeGuardOps::snapshot_raw(&f) == w.value(), "the snapshot is the permutation before");
    frozen(l, w);
    drop(f);
    reads(l, w, "given up");
    drop(g);
}
/// freeze, then publish: exactly the new word
#[kani::proof]
#[kani::unwind(26)]
fn freeze_publish() {
    let w = any_valid();
    let l = leaf(w);
    let mut g = l.version().lock();
    g.mark_split();
    let f = TreeLeafNode::freeze_permutation(l);
    frozen(l, w);
    let n = any_valid();
    TreeLeafNode::unfreeze_set_permutation(l, f, n);
    reads(l, n, "published");
    assert!(l.version().is_locked() && l.version().is_splitting(), "publishing leaves the lock to its holder");
    drop(g);
    // exchange: from the current word only
    let (e, m) = (any_valid(), any_valid());
    match TreeLeafNode::cas_permutation_raw(l, e, m) {
        Ok(()) => {
            assert!(e.value() == n.value(), "an exchange succeeds from the expected word only");
            reads(l, m, "exchanged");
        }
        Err(x) => {
            assert!(!x.is_frozen() && x.current().value() == n.value(), "a failed exchange reports the current word");
            assert!(e.value() != n.value(), "an exchange from the current word succeeds");
            reads(l, n, "kept");
        }
    }
    kani::cover!(e.value() == n.value());
}
/// the word utilities: freezing is undone exactly
#[kani::proof]
#[kani::unwind(26)]
fn freeze_words() {
    let w = any_valid().value();
    assert!(!Freeze24Utils::is_frozen(w));
    let s = Freeze24Utils::get_slot23(w);
    let f = Freeze24Utils::freeze_raw(w);
    assert!(Freeze24Utils::is_frozen(f));
    assert!(Freeze24Utils::unfreeze_raw(f, s) == w, "unfreezing restores the word");
}
