use masstree::leaf_trait::{TreeLeafNode, TreePermutation};
use masstree::{LeafNode24, LeafValue, Permuter24};
use witness::*;
type L = LeafNode24<LeafValue<u64>>;
const W: usize = 24;
fn same(p: &Permuter24, m: &[usize], n: usize, op: &str, before: &[usize]) {
    let v: Vec<usize> = (0..W).map(|i| p.get(i)).collect();
    ensure!(p.size() == n && v == m, "{op} on {before:?}: size {} {v:?} instead of {n} {m:?}", p.size());
}
fn main() {
    drive(&["M06"], |_, _, r| {
        let leaf: Box<L> = L::new();
        for _ in 0..60 {
            let mut n = r.us(W + 1);
            let mut p = Permuter24::make_sorted(n);
            let mut m: Vec<usize> = (0..W).map(|i| p.get(i)).collect();
            let mut s = m.clone();
            s.sort();
            ensure!(s == (0..W).collect::<Vec<_>>() && (0..n).all(|i| m[i] == i) && p.size() == n, "make_sorted({n}) = {m:?}");
            for _ in 0..200 {
                let b = m.clone();
                match r.below(9) {
                    0..=2 if n < W => {
                        let i = r.us(n + 1);
                        let (q, s2) = <Permuter24 as TreePermutation>::insert_from_back_immutable(&p, i);
                        let s = p.insert_from_back(i);
                        let x = m.remove(W - 1);
                        m.insert(i, x);
                        n += 1;
                        ensure!(s == x && s2 == x, "insert_from_back({i}) on {b:?} returned {s}/{s2} instead of {x}");
                        same(&p, &m, n, "insert_from_back", &b);
                        same(&q, &m, n, "insert_from_back_immutable", &b);
                    }
                    3 if n > 0 => { let i = r.us(n); p.remove_to_back(i); let x = m.remove(i); m.push(x); n -= 1; same(&p, &m, n, "remove_to_back", &b); }
                    4 if n > 0 => { let i = r.us(n); p.remove(i); let x = m.remove(i); n -= 1; m.insert(n, x); same(&p, &m, n, "remove", &b); }
                    5 if n < W => { let (i, j) = (n + r.us(W - n), n + r.us(W - n)); <Permuter24 as TreePermutation>::swap_free_slots(&mut p, i, j); m.swap(i, j); same(&p, &m, n, "swap_free_slots", &b); }
                    6 => { let (i, j) = (r.us(W), r.us(W)); p.exchange(i, j); m.swap(i, j); same(&p, &m, n, "exchange", &b); }
                    7 => { n = r.us(W + 1); p.set_size(n); same(&p, &m, n, "set_size", &b); }
                    8 if n < W => {
                        let o = r.us(W - n);
                        ensure!(p.back() == m[W - 1] && <Permuter24 as TreePermutation>::back_at_offset(&p, o) == m[W - 1 - o], "back_at_offset({o}) on {b:?}");
                    }
                    _ => {
                        leaf.set_permutation(p);
                        same(&leaf.permutation(), &m, n, "set_permutation", &b);
                        let _g = { let mut g = leaf.version().lock(); g.mark_split(); g };
                        let fg = TreeLeafNode::freeze_permutation(&*leaf);
                        same(&fg.snapshot(), &m, n, "freeze snapshot", &b);
                        ensure!(TreeLeafNode::is_permutation_frozen(&*leaf) && TreeLeafNode::permutation_try(&*leaf).is_err(), "a frozen permutation of {b:?} is not recognised");
                        if r.chance(1, 2) {
                            drop(fg);
                            same(&leaf.permutation(), &m, n, "rollback of a freeze", &b);
                        } else {
                            let k = r.us(W + 1);
                            let q = Permuter24::make_sorted(k);
                            TreeLeafNode::unfreeze_set_permutation(&*leaf, fg, q);
                            ensure!(leaf.permutation().value() == q.value(), "unfreeze_set_permutation on {b:?}");
                        }
                        ensure!(!TreeLeafNode::is_permutation_frozen(&*leaf), "still frozen: {b:?}");
                    }
                }
            }
        }
    });
}
