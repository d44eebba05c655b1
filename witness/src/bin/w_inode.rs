use masstree::internode::InternodeNode;
use masstree::ksearch::*;
use masstree::leaf_trait::TreeInternode;
use masstree::LeafValue;
use witness::*;
type S = LeafValue<u64>;
type I = InternodeNode<S, 15>;
const W: usize = 15;
fn p(x: usize) -> *mut u8 { x as *mut u8 }
fn check(n: &I, k: &[u64], c: &[usize], op: &str) {
    let gk: Vec<u64> = (0..n.nkeys()).map(|i| n.ikey(i)).collect();
    let gc: Vec<usize> = (0..=n.nkeys()).map(|i| n.child(i) as usize).collect();
    ensure!(gk == k && gc == c, "{op}: keys {gk:?} children {gc:?} instead of {k:?} {c:?}");
}
fn route(n: &I, k: &[u64], r: &mut Rng, dense: bool) {
    for _ in 0..6 {
        let x = if dense { r.below(40) } else if k.is_empty() || r.chance(1, 3) { r.next() } else { r.pick(k).wrapping_add(r.below(3)).wrapping_sub(1) };
        let want = k.iter().filter(|&&s| s <= x).count();
        let (a, b, c) = (upper_bound_internode::<S, W>(x, n), upper_bound_internode_direct::<S, W>(x, n), upper_bound_internode_generic::<S, I>(x, n));
        ensure!(a == want && b == want && c == want, "search {x} in {k:?}: child {a}/{b}/{c} instead of {want}");
        let f = k.iter().filter(|&&s| s < x).count();
        if !k.contains(&x) { let g = n.find_insert_position(x); ensure!(g == f, "find_insert_position({x}) in {k:?}: {g} instead of {f}"); }
    }
}
fn main() {
    drive(&["M07", "M04"], |_, _, r| {
        for _ in 0..400 {
            let dense = r.chance(1, 2);
            let h = r.below(2) as u32;
            // children of an upper node are real nodes, so that re-parenting is visible
            let mut pool: Vec<Box<I>> = Vec::new();
            let mut next = 0x1000usize;
            let mut child = |pool: &mut Vec<Box<I>>| -> usize {
                if h == 0 { next += 0x40; next } else { pool.push(I::new(0)); &**pool.last().unwrap() as *const I as usize }
            };
            let n = I::new(h);
            let mut k: Vec<u64> = vec![];
            let mut c = vec![child(&mut pool)];
            n.set_child(0, p(c[0]));
            while k.len() < W {
                let x = if dense { r.below(40) } else { match r.below(4) { 0 => r.next(), 1 => r.next() >> 60, 2 => u64::MAX - r.below(50), _ => r.below(50) << 56 } };
                if k.contains(&x) { continue; }
                let pos = k.iter().filter(|&&s| s < x).count();
                ensure!(n.find_insert_position(x) == pos, "find_insert_position({x}) in {k:?}");
                let ch = child(&mut pool);
                n.insert_key_and_child(pos, x, p(ch));
                k.insert(pos, x);
                c.insert(pos + 1, ch);
                check(&n, &k, &c, "insert_key_and_child");
                route(&n, &k, r, dense);
            }
            let n_ptr = &*n as *const I as *mut u8;
            for &ch in &c { if h > 0 { unsafe { (*(ch as *const I)).set_parent(n_ptr) } } }
            let x = loop { let x = if dense { r.below(40) } else { r.next() }; if !k.contains(&x) { break x; } };
            let pos = k.iter().filter(|&&s| s < x).count();
            let ch = child(&mut pool);
            if h > 0 { unsafe { (*(ch as *const I)).set_parent(n_ptr) } }
            let _g = { let mut g = n.version().lock(); g.mark_split(); g };
            let right: &mut I = Box::leak(<I as TreeInternode<S>>::new_boxed_for_split(n.version(), h));
            let rp: *mut I = right;
            let (pop, left) = n.split_into(unsafe { &mut *rp }, rp, pos, x, p(ch));
            let right = unsafe { &*rp };
            let (ok, oc) = (k.clone(), c.clone());
            k.insert(pos, x);
            c.insert(pos + 1, ch);
            let (nl, nr) = (n.nkeys(), right.nkeys());
            ensure!(nl + nr + 1 == k.len() && nl > 0 && nr > 0, "split of {ok:?} {oc:?} with {x} at {pos}: {nl}+{nr} keys");
            ensure!(pop == k[nl], "split of {ok:?} with {x} at {pos}: moved {pop} up instead of {}", k[nl]);
            check(&n, &k[..nl], &c[..=nl], "left half of a split");
            check(right, &k[nl + 1..], &c[nl + 1..], "right half of a split");
            if pos != nl && h > 0 { ensure!(left == (pos < nl), "split of {ok:?} with {x} at {pos}: the inserted key is reported in the wrong half"); }
            if h > 0 {
                for (i, &q) in c.iter().enumerate() {
                    let par = unsafe { (*(q as *const I)).parent() };
                    let want = if i <= nl { n_ptr } else { rp as *mut u8 };
                    // the inserted child's parent is set by the caller
                    if q != ch { ensure!(par == want, "split of {ok:?} with {x} at {pos}: child {i} has the wrong parent"); }
                }
            }
            drop(unsafe { Box::from_raw(rp) });
        }
    });
}
