use masstree::nodeversion::NodeVersion;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};
use witness::*;
fn main() {
    drive(&["M08"], |_, n, r| {
        if n % 2 == 0 {
            for _ in 0..400 {
                let leaf = r.chance(1, 2);
                let v = NodeVersion::new(leaf);
                ensure!(v.is_leaf() == leaf, "is_leaf");
                let mut snap = v.stable();
                let (mut mi, mut ms, mut del) = (false, false, false);
                let mut log = String::new();
                for _ in 0..60 {
                    if r.chance(1, 4) { snap = v.stable(); mi = false; ms = false; log.clear(); }
                    let c = v.has_changed(snap);
                    ensure!(if log.is_empty() { !c } else { c || !(mi || ms || del) }, "has_changed = {c} after [{log}]");
                    ensure!(if log.is_empty() { !v.has_split(snap) } else { v.has_split(snap) || !(ms || del) }, "has_split = {} after [{log}]", v.has_split(snap));
                    ensure!(if log.is_empty() { !v.has_changed_or_locked(snap) } else { v.has_changed_or_locked(snap) || !(mi || ms || del) }, "has_changed_or_locked after [{log}]");
                    ensure!(!v.is_locked() && !v.is_dirty() && v.is_deleted() == del, "flags after [{log}]");
                    let mut g = match r.below(3) { 0 => v.lock(), 1 => v.lock_with_yield(), _ => v.try_lock().unwrap_or_else(|| found("try_lock fails on an unlocked node")) };
                    log.push_str("lock ");
                    ensure!(v.try_lock().is_none(), "a locked node was locked again after [{log}]");
                    ensure!(v.has_changed_or_locked(snap), "has_changed_or_locked misses the lock after [{log}]");
                    if r.chance(1, 2) { g.mark_insert(); mi = true; log.push_str("insert "); ensure!(v.is_dirty() && v.is_inserting() && v.has_changed_or_locked(snap), "mark_insert not visible after [{log}]"); }
                    if r.chance(1, 4) { g.mark_split(); ms = true; log.push_str("split "); ensure!(v.is_dirty() && v.is_splitting() && v.has_changed(snap), "mark_split not visible after [{log}]"); }
                    if r.chance(1, 40) { g.mark_deleted(); del = true; log.push_str("delete "); ensure!(v.is_deleted() && v.has_changed(snap), "mark_deleted not visible after [{log}]"); }
                    drop(g);
                    log.push_str("unlock, ");
                    if del { snap = v.stable(); ensure!(v.is_deleted(), "deleted mark lost after [{log}]"); break; }
                }
                let src = NodeVersion::new(leaf);
                let g = { let mut g = src.lock(); g.mark_split(); g };
                let s = NodeVersion::new_for_split(&src);
                ensure!(s.is_locked() && s.is_dirty() && s.is_splitting() && s.is_leaf() == leaf && s.try_lock().is_none(), "a split sibling is born locked");
                s.unlock_for_split();
                ensure!(!s.is_locked() && !s.is_dirty() && s.is_leaf() == leaf && s.try_lock().is_some(), "a split sibling is unlocked once");
                drop(g);
            }
        } else {
            // writers keep a == b inside their sections; readers validate
            let v = NodeVersion::new(true);
            let (a, b, inside) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
            let stop = AtomicBool::new(false);
            std::thread::scope(|s| {
                for t in 0..3u64 {
                    let (v, a, b, inside, stop) = (&v, &a, &b, &inside, &stop);
                    let mut r = Rng::new(r.next(), t);
                    s.spawn(move || while !stop.load(Relaxed) {
                        let mut g = match r.below(3) { 0 => v.lock(), 1 => v.lock_with_yield(), _ => match v.try_lock() { Some(g) => g, None => continue } };
                        ensure!(inside.fetch_add(1, SeqCst) == 0, "two threads hold the lock");
                        if r.chance(3, 4) {
                            let sp = r.chance(1, 3);
                            if sp { g.mark_split(); } else { g.mark_insert(); }
                            let x = a.load(Relaxed) + 1;
                            a.store(x, Relaxed);
                            for _ in 0..r.below(40) { std::hint::spin_loop(); }
                            b.store(x, Relaxed);
                        }
                        inside.fetch_sub(1, SeqCst);
                        drop(g);
                        tick();
                    });
                }
                for t in 10..12u64 {
                    let (v, a, b, stop) = (&v, &a, &b, &stop);
                    let mut r = Rng::new(r.next(), t);
                    s.spawn(move || while !stop.load(Relaxed) {
                        let o = v.stable();
                        let x = b.load(Acquire);
                        for _ in 0..r.below(40) { std::hint::spin_loop(); }
                        let y = a.load(Acquire);
                        std::sync::atomic::fence(Acquire);
                        let c = v.has_changed_or_locked(o);
                        if !c { ensure!(x == y, "an unchanged version, but the reader saw half of a modification ({x}, {y})"); }
                    });
                }
                let t0 = Instant::now();
                while t0.elapsed() < Duration::from_millis(600) { std::thread::sleep(Duration::from_millis(20)); }
                stop.store(true, SeqCst);
            });
            ensure!(a.load(SeqCst) == b.load(SeqCst) && !v.is_locked() && !v.is_dirty(), "final state");
        }
    });
}
