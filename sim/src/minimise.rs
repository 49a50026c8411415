//! Shrinks a failing tape while the same class of violation persists.
use crate::props::Prop;
use rt::{run, shm};
use std::time::{Duration, Instant};

pub fn minimise(p: &Prop, tape: &[u32], accept: &dyn Fn(&str, &str) -> bool) -> Vec<u32> {
    let start = Instant::now();
    let mut left = 4000;
    let mut best = tape.to_vec();
    let mut spans: Vec<(u32, u32)>;
    let mut attempt = |t: &[u32]| -> bool {
        if left == 0 || start.elapsed() > Duration::from_secs(90) {
            return false;
        }
        left -= 1;
        let o = run::exec(&run::Input::Tape(t.to_vec()), p.limit, p.run);
        o.violation.is_some_and(|(c, m)| accept(&c, &m))
    };
    if !attempt(&best) {
        return best;
    }
    // What was actually drawn.
    best.truncate(shm::shm().tape_len as usize);
    for _round in 0..6 {
        let before = best.clone();
        // Cut the end.
        let mut lo = 0;
        let mut hi = best.len();
        while lo < hi {
            let mid = (lo + hi) / 2;
            if attempt(&best[..mid]) {
                hi = mid;
            } else {
                lo = mid + 1;
            }
        }
        if attempt(&best[..hi.min(best.len())]) {
            best.truncate(hi);
        }
        // Delete whole operations, faults and items, big ones first.
        attempt(&best);
        spans = shm::shm().spans();
        spans.sort_by_key(|(a, b)| (std::cmp::Reverse(b - a), std::cmp::Reverse(*a)));
        let mut k = 0;
        while k < spans.len() && k < 600 {
            let (a, b) = (spans[k].0 as usize, spans[k].1 as usize);
            k += 1;
            if a >= b || b > best.len() {
                continue;
            }
            let mut t = best.clone();
            t.drain(a..b);
            if attempt(&t) {
                best = t;
                spans = shm::shm().spans();
                spans.sort_by_key(|(a, b)| (std::cmp::Reverse(b - a), std::cmp::Reverse(*a)));
                k = 0;
            }
        }
        // Delete and zero chunks.
        let mut n = (best.len() / 2).max(1);
        while n > 0 {
            let mut i = 0;
            while i < best.len() {
                let e = (i + n).min(best.len());
                let mut t = best.clone();
                t.drain(i..e);
                if attempt(&t) {
                    best = t;
                    continue;
                }
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    t[i..e].fill(0);
                    if attempt(&t) {
                        best = t;
                    }
                }
                i = e;
            }
            n /= 2;
        }
        // Lower single choices.
        for i in 0..best.len() {
            let v = best[i];
            for c in [1, v / 2, v.saturating_sub(1)] {
                if c < best[i] {
                    let mut t = best.clone();
                    t[i] = c;
                    if attempt(&t) {
                        best = t;
                    }
                }
            }
        }
        while best.last() == Some(&0) {
            best.pop();
        }
        if best == before {
            break;
        }
    }
    best
}
