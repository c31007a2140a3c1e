//! Stateless exhaustive exploration over choice points (the executions of a
//! body that asks for choices are enumerated completely, optionally bounded by
//! the number of deviations from the default choice), plus a parallel map.
use crate::report::{shield, Report};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};

pub struct Ch<'a> {
    prefix: &'a [u16],
    pub taken: Vec<(u16, u16, bool)>,
    pub dev: usize,
    /// groups of choices that are explored; the others keep their default
    pub mask: u32,
    /// choices asked for later than this keep their default
    pub limit: usize,
    /// the operations to choose from, when not all
    pub ops: &'static [usize],
}

impl<'a> Ch<'a> {
    /// fixed choices: those of the script, then the defaults
    pub fn script(prefix: &'a [u16]) -> Ch<'a> {
        Ch { prefix, taken: Vec::new(), dev: 0, mask: 0, limit: usize::MAX, ops: &[] }
    }
    /// a deviating choice that belongs to a group
    pub fn dev_in(&mut self, group: u32, n: usize) -> usize {
        if self.mask & group == 0 { 0 } else { self.take(n, true) }
    }
    /// a free choice: every alternative is explored
    pub fn choose(&mut self, n: usize) -> usize {
        self.take(n, false)
    }
    /// a choice whose non-default alternatives count as one deviation
    pub fn deviate(&mut self, n: usize) -> usize {
        self.take(n, true)
    }
    fn take(&mut self, n: usize, cost: bool) -> usize {
        assert!(n > 0 && n < 65000);
        let i = self.taken.len();
        if i >= self.limit {
            return 0;
        }
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        assert!((c as usize) < n, "replayed prefix diverged: choice {c} of {n} at {i}");
        if cost && c != 0 {
            self.dev += 1;
        }
        self.taken.push((c, n as u16, cost));
        c as usize
    }
    pub fn path(&self) -> Vec<u16> {
        self.taken.iter().map(|t| t.0).collect()
    }
}

struct Q {
    stack: Vec<Vec<u16>>,
    active: usize,
}

/// enumerates every execution of `body` with at most `bound` deviations
pub fn explore(rep: &Report, bound: usize, body: impl Fn(&mut Ch) + Sync) -> u64 {
    let q = Mutex::new(Q { stack: vec![vec![]], active: 0 });
    let cv = Condvar::new();
    let n = std::sync::atomic::AtomicU64::new(0);
    let threads = threads();
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    let mut local: Vec<Vec<u16>> = Vec::new();
                    loop {
                        let prefix = match local.pop() {
                            Some(p) => p,
                            None => {
                                let mut g = q.lock().unwrap();
                                loop {
                                    if let Some(p) = g.stack.pop() {
                                        g.active += 1;
                                        break p;
                                    }
                                    if g.active == 0 {
                                        cv.notify_all();
                                        return;
                                    }
                                    g = cv.wait(g).unwrap();
                                }
                            }
                        };
                        let mut ch = Ch { prefix: &prefix, taken: Vec::new(), dev: 0, mask: !0, limit: usize::MAX, ops: &[] };
                        if !rep.stop() {
                            shield(|| body(&mut ch));
                            n.fetch_add(1, Ordering::Relaxed);
                            let known = prefix.len().min(ch.taken.len());
                            // alternatives beyond the prefix
                            let mut cost = ch.taken[..known].iter().filter(|t| t.2 && t.0 != 0).count();
                            for i in known..ch.taken.len() {
                                let (c, k, is_dev) = ch.taken[i];
                                debug_assert_eq!(c, 0);
                                if !is_dev || cost < bound {
                                    for alt in (1..k).rev() {
                                        let mut p: Vec<u16> = ch.taken[..i].iter().map(|t| t.0).collect();
                                        p.push(alt);
                                        local.push(p);
                                    }
                                }
                                if is_dev && c != 0 {
                                    cost += 1;
                                }
                            }
                        }
                        if local.is_empty() || local.len() > 8 {
                            let mut g = q.lock().unwrap();
                            if local.is_empty() {
                                g.active -= 1;
                                cv.notify_all();
                            } else if g.stack.len() < threads * 4 {
                                // share the shallow half
                                let keep = local.len() / 2;
                                let share: Vec<_> = local.drain(..keep).collect();
                                g.stack.extend(share);
                                cv.notify_all();
                            }
                        }
                    }
                })
                .unwrap();
        }
    });
    n.into_inner()
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
}

/// runs `f` on every index 0..n on all cores
pub fn par_for(n: usize, f: impl Fn(usize) + Sync) {
    par_stack(n, 64, f)
}
/// the same, on threads with a stack of so many megabytes; 2 is what a thread usually has
pub fn par_stack(n: usize, mb: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads() {
            std::thread::Builder::new()
                .stack_size(mb << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    shield(|| f(i))
                })
                .unwrap();
        }
    });
}
