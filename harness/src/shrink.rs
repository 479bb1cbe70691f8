//! Generic minimisation of a failing case.  `fails` must say whether a candidate still
//! breaks the same property.
use crate::case::Case;
use std::time::{Duration, Instant};

pub struct Budget {
    pub evals: usize,
    pub until: Instant,
}

impl Budget {
    pub fn new(evals: usize, secs: u64) -> Budget {
        Budget {
            evals,
            until: Instant::now() + Duration::from_secs(secs),
        }
    }
    fn spend(&mut self) -> bool {
        if self.evals == 0 || Instant::now() > self.until {
            return false;
        }
        self.evals -= 1;
        true
    }
}

fn keep<T: Clone>(v: &[T], lo: usize, hi: usize) -> Vec<T> {
    let mut r = v[..lo].to_vec();
    r.extend_from_slice(&v[hi..]);
    r
}

fn drop_items(c: &Case, what: usize, lo: usize, hi: usize) -> Case {
    let mut n = c.clone();
    match what {
        0 => {
            let len = c.tris.len();
            n.tris = keep(&c.tris, lo, hi);
            if c.boxes.len() == len {
                n.boxes = keep(&c.boxes, lo, hi);
            }
            for (f, o) in n.frames.iter_mut().zip(c.frames.iter()) {
                if o.len() == len {
                    *f = keep(o, lo, hi);
                }
            }
        }
        1 => {
            let len = c.prims.len();
            n.prims = keep(&c.prims, lo, hi);
            if c.boxes.len() == len && c.tris.is_empty() {
                n.boxes = keep(&c.boxes, lo, hi);
            }
        }
        2 => {
            let g = c.group.max(1);
            n.rays = keep(&c.rays, lo * g, (hi * g).min(c.rays.len()));
        }
        3 => n.ops = keep(&c.ops, lo, hi),
        _ => n.frames = keep(&c.frames, lo, hi),
    }
    n
}

fn count(c: &Case, what: usize) -> usize {
    match what {
        0 => c.tris.len(),
        1 => c.prims.len(),
        2 => c.rays.len() / c.group.max(1),
        3 => c.ops.len(),
        _ => c.frames.len(),
    }
}

pub fn shrink(start: &Case, budget: &mut Budget, fails: &mut dyn FnMut(&Case) -> bool) -> Case {
    let mut best = start.clone();
    loop {
        let mut progress = false;
        for what in [2, 3, 0, 1, 4] {
            let mut size = count(&best, what).div_ceil(2);
            while size >= 1 {
                let mut i = 0;
                while i < count(&best, what) {
                    let hi = (i + size).min(count(&best, what));
                    if !budget.spend() {
                        return best;
                    }
                    let cand = drop_items(&best, what, i, hi);
                    if fails(&cand) {
                        best = cand;
                        progress = true;
                    } else {
                        i = hi;
                    }
                }
                if size == 1 {
                    break;
                }
                size = size.div_ceil(2);
            }
        }
        // Smaller parameters
        for k in 0..best.u.len() {
            for v in [0, 1, best.u[k] / 2, best.u[k] - 1] {
                if v.unsigned_abs() >= best.u[k].unsigned_abs() || v < 0 {
                    continue;
                }
                if !budget.spend() {
                    return best;
                }
                let mut cand = best.clone();
                cand.u[k] = v;
                if fails(&cand) {
                    best = cand;
                    progress = true;
                    break;
                }
            }
        }
        // Rounder numbers
        for digits in [0, 2] {
            let p = 10f32.powi(digits);
            let round = |x: &mut f32| {
                if x.is_finite() && x.abs() < 1e6 {
                    let r = (*x * p).round() / p;
                    if *x != 0.0 {
                        *x = r;
                    }
                }
            };
            for part in 0..4 {
                let n = match part {
                    0 => best.tris.len(),
                    1 => best.prims.len(),
                    2 => best.rays.len(),
                    _ => best.f.len(),
                };
                for i in 0..n.min(40) {
                    let mut cand = best.clone();
                    match part {
                        0 => {
                            cand.tris[i].iter_mut().for_each(round);
                            if cand.boxes.len() == cand.tris.len() {
                                continue;
                            }
                        }
                        1 => cand.prims[i].iter_mut().for_each(round),
                        2 => cand.rays[i].iter_mut().for_each(round),
                        _ => round(&mut cand.f[i]),
                    }
                    if cand == best {
                        continue;
                    }
                    if !budget.spend() {
                        return best;
                    }
                    if fails(&cand) {
                        best = cand;
                        progress = true;
                    }
                }
            }
        }
        if !progress {
            return best;
        }
    }
}
