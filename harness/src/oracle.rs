//! Reference geometry in f64, independent of the library.  A verdict is only used where it
//! is robust: clear of every decision boundary by far more than f32 rounding can move it.
use crate::util::Box6;

pub type V = [f64; 3];

pub fn v(a: f32, b: f32, c: f32) -> V {
    [a as f64, b as f64, c as f64]
}
pub fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn add(a: V, b: V) -> V {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn mul(a: V, s: f64) -> V {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: V, b: V) -> V {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
pub fn len(a: V) -> f64 {
    dot(a, a).sqrt()
}

pub fn verts(t: &[f32; 9]) -> [V; 3] {
    [v(t[0], t[1], t[2]), v(t[3], t[4], t[5]), v(t[6], t[7], t[8])]
}
pub fn orig(r: &[f32; 8]) -> V {
    v(r[0], r[1], r[2])
}
pub fn dirn(r: &[f32; 8]) -> V {
    v(r[3], r[4], r[5])
}
fn maxabs(xs: &[V]) -> f64 {
    xs.iter()
        .flat_map(|x| x.iter())
        .fold(0.0, |m, x| f64::max(m, x.abs()))
}

/// Parameter of the crossing if the ray's line clearly passes through the triangle's
/// interior, clear of the origin (negative behind it).
pub fn robust_hit(t: &[f32; 9], r: &[f32; 8]) -> Option<f64> {
    let p = verts(t);
    let (o, d) = (orig(r), dirn(r));
    let n = cross(sub(p[1], p[0]), sub(p[2], p[0]));
    let nl = len(n);
    let dl = len(d);
    if !(nl > 0.0) || !(dl > 0.0) || !nl.is_finite() || !dl.is_finite() {
        return None;
    }
    let dn = dot(d, n);
    if dn.abs() < 1e-3 * nl * dl {
        return None;
    }
    let tt = dot(sub(p[0], o), n) / dn;
    if tt == 0.0 || !tt.is_finite() {
        return None;
    }
    let x = add(o, mul(d, tt));
    let dist = tt.abs() * dl;
    let m = 2e-5 * dist + 2e-6 * maxabs(&[p[0], p[1], p[2], o]) + 1e-20;
    if dist < 2.0 * m.min(1e-3) {
        return None;
    }
    for i in 0..3 {
        let e = sub(p[(i + 1) % 3], p[i]);
        let h = dot(cross(e, sub(x, p[i])), n) / (nl * len(e));
        if !(h >= m) {
            return None;
        }
    }
    // Along each axis the crossing is clearly within the triangle's extent, except along at
    // most one axis which the ray travels quickly (a flat triangle).
    let mut thin = 0;
    for a in 0..3 {
        let lo = p[0][a].min(p[1][a]).min(p[2][a]);
        let hi = p[0][a].max(p[1][a]).max(p[2][a]);
        let gap = (x[a] - lo).min(hi - x[a]);
        if gap < 0.5 * m {
            if d[a].abs() < 0.05 * dl {
                return None;
            }
            thin += 1;
        }
    }
    if thin > 1 {
        return None;
    }
    Some(tt)
}

/// Crossing parameter, boundary included (used as the caller's exact hit test).
pub fn plain_hit(t: &[f32; 9], r: &[f32; 8]) -> Option<f64> {
    let p = verts(t);
    let (o, d) = (orig(r), dirn(r));
    let n = cross(sub(p[1], p[0]), sub(p[2], p[0]));
    let dn = dot(d, n);
    if dn == 0.0 || !dn.is_finite() {
        return None;
    }
    let tt = dot(sub(p[0], o), n) / dn;
    let x = add(o, mul(d, tt));
    for i in 0..3 {
        let e = sub(p[(i + 1) % 3], p[i]);
        if dot(cross(e, sub(x, p[i])), n) < 0.0 {
            return None;
        }
    }
    Some(tt)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BoxRay {
    /// Clearly passes through: entry and exit parameters
    Hit(f64, f64),
    /// The line clearly misses the box
    Miss,
    Unclear,
}

/// The line of the ray against a box, ignoring distances.
pub fn box_line(b: &Box6, r: &[f32; 8]) -> BoxRay {
    box_line_m(b, r, 2e-5)
}

pub fn box_line_m(b: &Box6, r: &[f32; 8], rel: f64) -> BoxRay {
    let (o, d) = (orig(r), dirn(r));
    if !b.iter().all(|x| x.is_finite()) || !r[..6].iter().all(|x| x.is_finite()) {
        return BoxRay::Unclear;
    }
    let dl = len(d);
    if dl == 0.0 {
        return BoxRay::Unclear;
    }
    for a in 0..3 {
        if d[a] == 0.0 && (o[a] == b[a] as f64 || o[a] == b[a + 3] as f64) {
            // 0 * infinity: a ray within the plane of a face of the box
            return BoxRay::Unclear;
        }
    }
    // true interval, and the interval of a box grown by the margin
    let (mut lo, mut hi) = (f64::NEG_INFINITY, f64::INFINITY);
    let (mut glo, mut ghi) = (f64::NEG_INFINITY, f64::INFINITY);
    let mut thin_fast = 0;
    let mut shaky = false;
    let mut flat: Option<f64> = None;
    for a in 0..3 {
        let (bl, bh) = (b[a] as f64, b[a + 3] as f64);
        if bl > bh {
            return BoxRay::Unclear;
        }
        let m = rel * (bl - o[a]).abs().max((bh - o[a]).abs()) + 1e-30;
        if d[a] == 0.0 {
            if o[a] < bl - m || o[a] > bh + m {
                return BoxRay::Miss;
            }
            if o[a] < bl + m || o[a] > bh - m {
                shaky = true;
            }
            continue;
        }
        let (t0, t1) = ((bl - o[a]) / d[a], (bh - o[a]) / d[a]);
        let (t0, t1) = if t0 <= t1 { (t0, t1) } else { (t1, t0) };
        lo = lo.max(t0);
        hi = hi.min(t1);
        let s = rel * t0.abs().max(t1.abs());
        glo = glo.max(t0 - s);
        ghi = ghi.min(t1 + s);
        if bl == bh {
            thin_fast += 1;
            flat = Some(t0);
        }
    }
    if glo > ghi {
        return BoxRay::Miss;
    }
    if shaky || thin_fast > 1 {
        return BoxRay::Unclear;
    }
    // Clear hit: the true interval is longer than rounding, or (flat box) the crossing point
    // is clearly inside the other two slabs.
    let scale = lo.abs().max(hi.abs());
    if let Some(tf) = flat {
        for a in 0..3 {
            let (bl, bh) = (b[a] as f64, b[a + 3] as f64);
            if bl == bh || d[a] == 0.0 {
                if bl == bh && d[a] == 0.0 {
                    return BoxRay::Unclear;
                }
                continue;
            }
            let x = o[a] + tf * d[a];
            let m = rel * ((x - o[a]).abs() + (bl - o[a]).abs().max((bh - o[a]).abs())) + 1e-30;
            if x < bl + m || x > bh - m {
                return BoxRay::Unclear;
            }
        }
        return BoxRay::Hit(tf, tf);
    }
    if hi - lo > 4.0 * rel * scale {
        BoxRay::Hit(lo, hi)
    } else {
        BoxRay::Unclear
    }
}
