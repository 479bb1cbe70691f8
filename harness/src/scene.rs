//! Scenes and queries.
use crate::gen::G;
use crate::case::Case;
use crate::util::{tri_box, union6, Box6, BINNED, EMPTY6, SPATIAL};

pub const FAMILIES: usize = 18;

/// Number of primitives: mostly small, sometimes beyond the 1024-primitive task threshold.
pub fn size(g: &mut G) -> usize {
    if g.chance(HUGE) {
        return huge(g);
    }
    match g.weighted(&[30, 40, 25, 5]) {
        0 => g.int(1, 8) as usize,
        1 => g.int(8, 64) as usize,
        2 => g.int(64, 400) as usize,
        _ => g.int(1000, 4000) as usize,
    }
}

/// Rare scenes of a size at which 16-bit counters, fixed tables or task limits show.
pub const HUGE: f32 = 0.0004;

pub fn huge(g: &mut G) -> usize {
    match g.weighted(&[30, 30, 25, 15]) {
        0 => g.int(5_000, 20_000) as usize,
        1 => g.int(20_000, 66_000) as usize,
        2 => g.int(65_530, 90_000) as usize,
        _ => g.int(100_000, 170_000) as usize,
    }
}

pub fn small_size(g: &mut G) -> usize {
    if g.chance(0.5 * HUGE) {
        return huge(g);
    }
    match g.weighted(&[35, 45, 20]) {
        0 => g.int(1, 8) as usize,
        1 => g.int(8, 64) as usize,
        _ => g.int(64, 300) as usize,
    }
}

fn tri(a: [f32; 3], b: [f32; 3], c: [f32; 3]) -> [f32; 9] {
    [a[0], a[1], a[2], b[0], b[1], b[2], c[0], c[1], c[2]]
}

fn perm(v: [f32; 3], k: usize) -> [f32; 3] {
    [v[k % 3], v[(k + 1) % 3], v[(k + 2) % 3]]
}

fn rv(g: &mut G, a: f32) -> [f32; 3] {
    [g.sym(a), g.sym(a), g.sym(a)]
}

fn addv(a: [f32; 3], b: [f32; 3]) -> [f32; 3] {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}

fn small_tri(g: &mut G, c: [f32; 3], s: f32) -> [f32; 9] {
    let (a, b, d) = (rv(g, s), rv(g, s), rv(g, s));
    tri(addv(c, a), addv(c, b), addv(c, d))
}

/// Triangles of one family, roughly `n` of them, in coordinates of a few units.
pub fn family(g: &mut G, fam: usize, n: usize) -> Vec<[f32; 9]> {
    let mut v: Vec<[f32; 9]> = Vec::with_capacity(n + 12);
    // Clustering takes quadratic time on coinciding centres: those families stay small
    let n = if n > 5000 && matches!(fam, 4 | 5 | 6 | 10 | 11 | 13 | 16) { 5000 } else { n };
    match fam {
        0 => {
            let s = g.logu(0.005, 0.6);
            for _ in 0..n {
                let c = rv(g, 1.0);
                v.push(small_tri(g, c, s));
            }
        }
        1 | 2 => {
            // Grid in an axis-aligned plane, flat or a height field
            let w = ((n as f32 / 2.0).sqrt().ceil() as usize).max(1);
            let k = g.below(3);
            let h0 = g.int(-2, 2) as f32;
            let hs: Vec<f32> = (0..(w + 1) * (w + 1))
                .map(|_| if fam == 1 { h0 } else { h0 + g.sym(0.7) })
                .collect();
            let step = if g.chance(0.5) { 1.0 } else { 1.0 / 8.0 };
            'o: for i in 0..w {
                for j in 0..w {
                    let p = |a: usize, b: usize| {
                        perm(
                            [a as f32 * step, b as f32 * step, hs[a * (w + 1) + b] * step.max(0.25)],
                            k,
                        )
                    };
                    v.push(tri(p(i, j), p(i + 1, j), p(i + 1, j + 1)));
                    v.push(tri(p(i, j), p(i + 1, j + 1), p(i, j + 1)));
                    if v.len() >= n {
                        break 'o;
                    }
                }
            }
            if v.is_empty() {
                v.push(tri([0.0; 3], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]));
            }
        }
        3 => {
            while v.len() < n {
                let c = [g.int(-4, 4) as f32, g.int(-4, 4) as f32, g.int(-4, 4) as f32];
                let s = if g.chance(0.7) { 1.0 } else { g.range(0.2, 2.0) };
                for ax in 0..3 {
                    for side in 0..2 {
                        let q = |a: f32, b: f32| addv(c, perm([side as f32 * s, a * s, b * s], 3 - ax));
                        v.push(tri(q(0.0, 0.0), q(1.0, 0.0), q(1.0, 1.0)));
                        v.push(tri(q(0.0, 0.0), q(1.0, 1.0), q(0.0, 1.0)));
                    }
                }
            }
            v.truncate(n.max(1));
        }
        4 => {
            let k = g.int(1, 6) as usize;
            let cs: Vec<[f32; 3]> = (0..k).map(|_| rv(g, 10.0)).collect();
            let spread = g.logu(0.001, 0.5);
            for _ in 0..n {
                let c = cs[g.below(k)];
                let off = rv(g, spread);
                let s = spread * g.range(0.1, 1.0);
                v.push(small_tri(g, addv(c, off), s));
            }
        }
        5 => {
            // Sizes and positions growing geometrically: long, unbalanced trees
            let r = g.range(1.05, 1.6);
            let k = g.below(3);
            let mut x = 0.01f32;
            for _ in 0..n {
                let s = x * g.range(0.05, 0.3);
                let c = perm([x, g.sym(s), g.sym(s)], k);
                v.push(small_tri(g, c, s));
                x *= r;
                if x > 20.0 {
                    x = 0.01 * g.range(1.0, 2.0);
                }
            }
        }
        6 => {
            for i in 0..n {
                let s = (i + 1) as f32 / n as f32;
                let k = g.below(3);
                let z = if g.chance(0.5) { 0.0 } else { g.sym(0.2) };
                v.push(tri(
                    perm([-s, -s, z], k),
                    perm([s, -s, z], k),
                    perm([0.0, 2.0 * s, z], k),
                ));
            }
        }
        7 => {
            let n = n.min(600);
            let k = g.int(1, 4) as usize;
            let base: Vec<[f32; 9]> = (0..k)
                .map(|_| {
                    let c = rv(g, 1.0);
                    small_tri(g, c, 0.5)
                })
                .collect();
            for _ in 0..n {
                v.push(base[g.below(k)]);
            }
        }
        8 => {
            for _ in 0..n {
                let a = rv(g, 2.0);
                let b = if g.chance(0.5) {
                    let l = g.range(0.5, 4.0);
                    perm([l, g.sym(0.02), g.sym(0.02)], g.below(3))
                } else {
                    rv(g, 3.0)
                };
                let w = g.logu(0.002, 0.3);
                let e = rv(g, w);
                v.push(tri(a, addv(a, b), addv(addv(a, b), e)));
            }
        }
        9 => {
            for _ in 0..n {
                let c = rv(g, 1.0);
                v.push(match g.below(5) {
                    0 => tri(c, c, c),
                    1 => {
                        let d = rv(g, 1.0);
                        tri(c, addv(c, d), addv(c, [d[0] * 0.5, d[1] * 0.5, d[2] * 0.5]))
                    }
                    2 => {
                        let d = rv(g, 1.0);
                        tri(c, addv(c, d), addv(c, d))
                    }
                    _ => small_tri(g, c, 0.4),
                });
            }
        }
        10 => {
            let big = g.int(1, 3) as usize;
            for i in 0..n {
                let c = rv(g, 1.0);
                if i < big {
                    v.push(small_tri(g, c, 12.0));
                } else {
                    v.push(small_tri(g, c, 0.1));
                }
            }
        }
        11 => {
            // Coplanar, centres on a line
            let k = g.below(3);
            let z = if g.chance(0.5) { 0.0 } else { g.sym(1.0) };
            let step = g.pick(&[0.0, 0.01, 0.25, 1.0]);
            let step = if step * n as f32 > 50.0 { 50.0 / n as f32 } else { step };
            for i in 0..n {
                let x = i as f32 * step;
                let s = g.range(0.05, 0.8);
                v.push(tri(
                    perm([x - s, -s, z], k),
                    perm([x + s, -s, z], k),
                    perm([x, 2.0 * s, z], k),
                ));
            }
        }
        12 => {
            let rings = (((n as f32) / 4.0).sqrt().ceil() as usize).max(2);
            let segs = rings * 2;
            let p = |i: usize, j: usize| {
                let th = std::f32::consts::PI * i as f32 / rings as f32;
                let ph = 2.0 * std::f32::consts::PI * (j % segs) as f32 / segs as f32;
                [th.sin() * ph.cos(), th.sin() * ph.sin(), th.cos()]
            };
            'o2: for i in 0..rings {
                for j in 0..segs {
                    v.push(tri(p(i, j), p(i + 1, j), p(i + 1, j + 1)));
                    v.push(tri(p(i, j), p(i + 1, j + 1), p(i, j + 1)));
                    if v.len() >= n {
                        break 'o2;
                    }
                }
            }
        }
        13 => {
            let m = g.int(1, 4);
            for _ in 0..n {
                let mut t = [0.0; 9];
                for x in t.iter_mut() {
                    *x = g.int(-m, m) as f32;
                }
                v.push(t);
            }
        }
        14 => {
            let (mut a, mut b) = (g.below(14), g.below(18));
            if a == 14 {
                a = 0;
            }
            if b == 14 {
                b = 15;
            }
            v = family(g, a, n / 2 + 1);
            let w = family(g, b, n / 2 + 1);
            v.extend(w);
        }
        15 => {
            // Large parallel sheets close to one another
            let k = g.below(3);
            let gap = g.logu(0.001, 0.5);
            let tilt = if g.chance(0.4) { g.sym(1.0) } else { 0.0 };
            let mut i = 0;
            while v.len() < n {
                let z = i as f32 * gap;
                let z = z % 40.0;
                let q = |a: f32, b: f32| perm([a, b, z + tilt * a], k);
                v.push(tri(q(-1.0, -1.0), q(1.0, -1.0), q(1.0, 1.0)));
                v.push(tri(q(-1.0, -1.0), q(1.0, 1.0), q(-1.0, 1.0)));
                i += 1;
            }
        }
        16 => {
            // Triangles sharing a vertex
            let c = rv(g, 1.0);
            for _ in 0..n {
                let (a, b) = (rv(g, 2.0), rv(g, 2.0));
                v.push(tri(c, addv(c, a), addv(c, b)));
            }
        }
        _ => {
            // Different triangles with the same centroid
            let n = n.min(800);
            let c = rv(g, 1.0);
            for _ in 0..n {
                let (a, b) = (rv(g, 1.0), rv(g, 1.0));
                let d = [-a[0] - b[0], -a[1] - b[1], -a[2] - b[2]];
                v.push(tri(addv(c, a), addv(c, b), addv(c, d)));
            }
        }
    }
    v
}

pub fn max_coord(v: &[[f32; 9]]) -> f32 {
    v.iter().flat_map(|t| t.iter()).fold(0.0, |m, x| m.max(x.abs()))
}

/// A scene whose coordinates stay within `limit`.
pub fn scene(g: &mut G, fam: usize, n: usize, limit: f32) -> Vec<[f32; 9]> {
    let mut v = family(g, fam, n);
    let mut limit = limit;
    let s = if limit > 1000.0 && g.chance(0.03) {
        limit = f32::MAX;
        g.pick(&[1e6, 1e7, 1e9])
    } else if g.chance(0.05) {
        g.pick(&[3e-3, 1e-3, 1e-4, 1e-6])
    } else if limit > 1000.0 && g.chance(0.3) {
        g.pick(&[100.0, 1000.0, 1.0e4])
    } else {
        g.pick(&[1.0, 1.0, 1.0, 0.05, 7.3, 10.0, 40.0])
    };
    let off = if s < 1e6 && g.chance(0.3) {
        let far = limit > 1000.0 && g.chance(0.25);
        let k = if far {
            g.pick(&[300.0f32, 3000.0, 30000.0])
        } else {
            g.pick(&[0.5f32, 5.0, 40.0])
        };
        [g.sym(k), g.sym(k), g.sym(k)]
    } else {
        [0.0; 3]
    };
    for t in v.iter_mut() {
        for (i, x) in t.iter_mut().enumerate() {
            *x = *x * s + off[i % 3];
        }
    }
    while max_coord(&v) > limit {
        for t in v.iter_mut() {
            for x in t.iter_mut() {
                *x *= 0.5;
            }
        }
    }
    if g.chance(0.7) {
        g.shuffle(&mut v);
    }
    v
}

/// The number of primitives per leaf asked of a builder; 0 stands for none.
pub fn leaf_size(g: &mut G) -> i64 {
    if g.chance(0.92) {
        g.pick(&[0i64, 0, 1, 1, 2, 3, 4, 5, 7, 8, 16, 31, 64])
    } else {
        g.pick(&[100, 256, 300, 1000, 5000, 70_000, 1 << 33])
    }
}

/// Rarely: enough alike primitives for a leaf of hundreds.
fn stack(g: &mut G) -> Option<(usize, usize)> {
    if g.chance(0.005) {
        Some((g.pick(&[7, 7, 17, 6, 11]), g.int(250, 790) as usize))
    } else {
        None
    }
}

pub fn any_scene(g: &mut G, limit: f32) -> (Vec<[f32; 9]>, usize) {
    let (fam, n) = stack(g).unwrap_or_else(|| (g.below(FAMILIES), size(g)));
    (scene(g, fam, n, limit), fam)
}

pub fn small_scene(g: &mut G, limit: f32) -> (Vec<[f32; 9]>, usize) {
    let (fam, n) = stack(g).unwrap_or_else(|| (g.below(FAMILIES), small_size(g)));
    (scene(g, fam, n, limit), fam)
}

/// Pads a scene of a few primitives with copies of one of them, so that one leaf can hold more
/// than sixteen bits count. The case's first numbers are the builder and the leaf size.
pub fn widen(g: &mut G, c: &mut Case) {
    let few = g.int(1, 12) as usize;
    let total = g.int(65_537, 69_000) as usize;
    c.tris.truncate(few);
    c.prims.truncate(few);
    c.boxes.truncate(few);
    for f in c.frames.iter_mut() {
        f.truncate(few);
    }
    let n = c.tris.len().max(c.prims.len());
    if n == 0 || c.u.len() < 2 {
        return;
    }
    let k = g.below(n);
    let at: Vec<usize> = (0..n).map(|_| g.below(total)).collect();
    fn pad<T: Copy>(v: &mut Vec<T>, k: usize, total: usize, at: &[usize]) {
        if v.len() > k {
            let one = v[k];
            v.resize(total, one);
            for (i, j) in at.iter().enumerate() {
                v.swap(i, *j);
            }
        }
    }
    pad(&mut c.tris, k, total, &at);
    pad(&mut c.prims, k, total, &at);
    pad(&mut c.boxes, k, total, &at);
    for f in c.frames.iter_mut() {
        pad(f, k, total, &at);
    }
    c.u[0] = g.pick(&[BINNED, BINNED, SPATIAL]);
    if c.tris.is_empty() {
        c.u[0] = BINNED;
    }
    c.u[1] = g.pick(&[65_535, 65_536, 65_537, 1 << 17, 1 << 20, 1 << 31]);
}

pub fn scene_bounds(v: &[[f32; 9]]) -> Box6 {
    v.iter().fold(EMPTY6, |b, t| union6(&b, &tri_box(t)))
}

/// Boxes handed to the builder: none, exact, padded or loose.
pub fn boxes_for(g: &mut G, tris: &[[f32; 9]]) -> Vec<Box6> {
    let mode = g.weighted(&[50, 20, 15, 15]);
    let size = {
        let b = scene_bounds(tris);
        (0..3).fold(0.0f32, |m, a| m.max(b[a + 3] - b[a])).max(0.01)
    };
    match mode {
        0 => vec![],
        1 => tris.iter().map(tri_box).collect(),
        2 => tris
            .iter()
            .map(|t| {
                let mut b = tri_box(t);
                for a in 0..3 {
                    b[a] -= 1e-4;
                    b[a + 3] += 1e-4;
                }
                b
            })
            .collect(),
        _ => tris
            .iter()
            .map(|t| {
                let mut b = tri_box(t);
                for a in 0..3 {
                    b[a] -= g.unit() * 0.05 * size;
                    b[a + 3] += g.unit() * 0.05 * size;
                }
                b
            })
            .collect(),
    }
}

/// A point in the interior of a triangle.
pub fn interior(g: &mut G, t: &[f32; 9]) -> [f32; 3] {
    let (mut a, mut b) = (g.range(0.05, 0.9), g.range(0.05, 0.9));
    if a + b > 0.95 {
        a *= 0.5;
        b *= 0.5;
    }
    let c = 1.0 - a - b;
    let mut p = [0.0; 3];
    for i in 0..3 {
        p[i] = t[i] * a + t[3 + i] * b + t[6 + i] * c;
    }
    p
}

pub struct RayGen {
    pub b: Box6,
    pub size: f32,
}

impl RayGen {
    pub fn new(tris: &[[f32; 9]]) -> RayGen {
        let b = scene_bounds(tris);
        let size = (0..3).fold(0.0f32, |m, a| m.max(b[a + 3] - b[a]));
        let size = if size > 0.0 { size } else { 0.01 };
        RayGen { b, size }
    }

    pub fn from_box(b: Box6) -> RayGen {
        let size = (0..3).fold(0.0f32, |m, a| m.max(b[a + 3] - b[a]));
        let size = if size > 0.0 { size } else { 0.01 };
        RayGen { b, size }
    }

    fn point(&self, g: &mut G, grow: f32) -> [f32; 3] {
        let e = grow * self.size;
        [
            g.range(self.b[0] - e, self.b[3] + e),
            g.range(self.b[1] - e, self.b[4] + e),
            g.range(self.b[2] - e, self.b[5] + e),
        ]
    }

    fn zero(g: &mut G) -> f32 {
        if g.chance(0.5) {
            0.0
        } else {
            -0.0
        }
    }

    /// origin, direction, t_min, t
    pub fn ray(&self, g: &mut G, target: Option<[f32; 3]>, others: &[[f32; 9]]) -> [f32; 8] {
        let p = match target {
            Some(p) => p,
            None => self.point(g, 0.2),
        };
        let mode = g.weighted(&[50, 18, 10, 14, 8]);
        let (o, mut d) = match mode {
            0 => {
                let o = match g.below(5) {
                    0 | 1 => self.point(g, 1.5),
                    2 => self.point(g, 0.0),
                    3 => {
                        if others.is_empty() {
                            self.point(g, 0.5)
                        } else {
                            let t = others[g.below(others.len())];
                            interior(g, &t)
                        }
                    }
                    _ => {
                        let q = self.point(g, 1.0);
                        [q[0].round(), q[1].round(), q[2].round()]
                    }
                };
                (o, [p[0] - o[0], p[1] - o[1], p[2] - o[2]])
            }
            1 => {
                let k = g.below(3);
                let s = if g.chance(0.5) { 1.0 } else { -1.0 };
                let mut d = [Self::zero(g), Self::zero(g), Self::zero(g)];
                d[k] = s;
                let dist = g.range(0.0, 2.0) * self.size;
                let mut o = p;
                o[k] -= s * dist;
                (o, d)
            }
            2 => {
                let k = g.below(3);
                let mut d = g.dir();
                d[k] = Self::zero(g);
                let dist = g.range(0.0, 2.0) * self.size;
                (
                    [p[0] - d[0] * dist, p[1] - d[1] * dist, p[2] - d[2] * dist],
                    d,
                )
            }
            3 => (self.point(g, 0.7), g.dir()),
            _ => {
                let mut d = [0.0f32; 3];
                for x in d.iter_mut() {
                    let i = g.int(-2, 2);
                    *x = if i == 0 { Self::zero(g) } else { i as f32 };
                }
                let q = self.point(g, 1.0);
                let r = |x: f32| (x * 2.0).round() / 2.0;
                ([r(q[0]), r(q[1]), r(q[2])], d)
            }
        };
        if d.iter().all(|x| *x == 0.0) {
            d = [0.0, 0.0, 1.0];
        }
        match g.below(4) {
            0 => {
                let l = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt();
                if l > 1e-12 {
                    for x in d.iter_mut() {
                        *x /= l;
                    }
                }
            }
            1 => {
                let k = if g.chance(0.06) {
                    g.logu(1e-22, 1e17)
                } else if g.chance(0.25) {
                    g.logu(1e-4, 1e5)
                } else {
                    g.logu(0.05, 20.0)
                };
                for x in d.iter_mut() {
                    *x *= k;
                }
            }
            _ => {}
        }
        if g.chance(0.04) {
            // nearly, but not quite, parallel to an axis plane
            let k = g.below(3);
            let l = d.iter().fold(0.0f32, |m, x| m.max(x.abs()));
            if l > d[k].abs() || d[(k + 1) % 3] != 0.0 {
                let e = g.logu(1e-30, 1e-4);
                d[k] = if g.chance(0.5) { e } else { -e };
            }
        }
        let dl = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt().max(1e-12);
        let dist = ((p[0] - o[0]).powi(2) + (p[1] - o[1]).powi(2) + (p[2] - o[2]).powi(2)).sqrt();
        let th = dist / dl;
        let t_min = match g.below(8) {
            0 => 0.0,
            1 => th * g.unit(),
            2 => th * 1.2 * g.unit(),
            _ => 1e-4,
        };
        let t = match g.below(8) {
            0 => th * g.range(1.01, 2.0),
            1 => th * g.range(0.3, 1.2),
            2 => (self.size / dl) * g.range(0.1, 3.0),
            3 => f32::MAX,
            _ => 1e34,
        };
        if g.chance(0.05) {
            // searching behind the origin as well: a negative minimum distance
            let t_min = -th * g.range(0.5, 3.0);
            let t = match g.below(4) {
                0 => -th * g.unit(),
                1 => 0.0,
                _ => t,
            };
            if g.chance(0.7) {
                for x in d.iter_mut() {
                    *x = -*x;
                }
            }
            return [o[0], o[1], o[2], d[0], d[1], d[2], t_min, t];
        }
        [o[0], o[1], o[2], d[0], d[1], d[2], t_min, t]
    }

    pub fn aimed(&self, g: &mut G, tris: &[[f32; 9]]) -> [f32; 8] {
        let p = if tris.is_empty() || g.chance(0.1) {
            None
        } else {
            let t = tris[g.below(tris.len())];
            Some(interior(g, &t))
        };
        self.ray(g, p, tris)
    }

    /// Four rays of a packet.
    pub fn packet(&self, g: &mut G, tris: &[[f32; 9]]) -> Vec<[f32; 8]> {
        let base = self.aimed(g, tris);
        let mut v: Vec<[f32; 8]> = match g.weighted(&[20, 40, 8, 8, 8, 16]) {
            0 => (0..4)
                .map(|_| {
                    let mut r = base;
                    for a in 3..6 {
                        r[a] += g.sym(0.02) * (r[3].abs() + r[4].abs() + r[5].abs());
                    }
                    r
                })
                .collect(),
            1 => (0..4).map(|_| self.aimed(g, tris)).collect(),
            2 => vec![base; 4],
            3 => {
                // One useful lane among rays that leave the scene
                let mut out = base;
                for a in 0..3 {
                    out[a] = self.b[a + 3] + self.size * (1.0 + g.unit());
                    out[a + 3] = g.range(0.1, 1.0);
                }
                let mut v = vec![out; 4];
                v[g.below(4)] = base;
                v
            }
            5 => {
                // parallel rays, or rays from one point, each at a target of its own
                let parallel = g.chance(0.6);
                let (n, u) = (g.dir(), g.dir());
                (0..4)
                    .map(|i| {
                        let mut r = base;
                        if i == 0 || tris.is_empty() {
                            return r;
                        }
                        let t = tris[g.below(tris.len())];
                        let p = interior(g, &t);
                        let dist = match g.below(3) {
                            0 => 1.0,
                            1 => g.range(0.0, 3.0),
                            _ => -g.range(0.0, 1.0),
                        };
                        for a in 0..3 {
                            if parallel {
                                r[a] = p[a] - r[a + 3] * dist;
                            } else {
                                r[a + 3] = p[a] - r[a];
                            }
                        }
                        if parallel && g.chance(0.1) {
                            // equal but for one axis
                            let k = g.below(3);
                            r[k + 3] += 0.01 * (n[k] + u[k]);
                        }
                        if r[3] == 0.0 && r[4] == 0.0 && r[5] == 0.0 {
                            r[5] = 1.0;
                        }
                        r
                    })
                    .collect()
            }
            _ => (0..4)
                .map(|i| {
                    let mut r = if i % 2 == 0 { base } else { self.aimed(g, tris) };
                    if i >= 2 {
                        for a in 3..6 {
                            r[a] = -r[a];
                        }
                    }
                    r
                })
                .collect(),
        };
        match g.below(5) {
            0 => v.iter_mut().for_each(|r| r[7] = 1e34),
            1 => {
                // lanes that are already finished
                for r in v.iter_mut() {
                    if g.chance(0.5) {
                        r[7] = g.pick(&[0.0, -1.0, 1e-3]);
                    }
                }
            }
            _ => {}
        }
        v
    }
}

fn cell(x: f32, lo: f32, hi: f32) -> u32 {
    if hi > lo {
        (((x - lo) / (hi - lo) * 1024.0) as i32).max(0).min(1023) as u32
    } else {
        0
    }
}

/// Clustering takes a number of rounds that grows with the number of primitives when many boxes
/// are alike: minutes for the largest scenes. True when a rehearsal finds far too many rounds.
pub fn slow_to_cluster(boxes: &[Box6]) -> bool {
    let all = boxes.iter().fold(EMPTY6, |b, x| union6(&b, x));
    let mut order: Vec<(u32, Box6)> = boxes
        .iter()
        .map(|b| {
            let mut code = 0;
            for a in 0..3 {
                let c = cell(0.5 * (b[a] + b[a + 3]), all[a], all[a + 3]);
                for k in 0..10 {
                    code |= (c >> k & 1) << (3 * k + a as u32);
                }
            }
            (code, *b)
        })
        .collect();
    order.sort_by_key(|x| x.0);
    let mut level: Vec<Box6> = order.into_iter().map(|x| x.1).collect();
    let area = |a: &Box6, b: &Box6| {
        let u = union6(a, b);
        let d = [u[3] - u[0], u[4] - u[1], u[5] - u[2]];
        d[0] * d[1] + d[1] * d[2] + d[2] * d[0]
    };
    let mut work = 0;
    while level.len() > 1 {
        let n = level.len();
        work += n;
        if work > 12 * boxes.len() {
            return true;
        }
        let nearest: Vec<usize> = (0..n)
            .map(|i| {
                let mut best = (f32::MAX, i);
                for j in i.saturating_sub(14)..(i + 15).min(n) {
                    if j != i {
                        let d = area(&level[i], &level[j]);
                        if d < best.0 {
                            best = (d, j);
                        }
                    }
                }
                best.1
            })
            .collect();
        let mut next = vec![];
        for i in 0..n {
            let j = nearest[i];
            if j == i || nearest[j] != i {
                next.push(level[i]);
            } else if i < j {
                next.push(union6(&level[i], &level[j]));
            }
        }
        level = next;
    }
    false
}
