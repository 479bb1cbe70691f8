//! C15-C20: ray-box and ray-triangle tests, triangle splitting, box algebra, rays and
//! packets, Morton codes.
use super::Prop;
use crate::case::Case;
use crate::engine::Ctx;
use crate::ensure;
use crate::gen::G;
use crate::oracle::*;
use crate::scene::*;
use crate::util::*;
use glam::*;
use rtbvh::*;

// ---------------------------------------------------------------------------------------
// C15

fn gen_box(g: &mut G) -> Box6 {
    let s = if g.chance(0.06) {
        g.pick(&[1e-4f32, 1e-6, 1e-9, 1e6, 1e8])
    } else {
        g.pick(&[1.0f32, 1.0, 1.0, 1e-2, 10.0, 1e3, 1e4])
    };
    let k = if g.chance(0.3) { 10.0 } else { 1.0 };
    let int = g.chance(0.3);
    let mut b = [0.0; 6];
    for a in 0..3 {
        let (mut lo, mut w) = (g.sym(s * k), g.unit() * s);
        if int {
            lo = lo.round();
            w = w.ceil();
        }
        match g.below(12) {
            0 => w = 0.0,
            1 => w *= 1e-4,
            2 => w *= 100.0,
            _ => {}
        }
        b[a] = lo;
        b[a + 3] = lo + w;
    }
    b
}

/// u: bit i set = slot i of the quad node is occupied
fn gen_c15(g: &mut G, _: u64) -> Case {
    let mut boxes: Vec<Box6> = (0..4).map(|_| gen_box(g)).collect();
    if g.chance(0.4) {
        // related boxes
        for i in 1..4 {
            let mut b = boxes[0];
            for a in 0..3 {
                let e = (b[a + 3] - b[a]).abs().max(1e-3);
                let d = g.sym(1.5) * e;
                b[a] += d;
                b[a + 3] = (b[a + 3] + d).max(b[a]);
            }
            boxes[i] = b;
        }
    }
    let mut rays = vec![];
    for _ in 0..5 {
        let rg = RayGen::from_box(boxes[g.below(4)]);
        let mut p = rg.packet(g, &[]);
        for r in p.iter_mut() {
            if g.chance(0.25) {
                // aim at the inside of one of the boxes, with any origin
                let b = boxes[g.below(4)];
                for a in 0..3 {
                    let x = g.range(b[a], b[a + 3]);
                    r[a + 3] = x - r[a];
                }
            }
            if g.chance(0.15) {
                // away from it
                for a in 3..6 {
                    r[a] = -r[a];
                }
            }
            if g.chance(0.05) {
                r[3 + g.below(3)] = g.pick(&[1e-18, -1e-18, 1e-10, -0.0, 0.0]);
            }
            if g.chance(0.2) {
                // distance limits in terms of the box
                if let BoxRay::Hit(lo, hi) = box_line(&boxes[g.below(4)], r) {
                    let f = g.pick(&[0.5, 0.9, 1.1, 2.0]);
                    if g.chance(0.5) {
                        r[7] = (lo * f) as f32;
                    } else {
                        r[6] = (hi * f) as f32;
                    }
                }
            }
        }
        rays.extend(p);
    }
    Case {
        boxes,
        rays,
        group: 4,
        u: vec![if g.chance(0.6) { 15 } else { g.int(0, 15) }],
        ..Default::default()
    }
}

const REL: f64 = 4e-6;

fn near(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    (a - b).abs() <= rel * a.abs().max(b.abs()) + abs
}

/// Some(true) = the verdict for this lane is clearly positive, Some(false) = clearly not.
fn lane_verdict(b: &Box6, r: &[f32; 8]) -> Option<bool> {
    match box_line_m(b, r, REL) {
        BoxRay::Miss => Some(false),
        BoxRay::Unclear => None,
        BoxRay::Hit(lo, hi) => {
            let t = r[7] as f64;
            let m = REL * (lo.abs() + t.abs());
            if hi < 0.0 || lo > t + m {
                Some(false)
            } else if hi > 0.0 && lo < t - m {
                Some(true)
            } else {
                None
            }
        }
    }
}

fn c15(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    if c.u.is_empty() || c.rays.len() % 4 != 0 || c.boxes.len() != 4 {
        return Ok(());
    }
    let mut quad = MbvhNode::new();
    let mut quad2 = MbvhNode::new();
    for i in 0..4 {
        if c.u[0] >> i & 1 == 1 {
            let a = bb(&c.boxes[i]);
            quad.set_bounds(i, a.min.as_ref(), a.max.as_ref());
            quad2.set_bounds_bb(i, &a);
            for q in [&mut quad, &mut quad2].iter_mut() {
                q.children[i] = i as i32;
                q.counts[i] = 1;
            }
        }
    }
    let (nx, xx, ny, xy, nz, xz) = quad.points();
    let (mnx, mny, mnz) = quad.min_points();
    let (mxx, mxy, mxz) = quad.max_points();
    for i in 0..4 {
        if c.u[0] >> i & 1 == 1 {
            let b = [nx[i], ny[i], nz[i], xx[i], xy[i], xz[i]];
            let b2 = [mnx[i], mny[i], mnz[i], mxx[i], mxy[i], mxz[i]];
            ensure!(
                b == c.boxes[i] && b2 == c.boxes[i],
                "quad box: slot {} holds {:?} / {:?} instead of {:?}",
                i,
                b,
                b2,
                c.boxes[i]
            );
        }
    }
    let quads = [quad];
    let quads2 = [quad2];
    let idx = [0u32, 1, 2, 3];
    let mut judged = 0;
    for (k, r) in c.rays.iter().enumerate() {
        let ray = ray_of(r);
        for b in &c.boxes {
            let a = bb(b);
            let node = BvhNode { bounds: a };
            let got = a.intersect(&ray);
            let got2 = node.intersect(&ray);
            ensure!(
                got.map(f32::to_bits) == got2.map(f32::to_bits),
                "node: a node answers {:?}, its box {:?}",
                got2,
                got
            );
            let simple = a.intersects(&ray);
            match box_line_m(b, r, REL) {
                BoxRay::Unclear => {}
                BoxRay::Miss => {
                    ensure!(
                        got.is_none() && !simple,
                        "box: {:?} clearly misses {:?} but intersect={:?} intersects={}",
                        r,
                        b,
                        got,
                        simple
                    );
                    judged += 1;
                    ctx.hit("clear misses");
                }
                BoxRay::Hit(lo, hi) => {
                    let tm = r[6] as f64;
                    let m = REL * (hi.abs() + tm.abs());
                    if hi > tm + m {
                        ensure!(
                            got.map(|x| near(x as f64, hi, REL, 0.0)) == Some(true),
                            "box: {:?} passes {:?} from {} to {}, intersect={:?}",
                            r,
                            b,
                            lo,
                            hi,
                            got
                        );
                        ctx.hit("clear hits");
                        ctx.add("hits from inside", (lo < 0.0) as u64);
                    } else if hi < tm - m {
                        ensure!(
                            got.is_none(),
                            "box: {:?} leaves {:?} at {} before its minimum, intersect={:?}",
                            r,
                            b,
                            hi,
                            got
                        );
                        ctx.hit("boxes before the minimum distance");
                    }
                    if hi != 0.0 {
                        ensure!(
                            simple == (hi > 0.0),
                            "box: {:?} passes {:?} from {} to {}, intersects={}",
                            r,
                            b,
                            lo,
                            hi,
                            simple
                        );
                    }
                    judged += 1;
                    ctx.add("clear hits of flat boxes", (0..3).any(|a| b[a] == b[a + 3]) as u64);
                    ctx.add("clear hits, zero components", r[3..6].contains(&0.0) as u64);
                }
            }
        }
        // a quad node with a single ray
        for q in [&quads, &quads2].iter() {
            let mut ray = ray_of(r);
            let got: Vec<u32> = MbvhIndexIterator::from_slices(&mut ray, &q[..], &idx)
                .take(9)
                .map(|x| x.0)
                .collect();
            for i in 0..4u32 {
                let n = got.iter().filter(|x| **x == i).count();
                let used = c.u[0] >> i & 1 == 1;
                let b = &c.boxes[i as usize];
                ensure!(n <= used as usize, "quad: slot {} answers {} times", i, n);
                if !used {
                    continue;
                }
                match (box_line_m(b, r, REL), lane_verdict(b, r)) {
                    (BoxRay::Miss, _) => {
                        ensure!(n == 0, "quad: {:?} clearly misses {:?} (slot {})", r, b, i)
                    }
                    (_, Some(true)) => {
                        ensure!(n == 1, "quad: {:?} clearly hits {:?} (slot {})", r, b, i)
                    }
                    (BoxRay::Hit(lo, _), Some(false)) => {
                        let t = r[7] as f64;
                        ensure!(
                            n == 0 || lo <= t + REL * (lo.abs() + t.abs()),
                            "quad: {:?} enters {:?} (slot {}) beyond its distance",
                            r,
                            b,
                            i
                        )
                    }
                    _ => {}
                }
            }
        }
        if k % 4 != 3 {
            continue;
        }
        let rs = &c.rays[k - 3..=k];
        let p = packet_of(rs);
        for b in &c.boxes {
            let a = bb(b);
            let got = a.intersect4(&p);
            let got2 = BvhNode { bounds: a }.intersect4(&p);
            ensure!(
                got.map(|x| x.map(f32::to_bits)) == got2.map(|x| x.map(f32::to_bits)),
                "node: a node answers {:?}, its box {:?}",
                got2,
                got
            );
            let vs: Vec<Option<bool>> = rs.iter().map(|r| lane_verdict(b, r)).collect();
            if vs.contains(&Some(true)) {
                let g = match got {
                    Some(g) => g,
                    None => return Err(format!(
                        "packet: lanes {:?} of {:?} clearly hit {:?} but the verdict is negative",
                        vs, rs, b
                    )),
                };
                for l in 0..4 {
                    if vs[l] == Some(true) {
                        if let BoxRay::Hit(lo, _) = box_line_m(b, &rs[l], REL) {
                            ensure!(
                                near(g[l] as f64, lo, REL, 0.0),
                                "packet: lane {} of {:?} enters {:?} at {}, not {}",
                                l,
                                rs,
                                b,
                                lo,
                                g[l]
                            );
                        }
                    }
                }
                judged += 1;
                ctx.hit("packets that hit");
                ctx.add(
                    "packets where some lanes hit and some do not",
                    vs.contains(&Some(false)) as u64,
                );
            } else if vs.iter().all(|v| *v == Some(false)) {
                ensure!(
                    got.is_none(),
                    "packet: no lane of {:?} hits {:?} but the verdict is positive ({:?})",
                    rs,
                    b,
                    got
                );
                judged += 1;
                ctx.hit("packets that do not hit");
            }
        }
        for q in [&quads, &quads2].iter() {
            let mut p = packet_of(rs);
            let got: Vec<u32> = MbvhPacketIndexIterator::from_slices(&mut p, &q[..], &idx)
                .take(9)
                .map(|x| x.0)
                .collect();
            for i in 0..4u32 {
                let n = got.iter().filter(|x| **x == i).count();
                let used = c.u[0] >> i & 1 == 1;
                let b = &c.boxes[i as usize];
                ensure!(n <= used as usize, "quad packet: slot {} answers {} times", i, n);
                if !used {
                    continue;
                }
                let vs: Vec<Option<bool>> = rs.iter().map(|r| lane_verdict(b, r)).collect();
                if vs.contains(&Some(true)) {
                    ensure!(n == 1, "quad packet: {:?} clearly hit {:?} (slot {})", rs, b, i);
                }
                let none = rs.iter().all(|r| match box_line_m(b, r, REL) {
                    BoxRay::Miss => true,
                    BoxRay::Hit(lo, _) => {
                        lo > r[7] as f64 + REL * (lo.abs() + r[7].abs() as f64)
                    }
                    _ => false,
                });
                if none {
                    ensure!(n == 0, "quad packet: {:?} clearly miss {:?} (slot {})", rs, b, i);
                }
            }
        }
    }
    ctx.nontrivial = judged >= 20;
    Ok(())
}

// ---------------------------------------------------------------------------------------
// C16

fn gen_tri(g: &mut G) -> [f32; 9] {
    let s = if g.chance(0.12) {
        g.pick(&[1e-3f32, 3e-3, 1e-5, 1e-8, 1e4, 1e6])
    } else {
        g.pick(&[1.0f32, 1.0, 0.1, 5.0, 100.0])
    };
    let mut t = [0.0f32; 9];
    match g.below(7) {
        0 => {
            for x in t.iter_mut() {
                *x = g.int(-4, 4) as f32;
            }
        }
        1 => {
            // in an axis plane
            let k = g.below(3);
            let z = g.sym(s);
            for (i, x) in t.iter_mut().enumerate() {
                *x = if i % 3 == k { z } else { g.sym(s) };
            }
        }
        2 => {
            // long and thin
            for i in 0..3 {
                t[i] = g.sym(s);
                t[3 + i] = t[i] + g.sym(s) * 5.0;
                t[6 + i] = t[3 + i] + g.sym(s) * 0.05;
            }
        }
        _ => {
            let o = if g.chance(0.3) { 5.0 * s } else { 0.0 };
            let c = [g.sym(o), g.sym(o), g.sym(o)];
            for (i, x) in t.iter_mut().enumerate() {
                *x = c[i % 3] + g.sym(s);
            }
        }
    }
    t
}

/// A ray at or near a triangle.
fn gen_tri_ray(g: &mut G, t: &[f32; 9]) -> [f32; 8] {
    let size = (0..3)
        .flat_map(|a| (0..3).map(move |i| (t[i * 3 + a] - t[a]).abs()))
        .fold(1e-10f32, f32::max);
    // a point given by barycentric coordinates inside, on edges, at corners, outside
    let (mut u, mut v) = match g.below(6) {
        0 => (g.unit(), g.unit()),
        1 => (g.range(-0.5, 1.5), g.range(-0.5, 1.5)),
        2 => {
            let e = g.pick(&[0.02f32, -0.02, 1e-3, -1e-3]);
            (e, g.unit())
        }
        3 => {
            let e = g.pick(&[0.02f32, -0.02, 1e-3, -1e-3]);
            (g.unit(), e)
        }
        4 => {
            let x = g.unit();
            let e = g.pick(&[0.02f32, -0.02, 1e-3, -1e-3]);
            (x, 1.0 - x + e)
        }
        _ => (g.range(-2.0, 2.0), g.range(-2.0, 2.0)),
    };
    if g.chance(0.5) && u + v > 1.0 && u < 1.0 && v < 1.0 {
        u = 1.0 - u;
        v = 1.0 - v;
    }
    let mut p = [0.0f32; 3];
    for a in 0..3 {
        p[a] = t[a] + u * (t[3 + a] - t[a]) + v * (t[6 + a] - t[a]);
    }
    let (o, mut d) = match g.below(4) {
        0 => {
            let k = g.below(3);
            let s = if g.chance(0.5) { 1.0 } else { -1.0 };
            let mut d = [0.0f32; 3];
            if g.chance(0.5) {
                d = [-0.0; 3];
            }
            d[k] = s;
            let mut o = p;
            o[k] -= s * g.range(-0.5, 2.0) * size;
            (o, d)
        }
        _ => {
            let o = [
                p[0] + g.sym(3.0) * size,
                p[1] + g.sym(3.0) * size,
                p[2] + g.sym(3.0) * size,
            ];
            (o, [p[0] - o[0], p[1] - o[1], p[2] - o[2]])
        }
    };
    match g.below(5) {
        0 => {
            let l = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt().max(1e-18);
            d.iter_mut().for_each(|x| *x /= l);
        }
        1 => {
            let k = g.logu(0.05, 20.0);
            d.iter_mut().for_each(|x| *x *= k);
        }
        2 => {
            if g.chance(0.3) {
                // towards the other side
                d.iter_mut().for_each(|x| *x = -*x);
            }
        }
        _ => {}
    }
    let mut r = [o[0], o[1], o[2], d[0], d[1], d[2], 1e-4, 1e34];
    let (tt, _, _, _) = moeller(t, &r);
    let th = if tt.is_finite() { tt as f32 } else { 1.0 };
    match g.below(8) {
        0 => r[6] = th * g.pick(&[0.5f32, 0.99, 1.01, 2.0]),
        1 => r[7] = th * g.pick(&[0.5f32, 0.99, 1.01, 2.0]),
        2 => r[6] = 0.0,
        3 => {
            r[6] = th * g.range(0.2, 1.2);
            r[7] = th * g.range(0.8, 2.0);
        }
        4 => r[6] = -1.0,
        5 => r[7] = g.pick(&[0.0f32, -1.0, f32::MAX]),
        _ => {}
    }
    r
}

/// t, u, v and determinant of the crossing with the plane.
fn moeller(t: &[f32; 9], r: &[f32; 8]) -> (f64, f64, f64, f64) {
    let p = verts(t);
    let (o, d) = (orig(r), dirn(r));
    let (e1, e2) = (sub(p[1], p[0]), sub(p[2], p[0]));
    let h = cross(d, e2);
    let a = dot(e1, h);
    let s = sub(o, p[0]);
    let q = cross(s, e1);
    (dot(e2, q) / a, dot(s, h) / a, dot(d, q) / a, a)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum TriHit {
    /// crosses, with parameter and its uncertainty
    Yes(f64, f64),
    No,
    Unclear,
}

fn tri_verdict(t: &[f32; 9], r: &[f32; 8]) -> TriHit {
    let p = verts(t);
    let (o, d) = (orig(r), dirn(r));
    let (e1, e2) = (len(sub(p[1], p[0])), len(sub(p[2], p[0])));
    let (s, dl) = (len(sub(o, p[0])), len(d));
    let (tt, u, v, a) = moeller(t, r);
    let det_err = 1e-6 * e1 * e2 * dl;
    if a.abs() < 1e-30 || a.abs() < 30.0 * det_err {
        // Degenerate or parallel: exact arithmetic on small integers is still judged
        let ints = t
            .iter()
            .chain(r[..6].iter())
            .all(|x| x.fract() == 0.0 && x.abs() <= 64.0);
        return if ints && a == 0.0 { TriHit::No } else { TriHit::Unclear };
    }
    const C: f64 = 2e-6;
    let m = e1 * e2 * dl;
    let eu = C * (s * dl * e2 + u.abs() * m) / a.abs();
    let ev = C * (dl * s * e1 + v.abs() * m) / a.abs();
    let et = C * (e2 * s * e1 + tt.abs() * m) / a.abs() + 1e-6 * tt.abs();
    if u < -eu || u > 1.0 + eu || v < -ev || u + v > 1.0 + eu + ev {
        return TriHit::No;
    }
    if u > eu && v > ev && u + v < 1.0 - eu - ev {
        let (lo, hi) = (r[6] as f64, r[7] as f64);
        if tt < lo - et || tt > hi + et {
            return TriHit::No;
        }
        if tt > lo + et && tt < hi - et {
            return TriHit::Yes(tt, et);
        }
    }
    TriHit::Unclear
}

fn gen_c16(g: &mut G, _: u64) -> Case {
    let mut tris = vec![];
    let mut rays = vec![];
    for _ in 0..3 {
        let t = gen_tri(g);
        let mut four: Vec<[f32; 8]> = (0..4).map(|_| gen_tri_ray(g, &t)).collect();
        if g.chance(0.3) {
            // a lane that cannot hit anything: no direction, or parallel to the triangle
            let l = g.below(4);
            if g.chance(0.4) {
                four[l][3] = 0.0;
                four[l][4] = -0.0;
                four[l][5] = 0.0;
            } else {
                for a in 0..3 {
                    four[l][3 + a] = t[3 + a] - t[a];
                }
                if g.chance(0.7) {
                    for a in 0..3 {
                        four[l][a] = four[l][a].round();
                    }
                }
            }
        }
        tris.push(t);
        rays.extend(four);
    }
    Case {
        tris,
        rays,
        group: 4,
        ..Default::default()
    }
}

fn c16(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    if c.rays.len() != 4 * c.tris.len() {
        return Ok(());
    }
    let mut hits = 0;
    let mut misses = 0;
    for (k, t) in c.tris.iter().enumerate() {
        let flipped = [t[0], t[1], t[2], t[6], t[7], t[8], t[3], t[4], t[5]];
        let turned = [t[3], t[4], t[5], t[6], t[7], t[8], t[0], t[1], t[2]];
        let rs = &c.rays[4 * k..4 * k + 4];
        for t in [*t, flipped, turned].iter() {
            let tri = Tri::new(0, t, 0);
            let vs: Vec<TriHit> = rs.iter().map(|r| tri_verdict(t, r)).collect();
            for (r, v) in rs.iter().zip(&vs) {
                let before = ray_of(r);
                let mut ray = before;
                let got = SpatialTriangle::intersect(&tri, &mut ray);
                let mut rest = ray;
                rest.t = before.t;
                let same = ray.t.to_bits() == before.t.to_bits();
                ensure!(
                    bincode::serialize(&rest).unwrap() == bincode::serialize(&before).unwrap(),
                    "ray: intersecting {:?} changes the ray {:?} beyond its distance: {:?}",
                    t,
                    before,
                    ray
                );
                ensure!(
                    got != same,
                    "verdict: {:?} against {:?}: {} but t goes from {} to {}",
                    r,
                    t,
                    got,
                    before.t,
                    ray.t
                );
                match v {
                    TriHit::Yes(tt, e) => {
                        ensure!(got, "missed: {:?} crosses {:?} at {}", r, t, tt);
                        ensure!(
                            (ray.t as f64 - tt).abs() <= *e,
                            "distance: {:?} crosses {:?} at {}, not {}",
                            r,
                            t,
                            tt,
                            ray.t
                        );
                        let t1 = ray.t;
                        let again = SpatialTriangle::intersect(&tri, &mut ray);
                        ensure!(
                            !again && ray.t.to_bits() == t1.to_bits(),
                            "again: {:?} hits {:?} a second time at the distance it was shortened to",
                            r,
                            t
                        );
                        hits += 1;
                        ctx.hit("clear hits");
                    }
                    TriHit::No => {
                        ensure!(!got, "false hit: {:?} does not hit {:?}, t={}", r, t, ray.t);
                        misses += 1;
                        ctx.hit("clear misses");
                    }
                    TriHit::Unclear => ctx.hit("unclear"),
                }
            }
            let before = packet_of(rs);
            let mut p = before;
            let t_min = vec4(rs[0][6], rs[1][6], rs[2][6], rs[3][6]);
            let got = SpatialTriangle::intersect4(&tri, &mut p, t_min);
            let mut rest = p;
            rest.t = before.t;
            ensure!(
                bincode::serialize(&rest).unwrap() == bincode::serialize(&before).unwrap(),
                "ray: intersecting {:?} changes the packet beyond its distances",
                t
            );
            let mask = got.unwrap_or([false; 4]);
            ensure!(
                got.is_none() || mask.contains(&true),
                "mask: Some with no lane set for {:?} against {:?}",
                rs,
                t
            );
            for l in 0..4 {
                let same = p.t[l].to_bits() == before.t[l].to_bits();
                ensure!(
                    mask[l] != same,
                    "mask: lane {} of {:?} against {:?} is reported as {} but t goes from {} to {}",
                    l,
                    rs,
                    t,
                    mask[l],
                    before.t[l],
                    p.t[l]
                );
                match vs[l] {
                    TriHit::Yes(tt, e) => {
                        ensure!(
                            mask[l],
                            "missed: lane {} of {:?} crosses {:?} at {}",
                            l,
                            rs,
                            t,
                            tt
                        );
                        ensure!(
                            (p.t[l] as f64 - tt).abs() <= e,
                            "distance: lane {} of {:?} crosses {:?} at {}, not {}",
                            l,
                            rs,
                            t,
                            tt,
                            p.t[l]
                        );
                    }
                    TriHit::No => {
                        ensure!(
                            !mask[l],
                            "false hit: lane {} of {:?} does not hit {:?}, t={}",
                            l,
                            rs,
                            t,
                            p.t[l]
                        );
                    }
                    _ => {}
                }
            }
            if got.is_some() {
                let t1 = p.t;
                let again = SpatialTriangle::intersect4(&tri, &mut p, t_min);
                ensure!(
                    again.is_none() && p.t == t1,
                    "again: {:?} hit {:?} a second time at the distances they were shortened to",
                    rs,
                    t
                );
            }
            ctx.hit("packets");
        }
    }
    ctx.nontrivial = hits > 0 && misses > 0;
    Ok(())
}

// ---------------------------------------------------------------------------------------
// C17

/// f: split positions; u: axes
fn gen_c17(g: &mut G, _: u64) -> Case {
    let n = 4;
    let mut c = Case {
        group: 1,
        ..Default::default()
    };
    for _ in 0..n {
        let mut t = match g.below(4) {
            0 => {
                let f = g.below(FAMILIES);
                let v = family(g, f, 3);
                v[g.below(v.len())]
            }
            _ => gen_tri(g),
        };
        if g.chance(0.2) {
            let k = g.pick(&[100.0f32, 1e3, 1e-2, 1e4]);
            t.iter_mut().for_each(|x| *x *= k);
        }
        let a = g.below(3);
        if g.chance(0.1) {
            // nearly in the plane
            let x = t[a];
            for i in 0..3 {
                t[3 * i + a] = x * (1.0 + g.int(-3, 3) as f32 * 1.2e-7);
            }
        }
        let (lo, hi) = {
            let b = tri_box(&t);
            (b[a], b[a + 3])
        };
        let pos = match g.below(8) {
            0 => t[a + 3 * g.below(3)],
            1 => lo - g.unit() * (hi - lo) - 1e-3 * lo.abs() - 1e-6,
            2 => hi + g.unit() * (hi - lo) + 1e-3 * hi.abs() + 1e-6,
            3 => {
                let x = t[a + 3 * g.below(3)];
                x * (1.0 + g.int(-2, 2) as f32 * 1.2e-7)
            }
            4 => (lo + hi) * 0.5,
            _ => g.range(lo, hi),
        };
        c.tris.push(t);
        c.f.push(pos);
        c.u.push(a as i64);
    }
    c
}

type B64 = [f64; 6];

fn clip(t: &[f32; 9], axis: usize, pos: f64, left: bool) -> Option<B64> {
    let p = verts(t);
    let side = |x: &V| if left { pos - x[axis] } else { x[axis] - pos };
    let mut pts: Vec<V> = vec![];
    for i in 0..3 {
        let (a, b) = (p[i], p[(i + 1) % 3]);
        let (sa, sb) = (side(&a), side(&b));
        if sa >= 0.0 {
            pts.push(a);
        }
        if (sa > 0.0 && sb < 0.0) || (sa < 0.0 && sb > 0.0) {
            let k = sa / (sa - sb);
            let mut m = add(a, mul(sub(b, a), k));
            m[axis] = pos;
            pts.push(m);
        }
    }
    if pts.is_empty() {
        return None;
    }
    let mut b = [f64::INFINITY, f64::INFINITY, f64::INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY];
    for x in pts {
        for a in 0..3 {
            b[a] = b[a].min(x[a]);
            b[a + 3] = b[a + 3].max(x[a]);
        }
    }
    Some(b)
}

fn c17(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let n = c.tris.len();
    if c.f.len() != n || c.u.len() != n || c.u.iter().any(|a| *a < 0 || *a > 2) {
        return Ok(());
    }
    let mut real = 0;
    for i in 0..n {
        let (t, pos, axis) = (&c.tris[i], c.f[i], c.u[i] as usize);
        if !pos.is_finite() || t.iter().any(|x| !x.is_finite() || x.abs() > 1e6) {
            continue;
        }
        let tri = Tri::new(0, t, 0);
        let (l, r) = tri.split(axis, pos);
        let m = t.iter().fold(pos.abs(), |m, x| m.max(x.abs())) as f64;
        let tol = 2e-6 * m + 1e-9;
        let whole = tri_box(t);
        for (got, left) in [(l, true), (r, false)].iter() {
            let name = if *left { "left" } else { "right" };
            let want = clip(t, axis, pos as f64, *left);
            // The triangle reaches this side only with points on the plane
            let touching = if *left {
                whole[axis] == pos && whole[axis + 3] > pos
            } else {
                whole[axis + 3] == pos && whole[axis] < pos
            };
            let flat_in_plane = whole[axis] == pos && whole[axis + 3] == pos;
            match want {
                None => {
                    ensure!(
                        !got.is_valid(),
                        "empty: {:?} split at {} on axis {} has nothing on the {} but the box is {}",
                        t,
                        pos,
                        axis,
                        name,
                        got
                    );
                    ctx.hit("one-sided");
                }
                Some(w) => {
                    if (touching || flat_in_plane) && !got.is_valid() {
                        // a plane that only touches belongs to the other side
                        let other = if *left { &r } else { &l };
                        ensure!(
                            other.is_valid(),
                            "cover: {:?} split at {} on axis {} has no box at all",
                            t,
                            pos,
                            axis
                        );
                        continue;
                    }
                    let g = b6(got);
                    for a in 0..3 {
                        ensure!(
                            g[a] as f64 <= w[a] + tol && g[a + 3] as f64 >= w[a + 3] - tol,
                            "cover: {:?} split at {} on axis {}: the {} part spans {:?}, its box is {:?}",
                            t,
                            pos,
                            axis,
                            name,
                            w,
                            g
                        );
                        ensure!(
                            g[a] as f64 >= w[a] - tol && g[a + 3] as f64 <= w[a + 3] + tol,
                            "tight: {:?} split at {} on axis {}: the {} part spans {:?}, its box is {:?}",
                            t,
                            pos,
                            axis,
                            name,
                            w,
                            g
                        );
                    }
                }
            }
        }
        let cut = whole[axis] < pos && pos < whole[axis + 3];
        ctx.add("cut in two", cut as u64);
        ctx.add("plane through a vertex", (0..3).any(|k| t[3 * k + axis] == pos) as u64);
        real += cut as u64;
    }
    ctx.nontrivial = real > 0;
    Ok(())
}

// ---------------------------------------------------------------------------------------
// C18

/// boxes: operands; prims: points (three each); f: offset, matrix (12), points
fn gen_c18(g: &mut G, _: u64) -> Case {
    let k = g.int(1, 6) as usize;
    let mut boxes: Vec<Box6> = (0..k.max(2)).map(|_| gen_box(g)).collect();
    if g.chance(0.4) {
        // overlapping, nested or touching
        for i in 1..boxes.len() {
            let mut b = boxes[0];
            for a in 0..3 {
                let e = b[a + 3] - b[a];
                match g.below(5) {
                    0 => {
                        b[a] += 0.25 * e;
                        b[a + 3] -= 0.25 * e;
                    }
                    1 => {
                        b[a] = b[a + 3];
                        b[a + 3] += e;
                    }
                    2 => {
                        b[a] += 0.5 * e;
                        b[a + 3] += 0.5 * e;
                    }
                    3 => {
                        b[a] += 2.0 * e;
                        b[a + 3] += 2.0 * e;
                    }
                    _ => {}
                }
                if b[a] > b[a + 3] {
                    b.swap(a, a + 3);
                }
            }
            boxes[i] = b;
        }
    }
    // now and then long lists
    let long = if g.chance(0.01) { g.int(7, 100) } else if g.chance(0.0001) { g.int(100, 9000) } else { 0 };
    for _ in 0..long {
        boxes.push(gen_box(g));
    }
    let np = g.int(1, 4) + if long > 0 && g.chance(0.5) { g.int(1, long) } else { 0 };
    let s = g.pick(&[1.0f32, 10.0, 1e3]);
    let prims = (0..np)
        .map(|_| {
            let mut p = [0.0f32; 9];
            p.iter_mut().for_each(|x| *x = g.sym(s));
            p
        })
        .collect();
    let mut f = vec![g.pick(&[0.0f32, 1e-4, 0.5, 2.0])];
    // affine matrix, column by column
    match g.below(5) {
        0 => {
            let a = g.range(0.0, 6.3);
            let q = g.below(3);
            let (sn, cs) = (a.sin(), a.cos());
            let mut m = [[0.0f32; 3]; 3];
            m[q][q] = 1.0;
            let (i, j) = ((q + 1) % 3, (q + 2) % 3);
            m[i][i] = cs;
            m[j][j] = cs;
            m[i][j] = sn;
            m[j][i] = -sn;
            m.iter().for_each(|c| f.extend(c));
        }
        1 => {
            for i in 0..3 {
                for j in 0..3 {
                    f.push(if i == j { g.pick(&[1.0f32, -1.0, 2.0, 0.5, 0.0]) } else { 0.0 });
                }
            }
        }
        2 => f.extend([1.0f32, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0]),
        _ => {
            for _ in 0..9 {
                f.push(g.sym(2.0));
            }
        }
    }
    for _ in 0..3 {
        let k = g.pick(&[0.0f32, 1.0, 50.0]);
        f.push(g.sym(k));
    }
    // probe points relative to the first box
    for _ in 0..6 {
        for _ in 0..3 {
            f.push(match g.below(4) {
                0 => g.range(-0.5, 1.5),
                1 => g.pick(&[0.01f32, 0.99, -0.01, 1.01]),
                _ => g.unit(),
            });
        }
    }
    Case {
        boxes,
        prims,
        f,
        group: 1,
        u: vec![g.int(0, 1)],
        ..Default::default()
    }
}

fn exact(what: &str, got: &Aabb<i32>, want: &Box6) -> Result<(), String> {
    ensure!(
        b6(got) == *want,
        "{}: got {:?}, expected {:?}",
        what,
        b6(got),
        want
    );
    Ok(())
}

/// `got` is `want` with at most `pad` more on every side.
fn padded(what: &str, got: &Aabb<i32>, want: &Box6, pad: f64) -> Result<(), String> {
    let g = b6(got);
    for a in 0..3 {
        let m = 1e-6 * (want[a].abs().max(want[a + 3].abs())) as f64;
        ensure!(
            g[a] <= want[a] && g[a + 3] >= want[a + 3],
            "{}: got {:?}, which does not contain {:?}",
            what,
            g,
            want
        );
        ensure!(
            g[a] as f64 >= want[a] as f64 - pad - m && g[a + 3] as f64 <= want[a + 3] as f64 + pad + m,
            "{}: got {:?}, which is larger than {:?} by more than {}",
            what,
            g,
            want,
            pad
        );
    }
    Ok(())
}

const PAD: f64 = 2e-4;

fn c18(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    if c.boxes.is_empty() || c.f.len() < 13 || c.prims.is_empty() || c.u.is_empty() {
        return Ok(());
    }
    if c.boxes.iter().any(|b| (0..3).any(|a| !(b[a] <= b[a + 3]))) {
        return Ok(());
    }
    let big = |x: &f32| !x.is_finite() || x.abs() > 1e11;
    if c.boxes.iter().flatten().any(big) || c.prims.iter().flatten().any(big) || c.f.iter().any(big)
    {
        return Ok(());
    }
    let bs: Vec<Aabb<i32>> = c.boxes.iter().map(bb).collect();
    let pts: Vec<Vec3> = c
        .prims
        .iter()
        .flat_map(|p| (0..3).map(move |i| vec3(p[3 * i], p[3 * i + 1], p[3 * i + 2])))
        .collect();
    let pbox = pts.iter().fold(EMPTY6, |b, p| {
        union6(&b, &[p.x, p.y, p.z, p.x, p.y, p.z])
    });
    let (empty, full): (Aabb<i32>, Aabb<i32>) = (Aabb::empty(), Aabb::full());
    let meet6 = |a: &Box6, b: &Box6| -> Box6 {
        let mut r = *a;
        for i in 0..3 {
            r[i] = a[i].max(b[i]);
            r[i + 3] = a[i + 3].min(b[i + 3]);
        }
        r
    };
    ensure!(!empty.is_valid(), "empty: the empty box is valid");
    ensure!(!Aabb::<i32>::new().is_valid(), "empty: the new box is valid");
    ensure!(!Aabb::<i32>::default().is_valid(), "empty: the default box is valid");
    ensure!(full.is_valid(), "full: the full box is not valid");
    let mut overlap = 0;
    for (i, a) in bs.iter().enumerate().take(6) {
        let w = &c.boxes[i];
        ensure!(a.is_valid(), "valid: {} is not valid", a);
        // neutral elements
        exact("union with empty", &a.union_of(&empty), w)?;
        exact("union of empty", &empty.union_of(a), w)?;
        exact("union of new", &Aabb::new().union_of(a), w)?;
        exact("union of default", &Aabb::default().union_of(a), w)?;
        exact("intersection with full", &a.intersection(&full), w)?;
        exact("intersection of full", &full.intersection(a), w)?;
        let mut x = empty;
        x.grow_bb(a);
        exact("growing the empty box", &x, w)?;
        let mut x = full;
        x.shrink(a);
        exact("shrinking the full box", &x, w)?;
        exact("union with itself", &a.union_of(a), w)?;
        for (j, b) in bs.iter().enumerate().take(6) {
            let u = union6(w, &c.boxes[j]);
            let m = meet6(w, &c.boxes[j]);
            exact("union", &a.union_of(b), &u)?;
            let mut x = *a;
            x.grow_bb(b);
            exact("grow_bb", &x, &u)?;
            let mut x = *a;
            x.grow_bbs(&[*b]);
            exact("grow_bbs", &x, &u)?;
            exact("intersection", &a.intersection(b), &m)?;
            let mut x = *a;
            x.shrink(b);
            exact("shrink", &x, &m)?;
            let common = (0..3).all(|k| m[k] <= m[k + 3]);
            ensure!(
                a.intersection(b).is_valid() == common,
                "valid: the intersection of {} and {} is valid: {}",
                a,
                b,
                !common
            );
            overlap += (common && i != j && m != *w) as u64;
            ctx.add("pairs with common points", (common && i != j) as u64);
            ctx.add("disjoint pairs", (!common) as u64);
        }
        // points
        let mut x = *a;
        let mut e = *w;
        for p in pts.iter().take(12) {
            x.grow(*p);
            e = union6(&e, &[p.x, p.y, p.z, p.x, p.y, p.z]);
            exact("grow", &x, &e)?;
        }
        // offsets
        let d = c.f[0];
        let o = a.with_offset(d);
        let mut o2 = *a;
        o2.offset_by(d);
        for k in 0..3 {
            let lo = w[k] as f64 - d as f64;
            let hi = w[k + 3] as f64 + d as f64;
            let t = 1e-6 * (w[k].abs().max(w[k + 3].abs()) + d.abs()) as f64;
            for (n, q) in [("with_offset", &o), ("offset_by", &o2)].iter() {
                let g = b6(q);
                ensure!(
                    (g[k] as f64 - lo).abs() <= t && (g[k + 3] as f64 - hi).abs() <= t,
                    "{}: {:?} by {} gives {:?}",
                    n,
                    w,
                    d,
                    g
                );
            }
        }
        // measures
        let e: Vec<f64> = (0..3).map(|k| w[k + 3] as f64 - w[k] as f64).collect();
        let half = e[0] * e[1] + e[1] * e[2] + e[2] * e[0];
        let vol = e[0] * e[1] * e[2];
        for (n, g, want) in [
            ("area", a.area(), half),
            ("half_area", a.half_area(), half),
            ("volume", a.volume(), vol),
        ]
        .iter()
        {
            ensure!(
                near(*g as f64, *want, 1e-5, 1e-35),
                "{}: of {:?} is {}, not {}",
                n,
                w,
                want,
                g
            );
        }
        let (ln, dg, ce) = (a.lengths(), a.diagonal(), a.center());
        let ce2 = Primitive::center(a);
        let mut longest = 0.0f64;
        for k in 0..3 {
            longest = longest.max(e[k]);
            for (n, g) in [("lengths", ln[k]), ("diagonal", dg[k]), ("extend", a.extend(k))].iter() {
                ensure!(
                    near(*g as f64, e[k], 1e-6, 0.0),
                    "{}: of {:?} along {} is {}, not {}",
                    n,
                    w,
                    k,
                    e[k],
                    g
                );
            }
            let mid = 0.5 * (w[k] as f64 + w[k + 3] as f64);
            let t = 1e-6 * (w[k].abs().max(w[k + 3].abs())) as f64;
            ensure!(
                (ce[k] as f64 - mid).abs() <= t && (ce2[k] as f64 - mid).abs() <= t,
                "center: of {:?} along {} is {}, not {}",
                w,
                k,
                mid,
                ce[k]
            );
        }
        let la = a.longest_axis();
        ensure!(la < 3, "longest_axis: {}", la);
        ensure!(
            near(e[la], longest, 1e-6, 0.0),
            "longest_axis: of {:?} is not {}",
            w,
            la
        );
        ensure!(
            near(a.longest_extent() as f64, longest, 1e-6, 0.0),
            "longest_extent: of {:?} is {}, not {}",
            w,
            longest,
            a.longest_extent()
        );
        let corners = a.all_corners();
        let tol: Vec<f64> = (0..3)
            .map(|k| 1e-6 * (w[k].abs().max(w[k + 3].abs())) as f64)
            .collect();
        for m in 0..8 {
            let want: Vec<f64> = (0..3).map(|k| w[k + 3 * (m >> k & 1)] as f64).collect();
            ensure!(
                corners
                    .iter()
                    .any(|q| (0..3).all(|k| (q[k] as f64 - want[k]).abs() <= tol[k])),
                "corners: {:?} of {:?} is not among {:?}",
                want,
                w,
                corners
            );
        }
        // access
        let (lo, hi) = a.points();
        let t: (Vec3, Vec3) = (*a).into();
        let back: Aabb<i32> = Aabb::from(t);
        exact("From<(Vec3, Vec3)>", &back, w)?;
        exact("points", &Aabb::from((lo, hi)), w)?;
        exact("bounds", &Bounds::bounds(a), w)?;
        exact("Primitive::aabb", &Primitive::aabb(a), w)?;
        ensure!(
            a[0] == a.min && a[1] == a.max && (*a)[0] == a.min && (*a)[1] == a.max,
            "index: of {} gives {:?}, {:?}",
            a,
            a[0],
            a[1]
        );
        // containment
        for q in c.f[13..].chunks_exact(3) {
            let mut p = [0.0f32; 3];
            let (mut inside, mut outside) = (true, false);
            for k in 0..3 {
                p[k] = w[k] + q[k] * (w[k + 3] - w[k]);
                inside &= p[k] > w[k] && p[k] < w[k + 3];
                outside |= p[k] < w[k] || p[k] > w[k + 3];
            }
            let got = a.contains(Vec3::from(p));
            ensure!(
                (!inside || got) && (!outside || !got),
                "contains: {:?} in {:?}: {}",
                p,
                w,
                got
            );
            ensure!(full.contains(Vec3::from(p)), "full: does not contain {:?}", p);
            ensure!(!empty.contains(Vec3::from(p)), "empty: contains {:?}", p);
            ctx.add("points inside", inside as u64);
            ctx.add("points outside", outside as u64);
        }
    }
    // many
    let all = c.boxes.iter().fold(EMPTY6, |a, b| union6(&a, b));
    padded("union_of_list", &Aabb::union_of_list(&bs), &all, PAD)?;
    let mut x = empty;
    x.grow_bbs(&bs);
    exact("grow_bbs", &x, &all)?;
    let mut x = bs[0];
    x.grow_bbs(&[]);
    exact("grow_bbs of nothing", &x, &c.boxes[0])?;
    padded("from_points", &Aabb::from_points(&pts), &pbox, PAD)?;
    let three = [pts[0], pts[1], pts[2]];
    let b3 = three.iter().fold(EMPTY6, |b, p| {
        union6(&b, &[p.x, p.y, p.z, p.x, p.y, p.z])
    });
    padded("From<[Vec3; 3]>", &Aabb::from(three), &b3, PAD)?;
    let m: Aabb<i32> = {
        use rtbvh::aabb;
        aabb!(pts[0], pts[1], pts[2])
    };
    padded("aabb!", &m, &b3, PAD)?;
    let one: Aabb<i32> = Aabb::from([pts[0]]);
    let p0 = [pts[0].x, pts[0].y, pts[0].z, pts[0].x, pts[0].y, pts[0].z];
    padded("From<[Vec3; 1]>", &one, &p0, PAD)?;
    // transforms
    let f = &c.f;
    let mat = Mat4::from_cols(
        vec4(f[1], f[2], f[3], 0.0),
        vec4(f[4], f[5], f[6], 0.0),
        vec4(f[7], f[8], f[9], 0.0),
        vec4(f[10], f[11], f[12], 1.0),
    );
    for (i, a) in bs.iter().enumerate().take(6) {
        let w = &c.boxes[i];
        let mut want = [f64::INFINITY, f64::INFINITY, f64::INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY];
        let mut tol = [0.0f64; 3];
        for m in 0..8 {
            for k in 0..3 {
                let mut y = f[10 + k] as f64;
                let mut s = y.abs();
                for j in 0..3 {
                    let v = w[j + 3 * (m >> j & 1)] as f64 * f[1 + 3 * j + k] as f64;
                    y += v;
                    s += v.abs();
                }
                want[k] = want[k].min(y);
                want[k + 3] = want[k + 3].max(y);
                tol[k] = tol[k].max(2e-6 * s);
            }
        }
        let got = a.transformed(mat);
        let mut got2 = *a;
        got2.transform(mat);
        for g in [b6(&got), b6(&got2)].iter() {
            for k in 0..3 {
                ensure!(
                    g[k] as f64 <= want[k] + tol[k] && g[k + 3] as f64 >= want[k + 3] - tol[k],
                    "transform: {:?} by {:?} gives {:?}, the image spans {:?}",
                    w,
                    mat,
                    g,
                    want
                );
                ensure!(
                    g[k] as f64 >= want[k] - tol[k] - PAD && g[k + 3] as f64 <= want[k + 3] + tol[k] + PAD,
                    "transform: {:?} by {:?} gives {:?}, larger than the image {:?}",
                    w,
                    mat,
                    g,
                    want
                );
            }
        }
    }
    ctx.nontrivial = overlap > 0 || c.boxes.len() > 2;
    Ok(())
}

// ---------------------------------------------------------------------------------------
// C19

/// tris, rays: scene and packets; f: three normals, hit points, epsilon
fn gen_c19(g: &mut G, _: u64) -> Case {
    let n = g.int(1, 40) as usize;
    let fam = g.below(FAMILIES);
    let tris = scene(g, fam, n, 100.0);
    let rg = RayGen::new(&tris);
    let mut rays = vec![];
    for _ in 0..3 {
        rays.extend(rg.packet(g, &tris));
    }
    for r in rays.iter_mut() {
        if g.chance(0.15) {
            r[3 + g.below(3)] = g.pick(&[0.0, -0.0]);
        }
    }
    let mut f = vec![];
    for _ in 0..4 {
        let nrm = if g.chance(0.4) {
            let mut v = [0.0f32; 3];
            v[g.below(3)] = if g.chance(0.5) { 1.0 } else { -1.0 };
            v
        } else {
            g.dir()
        };
        f.extend(nrm);
        for a in 0..3 {
            f.push(g.range(rg.b[a], rg.b[a + 3]));
        }
        f.push(g.pick(&[0.0f32, 1e-4, 1e-2, -1e-3]));
        f.push(g.pick(&[0.0f32, 1.0, 0.5, -2.0, 100.0]));
    }
    Case {
        tris,
        rays,
        f,
        group: 4,
        u: vec![g.below(3) as i64, leaf_size(g)],
        ..Default::default()
    }
}

struct Probe<'a> {
    boxes: &'a [Box6],
    bvh: &'a Bvh,
    mbvh: &'a Mbvh,
}

impl<'a> Probe<'a> {
    /// All the answers a ray can give.
    fn answers(&self, ray: &Ray) -> Vec<u32> {
        let mut v = vec![];
        for b in self.boxes {
            let a = bb(b);
            v.push(a.intersect(ray).map(|x| (x + 0.0).to_bits()).unwrap_or(7));
            v.push(a.intersects(ray) as u32);
        }
        let mut r = *ray;
        v.extend(self.bvh.traverse_iter_indices(&mut r).take(9999).map(|x| x.0));
        v.push(u32::MAX);
        let mut r = *ray;
        v.extend(self.mbvh.traverse_iter_indices(&mut r).take(9999).map(|x| x.0));
        v
    }
}

fn eqv(a: Vec3, b: [f32; 3]) -> bool {
    (0..3).all(|i| a[i].to_bits() == b[i].to_bits())
}

fn c19(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    if c.tris.is_empty() || c.rays.len() % 4 != 0 || c.u.len() < 2 || c.f.len() % 8 != 0 {
        return Ok(());
    }
    if c.rays.iter().any(|r| r[..6].iter().any(|x| !x.is_finite())) {
        return Ok(());
    }
    let prims = tris_of(c, 0);
    let bvh = match build_tris(&prims, None, c.u[0], c.u[1]) {
        Ok(b) => b,
        Err(_) => return Ok(()),
    };
    let mbvh = Mbvh::construct(&bvh);
    let mut boxes: Vec<Box6> = bvh.nodes().iter().take(24).map(node_box).collect();
    boxes.extend(c.tris.iter().take(12).map(tri_box));
    let probe = Probe {
        boxes: &boxes,
        bvh: &bvh,
        mbvh: &mbvh,
    };
    ensure!(
        Ray::DEFAULT_T_MIN == 1e-4 && Ray::DEFAULT_T_MAX == 1e34,
        "defaults: {} {}",
        Ray::DEFAULT_T_MIN,
        Ray::DEFAULT_T_MAX
    );
    let mut octants = 0u32;
    for rs in c.rays.chunks_exact(4) {
        let o: Vec<Vec4> = rs.iter().map(|r| vec4(r[0], r[1], r[2], r[6])).collect();
        let d: Vec<Vec4> = rs.iter().map(|r| vec4(r[3], r[4], r[5], r[7])).collect();
        let fresh = RayPacket4::new([o[0], o[1], o[2], o[3]], [d[0], d[1], d[2], d[3]]);
        let mut p = fresh;
        p.t = vec4(rs[0][7], rs[1][7], rs[2][7], rs[3][7]);
        let ts: [f32; 4] = p.t().into();
        let (ox, oy, oz) = p.origin_xyz();
        let (dx, dy, dz) = p.direction_xyz();
        for l in 0..4 {
            let r = &rs[l];
            ensure!(
                fresh.t[l] == 1e34,
                "defaults: lane {} of a new packet has t={}",
                l,
                fresh.t[l]
            );
            ensure!(ts[l].to_bits() == r[7].to_bits(), "lanes: t() of lane {} is {}", l, ts[l]);
            let want = [r[0], r[1], r[2], r[3], r[4], r[5]];
            let got = [
                p.origin_x[l],
                p.origin_y[l],
                p.origin_z[l],
                p.direction_x[l],
                p.direction_y[l],
                p.direction_z[l],
            ];
            let got2 = [ox[l], oy[l], oz[l], dx[l], dy[l], dz[l]];
            for i in 0..6 {
                ensure!(
                    got[i].to_bits() == want[i].to_bits() && got2[i].to_bits() == want[i].to_bits(),
                    "lanes: lane {} made from {:?} holds {:?} / {:?}",
                    l,
                    want,
                    got,
                    got2
                );
            }
            let (vo, vd) = (vec3(r[0], r[1], r[2]), vec3(r[3], r[4], r[5]));
            let mut new = Ray::new(vo, vd);
            let tuple = Ray::from((vo, vd));
            for (n, x) in [("Ray::new", &new), ("From<(Vec3, Vec3)>", &tuple)].iter() {
                ensure!(
                    x.t_min == 1e-4 && x.t == 1e34,
                    "defaults: {} gives t_min={} t={}",
                    n,
                    x.t_min,
                    x.t
                );
                ensure!(
                    eqv(x.origin, [r[0], r[1], r[2]]) && eqv(x.direction, [r[3], r[4], r[5]]),
                    "fields: {} from {:?} gives {:?}",
                    n,
                    r,
                    x
                );
            }
            let back: (Vec3, Vec3) = new.into();
            ensure!(
                eqv(back.0, [r[0], r[1], r[2]]) && eqv(back.1, [r[3], r[4], r[5]]),
                "pair: {:?} comes back as {:?}",
                r,
                back
            );
            ensure!(
                probe.answers(&tuple) == probe.answers(&new),
                "behaviour: a ray from the pair {:?} differs from a new one",
                r
            );
            // a ray is valid once something was hit
            for t in [r[7], r[0], f32::MIN_POSITIVE, 9.9e32, 1.01e33, 1e34, f32::MAX, f32::INFINITY].iter() {
                let mut x = new;
                x.t = *t;
                ensure!(
                    t.is_nan() || (*t > 9.9e32 && *t < 1.01e33) || x.is_valid() == (*t < 1e33),
                    "valid: a ray of distance {} is valid: {}",
                    t,
                    x.is_valid()
                );
            }
            // a lane
            let lane = p.ray(l);
            new.t = r[7];
            ensure!(
                eqv(lane.origin, [r[0], r[1], r[2]]) && eqv(lane.direction, [r[3], r[4], r[5]]),
                "lane: lane {} of {:?} is {:?}",
                l,
                rs,
                lane
            );
            ensure!(
                lane.t.to_bits() == r[7].to_bits() && lane.t_min == 1e-4,
                "lane: lane {} has t_min={} t={}, expected t={}",
                l,
                lane.t_min,
                lane.t,
                r[7]
            );
            let want = probe.answers(&new);
            ensure!(
                probe.answers(&lane) == want,
                "behaviour: lane {} of {:?} differs from a ray constructed directly",
                l,
                rs
            );
            // reset
            let mut x = ray_of(r);
            let before = x;
            x.reset();
            ensure!(x.t == 1e34, "reset: t={}", x.t);
            x.t = before.t;
            ensure!(
                bincode::serialize(&x).unwrap() == bincode::serialize(&before).unwrap(),
                "reset: changes {:?} to {:?}",
                before,
                x
            );
            octants |= 1 << ((r[3] < 0.0) as u32 | ((r[4] < 0.0) as u32) << 1 | ((r[5] < 0.0) as u32) << 2);
            ctx.hit("rays");
            ctx.add("rays with zero components", r[3..6].contains(&0.0) as u64);
            // reflection and points
            for f in c.f.chunks_exact(8) {
                let (n, h, eps, t) = (
                    [f[0] as f64, f[1] as f64, f[2] as f64],
                    [f[3] as f64, f[4] as f64, f[5] as f64],
                    f[6],
                    f[7],
                );
                let q = new.get_point_at(t);
                for i in 0..3 {
                    let w = r[i] as f64 + t as f64 * r[3 + i] as f64;
                    let m = 1e-6 * (r[i].abs() as f64 + (t * r[3 + i]).abs() as f64) + 1e-12;
                    ensure!(
                        (q[i] as f64 - w).abs() <= m,
                        "point: {:?} at {} is {:?}",
                        r,
                        t,
                        q
                    );
                }
                let rf = new.reflect(vec3(f[3], f[4], f[5]), vec3(f[0], f[1], f[2]), eps);
                let dv = [r[3] as f64, r[4] as f64, r[5] as f64];
                let k = 2.0 * dot(n, dv);
                let dl = len(dv);
                for i in 0..3 {
                    let w = dv[i] - k * n[i];
                    let m = 4e-6 * dl + 1e-12;
                    ensure!(
                        (rf.direction[i] as f64 - w).abs() <= m,
                        "reflect: {:?} about {:?} goes along {:?}",
                        r,
                        n,
                        rf.direction
                    );
                    let w = h[i] + eps as f64 * w;
                    let m = 2e-6 * (h[i].abs() + eps.abs() as f64 * dl) + 1e-12;
                    ensure!(
                        (rf.origin[i] as f64 - w).abs() <= m,
                        "reflect: {:?} about {:?} at {:?} starts at {:?}",
                        r,
                        n,
                        h,
                        rf.origin
                    );
                }
                ensure!(
                    rf.t_min == 1e-4 && rf.t == 1e34,
                    "reflect: t_min={} t={}",
                    rf.t_min,
                    rf.t
                );
                let direct = Ray::new(rf.origin, rf.direction);
                ensure!(
                    probe.answers(&rf) == probe.answers(&direct),
                    "behaviour: reflecting {:?} about {:?} gives {:?}, which differs from a ray constructed directly",
                    r,
                    n,
                    rf
                );
                ctx.hit("reflections");
            }
        }
        let mut x = p;
        x.reset();
        ensure!(
            x.t == Vec4::splat(1e34),
            "reset: a packet has t={:?} afterwards",
            x.t
        );
        x.t = p.t;
        ensure!(
            bincode::serialize(&x).unwrap() == bincode::serialize(&p).unwrap(),
            "reset: changes more than the distances of a packet"
        );
        // A packet of four equal rays finds what its lanes find
        ctx.hit("packets");
    }
    ctx.nontrivial = octants.count_ones() >= 2;
    Ok(())
}

// ---------------------------------------------------------------------------------------
// C20

/// boxes: the grid's box; f: points; prims: sorted primitives; u: grid size, coordinates
fn gen_c20(g: &mut G, _: u64) -> Case {
    let b = loop {
        let b = gen_box(g);
        if (0..3).filter(|a| b[*a] < b[a + 3]).count() >= 2 {
            break b;
        }
    };
    let dim = match g.below(4) {
        0 => g.int(1, 1024),
        1 => 1 << g.int(0, 10),
        _ => 1024,
    };
    let mut f = vec![];
    for _ in 0..20 {
        for a in 0..3 {
            f.push(match g.below(10) {
                0 => b[a] - g.unit() * (b[a + 3] - b[a]) * 3.0,
                1 => b[a + 3] + g.unit() * (b[a + 3] - b[a]) * 3.0,
                2 => b[a],
                3 => b[a + 3],
                4 => g.sym(1e9),
                _ => g.range(b[a], b[a + 3]),
            });
        }
    }
    let n = if g.chance(0.00005) {
        huge(g)
    } else if g.chance(0.004) {
        g.int(60, 5000) as usize
    } else {
        g.int(1, 60) as usize
    };
    let coarse = g.chance(0.5);
    let prims = (0..n)
        .map(|_| {
            let mut p = [0.0f32; 9];
            for a in 0..3 {
                let mut x = g.unit();
                if coarse {
                    x = (x * 3.0).round() / 3.0;
                }
                let y = b[a] + x * (b[a + 3] - b[a]);
                let y = if g.chance(0.05) { y + g.sym(10.0) } else { y };
                p[a] = y - 0.01;
                p[a + 3] = y + 0.01;
                p[a + 6] = y;
            }
            p
        })
        .collect();
    let mut u = vec![dim];
    for _ in 0..30 {
        u.push(match g.below(4) {
            0 => g.int(0, 1023),
            1 => 1 << g.int(0, 9),
            2 => (1 << g.int(0, 10)) - 1,
            _ => g.int(0, 1023) & g.int(0, 1023),
        });
    }
    Case {
        boxes: vec![b],
        f,
        prims,
        u,
        group: 1,
        ..Default::default()
    }
}

fn decode(code: u32) -> [u32; 3] {
    let mut r = [0; 3];
    for i in 0..32 {
        if code >> i & 1 == 1 {
            r[i % 3] |= 1 << (i / 3);
        }
    }
    r
}

fn c20(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    if c.boxes.len() != 1 || c.u.is_empty() || c.u[0] < 1 || c.u[0] > 1024 || c.f.len() % 3 != 0 {
        return Ok(());
    }
    let b = &c.boxes[0];
    if (0..3).any(|a| !(b[a] <= b[a + 3])) || c.u.iter().any(|x| *x < 0 || *x > 1023 + 1) {
        return Ok(());
    }
    // bit interleaving
    let spread = |x: u32| (0..11).fold(0u32, |s, i| s | (x >> i & 1) << (3 * i));
    for w in c.u[1..].chunks_exact(3) {
        let (x, y, z) = (w[0] as u32 & 1023, w[1] as u32 & 1023, w[2] as u32 & 1023);
        ensure!(
            morton_split(x) == spread(x),
            "split: morton_split({:b}) = {:b}",
            x,
            morton_split(x)
        );
        let code = MortonEncoder::morton_encode(x, y, z);
        ensure!(
            decode(code) == [x, y, z],
            "interleave: ({}, {}, {}) is encoded as {:b}, which decodes to {:?}",
            x,
            y,
            z,
            code,
            decode(code)
        );
        ensure!(
            code == spread(x) | spread(y) << 1 | spread(z) << 2,
            "interleave: ({}, {}, {}) is encoded as {:b}",
            x,
            y,
            z,
            code
        );
        ctx.hit("coordinate triples");
    }
    let dim = c.u[0];
    let enc = MortonEncoder::new(&bb(b), dim as usize);
    let cell = |p: [f32; 3]| -> Result<[u32; 3], String> {
        let got = decode(enc.encode(p));
        for a in 0..3 {
            ensure!(
                (got[a] as i64) < dim,
                "cell: {:?} in {:?} has coordinate {} of {} cells",
                p,
                b,
                got[a],
                dim
            );
            let w = b[a + 3] as f64 - b[a] as f64;
            if w <= 0.0 {
                continue;
            }
            let scale = dim as f64 / w;
            let x = (p[a] as f64 - b[a] as f64) * scale;
            let tol = 1e-6 * (p[a].abs() as f64 + b[a].abs() as f64) * scale + 1e-6;
            let clamp = |v: f64| v.floor().max(0.0).min(dim as f64 - 1.0) as u32;
            ensure!(
                clamp(x - tol) <= got[a] && got[a] <= clamp(x + tol),
                "cell: {:?} in {:?} with {} cells lies in cell {} along axis {} (position {}), not {}",
                p,
                b,
                dim,
                clamp(x),
                a,
                x,
                got[a]
            );
        }
        Ok(got)
    };
    let mut inside = 0;
    for p in c.f.chunks_exact(3) {
        if p.iter().any(|x| !x.is_finite() || x.abs() > 1e12) {
            continue;
        }
        let p = [p[0], p[1], p[2]];
        let base = cell(p)?;
        ensure!(
            enc.encode(Vec3::from(p)) == enc.encode(p),
            "point type: {:?} is encoded differently as a vector",
            p
        );
        let inn = (0..3).all(|a| b[a] < p[a] && p[a] < b[a + 3]);
        inside += inn as u64;
        ctx.add("points inside", inn as u64);
        ctx.add("points outside", !inn as u64);
        // monotone along each axis
        for q in c.f.chunks_exact(3).take(8) {
            for a in 0..3 {
                if !q[a].is_finite() || q[a].abs() > 1e12 {
                    continue;
                }
                let mut r = p;
                r[a] = q[a];
                let other = cell(r)?;
                let ok = if q[a] >= p[a] { other[a] >= base[a] } else { other[a] <= base[a] };
                ensure!(
                    ok && (0..3).all(|k| k == a || other[k] == base[k]),
                    "monotone: {:?} has cell {:?}, {:?} has cell {:?}",
                    p,
                    base,
                    r,
                    other
                );
            }
        }
    }
    // sorting
    let prims = boxprims(c);
    let aabbs: Vec<Aabb<i32>> = prims.iter().map(|p| p.b).collect();
    let (idx, codes) = enc.get_sorted_indices(&aabbs, &prims);
    ensure!(
        codes.len() == prims.len() && idx.len() == prims.len(),
        "sort: {} codes and {} indices for {} primitives",
        codes.len(),
        idx.len(),
        prims.len()
    );
    let mut seen = vec![false; prims.len()];
    let mut ties = 0;
    for (i, p) in prims.iter().enumerate() {
        let want = enc.encode(p.c);
        ensure!(
            codes[i] == want,
            "sort: primitive {} has code {}, its centre {}",
            i,
            codes[i],
            want
        );
    }
    for (k, i) in idx.iter().enumerate() {
        let i = *i as usize;
        ensure!(
            i < prims.len() && !seen[i],
            "sort: {:?} is not a permutation",
            idx
        );
        seen[i] = true;
        if k > 0 {
            let j = idx[k - 1] as usize;
            ensure!(
                codes[j] < codes[i] || (codes[j] == codes[i] && j < i),
                "sort: primitive {} (code {}) comes before {} (code {})",
                j,
                codes[j],
                i,
                codes[i]
            );
            ties += (codes[j] == codes[i]) as u64;
        }
    }
    ctx.add("primitives sorted", prims.len() as u64);
    ctx.add("equal codes", ties);
    ctx.nontrivial = inside > 0 && prims.len() > 1 && dim > 1;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C15",
            gen: gen_c15,
            check: c15,
            quick: 6000000,
            thorough: 40000000,
            rule: "at least twenty ray-box or packet-box pairs with a clear verdict",
            assumptions: &["rays within a relative margin of 4e-6 of touching a face are not judged", "a ray lying exactly in the plane of a face is not judged"],
        },
        Prop {
            id: "C16",
            gen: gen_c16,
            check: c16,
            quick: 16000000,
            thorough: 60000000,
            rule: "a clear hit and a clear miss among the ray-triangle pairs",
            assumptions: &["pairs within the rounding error bound of a triangle edge or distance limit, and determinants below 4e-5 that are not exactly zero, are not judged"],
        },
        Prop {
            id: "C17",
            gen: gen_c17,
            check: c17,
            quick: 80000000,
            thorough: 80000000,
            rule: "the plane cuts some triangle of the case in two",
            assumptions: &["up to 2e-6 of the largest coordinate"],
        },
        Prop {
            id: "C18",
            gen: gen_c18,
            check: c18,
            quick: 40000000,
            thorough: 60000000,
            rule: "two boxes share points without one being the other, or more than two boxes",
            assumptions: &["finite coordinates up to 1e7, affine transforms"],
        },
        Prop {
            id: "C19",
            gen: gen_c19,
            check: c19,
            quick: 792000,
            thorough: 25000000,
            rule: "rays into at least two different octants",
            assumptions: &["behaviour is compared on up to 36 boxes and the traversals of one scene"],
        },
        Prop {
            id: "C20",
            gen: gen_c20,
            check: c20,
            quick: 2400000,
            thorough: 40000000,
            rule: "a point inside the grid's box, more than one cell per axis and more than one primitive to sort",
            assumptions: &["grids of at most 1024 cells per axis", "positions within rounding of a cell border are given to either cell"],
        },
    ]
}
