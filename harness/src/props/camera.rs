//! C28: the camera, triangle and timer the demo programs share, and the images made with them.
use super::Prop;
use crate::case::Case;
use crate::engine::Ctx;
use crate::ensure;
use crate::gen::G;
use crate::oracle::*;
use crate::scene::*;
use crate::util::*;
use glam::*;
use rtbvh::*;
use shared::{CameraView3D, Timer, Triangle};
use std::time::Instant;

const POLE: f64 = 0.97;

/// The triangles of the repository's own object.
fn teapot() -> Option<&'static Vec<[f32; 9]>> {
    static T: std::sync::OnceLock<Option<Vec<[f32; 9]>>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let text = std::fs::read_to_string("/repo/objects/teapot.obj").ok()?;
        let (mut v, mut out) = (vec![], vec![]);
        for l in text.lines() {
            let mut w = l.split_whitespace();
            match w.next() {
                Some("v") => {
                    let x: Vec<f32> = w.filter_map(|x| x.parse().ok()).collect();
                    v.push([*x.first()?, *x.get(1)?, *x.get(2)?]);
                }
                Some("f") => {
                    let i: Vec<usize> = w.filter_map(|x| x.split('/').next()?.parse().ok()).collect();
                    for k in 2..i.len() {
                        let mut t = [0.0; 9];
                        for (j, q) in [i[0], i[k - 1], i[k]].iter().enumerate() {
                            t[3 * j..3 * j + 3].copy_from_slice(v.get(q.wrapping_sub(1))?);
                        }
                        out.push(t);
                    }
                }
                _ => {}
            }
        }
        if out.is_empty() {
            None
        } else {
            Some(out)
        }
    })
    .as_ref()
}

fn gen_c28(g: &mut G, idx: u64) -> Case {
    let tris = match teapot() {
        Some(t) if g.chance(0.004) => {
            // the object the demo programs show, or a part of it
            let from = if g.chance(0.5) { 0 } else { g.below(t.len()) };
            t[from..].to_vec()
        }
        _ => small_scene(g, 200.0).0,
    };
    let b = scene_bounds(&tris);
    let mid = [0, 1, 2].map(|a| 0.5 * (b[a] + b[a + 3]));
    let ext = (0..3).map(|a| b[a + 3] - b[a]).fold(0.01f32, f32::max);
    let dist = ext * g.pick(&[0.3, 0.8, 1.5, 3.0, 20.0]);
    // a direction that is not straight up or down, the axes and the horizon included
    let mut d = g.dir();
    match g.below(5) {
        0 => d[1] = 0.0,
        1 => d = [0.0, 0.0, g.pick(&[1.0, -1.0])],
        2 => d = [g.pick(&[1.0, -1.0]), 0.0, 0.0],
        _ => {}
    }
    d[1] = d[1].clamp(-0.9, 0.9);
    let l = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt();
    if !(l > 0.1) || (d[1] / l).abs() > 0.95 {
        d = [0.6, 0.0, 0.8];
    } else {
        d = d.map(|x| x / l);
    }
    let pos = [0, 1, 2].map(|a| mid[a] - d[a] * dist);
    let fov = if g.chance(0.2) {
        g.logu(0.5, 140.0)
    } else {
        (2.0 * (0.6 * ext / dist).atan()).to_degrees().clamp(1.0, 150.0)
    };
    let (w, h) = g.pick(&[(1280i64, 720i64), (640, 480), (8, 8), (16, 4), (5, 9), (4096, 2160), (1, 1)]);
    let mut f = vec![pos[0], pos[1], pos[2], d[0], d[1], d[2], fov];
    // turns and moves
    for _ in 0..g.below(5) {
        let k = g.pick(&[1.0f32, 0.1, 0.01, 0.3]);
        let turn = g.chance(0.5);
        let mut m = [g.sym(k), g.sym(k), g.sym(k)];
        for x in m.iter_mut() {
            if g.chance(0.3) {
                *x = 0.0;
            }
        }
        if !turn {
            m = m.map(|x| x * ext);
        }
        f.push(turn as i64 as f32);
        f.extend(m);
    }
    let mut ops = vec![];
    for _ in 0..g.int(1, 8) {
        if g.chance(0.5) {
            // pixels whose rays pass through a triangle, as long as the camera stays
            for _ in 0..4 {
                let t = g.pick(&tris);
                let q = interior(g, &t);
                let (x, y) = pixel_of(&f, w as f64 / h as f64, q);
                ops.push(vec![
                    ((x * w as f64).round() as i64).clamp(0, w - 1),
                    ((y * h as f64).round() as i64).clamp(0, h - 1),
                ]);
            }
        } else if g.chance(0.6) {
            // four neighbours in a row
            let (x, y) = (g.int(0, w - 1), g.int(0, h - 1));
            ops.extend((0..4).map(|i| vec![(x + i).min(w - 1), y]));
        } else {
            ops.extend((0..4).map(|_| vec![g.int(0, w - 1), g.int(0, h - 1)]));
        }
    }
    let wait = if idx % 3000 == 11 {
        1100
    } else if idx % 100 == 7 {
        g.int(1, 12)
    } else {
        -1
    };
    Case {
        tris,
        f,
        ops,
        u: vec![g.below(3) as i64, leaf_size(g), w, h, wait],
        ..Default::default()
    }
}

/// Where in the image, from 0 to 1, the camera sees the point.
fn pixel_of(f: &[f32], aspect: f64, q: [f32; 3]) -> (f64, f64) {
    let d = v(f[3], f[4], f[5]);
    let rel = sub(v(q[0], q[1], q[2]), v(f[0], f[1], f[2]));
    let side = cross(d, [0.0, 1.0, 0.0]);
    let level = [d[0], 0.0, d[2]];
    let depth = dot(rel, level) / dot(level, level);
    let a = dot(rel, side) / dot(side, side) / depth;
    let b = (rel[1] - depth * d[1]) / depth;
    let s = ((f[6] as f64).to_radians() / 2.0).tan();
    (0.5 + 0.5 * a / (s * aspect), 0.5 - 0.5 * b / s)
}

fn v3(a: Vec3) -> V {
    v(a.x, a.y, a.z)
}

fn close(what: &str, got: Vec3, want: V, tol: f64) -> Result<(), String> {
    let e = len(sub(v3(got), want));
    ensure!(e <= tol, "{}: {:?} instead of {:?} (off by {:.3e})", what, got, want, e);
    Ok(())
}

/// The view plane belongs to position and direction.
fn view(cam: &CameraView3D, what: &str) -> Result<(), String> {
    let (pos, dir) = (v3(cam.pos), v3(cam.direction));
    let right = cross(dir, [0.0, 1.0, 0.0]);
    let half = (cam.fov as f64).to_radians() / 2.0;
    let s = 2.0 * half.tan();
    let want_right = mul(right, s * cam.aspect_ratio as f64);
    let want_up = mul([0.0, 1.0, 0.0], -s);
    let big = len(pos) + 1.0 + len(want_right) + s;
    let tol = 2e-6 * big + 2e-5 * (len(want_right) + s);
    close(&format!("row of the view {}", what), cam.right, want_right, tol)?;
    close(&format!("column of the view {}", what), cam.up, want_up, tol)?;
    let mid = add(v3(cam.p1), mul(add(v3(cam.right), v3(cam.up)), 0.5));
    let e = len(sub(mid, add(pos, dir)));
    ensure!(e <= tol, "middle of the view {}: off by {:.3e}", what, e);
    ensure!((len(dir) - 1.0).abs() < 1e-5, "direction {}: length {}", what, len(dir));
    Ok(())
}

fn bits(r: &Ray) -> [f32; 8] {
    [r.origin.x, r.origin.y, r.origin.z, r.direction.x, r.direction.y, r.direction.z, r.t_min, r.t]
}

fn triangle(t: &[f32; 9], s: &Triangle) -> Result<(), String> {
    let p = verts(t);
    let got = [s.vertex0(), s.vertex1(), s.vertex2()];
    for k in 0..3 {
        ensure!(
            (0..3).all(|a| got[k][a] == t[3 * k + a]),
            "vertex {} is {:?} for {:?}",
            k,
            got[k],
            t
        );
    }
    let b = b6(&Primitive::<i32>::aabb(s));
    ensure!(b == tri_box(t), "box of the triangle: {:?} for {:?}", b, t);
    let m = t.iter().fold(0.0f64, |m, x| m.max(x.abs() as f64));
    let c = mul(add(add(p[0], p[1]), p[2]), 1.0 / 3.0);
    close("centre of the triangle", Primitive::<i32>::center(s), c, 1e-6 * m + 1e-30)?;
    let n = cross(sub(p[1], p[0]), sub(p[2], p[0]));
    // rounding of the differences decides the direction of slivers
    let e = [sub(p[1], p[0]), sub(p[2], p[0])];
    let el = len(e[0]).max(len(e[1]));
    let sane = len(n) > 1e-2 * el * el && el > 1e-3 * m && el > 1e-9;
    if sane {
        close("normal of the triangle", s.normal, mul(n, 1.0 / len(n)), 1e-3)?;
    }
    Ok(())
}

struct Shot {
    /// Distance of the nearest primitive that is clearly hit, as the library computes it
    sure: f32,
    /// Distance found by testing everything
    least: f32,
}

fn shot(tris: &[[f32; 9]], prims: &[Triangle], ray: &Ray) -> Result<Shot, String> {
    let mut all = *ray;
    let mut sure = f32::MAX;
    for (t, p) in tris.iter().zip(prims) {
        let mut one = *ray;
        let hit = p.intersect(&mut one);
        if hit {
            if let Some(x) = robust_hit(t, &bits(ray)) {
                if x > 1e-3 {
                    sure = sure.min(one.t);
                }
            }
        }
        p.intersect(&mut all);
    }
    Ok(Shot { sure, least: all.t })
}

fn timer(wait: i64) -> Result<(), String> {
    let mut low = Instant::now();
    let mut t = if wait % 2 == 0 { Timer::new() } else { Timer::default() };
    let mut high = Instant::now();
    for what in ["new", "reset"] {
        std::thread::sleep(std::time::Duration::from_millis(wait as u64));
        let least = high.elapsed().as_secs_f64() * 1e3;
        let (exact, ms) = (t.elapsed().as_secs_f64() * 1e3, t.elapsed_in_millis() as f64);
        let most = low.elapsed().as_secs_f64() * 1e3;
        let slack = 2e-3 + 1e-6 * most;
        for x in [exact, ms] {
            ensure!(
                x >= least - slack && x <= most + slack,
                "{} timer: {} ms when between {} and {} have passed",
                what,
                x,
                least,
                most
            );
        }
        low = Instant::now();
        t.reset();
        high = Instant::now();
    }
    Ok(())
}

fn c28(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    if !spec_ok_tris(c)
        || c.tris.is_empty()
        || c.u.len() < 5
        || c.f.len() < 7
        || (c.f.len() - 7) % 4 != 0
        || c.f.iter().any(|x| !(x.abs() <= 1e4))
        || !(0..3).contains(&c.u[0])
        || c.u[1] < 0
        || !(1..=8192).contains(&c.u[2])
        || !(1..=8192).contains(&c.u[3])
        || c.ops.iter().any(|o| o.len() != 2 || o.iter().any(|x| !(0..8192).contains(x)))
        || !(0.2..=160.0).contains(&c.f[6])
        || c.u[4] > 2000
        || max_coord(&c.tris) > 1e3
    {
        return Ok(());
    }
    let dir = v(c.f[3], c.f[4], c.f[5]);
    if (len(dir) - 1.0).abs() > 1e-4 || dir[1].abs() > POLE {
        return Ok(());
    }
    let prims: Vec<Triangle> = c
        .tris
        .iter()
        .map(|t| {
            // the fourth components mean nothing
            let h = t.iter().fold(7u32, |h, x| (h ^ x.to_bits()).wrapping_mul(0x9E37_79B1));
            let w = |k: u32| [1.0, 0.0, -2.5, 0.5, 1e9, 1.0, 0.0, -1.0][(h >> k) as usize & 7];
            Triangle::new(
                vec4(t[0], t[1], t[2], w(29)),
                vec4(t[3], t[4], t[5], w(26)),
                vec4(t[6], t[7], t[8], w(23)),
            )
        })
        .collect();
    for (t, s) in c.tris.iter().zip(&prims) {
        triangle(t, s)?;
    }
    if c.u[4] >= 0 {
        timer(c.u[4])?;
        ctx.hit("timer");
    }
    let (w, h) = (c.u[2] as f32, c.u[3] as f32);
    let mut cam = CameraView3D {
        pos: vec3(c.f[0], c.f[1], c.f[2]),
        direction: vec3(c.f[3], c.f[4], c.f[5]),
        inv_width: 1.0 / w,
        inv_height: 1.0 / h,
        aspect_ratio: w / h,
        fov: c.f[6],
        ..Default::default()
    };
    let start = cam.pos;
    cam.translate_target(Vec3::ZERO);
    ensure!(cam.pos == start, "turning moves the camera to {:?}", cam.pos);
    close("direction after turning by nothing", cam.direction, dir, 1e-5)?;
    view(&cam, "at first")?;
    for m in c.f[7..].chunks_exact(4) {
        let old = cam;
        let off = vec3(m[1], m[2], m[3]);
        if m[0] == 1.0 {
            let want = sub(
                sub(v3(old.direction), mul(v3(old.right), m[1] as f64)),
                mul(v3(old.up), m[2] as f64),
            );
            let l = len(want);
            if l < 0.1 || (want[1] / l).abs() > POLE {
                return Ok(());
            }
            cam.translate_target(off);
            ensure!(cam.pos == old.pos, "turning moves the camera to {:?}", cam.pos);
            let tol = 1e-5 * (1.0 + (len(v3(old.right)) + len(v3(old.up))) * off.abs().max_element() as f64) / l;
            close("direction after a turn", cam.direction, mul(want, 1.0 / l), tol)?;
            view(&cam, "after a turn")?;
            ctx.hit("turns");
        } else {
            let side = cross(v3(old.direction), [0.0, 1.0, 0.0]);
            let step = add(
                add(mul(side, -m[1] as f64), [0.0, m[2] as f64, 0.0]),
                mul(v3(old.direction), m[3] as f64),
            );
            let want = add(v3(old.pos), step);
            if len(want) > 1e3 {
                return Ok(());
            }
            cam.translate(off);
            close("position after a move", cam.pos, want, 1e-5 * len(step) + 1e-6 * (len(want) + len(v3(old.pos))))?;
            ensure!(cam.direction == old.direction, "moving turns the camera to {:?}", cam.direction);
            view(&cam, "after a move")?;
            ctx.hit("moves");
        }
        ensure!(
            cam.fov == old.fov
                && cam.aspect_ratio == old.aspect_ratio
                && cam.inv_width == old.inv_width
                && cam.inv_height == old.inv_height,
            "moving or turning changes the lens"
        );
    }

    // Rays
    let (pos, p1, right, up) = (v3(cam.pos), v3(cam.p1), v3(cam.right), v3(cam.up));
    let big = len(pos) + len(p1) + len(right) + len(up) + 1.0;
    let mut rays = vec![];
    for o in &c.ops {
        let r = cam.generate_ray(o[0] as u32, o[1] as u32);
        ensure!(r.origin == cam.pos, "ray of pixel {:?} starts at {:?}", o, r.origin);
        let (pu, pv) = (o[0] as f64 / w as f64, o[1] as f64 / h as f64);
        let d = sub(add(p1, add(mul(right, pu), mul(up, pv))), pos);
        let tol = (1e-6 * big + 1e-6 * len(right) * pu + 1e-6 * len(up) * pv) / len(d) + 1e-6;
        close(&format!("ray of pixel {:?}", o), r.direction, mul(d, 1.0 / len(d)), tol)?;
        ensure!(
            r == Ray::new(r.origin, r.direction),
            "ray of pixel {:?} is not a new ray: {:?}",
            o,
            r
        );
        rays.push((r, tol));
    }
    let mut packets = vec![];
    for (k, q) in c.ops.chunks_exact(4).enumerate() {
        let x = [0, 1, 2, 3].map(|i| q[i][0] as u32);
        let y = [0, 1, 2, 3].map(|i| q[i][1] as u32);
        let p = cam.generate_ray4(x, y);
        for i in 0..4 {
            let (r, tol) = &rays[4 * k + i];
            let o = vec3(p.origin_x[i], p.origin_y[i], p.origin_z[i]);
            let d = vec3(p.direction_x[i], p.direction_y[i], p.direction_z[i]);
            let inv = vec3(p.inv_direction_x[i], p.inv_direction_y[i], p.inv_direction_z[i]);
            ensure!(o == r.origin, "lane {} of a packet starts at {:?}, the ray at {:?}", i, o, r.origin);
            close(&format!("lane {} of a packet", i), d, v3(r.direction), *tol)?;
            for a in 0..3 {
                let want = 1.0 / d[a] as f64;
                ensure!(
                    inv[a] as f64 == want || (inv[a] as f64 - want).abs() <= 1e-6 * want.abs() || want.abs() > 3e38,
                    "lane {} of a packet: inverse of {} is {}",
                    i,
                    d[a],
                    inv[a]
                );
            }
            ensure!(p.t[i] == r.t, "lane {} of a packet reaches to {}", i, p.t[i]);
        }
        packets.push(p);
    }
    ctx.add("pixels", rays.len() as u64);

    // Images
    let leaf = c.u[1];
    let b = builder(&prims, None, leaf);
    let bvh = match c.u[0] {
        BINNED => b.construct_binned_sah(),
        LOCB => b.construct_locally_ordered_clustered(),
        _ => b.construct_spatial_sah(),
    }
    .map_err(|e| format!("build: {}", e))?;
    let mbvh = Mbvh::from(bvh.clone());
    let mut seen = 0;
    let judge = |what: &str, k: usize, got: f32, s: &Shot| -> Result<(), String> {
        ensure!(
            got <= s.sure * (1.0 + 1e-5) && got >= s.least,
            "pixel {:?} through the {} {}: distance {} where testing everything gives {} (clearly hit at {})",
            c.ops[k],
            bname(c.u[0]),
            what,
            got,
            s.least,
            s.sure
        );
        Ok(())
    };
    for (k, (r, _)) in rays.iter().enumerate() {
        let s = shot(&c.tris, &prims, r)?;
        if s.sure < f32::MAX {
            seen += 1;
        }
        let mut q = *r;
        for (t, ray) in IntoRayIterator::iter(&bvh, &mut q, &prims) {
            t.intersect(ray);
        }
        judge("BVH", k, q.t, &s)?;
        let mut q = *r;
        for (t, ray) in IntoRayIterator::iter(&mbvh, &mut q, &prims) {
            t.intersect(ray);
        }
        judge("MBVH", k, q.t, &s)?;
    }
    for (k, p) in packets.iter().enumerate() {
        let near = Vec4::splat(1e-4);
        // each lane on its own, with the packet test
        let mut all = *p;
        let mut sure = [f32::MAX; 4];
        for (t, s) in c.tris.iter().zip(&prims) {
            let mut one = *p;
            if let Some(h) = s.intersect4(&mut one, near) {
                for i in 0..4 {
                    let r = [
                        p.origin_x[i], p.origin_y[i], p.origin_z[i],
                        p.direction_x[i], p.direction_y[i], p.direction_z[i],
                        0.0, p.t[i],
                    ];
                    if h[i] && robust_hit(t, &r).map_or(false, |x| x > 1e-3) {
                        sure[i] = sure[i].min(one.t[i]);
                    }
                }
            }
            s.intersect4(&mut all, near);
        }
        for m in 0..2 {
            let mut q = *p;
            if m == 0 {
                for (t, packet) in IntoPacketIterator::iter(&bvh, &mut q, &prims) {
                    t.intersect4(packet, near);
                }
            } else {
                for (t, packet) in IntoPacketIterator::iter(&mbvh, &mut q, &prims) {
                    t.intersect4(packet, near);
                }
            }
            for i in 0..4 {
                judge(
                    ["BVH, in a packet", "MBVH, in a packet"][m],
                    4 * k + i,
                    q.t[i],
                    &Shot { sure: sure[i], least: all.t[i] },
                )?;
            }
        }
    }
    if c.tris.len() > 4000 {
        ctx.hit("more than 4000 triangles");
    }
    ctx.add("pixels that show a triangle", seen);
    if seen > 0 {
        ctx.nontrivial = true;
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C28",
        gen: gen_c28,
        check: c28,
        quick: 60000,
        thorough: 1200000,
        rule: "at least one of the chosen pixels shows a triangle that its ray clearly hits",
        assumptions: &[
            "the camera does not look straight up or down (its view plane is built from the vertical), fields of view up to 160 degrees",
            "a pixel's image is judged between testing everything and the nearest triangle that is clearly hit",
        ],
    }]
}
