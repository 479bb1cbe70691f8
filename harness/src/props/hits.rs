//! C01-C04, C11: no traversal loses a hit.
use super::Prop;
use crate::case::Case;
use crate::engine::Ctx;
use crate::ensure;
use crate::gen::G;
use crate::oracle::{plain_hit, robust_hit};
use crate::scene::*;
use crate::util::*;
use glam::*;
use rtbvh::*;

/// Either structure behind one face.
#[derive(Clone, Copy)]
pub enum S<'a> {
    B(&'a Bvh),
    M(&'a Mbvh),
}

impl<'a> S<'a> {
    pub fn name(&self) -> &'static str {
        match self {
            S::B(_) => "bvh",
            S::M(_) => "mbvh",
        }
    }

    /// Traverses with one ray; the callback sees the primitive's id and may change the ray.
    /// `entry` selects the way in: 0 primitives, 1 indices, 2 and 3 the same over slices.
    pub fn single(
        &self,
        entry: usize,
        prims: &[Tri],
        ray: &mut Ray,
        cb: &mut dyn FnMut(u32, &mut Ray),
    ) {
        macro_rules! prim_iter {
            ($it:expr) => {
                for (p, r) in $it {
                    cb(p.id, r);
                }
            };
        }
        macro_rules! id_iter {
            ($it:expr) => {
                for (i, r) in $it {
                    cb(i, r);
                }
            };
        }
        match (self, entry % ENTRIES) {
            (S::B(b), 0) => prim_iter!(b.traverse_iter(ray, prims)),
            (S::B(b), 1) => id_iter!(b.traverse_iter_indices(ray)),
            (S::B(b), 2) => {
                prim_iter!(BvhIterator::from_slices(ray, b.nodes(), b.indices(), prims))
            }
            (S::B(b), _) => id_iter!(BvhIndexIterator::from_slices(ray, b.nodes(), b.indices())),
            (S::M(b), 0) => prim_iter!(b.traverse_iter(ray, prims)),
            (S::M(b), 1) => id_iter!(b.traverse_iter_indices(ray)),
            (S::M(b), 2) => {
                prim_iter!(MbvhIterator::from_slices(ray, b.quad_nodes(), b.indices(), prims))
            }
            (S::M(b), _) => {
                id_iter!(MbvhIndexIterator::from_slices(ray, b.quad_nodes(), b.indices()))
            }
        }
    }

    pub fn packet(
        &self,
        entry: usize,
        prims: &[Tri],
        ray: &mut RayPacket4,
        cb: &mut dyn FnMut(u32, &mut RayPacket4),
    ) {
        macro_rules! prim_iter {
            ($it:expr) => {
                for (p, r) in $it {
                    cb(p.id, r);
                }
            };
        }
        macro_rules! id_iter {
            ($it:expr) => {
                for (i, r) in $it {
                    cb(i, r);
                }
            };
        }
        match (self, entry % ENTRIES) {
            (S::B(b), 0) => prim_iter!(b.traverse_iter_packet(ray, prims)),
            (S::B(b), 1) => id_iter!(b.traverse_iter_indices_packet(ray)),
            (S::B(b), 2) => {
                prim_iter!(BvhPacketIterator::from_slices(ray, b.nodes(), b.indices(), prims))
            }
            (S::B(b), _) => {
                id_iter!(BvhPacketIndexIterator::from_slices(ray, b.nodes(), b.indices()))
            }
            (S::M(b), 0) => prim_iter!(b.traverse_iter_packet(ray, prims)),
            (S::M(b), 1) => id_iter!(b.traverse_iter_indices_packet(ray)),
            (S::M(b), 2) => prim_iter!(MbvhPacketIterator::from_slices(
                ray,
                b.quad_nodes(),
                b.indices(),
                prims
            )),
            (S::M(b), _) => {
                id_iter!(MbvhPacketIndexIterator::from_slices(ray, b.quad_nodes(), b.indices()))
            }
        }
    }
}

/// Ways into a traversal; their order of use is derived from the query.
pub const ENTRIES: usize = 4;
const ENTRY: [&str; ENTRIES] = ["primitives", "indices", "slices", "index slices"];

pub fn entry_of(r: &[f32; 8]) -> usize {
    let h = r.iter().fold(0u32, |h, x| (h ^ x.to_bits()).wrapping_mul(0x9E37_79B1));
    (h >> 27) as usize
}

pub const EPS: f64 = 1e-5;

fn in_range(t: f64, tmin: f32, tmax: f32) -> bool {
    let (a, b) = (tmin as f64, tmax as f64);
    t > a + a.abs() * EPS + 1e-12 && t < b - b.abs() * EPS
}

/// All the checks of one ray against one structure; returns the number of robust hits.
pub fn single_hits(s: S, prims: &[Tri], tris: &[[f32; 9]], r: &[f32; 8]) -> Result<usize, String> {
    let hits: Vec<(usize, f64)> = tris
        .iter()
        .enumerate()
        .filter_map(|(i, t)| robust_hit(t, r).map(|x| (i, x)))
        .filter(|(_, t)| in_range(*t, r[6], r[7]))
        .collect();
    // Without changing the ray: every hit is offered
    let e0 = entry_of(r);
    for e in 0..ENTRIES {
        let mut offered = vec![false; tris.len()];
        let mut ray = ray_of(r);
        s.single(e, prims, &mut ray, &mut |id, _| offered[id as usize] = true);
        for (i, t) in &hits {
            ensure!(
                offered[*i],
                "lost hit: {} ({}) does not offer triangle {} hit at t={} by ray {:?}",
                s.name(),
                ENTRY[e],
                i,
                t,
                r
            );
        }
    }
    if hits.is_empty() {
        return Ok(0);
    }
    let near = hits.iter().map(|h| h.1).fold(f64::MAX, f64::min);
    // Shortening the ray with an exact test
    let mut ray = ray_of(r);
    s.single(e0, prims, &mut ray, &mut |id, ray| {
        if let Some(t) = plain_hit(&tris[id as usize], r) {
            let t = t as f32;
            if t > r[6] && t < ray.t {
                ray.t = t;
            }
        }
    });
    ensure!(
        ray.t as f64 <= near + near.abs() * EPS,
        "not nearest: {} ends at t={}, an exhaustive test at {} for ray {:?}",
        s.name(),
        ray.t,
        near,
        r
    );
    // Shortening the ray with the library's own test
    let mut ray = ray_of(r);
    s.single(e0 / 4, prims, &mut ray, &mut |id, ray| {
        prims[id as usize].intersect(ray);
    });
    let mut brute = ray_of(r);
    let mut best = usize::MAX;
    for (i, p) in prims.iter().enumerate() {
        if p.intersect(&mut brute) {
            best = i;
        }
    }
    if best != usize::MAX && hits.iter().any(|h| h.0 == best) {
        ensure!(
            ray.t as f64 <= brute.t as f64 + (brute.t as f64).abs() * EPS,
            "not nearest: {} ends at t={}, testing all primitives at {} (triangle {}) for ray {:?}",
            s.name(),
            ray.t,
            brute.t,
            best,
            r
        );
    }
    Ok(hits.len())
}

pub fn packet_hits(
    s: S,
    prims: &[Tri],
    tris: &[[f32; 9]],
    rs: &[[f32; 8]],
) -> Result<usize, String> {
    let mut hits: Vec<Vec<(usize, f64)>> = vec![];
    for r in rs {
        hits.push(
            tris.iter()
                .enumerate()
                .filter_map(|(i, t)| robust_hit(t, r).map(|x| (i, x)))
                .filter(|(_, t)| in_range(*t, 0.0, r[7]))
                .collect(),
        );
    }
    let total: usize = hits.iter().map(|h| h.len()).sum();
    let e0 = entry_of(&rs[0]);
    for e in 0..ENTRIES {
        let mut offered = vec![false; tris.len()];
        let mut ray = packet_of(rs);
        s.packet(e, prims, &mut ray, &mut |id, _| offered[id as usize] = true);
        for (l, h) in hits.iter().enumerate() {
            for (i, t) in h {
                ensure!(
                    offered[*i],
                    "lost hit: {} packet ({}) does not offer triangle {} hit by lane {} at t={}",
                    s.name(),
                    ENTRY[e],
                    i,
                    l,
                    t
                );
            }
        }
    }
    if total == 0 {
        return Ok(0);
    }
    let mut ray = packet_of(rs);
    s.packet(e0, prims, &mut ray, &mut |id, p| {
        for l in 0..4 {
            if let Some(t) = plain_hit(&tris[id as usize], &rs[l]) {
                let t = t as f32;
                if t > 0.0 && t < p.t[l] {
                    p.t[l] = t;
                }
            }
        }
    });
    for l in 0..4 {
        let near = hits[l].iter().map(|h| h.1).fold(f64::MAX, f64::min);
        if near < f64::MAX {
            ensure!(
                ray.t[l] as f64 <= near * (1.0 + EPS),
                "not nearest: lane {} of a {} packet ends at t={}, an exhaustive test at {}",
                l,
                s.name(),
                ray.t[l],
                near
            );
        }
    }
    let tm = Vec4::splat(1e-4);
    let mut ray = packet_of(rs);
    s.packet(e0 / 4, prims, &mut ray, &mut |id, p| {
        prims[id as usize].intersect4(p, tm);
    });
    let mut brute = packet_of(rs);
    let mut best = [usize::MAX; 4];
    for (i, p) in prims.iter().enumerate() {
        if let Some(m) = p.intersect4(&mut brute, tm) {
            for l in 0..4 {
                if m[l] {
                    best[l] = i;
                }
            }
        }
    }
    for l in 0..4 {
        if best[l] != usize::MAX && hits[l].iter().any(|h| h.0 == best[l]) {
            ensure!(
                ray.t[l] as f64 <= brute.t[l] as f64 * (1.0 + EPS),
                "not nearest: lane {} of a {} packet ends at t={}, testing all primitives at {}",
                l,
                s.name(),
                ray.t[l],
                brute.t[l]
            );
        }
    }
    Ok(total)
}

/// u: builder, leaf size, centre mode, conversion route, scene family
fn gen_scene_case(g: &mut G, i: u64, packets: bool) -> Case {
    // now and then a tree with more nodes than sixteen bits count
    let many = i % 12_000 == 77;
    let b = g.below(3) as i64;
    let limit = if b == SPATIAL { 100.0 } else { 1.0e5 };
    let (tris, fam) = if many {
        let (fam, n) = (g.below(FAMILIES), g.int(35_000, 80_000) as usize);
        (scene(g, fam, n, limit), fam)
    } else {
        any_scene(g, limit)
    };
    let boxes = boxes_for(g, &tris);
    let leaf = if many { g.int(1, 2) } else { leaf_size(g) };
    let rg = RayGen::new(&tris);
    let n = tris.len();
    let k = if many {
        48
    } else if n > 900 {
        8
    } else {
        24
    };
    let mut rays = vec![];
    if packets {
        for _ in 0..k / 2 {
            rays.extend(rg.packet(g, &tris));
        }
    } else {
        for _ in 0..k {
            rays.push(rg.aimed(g, &tris));
        }
    }
    let mode = g.below(2) as i64;
    let route = g.below(3) as i64;
    Case {
        tris,
        boxes,
        rays,
        group: if packets { 4 } else { 1 },
        u: vec![b, leaf, mode, route, fam as i64],
        ..Default::default()
    }
}

fn gen_single(g: &mut G, i: u64) -> Case {
    gen_scene_case(g, i, false)
}
fn gen_packet(g: &mut G, i: u64) -> Case {
    gen_scene_case(g, i, true)
}

pub fn convert(bvh: &Bvh, route: i64) -> Mbvh {
    match route {
        0 => Mbvh::construct(bvh),
        1 => Mbvh::from(bvh.clone()),
        _ => {
            if bvh.nodes().is_empty() {
                Mbvh::construct(bvh)
            } else {
                Mbvh::construct_from_raw(bvh.nodes(), bvh.indices())
            }
        }
    }
}

fn check_hits(c: &Case, ctx: &mut Ctx, mbvh: bool, packets: bool) -> Result<(), String> {
    if !spec_ok_tris(c) || c.u.len() < 4 {
        return Ok(());
    }
    let prims = tris_of(c, c.u[2] as u8);
    let aabbs = supplied(c);
    let bvh = build_tris(&prims, aabbs.as_deref(), c.u[0], c.u[1])
        .map_err(|e| format!("build: {}", e))?;
    ctx.hit(bname(c.u[0]));
    if !c.boxes.is_empty() {
        ctx.hit("boxes supplied");
    }
    if prims.len() >= 1000 {
        ctx.hit("1000 or more primitives");
    }
    ctx.add("trees of more than 65536 nodes", (bvh.nodes().len() > 65536) as u64);
    let m;
    let s = if mbvh {
        m = convert(&bvh, c.u[3]);
        S::M(&m)
    } else {
        S::B(&bvh)
    };
    let mut total = 0;
    if packets {
        for rs in c.rays.chunks_exact(4) {
            let h = packet_hits(s, &prims, &c.tris, rs)?;
            ctx.hit("packets");
            ctx.add("packets with hits", (h > 0) as u64);
            total += h;
        }
    } else {
        for r in &c.rays {
            let h = single_hits(s, &prims, &c.tris, r)?;
            ctx.hit("rays");
            ctx.add("rays with hits", (h > 0) as u64);
            total += h;
        }
    }
    ctx.add("hits checked", total as u64);
    ctx.nontrivial = total > 0 && bvh.nodes().len() > 1;
    Ok(())
}

fn c01(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    check_hits(c, ctx, false, false)
}
fn c02(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    check_hits(c, ctx, true, false)
}
fn c03(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    check_hits(c, ctx, false, true)
}
fn c04(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    check_hits(c, ctx, true, true)
}

// ---------------------------------------------------------------------------------------
// C11

fn gen_refit(g: &mut G, _: u64) -> Case {
    let b = g.below(3) as i64;
    let (tris, fam) = if g.chance(0.05) {
        any_scene(g, 100.0)
    } else {
        small_scene(g, 100.0)
    };
    let n = tris.len();
    let k = g.int(1, 3);
    let mut frames: Vec<Vec<[f32; 9]>> = vec![];
    for _ in 0..k {
        let prev = frames.last().unwrap_or(&tris).clone();
        let mut f = prev.clone();
        let size = RayGen::new(&prev).size;
        match g.below(5) {
            0 => {
                let o = [g.sym(size), g.sym(size), g.sym(size)];
                for t in f.iter_mut() {
                    for (i, x) in t.iter_mut().enumerate() {
                        *x += o[i % 3];
                    }
                }
            }
            1 => {
                for t in f.iter_mut() {
                    let o = [g.sym(size), g.sym(size), g.sym(size)];
                    for (i, x) in t.iter_mut().enumerate() {
                        *x += o[i % 3];
                    }
                }
            }
            2 => {
                let s = g.pick(&[0.5f32, 2.0, -1.0, 0.0]);
                for t in f.iter_mut() {
                    for x in t.iter_mut() {
                        *x *= s;
                    }
                }
            }
            3 => {
                // only a few move
                for _ in 0..g.int(1, 3) {
                    let i = g.below(n);
                    let o = [g.sym(3.0 * size), g.sym(size), g.sym(size)];
                    for (a, x) in f[i].iter_mut().enumerate() {
                        *x += o[a % 3];
                    }
                }
            }
            _ => g.shuffle(&mut f),
        }
        while max_coord(&f) > 100.0 {
            for t in f.iter_mut() {
                for x in t.iter_mut() {
                    *x *= 0.5;
                }
            }
        }
        frames.push(f);
    }
    let last = frames.last().unwrap().clone();
    let rg = RayGen::new(&last);
    let mut rays = vec![];
    for _ in 0..6 {
        rays.extend(rg.packet(g, &last));
    }
    let leaf = leaf_size(g);
    let route = g.below(3) as i64;
    let boxes = g.below(2) as i64;
    // now and then a structure that has been refitted many times already
    let before = if n <= 200 && g.chance(0.03) {
        g.pick(&[9i64, 33, 130, 260, 600])
    } else {
        0
    };
    Case {
        tris,
        frames,
        rays,
        group: 4,
        u: vec![b, leaf, boxes, route, fam as i64, before],
        ..Default::default()
    }
}

fn c11(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    if !spec_ok_tris(c) || c.u.len() < 4 || c.frames.iter().any(|f| f.len() != c.tris.len()) {
        return Ok(());
    }
    let prims = tris_of(c, 0);
    let mut bvh =
        build_tris(&prims, None, c.u[0], c.u[1]).map_err(|e| format!("build: {}", e))?;
    ctx.hit(bname(c.u[0]));
    let t0 = Tree::of(&bvh)?;
    let shape = |t: &Tree| -> Vec<(usize, usize, Option<(usize, usize)>, usize)> {
        t.nodes
            .iter()
            .map(|n| (n.id, n.left, n.leaf, n.parent))
            .collect()
    };
    let s0 = shape(&t0);
    let heights = t0.heights();
    let indices = bvh.indices().to_vec();
    let bt = bvh.build_type();
    let before = c.u.get(5).copied().unwrap_or(0).clamp(0, 5000) as usize;
    if before > 0 {
        let all: Vec<&Vec<[f32; 9]>> = c.frames.iter().chain(std::iter::once(&c.tris)).collect();
        for k in 0..before {
            let b: Vec<Aabb> = all[k % all.len()].iter().map(|t| bb(&tri_box(t))).collect();
            bvh.refit(&b);
        }
        ctx.hit("refitted many times before");
    }
    for (k, f) in c.frames.iter().enumerate() {
        let new: Vec<Aabb> = f
            .iter()
            .map(|t| {
                let mut b = bb(&tri_box(t));
                if c.u[2] == 1 {
                    // the caller's boxes may carry anything in their extra fields
                    b.extra1 = 3;
                    b.extra2 = 77;
                }
                b
            })
            .collect();
        bvh.refit(&new);
        let t = Tree::of(&bvh).map_err(|e| format!("structure: after refit {}: {}", k, e))?;
        ensure!(shape(&t) == s0, "structure: refit {} changed the tree", k);
        ensure!(
            bvh.indices() == &indices[..] && bvh.build_type() == bt,
            "structure: refit {} changed the index list or the build type",
            k
        );
        let u = t.unions(&|i| tri_box(&f[i]));
        for (i, n) in t.nodes.iter().enumerate() {
            ensure!(
                inside6(&u[i], &n.b),
                "box: after refit {} node {} has box {:?} but covers {:?}",
                k,
                n.id,
                n.b,
                u[i]
            );
            for a in 0..3 {
                let tol = 2.5e-4 * (heights[i] + 1) as f32
                    + 1e-6 * u[i][a].abs().max(u[i][a + 3].abs());
                ensure!(
                    u[i][a] - n.b[a] <= tol && n.b[a + 3] - u[i][a + 3] <= tol,
                    "box: after refit {} node {} has box {:?}, much more than {:?}",
                    k,
                    n.id,
                    n.b,
                    u[i]
                );
            }
        }
    }
    // Queries on the moved geometry
    let last = match c.frames.last() {
        Some(f) => f,
        None => return Ok(()),
    };
    let moved: Vec<Tri> = last
        .iter()
        .enumerate()
        .map(|(i, t)| Tri::new(i, t, 0))
        .collect();
    let m = convert(&bvh, c.u[3]);
    let mut h = 0;
    for rs in c.rays.chunks_exact(4) {
        for s in [S::B(&bvh), S::M(&m)] {
            h += packet_hits(s, &moved, last, rs)?;
            for r in rs {
                h += single_hits(s, &moved, last, r)?;
            }
        }
    }
    ctx.add("hits checked on moved geometry", h as u64);
    ctx.add("refits", c.frames.len() as u64);
    ctx.nontrivial = bvh.nodes().len() > 1 && !c.frames.is_empty() && h > 0;
    Ok(())
}

const HIT_RULE: &str = "the tree has more than one node and at least one ray of the case really hits at least one triangle (f64 oracle, clear of every edge) within its distance limits";
const HIT_ASSUME: &[&str] = &[
    "a hit counts when the f64 crossing is clear of the triangle's edges and of the distance limits by more than f32 rounding (2e-5 relative)",
    "coordinates up to 1e5 (SAH, clustering) and 100 (spatial splits)",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            gen: gen_single,
            check: c01,
            quick: 144000,
            thorough: 6000000,
            rule: HIT_RULE,
            assumptions: HIT_ASSUME,
        },
        Prop {
            id: "C02",
            gen: gen_single,
            check: c02,
            quick: 288000,
            thorough: 6000000,
            rule: HIT_RULE,
            assumptions: HIT_ASSUME,
        },
        Prop {
            id: "C03",
            gen: gen_packet,
            check: c03,
            quick: 268800,
            thorough: 5000000,
            rule: HIT_RULE,
            assumptions: HIT_ASSUME,
        },
        Prop {
            id: "C04",
            gen: gen_packet,
            check: c04,
            quick: 288000,
            thorough: 5000000,
            rule: HIT_RULE,
            assumptions: HIT_ASSUME,
        },
        Prop {
            id: "C11",
            gen: gen_refit,
            check: c11,
            quick: 260000,
            thorough: 7000000,
            rule: "the tree has more than one node, was refitted at least once, and at least one ray really hits the moved geometry",
            assumptions: HIT_ASSUME,
        },
    ]
}
