//! C27: the trees accelerate.
use super::Prop;
use crate::case::Case;
use crate::engine::Ctx;
use crate::ensure;
use crate::gen::G;
use crate::util::*;
use glam::*;
use rtbvh::*;

const FAMILIES: usize = 12;
const NAMES: [&str; FAMILIES] = [
    "scattered",
    "elongated",
    "height field",
    "clusters",
    "shell",
    "sizes over two magnitudes",
    "hair",
    "two distant groups",
    "on a line",
    "large",
    "long hair",
    "floors and walls",
];

/// n small triangles spread over a scene of the given extent.
fn spread(g: &mut G, fam: usize, n: usize, extent: f32) -> Vec<[f32; 9]> {
    let mut out = vec![];
    let size = extent * g.logu(0.2, 1.0) * 0.5 / (n as f32).cbrt();
    let axes = {
        let mut a = [0usize, 1, 2];
        g.shuffle(&mut a);
        a
    };
    let tri = |g: &mut G, c: [f32; 3], s: f32| -> [f32; 9] {
        let mut t = [0.0; 9];
        for v in 0..3 {
            for a in 0..3 {
                t[3 * v + a] = c[a] + g.sym(s);
            }
        }
        t
    };
    let centres: Vec<[f32; 3]> = (0..g.int(4, 30)).map(|_| [g.sym(extent), g.sym(extent), g.sym(extent)]).collect();
    let side = (n as f32).sqrt().ceil() as usize;
    let thin = g.logu(0.02, 0.2);
    for k in 0..n {
        let any = |g: &mut G| [g.sym(extent), g.sym(extent), g.sym(extent)];
        let t = match fam {
            1 => {
                let mut c = any(g);
                c[axes[1]] *= thin;
                c[axes[2]] *= thin;
                tri(g, c, size * thin)
            }
            2 => {
                // two triangles per cell of a grid
                let cell = 2.0 * extent / side as f32;
                let (i, j) = ((k / 2) % side, (k / 2) / side);
                let at = |i: usize, j: usize| -> [f32; 3] {
                    let (x, y) = (i as f32 * cell - extent, j as f32 * cell - extent);
                    let z = extent * thin * ((x * 3.0 / extent).sin() + (y * 5.0 / extent).cos());
                    let mut p = [0.0; 3];
                    p[axes[0]] = x;
                    p[axes[1]] = y;
                    p[axes[2]] = z;
                    p
                };
                let (a, b, c) = if k % 2 == 0 {
                    (at(i, j), at(i + 1, j), at(i, j + 1))
                } else {
                    (at(i + 1, j + 1), at(i + 1, j), at(i, j + 1))
                };
                [a[0], a[1], a[2], b[0], b[1], b[2], c[0], c[1], c[2]]
            }
            3 => {
                let m = g.pick(&centres);
                let r = extent * 0.1;
                let c = [m[0] + g.sym(r), m[1] + g.sym(r), m[2] + g.sym(r)];
                tri(g, c, size * 0.2)
            }
            4 => {
                let d = g.dir();
                tri(g, [d[0] * extent, d[1] * extent, d[2] * extent], size * 0.6)
            }
            5 => {
                let c = any(g);
                let s = size * g.logu(0.03, 1.5);
                tri(g, c, s)
            }
            6 => {
                let c = any(g);
                let d = g.dir();
                let mut t = tri(g, c, size * 0.1);
                for a in 0..3 {
                    t[6 + a] += d[a] * size * 3.0;
                }
                t
            }
            7 => {
                let mut c = any(g);
                let far = k % 5 != 0;
                for x in c.iter_mut() {
                    *x *= if far { 0.05 } else { 0.2 };
                }
                c[axes[0]] += if far { 0.8 * extent } else { -0.7 * extent };
                tri(g, c, size * if far { 0.05 } else { 0.3 })
            }
            8 => {
                let u = g.sym(extent);
                let mut c = [g.sym(size * 0.1), g.sym(size * 0.1), g.sym(size * 0.1)];
                c[axes[0]] += u;
                c[axes[1]] += u * thin;
                tri(g, c, extent / n as f32)
            }
            9 => {
                let c = any(g);
                tri(g, c, extent * thin * 2.0)
            }
            10 => {
                let c = any(g);
                let d = g.dir();
                let mut t = tri(g, c, size * 0.02);
                for a in 0..3 {
                    t[6 + a] += d[a] * extent * 0.7;
                }
                t
            }
            11 => {
                // a few big ones among many small ones
                let c = any(g);
                if k % 50 == 0 {
                    let mut t = tri(g, c, extent * 0.5);
                    let a = g.below(3);
                    for v in 1..3 {
                        t[3 * v + a] = t[a];
                    }
                    t
                } else {
                    tri(g, c, size * 0.3)
                }
            }
            _ => {
                let c = any(g);
                tri(g, c, size)
            }
        };
        out.push(t);
    }
    if g.chance(0.6) {
        g.shuffle(&mut out);
    }
    out
}

/// What the bounds were set for is a whole scene of its family, not a part of one.
fn mark(tris: &[[f32; 9]]) -> i64 {
    let mut h = tris.len() as u64;
    for x in tris.iter().flatten() {
        h = (h ^ x.to_bits() as u64).wrapping_mul(0x100000001B3);
    }
    (h >> 33) as i64
}

/// u: builder, leaf size, boxes supplied, family, mark of the scene
fn gen_c27(g: &mut G, idx: u64) -> Case {
    let mut fam = g.below(FAMILIES);
    let b = g.below(3) as i64;
    let big = idx % 1500 == 7;
    if big && b == LOCB && (fam == 1 || fam == 8) {
        fam = 0;
    }
    let n = if big { 100 } else { g.below(20) };
    let n = match n {
        100 => g.logu(40_000.0, 160_000.0) as i64,
        0 => g.logu(4000.0, 25000.0) as i64,
        1..=4 => g.int(1500, 4000),
        _ => g.int(200, 1500),
    } as usize;
    let extent = g.logu(10.0, if b == SPATIAL { 60.0 } else { 5000.0 });
    let mut tris = spread(g, fam, n, extent);
    // away from the origin, now and then
    let far = extent.min(if b == SPATIAL { 30.0 } else { 5000.0 });
    let o = [g.sym(far), g.sym(far), g.sym(far)];
    if g.chance(0.5) {
        for t in tris.iter_mut() {
            for (i, x) in t.iter_mut().enumerate() {
                *x += o[i % 3];
            }
        }
    }
    let leaf = g.pick(&[1i64, 1, 1, 2, 3, 4, 8]);
    let whole = mark(&tris);
    Case {
        tris,
        u: vec![b, leaf, g.below(2) as i64, fam as i64, whole],
        ..Default::default()
    }
}

fn area(b: &Box6) -> f64 {
    let d: Vec<f64> = (0..3).map(|a| (b[a + 3] as f64 - b[a] as f64).max(0.0)).collect();
    d[0] * d[1] + d[1] * d[2] + d[2] * d[0]
}

/// Expected work of a ray through the scene: inner nodes visited and primitives tested.
fn cost(t: &Tree) -> f64 {
    let c: f64 = t
        .nodes
        .iter()
        .map(|n| area(&n.b) * n.leaf.map_or(1.0, |l| l.1 as f64))
        .sum();
    c / area(&t.nodes[0].b)
}

/// How much more than the greedy build a tree may cost.
fn factor(builder: i64, fam: usize, n: usize) -> f64 {
    match (builder, fam) {
        (SPATIAL, _) => 1.03,
        // bins are coarse for clusters and aligned grids
        (BINNED, 2) | (BINNED, 3) => 1.35,
        (BINNED, _) if n > 26_000 => 1.2,
        (BINNED, _) => 1.12,
        // a cubic grid says little about the order along a thin scene
        (_, 1) => 2.1,
        (_, 8) => 3.0,
        _ => 1.4,
    }
}

/// The plain greedy surface-area build, every position on every axis.
#[allow(clippy::too_many_arguments)]
fn reference(boxes: &[Box6], centres: &[[f32; 3]], ids: &mut [u32], leaf: usize, inner: &mut f64, leaves: &mut f64, depth: usize, deepest: &mut usize) {
    let pad = |b: &Box6| {
        let mut b = *b;
        for a in 0..3 {
            b[a] -= 2e-4;
            b[a + 3] += 2e-4;
        }
        area(&b)
    };
    *deepest = (*deepest).max(depth);
    let n = ids.len();
    let whole = ids.iter().fold(EMPTY6, |b, i| union6(&b, &boxes[*i as usize]));
    if n == 1 {
        *leaves += pad(&whole);
        return;
    }
    let mut best = (f64::MAX, 0, 0);
    let mut right = vec![0.0; n + 1];
    for axis in 0..3 {
        ids.sort_by(|a, b| centres[*a as usize][axis].total_cmp(&centres[*b as usize][axis]));
        let mut b = EMPTY6;
        for k in (1..n).rev() {
            b = union6(&b, &boxes[ids[k] as usize]);
            right[k] = pad(&b) * (n - k) as f64;
        }
        let mut b = EMPTY6;
        for k in 1..n {
            b = union6(&b, &boxes[ids[k - 1] as usize]);
            let c = pad(&b) * k as f64 + right[k];
            if c < best.0 {
                best = (c, axis, k);
            }
        }
    }
    if n <= leaf && best.0 >= pad(&whole) * (n as f64 - 1.0) {
        *leaves += pad(&whole) * n as f64;
        return;
    }
    *inner += pad(&whole);
    let axis = best.1;
    ids.sort_by(|a, b| centres[*a as usize][axis].total_cmp(&centres[*b as usize][axis]));
    let (l, r) = ids.split_at_mut(best.2);
    reference(boxes, centres, l, leaf, inner, leaves, depth + 1, deepest);
    reference(boxes, centres, r, leaf, inner, leaves, depth + 1, deepest);
}

fn c27(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let n = c.tris.len();
    if !spec_ok_tris(c) || n < 200 || c.u.len() < 5 || !(0..3).contains(&c.u[0]) || !(0..FAMILIES as i64).contains(&c.u[3]) {
        return Ok(());
    }
    if mark(&c.tris) != c.u[4] {
        return Ok(());
    }
    let prims = tris_of(c, 0);
    let boxes: Vec<Box6> = c.tris.iter().map(tri_box).collect();
    let sup: Vec<Aabb> = boxes.iter().map(bb).collect();
    let bvh = build_tris(&prims, if c.u[2] == 1 { Some(&sup) } else { None }, c.u[0], c.u[1])
        .map_err(|e| format!("build: {}", e))?;
    let t = Tree::of(&bvh)?;
    let centres: Vec<[f32; 3]> = prims.iter().map(|p| p.center().into()).collect();
    let leaf = if c.u[0] == LOCB { 1 } else { c.u[1].max(1) as usize };
    let mut ids: Vec<u32> = (0..n as u32).collect();
    let (mut inner, mut leaves, mut deepest) = (0.0, 0.0, 0);
    reference(&boxes, &centres, &mut ids, leaf, &mut inner, &mut leaves, 0, &mut deepest);
    let whole = area(&t.nodes[0].b);
    let want = (inner + leaves) / whole;
    let got = cost(&t);
    // The four-wide structure: quads visited
    let m = Mbvh::from(bvh.clone());
    let quads = walk_quads(m.quad_nodes())?;
    let quad_inner: f64 = 1.0 + quads.iter().filter(|s| s.leaf.is_none()).map(|s| area(&s.b)).sum::<f64>() / whole;
    let quad_depth = quads.iter().map(|s| s.depth).max().unwrap_or(0);
    let bin_inner: f64 = t.nodes.iter().filter(|n| n.leaf.is_none()).map(|n| area(&n.b)).sum::<f64>() / whole;
    let (b, fam) = (c.u[0], c.u[3] as usize);
    ensure!(
        got <= want * factor(b, fam, n),
        "cost: the {} tree of {} primitives ({}) costs {:.3}, the plain greedy one {:.3}",
        bname(b),
        n,
        NAMES[fam],
        got,
        want
    );
    let log = (n as f64).log2();
    ensure!(
        t.max_depth() as f64 <= 2.0 * log + 2.0,
        "depth: the {} tree of {} primitives ({}) is {} levels deep, the plain greedy one {}",
        bname(b),
        n,
        NAMES[fam],
        t.max_depth(),
        deepest
    );
    ensure!(
        2 * quad_depth <= t.max_depth() + 1,
        "quad depth: {} levels of quads for {} levels of nodes",
        quad_depth,
        t.max_depth()
    );
    ensure!(
        quad_inner <= 0.85 * bin_inner,
        "quad cost: {:.3} expected quads for {:.3} expected inner nodes",
        quad_inner,
        bin_inner
    );
    ctx.hit(bname(b));
    ctx.hit(NAMES[fam]);
    if n > 26_000 {
        ctx.hit("more than 26000 primitives");
    }
    if got > 1.03 * want {
        ctx.hit("costs at least 3 % more than the greedy build");
    }
    ctx.nontrivial = true;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        gen: gen_c27,
        check: c27,
        quick: 16000,
        thorough: 500000,
        rule: "the scene has at least 200 primitives, so that the tree has hundreds of nodes",
        assumptions: &[
            "efficiency is the surface-area cost: inner nodes by area plus leaves by area times primitives, over the root's area",
            "scenes of 200 to 160000 triangles in twelve families, extents 10 to 5000 (spatial splits 60)",
        ],
    }]
}
