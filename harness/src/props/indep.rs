//! C25: the exported form of nodes.  C26: structures and traversals do not interfere.
use super::hits::{convert, S};
use super::Prop;
use crate::case::Case;
use crate::engine::Ctx;
use crate::ensure;
use crate::gen::G;
use crate::scene::*;
use crate::util::*;
use glam::*;
use rtbvh::*;
use std::sync::Barrier;

// ---------------------------------------------------------------------------------------
// C25: u = builder, leaf, route, refits, seed of the hand-made nodes

fn gen_c25(g: &mut G, _: u64) -> Case {
    let b = g.below(3) as i64;
    let (tris, _) = small_scene(g, 100.0);
    let rg = RayGen::new(&tris);
    let rays = (0..4).map(|_| rg.aimed(g, &tris)).collect();
    // values for the setters: [count or -1, first or -1, slot]
    let k = g.int(1, 12);
    let val = |g: &mut G| match g.below(6) {
        0 => -1,
        1 => 0,
        2 => i32::MAX as i64 - g.int(0, 3),
        3 => g.int(0, 40),
        4 => 1i64 << g.int(0, 30),
        _ => g.int(0, i32::MAX as i64),
    };
    let ops = (0..k)
        .map(|_| vec![val(g), val(g), g.below(4) as i64])
        .collect();
    let f = (0..6 * k as usize)
        .map(|_| match g.below(5) {
            0 => g.pick(&[0.0, -0.0, 1e34, -1e34, f32::INFINITY, f32::NEG_INFINITY]),
            1 => f32::from_bits(g.u64() as u32 & 0xff7f_ffff),
            _ => g.sym(100.0),
        })
        .collect();
    Case {
        tris,
        rays,
        group: 4,
        f,
        u: vec![
            b,
            leaf_size(g),
            g.below(3) as i64,
            g.below(3) as i64,
        ],
        ops,
        ..Default::default()
    }
}

fn words<T>(v: &[T]) -> &[u32] {
    let n = std::mem::size_of_val(v) / 4;
    unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u32, n) }
}

/// The documented layout of a binary node: min, count, max, left_first.
fn node_words(bx: &Box6, count: i32, first: i32) -> [u32; 8] {
    [
        bx[0].to_bits(),
        bx[1].to_bits(),
        bx[2].to_bits(),
        count as u32,
        bx[3].to_bits(),
        bx[4].to_bits(),
        bx[5].to_bits(),
        first as u32,
    ]
}

fn opt(x: i64) -> Option<u32> {
    if x < 0 {
        None
    } else {
        Some(x.min(i32::MAX as i64) as u32)
    }
}

fn node_agrees(n: &BvhNode, w: &[u32]) -> Result<(), String> {
    let f = |i: usize| f32::from_bits(w[i]);
    let bits = |v: Vec3| [v.x.to_bits(), v.y.to_bits(), v.z.to_bits()];
    ensure!(
        bits(n.bounds.min) == [w[0], w[1], w[2]] && bits(n.bounds.max) == [w[4], w[5], w[6]],
        "layout: box {:?} but the node's words say ({}, {}, {}) to ({}, {}, {})",
        n.bounds,
        f(0),
        f(1),
        f(2),
        f(4),
        f(5),
        f(6)
    );
    let (count, first) = (w[3] as i32, w[7] as i32);
    ensure!(
        n.get_count_unchecked() == count && n.get_left_first_unchecked() == first,
        "layout: count {} first {} but the node's words say {} and {}",
        n.get_count_unchecked(),
        n.get_left_first_unchecked(),
        count,
        first
    );
    let some = |x: i32| if x >= 0 { Some(x as u32) } else { None };
    ensure!(
        n.get_count() == some(count) && n.get_left_first() == some(first),
        "accessor: count {:?} first {:?} for stored values {} and {}",
        n.get_count(),
        n.get_left_first(),
        count,
        first
    );
    ensure!(
        n.is_leaf() == (count >= 0)
            && n.has_children() == (count < 0 && first >= 0)
            && n.is_valid() == (first >= 0),
        "accessor: leaf {} children {} valid {} for stored values {} and {}",
        n.is_leaf(),
        n.has_children(),
        n.is_valid(),
        count,
        first
    );
    Ok(())
}

/// Words of a quad node: six rows of four coordinates, children, counts.
fn quad_agrees(n: &MbvhNode, w: &[u32]) -> Result<(), String> {
    let (min_x, max_x, min_y, max_y, min_z, max_z) = n.points();
    let lo = n.min_points();
    let hi = n.max_points();
    for (row, v) in [
        (0, min_x),
        (1, max_x),
        (2, min_y),
        (3, max_y),
        (4, min_z),
        (5, max_z),
        (0, lo.0),
        (2, lo.1),
        (4, lo.2),
        (1, hi.0),
        (3, hi.1),
        (5, hi.2),
    ] {
        for s in 0..4 {
            ensure!(
                v[s].to_bits() == w[row * 4 + s],
                "layout: row {} slot {} reads {} but the node's words say {}",
                row,
                s,
                v[s],
                f32::from_bits(w[row * 4 + s])
            );
        }
    }
    for s in 0..4 {
        ensure!(
            n.children[s] as u32 == w[24 + s] && n.counts[s] as u32 == w[28 + s],
            "layout: slot {} has child {} and count {} but the node's words say {} and {}",
            s,
            n.children[s],
            n.counts[s],
            w[24 + s] as i32,
            w[28 + s] as i32
        );
    }
    Ok(())
}

fn sequence(s: S, entry: usize, prims: &[Tri], rays: &[[f32; 8]]) -> Vec<u32> {
    let mut out = vec![];
    for r in rays {
        let mut ray = ray_of(r);
        s.single(entry, prims, &mut ray, &mut |id, ray| {
            out.push(id);
            prims[id as usize].intersect(ray);
        });
        out.push(u32::MAX);
        out.push(ray.t.to_bits());
    }
    for rs in rays.chunks_exact(4) {
        let mut p = packet_of(rs);
        s.packet(entry, prims, &mut p, &mut |id, p| {
            out.push(id);
            prims[id as usize].intersect4(p, Vec4::splat(1e-4));
        });
        out.push(u32::MAX);
        out.extend(p.t.to_array().iter().map(|x| x.to_bits()));
    }
    out
}

/// As `sequence`, but every query comes right after another one along the same ray, with
/// another limit, and given up after a few primitives.
fn after_others(s: S, entry: usize, prims: &[Tri], rays: &[[f32; 8]], salt: usize) -> Vec<u32> {
    let mut out = vec![];
    let limit = |r: &[f32; 8], k: usize| match (salt + k) % 5 {
        0 => 0.0,
        1 => 1e-3 * r[7].min(1e6),
        2 => -1.0,
        3 => f32::MAX,
        _ => 0.5 * r[7],
    };
    for (k, r) in rays.iter().enumerate() {
        let mut o = *r;
        o[7] = limit(r, k);
        if (salt + k) % 7 == 0 {
            o[6] = r[6] + 1.0;
        }
        let mut ray = ray_of(&o);
        s.single(entry, prims, &mut ray, &mut |id, ray| {
            prims[id as usize].intersect(ray);
        });
        let mut ray = ray_of(r);
        s.single(entry, prims, &mut ray, &mut |id, ray| {
            out.push(id);
            prims[id as usize].intersect(ray);
        });
        out.push(u32::MAX);
        out.push(ray.t.to_bits());
    }
    for (k, rs) in rays.chunks_exact(4).enumerate() {
        let mut o = rs.to_vec();
        for (l, r) in o.iter_mut().enumerate() {
            r[7] = limit(r, k + l * (salt & 1));
        }
        let mut p = packet_of(&o);
        s.packet(entry, prims, &mut p, &mut |_, _| {});
        let mut p = packet_of(rs);
        s.packet(entry, prims, &mut p, &mut |id, p| {
            out.push(id);
            prims[id as usize].intersect4(p, Vec4::splat(1e-4));
        });
        out.push(u32::MAX);
        out.extend(p.t.to_array().iter().map(|x| x.to_bits()));
    }
    out
}

fn c25(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    if c.u.len() < 4 {
        return Ok(());
    }
    ensure!(
        std::mem::size_of::<BvhNode>() == 32 && std::mem::size_of::<MbvhNode>() == 128,
        "layout: nodes of {} and {} bytes",
        std::mem::size_of::<BvhNode>(),
        std::mem::size_of::<MbvhNode>()
    );
    // Nodes made by hand
    let mut quad = MbvhNode::new();
    let mut model = words(std::slice::from_ref(&quad)).to_vec();
    for (i, op) in c.ops.iter().enumerate() {
        if op.len() < 3 || c.f.len() < 6 * i + 6 {
            continue;
        }
        let bx: Box6 = [
            c.f[6 * i],
            c.f[6 * i + 1],
            c.f[6 * i + 2],
            c.f[6 * i + 3],
            c.f[6 * i + 4],
            c.f[6 * i + 5],
        ];
        let (count, first) = (opt(op[0]), opt(op[1]));
        let mut a = BvhNode::new();
        a.bounds = bb(&bx);
        a.set_count(count);
        a.set_left_first(first);
        let mut b = BvhNode::new();
        b.bounds = bb(&bx);
        // the other order, and a value overwritten
        let b = b
            .with_left_first(Some(7))
            .with_left_first(first)
            .with_count(count);
        let raw = |x: Option<u32>| x.map_or(-1, |v| v as i32);
        let want = node_words(&bx, raw(count), raw(first));
        for n in [&a, &b] {
            let w = words(std::slice::from_ref(n));
            ensure!(
                w == want,
                "setter: box {:?} count {:?} first {:?} stored as {:?}",
                bx,
                count,
                first,
                w
            );
            node_agrees(n, w)?;
        }
        let slot = op[2].clamp(0, 3) as usize;
        let (lo, hi) = ([bx[0], bx[1], bx[2]], [bx[3], bx[4], bx[5]]);
        if op[0] & 1 == 0 {
            quad.set_bounds(slot, &lo, &hi);
        } else {
            quad.set_bounds_bb(slot, &bb(&bx));
        }
        for k in 0..3 {
            model[8 * k + slot] = lo[k].to_bits();
            model[8 * k + 4 + slot] = hi[k].to_bits();
        }
        quad.children[slot] = raw(first);
        quad.counts[slot] = raw(count);
        model[24 + slot] = raw(first) as u32;
        model[28 + slot] = raw(count) as u32;
        let w = words(std::slice::from_ref(&quad));
        ensure!(
            w == &model[..],
            "setter: after setting slot {} the quad node holds {:?}, not {:?}",
            slot,
            w,
            model
        );
        quad_agrees(&quad, w)?;
        ctx.hit("nodes made by hand");
    }
    if !spec_ok_tris(c) {
        return Ok(());
    }
    // Nodes of built structures
    let prims = tris_of(c, 0);
    let mut bvh = build_tris(&prims, None, c.u[0], c.u[1]).map_err(|e| format!("build: {}", e))?;
    ctx.hit(bname(c.u[0]));
    for _ in 0..c.u[3].clamp(0, 3) {
        let bs: Vec<Aabb<i32>> = prims.iter().map(|p| p.aabb()).collect();
        bvh.refit(&bs);
        ctx.hit("refits");
    }
    let m = convert(&bvh, c.u[2]);
    let bw = words(bvh.nodes()).to_vec();
    let mw = words(m.quad_nodes()).to_vec();
    for (n, w) in bvh.nodes().iter().zip(bw.chunks_exact(8)) {
        node_agrees(n, w)?;
    }
    for (n, w) in m.quad_nodes().iter().zip(mw.chunks_exact(32)) {
        quad_agrees(n, w)?;
    }
    // Nodes made by hand from those words serve the same queries
    let hand: Vec<BvhNode> = bw
        .chunks_exact(8)
        .map(|w| {
            let f = |i: usize| f32::from_bits(w[i]);
            let mut n = BvhNode::default();
            n.bounds.min = vec3(f(0), f(1), f(2));
            n.bounds.max = vec3(f(4), f(5), f(6));
            n.set_left_first(opt(w[7] as i32 as i64));
            n.with_count(opt(w[3] as i32 as i64))
        })
        .collect();
    let hand4: Vec<MbvhNode> = mw
        .chunks_exact(32)
        .map(|w| {
            let mut n = MbvhNode::new();
            for s in 0..4 {
                let f = |k: usize| f32::from_bits(w[4 * k + s]);
                n.set_bounds(s, &[f(0), f(2), f(4)], &[f(1), f(3), f(5)]);
                n.children[s] = w[24 + s] as i32;
                n.counts[s] = w[28 + s] as i32;
            }
            n
        })
        .collect();
    let hit = |id: u32, r: &mut Ray| {
        prims[id as usize].intersect(r);
    };
    for r in &c.rays {
        let mut seqs: Vec<(Vec<u32>, f32)> = vec![];
        for k in 0..4 {
            let mut ray = ray_of(r);
            let mut ids = vec![];
            macro_rules! go {
                ($it:expr) => {
                    for (i, r) in $it {
                        ids.push(i);
                        hit(i, r);
                    }
                };
            }
            match k {
                0 => go!(bvh.traverse_iter_indices(&mut ray)),
                1 => go!(BvhIndexIterator::from_slices(&mut ray, &hand, bvh.indices())),
                2 => go!(m.traverse_iter_indices(&mut ray)),
                _ => go!(MbvhIndexIterator::from_slices(&mut ray, &hand4, m.indices())),
            }
            seqs.push((ids, ray.t));
        }
        for k in [0, 2] {
            ensure!(
                seqs[k] == seqs[k + 1],
                "export: nodes rebuilt from their words offer {:?}, the structure {:?} for ray {:?}",
                seqs[k + 1],
                seqs[k],
                r
            );
        }
        ctx.add("queries on rebuilt nodes", 2);
    }
    // Moving the raw form out changes nothing
    let idx = bvh.indices().to_vec();
    ensure!(
        bvh.prim_count() == idx.len() && m.prim_count() == m.indices().len(),
        "export: primitive count {} for {} indices",
        bvh.prim_count(),
        idx.len()
    );
    ensure!(m.indices() == &idx[..], "export: the quad structure has other indices");
    let (n1, i1) = bvh.clone().into_raw();
    ensure!(words(&n1) == &bw[..] && i1 == idx, "export: raw parts of a BVH differ");
    ensure!(
        words(&bvh.clone().into_raw_nodes()) == &bw[..] && bvh.clone().into_raw_indices() == idx,
        "export: raw nodes or indices of a BVH differ"
    );
    let (n2, i2) = m.clone().into_raw();
    ensure!(words(&n2) == &mw[..] && i2 == idx, "export: raw parts of an MBVH differ");
    ensure!(
        words(&m.clone().into_raw_nodes()) == &mw[..] && m.clone().into_raw_indices() == idx,
        "export: raw nodes or indices of an MBVH differ"
    );
    ensure!(words(m.nodes()) == &bw[..], "export: an MBVH shows other binary nodes");
    ctx.nontrivial = bvh.nodes().len() > 1 && !c.rays.is_empty();
    Ok(())
}

// ---------------------------------------------------------------------------------------
// C26: u = builder, leaf, scenes, threads; the triangles are dealt to the scenes

fn gen_c26(g: &mut G, _: u64) -> Case {
    let k = g.int(2, 4);
    let mut tris = vec![];
    if g.chance(0.04) {
        // builds that run in several tasks
        let n = g.int(3000, 6000) as usize;
        let fam = g.below(FAMILIES);
        tris = scene(g, fam, n, 100.0);
    } else {
        for _ in 0..k {
            let n = match g.below(3) {
                0 => g.int(1, 8),
                1 => g.int(5, 60),
                _ => g.int(20, 300),
            } as usize;
            let fam = g.below(FAMILIES);
            tris.extend(scene(g, fam, n, 100.0));
        }
    }
    let rg = RayGen::new(&tris);
    let mut rays = vec![];
    for _ in 0..g.int(1, 4) {
        rays.extend(rg.packet(g, &tris));
    }
    // [traversal, steps, what]: what 0 = step, 1 = abandon, 2 = build, 3 = query from the start
    let ops = (0..g.int(10, 60))
        .map(|_| {
            vec![
                g.int(0, 255),
                g.pick(&[1i64, 1, 2, 3, 10, 100]),
                g.weighted(&[90, 4, 3, 3]) as i64,
            ]
        })
        .collect();
    Case {
        tris,
        rays,
        group: 4,
        u: vec![g.below(3) as i64, leaf_size(g), k, g.int(2, 6)],
        ops,
        ..Default::default()
    }
}

struct World {
    prims: Vec<Tri>,
    which: i64,
    leaf: i64,
    bvh: Bvh,
    mbvh: Mbvh,
    tree: u64,
    quads: Vec<u32>,
    /// Sequences offered by BVH and MBVH
    seq: [Vec<u32>; 2],
}

/// A step of a traversal: the next primitive, if any.
type Walker<'a> = Box<dyn FnMut() -> Option<u32> + 'a>;

fn walkers<'a>(
    w: &'a World,
    singles: &'a mut [Ray],
    packets: &'a mut [RayPacket4],
    quads: bool,
    by_index: bool,
) -> Vec<Walker<'a>> {
    let prims = &w.prims[..];
    let mut v: Vec<Walker<'a>> = vec![];
    macro_rules! single {
        ($it:expr, $id:expr) => {{
            let mut it = $it;
            v.push(Box::new(move || {
                let (p, r) = it.next()?;
                let id = $id(p);
                prims[id as usize].intersect(r);
                Some(id)
            }));
        }};
    }
    macro_rules! packet {
        ($it:expr, $id:expr) => {{
            let mut it = $it;
            v.push(Box::new(move || {
                let (p, r) = it.next()?;
                let id = $id(p);
                prims[id as usize].intersect4(r, Vec4::splat(1e-4));
                Some(id)
            }));
        }};
    }
    let of = |t: &Tri| t.id;
    let same = |i: u32| i;
    for r in singles {
        match (quads, by_index) {
            (false, false) => single!(w.bvh.traverse_iter(r, prims), of),
            (false, true) => single!(w.bvh.traverse_iter_indices(r), same),
            (true, false) => single!(w.mbvh.traverse_iter(r, prims), of),
            (true, true) => single!(w.mbvh.traverse_iter_indices(r), same),
        }
    }
    for r in packets {
        match (quads, by_index) {
            (false, false) => packet!(w.bvh.traverse_iter_packet(r, prims), of),
            (false, true) => packet!(w.bvh.traverse_iter_indices_packet(r), same),
            (true, false) => packet!(w.mbvh.traverse_iter_packet(r, prims), of),
            (true, true) => packet!(w.mbvh.traverse_iter_indices_packet(r), same),
        }
    }
    v
}

/// Splits the answers of `sequence` into one list per traversal.
fn split_sequences(seq: &[u32], rays: usize) -> Vec<Vec<u32>> {
    let mut out = vec![];
    let mut i = 0;
    for k in 0..rays + rays / 4 {
        let tail = if k < rays { 1 } else { 4 };
        let mut v = vec![];
        while seq[i] != u32::MAX {
            v.push(seq[i]);
            i += 1;
        }
        i += 1 + tail;
        out.push(v);
    }
    out
}

fn c26(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    if !spec_ok_tris(c) || c.u.len() < 4 || c.rays.len() % 4 != 0 {
        return Ok(());
    }
    let k = (c.u[2].clamp(1, 4) as usize).min(c.tris.len());
    // Each alone
    let mut worlds: Vec<World> = vec![];
    for s in 0..k {
        let (a, b) = (s * c.tris.len() / k, (s + 1) * c.tris.len() / k);
        let prims: Vec<Tri> = c.tris[a..b]
            .iter()
            .enumerate()
            .map(|(i, t)| Tri::new(i, t, 0))
            .collect();
        let which = (c.u[0] + s as i64).rem_euclid(3);
        let bvh = build_tris(&prims, None, which, c.u[1]).map_err(|e| format!("build: {}", e))?;
        let mbvh = Mbvh::construct(&bvh);
        let seq = [
            sequence(S::B(&bvh), 0, &prims, &c.rays),
            sequence(S::M(&mbvh), 0, &prims, &c.rays),
        ];
        worlds.push(World {
            tree: Tree::of(&bvh)?.canonical(),
            quads: words(mbvh.quad_nodes()).to_vec(),
            prims,
            which,
            leaf: c.u[1],
            bvh,
            mbvh,
            seq,
        });
    }
    let total: usize = worlds.iter().map(|w| w.seq[0].len() + w.seq[1].len()).sum();

    // Traversals interleaved on one thread
    {
        let n = c.rays.len();
        let mut rays: Vec<(Vec<Ray>, Vec<RayPacket4>)> = vec![];
        for _ in 0..2 * k {
            rays.push((
                c.rays.iter().map(ray_of).collect(),
                c.rays.chunks_exact(4).map(packet_of).collect(),
            ));
        }
        let mut ws: Vec<(Option<Walker>, Vec<u32>, Vec<u32>)> = vec![];
        for (j, (a, b)) in rays.iter_mut().enumerate() {
            let w = &worlds[j / 2];
            let want = split_sequences(&w.seq[j % 2], n);
            let got = walkers(w, a, b, j % 2 == 1, (j / 2) % 2 == 1);
            for (x, y) in got.into_iter().zip(want) {
                ws.push((Some(x), y, vec![]));
            }
        }
        let m = ws.len();
        let step = |w: &mut (Option<Walker>, Vec<u32>, Vec<u32>), i: usize| -> Result<bool, String> {
            let f = match w.0.as_mut() {
                Some(f) => f,
                None => return Ok(false),
            };
            match f() {
                Some(id) => {
                    w.2.push(id);
                    let at = w.2.len() - 1;
                    ensure!(
                        w.1.get(at) == Some(&id),
                        "interleaved: traversal {} of {} offers {} as number {}, alone it offers {:?}",
                        i,
                        m,
                        id,
                        at,
                        w.1.get(at)
                    );
                    Ok(true)
                }
                None => {
                    ensure!(
                        w.2.len() == w.1.len(),
                        "interleaved: traversal {} of {} ends after {} of {} primitives",
                        i,
                        m,
                        w.2.len(),
                        w.1.len()
                    );
                    w.0 = None;
                    Ok(false)
                }
            }
        };
        for op in &c.ops {
            if op.len() < 3 || m == 0 {
                continue;
            }
            let i = op[0].max(0) as usize % m;
            match op[2] {
                1 => {
                    ws[i].0 = None;
                    ctx.hit("traversals abandoned");
                }
                2 => {
                    let w = &worlds[i % k];
                    let b = build_tris(&w.prims, None, w.which, w.leaf)
                        .map_err(|e| format!("build: {}", e))?;
                    ensure!(
                        Tree::of(&b)?.canonical() == w.tree,
                        "interleaved: a build amid traversals gives another tree"
                    );
                    ctx.hit("builds amid traversals");
                }
                3 => {
                    let w = &worlds[i % k];
                    let q = (i / k) % 2;
                    let s = if q == 0 { S::B(&w.bvh) } else { S::M(&w.mbvh) };
                    ensure!(
                        sequence(s, op[1] as usize, &w.prims, &c.rays) == w.seq[q],
                        "interleaved: a query amid traversals is answered differently"
                    );
                    ctx.hit("queries amid traversals");
                }
                _ => {
                    for _ in 0..op[1].clamp(0, 200) {
                        if !step(&mut ws[i], i)? {
                            break;
                        }
                    }
                }
            }
        }
        for i in 0..m {
            while step(&mut ws[i], i)? {}
        }
        ctx.add("interleaved traversals", m as u64);
    }

    // Each query right after another one along the same ray
    for (i, w) in worlds.iter().enumerate() {
        for q in 0..2 {
            let salt = c.u[3].max(0) as usize + i + c.ops.len();
            let s = if q == 0 { S::B(&w.bvh) } else { S::M(&w.mbvh) };
            ensure!(
                after_others(s, salt, &w.prims, &c.rays, salt) == w.seq[q],
                "memory: a query after another along the same ray with another limit is answered differently"
            );
        }
    }
    ctx.add("queries after others", (2 * worlds.len() * c.rays.len()) as u64);

    // Copies are independent
    for w in &worlds {
        let mut copy = w.bvh.clone();
        let far: Vec<Aabb<i32>> = w
            .prims
            .iter()
            .map(|p| {
                let b = p.aabb();
                (b.min + Vec3::splat(3.0), b.max + Vec3::splat(5.0)).into()
            })
            .collect();
        copy.refit(&far);
        ensure!(
            Tree::of(&w.bvh)?.canonical() == w.tree && words(w.mbvh.quad_nodes()) == &w.quads[..],
            "copy: refitting a copy changed the original"
        );
        let mut orig = w.bvh.clone();
        let copy = orig.clone();
        let quad = Mbvh::construct(&orig);
        orig.refit(&far);
        ensure!(
            Tree::of(&copy)?.canonical() == w.tree && words(quad.quad_nodes()) == &w.quads[..],
            "copy: refitting the original changed a copy or an MBVH made from it"
        );
        ctx.hit("copies");
    }

    // Builds, conversions and queries from several threads
    let threads = c.u[3].clamp(2, 8) as usize;
    let gate = Barrier::new(threads);
    let bad: Vec<Result<(), String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (worlds, gate) = (&worlds, &gate);
                s.spawn(move || -> Result<(), String> {
                    gate.wait();
                    for r in 0..k {
                        let w = &worlds[(t + r) % k];
                        let b = build_tris(&w.prims, None, w.which, w.leaf)
                            .map_err(|e| format!("build: {}", e))?;
                        ensure!(
                            Tree::of(&b)?.canonical() == w.tree,
                            "concurrent: a build in parallel with others gives another tree"
                        );
                        let m = Mbvh::construct(&b);
                        let w = &worlds[(t + r + t % 2) % k];
                        for q in 0..2 {
                            let s = if q == 0 { S::B(&w.bvh) } else { S::M(&w.mbvh) };
                            ensure!(
                                sequence(s, t, &w.prims, &c.rays) == w.seq[q],
                                "concurrent: a query in parallel with others is answered differently"
                            );
                        }
                        let own = &worlds[(t + r) % k];
                        for (q, s) in [S::B(&b), S::M(&m)].into_iter().enumerate() {
                            let mut x = sequence(s, t + 1, &own.prims, &c.rays);
                            let mut y = own.seq[q].clone();
                            // the numbering of nodes may differ, the answers may not
                            x.sort_unstable();
                            y.sort_unstable();
                            if own.prims.len() <= 1024 {
                                ensure!(
                                    x == y,
                                    "concurrent: a structure built in parallel with others answers differently"
                                );
                            }
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err("concurrent: a thread panicked".into())))
            .collect()
    });
    for b in bad {
        b?;
    }
    ctx.add("threads", threads as u64);
    ctx.add("cases with parallel tasks", (c.tris.len() / k > 1024) as u64);
    ctx.nontrivial = k > 1 && total > 8 * c.rays.len() * k;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C25",
            gen: gen_c25,
            check: c25,
            quick: 700000,
            thorough: 8000000,
            rule: "a tree of more than one node, read word by word and queried through nodes rebuilt from those words",
            assumptions: &["counts and references below 2^31"],
        },
        Prop {
            id: "C26",
            gen: gen_c26,
            check: c26,
            quick: 22500,
            thorough: 800000,
            rule: "more than one structure, whose traversals offer primitives",
            assumptions: &["thread schedules are those the operating system produces"],
        },
    ]
}
