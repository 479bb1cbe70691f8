//! C12-C14: traversal is total, culls, and its entry points agree.
use super::build::{built, count};
use super::hits::convert;
use super::Prop;
use crate::case::Case;
use crate::engine::Ctx;
use crate::ensure;
use crate::gen::G;
use crate::oracle::{box_line, plain_hit, BoxRay};
use crate::scene::*;
use crate::util::*;
use glam::*;
use rtbvh::*;
use std::collections::HashMap;

/// Boxes whose sizes or positions grow geometrically: clustering turns them into chains.
fn chain(g: &mut G) -> Vec<[f32; 9]> {
    let n = g.int(20, 200) as usize;
    let r = (g.range(6.0, 27.0) / n as f32).exp();
    let mode = g.below(4);
    let mut v = vec![];
    let axis = g.below(3);
    let c = [g.sym(1e-3), g.sym(1e-3), g.sym(1e-3)];
    for i in 0..n {
        let s = 1e-2 * r.powi(i as i32);
        let mut b = [0.0f32; 9];
        match mode {
            0 => {
                for a in 0..3 {
                    b[a] = c[a] - s;
                    b[a + 3] = c[a] + s;
                    b[a + 6] = c[a];
                }
            }
            1 => {
                for a in 0..3 {
                    b[a + 3] = 0.05 * s;
                }
                b[axis] = s;
                b[axis + 3] = s * 1.05;
            }
            2 => {
                for a in 0..3 {
                    b[a + 3] = s;
                }
            }
            _ => {
                // a row of equal boxes ahead of growing ones
                let x = if i < n / 2 { i as f32 * 0.01 } else { s };
                for a in 0..3 {
                    b[a + 3] = 0.01;
                }
                b[axis] = x;
                b[axis + 3] = x + 0.01;
            }
        }
        if mode != 0 {
            for a in 0..3 {
                b[a + 6] = 0.5 * (b[a] + b[a + 3]);
            }
        }
        v.push(b);
    }
    match g.below(3) {
        0 => g.shuffle(&mut v),
        1 => v.reverse(),
        _ => {}
    }
    v
}

fn prims_box(v: &[[f32; 9]]) -> Box6 {
    v.iter()
        .map(|p| [p[0], p[1], p[2], p[3], p[4], p[5]])
        .fold(EMPTY6, |a, b| union6(&a, &b))
}

const ODD: [f32; 14] = [
    f32::NAN,
    f32::INFINITY,
    f32::NEG_INFINITY,
    0.0,
    -0.0,
    f32::MAX,
    f32::MIN,
    f32::MIN_POSITIVE,
    1.0e-42,
    -1.0e-40,
    1.0e34,
    -1.0e34,
    1.0e-30,
    1.0e20,
];

/// u: builder, leaf size, route, primitives in the slice, word offset of quad nodes
fn gen_c12(g: &mut G, _: u64) -> Case {
    let mut c = Case {
        group: 4,
        ..Default::default()
    };
    let mut b = g.below(3) as i64;
    let rg;
    match g.weighted(&[55, 40, 5]) {
        0 => {
            let (tris, _) = small_scene(g, if b == SPATIAL { 100.0 } else { 1e5 });
            c.boxes = boxes_for(g, &tris);
            rg = RayGen::new(&tris);
            c.tris = tris;
        }
        1 => {
            b = g.below(2) as i64;
            c.prims = chain(g);
            rg = RayGen::from_box(prims_box(&c.prims));
        }
        _ => {
            rg = RayGen::from_box([-1.0, -1.0, -1.0, 1.0, 1.0, 1.0]);
        }
    }
    for k in 0..6 {
        let mut rs = rg.packet(g, &c.tris);
        if !c.prims.is_empty() && g.chance(0.6) {
            // from the dense end of a chain
            for r in rs.iter_mut() {
                for a in 0..3 {
                    r[a] = g.sym(0.02);
                }
            }
        }
        if k > 1 {
            for r in rs.iter_mut() {
                if g.chance(0.5) {
                    let m = g.int(1, 2);
                    for _ in 0..m {
                        let i = g.below(8);
                        r[i] = g.pick(&ODD);
                    }
                }
                if g.chance(0.1) {
                    r[3] = 0.0;
                    r[4] = -0.0;
                    r[5] = 0.0;
                }
            }
        }
        c.rays.extend(rs);
    }
    let n = count(&c) as i64;
    let cut = if g.chance(0.5) { n } else { g.int(0, n) };
    c.u = vec![
        b,
        leaf_size(g),
        g.below(3) as i64,
        cut,
        g.int(0, 7),
    ];
    c
}

fn tally(what: &str, ids: &[u32], refs: &[u32], limit: usize) -> Result<(), String> {
    let mut n = vec![0u32; refs.len()];
    for i in ids {
        ensure!(
            (*i as usize) < refs.len(),
            "index: {} yields primitive {} of {}",
            what,
            i,
            refs.len()
        );
        n[*i as usize] += 1;
        ensure!(
            n[*i as usize] <= refs[*i as usize],
            "repeated: {} yields primitive {} more often than leaves hold it",
            what,
            i
        );
    }
    ensure!(
        ids.len() <= limit,
        "repeated: {} yields {} entries, leaves hold {}",
        what,
        ids.len(),
        limit
    );
    Ok(())
}

fn nan6(r: &[f32; 8]) -> bool {
    r[..6].iter().any(|x| x.is_nan())
}

fn odd(r: &[f32; 8]) -> bool {
    r.iter().any(|x| !x.is_finite()) || r[3..6].iter().any(|x| x.abs() < 1e-20)
}

/// An iterator that is asked again after its end.
struct Again<I> {
    it: I,
    hint: (usize, Option<usize>),
    seen: usize,
    over: usize,
}

trait AskAgain: Iterator + Sized {
    fn again(self) -> Again<Self> {
        Again {
            hint: self.size_hint(),
            it: self,
            seen: 0,
            over: 0,
        }
    }
}

impl<I: Iterator> AskAgain for I {}

impl<I: Iterator> Iterator for Again<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        while self.over < 3 {
            match self.it.next() {
                Some(x) => {
                    assert!(self.over == 0, "repeated: a traversal that had ended goes on");
                    self.seen += 1;
                    return Some(x);
                }
                None => {
                    let (lo, hi) = self.hint;
                    assert!(
                        lo <= self.seen && hi.map_or(true, |h| self.seen <= h),
                        "size hint {:?} of a traversal of {} entries",
                        self.hint,
                        self.seen
                    );
                    self.over += 1;
                }
            }
        }
        None
    }
}

fn total<T: Primitive + Ident>(
    prims: &[T],
    bvh: &Bvh,
    mbvh: &Mbvh,
    c: &Case,
    ctx: &mut Ctx,
) -> Result<(), String> {
    let t = Tree::of(bvh)?;
    let refs = reference_counts(&t, prims.len())?;
    let limit = t.refs();
    let cap = limit + 1;
    let cut = (c.u[3].max(0) as usize).min(prims.len());
    let short = &prims[..cut];
    // Slices between inaccessible pages; quad nodes at an address that is only as aligned as
    // their type demands
    let (front, off) = (c.u[4] >= 4, (c.u[4].max(0) & 3) as usize);
    let quads = Fenced::new(mbvh.quad_nodes(), front, off);
    let nodes = Fenced::new(bvh.nodes(), front, 0);
    let indices = Fenced::new(bvh.indices(), front, 0);
    let quad_indices = Fenced::new(mbvh.indices(), front, 0);
    let fenced = Fenced::new(short, front, 0);
    let (quads, nodes, indices, quad_indices): (&[MbvhNode], &[BvhNode], &[u32], &[u32]) =
        (&quads, &nodes, &indices, &quad_indices);
    let fenced: &[T] = &fenced;
    let ids1 = |it: &mut dyn Iterator<Item = (u32, &mut Ray)>| -> Vec<u32> {
        it.again().take(cap).map(|x| x.0).collect()
    };
    let ids4 = |it: &mut dyn Iterator<Item = (u32, &mut RayPacket4)>| -> Vec<u32> {
        it.again().take(cap).map(|x| x.0).collect()
    };
    let present = |ids: &[u32]| -> Vec<u32> {
        ids.iter().copied().filter(|i| (*i as usize) < cut).collect()
    };
    let same = |what: &str, got: &[u32], want: &[u32]| -> Result<(), String> {
        ensure!(
            got == want,
            "short slice: {} over {} of {} primitives yields {:?}, expected {:?}",
            what,
            cut,
            prims.len(),
            &got[..got.len().min(12)],
            &want[..want.len().min(12)]
        );
        Ok(())
    };
    for (k, r) in c.rays.iter().enumerate() {
        let nan = nan6(r);
        // BVH
        let mut ray = ray_of(r);
        let all = ids1(&mut bvh.traverse_iter_indices(&mut ray));
        tally("bvh", &all, &refs, limit)?;
        ensure!(!nan || all.is_empty(), "nan: bvh yields {:?} for ray {:?}", all, r);
        let mut ray = ray_of(r);
        let mut got = vec![];
        for (p, _) in bvh.traverse_iter(&mut ray, short).again().take(cap) {
            got.push(p.ident());
        }
        same("bvh", &got, &present(&all))?;
        let mut ray = ray_of(r);
        let s = ids1(&mut BvhIndexIterator::from_slices(&mut ray, nodes, indices));
        ensure!(!nan || s.is_empty(), "nan: bvh slices yield {:?} for {:?}", s, r);
        let mut ray = ray_of(r);
        let mut got = vec![];
        for (p, _) in
            BvhIterator::from_slices(&mut ray, nodes, indices, fenced).again().take(cap)
        {
            got.push(p.ident());
        }
        same("bvh slices", &got, &present(&s))?;
        // MBVH
        let mut ray = ray_of(r);
        let all = ids1(&mut mbvh.traverse_iter_indices(&mut ray));
        tally("mbvh", &all, &refs, limit)?;
        let mut ray = ray_of(r);
        let mut got = vec![];
        for (p, _) in mbvh.traverse_iter(&mut ray, short).again().take(cap) {
            got.push(p.ident());
        }
        same("mbvh", &got, &present(&all))?;
        let mut ray = ray_of(r);
        let s = ids1(&mut MbvhIndexIterator::from_slices(&mut ray, quads, quad_indices));
        ensure!(s == all, "alignment: mbvh slices yield something else for {:?}", r);
        let mut ray = ray_of(r);
        let mut got = vec![];
        for (p, _) in MbvhIterator::from_slices(&mut ray, quads, quad_indices, fenced).again().take(cap) {
            got.push(p.ident());
        }
        same("mbvh slices", &got, &present(&s))?;
        ctx.hit("rays");
        ctx.add("rays with odd components", odd(r) as u64);
        ctx.add("rays that reach a leaf", !all.is_empty() as u64);
        if k % 4 != 3 {
            continue;
        }
        let rs = &c.rays[k - 3..=k];
        let nan = rs.iter().any(nan6);
        let mut p = packet_of(rs);
        let all = ids4(&mut bvh.traverse_iter_indices_packet(&mut p));
        tally("bvh packet", &all, &refs, limit)?;
        ensure!(!nan || all.is_empty(), "nan: bvh yields {:?} for packet {:?}", all, rs);
        let mut p = packet_of(rs);
        let mut got = vec![];
        for (q, _) in bvh.traverse_iter_packet(&mut p, short).again().take(cap) {
            got.push(q.ident());
        }
        same("bvh packet", &got, &present(&all))?;
        let mut p = packet_of(rs);
        let s = ids4(&mut BvhPacketIndexIterator::from_slices(
            &mut p,
            nodes,
            indices,
        ));
        ensure!(!nan || s.is_empty(), "nan: bvh slices yield {:?} for packet {:?}", s, rs);
        let mut p = packet_of(rs);
        let mut got = vec![];
        for (q, _) in
            BvhPacketIterator::from_slices(&mut p, nodes, indices, fenced).again().take(cap)
        {
            got.push(q.ident());
        }
        same("bvh packet slices", &got, &present(&s))?;
        let mut p = packet_of(rs);
        let all = ids4(&mut mbvh.traverse_iter_indices_packet(&mut p));
        tally("mbvh packet", &all, &refs, limit)?;
        let mut p = packet_of(rs);
        let mut got = vec![];
        for (q, _) in mbvh.traverse_iter_packet(&mut p, short).again().take(cap) {
            got.push(q.ident());
        }
        same("mbvh packet", &got, &present(&all))?;
        let mut p = packet_of(rs);
        let s = ids4(&mut MbvhPacketIndexIterator::from_slices(
            &mut p,
            quads,
            quad_indices,
        ));
        ensure!(s == all, "alignment: mbvh slices yield something else for {:?}", rs);
        let mut p = packet_of(rs);
        let mut got = vec![];
        for (q, _) in
            MbvhPacketIterator::from_slices(&mut p, quads, quad_indices, fenced).again().take(cap)
        {
            got.push(q.ident());
        }
        same("mbvh packet slices", &got, &present(&s))?;
        ctx.hit("packets");
    }
    let depth = t.max_depth();
    ctx.add("trees deeper than 32", (depth > 32) as u64);
    ctx.add("trees deeper than 64", (depth > 64) as u64);
    ctx.add("short primitive slices", (cut < prims.len()) as u64);
    ctx.nontrivial =
        t.nodes.len() > 1 && (depth > 32 || cut < prims.len() || c.rays.iter().any(odd));
    Ok(())
}

fn c12(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    if c.u.len() < 5 || c.rays.len() % 4 != 0 {
        return Ok(());
    }
    if count(c) == 0 {
        ctx.hit("empty structures");
        ctx.nontrivial = true;
        let bvh = Bvh::default();
        let tri = [Tri::new(0, &[0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0, 0.0], 0)];
        let mbvh = match c.u[2] {
            0 => Mbvh::construct(&bvh),
            1 => Mbvh::from(bvh.clone()),
            _ => Mbvh::default(),
        };
        for (k, r) in c.rays.iter().enumerate() {
            let mut n = 0;
            let mut ray = ray_of(r);
            n += bvh.traverse_iter(&mut ray, &tri).count();
            n += bvh.traverse_iter_indices(&mut ray).count();
            n += mbvh.traverse_iter(&mut ray, &tri).count();
            n += mbvh.traverse_iter_indices(&mut ray).count();
            n += BvhIndexIterator::from_slices(&mut ray, &[], &[]).count();
            n += MbvhIndexIterator::from_slices(&mut ray, &[], &[]).count();
            n += BvhIterator::from_slices(&mut ray, &[], &[], &tri).count();
            n += MbvhIterator::from_slices(&mut ray, &[], &[], &tri).count();
            if k % 4 == 3 {
                let mut p = packet_of(&c.rays[k - 3..=k]);
                n += bvh.traverse_iter_packet(&mut p, &tri).count();
                n += bvh.traverse_iter_indices_packet(&mut p).count();
                n += mbvh.traverse_iter_packet(&mut p, &tri).count();
                n += mbvh.traverse_iter_indices_packet(&mut p).count();
                n += BvhPacketIndexIterator::from_slices(&mut p, &[], &[]).count();
                n += MbvhPacketIndexIterator::from_slices(&mut p, &[], &[]).count();
                n += BvhPacketIterator::from_slices(&mut p, &[], &[], &tri).count();
                n += MbvhPacketIterator::from_slices(&mut p, &[], &[], &tri).count();
            }
            ensure!(n == 0, "empty: an empty structure yields {} primitives", n);
        }
        return Ok(());
    }
    let bvh = match built(c, ctx)? {
        Some(b) => b,
        None => return Ok(()),
    };
    let mbvh = convert(&bvh, c.u[2]);
    if c.tris.is_empty() {
        total(&boxprims(c), &bvh, &mbvh, c, ctx)
    } else {
        total(&tris_of(c, 0), &bvh, &mbvh, c, ctx)
    }
}

// ---------------------------------------------------------------------------------------
// C13

/// Boxes along a path, for either structure: parent, box, whether the box is ever tested,
/// and the leaf run.
struct Hier {
    up: Vec<usize>,
    b: Vec<Box6>,
    tested: Vec<bool>,
    depth: Vec<usize>,
    leaf: Vec<Option<(usize, usize)>>,
    /// for late culling: boxes that are tested together have the same group
    group: Vec<usize>,
}

fn hier_bvh(t: &Tree) -> Hier {
    let n = t.nodes.len();
    let mut h = Hier {
        up: vec![],
        b: vec![],
        tested: vec![],
        depth: vec![],
        leaf: vec![],
        group: vec![],
    };
    for i in 0..n {
        let x = &t.nodes[i];
        h.up.push(x.parent);
        h.b.push(x.b);
        h.tested.push(x.parent != usize::MAX);
        h.depth.push(x.depth);
        h.leaf.push(x.leaf);
        h.group.push(x.parent);
    }
    h
}

fn hier_mbvh(s: &[Slot]) -> Hier {
    let mut h = Hier {
        up: vec![],
        b: vec![],
        tested: vec![],
        depth: vec![],
        leaf: vec![],
        group: vec![],
    };
    for x in s {
        h.up.push(x.up);
        h.b.push(x.b);
        h.tested.push(true);
        h.depth.push(x.depth);
        h.leaf.push(x.leaf);
        h.group.push(x.quad);
    }
    h
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Bvh1,
    Quad1,
    Bvh4,
    Quad4,
}

const REL: f64 = 2e-5;

/// Whether the box must be rejected for a query with the given current distances.
fn culled(b: &Box6, rs: &[[f32; 8]], ts: &[f32], mode: Mode) -> bool {
    rs.iter().zip(ts).all(|(r, t)| match box_line(b, r) {
        BoxRay::Miss => true,
        BoxRay::Unclear => false,
        BoxRay::Hit(lo, hi) => {
            if mode == Mode::Bvh1 {
                hi < r[6] as f64 - REL * (hi.abs() + r[6].abs() as f64) - 1e-9
            } else {
                lo > *t as f64 + REL * (lo.abs() + t.abs() as f64) + 1e-9
            }
        }
    })
}

/// u: builder, leaf size, route, shortening mode
fn gen_c13(g: &mut G, _: u64) -> Case {
    let b = g.below(3) as i64;
    let (tris, _) = small_scene(g, if b == SPATIAL { 100.0 } else { 1e4 });
    let boxes = boxes_for(g, &tris);
    let rg = RayGen::new(&tris);
    let mut rays = vec![];
    for _ in 0..5 {
        rays.extend(rg.packet(g, &tris));
    }
    Case {
        tris,
        boxes,
        rays,
        group: 4,
        u: vec![
            b,
            leaf_size(g),
            g.below(3) as i64,
            g.below(3) as i64,
        ],
        ..Default::default()
    }
}

fn hash32(x: u32) -> u32 {
    let mut z = x.wrapping_mul(0x9E37_79B9) ^ 0x85EB_CA6B;
    z ^= z >> 13;
    z = z.wrapping_mul(0xC2B2_AE35);
    z ^ (z >> 16)
}

fn culling(
    c: &Case,
    h: &Hier,
    indices: &[u32],
    s: super::hits::S,
    prims: &[Tri],
    rs: &[[f32; 8]],
    mode: Mode,
    ctx: &mut Ctx,
) -> Result<(), String> {
    let name = match mode {
        Mode::Bvh1 => "bvh",
        Mode::Quad1 => "mbvh",
        Mode::Bvh4 => "bvh packet",
        Mode::Quad4 => "mbvh packet",
    };
    let entry = super::hits::entry_of(&rs[0]);
    let n = h.up.len();
    let ts: Vec<f32> = rs.iter().map(|r| r[7]).collect();
    let mut open = vec![true; n];
    let mut entries = vec![0u32; prims.len()];
    let mut allowed = vec![0u32; prims.len()];
    let mut closed = 0;
    // parents come before their children
    for i in 0..n {
        open[i] = h.up[i] == usize::MAX || open[h.up[i]];
        if open[i] && h.tested[i] && culled(&h.b[i], rs, &ts, mode) {
            open[i] = false;
        }
        if let Some((f, k)) = h.leaf[i] {
            for p in &indices[f..f + k] {
                entries[*p as usize] += 1;
                allowed[*p as usize] += open[i] as u32;
            }
            closed += (!open[i]) as u64;
        }
    }
    let mut got = vec![0u32; prims.len()];
    if rs.len() == 1 {
        let mut ray = ray_of(&rs[0]);
        s.single(entry, prims, &mut ray, &mut |id, _| got[id as usize] += 1);
    } else {
        let mut p = packet_of(rs);
        s.packet(entry, prims, &mut p, &mut |id, _| got[id as usize] += 1);
    }
    for p in 0..prims.len() {
        ensure!(
            got[p] <= allowed[p],
            "culling: {} offers primitive {} {} times; {} of its {} leaf entries are behind boxes that {:?} clearly misses",
            name,
            p,
            got[p],
            entries[p] - allowed[p],
            entries[p],
            rs
        );
    }
    ctx.add("leaves that must not be reached", closed);
    ctx.add("leaves that may be reached", h.leaf.iter().flatten().count() as u64 - closed);
    // With the caller shortening: boxes tested after a shortening use the new distance
    if mode == Mode::Bvh1 || c.u[0] == SPATIAL {
        return Ok(());
    }
    let mut leaf_of: HashMap<u32, usize> = HashMap::new();
    for i in 0..n {
        if let Some((f, k)) = h.leaf[i] {
            for p in &indices[f..f + k] {
                leaf_of.insert(*p, i);
            }
        }
    }
    // what was offered, with the distances after the caller's reaction
    let mut log: Vec<(u32, Vec<f32>)> = vec![];
    let mut react = |id: u32, t: &mut [f32]| {
        for l in 0..rs.len() {
            let w = match c.u[3] {
                0 => plain_hit(&c.tris[id as usize], &rs[l]).map(|t| t as f32),
                1 => match box_line(&h.b[leaf_of[&id]], &rs[l]) {
                    BoxRay::Hit(lo, _) => Some(lo as f32),
                    _ => None,
                },
                _ => {
                    if hash32(id * 4 + l as u32) % 3 == 0 {
                        Some(if hash32(id) % 2 == 0 { 0.0 } else { t[l] * 0.5 })
                    } else {
                        None
                    }
                }
            };
            if let Some(w) = w {
                if w.max(0.0) < t[l] {
                    t[l] = w.max(0.0);
                }
            }
        }
        log.push((id, t.to_vec()));
    };
    if rs.len() == 1 {
        let mut ray = ray_of(&rs[0]);
        s.single(entry, prims, &mut ray, &mut |id, r| {
            let mut t = [r.t];
            react(id, &mut t);
            r.t = t[0];
        });
    } else {
        let mut p = packet_of(rs);
        s.packet(entry, prims, &mut p, &mut |id, r| {
            let mut t: [f32; 4] = r.t.into();
            react(id, &mut t);
            r.t = t.into();
        });
    }
    // Groups of boxes already tested when the primitive of step j was offered carry stamp j
    let groups = h.group.iter().filter(|g| **g != usize::MAX).max().map_or(1, |m| m + 2);
    let slot = |g: usize| if g == usize::MAX { groups - 1 } else { g };
    let mut stamp = vec![usize::MAX; groups];
    let mut late = 0;
    // Long histories are sampled: at most this many boxes are looked at
    let mut budget = 150_000i64;
    let changed: Vec<usize> = (0..log.len())
        .filter(|j| {
            let before: &[f32] = if *j == 0 { &ts } else { &log[j - 1].1 };
            before != &log[*j].1[..]
        })
        .collect();
    let steps = changed.len() * log.len();
    for (n, j) in changed.iter().enumerate() {
        let j = *j;
        if budget < 0 {
            break;
        }
        if steps > 40_000 && n > 4 && hash32((n * 7919 + log.len()) as u32) as usize % steps > 40_000 {
            continue;
        }
        let a = leaf_of[&log[j].0];
        let mut y = a;
        while y != usize::MAX {
            stamp[slot(h.group[y])] = j;
            y = h.up[y];
        }
        for k in j + 1..log.len() {
            let b = leaf_of[&log[k].0];
            if a == b {
                continue;
            }
            let mut x = b;
            budget -= 1;
            while x != usize::MAX && stamp[slot(h.group[x])] != j {
                budget -= 1;
                if h.tested[x] {
                    late += 1;
                    ensure!(
                        !culled(&h.b[x], rs, &log[j].1, mode),
                        "late culling: {} offers primitive {} although {:?} clearly misses its boxes since primitive {} was offered and the distances became {:?}",
                        name,
                        log[k].0,
                        rs,
                        log[j].0,
                        log[j].1
                    );
                }
                x = h.up[x];
            }
        }
    }
    ctx.add("boxes tested after a shortening", late);
    Ok(())
}

fn c13(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    if c.u.len() < 4 || c.rays.len() % 4 != 0 || c.tris.is_empty() {
        return Ok(());
    }
    let bvh = match built(c, ctx)? {
        Some(b) => b,
        None => return Ok(()),
    };
    let mbvh = convert(&bvh, c.u[2]);
    let prims = tris_of(c, 0);
    let t = Tree::of(&bvh)?;
    reference_counts(&t, prims.len())?;
    let hb = hier_bvh(&t);
    let mut slots = walk_quads(mbvh.quad_nodes())?;
    // parents first
    let mut order: Vec<usize> = (0..slots.len()).collect();
    order.sort_by_key(|i| slots[*i].depth);
    let mut pos = vec![0; slots.len()];
    for (k, i) in order.iter().enumerate() {
        pos[*i] = k;
    }
    let mut sorted: Vec<Slot> = order.iter().map(|i| slots[*i].clone()).collect();
    for s in sorted.iter_mut() {
        if s.up != usize::MAX {
            s.up = pos[s.up];
        }
    }
    slots = sorted;
    let hm = hier_mbvh(&slots);
    use super::hits::S;
    let before = ctx.labels.get("leaves that must not be reached").copied().unwrap_or(0);
    for rs in c.rays.chunks_exact(4) {
        for r in rs {
            let one = [*r];
            culling(c, &hb, bvh.indices(), S::B(&bvh), &prims, &one, Mode::Bvh1, ctx)?;
            culling(c, &hm, mbvh.indices(), S::M(&mbvh), &prims, &one, Mode::Quad1, ctx)?;
        }
        culling(c, &hb, bvh.indices(), S::B(&bvh), &prims, rs, Mode::Bvh4, ctx)?;
        culling(c, &hm, mbvh.indices(), S::M(&mbvh), &prims, rs, Mode::Quad4, ctx)?;
    }
    let after = ctx.labels.get("leaves that must not be reached").copied().unwrap_or(0);
    ctx.nontrivial = after > before;
    Ok(())
}

// ---------------------------------------------------------------------------------------
// C14

/// u: builder, leaf size, route, shortening mode, number of steps (0 = all)
fn gen_c14(g: &mut G, _: u64) -> Case {
    let mut c = Case {
        group: 4,
        ..Default::default()
    };
    let mut b = g.below(3) as i64;
    let rg;
    if g.chance(0.8) {
        let (tris, _) = small_scene(g, if b == SPATIAL { 100.0 } else { 1e4 });
        c.boxes = boxes_for(g, &tris);
        rg = RayGen::new(&tris);
        c.tris = tris;
    } else {
        b = g.below(2) as i64;
        c.prims = chain(g);
        rg = RayGen::from_box(prims_box(&c.prims));
    }
    for _ in 0..4 {
        c.rays.extend(rg.packet(g, &c.tris));
    }
    let steps = if g.chance(0.7) { 0 } else { g.int(1, 6) };
    c.u = vec![
        b,
        leaf_size(g),
        g.below(3) as i64,
        g.below(4) as i64,
        steps,
    ];
    c
}

/// The caller's reaction to an offered primitive: the same for every entry point.
fn reaction(c: &Case, id: u32, lane: usize, r: &[f32; 8], t: f32) -> f32 {
    match c.u[3] {
        0 => t,
        1 => {
            let w = if c.tris.is_empty() {
                None
            } else {
                plain_hit(&c.tris[id as usize], r)
            };
            match w {
                Some(w) if (w as f32) < t && w > 0.0 => w as f32,
                _ => t,
            }
        }
        2 => {
            if hash32(id.wrapping_mul(5).wrapping_add(lane as u32)) % 3 == 0 {
                (t.min(1e6) * 0.7).max(1e-3)
            } else {
                t
            }
        }
        // lengthening is allowed as well
        _ => match hash32(id.wrapping_mul(7).wrapping_add(lane as u32)) % 4 {
            0 => t * 0.25,
            1 => t.min(1e20) * 2.0,
            _ => t,
        },
    }
}

type Log1 = Vec<(u32, u32)>;
type Log4 = Vec<(u32, [u32; 4])>;

/// Everything but the distance, private parts included.
fn bits(r: &Ray) -> Vec<u8> {
    let mut r = *r;
    r.t = 0.0;
    bincode::serialize(&r).unwrap()
}

fn bits4(p: &RayPacket4) -> Vec<u8> {
    let mut p = *p;
    p.t = Vec4::ZERO;
    bincode::serialize(&p).unwrap()
}

struct Drive1<'a> {
    c: &'a Case,
    r: &'a [f32; 8],
    steps: usize,
    cap: usize,
}

impl<'a> Drive1<'a> {
    /// Runs one entry point and returns what it offered; the distances the iterator hands
    /// out must be the ones the caller set.
    fn run(
        &self,
        what: &str,
        go: &mut dyn FnMut(&mut Ray, &mut dyn FnMut(u32, &mut Ray) -> bool),
    ) -> Result<Log1, String> {
        let mut ray = ray_of(self.r);
        let before = bits(&ray);
        let mut log: Log1 = vec![];
        let mut t = ray.t;
        let mut bad: Option<String> = None;
        go(&mut ray, &mut |id, r| {
            if r.t.to_bits() != t.to_bits() && bad.is_none() {
                bad = Some(format!("distance: {} hands out t={} after the caller left {}", what, r.t, t));
            }
            if bits(r) != before && bad.is_none() {
                bad = Some(format!("query: {} changes the ray to {:?}", what, r));
            }
            log.push((id, r.t.to_bits()));
            t = reaction(self.c, id, 0, self.r, r.t);
            r.t = t;
            (self.steps == 0 || log.len() < self.steps) && log.len() < self.cap
        });
        if let Some(b) = bad {
            return Err(b);
        }
        ensure!(
            ray.t.to_bits() == t.to_bits(),
            "distance: {} leaves t={} in the caller's ray instead of {}",
            what,
            ray.t,
            t
        );
        ensure!(bits(&ray) == before, "query: {} changed the ray to {:?}", what, ray);
        Ok(log)
    }
}

struct Drive4<'a> {
    c: &'a Case,
    rs: &'a [[f32; 8]],
    steps: usize,
    cap: usize,
}

impl<'a> Drive4<'a> {
    fn run(
        &self,
        what: &str,
        go: &mut dyn FnMut(&mut RayPacket4, &mut dyn FnMut(u32, &mut RayPacket4) -> bool),
    ) -> Result<Log4, String> {
        let tb = |p: &RayPacket4| -> [u32; 4] {
            let a: [f32; 4] = p.t.into();
            a.map(f32::to_bits)
        };
        let mut p = packet_of(self.rs);
        let before = bits4(&p);
        let mut log: Log4 = vec![];
        let mut t = tb(&p);
        let mut bad: Option<String> = None;
        go(&mut p, &mut |id, r| {
            if tb(r) != t && bad.is_none() {
                bad = Some(format!("distance: {} hands out t={:?}, not what the caller left", what, r.t));
            }
            if bits4(r) != before && bad.is_none() {
                bad = Some(format!("query: {} changes the packet", what));
            }
            log.push((id, t));
            for l in 0..4 {
                r.t[l] = reaction(self.c, id, l, &self.rs[l], r.t[l]);
            }
            t = tb(r);
            (self.steps == 0 || log.len() < self.steps) && log.len() < self.cap
        });
        if let Some(b) = bad {
            return Err(b);
        }
        ensure!(
            tb(&p) == t,
            "distance: {} leaves t={:?} in the caller's packet",
            what,
            p.t
        );
        ensure!(bits4(&p) == before, "query: {} changed the packet", what);
        Ok(log)
    }
}

fn agree<T: PartialEq + std::fmt::Debug>(
    r: &[[f32; 8]],
    logs: &[(&str, Vec<T>)],
) -> Result<(), String> {
    for (name, l) in &logs[1..] {
        ensure!(
            *l == logs[0].1,
            "entry points: {} offers {:?}.., {} offers {:?}.. for {:?}",
            logs[0].0,
            &logs[0].1[..logs[0].1.len().min(10)],
            name,
            &l[..l.len().min(10)],
            r
        );
    }
    Ok(())
}

/// Runs an iterator with the callback; primitives must come from the caller's slice.
macro_rules! prims_of {
    ($it:expr, $prims:expr, $cb:expr) => {
        for (p, r) in $it {
            let id = p.ident();
            if !std::ptr::eq(p, &$prims[id as usize]) {
                panic!("an iterator yields a reference outside the caller's slice");
            }
            if !$cb(id, r) {
                break;
            }
        }
    };
}

macro_rules! ids_of {
    ($it:expr, $cb:expr) => {
        for (id, r) in $it {
            if !$cb(id, r) {
                break;
            }
        }
    };
}

fn entries<T: Primitive + Ident>(
    prims: &[T],
    bvh: &Bvh,
    mbvh: &Mbvh,
    c: &Case,
    ctx: &mut Ctx,
) -> Result<(), String> {
    let cap = 2 * Tree::of(bvh)?.refs() + 10;
    let steps = c.u[4].max(0) as usize;
    let (bn, bi) = bvh.clone().into_raw();
    let (qn, qi) = mbvh.clone().into_raw();
    let mut offered = 0;
    for rs in c.rays.chunks_exact(4) {
        for r in rs {
            let d = Drive1 { c, r, steps, cap };
            let logs: Vec<(&str, Log1)> = vec![
                ("bvh.traverse_iter", d.run("bvh.traverse_iter", &mut |ray, cb| {
                    prims_of!(bvh.traverse_iter(ray, prims), prims, cb)
                })?),
                ("bvh.traverse_iter_indices", d.run("bvh.traverse_iter_indices", &mut |ray, cb| {
                    ids_of!(bvh.traverse_iter_indices(ray), cb)
                })?),
                ("IntoRayIterator for bvh", d.run("IntoRayIterator for bvh", &mut |ray, cb| {
                    prims_of!(IntoRayIterator::iter(bvh, ray, prims), prims, cb)
                })?),
                ("IntoRayIndexIterator for bvh", d.run("IntoRayIndexIterator for bvh", &mut |ray, cb| {
                    ids_of!(IntoRayIndexIterator::iter(bvh, ray), cb)
                })?),
                ("BvhIterator::new", d.run("BvhIterator::new", &mut |ray, cb| {
                    prims_of!(BvhIterator::new(ray, bvh, prims), prims, cb)
                })?),
                ("BvhIndexIterator::new", d.run("BvhIndexIterator::new", &mut |ray, cb| {
                    ids_of!(BvhIndexIterator::new(ray, bvh), cb)
                })?),
                ("BvhIterator::from_slices", d.run("BvhIterator::from_slices", &mut |ray, cb| {
                    prims_of!(BvhIterator::from_slices(ray, &bn, &bi, prims), prims, cb)
                })?),
                ("BvhIndexIterator::from_slices", d.run("BvhIndexIterator::from_slices", &mut |ray, cb| {
                    ids_of!(BvhIndexIterator::from_slices(ray, &bn, &bi), cb)
                })?),
            ];
            agree(&[*r], &logs)?;
            offered += logs[0].1.len();
            let logs: Vec<(&str, Log1)> = vec![
                ("mbvh.traverse_iter", d.run("mbvh.traverse_iter", &mut |ray, cb| {
                    prims_of!(mbvh.traverse_iter(ray, prims), prims, cb)
                })?),
                ("mbvh.traverse_iter_indices", d.run("mbvh.traverse_iter_indices", &mut |ray, cb| {
                    ids_of!(mbvh.traverse_iter_indices(ray), cb)
                })?),
                ("IntoRayIterator for mbvh", d.run("IntoRayIterator for mbvh", &mut |ray, cb| {
                    prims_of!(IntoRayIterator::iter(mbvh, ray, prims), prims, cb)
                })?),
                ("IntoRayIndexIterator for mbvh", d.run("IntoRayIndexIterator for mbvh", &mut |ray, cb| {
                    ids_of!(IntoRayIndexIterator::iter(mbvh, ray), cb)
                })?),
                ("MbvhIterator::new", d.run("MbvhIterator::new", &mut |ray, cb| {
                    prims_of!(MbvhIterator::new(ray, mbvh, prims), prims, cb)
                })?),
                ("MbvhIndexIterator::new", d.run("MbvhIndexIterator::new", &mut |ray, cb| {
                    ids_of!(MbvhIndexIterator::new(ray, mbvh), cb)
                })?),
                ("MbvhIterator::from_slices", d.run("MbvhIterator::from_slices", &mut |ray, cb| {
                    prims_of!(MbvhIterator::from_slices(ray, &qn, &qi, prims), prims, cb)
                })?),
                ("MbvhIndexIterator::from_slices", d.run("MbvhIndexIterator::from_slices", &mut |ray, cb| {
                    ids_of!(MbvhIndexIterator::from_slices(ray, &qn, &qi), cb)
                })?),
            ];
            agree(&[*r], &logs)?;
            offered += logs[0].1.len();
            ctx.hit("rays");
        }
        let d = Drive4 { c, rs, steps, cap };
        let logs: Vec<(&str, Log4)> = vec![
            ("bvh.traverse_iter_packet", d.run("bvh.traverse_iter_packet", &mut |p, cb| {
                prims_of!(bvh.traverse_iter_packet(p, prims), prims, cb)
            })?),
            ("bvh.traverse_iter_indices_packet", d.run("bvh.traverse_iter_indices_packet", &mut |p, cb| {
                ids_of!(bvh.traverse_iter_indices_packet(p), cb)
            })?),
            ("IntoPacketIterator for bvh", d.run("IntoPacketIterator for bvh", &mut |p, cb| {
                prims_of!(IntoPacketIterator::iter(bvh, p, prims), prims, cb)
            })?),
            ("IntoPacketIndexIterator for bvh", d.run("IntoPacketIndexIterator for bvh", &mut |p, cb| {
                ids_of!(IntoPacketIndexIterator::iter(bvh, p), cb)
            })?),
            ("BvhPacketIterator::new", d.run("BvhPacketIterator::new", &mut |p, cb| {
                prims_of!(BvhPacketIterator::new(p, bvh, prims), prims, cb)
            })?),
            ("BvhPacketIndexIterator::new", d.run("BvhPacketIndexIterator::new", &mut |p, cb| {
                ids_of!(BvhPacketIndexIterator::new(p, bvh), cb)
            })?),
            ("BvhPacketIterator::from_slices", d.run("BvhPacketIterator::from_slices", &mut |p, cb| {
                prims_of!(BvhPacketIterator::from_slices(p, &bn, &bi, prims), prims, cb)
            })?),
            ("BvhPacketIndexIterator::from_slices", d.run("BvhPacketIndexIterator::from_slices", &mut |p, cb| {
                ids_of!(BvhPacketIndexIterator::from_slices(p, &bn, &bi), cb)
            })?),
        ];
        agree(rs, &logs)?;
        offered += logs[0].1.len();
        let logs: Vec<(&str, Log4)> = vec![
            ("mbvh.traverse_iter_packet", d.run("mbvh.traverse_iter_packet", &mut |p, cb| {
                prims_of!(mbvh.traverse_iter_packet(p, prims), prims, cb)
            })?),
            ("mbvh.traverse_iter_indices_packet", d.run("mbvh.traverse_iter_indices_packet", &mut |p, cb| {
                ids_of!(mbvh.traverse_iter_indices_packet(p), cb)
            })?),
            ("IntoPacketIterator for mbvh", d.run("IntoPacketIterator for mbvh", &mut |p, cb| {
                prims_of!(IntoPacketIterator::iter(mbvh, p, prims), prims, cb)
            })?),
            ("IntoPacketIndexIterator for mbvh", d.run("IntoPacketIndexIterator for mbvh", &mut |p, cb| {
                ids_of!(IntoPacketIndexIterator::iter(mbvh, p), cb)
            })?),
            ("MbvhPacketIterator::new", d.run("MbvhPacketIterator::new", &mut |p, cb| {
                prims_of!(MbvhPacketIterator::new(p, mbvh, prims), prims, cb)
            })?),
            ("MbvhPacketIndexIterator::new", d.run("MbvhPacketIndexIterator::new", &mut |p, cb| {
                ids_of!(MbvhPacketIndexIterator::new(p, mbvh), cb)
            })?),
            ("MbvhPacketIterator::from_slices", d.run("MbvhPacketIterator::from_slices", &mut |p, cb| {
                prims_of!(MbvhPacketIterator::from_slices(p, &qn, &qi, prims), prims, cb)
            })?),
            ("MbvhPacketIndexIterator::from_slices", d.run("MbvhPacketIndexIterator::from_slices", &mut |p, cb| {
                ids_of!(MbvhPacketIndexIterator::from_slices(p, &qn, &qi), cb)
            })?),
        ];
        agree(rs, &logs)?;
        offered += logs[0].1.len();
        ctx.hit("packets");
    }
    ctx.add("primitives offered", offered as u64);
    ctx.add("stopped early", (steps > 0) as u64);
    ctx.add("distances changed by the caller", (c.u[3] > 0) as u64);
    ctx.nontrivial = offered > 0 && bvh.nodes().len() > 1;
    Ok(())
}

fn c14(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    if c.u.len() < 5 || c.rays.len() % 4 != 0 || count(c) == 0 {
        return Ok(());
    }
    let bvh = match built(c, ctx)? {
        Some(b) => b,
        None => return Ok(()),
    };
    let mbvh = convert(&bvh, c.u[2]);
    if c.tris.is_empty() {
        entries(&boxprims(c), &bvh, &mbvh, c, ctx)
    } else {
        entries(&tris_of(c, 0), &bvh, &mbvh, c, ctx)
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C12",
            gen: gen_c12,
            check: c12,
            quick: 450000,
            thorough: 12000000,
            rule: "a tree of more than one node that is deeper than 32 levels, or queried over a short primitive slice, or with a ray having a zero, tiny, infinite or NaN component; or an empty structure",
            assumptions: &["out-of-bounds accesses show as panics of the library's or std's debug assertions, as crashes, or as impossible indices"],
        },
        Prop {
            id: "C13",
            gen: gen_c13,
            check: c13,
            quick: 260000,
            thorough: 12000000,
            rule: "some leaf must not be reached because a box on its path is clearly missed",
            assumptions: &["boxes within a relative margin of 2e-5 of being touched are not judged", "nodes are visited depth first (used for the distance at the time a box is tested)"],
        },
        Prop {
            id: "C14",
            gen: gen_c14,
            check: c14,
            quick: 360000,
            thorough: 8000000,
            rule: "a tree of more than one node of which some primitive is offered",
            assumptions: &[],
        },
    ]
}
