//! C05-C10, C24: the structures the builders and the conversion produce.
use super::hits::convert;
use super::Prop;
use crate::case::Case;
use crate::engine::Ctx;
use crate::ensure;
use crate::gen::G;
use crate::scene::*;
use crate::util::*;
use rtbvh::*;
use serde_json::Value;
use std::collections::HashMap;

/// Box primitives with arbitrary centres.
fn box_scene(g: &mut G, n: usize) -> Vec<[f32; 9]> {
    let kind = g.below(8);
    let scale = if g.chance(0.1) {
        g.pick(&[1e-3f32, 1e-5, 1e-8, 1e7, 1e10, 1e15])
    } else {
        g.pick(&[1.0f32, 1.0, 10.0, 1000.0, 1.0e5])
    };
    let same_c = [g.sym(scale), g.sym(scale), g.sym(scale)];
    let sb = [g.sym(scale), g.sym(scale), g.sym(scale)];
    let se = [g.unit() * scale, g.unit() * scale, g.unit() * scale];
    let k = g.below(3);
    (0..n)
        .map(|i| {
            let mut lo = [g.sym(scale), g.sym(scale), g.sym(scale)];
            let mut e = [g.unit() * scale, g.unit() * scale, g.unit() * scale];
            match kind {
                1 => {
                    lo = sb;
                    e = se;
                }
                2 => e = [0.0; 3],
                3 => {
                    lo = [g.int(-3, 3) as f32, g.int(-3, 3) as f32, g.int(-3, 3) as f32];
                    e = [g.int(0, 1) as f32, g.int(0, 1) as f32, g.int(0, 1) as f32];
                }
                4 => {
                    // separated along one axis only
                    lo = sb;
                    lo[k] += i as f32 * se[k].max(0.01) * 0.1;
                    e = se;
                }
                5 => {
                    lo[k] = 0.0;
                    e[k] = 0.0;
                }
                6 => {
                    for x in e.iter_mut() {
                        *x *= 0.01;
                    }
                }
                _ => {}
            }
            let hi = [lo[0] + e[0], lo[1] + e[1], lo[2] + e[2]];
            let c = match kind {
                7 => same_c,
                6 => [g.sym(2.0 * scale), g.sym(2.0 * scale), g.sym(2.0 * scale)],
                _ => [
                    0.5 * (lo[0] + hi[0]),
                    0.5 * (lo[1] + hi[1]),
                    0.5 * (lo[2] + hi[2]),
                ],
            };
            [lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], c[0], c[1], c[2]]
        })
        .collect()
}

/// u: builder, leaf size, centre mode
fn gen_build(g: &mut G, _: u64) -> Case {
    let leaf = leaf_size(g);
    let mode = g.below(2) as i64;
    if g.chance(0.3) {
        let b = g.below(2) as i64;
        let n = if b == LOCB { size(g).min(1500) } else { size(g).min(40_000) };
        return Case {
            prims: box_scene(g, n),
            group: 1,
            u: vec![b, leaf, mode],
            ..Default::default()
        };
    }
    let b = g.below(3) as i64;
    let limit = if b == SPATIAL { 100.0 } else { 1.0e5 };
    let (tris, fam) = any_scene(g, limit);
    let boxes = boxes_for(g, &tris);
    Case {
        tris,
        boxes,
        group: 1,
        u: vec![b, leaf, mode, fam as i64],
        ..Default::default()
    }
}

/// Builds what the case describes; None when the case is no valid input.
pub fn build_case(c: &Case, jitter: u8) -> Option<Result<Bvh, BuildError>> {
    if c.u.len() < 3 {
        return None;
    }
    // The caller's slices lie right before or behind an inaccessible page
    let front = count(c) % 3 == 0;
    let fence = |v: &[Aabb]| Fenced::new(v, front, 0);
    let sup = supplied(c).map(|v| fence(&v));
    if !c.tris.is_empty() {
        if !spec_ok_tris(c) {
            return None;
        }
        let prims = tris_of(c, (c.u[2] as u8 & 1) | jitter);
        let prims = Fenced::new(&prims, front, 0);
        Some(build_tris(&prims, sup.as_deref(), c.u[0], c.u[1]))
    } else if !c.prims.is_empty() {
        if c.prims.iter().any(|p| {
            p.iter().any(|x| !x.is_finite()) || (0..3).any(|a| p[a] > p[a + 3])
        }) || c.u[0] > 1
            || !(c.boxes.is_empty() || c.boxes.len() == c.prims.len())
        {
            return None;
        }
        let prims = Fenced::new(&boxprims(c), front, 0);
        Some(build_boxes(&prims, sup.as_deref(), c.u[0], c.u[1]))
    } else {
        None
    }
}

pub fn count(c: &Case) -> usize {
    c.tris.len().max(c.prims.len())
}

pub fn built(c: &Case, ctx: &mut Ctx) -> Result<Option<Bvh>, String> {
    match build_case(c, 0) {
        None => Ok(None),
        Some(Ok(b)) => {
            ctx.hit(bname(c.u[0]));
            ctx.hit(if c.tris.is_empty() { "box primitives" } else { "triangles" });
            if count(c) >= 1000 {
                ctx.hit("1000 or more primitives");
            }
            Ok(Some(b))
        }
        Some(Err(e)) => Err(format!("build: refused valid input: {}", e)),
    }
}

fn c05(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let bvh = match built(c, ctx)? {
        Some(b) => b,
        None => return Ok(()),
    };
    let n = count(c);
    let t = Tree::of(&bvh)?;
    ensure!(!t.nodes.is_empty(), "malformed: no nodes for {} primitives", n);
    ensure!(
        t.nodes.len() == bvh.nodes().len(),
        "malformed: {} of {} nodes are reached from the root",
        t.nodes.len(),
        bvh.nodes().len()
    );
    for nd in &t.nodes {
        let k = &bvh.nodes()[nd.id];
        ensure!(
            k.is_leaf() != k.has_children() && k.is_valid(),
            "malformed: node {} is neither leaf nor inner node",
            nd.id
        );
    }
    let refs = reference_counts(&t, n)?;
    for (i, r) in refs.iter().enumerate() {
        ensure!(*r > 0, "missing: primitive {} of {} is in no leaf", i, n);
        if c.u[0] != SPATIAL {
            ensure!(*r == 1, "duplicate: primitive {} is referenced {} times", i, r);
        }
    }
    let total = t.refs();
    if c.u[0] == SPATIAL {
        let max = n + (n as f64 * 0.75).floor() as usize;
        ensure!(total <= max, "too many: {} references to {} primitives", total, n);
        ctx.add("spatial duplicates", (total - n) as u64);
        ctx.add("spatial trees with duplicates", (total > n) as u64);
    } else {
        ensure!(
            bvh.indices().len() == n,
            "malformed: {} indices for {} primitives",
            bvh.indices().len(),
            n
        );
    }
    ensure!(bvh.validate(n), "validate: refuses a tree of {} primitives", n);
    ctx.nontrivial = n > 2 && t.nodes.len() > 1;
    Ok(())
}

// ---------------------------------------------------------------------------------------
// C06

fn stab_points(t: &[f32; 9], i: usize) -> Vec<[f64; 3]> {
    let mut w: Vec<[f64; 3]> = vec![
        [1.0, 0.0, 0.0],
        [0.0, 1.0, 0.0],
        [0.0, 0.0, 1.0],
        [0.5, 0.5, 0.0],
        [0.0, 0.5, 0.5],
        [0.5, 0.0, 0.5],
        [1.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0],
    ];
    let mut x = 0.5 + 0.754877 * (i as f64);
    let mut y = 0.25 + 0.569840 * (i as f64);
    for _ in 0..9 {
        x = (x + 0.754877666).fract();
        y = (y + 0.569840290).fract();
        let (a, b) = if x + y > 1.0 { (1.0 - x, 1.0 - y) } else { (x, y) };
        w.push([a, b, 1.0 - a - b]);
        w.push([x, 1.0 - x, 0.0]);
    }
    w.iter()
        .map(|w| {
            let mut p = [0.0; 3];
            for a in 0..3 {
                p[a] = w[0] * t[a] as f64 + w[1] * t[3 + a] as f64 + w[2] * t[6 + a] as f64;
            }
            p
        })
        .collect()
}

fn has_point(b: &Box6, p: &[f64; 3]) -> bool {
    (0..3).all(|a| {
        let tol = 1e-6 * p[a].abs().max(1.0);
        p[a] >= b[a] as f64 - tol && p[a] <= b[a + 3] as f64 + tol
    })
}

fn c06(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let bvh = match built(c, ctx)? {
        Some(b) => b,
        None => return Ok(()),
    };
    let n = count(c);
    let t = Tree::of(&bvh)?;
    let _ = reference_counts(&t, n)?;
    let u = t.unions(&|i| prim_box(c, i));
    let all = (0..n).fold(EMPTY6, |b, i| union6(&b, &prim_box(c, i)));
    for (i, nd) in t.nodes.iter().enumerate() {
        for a in 0..3 {
            let tol = 1e-3 + 2e-6 * u[i][a].abs().max(u[i][a + 3].abs());
            ensure!(
                u[i][a] - nd.b[a] <= tol && nd.b[a + 3] - u[i][a + 3] <= tol,
                "large: node {} at depth {} has box {:?}, its primitives only cover {:?}",
                nd.id,
                nd.depth,
                nd.b,
                u[i]
            );
        }
        if c.u[0] != SPATIAL {
            ensure!(
                inside6(&u[i], &nd.b),
                "small: node {} at depth {} has box {:?}, its primitives cover {:?}",
                nd.id,
                nd.depth,
                nd.b,
                u[i]
            );
        }
    }
    let ob = b6(&bvh.bounds());
    ensure!(
        inside6(&all, &ob),
        "bounds: overall bounds {:?} do not contain {:?}",
        ob,
        all
    );
    if c.u[0] == SPATIAL {
        let mut leaves: Vec<Vec<usize>> = vec![vec![]; n];
        for (i, l) in t.leaves() {
            for p in t.leaf_prims(l) {
                leaves[*p as usize].push(i);
            }
        }
        let mut points = 0;
        for (pi, tr) in c.tris.iter().enumerate() {
            'p: for p in stab_points(tr, pi) {
                points += 1;
                for l in &leaves[pi] {
                    let mut k = *l;
                    let mut ok = true;
                    while k != usize::MAX {
                        if !has_point(&t.nodes[k].b, &p) {
                            ok = false;
                            break;
                        }
                        k = t.nodes[k].parent;
                    }
                    if ok {
                        continue 'p;
                    }
                }
                return Err(format!(
                    "uncovered: point {:?} of triangle {} is in none of the {} leaves that reference it",
                    p,
                    pi,
                    leaves[pi].len()
                ));
            }
            ctx.add("split triangles", (leaves[pi].len() > 1) as u64);
        }
        ctx.add("points checked", points);
    }
    ctx.add("nodes checked", t.nodes.len() as u64);
    ctx.nontrivial = t.nodes.len() > 1;
    Ok(())
}

// ---------------------------------------------------------------------------------------
// C07

fn c07(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let bvh = match built(c, ctx)? {
        Some(b) => b,
        None => return Ok(()),
    };
    let n = count(c);
    let t = Tree::of(&bvh)?;
    let max = c.u[1].max(1) as usize;
    let mut full = 0;
    for (_, l) in t.leaves() {
        let k = l.leaf.unwrap().1;
        if c.u[0] == LOCB {
            if n <= 2 {
                ensure!(
                    t.nodes.len() == 1 && k == n,
                    "shape: clustering makes {} nodes for {} primitives",
                    t.nodes.len(),
                    n
                );
            } else {
                ensure!(k == 1, "leaf size: clustering made a leaf of {}", k);
            }
        } else {
            ensure!(
                k <= max || l.depth >= 64,
                "leaf size: {} primitives in a leaf at depth {}, at most {} were asked for",
                k,
                l.depth,
                max
            );
            full += (k > 1 && k == max) as u64;
            ctx.add("leaves at the depth limit", (l.depth >= 64) as u64);
        }
    }
    ctx.add("leaves filled to the limit", full);
    ctx.nontrivial = n > max;
    Ok(())
}

// ---------------------------------------------------------------------------------------
// C08: u = builder, leaf, centre mode, kind (0 omitted boxes, 1 wrong count, 2 no primitives),
// boxes supplied (kind 2)

fn gen_c08(g: &mut G, i: u64) -> Case {
    let kind = match i % 4 {
        0 | 1 => 0,
        2 => 1,
        _ => 2,
    };
    let mut c = gen_build(g, i);
    c.u.truncate(3);
    c.boxes.clear();
    if !c.tris.is_empty() && g.chance(0.5) {
        // primitives that report more than the box of their vertices
        c.u[2] |= 4;
    }
    c.u.push(kind);
    c.u.push(g.below(4) as i64);
    if kind != 0 {
        let n = count(&c);
        let m = match g.below(5) {
            0 => 0,
            1 => n - 1,
            2 => n + 1,
            3 => g.below(2 * n + 2),
            _ => g.below(4),
        };
        let extra = [-1.0f32, -1.0, -1.0, 1.0, 1.0, 1.0];
        c.boxes = (0..m)
            .map(|i| if i < n { prim_box(&c, i) } else { extra })
            .collect();
        if kind == 2 {
            c.tris.clear();
            c.prims.clear();
        }
        // keep the case small: only the counts matter
        if m == n {
            c.boxes.push(extra);
        }
    }
    c
}

fn c08(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    if c.u.len() < 5 {
        return Ok(());
    }
    let n = count(c);
    let leaf = c.u[1];
    let aabbs: Vec<Aabb> = c.boxes.iter().map(bb).collect();
    // Reading beyond the caller's slices hits an inaccessible page
    let front = c.u[4] & 2 != 0;
    let build = |sup: Option<&[Aabb]>| -> Result<Bvh, BuildError> {
        let fenced = sup.map(|v| Fenced::new(v, front, 0));
        let sup = fenced.as_deref();
        if !c.prims.is_empty() {
            let prims = Fenced::new(&boxprims(c), front, 0);
            build_boxes(&prims, sup, c.u[0], leaf)
        } else {
            let prims = Fenced::new(&tris_of(c, c.u[2] as u8 & 5), front, 0);
            build_tris(&prims, sup, c.u[0], leaf)
        }
    };
    if !c.prims.is_empty() && c.u[0] > 1 {
        return Ok(());
    }
    match c.u[3] {
        0 => {
            if n == 0 {
                return Ok(());
            }
            let own: Vec<Aabb> = if c.prims.is_empty() {
                tris_of(c, c.u[2] as u8 & 4).iter().map(|p| p.aabb()).collect()
            } else {
                boxprims(c).iter().map(|p| p.aabb()).collect()
            };
            let a = build(None).map_err(|e| format!("build: refused valid input: {}", e))?;
            let b =
                build(Some(&own)).map_err(|e| format!("build: refused valid input: {}", e))?;
            ensure!(
                Tree::of(&a)?.canonical() == Tree::of(&b)?.canonical(),
                "different: building {} primitives without boxes and with their own boxes gives different trees",
                n
            );
            // the words beside the corners of a supplied box belong to the caller
            let marked: Vec<Aabb> = own
                .iter()
                .enumerate()
                .map(|(i, b)| Aabb {
                    extra1: [-1, 7, i32::MAX][i % 3],
                    extra2: [i as i32 - 3, i32::MIN][i & 1],
                    ..*b
                })
                .collect();
            let m = build(Some(&marked)).map_err(|e| format!("build: refused valid input: {}", e))?;
            ensure!(
                Tree::of(&a)?.canonical() == Tree::of(&m)?.canonical(),
                "different: what the caller keeps in the spare words of {} boxes changes the tree",
                n
            );
            if c.u[0] != SPATIAL {
                // boxes are primitives themselves, with their middles as centres
                let same: Vec<BoxPrim> = own
                    .iter()
                    .enumerate()
                    .map(|(i, b)| BoxPrim {
                        id: i as u32,
                        b: *b,
                        c: b.center(),
                    })
                    .collect();
                let t = build_boxes(&own, None, c.u[0], leaf)
                    .map_err(|e| format!("build: refused boxes as primitives: {}", e))?;
                let w = build_boxes(&same, Some(&own), c.u[0], leaf)
                    .map_err(|e| format!("build: refused valid input: {}", e))?;
                ensure!(
                    Tree::of(&t)?.canonical() == Tree::of(&w)?.canonical(),
                    "different: building from {} boxes themselves gives another tree than from primitives with these boxes",
                    n
                );
                ctx.hit("boxes as primitives");
            }
            ctx.hit("own boxes");
            if c.u[2] & 4 != 0 {
                ctx.hit("primitives with boxes larger than their vertices");
            }
            ctx.nontrivial = n > 2;
        }
        1 => {
            if n == 0 || c.boxes.len() == n {
                return Ok(());
            }
            let refused = build(Some(&aabbs));
            if let Err(e @ BuildError::InequalAabbsAndPrimitives(..)) = &refused {
                let text = e.to_string();
                let numbers: Vec<usize> = text
                    .split(|c: char| !c.is_ascii_digit())
                    .filter_map(|w| w.parse().ok())
                    .collect();
                ensure!(
                    numbers == [aabbs.len(), n],
                    "message: {:?} for {} boxes and {} primitives",
                    text,
                    aabbs.len(),
                    n
                );
            }
            match refused {
                Err(BuildError::InequalAabbsAndPrimitives(x, y)) => {
                    ensure!(
                        x == aabbs.len() && y == n,
                        "counts: error reports {} boxes and {} primitives, given were {} and {}",
                        x,
                        y,
                        aabbs.len(),
                        n
                    );
                }
                Err(e) => return Err(format!("wrong error: {:?} for {} boxes and {} primitives", e, aabbs.len(), n)),
                Ok(_) => {
                    return Err(format!(
                        "accepted: {} boxes for {} primitives",
                        aabbs.len(),
                        n
                    ))
                }
            }
            ctx.hit("wrong number of boxes");
            ctx.nontrivial = true;
        }
        _ => {
            if n != 0 {
                return Ok(());
            }
            let sup = if c.u[4] & 1 == 1 { Some(&aabbs[..]) } else { None };
            for box_prims in [false, true] {
                let r = if box_prims {
                    if c.u[0] > 1 {
                        continue;
                    }
                    build_boxes::<BoxPrim>(&[], sup, c.u[0], leaf)
                } else {
                    build_tris(&[], sup, c.u[0], leaf)
                };
                match r {
                    Err(e @ BuildError::NoPrimitives) => {
                        ensure!(
                            !e.to_string().chars().any(|c| c.is_ascii_digit()),
                            "message: {:?} for no primitives",
                            e.to_string()
                        );
                    }
                    Err(e) => return Err(format!("wrong error: {:?} for no primitives", e)),
                    Ok(_) => return Err("accepted: no primitives".into()),
                }
            }
            ctx.hit("no primitives");
            ctx.nontrivial = true;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------
// C09

fn gen_c09(g: &mut G, _: u64) -> Case {
    let b = g.below(3) as i64;
    let fam = g.below(FAMILIES);
    let n = match g.weighted(&[20, 20, 60]) {
        0 => g.int(2, 60) as usize,
        1 => g.int(60, 1000) as usize,
        _ => g.int(1100, 5000) as usize,
    };
    let n = if b == LOCB { n.min(2500) } else { n };
    let tris = scene(g, fam, n, 100.0);
    let boxes = boxes_for(g, &tris);
    let leaf = leaf_size(g);
    let mode = g.below(2) as i64;
    Case {
        tris,
        boxes,
        group: 1,
        u: vec![b, leaf, mode, fam as i64],
        ..Default::default()
    }
}

fn c09(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    use std::sync::OnceLock;
    static POOLS: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    let pools = POOLS.get_or_init(|| {
        [1usize, 3, 8]
            .iter()
            .map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap())
            .collect()
    });
    // What fresh memory happens to hold does not matter either
    let memory = std::sync::atomic::AtomicU64::new(0);
    let go = |jit: u8| -> Result<u64, String> {
        crate::alloc::set_fill(memory.fetch_add(1, std::sync::atomic::Ordering::Relaxed));
        match build_case(c, jit) {
            None => Ok(0),
            Some(Ok(b)) => Ok(Tree::of(&b)?.canonical()),
            Some(Err(e)) => Err(format!("build: {}", e)),
        }
    };
    let first = go(0)?;
    if first == 0 {
        return Ok(());
    }
    ctx.hit(bname(c.u[0]));
    let mut k = 1;
    for (cpus, jit) in [(0usize, 0u8), (0, 2), (1, 0), (2, 2), (3, 2), (5, 0), (0, 2)] {
        let h = with_cpus(cpus, || go(jit))?;
        k += 1;
        ensure!(
            h == first,
            "different: two builds of the same {} primitives differ ({} processors)",
            c.tris.len(),
            cpus
        );
    }
    for p in pools {
        let h = p.install(|| go(2))?;
        k += 1;
        ensure!(
            h == first,
            "different: two builds of the same {} primitives differ (pool of {})",
            c.tris.len(),
            p.current_num_threads()
        );
    }
    ctx.add("builds compared", k);
    ctx.add("cases with parallel tasks", (c.tris.len() > 1024) as u64);
    ctx.nontrivial = c.tris.len() > 16;
    Ok(())
}

// ---------------------------------------------------------------------------------------
// C10: u = builder, leaf, centre mode, route

fn gen_c10(g: &mut G, i: u64) -> Case {
    let mut c = gen_build(g, i);
    c.u.truncate(3);
    if g.chance(0.01) {
        c.tris.clear();
        c.prims.clear();
        c.boxes.clear();
    }
    if i % 6000 == 77 {
        // now and then a tree with more nodes than sixteen bits count
        let n = g.int(35_000, 80_000) as usize;
        c.boxes.clear();
        if g.chance(0.5) {
            c.tris.clear();
            c.prims = box_scene(g, n);
            c.u = vec![0, g.int(1, 2), 0];
        } else {
            let fam = g.below(FAMILIES);
            c.prims.clear();
            c.tris = scene(g, fam, n, 100.0);
            c.u = vec![g.pick(&[0, 0, 2]), g.int(1, 2), 0];
        }
        c.u.push(g.below(3) as i64);
        return c;
    }
    if c.tris.len() > 900 || c.prims.len() > 900 {
        // conversions do not depend on size: keep most cases cheap
        if c.tris.len().max(c.prims.len()) < 30_000 && g.chance(0.7) {
            c.tris.truncate(200);
            c.prims.truncate(200);
            c.boxes.truncate(200);
        }
    }
    if g.chance(0.25) {
        let k = g.int(1, 7) as usize;
        c.tris.truncate(k);
        c.prims.truncate(k);
        c.boxes.truncate(k);
    }
    c.u.push(g.below(3) as i64);
    c
}

/// Compares a four-wide structure with the tree it came from.
pub fn same_content(c: &Case, bvh: &Bvh, t: &Tree, m: &Mbvh) -> Result<usize, String> {
    let slots = walk_quads(m.quad_nodes())?;
    let mut want: Vec<(usize, usize)> = t.leaves().map(|(_, l)| l.leaf.unwrap()).collect();
    let mut got: Vec<(usize, usize)> = slots.iter().filter_map(|s| s.leaf).collect();
    want.sort();
    got.sort();
    ensure!(
        want == got,
        "leaves: the tree has leaf runs {:?}.., the slots hold {:?}..",
        &want[..want.len().min(8)],
        &got[..got.len().min(8)]
    );
    // Leaves numbered in tree order
    let mut rank: HashMap<(usize, usize), usize> = HashMap::new();
    let mut lo = vec![usize::MAX; t.nodes.len()];
    let mut hi = vec![0usize; t.nodes.len()];
    let mut k = 0;
    for (i, n) in t.nodes.iter().enumerate() {
        if let Some(r) = n.leaf {
            rank.insert(r, k);
            lo[i] = k;
            hi[i] = k;
            k += 1;
        }
    }
    for i in (0..t.nodes.len()).rev() {
        let p = t.nodes[i].parent;
        if p != usize::MAX {
            lo[p] = lo[p].min(lo[i]);
            hi[p] = hi[p].max(hi[i]);
        }
    }
    let mut by_range: HashMap<(usize, usize), usize> = HashMap::new();
    for i in 0..t.nodes.len() {
        by_range.entry((lo[i], hi[i])).or_insert(i);
    }
    let mut slo = vec![usize::MAX; slots.len()];
    let mut shi = vec![0usize; slots.len()];
    let mut scount = vec![0usize; slots.len()];
    let mut geo = vec![EMPTY6; slots.len()];
    for i in (0..slots.len()).rev() {
        if let Some(r) = slots[i].leaf {
            slo[i] = rank[&r];
            shi[i] = rank[&r];
            scount[i] = 1;
            for p in &t.indices[r.0..r.0 + r.1] {
                geo[i] = union6(&geo[i], &prim_box(c, *p as usize));
            }
        }
        let u = slots[i].up;
        if u != usize::MAX {
            slo[u] = slo[u].min(slo[i]);
            shi[u] = shi[u].max(shi[i]);
            scount[u] += scount[i];
            let gi = geo[i];
            geo[u] = union6(&geo[u], &gi);
        }
    }
    let spatial = bvh.build_type() == BuildType::Spatial;
    for i in 0..slots.len() {
        if scount[i] == 0 {
            continue;
        }
        if !spatial {
            ensure!(
                inside6(&geo[i], &slots[i].b),
                "slot box: {:?} does not contain the geometry {:?} below it",
                slots[i].b,
                geo[i]
            );
        }
        let exact = scount[i] == shi[i] - slo[i] + 1;
        let node = match by_range.get(&(slo[i], shi[i])) {
            Some(n) if exact => *n,
            _ => continue,
        };
        let nb = t.nodes[node].b;
        let shrunk = {
            let mut b = nb;
            for a in 0..3 {
                let d = 2.1e-4 + 1e-6 * nb[a].abs().max(nb[a + 3].abs());
                b[a] += d;
                b[a + 3] -= d;
                if b[a] > b[a + 3] {
                    let m = 0.5 * (nb[a] + nb[a + 3]);
                    b[a] = m;
                    b[a + 3] = m;
                }
            }
            b
        };
        // a node above nothing but degenerate references may have an empty box
        let empty = (0..3).any(|a| nb[a] > nb[a + 3]);
        if spatial && !empty {
            ensure!(
                inside6(&shrunk, &slots[i].b),
                "slot box: {:?} is smaller than the tree's box {:?}",
                slots[i].b,
                nb
            );
        }
        let mut region = nb;
        let p = t.nodes[node].parent;
        if p != usize::MAX {
            region = union6(&region, &t.nodes[p].b);
        }
        ensure!(
            inside6(&slots[i].b, &region),
            "slot box: {:?} is larger than the region {:?} it stands for",
            slots[i].b,
            region
        );
    }
    // Carried over unchanged
    ensure!(
        m.indices() == bvh.indices() && m.prim_count() == bvh.prim_count(),
        "indices: the index list changed"
    );
    ensure!(
        m.nodes().len() == bvh.nodes().len()
            && m.nodes().iter().zip(bvh.nodes()).all(|(a, b)| {
                node_box(a).map(f32::to_bits) == node_box(b).map(f32::to_bits)
                    && a.get_count_unchecked() == b.get_count_unchecked()
                    && a.get_left_first_unchecked() == b.get_left_first_unchecked()
            }),
        "nodes: the underlying nodes changed"
    );
    ensure!(
        b6(&m.bounds()) == b6(&bvh.bounds()),
        "bounds: the overall bounds changed"
    );
    Ok(slots.len())
}

fn c10(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    if c.u.len() < 4 {
        return Ok(());
    }
    if count(c) == 0 {
        let e = Bvh::default();
        for m in [Mbvh::construct(&e), Mbvh::from(e.clone())] {
            ensure!(
                m.quad_nodes().is_empty() && m.nodes().is_empty() && m.indices().is_empty(),
                "empty: an empty tree converts to a non-empty one"
            );
            ensure!(
                b6(&m.bounds()) == b6(&e.bounds()) && m.prim_count() == 0,
                "empty: bounds or primitive count of an empty structure differ"
            );
        }
        ctx.hit("empty trees");
        return Ok(());
    }
    let bvh = match built(c, ctx)? {
        Some(b) => b,
        None => return Ok(()),
    };
    let t = Tree::of(&bvh)?;
    let m = if c.u[3] == 2 {
        // exported raw nodes and indices
        let (nodes, indices) = bvh.clone().into_raw();
        Mbvh::construct_from_raw(&nodes, &indices)
    } else {
        convert(&bvh, c.u[3])
    };
    let slots = same_content(c, &bvh, &t, &m)?;
    // Exports
    let (qn, qi) = m.clone().into_raw();
    ensure!(
        qn.len() == m.quad_nodes().len()
            && &qi[..] == m.indices()
            && m.clone().into_raw_nodes().len() == qn.len()
            && m.clone().into_raw_indices() == qi,
        "export: raw nodes or indices differ from the structure's"
    );
    ctx.add("slots checked", slots as u64);
    ctx.add("trees of more than 65536 nodes", (t.nodes.len() > 65536) as u64);
    ctx.hit(["by reference", "by value", "from raw"][c.u[3].clamp(0, 2) as usize]);
    ctx.add("more than one quad node", (m.quad_nodes().len() > 1) as u64);
    ctx.nontrivial = t.nodes.len() > 1;
    Ok(())
}

// ---------------------------------------------------------------------------------------
// C24: ops are edits [kind, a, b] of the stored form of a tree

fn gen_c24(g: &mut G, _: u64) -> Case {
    let b = g.below(3) as i64;
    let fam = g.below(FAMILIES);
    if g.chance(0.005) {
        // the empty tree
        return Case {
            group: 1,
            u: vec![b, 0, 0, g.pick(&[0i64, 1, 2, 40])],
            ..Default::default()
        };
    }
    let n = match g.below(4) {
        _ if g.chance(0.001) => g.int(4000, 9000),
        _ if g.chance(0.0001) => g.int(65_500, 66_500),
        _ if g.chance(0.02) => g.int(200, 700),
        0 => g.int(1, 6),
        1 => g.int(6, 40),
        _ => g.int(3, 150),
    } as usize;
    let tris = scene(g, fam, n, 100.0);
    let leaf = leaf_size(g);
    let k = g.below(4);
    let mut ops: Vec<Vec<i64>> = (0..k)
        .map(|_| {
            vec![
                g.below(4) as i64,
                g.int(0, 1 << 20),
                g.int(0, 1 << 20),
            ]
        })
        .collect();
    if tris.len() > 256 && g.chance(0.5) {
        // one primitive named by a whole run of entries, of a length at which counters wrap
        let len = if tris.len() > 65_536 {
            65_536
        } else {
            g.pick(&[256, 256, 255, 257, 512])
        };
        ops.insert(0, vec![4, g.int(0, 1 << 20), g.int(0, 1 << 20), len]);
        if g.chance(0.7) {
            ops.insert(1, vec![5, 0, 0]);
        }
    }
    let extra = g.pick(&[0i64, 0, 0, 1, 3, 50]);
    Case {
        tris,
        group: 1,
        u: vec![b, leaf, 0, extra],
        ops,
        ..Default::default()
    }
}

/// The JSON array that lists the primitives, and the one that holds the nodes, are
/// recognised by their content.
fn find_arrays(v: &mut Value, bvh: &Bvh) -> Option<(String, String)> {
    let o = v.as_object()?;
    let (mut ik, mut nk) = (None, None);
    for (k, x) in o {
        if let Some(a) = x.as_array() {
            if a.len() == bvh.indices().len()
                && a.iter()
                    .zip(bvh.indices())
                    .all(|(x, i)| x.as_u64() == Some(*i as u64))
            {
                ik = Some(k.clone());
            } else if a.len() == bvh.nodes().len() && a.iter().all(|x| x.is_object()) {
                nk = Some(k.clone());
            }
        }
    }
    Some((ik?, nk?))
}

fn c24(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    if !(c.tris.is_empty() || spec_ok_tris(c)) || c.u.len() < 4 {
        return Ok(());
    }
    if c.tris.is_empty() {
        let e = Bvh::default();
        let k = c.u[3].clamp(0, 1000) as usize;
        ensure!(
            e.validate(k) == (k == 0),
            "validate: an empty tree {} {} primitives",
            if k == 0 { "refuses" } else { "accepts" },
            k
        );
        ctx.hit("empty trees");
        return Ok(());
    }
    let prims = tris_of(c, 0);
    let bvh = build_tris(&prims, None, c.u[0], c.u[1]).map_err(|e| format!("build: {}", e))?;
    let n = prims.len();
    ensure!(bvh.validate(n), "validate: refuses a built tree of {} primitives", n);
    let extra = c.u[3].clamp(0, 1000) as usize;
    if extra > 0 {
        ensure!(
            !bvh.validate(n + extra),
            "validate: accepts {} primitives for a tree of {}",
            n + extra,
            n
        );
        ctx.hit("more primitives claimed");
    }
    let mut v = serde_json::to_value(&bvh).map_err(|e| format!("store: {}", e))?;
    let (ik, nk) = match find_arrays(&mut v, &bvh) {
        Some(x) => x,
        None => return Err("store: the stored form has no node and index lists".into()),
    };
    let leaf_nodes: Vec<usize> = (0..bvh.nodes().len())
        .filter(|i| bvh.nodes()[*i].is_leaf())
        .collect();
    for op in &c.ops {
        if op.len() < 3 {
            continue;
        }
        let (a, b) = (op[1] as usize, op[2] as usize);
        match op[0] {
            0 => {
                // one index entry names another primitive
                let arr = v[&ik].as_array_mut().unwrap();
                let l = arr.len();
                arr[a % l] = Value::from((b % n) as u64);
            }
            1 => {
                // a primitive disappears from the whole list
                let arr = v[&ik].as_array_mut().unwrap();
                let gone = (a % n) as u64;
                for x in arr.iter_mut() {
                    if x.as_u64() == Some(gone) {
                        *x = Value::from((b % n) as u64);
                    }
                }
            }
            4 => {
                // a run of entries names one primitive, taken from that run
                let len = op.get(3).map_or(256, |x| (*x).max(1)) as usize;
                let arr = v[&ik].as_array_mut().unwrap();
                let l = arr.len();
                let len = len.min(l);
                let s = a % (l - len + 1);
                let one = arr[s + b % len].clone();
                arr[s..s + len].fill(one);
                ctx.hit("runs naming one primitive");
            }
            5 => {
                // the primitives named are renumbered without gaps
                let arr = v[&ik].as_array_mut().unwrap();
                let mut ids: Vec<u64> = arr.iter().filter_map(|x| x.as_u64()).collect();
                ids.sort_unstable();
                ids.dedup();
                for x in arr.iter_mut() {
                    let at = x.as_u64().and_then(|x| ids.binary_search(&x).ok());
                    *x = Value::from(at.unwrap_or(0) as u64);
                }
                ctx.hit("entries renumbered without gaps");
            }
            k => {
                // 2: a leaf loses entries from its end; 3: two leaves share one run
                let li = leaf_nodes[a % leaf_nodes.len()];
                let lj = leaf_nodes[b % leaf_nodes.len()];
                let other = {
                    let nd = &bvh.nodes()[lj];
                    (nd.get_count_unchecked(), nd.get_left_first_unchecked())
                };
                let me = {
                    let nd = &bvh.nodes()[li];
                    (nd.get_count_unchecked(), nd.get_left_first_unchecked())
                };
                // the two integers beside the corners, recognised by value
                let node = v[&nk].as_array_mut().unwrap().get_mut(li).unwrap();
                set_extras(
                    node,
                    me,
                    if k == 2 {
                        ((me.0 - 1).max(0), me.1)
                    } else {
                        other
                    },
                );
            }
        }
    }
    let edited: Bvh = match serde_json::from_value(v) {
        Ok(b) => b,
        Err(e) => return Err(format!("load: {}", e)),
    };
    let t = Tree::of(&edited)?;
    let mut present = vec![false; n];
    for (_, l) in t.leaves() {
        let (f, k) = l.leaf.unwrap();
        if f + k > t.indices.len() {
            return Ok(());
        }
        for p in t.leaf_prims(l) {
            present[*p as usize] = true;
        }
    }
    let want = present.iter().all(|p| *p);
    let got = edited.validate(n);
    ensure!(
        got == want,
        "validate: says {} although {} of {} primitives are referenced",
        got,
        present.iter().filter(|p| **p).count(),
        n
    );
    // Also for the smallest number of primitives that can be claimed
    let top = t
        .leaves()
        .flat_map(|(_, l)| t.leaf_prims(l).to_vec())
        .max()
        .map_or(0, |m| m as usize + 1);
    let want2 = present[..top].iter().all(|p| *p);
    let got2 = edited.validate(top);
    ensure!(
        got2 == want2,
        "validate: says {} for {} primitives although {} of them are referenced",
        got2,
        top,
        present[..top].iter().filter(|p| **p).count()
    );
    ctx.add("trees of more than 256 primitives", (n > 256) as u64);
    ctx.add("trees of more than 4000 primitives", (n > 4000) as u64);
    ctx.add("trees of more than 65000 primitives", (n > 65000) as u64);
    ctx.add("trees with a primitive missing", !want as u64);
    ctx.add("edited but complete trees", (want && !c.ops.is_empty()) as u64);
    ctx.nontrivial = t.nodes.len() > 1 && (!c.ops.is_empty() || extra > 0);
    Ok(())
}

/// Replaces the (count, first) pair of a stored node.
fn set_extras(node: &mut Value, old: (i32, i32), new: (i32, i32)) {
    fn ints<'a>(v: &'a mut Value, out: &mut Vec<&'a mut Value>) {
        match v {
            Value::Object(o) => {
                for (_, x) in o.iter_mut() {
                    ints(x, out);
                }
            }
            Value::Number(n) if n.is_i64() => out.push(v),
            _ => {}
        }
    }
    let mut v = vec![];
    ints(node, &mut v);
    if v.len() == 2 {
        // the order of the two is found by value; equal values are interchangeable only
        // if the new ones are as well, otherwise stay with the field order
        let first_is_count = v[0].as_i64() == Some(old.0 as i64);
        let (a, b) = if first_is_count { (new.0, new.1) } else { (new.1, new.0) };
        *v[0] = Value::from(a);
        *v[1] = Value::from(b);
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            gen: gen_build,
            check: c05,
            quick: 180000,
            thorough: 8000000,
            rule: "more than two primitives and a tree of more than one node",
            assumptions: &["coordinates are finite and at most 1e5 (100 for spatial splits)"],
        },
        Prop {
            id: "C06",
            gen: gen_build,
            check: c06,
            quick: 300000,
            thorough: 8000000,
            rule: "a tree of more than one node",
            assumptions: &[
                "with spatial splits the cover of each triangle is tested at 25 points of it",
                "boxes supplied by the caller contain their primitive",
            ],
        },
        Prop {
            id: "C07",
            gen: gen_build,
            check: c07,
            quick: 300000,
            thorough: 8000000,
            rule: "more primitives than fit one leaf",
            assumptions: &["coordinates are finite and at most 1e5 (100 for spatial splits)"],
        },
        Prop {
            id: "C08",
            gen: gen_c08,
            check: c08,
            quick: 96000,
            thorough: 4000000,
            rule: "an input that must be refused, or a scene of more than two primitives built with and without boxes",
            assumptions: &["coordinates are finite and at most 1e5 (100 for spatial splits)"],
        },
        Prop {
            id: "C09",
            gen: gen_c09,
            check: c09,
            quick: 960,
            thorough: 50000,
            rule: "more than 16 primitives built eleven times under different processor counts, thread pools and stalls",
            assumptions: &["schedules are those the operating system produces under processor limits and injected stalls; they are not enumerated"],
        },
        Prop {
            id: "C10",
            gen: gen_c10,
            check: c10,
            quick: 320000,
            thorough: 12000000,
            rule: "a tree of more than one node",
            assumptions: &["trees come from the three builders"],
        },
        Prop {
            id: "C24",
            gen: gen_c24,
            check: c24,
            quick: 400000,
            thorough: 12000000,
            rule: "a tree of more than one node that was edited, or for which more primitives are claimed",
            assumptions: &["edited trees stay well-formed: runs within the index list, indices below the claimed number"],
        },
    ]
}
