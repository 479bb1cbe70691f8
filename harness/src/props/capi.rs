//! C21, C22: the C interface, called as a C program would call it.
use super::hits::{S, EPS};
use super::Prop;
use crate::case::Case;
use crate::engine::Ctx;
use crate::ensure;
use crate::ffi::*;
use crate::gen::G;
use crate::oracle::{plain_hit, robust_hit};
use crate::scene::*;
use crate::util::*;
use glam::*;
use rtbvh::*;
use std::collections::{BTreeMap, HashSet};
use std::ffi::c_void;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::Duration;

// ---------------------------------------------------------------------------------------
// Memory handed to the C functions

/// Float words that end right before an inaccessible page (`off` words before it), so that
/// reading beyond what the documentation lets a callee read is noticed, and that are aligned
/// to four bytes only.
struct Buf {
    base: *mut u8,
    total: usize,
    start: *mut f32,
}

const PAGE: usize = 4096;

impl Buf {
    fn new(words: &[f32], off: usize) -> Buf {
        let bytes = (words.len() + off) * 4;
        let data = bytes.div_ceil(PAGE).max(1) * PAGE;
        let total = data + PAGE;
        unsafe {
            let base = libc::mmap(
                std::ptr::null_mut(),
                total,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            ) as *mut u8;
            assert!(base as isize != -1, "mmap");
            libc::mprotect(base.add(data) as *mut c_void, PAGE, libc::PROT_NONE);
            let start = base.add(data - bytes) as *mut f32;
            std::ptr::copy_nonoverlapping(words.as_ptr(), start, words.len());
            for i in 0..off {
                *start.add(words.len() + i) = f32::NAN;
            }
            Buf { base, total, start }
        }
    }
    fn p(&self) -> *const f32 {
        self.start
    }
    fn boxes(&self) -> *const RtAabb {
        self.start as *const RtAabb
    }
}

impl Drop for Buf {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base as *mut c_void, self.total);
        }
    }
}

fn box_words(boxes: &[Box6], salt: i64) -> Vec<f32> {
    let mut v = Vec::with_capacity(boxes.len() * 8);
    for (i, b) in boxes.iter().enumerate() {
        // The two words between the corners are the caller's own business
        let junk = match salt & 3 {
            0 => (-1i32, -1i32),
            1 => (0, 0),
            2 => (1, i as i32),
            _ => (0x7fc0_0000, 0x7fc0_0000),
        };
        v.extend_from_slice(&b[0..3]);
        v.push(f32::from_bits(junk.0 as u32));
        v.extend_from_slice(&b[3..6]);
        v.push(f32::from_bits(junk.1 as u32));
    }
    v
}

fn centre(t: &[f32; 9]) -> [f32; 3] {
    let c = Tri::new(0, t, 0).center();
    [c.x, c.y, c.z]
}

fn centre_words(tris: &[[f32; 9]], stride: usize) -> Vec<f32> {
    let w = stride / 4;
    let mut v = vec![f32::NAN; tris.len() * w];
    for (i, t) in tris.iter().enumerate() {
        v[i * w..i * w + 3].copy_from_slice(&centre(t));
    }
    v
}

/// The vertices of the triangles in one of three layouts: (words, vertex stride, triangle
/// stride), strides in bytes.
fn vertex_words(tris: &[[f32; 9]], layout: i64, pad1: usize, pad2: usize) -> (Vec<f32>, usize, usize) {
    let n = tris.len();
    match layout {
        0 => {
            // one triangle after the other
            let vs = 3 + pad1;
            let ts = 3 * vs + pad2;
            let mut v = vec![f32::NAN; (n - 1) * ts + 2 * vs + 3];
            for (i, t) in tris.iter().enumerate() {
                for k in 0..3 {
                    v[i * ts + k * vs..i * ts + k * vs + 3].copy_from_slice(&t[k * 3..k * 3 + 3]);
                }
            }
            (v, vs * 4, ts * 4)
        }
        1 => {
            // all first vertices, all second vertices, all third vertices
            let ts = 3 + pad2;
            let vs = n * ts + pad1;
            let mut v = vec![f32::NAN; 2 * vs + (n - 1) * ts + 3];
            for (i, t) in tris.iter().enumerate() {
                for k in 0..3 {
                    v[i * ts + k * vs..i * ts + k * vs + 3].copy_from_slice(&t[k * 3..k * 3 + 3]);
                }
            }
            (v, vs * 4, ts * 4)
        }
        _ => {
            // a strip: triangle i has the vertices i, i + 1 and i + 2
            let vs = 3 + pad1;
            let mut v = vec![f32::NAN; (n + 1) * vs + 3];
            for (i, t) in tris.iter().enumerate() {
                v[i * vs..i * vs + 3].copy_from_slice(&t[0..3]);
            }
            let l = tris[n - 1];
            v[n * vs..n * vs + 3].copy_from_slice(&l[3..6]);
            v[(n + 1) * vs..(n + 1) * vs + 3].copy_from_slice(&l[6..9]);
            (v, vs * 4, vs * 4)
        }
    }
}

/// The triangles a strip of vertices describes.
fn strip(tris: &[[f32; 9]]) -> Vec<[f32; 9]> {
    let mut v: Vec<[f32; 3]> = tris.iter().map(|t| [t[0], t[1], t[2]]).collect();
    let l = tris[tris.len() - 1];
    v.push([l[3], l[4], l[5]]);
    v.push([l[6], l[7], l[8]]);
    (0..tris.len())
        .map(|i| {
            let (a, b, c) = (v[i], v[i + 1], v[i + 2]);
            [a[0], a[1], a[2], b[0], b[1], b[2], c[0], c[1], c[2]]
        })
        .collect()
}

// ---------------------------------------------------------------------------------------
// Reading what a handle describes

fn tree_of(h: &RtBvh) -> Result<Tree, String> {
    let nodes: Vec<BvhNode> = h
        .node_slice()
        .iter()
        .map(|n| BvhNode {
            bounds: Aabb {
                min: n.min.into(),
                extra1: n.count,
                max: n.max.into(),
                extra2: n.left_first,
            },
        })
        .collect();
    Tree::walk(&nodes, h.index_slice())
}

/// Leaf runs and their boxes, and the boxes of the inner slots with all leaf runs beneath.
fn quad_leaves(h: &RtMbvh) -> Result<Vec<(usize, usize, Vec<Box6>)>, String> {
    let nodes = h.node_slice();
    let mut out = vec![];
    if nodes.is_empty() {
        return Ok(out);
    }
    let mut seen = vec![false; nodes.len()];
    let mut stack: Vec<(usize, Vec<Box6>)> = vec![(0, vec![])];
    while let Some((q, path)) = stack.pop() {
        if q >= nodes.len() || seen[q] {
            return Err(format!("malformed: quad node {} of {} (again)", q, nodes.len()));
        }
        seen[q] = true;
        let n = &nodes[q];
        for i in 0..4 {
            let mut p = path.clone();
            p.push([n.b[0][i], n.b[2][i], n.b[4][i], n.b[1][i], n.b[3][i], n.b[5][i]]);
            if n.counts[i] >= 0 {
                if n.children[i] < 0 {
                    return Err(format!("malformed: slot {} of quad {}", i, q));
                }
                out.push((n.children[i] as usize, n.counts[i] as usize, p));
            } else if n.children[i] >= 0 {
                stack.push((n.children[i] as usize, p));
            }
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------------------------------
// Queries

#[derive(Clone, Copy)]
enum H {
    B(RtBvh),
    M(RtMbvh),
}

impl H {
    fn name(&self) -> &'static str {
        match self {
            H::B(_) => "bvh",
            H::M(_) => "mbvh",
        }
    }
}

type Call<'a> = &'a mut dyn FnMut(u32, &mut [f32]) -> bool;

struct Data<'a> {
    lanes: usize,
    call: Call<'a>,
}

extern "C" fn trampoline(id: u32, t: *mut f32, data: *mut c_void) -> bool {
    let d = unsafe { &mut *(data as *mut Data) };
    let t = unsafe { std::slice::from_raw_parts_mut(t, d.lanes) };
    (d.call)(id, t)
}

const GUARD: u32 = 0x7fc1_2345;

/// One query; `r` holds one ray or four.  Returns the code and the distances written back.
fn query(h: &H, r: &[[f32; 8]], t: &[f32], off: usize, call: Call) -> Result<(u32, Vec<f32>), String> {
    let lanes = r.len();
    let mut d = Data { lanes, call };
    let user = &mut d as *mut Data as *mut c_void;
    // The distances lie between guard words
    let mut words = vec![f32::from_bits(GUARD); 2];
    words.extend_from_slice(t);
    words.push(f32::from_bits(GUARD));
    let tb = Buf::new(&words, off);
    let tp = unsafe { tb.start.add(2) };
    let code = if lanes == 1 {
        let o = Buf::new(&r[0][0..3], off & 1);
        let dir = Buf::new(&r[0][3..6], off >> 1);
        unsafe {
            match h {
                H::B(b) => intersect(*b, o.p(), dir.p(), tp, user, trampoline),
                H::M(b) => intersect_mbvh(*b, o.p(), dir.p(), tp, user, trampoline),
            }
        }
    } else {
        let b: Vec<Buf> = (0..6)
            .map(|a| {
                let w: Vec<f32> = r.iter().map(|r| r[a]).collect();
                Buf::new(&w, (off + a) & 3)
            })
            .collect();
        let p = |i: usize| b[i].p();
        unsafe {
            match h {
                H::B(x) => {
                    intersect_packet(*x, p(0), p(1), p(2), p(3), p(4), p(5), tp, user, trampoline)
                }
                H::M(x) => intersect_mbvh_packet(
                    *x,
                    p(0),
                    p(1),
                    p(2),
                    p(3),
                    p(4),
                    p(5),
                    tp,
                    user,
                    trampoline,
                ),
            }
        }
    };
    let all = unsafe { std::slice::from_raw_parts(tb.p(), words.len()) };
    ensure!(
        all[0].to_bits() == GUARD && all[1].to_bits() == GUARD && all[2 + lanes].to_bits() == GUARD,
        "overwrites: the {} query writes beside the distances",
        h.name()
    );
    Ok((code, all[2..2 + lanes].to_vec()))
}

fn same_bits(a: &[f32], b: &[f32]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}

/// The primitives a query offers when the callback leaves the distance alone.
fn record(h: &H, r: &[[f32; 8]], off: usize) -> Result<Vec<u32>, String> {
    let t: Vec<f32> = r.iter().map(|r| r[7]).collect();
    let mut log = vec![];
    let mut bad = false;
    let t0 = t.clone();
    let (code, out) = query(h, r, &t, off, &mut |id, t| {
        log.push(id);
        bad |= !same_bits(t, &t0);
        log.len() > 1_000_000
    })?;
    ensure!(code == OK, "code: query of a {} answers {}", h.name(), code);
    ensure!(
        !bad && same_bits(&out, &t),
        "distance: the {} query changes the distances {:?} by itself to {:?}",
        h.name(),
        t,
        out
    );
    Ok(log)
}

/// All the checks of one query against one structure; `tmin` is the distance below which
/// hits do not count.
fn check_query(
    h: &H,
    tris: &[[f32; 9]],
    refs: &[u32],
    r: &[[f32; 8]],
    off: usize,
    stop: usize,
) -> Result<usize, String> {
    let lanes = r.len();
    let tmin = if lanes == 1 { 1e-4f32 } else { 0.0 };
    let log = record(h, r, off)?;
    let mut times = vec![0u32; tris.len()];
    for id in &log {
        ensure!(
            (*id as usize) < tris.len(),
            "primitive: the {} query offers {} of {}",
            h.name(),
            id,
            tris.len()
        );
        times[*id as usize] += 1;
        ensure!(
            times[*id as usize] <= refs[*id as usize],
            "again: the {} query offers {} more often than the tree references it",
            h.name(),
            id
        );
    }
    let mut total = 0;
    let mut near = vec![f64::MAX; lanes];
    for (l, r) in r.iter().enumerate() {
        for (i, t) in tris.iter().enumerate() {
            if let Some(x) = robust_hit(t, r) {
                if x > tmin as f64 * (1.0 + EPS) + 1e-12 && x < r[7] as f64 * (1.0 - EPS) {
                    ensure!(
                        times[i] > 0,
                        "lost hit: the {} query ({} rays) does not call back for {} hit at {} by {:?}",
                        h.name(),
                        lanes,
                        i,
                        x,
                        r
                    );
                    total += 1;
                    near[l] = near[l].min(x);
                }
            }
        }
    }
    // Shortening
    let t: Vec<f32> = r.iter().map(|r| r[7]).collect();
    let mut left = t.clone();
    let mut seen_wrong = false;
    let (code, out) = query(h, r, &t, off, &mut |id, t| {
        seen_wrong |= !same_bits(t, &left);
        if let Some(tri) = tris.get(id as usize) {
            for l in 0..lanes {
                if let Some(x) = plain_hit(tri, &r[l]) {
                    let x = x as f32;
                    if x > tmin && x < t[l] {
                        t[l] = x;
                    }
                }
            }
        }
        left = t.to_vec();
        false
    })?;
    ensure!(code == OK, "code: query of a {} answers {}", h.name(), code);
    ensure!(
        !seen_wrong,
        "distance: the callback of a {} query does not see the distance it left",
        h.name()
    );
    ensure!(
        same_bits(&out, &left),
        "written back: the {} query writes {:?}, the callback left {:?}",
        h.name(),
        out,
        left
    );
    for l in 0..lanes {
        ensure!(
            near[l] == f64::MAX || out[l] as f64 <= near[l] * (1.0 + EPS),
            "not nearest: the {} query ends at {} in lane {}, an exhaustive test at {}",
            h.name(),
            out[l],
            l,
            near[l]
        );
    }
    // Stopping early
    if !log.is_empty() {
        let k = 1 + stop % log.len();
        let mut got = vec![];
        let mut left = t.clone();
        let (code, out) = query(h, r, &t, off, &mut |id, t| {
            got.push(id);
            if got.len() == k {
                for (l, x) in t.iter_mut().enumerate() {
                    if (stop >> l) & 1 == 1 {
                        *x = 0.5 + l as f32;
                    }
                }
                left = t.to_vec();
            }
            got.len() >= k
        })?;
        ensure!(code == OK, "code: stopped query of a {} answers {}", h.name(), code);
        ensure!(
            got[..] == log[..k],
            "stop: the {} query stopped by call {} makes {} calls",
            h.name(),
            k,
            got.len()
        );
        ensure!(
            same_bits(&out, &left),
            "written back: the stopped {} query writes {:?}, the callback left {:?}",
            h.name(),
            out,
            left
        );
    }
    Ok(total)
}

fn nan_queries(h: &H, r: &[[f32; 8]], off: usize) -> Result<(), String> {
    for l in 0..r.len() {
        for a in 0..6 {
            let mut q = r.to_vec();
            q[l][a] = f32::NAN;
            let t: Vec<f32> = r.iter().map(|r| r[7]).collect();
            let mut calls = 0;
            let (code, out) = query(h, &q, &t, off, &mut |_, t| {
                calls += 1;
                t[0] = -5.0;
                false
            })?;
            ensure!(
                code == NAN && calls == 0 && same_bits(&out, &t),
                "nan: a {} query of {} rays with component {} of ray {} NaN answers {} after {} calls, distances {:?}",
                h.name(),
                q.len(),
                a,
                l,
                code,
                calls,
                out
            );
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------
// C21

/// u: builder, leaf, layout, pad1, pad2, centre stride (words), offsets, salt, point boxes
fn gen_c21(g: &mut G, _: u64) -> Case {
    let b = g.pick(&[BINNED, LOCB, SPATIAL, SPATIAL]);
    let limit = if b == SPATIAL { 100.0 } else { 1.0e5 };
    let (mut tris, _) = if g.chance(0.0015) {
        let n = huge(g);
        let fam = g.below(FAMILIES);
        (scene(g, fam, n, limit), fam)
    } else if g.chance(0.08) {
        any_scene(g, limit)
    } else {
        small_scene(g, limit)
    };
    let layout = if b == SPATIAL { g.below(3) as i64 } else { 0 };
    if layout == 2 {
        tris = strip(&tris);
    }
    let boxes = boxes_for(g, &tris);
    let boxes = if boxes.is_empty() && b != SPATIAL && g.chance(0.9) {
        tris.iter().map(tri_box).collect()
    } else {
        boxes
    };
    let cs = if b == SPATIAL { g.pick(&[3, 4, 3, 4, 5, 8]) } else { g.pick(&[3, 4]) };
    let frames = if g.chance(0.5) {
        let rg = RayGen::new(&tris);
        let k = g.pick(&[0.01f32, 0.3, 2.0]) * rg.size;
        let whole = [g.sym(k), g.sym(k), g.sym(k)];
        let own = g.chance(0.7);
        let f: Vec<[f32; 9]> = tris
            .iter()
            .map(|t| {
                let mut t = *t;
                let d = if own { [g.sym(k), g.sym(k), g.sym(k)] } else { whole };
                for (i, x) in t.iter_mut().enumerate() {
                    *x += d[i % 3];
                }
                t
            })
            .collect();
        if max_coord(&f) > 3.0 * limit {
            vec![]
        } else {
            vec![f]
        }
    } else {
        vec![]
    };
    let moved = frames.first().unwrap_or(&tris).clone();
    let rg = RayGen::new(&tris);
    let rm = RayGen::new(&moved);
    let mut rays = vec![];
    for i in 0..g.int(1, 3) {
        let p = if i % 2 == 0 { rm.packet(g, &moved) } else { rg.packet(g, &tris) };
        rays.extend(p);
    }
    let offs = if g.chance(0.4) { 0 } else { g.below(256) as i64 };
    Case {
        tris,
        boxes,
        frames,
        rays,
        group: 4,
        u: vec![
            b,
            leaf_size(g).min(70_000),
            layout,
            g.pick(&[0i64, 0, 1, 2, 5]),
            g.pick(&[0i64, 0, 1, 3, 4]),
            cs,
            offs,
            g.below(1 << 16) as i64,
        ],
        ..Default::default()
    }
}

fn word_offsets(o: i64) -> [usize; 4] {
    [
        (o & 3) as usize,
        ((o >> 2) & 3) as usize,
        ((o >> 4) & 3) as usize,
        ((o >> 6) & 3) as usize,
    ]
}

fn free_all(b: Option<RtBvh>, m: &[RtMbvh]) {
    unsafe {
        if let Some(b) = b {
            free_bvh(b);
        }
        for m in m {
            free_mbvh(*m);
        }
    }
}

/// Builds through the C interface the scene a case describes.
fn c_build(tris: &[[f32; 9]], boxes: &[Box6], u: &[i64]) -> Result<RtBvh, String> {
    let n = tris.len();
    let o = word_offsets(u[6]);
    let centres = Buf::new(&centre_words(tris, u[5] as usize * 4), o[0]);
    let bbuf = if boxes.is_empty() {
        None
    } else {
        Some(Buf::new(&box_words(boxes, u[7]), o[1]))
    };
    let bp = bbuf.as_ref().map(|b| b.boxes()).unwrap_or(std::ptr::null());
    let mut h = RtBvh::unset();
    let code = if u[0] == SPATIAL {
        let (w, vs, ts) = vertex_words(tris, u[2], u[3] as usize, u[4] as usize);
        let verts = Buf::new(&w, o[2]);
        unsafe {
            create_spatial_Bvh(
                bp,
                n,
                centres.p(),
                u[5] as usize * 4,
                verts.p(),
                vs,
                ts,
                u[1] as u32,
                &mut h,
            )
        }
    } else {
        unsafe {
            create_bvh(
                bp,
                n,
                centres.p(),
                u[5] as usize * 4,
                u[1] as usize,
                if u[0] == LOCB { 0 } else { 1 },
                &mut h,
            )
        }
    };
    ensure!(code == OK, "code: building {} primitives answers {}", n, code);
    ensure!(
        !h.is_unset() && !h.nodes.is_null() && !h.indices.is_null(),
        "handle: building succeeds without filling in the result"
    );
    Ok(h)
}

/// The library's own build of the same input.
fn lib_build(tris: &[[f32; 9]], boxes: &[Box6], u: &[i64]) -> Result<Bvh, String> {
    let bs: Vec<Aabb<i32>> = boxes.iter().map(bb).collect();
    let sup = if boxes.is_empty() { None } else { Some(&bs[..]) };
    let r = if u[0] != SPATIAL && boxes.is_empty() {
        let prims: Vec<BoxPrim> = tris
            .iter()
            .enumerate()
            .map(|(i, t)| {
                let c = centre(t);
                BoxPrim {
                    id: i as u32,
                    b: bb(&[c[0], c[1], c[2], c[0], c[1], c[2]]),
                    c: c.into(),
                }
            })
            .collect();
        build_boxes(&prims, None, u[0], u[1])
    } else {
        let prims: Vec<Tri> = tris.iter().enumerate().map(|(i, t)| Tri::new(i, t, 0)).collect();
        build_tris(&prims, sup, u[0], u[1])
    };
    r.map_err(|e| format!("build: refused valid input: {}", e))
}

fn valid_u(u: &[i64]) -> bool {
    u.len() >= 8
        && (0..3).contains(&u[0])
        && u[1] >= 0
        && (0..3).contains(&u[2])
        && (0..64).contains(&u[3])
        && (0..64).contains(&u[4])
        && u[5] >= 3
        && (u[5] <= 4 || (u[0] == SPATIAL && u[5] < 64))
        && u[6] >= 0
        && u[7] >= 0
}

fn check_mbvh(t: &Tree, h: &RtMbvh, geo: &dyn Fn(usize) -> Box6) -> Result<(), String> {
    let q = quad_leaves(h)?;
    let mut want: Vec<(usize, usize)> = t.leaves().map(|(_, l)| l.leaf.unwrap()).collect();
    let mut got: Vec<(usize, usize)> = q.iter().map(|x| (x.0, x.1)).collect();
    want.sort();
    got.sort();
    ensure!(
        want == got && h.index_slice() == &t.indices[..],
        "mbvh: a converted handle holds {} leaf runs, the tree {}",
        got.len(),
        want.len()
    );
    for (f, c, path) in &q {
        for p in &t.indices[*f..*f + *c] {
            let b = geo(*p as usize);
            ensure!(
                path.iter().all(|s| inside6(&b, s)),
                "mbvh: a slot on the path to primitive {} does not contain it",
                p
            );
        }
    }
    Ok(())
}

fn c21(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    if !spec_ok_tris(c) || !valid_u(&c.u) || c.rays.len() % 4 != 0 {
        return Ok(());
    }
    if c.frames.iter().any(|f| f.len() != c.tris.len()) {
        return Ok(());
    }
    let u = &c.u;
    let layout = if u[0] == SPATIAL { u[2] } else { 0 };
    // What a strip describes need not be what the case lists once it was minimised
    let tris = if layout == 2 { strip(&c.tris) } else { c.tris.clone() };
    if layout == 2 && !c.boxes.is_empty() && (0..tris.len()).any(|i| !inside6(&tri_box(&tris[i]), &c.boxes[i])) {
        return Ok(());
    }
    let n = tris.len();
    let points = u[0] != SPATIAL && c.boxes.is_empty();
    ctx.hit(match (u[0], points) {
        (SPATIAL, _) => "create_spatial_Bvh",
        (_, true) => "create_bvh without boxes",
        (LOCB, _) => "create_bvh, clustering",
        _ => "create_bvh, binned SAH",
    });
    if u[0] == SPATIAL {
        ctx.hit(["packed vertices", "vertex arrays", "vertex strip"][layout as usize]);
        if c.boxes.is_empty() {
            ctx.hit("spatial without boxes");
        }
    }
    let h = c_build(&tris, &c.boxes, u)?;
    let t = tree_of(&h)?;
    let refs = reference_counts(&t, n)?;
    for (i, r) in refs.iter().enumerate() {
        ensure!(
            *r > 0 && (u[0] == SPATIAL || *r == 1),
            "references: primitive {} of {} is referenced {} times",
            i,
            n,
            r
        );
    }
    let mut lib = lib_build(&tris, &c.boxes, u)?;
    ensure!(
        t.canonical() == Tree::of(&lib)?.canonical(),
        "not the library's tree: a C build of {} primitives differs from the library's",
        n
    );
    let root = t.nodes[0].b;
    for x in &tris {
        let b = if points {
            let c = centre(x);
            [c[0], c[1], c[2], c[0], c[1], c[2]]
        } else {
            tri_box(x)
        };
        ensure!(inside6(&b, &root), "root: the root box misses a primitive");
    }
    let mut mb = RtMbvh::unset();
    let code = unsafe { create_mbvh(h, &mut mb) };
    ensure!(code == OK && !mb.is_unset(), "code: converting answers {}", code);
    if u[0] != SPATIAL {
        check_mbvh(&t, &mb, &|i| {
            if points {
                let c = centre(&tris[i]);
                [c[0], c[1], c[2], c[0], c[1], c[2]]
            } else {
                tri_box(&tris[i])
            }
        })?;
    } else {
        check_mbvh(&t, &mb, &|_| [1.0f32, 1.0, 1.0, -1.0, -1.0, -1.0].map(|x| x * f32::MAX))?;
    }
    let mut mbs = vec![mb];
    let off = (u[7] & 3) as usize;
    let stop = (u[7] >> 2) as usize;
    let mut hits = 0;
    if !points {
        for h in [H::B(h), H::M(mb)] {
            for q in c.rays.chunks(4) {
                hits += check_query(&h, &tris, &refs, q, off, stop)?;
                for r in q {
                    hits += check_query(&h, &tris, &refs, &[*r], off, stop)?;
                }
            }
        }
    }
    if let Some(q) = c.rays.chunks(4).next() {
        for h in [H::B(h), H::M(mb)] {
            nan_queries(&h, q, off)?;
            nan_queries(&h, &q[..1], off)?;
        }
    }
    if let (Some(f), false) = (c.frames.first(), points) {
        let moved = if layout == 2 { strip(f) } else { f.clone() };
        if moved.iter().all(|t| t.iter().all(|x| x.is_finite())) {
            ctx.hit("refitted");
            let nb: Vec<Box6> = moved.iter().map(tri_box).collect();
            let buf = Buf::new(&box_words(&nb, u[7]), word_offsets(u[6])[3]);
            let code = unsafe { refit(buf.boxes(), h) };
            ensure!(code == OK, "code: refitting answers {}", code);
            lib.refit(&nb.iter().map(bb).collect::<Vec<_>>());
            let t2 = tree_of(&h)?;
            ensure!(
                t2.canonical() == Tree::of(&lib)?.canonical(),
                "not the library's tree: after refitting a tree of {} primitives",
                n
            );
            let mut m2 = RtMbvh::unset();
            let code = unsafe { create_mbvh(h, &mut m2) };
            ensure!(code == OK && !m2.is_unset(), "code: converting answers {}", code);
            mbs.push(m2);
            check_mbvh(&t2, &m2, &|i| nb[i])?;
            for h in [H::B(h), H::M(m2)] {
                for q in c.rays.chunks(4) {
                    hits += check_query(&h, &moved, &refs, q, off, stop)?;
                    for r in q {
                        hits += check_query(&h, &moved, &refs, &[*r], off, stop)?;
                    }
                }
            }
        }
    }
    free_all(Some(h), &mbs);
    ctx.add("real hits", hits as u64);
    ctx.nontrivial = n > 1 && (hits > 0 || points);
    Ok(())
}

// ---------------------------------------------------------------------------------------
// C22

/// A tree that lives behind a handle, with everything that must not change.
struct LiveB {
    h: RtBvh,
    nodes: Vec<RtAabb>,
    indices: Vec<u32>,
    answers: Vec<Vec<u32>>,
    /// What the library itself makes of the same calls
    lib: Bvh,
    tris: Vec<[f32; 9]>,
}

struct LiveM {
    h: RtMbvh,
    nodes: Vec<RtMbvhNode>,
    indices: Vec<u32>,
    answers: Vec<Vec<u32>>,
}

fn box_bits(n: &RtAabb) -> [u32; 8] {
    let mut o = [0; 8];
    for a in 0..3 {
        o[a] = n.min[a].to_bits();
        o[4 + a] = n.max[a].to_bits();
    }
    o[3] = n.count as u32;
    o[7] = n.left_first as u32;
    o
}

fn quad_bits(n: &RtMbvhNode) -> Vec<u32> {
    let mut v: Vec<u32> = n.b.iter().flat_map(|x| x.iter().map(|y| y.to_bits())).collect();
    v.extend(n.children.iter().map(|x| *x as u32));
    v.extend(n.counts.iter().map(|x| *x as u32));
    v
}

/// Every answer a structure gives to the rays of the case.
fn answers(h: &H, rays: &[[f32; 8]]) -> Result<Vec<Vec<u32>>, String> {
    let mut out = vec![];
    for q in rays.chunks(4) {
        out.push(record(h, q, 0)?);
        out.push(record(h, &q[..1], 0)?);
    }
    Ok(out)
}

impl LiveB {
    fn new(h: RtBvh, lib: Bvh, tris: Vec<[f32; 9]>, rays: &[[f32; 8]]) -> Result<LiveB, String> {
        let l = LiveB {
            nodes: h.node_slice().to_vec(),
            indices: h.index_slice().to_vec(),
            answers: answers(&H::B(h), rays)?,
            h,
            lib,
            tris,
        };
        l.is_library_tree("create")?;
        Ok(l)
    }
    fn is_library_tree(&self, after: &str) -> Result<(), String> {
        ensure!(
            tree_of(&self.h)?.canonical() == Tree::of(&self.lib)?.canonical(),
            "wrong tree: after {} handle {} does not hold the tree asked for",
            after,
            self.h.id
        );
        Ok(())
    }
    fn unchanged(&self, after: &str) -> Result<(), String> {
        let same = self.h.node_slice().iter().zip(&self.nodes).all(|(a, b)| box_bits(a) == box_bits(b))
            && self.h.index_slice() == &self.indices[..];
        ensure!(same, "changed: {} changes what live BVH handle {} points to", after, self.h.id);
        Ok(())
    }
    fn same_answers(&self, rays: &[[f32; 8]], after: &str) -> Result<(), String> {
        ensure!(
            answers(&H::B(self.h), rays)? == self.answers,
            "changed: {} changes the answers of live BVH handle {}",
            after,
            self.h.id
        );
        Ok(())
    }
}

impl LiveM {
    fn new(h: RtMbvh, rays: &[[f32; 8]]) -> Result<LiveM, String> {
        Ok(LiveM {
            nodes: h.node_slice().to_vec(),
            indices: h.index_slice().to_vec(),
            answers: answers(&H::M(h), rays)?,
            h,
        })
    }
    fn unchanged(&self, after: &str) -> Result<(), String> {
        let same = self.h.node_slice().iter().zip(&self.nodes).all(|(a, b)| quad_bits(a) == quad_bits(b))
            && self.h.index_slice() == &self.indices[..];
        ensure!(same, "changed: {} changes what live MBVH handle {} points to", after, self.h.id);
        Ok(())
    }
    fn same_answers(&self, rays: &[[f32; 8]], after: &str) -> Result<(), String> {
        ensure!(
            answers(&H::M(self.h), rays)? == self.answers,
            "changed: {} changes the answers of live MBVH handle {}",
            after,
            self.h.id
        );
        Ok(())
    }
}

/// Identifiers of all live handles of the process.
#[derive(Default)]
struct Ids {
    b: HashSet<u32>,
    m: HashSet<u32>,
}

static MAX_B: AtomicU32 = AtomicU32::new(0);
static MAX_M: AtomicU32 = AtomicU32::new(0);

const MAX_LIVE: usize = 12;

/// u: threads, shared handles, rounds of the burst, structures alive at once
/// op: [thread, kind, a, b, c, d]
fn gen_c22(g: &mut G, idx: u64) -> Case {
    let fam = g.below(FAMILIES);
    let n = g.int(1, 40) as usize;
    let mut tris = scene(g, fam, n, 100.0);
    tris.truncate(80);
    let rg = RayGen::new(&tris);
    let k = g.int(1, 2);
    let mut rays = vec![];
    for _ in 0..k {
        rays.extend(rg.packet(g, &tris));
    }
    let threads = if g.chance(0.3) { g.int(2, 4) } else { 1 };
    let count = match g.below(10) {
        0 => g.int(100, 250),
        1 | 2 => g.int(1, 8),
        _ => g.int(8, 60),
    };
    let burst = if g.chance(0.1) { g.int(16, 120) } else { 0 };
    let mut ops = vec![];
    for _ in 0..count {
        let kind = g.weighted(&[26, 20, 16, 10, 10, 8, 6, 12, 4]) as i64;
        ops.push(vec![
            g.below(threads as usize) as i64,
            kind,
            g.below(64) as i64,
            g.below(64) as i64,
            g.below(3) as i64,
            g.below(1 << 12) as i64,
        ]);
    }
    Case {
        tris,
        rays,
        group: 4,
        u: vec![threads, g.int(0, 2), burst, if idx % 2400 == 17 { 66_000 } else { 0 }],
        ops,
        ..Default::default()
    }
}

struct Session<'a> {
    c: &'a Case,
    ids: &'a Mutex<Ids>,
    live_b: Vec<LiveB>,
    live_m: Vec<LiveM>,
    alone: bool,
    labels: BTreeMap<&'static str, u64>,
}

impl<'a> Session<'a> {
    fn label(&mut self, k: &'static str) {
        *self.labels.entry(k).or_insert(0) += 1;
    }

    /// A scene of the case: a run of its triangles.
    fn part(&self, a: i64, b: i64) -> Vec<[f32; 9]> {
        let n = self.c.tris.len();
        let s = a as usize % n;
        let l = 1 + b as usize % (n - s);
        self.c.tris[s..s + l].to_vec()
    }

    fn create(&mut self, op: &[i64]) -> Result<(), String> {
        let tris = self.part(op[2], op[3]);
        let d = op[5];
        let b = op[4].rem_euclid(3);
        let boxes: Vec<Box6> = if d & 1 == 1 || b != SPATIAL {
            tris.iter().map(tri_box).collect()
        } else {
            vec![]
        };
        let u = vec![b, 1 + ((d >> 1) & 3), 0, (d >> 3) & 3, (d >> 5) & 3, 3 + ((d >> 7) & 1), (d >> 8) & 15, d];
        let h = c_build(&tris, &boxes, &u)?;
        let lib = lib_build(&tris, &boxes, &u)?;
        MAX_B.fetch_max(h.id, Ordering::SeqCst);
        ensure!(
            self.ids.lock().unwrap().b.insert(h.id),
            "identifier: create returns {} which a live BVH handle already has",
            h.id
        );
        self.live_b.push(LiveB::new(h, lib, tris, &self.c.rays)?);
        Ok(())
    }

    fn refit(&mut self, i: usize, d: i64) -> Result<(), String> {
        let k = [0.0f32, 0.5, -2.0, 8.0][(d & 3) as usize];
        let axis = ((d >> 2) & 3) as usize % 3;
        let grow = ((d >> 4) & 1) as f32 * 0.25;
        let l = &mut self.live_b[i];
        let nb: Vec<Box6> = l
            .tris
            .iter()
            .enumerate()
            .map(|(j, t)| {
                let mut b = tri_box(t);
                let s = if d & 32 != 0 && j % 2 == 1 { -1.0 } else { 1.0 };
                b[axis] += k * s - grow;
                b[axis + 3] += k * s + grow;
                b
            })
            .collect();
        let buf = Buf::new(&box_words(&nb, d), ((d >> 6) & 3) as usize);
        let code = unsafe { refit(buf.boxes(), l.h) };
        ensure!(code == OK, "code: refitting answers {}", code);
        l.lib.refit(&nb.iter().map(bb).collect::<Vec<_>>());
        l.is_library_tree("refit")?;
        l.nodes = l.h.node_slice().to_vec();
        ensure!(
            l.h.index_slice() == &l.indices[..],
            "changed: refitting handle {} changes its indices",
            l.h.id
        );
        l.answers = answers(&H::B(l.h), &self.c.rays)?;
        Ok(())
    }

    fn errors(&mut self, op: &[i64]) -> Result<(), String> {
        let tris = self.part(op[2], op[3]);
        let n = tris.len();
        let boxes: Vec<Box6> = tris.iter().map(tri_box).collect();
        let bbuf = Buf::new(&box_words(&boxes, 0), 0);
        let cen = Buf::new(&centre_words(&tris, 12), 0);
        let (w, vs, ts) = vertex_words(&tris, 0, 0, 0);
        let ver = Buf::new(&w, 0);
        let null = std::ptr::null();
        let with_boxes = if op[5] & 64 != 0 { bbuf.boxes() } else { std::ptr::null() };
        let mut r = RtBvh::unset();
        let mut m = RtMbvh::unset();
        let (bad_b, bad_m) = if op[5] & 32 != 0 && self.alone {
            (
                MAX_B.load(Ordering::SeqCst).wrapping_add(1),
                MAX_M.load(Ordering::SeqCst).wrapping_add(1),
            )
        } else if op[5] & 128 != 0 {
            (u32::MAX, u32::MAX)
        } else {
            (1 << 30, 1 << 30)
        };
        let live = if self.live_b.is_empty() {
            None
        } else {
            Some(self.live_b[op[2] as usize % self.live_b.len()].h)
        };
        let some_nodes = live.unwrap_or(RtBvh {
            id: bad_b,
            node_count: 1,
            nodes: bbuf.boxes(),
            index_count: 1,
            indices: bbuf.p() as *const u32,
        });
        let (what, got, want) = unsafe {
            match op[5] % 21 {
                0 => ("create_bvh without centres", create_bvh(with_boxes, n, null, 12, 1, 1, &mut r), ERROR),
                1 => ("create_bvh without result", create_bvh(with_boxes, n, cen.p(), 12, 1, 0, std::ptr::null_mut()), ERROR),
                2 => (
                    "create_spatial_Bvh without centres",
                    create_spatial_Bvh(with_boxes, n, null, 12, ver.p(), vs, ts, 1, &mut r),
                    ERROR,
                ),
                3 => (
                    "create_spatial_Bvh without vertices",
                    create_spatial_Bvh(with_boxes, n, cen.p(), 12, null, vs, ts, 1, &mut r),
                    ERROR,
                ),
                4 => (
                    "create_spatial_Bvh without result",
                    create_spatial_Bvh(with_boxes, n, cen.p(), 12, ver.p(), vs, ts, 1, std::ptr::null_mut()),
                    ERROR,
                ),
                5 => ("create_mbvh without result", create_mbvh(some_nodes, std::ptr::null_mut()), ERROR),
                6 => {
                    let mut h = some_nodes;
                    h.nodes = std::ptr::null();
                    ("create_mbvh of a handle without nodes", create_mbvh(h, &mut m), ERROR)
                }
                7 => {
                    let mut h = some_nodes;
                    h.indices = std::ptr::null();
                    ("create_mbvh of a handle without indices", create_mbvh(h, &mut m), ERROR)
                }
                8 | 19 => {
                    let mut h = some_nodes;
                    h.id = bad_b;
                    ("create_mbvh of an unknown handle", create_mbvh(h, &mut m), ERROR)
                }
                9 => ("refit without boxes", refit(std::ptr::null(), some_nodes), ERROR),
                10 => {
                    let mut h = some_nodes;
                    h.nodes = std::ptr::null();
                    ("refit of a handle without nodes", refit(bbuf.boxes(), h), ERROR)
                }
                11 => {
                    let mut h = some_nodes;
                    h.indices = std::ptr::null();
                    ("refit of a handle without indices", refit(bbuf.boxes(), h), ERROR)
                }
                12 | 20 => {
                    let mut h = some_nodes;
                    h.id = bad_b;
                    ("refit of an unknown handle", refit(bbuf.boxes(), h), ERROR)
                }
                13 => ("create_bvh of nothing", create_bvh(with_boxes, 0, cen.p(), 12, 1, 1, &mut r), NO_PRIMITIVES),
                14 => ("create_bvh of nothing", create_bvh(with_boxes, 0, cen.p(), 16, 1, 0, &mut r), NO_PRIMITIVES),
                15 => (
                    "create_spatial_Bvh of nothing",
                    create_spatial_Bvh(with_boxes, 0, cen.p(), 12, ver.p(), vs, ts, 1, &mut r),
                    NO_PRIMITIVES,
                ),
                16 => {
                    // the handle a C caller starts from
                    let mut h = RtBvh::unset();
                    h.id = bad_b;
                    free_bvh(h);
                    ("", OK, OK)
                }
                17 => {
                    let mut h = RtMbvh::unset();
                    h.id = bad_m;
                    free_mbvh(h);
                    ("", OK, OK)
                }
                _ => ("create_mbvh of an empty handle", create_mbvh(RtBvh { id: bad_b, ..RtBvh::unset() }, &mut m), ERROR),
            }
        };
        ensure!(got == want, "code: {} answers {} instead of {}", what, got, want);
        ensure!(
            r.is_unset() && m.is_unset(),
            "result: {} fails but changes the result to {:?} / {:?}",
            what,
            r,
            m
        );
        Ok(())
    }

    /// A query whose callback queries another structure, as two-level scenes do.
    fn nested(&mut self, op: &[i64]) -> Result<(), String> {
        if self.live_b.is_empty() || self.c.rays.is_empty() {
            return Ok(());
        }
        let outer = &self.live_b[op[2] as usize % self.live_b.len()];
        let inner = &self.live_b[op[3] as usize % self.live_b.len()];
        let q = &self.c.rays[..4.min(self.c.rays.len())];
        let t: Vec<f32> = q.iter().map(|r| r[7]).collect();
        let mut err = None;
        let mut log = vec![];
        let (code, _) = query(&H::B(outer.h), q, &t, 0, &mut |id, _| {
            log.push(id);
            if log.len() <= 3 && err.is_none() {
                err = inner.same_answers(&self.c.rays, "a query in progress").err();
            }
            false
        })?;
        if let Some(e) = err {
            return Err(e);
        }
        ensure!(
            code == OK && log == outer.answers[0],
            "changed: a query differs when its callback queries another structure"
        );
        Ok(())
    }

    fn step(&mut self, op: &[i64], shared: &(Vec<LiveB>, Vec<LiveM>)) -> Result<(), String> {
        let pick = |n: usize| op[2] as usize % n.max(1);
        let name = match op[1] {
            0 => {
                if self.live_b.len() >= MAX_LIVE {
                    return Ok(());
                }
                self.create(op)?;
                "create"
            }
            1 => {
                let (nb, ns) = (self.live_b.len(), shared.0.len());
                if nb + ns == 0 || self.live_m.len() >= MAX_LIVE {
                    return Ok(());
                }
                let i = pick(nb + ns);
                let l = if i < nb { &self.live_b[i] } else { &shared.0[i - nb] };
                let mut m = RtMbvh::unset();
                let code = unsafe { create_mbvh(l.h, &mut m) };
                ensure!(code == OK && !m.is_unset(), "code: converting answers {}", code);
                MAX_M.fetch_max(m.id, Ordering::SeqCst);
                ensure!(
                    self.ids.lock().unwrap().m.insert(m.id),
                    "identifier: create_mbvh returns {} which a live MBVH handle already has",
                    m.id
                );
                check_mbvh(&tree_of(&l.h)?, &m, &|_| [f32::MAX, f32::MAX, f32::MAX, -f32::MAX, -f32::MAX, -f32::MAX])?;
                let lm = LiveM::new(m, &self.c.rays)?;
                // the library's own conversion gives the same answers, in some order
                let conv = Mbvh::construct(&l.lib);
                let prims: Vec<Tri> = l.tris.iter().enumerate().map(|(i, t)| Tri::new(i, t, 0)).collect();
                for (k, q) in self.c.rays.chunks(4).enumerate() {
                    let mut want = vec![];
                    let mut p = packet_of(q);
                    S::M(&conv).packet(0, &prims, &mut p, &mut |id, _| want.push(id));
                    want.sort_unstable();
                    let mut got = lm.answers[2 * k].clone();
                    got.sort_unstable();
                    ensure!(
                        want == got,
                        "wrong tree: MBVH handle {} does not answer as the tree it was made from",
                        m.id
                    );
                }
                self.live_m.push(lm);
                "create_mbvh"
            }
            2 => {
                if self.live_b.is_empty() {
                    return Ok(());
                }
                let i = pick(self.live_b.len());
                self.refit(i, op[5])?;
                self.label("refits");
                if !self.live_m.is_empty() {
                    self.label("refits with live MBVH handles");
                }
                "refit"
            }
            3 => {
                if !self.live_b.is_empty() {
                    self.live_b[pick(self.live_b.len())].same_answers(&self.c.rays, "an earlier call")?;
                }
                "query"
            }
            4 => {
                if !self.live_m.is_empty() {
                    self.live_m[pick(self.live_m.len())].same_answers(&self.c.rays, "an earlier call")?;
                }
                "query of an MBVH"
            }
            5 => {
                if self.live_b.is_empty() {
                    return Ok(());
                }
                let i = pick(self.live_b.len());
                let l = self.live_b.swap_remove(i);
                // free after forgetting the identifier: it may be given out again at once
                self.ids.lock().unwrap().b.remove(&l.h.id);
                unsafe { free_bvh(l.h) };
                self.label("frees");
                "free_bvh"
            }
            6 => {
                if self.live_m.is_empty() {
                    return Ok(());
                }
                let i = pick(self.live_m.len());
                let l = self.live_m.swap_remove(i);
                self.ids.lock().unwrap().m.remove(&l.h.id);
                unsafe { free_mbvh(l.h) };
                self.label("frees");
                "free_mbvh"
            }
            7 => {
                self.errors(op)?;
                self.label("error calls");
                "a refused call"
            }
            _ => {
                self.nested(op)?;
                "a nested query"
            }
        };
        for l in &self.live_b {
            l.unchanged(name)?;
        }
        for l in &self.live_m {
            l.unchanged(name)?;
        }
        if op[5] & 3 == 0 || self.live_b.len() + self.live_m.len() <= 3 {
            for l in &self.live_b {
                l.same_answers(&self.c.rays, name)?;
            }
            for l in &self.live_m {
                l.same_answers(&self.c.rays, name)?;
            }
        }
        for l in &shared.0 {
            l.unchanged(name)?;
            if op[5] & 4 != 0 {
                l.same_answers(&self.c.rays, name)?;
            }
        }
        for l in &shared.1 {
            l.unchanged(name)?;
            if op[5] & 4 != 0 {
                l.same_answers(&self.c.rays, name)?;
            }
        }
        Ok(())
    }

    fn close(&mut self, err: bool) -> Result<(), String> {
        if !err {
            for l in &self.live_b {
                l.same_answers(&self.c.rays, "the whole history")?;
            }
            for l in &self.live_m {
                l.same_answers(&self.c.rays, "the whole history")?;
            }
        }
        for l in self.live_m.drain(..) {
            self.ids.lock().unwrap().m.remove(&l.h.id);
            unsafe { free_mbvh(l.h) };
        }
        for l in self.live_b.drain(..) {
            self.ids.lock().unwrap().b.remove(&l.h.id);
            unsafe { free_bvh(l.h) };
        }
        Ok(())
    }
}

type Outcome = Result<(BTreeMap<&'static str, u64>, bool), String>;

/// Inside, but for a margin a builder may add.
fn near_inside(a: &Box6, b: &Box6) -> bool {
    (0..3).all(|i| {
        let slack = 1e-3 + 1e-4 * (b[i].abs() + b[i + 3].abs());
        a[i] >= b[i] - slack && a[i + 3] <= b[i + 3] + slack
    })
}

const BURST_THREADS: usize = 4;

/// Every thread creates, converts and frees tiny structures at the same moments as the
/// others: nothing but the bookkeeping of the handles is left to run.
fn burst(c: &Case, ids: &Mutex<Ids>, rounds: usize) -> Result<(), String> {
    let arrived = std::sync::atomic::AtomicUsize::new(0);
    let stop = std::sync::atomic::AtomicBool::new(false);
    let gate = |round: usize| {
        arrived.fetch_add(1, Ordering::SeqCst);
        let mut spins = 0u32;
        while arrived.load(Ordering::SeqCst) < (round + 1) * BURST_THREADS && !stop.load(Ordering::SeqCst) {
            spins += 1;
            if spins % 256 == 0 {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
    };
    let work = |me: usize| -> Result<(), String> {
        let mut live: Vec<(RtBvh, Tree, Vec<[f32; 9]>, Vec<Box6>)> = vec![];
        let mut live_m: Vec<(RtMbvh, usize)> = vec![];
        let mut r = Ok(());
        let converts_own = |l: &(RtBvh, Tree, Vec<[f32; 9]>, Vec<Box6>), m: &RtMbvh| -> Result<(), String> {
            check_mbvh(&l.1, m, &|i| l.3[i])?;
            let root = l.1.nodes[0].b;
            for (_, _, path) in quad_leaves(m)? {
                ensure!(
                    near_inside(path.last().unwrap(), &root),
                    "wrong tree: MBVH handle {} holds {:?}, which the tree in {:?} it was made from does not",
                    m.id,
                    path.last().unwrap(),
                    root
                );
            }
            Ok(())
        };
        for k in 0..rounds {
            gate(k);
            if stop.load(Ordering::SeqCst) {
                break;
            }
            r = (|| {
                match k % 4 {
                    // half of the rounds create, the others convert or free
                    0 | 1 => {
                        let n = c.tris.len();
                        let at = (me * 7 + k * 3) % n;
                        let len = (1 + (me + k) % 3).min(n - at);
                        // own geometry in every call, so that two trees differ
                        let tris: Vec<[f32; 9]> = c.tris[at..at + len]
                            .iter()
                            .map(|t| {
                                let mut t = *t;
                                for v in 0..3 {
                                    t[3 * v] += (me * rounds + k) as f32;
                                }
                                t
                            })
                            .collect();
                        let boxes: Vec<Box6> = tris.iter().map(tri_box).collect();
                        let u = vec![0, 1, 0, 0, 0, 3, 0, 1];
                        let h = c_build(&tris, &boxes, &u)?;
                        MAX_B.fetch_max(h.id, Ordering::SeqCst);
                        ensure!(
                            ids.lock().unwrap().b.insert(h.id),
                            "identifier: create returns {} which a live BVH handle already has",
                            h.id
                        );
                        let t = tree_of(&h)?;
                        let root = t.nodes[0].b;
                        let all = boxes.iter().fold(boxes[0], |a, b| {
                            [
                                a[0].min(b[0]),
                                a[1].min(b[1]),
                                a[2].min(b[2]),
                                a[3].max(b[3]),
                                a[4].max(b[4]),
                                a[5].max(b[5]),
                            ]
                        });
                        ensure!(
                            inside6(&all, &root) && near_inside(&root, &all),
                            "wrong tree: create returns the tree of {:?} for primitives in {:?}",
                            root,
                            all
                        );
                        live.push((h, t, tris, boxes));
                    }
                    2 => {
                        let i = (me + k) % live.len();
                        let mut m = RtMbvh::unset();
                        let code = unsafe { create_mbvh(live[i].0, &mut m) };
                        ensure!(code == OK && !m.is_unset(), "code: converting answers {}", code);
                        MAX_M.fetch_max(m.id, Ordering::SeqCst);
                        ensure!(
                            ids.lock().unwrap().m.insert(m.id),
                            "identifier: create_mbvh returns {} which a live MBVH handle already has",
                            m.id
                        );
                        live_m.push((m, i));
                        converts_own(&live[i], &m)?;
                    }
                    _ if k % 8 == 3 => {
                        let i = (me + k) % live.len();
                        let h = live[i].0;
                        if !live_m.iter().any(|x| x.1 == i || x.1 == live.len() - 1) {
                            live.swap_remove(i);
                            ids.lock().unwrap().b.remove(&h.id);
                            unsafe { free_bvh(h) };
                        } else {
                            let m = live_m.pop().unwrap().0;
                            ids.lock().unwrap().m.remove(&m.id);
                            unsafe { free_mbvh(m) };
                        }
                    }
                    _ => {
                        // refits act on the own structure only
                        let i = (me + k) % live.len();
                        let l = &mut live[i];
                        let boxes: Vec<Box6> = l
                            .2
                            .iter()
                            .map(|t| {
                                let mut b = tri_box(t);
                                b[1] += 1.0 + me as f32;
                                b[4] += 1.0 + me as f32;
                                b
                            })
                            .collect();
                        let buf = Buf::new(&box_words(&boxes, 0), 0);
                        let code = unsafe { refit(buf.boxes(), l.0) };
                        ensure!(code == OK, "code: refitting answers {}", code);
                        l.1 = tree_of(&l.0)?;
                        l.3 = boxes;
                    }
                }
                Ok(())
            })();
            if r.is_err() {
                break;
            }
        }
        // every handle still shows the tree it showed when it was made, or last refitted
        if r.is_ok() {
            for l in &live {
                let (h, t) = (&l.0, &l.1);
                r = r.and_then(|_| {
                    let now = tree_of(h)?;
                    ensure!(
                        now.canonical() == t.canonical(),
                        "changed: the tree of BVH handle {} is another one after other threads' calls",
                        h.id
                    );
                    // the identifier names this very tree
                    let mut m = RtMbvh::unset();
                    let code = unsafe { create_mbvh(*h, &mut m) };
                    ensure!(code == OK, "code: converting answers {}", code);
                    MAX_M.fetch_max(m.id, Ordering::SeqCst);
                    let r = converts_own(l, &m);
                    unsafe { free_mbvh(m) };
                    r
                });
            }
        }
        if r.is_err() {
            // the structures are left alone: their handles are what is in doubt
            stop.store(true, Ordering::SeqCst);
            return r;
        }
        for (m, _) in live_m {
            ids.lock().unwrap().m.remove(&m.id);
            unsafe { free_mbvh(m) };
        }
        for (h, _, _, _) in live {
            ids.lock().unwrap().b.remove(&h.id);
            unsafe { free_bvh(h) };
        }
        Ok(())
    };
    let mut out = Ok(());
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..BURST_THREADS)
            .map(|t| {
                sc.spawn({
                    let (work, stop) = (&work, &stop);
                    move || {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| work(t)));
                        r.unwrap_or_else(|_| {
                            stop.store(true, Ordering::SeqCst);
                            Err("panic: in a thread of the burst".into())
                        })
                    }
                })
            })
            .collect();
        for h in hs {
            let r = h.join().unwrap_or_else(|_| Err("panic: in a thread of the burst".into()));
            if out.is_ok() {
                out = r;
            }
        }
    });
    out
}

/// More structures alive at once than sixteen bits can number.
fn mass(c: &Case, ids: &Mutex<Ids>, count: usize) -> Result<(), String> {
    let at = |k: usize| -> [f32; 9] {
        let mut t = c.tris[k % c.tris.len()];
        for v in 0..3 {
            t[3 * v] += (k % 4099) as f32;
            t[3 * v + 1] += (k / 4099) as f32;
        }
        t
    };
    // never flat, so that a ray through the centre enters
    let wide = |k: usize| -> Box6 {
        let mut b = tri_box(&at(k));
        for a in 0..3 {
            b[a] -= 0.5;
            b[a + 3] += 0.5;
        }
        b
    };
    let u = [0, 1, 0, 0, 0, 3, 0, 1];
    let mut live: Vec<RtBvh> = Vec::with_capacity(count);
    let mut live_m: Vec<RtMbvh> = Vec::with_capacity(count);
    for k in 0..count {
        let t = [at(k)];
        let h = c_build(&t, &[wide(k)], &u)?;
        MAX_B.fetch_max(h.id, Ordering::SeqCst);
        ensure!(
            ids.lock().unwrap().b.insert(h.id),
            "identifier: create returns {} which a live BVH handle already has ({} are alive)",
            h.id,
            k
        );
        live.push(h);
        let mut m = RtMbvh::unset();
        let code = unsafe { create_mbvh(h, &mut m) };
        ensure!(code == OK && !m.is_unset(), "code: converting answers {}", code);
        MAX_M.fetch_max(m.id, Ordering::SeqCst);
        ensure!(
            ids.lock().unwrap().m.insert(m.id),
            "identifier: create_mbvh returns {} which a live MBVH handle already has ({} are alive)",
            m.id,
            k
        );
        live_m.push(m);
    }
    // Each still names its own structure
    let show = |k: usize, h: &RtBvh, what: &str| -> Result<(), String> {
        let b = wide(k);
        let t = tree_of(h)?;
        ensure!(
            t.nodes.len() == 1 && inside6(&b, &t.nodes[0].b) && near_inside(&t.nodes[0].b, &b),
            "wrong tree: {} handle {} shows {:?} for a primitive in {:?}",
            what,
            h.id,
            t.nodes[0].b,
            b
        );
        Ok(())
    };
    let converted = |k: usize, m: &RtMbvh| -> Result<(), String> {
        let b = wide(k);
        for (_, _, path) in quad_leaves(m)? {
            ensure!(
                near_inside(path.last().unwrap(), &b),
                "wrong tree: MBVH handle {} holds {:?} for a primitive in {:?}",
                m.id,
                path.last().unwrap(),
                b
            );
        }
        Ok(())
    };
    for k in 0..count {
        show(k, &live[k], "with many others alive")?;
        converted(k, &live_m[k])?;
        if k % 4099 < 3 || count - k < 4 {
            let mut m = RtMbvh::unset();
            let code = unsafe { create_mbvh(live[k], &mut m) };
            ensure!(code == OK && !m.is_unset(), "code: converting answers {}", code);
            MAX_M.fetch_max(m.id, Ordering::SeqCst);
            converted(k, &m)?;
            ensure!(
                ids.lock().unwrap().m.insert(m.id),
                "identifier: create_mbvh returns {} which a live MBVH handle already has",
                m.id
            );
            ids.lock().unwrap().m.remove(&m.id);
            unsafe { free_mbvh(m) };
            let moved = Buf::new(&box_words(&[wide(k)], 0), 0);
            let code = unsafe { refit(moved.boxes(), live[k]) };
            ensure!(code == OK, "code: refitting answers {}", code);
        }
    }
    for k in 0..count {
        show(k, &live[k], "after refits of others")?;
    }
    // A third of them go, in an order of their own; the others stay as they are
    let goes = |k: usize| k % 3 == 0;
    for k in (0..count).rev().filter(|k| goes(*k)) {
        ids.lock().unwrap().b.remove(&live[k].id);
        ids.lock().unwrap().m.remove(&live_m[k].id);
        unsafe {
            free_bvh(live[k]);
            free_mbvh(live_m[k]);
        }
    }
    for k in (0..count).rev().filter(|k| !goes(*k)) {
        show(k, &live[k], "after others were freed,")?;
        converted(k, &live_m[k])?;
        let b = wide(k);
        let r = [0.5 * (b[0] + b[3]), 0.5 * (b[1] + b[4]), b[2] - 1.0, 0.0, 0.0, 1.0, 0.0, 1e9];
        for h in [H::B(live[k]), H::M(live_m[k])] {
            ensure!(
                record(&h, &[r], 0)?.first() == Some(&0),
                "lost: after others were freed, the {} with handle {} offers nothing to a ray through its primitive",
                h.name(),
                k
            );
        }
        ids.lock().unwrap().b.remove(&live[k].id);
        ids.lock().unwrap().m.remove(&live_m[k].id);
        unsafe {
            free_mbvh(live_m[k]);
            free_bvh(live[k]);
        }
    }
    Ok(())
}

fn run_history(c: &Case) -> Outcome {
    let ids = Mutex::new(Ids::default());
    let threads = c.u[0].clamp(1, 4) as usize;
    let session = |alone: bool| Session {
        c,
        ids: &ids,
        live_b: vec![],
        live_m: vec![],
        alone,
        labels: BTreeMap::new(),
    };
    let mut shared = (vec![], vec![]);
    if threads > 1 {
        let mut s = session(true);
        let none = (vec![], vec![]);
        for k in 0..c.u[1].clamp(0, 3) {
            s.step(&[0, 0, k, 40, k, 1 << k], &none)?;
            s.step(&[0, 1, k, 0, 0, 0], &none)?;
        }
        shared = (std::mem::take(&mut s.live_b), std::mem::take(&mut s.live_m));
    }
    let mut results: Vec<Result<BTreeMap<&'static str, u64>, String>> = vec![];
    let work = |me: usize| {
        let mut s = session(threads == 1);
        let mut r = Ok(());
        for op in c.ops.iter().filter(|o| o[0] as usize % threads == me) {
            r = s.step(op, &shared);
            if r.is_err() {
                break;
            }
        }
        let e = s.close(r.is_err());
        r.and(e).map(|_| s.labels)
    };
    if threads == 1 {
        results.push(work(0));
    } else {
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads).map(|t| sc.spawn({ let work = &work; move || work(t) })).collect();
            for h in hs {
                results.push(h.join().unwrap_or_else(|_| Err("panic: in a thread of the history".into())));
            }
        });
    }
    let mut end = session(true);
    end.live_b = shared.0;
    end.live_m = shared.1;
    let failed = results.iter().any(|r| r.is_err());
    let last = end.close(failed);
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    for r in results {
        for (k, v) in r? {
            *labels.entry(k).or_insert(0) += v;
        }
    }
    last?;
    if threads > 1 {
        labels.insert("several threads", 1);
    }
    let rounds = c.u.get(2).copied().unwrap_or(0).clamp(0, 400) as usize;
    if rounds > 0 {
        burst(c, &ids, rounds)?;
        labels.insert("bursts of calls from several threads", 1);
    }
    let many = c.u.get(3).copied().unwrap_or(0).clamp(0, 200_000) as usize;
    if many > 1 {
        mass(c, &ids, many)?;
        labels.insert("more than 65536 structures alive", (many > 65536) as u64);
    }
    let nontrivial = c.ops.len() >= 3
        && c.ops.iter().any(|o| o[1] == 0)
        && (labels.contains_key("refits") || labels.contains_key("frees") || labels.contains_key("error calls"));
    Ok((labels, nontrivial))
}

fn c22(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    if c.tris.is_empty()
        || c.tris.iter().any(|t| t.iter().any(|x| !x.is_finite()))
        || c.rays.is_empty()
        || c.rays.len() % 4 != 0
        || c.u.len() < 2
        || c.ops.iter().any(|o| o.len() != 6 || o.iter().any(|x| *x < 0))
    {
        return Ok(());
    }
    // In a thread of its own: a call that never returns must not stop the check
    let (tx, rx) = mpsc::channel();
    let case = Arc::new(c.clone());
    let th = std::thread::spawn(move || {
        let r = run_history(&case);
        let _ = tx.send(r);
    });
    match rx.recv_timeout(Duration::from_secs(60)) {
        Ok(r) => {
            let _ = th.join();
            let (labels, nontrivial) = r?;
            for (k, v) in labels {
                ctx.add(k, v);
            }
            ctx.nontrivial = nontrivial;
            Ok(())
        }
        Err(mpsc::RecvTimeoutError::Disconnected) => {
            let _ = th.join();
            Err("panic: in the history".into())
        }
        Err(mpsc::RecvTimeoutError::Timeout) => {
            Err("no end: a call of the history has not returned after 60 s".into())
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C21",
            gen: gen_c21,
            check: c21,
            quick: 32000,
            thorough: 1500000,
            rule: "more than one primitive, and at least one query through the C interface has a real hit (f64 oracle) or the build is one without boxes",
            assumptions: &[
                "the C functions are called in process, compiled from /repo/rtbvh_ffi/src/lib.rs as a Rust library",
                "centre strides 12 and 16 for create_bvh as documented, up to 32 for create_spatial_Bvh",
            ],
        },
        Prop {
            id: "C22",
            gen: gen_c22,
            check: c22,
            quick: 7200,
            thorough: 350000,
            rule: "a history of at least three calls that creates a structure and refits, frees or makes a call that must be refused",
            assumptions: &[
                "handles are not used after being freed, nor freed twice, and no handle is refitted while another thread queries it",
                "thread schedules are those the operating system happens to produce",
            ],
        },
    ]
}
