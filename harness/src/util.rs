//! Adapters between cases and the library, and walkers over the structures it builds.
use crate::case::Case;
use glam::*;
use rtbvh::*;
use std::num::NonZeroUsize;

pub type Box6 = [f32; 6];

#[derive(Debug, Clone, Copy)]
pub struct Tri {
    pub id: u32,
    pub v: [Vec3; 3],
    /// Centre reported to the builders: bit 0 clear = centroid, set = centre of the box.
    /// Bit 1: the accessors stall now and then, which shakes up thread schedules.
    /// Bit 2: the reported box is larger than that of the vertices.
    pub mode: u8,
}

impl Tri {
    pub fn new(id: usize, t: &[f32; 9], mode: u8) -> Tri {
        Tri {
            id: id as u32,
            v: [
                vec3(t[0], t[1], t[2]),
                vec3(t[3], t[4], t[5]),
                vec3(t[6], t[7], t[8]),
            ],
            mode,
        }
    }
}

#[inline]
fn jitter(mode: u8) {
    use std::sync::atomic::{AtomicU32, Ordering};
    static N: AtomicU32 = AtomicU32::new(1);
    if mode & 2 != 0 {
        let h = N.fetch_add(1, Ordering::Relaxed).wrapping_mul(0x9E37_79B9) >> 16;
        if h % 97 == 0 {
            std::thread::yield_now();
        } else if h % 1201 == 0 {
            std::thread::sleep(std::time::Duration::from_micros(30));
        }
    }
}

impl Primitive<i32> for Tri {
    fn center(&self) -> Vec3 {
        jitter(self.mode);
        if self.mode & 1 == 1 {
            let lo = self.v[0].min(self.v[1]).min(self.v[2]);
            let hi = self.v[0].max(self.v[1]).max(self.v[2]);
            (lo + hi) * 0.5
        } else {
            (self.v[0] + self.v[1] + self.v[2]) * (1.0 / 3.0)
        }
    }
    fn aabb(&self) -> Aabb<i32> {
        let lo = self.v[0].min(self.v[1]).min(self.v[2]);
        let hi = self.v[0].max(self.v[1]).max(self.v[2]);
        let (lo, hi) = if self.mode & 4 != 0 {
            let k = (self.id % 4) as f32 * 0.25;
            (lo - vec3(0.3 * k, k, 0.0), hi + vec3(0.1, k * k, 0.2 * k))
        } else {
            (lo, hi)
        };
        Aabb {
            min: lo,
            extra1: 0,
            max: hi,
            extra2: 0,
        }
    }
}

impl SpatialTriangle for Tri {
    fn vertex0(&self) -> Vec3 {
        jitter(self.mode);
        self.v[0]
    }
    fn vertex1(&self) -> Vec3 {
        self.v[1]
    }
    fn vertex2(&self) -> Vec3 {
        self.v[2]
    }
}

/// Primitives that know their position in the slice.
pub trait Ident {
    fn ident(&self) -> u32;
}

impl Ident for Tri {
    fn ident(&self) -> u32 {
        self.id
    }
}

impl Ident for BoxPrim {
    fn ident(&self) -> u32 {
        self.id
    }
}

/// A primitive that is just a box with an arbitrary centre.
#[derive(Debug, Clone, Copy)]
pub struct BoxPrim {
    pub id: u32,
    pub b: Aabb<i32>,
    pub c: Vec3,
}

impl Primitive<i32> for BoxPrim {
    fn center(&self) -> Vec3 {
        self.c
    }
    fn aabb(&self) -> Aabb<i32> {
        self.b
    }
}

pub fn bb(b: &Box6) -> Aabb<i32> {
    Aabb {
        min: vec3(b[0], b[1], b[2]),
        extra1: 0,
        max: vec3(b[3], b[4], b[5]),
        extra2: 0,
    }
}

pub fn b6(a: &Aabb<i32>) -> Box6 {
    [a.min.x, a.min.y, a.min.z, a.max.x, a.max.y, a.max.z]
}

pub fn tri_box(t: &[f32; 9]) -> Box6 {
    let mut b = [f32::MAX, f32::MAX, f32::MAX, f32::MIN, f32::MIN, f32::MIN];
    for v in 0..3 {
        for a in 0..3 {
            b[a] = b[a].min(t[v * 3 + a]);
            b[a + 3] = b[a + 3].max(t[v * 3 + a]);
        }
    }
    b
}

pub fn union6(a: &Box6, b: &Box6) -> Box6 {
    let mut r = *a;
    for i in 0..3 {
        r[i] = a[i].min(b[i]);
        r[i + 3] = a[i + 3].max(b[i + 3]);
    }
    r
}

pub const EMPTY6: Box6 = [f32::MAX, f32::MAX, f32::MAX, f32::MIN, f32::MIN, f32::MIN];

pub fn inside6(inner: &Box6, outer: &Box6) -> bool {
    (0..3).all(|a| outer[a] <= inner[a] && inner[a + 3] <= outer[a + 3])
}

pub fn tris_of(c: &Case, mode: u8) -> Vec<Tri> {
    c.tris
        .iter()
        .enumerate()
        .map(|(i, t)| Tri::new(i, t, mode))
        .collect()
}

pub fn boxprims(c: &Case) -> Vec<BoxPrim> {
    c.prims
        .iter()
        .enumerate()
        .map(|(i, p)| BoxPrim {
            id: i as u32,
            b: bb(&[p[0], p[1], p[2], p[3], p[4], p[5]]),
            c: vec3(p[6], p[7], p[8]),
        })
        .collect()
}

pub const BINNED: i64 = 0;
pub const LOCB: i64 = 1;
pub const SPATIAL: i64 = 2;

pub fn bname(b: i64) -> &'static str {
    match b {
        BINNED => "binned",
        LOCB => "locb",
        _ => "spatial",
    }
}

pub fn builder<'a, T: Primitive<i32>>(
    prims: &'a [T],
    aabbs: Option<&'a [Aabb<i32>]>,
    leaf: i64,
) -> Builder<'a, T> {
    Builder {
        aabbs,
        primitives: prims,
        primitives_per_leaf: NonZeroUsize::new(leaf.max(0) as usize),
    }
}

pub fn build_tris(
    prims: &[Tri],
    aabbs: Option<&[Aabb<i32>]>,
    which: i64,
    leaf: i64,
) -> Result<Bvh, BuildError> {
    let b = builder(prims, aabbs, leaf);
    match which {
        BINNED => b.construct_binned_sah(),
        LOCB => b.construct_locally_ordered_clustered(),
        _ => b.construct_spatial_sah(),
    }
}

pub fn build_boxes<T: Primitive<i32>>(
    prims: &[T],
    aabbs: Option<&[Aabb<i32>]>,
    which: i64,
    leaf: i64,
) -> Result<Bvh, BuildError> {
    let b = builder(prims, aabbs, leaf);
    match which {
        BINNED => b.construct_binned_sah(),
        _ => b.construct_locally_ordered_clustered(),
    }
}

/// Boxes supplied with the case, if any.
pub fn supplied(c: &Case) -> Option<Vec<Aabb<i32>>> {
    if c.boxes.is_empty() {
        None
    } else {
        Some(c.boxes.iter().map(bb).collect())
    }
}

/// The box of primitive i the builders are told about.
pub fn prim_box(c: &Case, i: usize) -> Box6 {
    if !c.boxes.is_empty() {
        c.boxes[i]
    } else if !c.tris.is_empty() {
        tri_box(&c.tris[i])
    } else {
        let p = &c.prims[i];
        [p[0], p[1], p[2], p[3], p[4], p[5]]
    }
}

#[derive(Clone, Debug)]
pub struct TNode {
    pub b: Box6,
    /// None for inner nodes
    pub leaf: Option<(usize, usize)>,
    pub left: usize,
    pub parent: usize,
    pub depth: usize,
    /// Node index in the structure
    pub id: usize,
}

/// The hierarchy of a BVH as reached from the root, in pre-order.
#[derive(Clone, Debug, Default)]
pub struct Tree {
    pub nodes: Vec<TNode>,
    pub indices: Vec<u32>,
}

pub fn node_box(n: &BvhNode) -> Box6 {
    b6(&n.bounds)
}

impl Tree {
    /// Walks the tree; an error describes how it is malformed.
    pub fn walk(nodes: &[BvhNode], indices: &[u32]) -> Result<Tree, String> {
        let mut t = Tree {
            nodes: vec![],
            indices: indices.to_vec(),
        };
        if nodes.is_empty() {
            return Ok(t);
        }
        let mut seen = vec![false; nodes.len()];
        let mut stack = vec![(0usize, usize::MAX, 0usize)];
        while let Some((id, parent, depth)) = stack.pop() {
            if id >= nodes.len() {
                return Err(format!("malformed: child index {} of {} nodes", id, nodes.len()));
            }
            if seen[id] {
                return Err(format!("malformed: node {} is reached twice", id));
            }
            seen[id] = true;
            let n = &nodes[id];
            let me = t.nodes.len();
            let b = node_box(n);
            if n.is_leaf() {
                let first = n
                    .get_left_first()
                    .ok_or_else(|| format!("malformed: leaf {} without first index", id))?
                    as usize;
                let cnt = n.get_count_unchecked() as usize;
                t.nodes.push(TNode {
                    b,
                    leaf: Some((first, cnt)),
                    left: 0,
                    parent,
                    depth,
                    id,
                });
            } else {
                let l = n
                    .get_left_first()
                    .ok_or_else(|| format!("malformed: inner node {} without children", id))?
                    as usize;
                t.nodes.push(TNode {
                    b,
                    leaf: None,
                    left: l,
                    parent,
                    depth,
                    id,
                });
                if l == 0 {
                    return Err(format!("malformed: node {} has the root as child", id));
                }
                stack.push((l + 1, me, depth + 1));
                stack.push((l, me, depth + 1));
            }
        }
        Ok(t)
    }

    pub fn of(bvh: &Bvh) -> Result<Tree, String> {
        Tree::walk(bvh.nodes(), bvh.indices())
    }

    pub fn leaf_prims(&self, n: &TNode) -> &[u32] {
        let (f, c) = n.leaf.unwrap();
        &self.indices[f..f + c]
    }

    pub fn leaves(&self) -> impl Iterator<Item = (usize, &TNode)> {
        self.nodes
            .iter()
            .enumerate()
            .filter(|(_, n)| n.leaf.is_some())
    }

    pub fn max_depth(&self) -> usize {
        self.nodes.iter().map(|n| n.depth).max().unwrap_or(0)
    }

    /// Total number of leaf entries.
    pub fn refs(&self) -> usize {
        self.leaves().map(|(_, n)| n.leaf.unwrap().1).sum()
    }

    /// For every node the union of `prim(i)` over the primitives beneath it.
    pub fn unions(&self, prim: &dyn Fn(usize) -> Box6) -> Vec<Box6> {
        let mut u = vec![EMPTY6; self.nodes.len()];
        for i in (0..self.nodes.len()).rev() {
            let n = &self.nodes[i];
            if n.leaf.is_some() {
                for p in self.leaf_prims(n) {
                    u[i] = union6(&u[i], &prim(*p as usize));
                }
            }
            if n.parent != usize::MAX {
                u[n.parent] = union6(&u[n.parent], &u[i].clone());
            }
        }
        u
    }

    /// Height of every node (0 for leaves).
    pub fn heights(&self) -> Vec<usize> {
        let mut h = vec![0; self.nodes.len()];
        for i in (0..self.nodes.len()).rev() {
            let p = self.nodes[i].parent;
            if p != usize::MAX {
                h[p] = h[p].max(h[i] + 1);
            }
        }
        h
    }

    /// A hash of the hierarchy that does not depend on node or slot numbering.
    pub fn canonical(&self) -> u64 {
        fn mix(h: u64, x: u64) -> u64 {
            let mut z = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15);
            z ^= z >> 29;
            z = z.wrapping_mul(0xBF58476D1CE4E5B9);
            z ^ (z >> 32)
        }
        let mut kids: Vec<Vec<u64>> = vec![vec![]; self.nodes.len()];
        let mut root = 0;
        for i in (0..self.nodes.len()).rev() {
            let n = &self.nodes[i];
            let mut h = 17u64;
            for x in n.b.iter() {
                h = mix(h, (*x + 0.0).to_bits() as u64);
            }
            if n.leaf.is_some() {
                let mut p = self.leaf_prims(n).to_vec();
                p.sort_unstable();
                h = mix(h, 1 + p.len() as u64);
                for x in p {
                    h = mix(h, x as u64);
                }
            } else {
                kids[i].sort_unstable();
                for k in &kids[i] {
                    h = mix(h, *k);
                }
            }
            if n.parent == usize::MAX {
                root = h;
            } else {
                kids[n.parent].push(h);
            }
        }
        root
    }

    /// A rendering of the hierarchy in pre-order.
    #[allow(dead_code)]
    pub fn rendering(&self) -> Vec<u32> {
        let mut v = vec![];
        for n in &self.nodes {
            v.extend(n.b.iter().map(|x| (*x + 0.0).to_bits()));
            v.push(n.depth as u32);
            if n.leaf.is_some() {
                let p = self.leaf_prims(n);
                v.push(p.len() as u32);
                v.extend_from_slice(p);
            } else {
                v.push(u32::MAX);
            }
        }
        v
    }
}

/// Checks leaf ranges and returns the number of references of every primitive.
pub fn reference_counts(t: &Tree, n: usize) -> Result<Vec<u32>, String> {
    let mut used = vec![false; t.indices.len()];
    let mut refs = vec![0u32; n];
    for (_, l) in t.leaves() {
        let (f, c) = l.leaf.unwrap();
        if c == 0 {
            return Err(format!("malformed: leaf {} is empty", l.id));
        }
        if f + c > t.indices.len() {
            return Err(format!(
                "malformed: leaf {} designates {}..{} of {} indices",
                l.id,
                f,
                f + c,
                t.indices.len()
            ));
        }
        for i in f..f + c {
            if used[i] {
                return Err(format!("malformed: index slot {} belongs to two leaves", i));
            }
            used[i] = true;
            let p = t.indices[i] as usize;
            if p >= n {
                return Err(format!("malformed: primitive {} of {}", p, n));
            }
            refs[p] += 1;
        }
    }
    Ok(refs)
}

#[derive(Clone, Debug)]
pub struct Slot {
    pub b: Box6,
    /// Leaf run, or None for a child quad node
    pub leaf: Option<(usize, usize)>,
    /// Slot that leads to the quad node this slot is in (usize::MAX in the root)
    pub up: usize,
    pub quad: usize,
    pub child: usize,
    pub depth: usize,
}

/// All occupied slots reachable from the root quad node.
pub fn walk_quads(nodes: &[MbvhNode]) -> Result<Vec<Slot>, String> {
    let mut out: Vec<Slot> = vec![];
    if nodes.is_empty() {
        return Ok(out);
    }
    let mut seen = vec![false; nodes.len()];
    let mut stack = vec![(0usize, usize::MAX, 0usize)];
    while let Some((q, up, depth)) = stack.pop() {
        if q >= nodes.len() {
            return Err(format!("malformed: quad node {} of {}", q, nodes.len()));
        }
        if seen[q] {
            return Err(format!("malformed: quad node {} is reached twice", q));
        }
        seen[q] = true;
        let (nx, xx, ny, xy, nz, xz) = nodes[q].points();
        for i in 0..4 {
            let (ch, ct) = (nodes[q].children[i], nodes[q].counts[i]);
            let b = [nx[i], ny[i], nz[i], xx[i], xy[i], xz[i]];
            if ct >= 0 {
                if ch < 0 {
                    return Err(format!("malformed: slot {} of quad {} has count without first", i, q));
                }
                out.push(Slot {
                    b,
                    leaf: Some((ch as usize, ct as usize)),
                    up,
                    quad: q,
                    child: 0,
                    depth,
                });
            } else if ch >= 0 {
                out.push(Slot {
                    b,
                    leaf: None,
                    up,
                    quad: q,
                    child: ch as usize,
                    depth,
                });
                stack.push((ch as usize, out.len() - 1, depth + 1));
            }
        }
    }
    Ok(out)
}

pub fn ray_of(r: &[f32; 8]) -> Ray {
    let mut ray = Ray::new(vec3(r[0], r[1], r[2]), vec3(r[3], r[4], r[5]));
    ray.t_min = r[6];
    ray.t = r[7];
    ray
}

/// The packet made of four rays of a case.
pub fn packet_of(r: &[[f32; 8]]) -> RayPacket4 {
    let o: Vec<Vec4> = r.iter().map(|r| vec4(r[0], r[1], r[2], 1.0)).collect();
    let d: Vec<Vec4> = r.iter().map(|r| vec4(r[3], r[4], r[5], 0.0)).collect();
    let mut p = RayPacket4::new([o[0], o[1], o[2], o[3]], [d[0], d[1], d[2], d[3]]);
    p.t = vec4(r[0][7], r[1][7], r[2][7], r[3][7]);
    p
}

pub fn spec_ok_tris(c: &Case) -> bool {
    !c.tris.is_empty()
        && c.tris.iter().all(|t| t.iter().all(|x| x.is_finite()))
        && (c.boxes.is_empty()
            || (c.boxes.len() == c.tris.len()
                && c.boxes
                    .iter()
                    .zip(&c.tris)
                    .all(|(b, t)| inside6(&tri_box(t), b))))
}

/// Runs `f` with the calling thread restricted to `n` processors, as `num_cpus` sees them.
pub fn with_cpus<R>(n: usize, f: impl FnOnce() -> R) -> R {
    unsafe {
        let mut old: libc::cpu_set_t = std::mem::zeroed();
        let sz = std::mem::size_of::<libc::cpu_set_t>();
        if n == 0 || libc::sched_getaffinity(0, sz, &mut old) != 0 {
            return f();
        }
        let mut new: libc::cpu_set_t = std::mem::zeroed();
        let mut left = n;
        for i in 0..1024 {
            if left > 0 && libc::CPU_ISSET(i, &old) {
                libc::CPU_SET(i, &mut new);
                left -= 1;
            }
        }
        libc::sched_setaffinity(0, sz, &new);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        libc::sched_setaffinity(0, sz, &old);
        match r {
            Ok(r) => r,
            Err(e) => std::panic::resume_unwind(e),
        }
    }
}

/// A copy of a slice between two inaccessible pages: right before the second one, or right
/// after the first one, `off` words away from it. Reading outside of the slice ends the process.
pub struct Fenced<T> {
    base: *mut u8,
    total: usize,
    start: *const T,
    len: usize,
}

impl<T> Fenced<T> {
    pub fn new(v: &[T], front: bool, off: usize) -> Fenced<T> {
        const PAGE: usize = 4096;
        assert!(!std::mem::needs_drop::<T>());
        let bytes = std::mem::size_of_val(v);
        let data = (bytes + off * 4).div_ceil(PAGE).max(1) * PAGE;
        let total = data + 2 * PAGE;
        unsafe {
            let base = libc::mmap(
                std::ptr::null_mut(),
                total,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            ) as *mut u8;
            assert!(base as isize != -1, "mmap");
            libc::mprotect(base as *mut libc::c_void, PAGE, libc::PROT_NONE);
            libc::mprotect(base.add(PAGE + data) as *mut libc::c_void, PAGE, libc::PROT_NONE);
            let start = if front {
                base.add(PAGE + off * 4)
            } else {
                base.add(PAGE + data - bytes - off * 4)
            } as *mut T;
            assert!(start as usize % std::mem::align_of::<T>() == 0, "alignment");
            std::ptr::copy_nonoverlapping(v.as_ptr(), start, v.len());
            Fenced { base, total, start, len: v.len() }
        }
    }
}

impl<T> std::ops::Deref for Fenced<T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        unsafe { std::slice::from_raw_parts(self.start, self.len) }
    }
}

impl<T> Drop for Fenced<T> {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base as *mut libc::c_void, self.total);
        }
    }
}
