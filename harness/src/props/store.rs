//! C23: what is stored comes back the same.
use super::hits::S;
use super::Prop;
use crate::case::Case;
use crate::engine::Ctx;
use crate::ensure;
use crate::gen::G;
use crate::scene::*;
use crate::util::*;
use glam::*;
use rtbvh::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;

const SENTINEL: u64 = 0x0123_4567_89ab_cdef;

/// Every way of storing and loading a value; JSON only when it can hold it.
fn round_trips<T: Serialize + DeserializeOwned>(x: &T, json: bool) -> Result<Vec<(&'static str, T)>, String> {
    let mut out = vec![];
    let fail = |how: &str, e: String| format!("error: {}: {}", how, e);
    let b = bincode::serialize(x).map_err(|e| fail("bincode", e.to_string()))?;
    let v: T = bincode::deserialize(&b).map_err(|e| fail("bincode", e.to_string()))?;
    out.push(("bincode", v));
    // In the middle of a stream, so that too much or too little read shows
    let b = bincode::serialize(&(SENTINEL, x, SENTINEL)).map_err(|e| fail("bincode", e.to_string()))?;
    let (s0, v, s1): (u64, T, u64) =
        bincode::deserialize_from(&b[..]).map_err(|e| fail("bincode stream", e.to_string()))?;
    ensure!(
        s0 == SENTINEL && s1 == SENTINEL,
        "stream: loading does not consume what storing produced"
    );
    out.push(("bincode stream", v));
    if json {
        let s = serde_json::to_string(x).map_err(|e| fail("json", e.to_string()))?;
        let v: T = serde_json::from_str(&s).map_err(|e| fail("json", e.to_string()))?;
        out.push(("json", v));
        let s = serde_json::to_vec_pretty(x).map_err(|e| fail("json", e.to_string()))?;
        let v: T = serde_json::from_reader(&s[..]).map_err(|e| fail("json reader", e.to_string()))?;
        out.push(("json reader", v));
        // Member order is of no consequence in a self-describing format
        let s = serde_json::to_value(x).map_err(|e| fail("json", e.to_string()))?;
        let v: T = serde_json::from_value(s).map_err(|e| fail("json value", e.to_string()))?;
        out.push(("json value", v));
    }
    Ok(out)
}

fn bits(x: &[f32]) -> Vec<u32> {
    x.iter().map(|x| x.to_bits()).collect()
}

fn aabb_bits<E: Debug + Copy>(a: &Aabb<E>) -> (Vec<u32>, String) {
    (
        bits(&[a.min.x, a.min.y, a.min.z, a.max.x, a.max.y, a.max.z]),
        format!("{:?} {:?}", a.extra1, a.extra2),
    )
}

fn node_bits(n: &BvhNode) -> (Vec<u32>, i32, i32) {
    (
        bits(&node_box(n)),
        n.get_left_first_unchecked(),
        n.get_count_unchecked(),
    )
}

fn quad_bits(n: &MbvhNode) -> (Vec<u32>, [i32; 4], [i32; 4]) {
    let (a, b, c, d, e, f) = n.points();
    let mut v = vec![];
    for x in [a, b, c, d, e, f] {
        v.extend(bits(&x.to_array()));
    }
    (v, n.children, n.counts)
}

fn v4(x: Vec4) -> Vec<u32> {
    bits(&x.to_array())
}

fn ray_bits(r: &Ray) -> (Vec<u32>, String) {
    (
        bits(&[
            r.origin.x,
            r.origin.y,
            r.origin.z,
            r.direction.x,
            r.direction.y,
            r.direction.z,
            r.t_min,
            r.t,
        ]),
        // shows the cached values as well
        format!("{:?}", r),
    )
}

fn packet_bits(r: &RayPacket4) -> Vec<Vec<u32>> {
    [
        r.origin_x,
        r.origin_y,
        r.origin_z,
        r.direction_x,
        r.direction_y,
        r.direction_z,
        r.inv_direction_x,
        r.inv_direction_y,
        r.inv_direction_z,
        r.t,
    ]
    .iter()
    .map(|x| v4(*x))
    .collect()
}

/// What a structure answers to a query, in order, with a callback that changes the distance.
fn single_answers(s: S, prims: &[Tri], ray: &Ray) -> (Vec<u32>, u32, Vec<u32>) {
    let mut log = vec![];
    let mut r = *ray;
    s.single(0, prims, &mut r, &mut |id, r| {
        log.push(id);
        prims[id as usize].intersect(r);
    });
    let mut all = vec![];
    let mut q = *ray;
    s.single(0, prims, &mut q, &mut |id, _| all.push(id));
    (log, r.t.to_bits(), all)
}

fn packet_answers(s: S, prims: &[Tri], ray: &RayPacket4) -> (Vec<u32>, Vec<u32>, Vec<u32>) {
    let mut log = vec![];
    let mut r = *ray;
    s.packet(0, prims, &mut r, &mut |id, r| {
        log.push(id);
        prims[id as usize].intersect4(r, Vec4::splat(1e-4));
    });
    let mut all = vec![];
    let mut q = *ray;
    s.packet(0, prims, &mut q, &mut |id, _| all.push(id));
    (log, v4(r.t), all)
}

fn same_answers(a: S, b: S, prims: &[Tri], rays: &[Ray], packets: &[RayPacket4], how: &str) -> Result<(), String> {
    for r in rays {
        ensure!(
            single_answers(a, prims, r) == single_answers(b, prims, r),
            "answers: a {} loaded from {} answers a ray differently",
            a.name(),
            how
        );
    }
    for r in packets {
        ensure!(
            packet_answers(a, prims, r) == packet_answers(b, prims, r),
            "answers: a {} loaded from {} answers a packet differently",
            a.name(),
            how
        );
    }
    Ok(())
}

fn check_bvh(
    bvh: &Bvh,
    prims: &[Tri],
    rays: &[Ray],
    packets: &[RayPacket4],
    frame: Option<&[Aabb<i32>]>,
) -> Result<(), String> {
    for (how, l) in round_trips(bvh, true)? {
        ensure!(
            bvh.nodes().len() == l.nodes().len()
                && bvh.nodes().iter().zip(l.nodes()).all(|(a, b)| node_bits(a) == node_bits(b)),
            "nodes: a BVH of {} nodes loaded from {} has other nodes",
            bvh.nodes().len(),
            how
        );
        ensure!(
            bvh.indices() == l.indices(),
            "indices: a BVH loaded from {} has other indices",
            how
        );
        ensure!(
            bvh.build_type() == l.build_type(),
            "build type: {:?} loaded from {} is {:?}",
            bvh.build_type(),
            how,
            l.build_type()
        );
        ensure!(
            bvh.prim_count() == l.prim_count() && aabb_bits(&bvh.bounds()) == aabb_bits(&l.bounds()),
            "bounds: a BVH loaded from {} has other bounds",
            how
        );
        same_answers(S::B(bvh), S::B(&l), prims, rays, packets, how)?;
        // The loaded tree is as good a tree as the original
        let (m0, m1) = (Mbvh::construct(bvh), Mbvh::construct(&l));
        ensure!(
            m0.quad_nodes().len() == m1.quad_nodes().len()
                && m0.quad_nodes().iter().zip(m1.quad_nodes()).all(|(a, b)| quad_bits(a) == quad_bits(b)),
            "conversion: a BVH loaded from {} converts differently",
            how
        );
        if let Some(f) = frame {
            let (mut a, mut b) = (bvh.clone(), l.clone());
            a.refit(f);
            b.refit(f);
            ensure!(
                a.nodes().iter().zip(b.nodes()).all(|(a, b)| node_bits(a) == node_bits(b)),
                "refit: a BVH loaded from {} refits differently",
                how
            );
        }
    }
    Ok(())
}

fn check_mbvh(m: &Mbvh, prims: &[Tri], rays: &[Ray], packets: &[RayPacket4]) -> Result<(), String> {
    for (how, l) in round_trips(m, true)? {
        ensure!(
            m.quad_nodes().len() == l.quad_nodes().len()
                && m.quad_nodes().iter().zip(l.quad_nodes()).all(|(a, b)| quad_bits(a) == quad_bits(b)),
            "nodes: an MBVH of {} quad nodes loaded from {} has other quad nodes",
            m.quad_nodes().len(),
            how
        );
        ensure!(
            m.nodes().len() == l.nodes().len()
                && m.nodes().iter().zip(l.nodes()).all(|(a, b)| node_bits(a) == node_bits(b)),
            "nodes: an MBVH of {} nodes loaded from {} has other nodes",
            m.nodes().len(),
            how
        );
        ensure!(
            m.indices() == l.indices(),
            "indices: an MBVH loaded from {} has other indices",
            how
        );
        ensure!(
            m.prim_count() == l.prim_count() && aabb_bits(&m.bounds()) == aabb_bits(&l.bounds()),
            "bounds: an MBVH loaded from {} has other bounds",
            how
        );
        same_answers(S::M(m), S::M(&l), prims, rays, packets, how)?;
    }
    Ok(())
}

fn check_ray(r: &Ray, s: &[S], prims: &[Tri], boxes: &[Aabb<i32>]) -> Result<(), String> {
    let dbg = format!("{:?}", r);
    let json = !dbg.contains("inf") && !dbg.contains("NaN");
    for (how, l) in round_trips(r, json)? {
        ensure!(
            ray_bits(r) == ray_bits(&l),
            "ray: {:?} loaded from {} is {:?}",
            r,
            how,
            l
        );
        for s in s {
            ensure!(
                single_answers(*s, prims, r) == single_answers(*s, prims, &l),
                "answers: a {} answers a ray loaded from {} differently: {:?}",
                s.name(),
                how,
                r
            );
        }
        for b in boxes {
            ensure!(
                b.intersect(r).map(|x| x.to_bits()) == b.intersect(&l).map(|x| x.to_bits())
                    && b.intersects(r) == b.intersects(&l),
                "answers: a box answers a ray loaded from {} differently: {:?}",
                how,
                r
            );
        }
    }
    Ok(())
}

fn check_packet(r: &RayPacket4, s: &[S], prims: &[Tri], boxes: &[Aabb<i32>]) -> Result<(), String> {
    let json = packet_bits(r).iter().flatten().all(|x| f32::from_bits(*x).is_finite());
    for (how, l) in round_trips(r, json)? {
        ensure!(
            packet_bits(r) == packet_bits(&l),
            "packet: {:?} loaded from {} is {:?}",
            r,
            how,
            l
        );
        for s in s {
            ensure!(
                packet_answers(*s, prims, r) == packet_answers(*s, prims, &l),
                "answers: a {} answers a packet loaded from {} differently",
                s.name(),
                how
            );
        }
        for b in boxes {
            ensure!(
                b.intersect4(r).map(|x| bits(&x)) == b.intersect4(&l).map(|x| bits(&x)),
                "answers: a box answers a packet loaded from {} differently",
                how
            );
        }
        for i in 0..4 {
            ensure!(
                ray_bits(&r.ray(i)) == ray_bits(&l.ray(i)),
                "packet: lane {} of a packet loaded from {} differs",
                i,
                how
            );
        }
    }
    Ok(())
}

fn check_box<E>(a: &Aabb<E>) -> Result<(), String>
where
    E: Debug + Copy + Default + Serialize + DeserializeOwned + Send + Sync,
{
    let json = b_finite(a);
    for (how, l) in round_trips(a, json)? {
        ensure!(
            aabb_bits(a) == aabb_bits(&l),
            "box: {:?} loaded from {} is {:?}",
            a,
            how,
            l
        );
    }
    Ok(())
}

fn b_finite<E: Debug + Copy>(a: &Aabb<E>) -> bool {
    a.min.is_finite() && a.max.is_finite()
}

#[derive(Default, Debug, Copy, Clone, Serialize, Deserialize)]
struct Tag {
    material: u16,
    flags: (bool, i64),
}

/// u: builder, leaf, extras; f: wild values for boxes and packets
fn gen_c23(g: &mut G, _: u64) -> Case {
    let b = g.below(3) as i64;
    let (tris, _) = if g.chance(0.03) {
        any_scene(g, 100.0)
    } else if g.chance(0.6) {
        let n = g.int(1, 24) as usize;
        let fam = g.below(FAMILIES);
        (scene(g, fam, n, 100.0), fam)
    } else {
        small_scene(g, 100.0)
    };
    let boxes = boxes_for(g, &tris);
    let rg = RayGen::new(&tris);
    let mut rays = vec![];
    for _ in 0..g.int(1, 3) {
        rays.extend(rg.packet(g, &tris));
    }
    let frames = if g.chance(0.5) {
        let k = rg.size * g.pick(&[0.1f32, 1.0]);
        vec![tris
            .iter()
            .map(|t| {
                let d = [g.sym(k), g.sym(k), g.sym(k)];
                let mut t = *t;
                for (i, x) in t.iter_mut().enumerate() {
                    *x += d[i % 3];
                }
                t
            })
            .collect()]
    } else {
        vec![]
    };
    let special = [
        0.0f32,
        -0.0,
        1.0,
        f32::MIN_POSITIVE,
        1e-45,
        f32::MAX,
        f32::MIN,
        f32::INFINITY,
        f32::NEG_INFINITY,
        f32::NAN,
        1e34,
        -1e34,
        f32::EPSILON,
        16777217.0,
    ];
    let wild = g.below(3);
    let f = (0..40)
        .map(|_| match wild {
            0 => g.sym(10.0),
            1 => {
                if g.chance(0.3) {
                    g.pick(&special)
                } else {
                    g.sym(1000.0)
                }
            }
            _ => f32::from_bits(g.u64() as u32),
        })
        .collect();
    Case {
        tris,
        boxes,
        frames,
        rays,
        group: 4,
        f,
        u: vec![
            b,
            leaf_size(g),
            g.below(1 << 16) as i64,
            g.u64() as u32 as i64,
            g.u64() as u32 as i64,
        ],
        ..Default::default()
    }
}

fn c23(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    if !spec_ok_tris(c)
        || c.u.len() < 5
        || c.f.len() < 40
        || c.rays.len() % 4 != 0
        || c.frames.iter().any(|f| f.len() != c.tris.len() || f.iter().any(|t| t.iter().any(|x| !x.is_finite())))
    {
        return Ok(());
    }
    let prims = tris_of(c, 0);
    let sup = supplied(c);
    let mut bvh = build_tris(&prims, sup.as_deref(), c.u[0], c.u[1])
        .map_err(|e| format!("build: refused valid input: {}", e))?;
    let mut prims_now = prims.clone();
    let rays: Vec<Ray> = c.rays.iter().map(ray_of).collect();
    let packets: Vec<RayPacket4> = c.rays.chunks(4).map(packet_of).collect();
    let frame: Option<Vec<Aabb<i32>>> = c.frames.first().map(|f| f.iter().map(|t| bb(&tri_box(t))).collect());
    check_bvh(&bvh, &prims, &rays, &packets, frame.as_deref())?;
    ctx.hit("BVH");
    check_mbvh(&Mbvh::construct(&bvh), &prims, &rays, &packets)?;
    if c.u[2] & 7 == 0 {
        check_mbvh(
            &Mbvh::construct_from_raw(bvh.nodes(), bvh.indices()),
            &prims,
            &rays,
            &packets,
        )?;
    }
    if let Some(f) = &frame {
        bvh.refit(f);
        prims_now = c.frames[0].iter().enumerate().map(|(i, t)| Tri::new(i, t, 0)).collect();
        check_bvh(&bvh, &prims_now, &rays, &packets, None)?;
        check_mbvh(&Mbvh::construct(&bvh), &prims_now, &rays, &packets)?;
        ctx.hit("refitted");
    }
    let mbvh = Mbvh::from(bvh.clone());
    let st = [S::B(&bvh), S::M(&mbvh)];
    if c.u[2] & 3 == 1 {
        let e = Bvh::default();
        check_bvh(&e, &prims, &rays, &packets, None)?;
        check_mbvh(&Mbvh::default(), &prims, &rays, &packets)?;
        check_mbvh(&Mbvh::construct(&e), &prims, &rays, &packets)?;
        ctx.hit("empty structures");
    }
    let boxes: Vec<Aabb<i32>> = c.tris.iter().take(6).map(|t| bb(&tri_box(t))).collect();
    for (i, r) in rays.iter().enumerate().take(8) {
        check_ray(r, &st, &prims_now, &boxes)?;
        let mut used = *r;
        bvh.traverse_iter(&mut used, &prims_now).for_each(|(p, r)| {
            p.intersect(r);
        });
        check_ray(&used, &st, &prims_now, &boxes)?;
        let n = vec3(c.f[i], c.f[i + 8], c.f[i + 16]);
        check_ray(&r.reflect(vec3(c.f[i + 1], c.f[i + 9], c.f[i + 17]), n, 1e-4), &st, &prims_now, &boxes)?;
        if r.direction.to_array().iter().any(|x| *x == 0.0) {
            ctx.hit("rays with infinite cached values");
        }
    }
    for p in &packets {
        check_packet(p, &st, &prims_now, &boxes)?;
        for i in 0..4 {
            check_ray(&p.ray(i), &st, &prims_now, &boxes)?;
        }
    }
    // Arbitrary contents
    let f = &c.f;
    let w = |i: usize| vec4(f[i], f[i + 1], f[i + 2], f[i + 3]);
    let p = RayPacket4 {
        origin_x: w(0),
        origin_y: w(4),
        origin_z: w(8),
        direction_x: w(12),
        direction_y: w(16),
        direction_z: w(20),
        inv_direction_x: w(24),
        inv_direction_y: w(28),
        inv_direction_z: w(32),
        t: w(36),
    };
    check_packet(&p, &[], &prims, &[])?;
    let mut r = Ray::new(vec3(f[0], f[1], f[2]), vec3(f[3], f[4], f[5]));
    r.t = f[6];
    r.t_min = f[7];
    check_ray(&r, &[], &prims, &[])?;
    let (min, max) = (vec3(f[8], f[9], f[10]), vec3(f[11], f[12], f[13]));
    let (e1, e2) = (c.u[3] as i32, c.u[4] as i32);
    let a = Aabb { min, extra1: e1, max, extra2: e2 };
    check_box(&a)?;
    check_box(&Aabb { min, extra1: (), max, extra2: () })?;
    check_box(&Aabb { min, extra1: c.u[3] as u64, max, extra2: c.u[4] as u64 })?;
    let tag = |x: i64| Tag { material: x as u16, flags: (x & 1 == 1, x) };
    check_box(&Aabb { min, extra1: tag(c.u[3]), max, extra2: tag(c.u[4]) })?;
    let n = BvhNode { bounds: a };
    for (how, l) in round_trips(&n, b_finite(&a))? {
        ensure!(node_bits(&n) == node_bits(&l), "node: {:?} loaded from {} is {:?}", n, how, l);
    }
    let mut q = MbvhNode::new();
    for i in 0..4 {
        q.set_bounds(i, &[f[i * 3], f[i * 3 + 1], f[i * 3 + 2]], &[f[12 + i * 3], f[13 + i * 3], f[14 + i * 3]]);
        q.children[i] = e1.wrapping_mul(i as i32 + 1);
        q.counts[i] = e2.wrapping_mul(i as i32 - 2);
    }
    let fin = quad_bits(&q).0.iter().all(|x| f32::from_bits(*x).is_finite());
    for (how, l) in round_trips(&q, fin)? {
        ensure!(quad_bits(&q) == quad_bits(&l), "node: {:?} loaded from {} is {:?}", q, how, l);
    }
    ctx.nontrivial = c.tris.len() > 1 && !c.rays.is_empty();
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        gen: gen_c23,
        check: c23,
        quick: 67200,
        thorough: 2500000,
        rule: "a structure of more than one primitive is stored, loaded and queried with at least one packet of rays",
        assumptions: &[
            "bincode (positional) and JSON (self-describing); JSON only for finite values, which is all it can hold",
        ],
    }]
}
