#![allow(dead_code, unused_imports)]
use glam::*;
use rtbvh::*;
use std::num::NonZeroUsize;

#[derive(Debug, Copy, Clone)]
pub struct Tri(pub Vec3, pub Vec3, pub Vec3);
impl Primitive for Tri {
    fn center(&self) -> Vec3 { (self.0 + self.1 + self.2) / 3.0 }
    fn aabb(&self) -> Aabb { let mut b = Aabb::empty(); b.grow(self.0); b.grow(self.1); b.grow(self.2); b }
}
impl SpatialTriangle for Tri {
    fn vertex0(&self) -> Vec3 { self.0 }
    fn vertex1(&self) -> Vec3 { self.1 }
    fn vertex2(&self) -> Vec3 { self.2 }
}
pub struct Rng(pub u64);
impl Rng {
    pub fn f(&mut self) -> f32 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 40) as f32) / (1u64 << 24) as f32
    }
    pub fn v(&mut self) -> Vec3 { vec3(self.f() * 2.0 - 1.0, self.f() * 2.0 - 1.0, self.f() * 2.0 - 1.0) }
}
pub fn tris(n: usize, extent: f32, size: f32, seed: u64) -> Vec<Tri> {
    let mut r = Rng(seed);
    (0..n).map(|_| { let c = r.v() * extent; Tri(c + r.v() * size, c + r.v() * size, c + r.v() * size) }).collect()
}
pub fn builder(t: &[Tri], leaf: usize) -> Builder<'_, Tri> {
    Builder { aabbs: None, primitives: t, primitives_per_leaf: NonZeroUsize::new(leaf) }
}
pub fn builds(t: &[Tri], leaf: usize) -> Vec<Bvh> {
    vec![builder(t, leaf).construct_binned_sah().unwrap(), builder(t, leaf).construct_locally_ordered_clustered().unwrap(), builder(t, leaf).construct_spatial_sah().unwrap()]
}
/// Distance of the nearest hit, testing every triangle.
pub fn brute(t: &[Tri], ray: &Ray) -> f32 {
    let mut r = *ray;
    for p in t { p.intersect(&mut r); }
    r.t
}
pub fn fail(msg: &str) -> ! { eprintln!("defect: {}", msg); std::process::exit(1) }

