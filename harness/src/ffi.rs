//! The C interface as a C caller sees it: own declarations, linked against /repo's
//! rtbvh_ffi sources.
use rtbvh_ffi_shim as _;
use std::ffi::c_void;

#[derive(Debug, Copy, Clone)]
#[repr(C)]
pub struct RtAabb {
    pub min: [f32; 3],
    pub count: i32,
    pub max: [f32; 3],
    pub left_first: i32,
}

#[derive(Debug, Copy, Clone)]
#[repr(C)]
pub struct RtMbvhNode {
    pub b: [[f32; 4]; 6],
    pub children: [i32; 4],
    pub counts: [i32; 4],
}

#[derive(Debug, Copy, Clone)]
#[repr(C)]
pub struct RtBvh {
    pub id: u32,
    pub node_count: u32,
    pub nodes: *const RtAabb,
    pub index_count: u32,
    pub indices: *const u32,
}

#[derive(Debug, Copy, Clone)]
#[repr(C)]
pub struct RtMbvh {
    pub id: u32,
    pub node_count: u32,
    pub nodes: *const RtMbvhNode,
    pub index_count: u32,
    pub indices: *const u32,
}

unsafe impl Send for RtBvh {}
unsafe impl Sync for RtBvh {}
unsafe impl Send for RtMbvh {}
unsafe impl Sync for RtMbvh {}

pub const UNSET: u32 = 0xABCD_0123;

impl RtBvh {
    pub fn unset() -> RtBvh {
        RtBvh {
            id: UNSET,
            node_count: 7,
            nodes: std::ptr::null(),
            index_count: 9,
            indices: std::ptr::null(),
        }
    }
    pub fn is_unset(&self) -> bool {
        self.id == UNSET
            && self.node_count == 7
            && self.nodes.is_null()
            && self.index_count == 9
            && self.indices.is_null()
    }
    pub fn node_slice(&self) -> &[RtAabb] {
        unsafe { std::slice::from_raw_parts(self.nodes, self.node_count as usize) }
    }
    pub fn index_slice(&self) -> &[u32] {
        unsafe { std::slice::from_raw_parts(self.indices, self.index_count as usize) }
    }
}

impl RtMbvh {
    pub fn unset() -> RtMbvh {
        RtMbvh {
            id: UNSET,
            node_count: 7,
            nodes: std::ptr::null(),
            index_count: 9,
            indices: std::ptr::null(),
        }
    }
    pub fn is_unset(&self) -> bool {
        self.id == UNSET
            && self.node_count == 7
            && self.nodes.is_null()
            && self.index_count == 9
            && self.indices.is_null()
    }
    pub fn node_slice(&self) -> &[RtMbvhNode] {
        unsafe { std::slice::from_raw_parts(self.nodes, self.node_count as usize) }
    }
    pub fn index_slice(&self) -> &[u32] {
        unsafe { std::slice::from_raw_parts(self.indices, self.index_count as usize) }
    }
}

pub const OK: u32 = 0;
pub const ERROR: u32 = 1;
pub const NO_PRIMITIVES: u32 = 2;
pub const NAN: u32 = 4;

pub type Callback = extern "C" fn(u32, *mut f32, *mut c_void) -> bool;

extern "C" {
    pub fn create_spatial_Bvh(
        aabbs: *const RtAabb,
        prim_count: usize,
        centers: *const f32,
        stride: usize,
        vertices: *const f32,
        vertex_stride: usize,
        triangle_stride: usize,
        prims_per_leaf: u32,
        result: *mut RtBvh,
    ) -> u32;
    pub fn create_bvh(
        aabbs: *const RtAabb,
        prim_count: usize,
        centers: *const f32,
        center_stride: usize,
        prims_per_leaf: usize,
        bvh_type: u32,
        result: *mut RtBvh,
    ) -> u32;
    pub fn create_mbvh(bvh: RtBvh, mbvh: *mut RtMbvh) -> u32;
    pub fn refit(aabbs: *const RtAabb, bvh: RtBvh) -> u32;
    pub fn intersect(
        bvh: RtBvh,
        origin: *const f32,
        direction: *const f32,
        t: *mut f32,
        user_data: *mut c_void,
        intersect: Callback,
    ) -> u32;
    pub fn intersect_packet(
        bvh: RtBvh,
        ox: *const f32,
        oy: *const f32,
        oz: *const f32,
        dx: *const f32,
        dy: *const f32,
        dz: *const f32,
        t: *mut f32,
        user_data: *mut c_void,
        intersect: Callback,
    ) -> u32;
    pub fn intersect_mbvh(
        bvh: RtMbvh,
        origin: *const f32,
        direction: *const f32,
        t: *mut f32,
        user_data: *mut c_void,
        intersect: Callback,
    ) -> u32;
    pub fn intersect_mbvh_packet(
        bvh: RtMbvh,
        ox: *const f32,
        oy: *const f32,
        oz: *const f32,
        dx: *const f32,
        dy: *const f32,
        dz: *const f32,
        t: *mut f32,
        user_data: *mut c_void,
        intersect: Callback,
    ) -> u32;
    pub fn free_bvh(bvh: RtBvh);
    pub fn free_mbvh(bvh: RtMbvh);
}
