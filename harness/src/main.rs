#![feature(portable_simd, cfg_sanitize)]
#![allow(clippy::all)]

mod alloc_guard;
mod engine;
mod runner;

mod archr;
mod archw;
mod p_blend;
mod gen;
mod refm;
mod strict;

mod p_archive;
mod p_flavor;
mod p_ik;
mod p_math;
mod p_params;
mod p_skel;
mod p_skin;
mod p_sampling;
mod p_track;
mod p_valid;
mod p_xplat;
mod xwork;

#[global_allocator]
static ALLOC: alloc_guard::Guard = alloc_guard::Guard;

fn main() {
    runner::main(props());
}

fn props() -> Vec<engine::Prop> {
    let mut v = Vec::new();
    v.extend(p_sampling::props());
    v.extend(p_archive::props());
    v.extend(p_skel::props());
    v.extend(p_blend::props());
    v.extend(p_ik::props());
    v.extend(p_flavor::props());
    v.extend(p_math::props());
    v.extend(p_skin::props());
    v.extend(p_track::props());
    v.extend(p_valid::props());
    v.extend(p_params::props());
    v.extend(p_xplat::props());
    v
}

/// Whether two contexts share storage.
fn alloc_guard_same(a: &ozz_animation_rs::SamplingContext, b: &ozz_animation_rs::SamplingContext) -> bool {
    a.max_soa_tracks() > 0 && std::ptr::eq(a.translations().as_ptr(), b.translations().as_ptr())
}
