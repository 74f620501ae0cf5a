//! Writers for the documented ozz archive layouts, in either byte order.

use crate::gen::{AnimData, Comp, SkelSpec, TrackSpec};

pub struct W {
    pub buf: Vec<u8>,
    pub big: bool,
}

impl W {
    pub fn new(big: bool) -> W {
        W { buf: vec![if big { 0 } else { 1 }], big }
    }
    pub fn u8(&mut self, v: u8) {
        self.buf.push(v);
    }
    pub fn u16(&mut self, v: u16) {
        self.buf.extend_from_slice(&if self.big { v.to_be_bytes() } else { v.to_le_bytes() });
    }
    pub fn i16(&mut self, v: i16) {
        self.u16(v as u16);
    }
    pub fn u32(&mut self, v: u32) {
        self.buf.extend_from_slice(&if self.big { v.to_be_bytes() } else { v.to_le_bytes() });
    }
    pub fn f32(&mut self, v: f32) {
        self.u32(v.to_bits());
    }
    pub fn cstr(&mut self, s: &str) {
        self.buf.extend_from_slice(s.as_bytes());
        self.buf.push(0);
    }

    pub fn skeleton(&mut self, s: &SkelSpec) {
        self.cstr("ozz-skeleton");
        self.u32(2);
        let n = s.parents.len();
        self.u32(n as u32);
        if n == 0 {
            return;
        }
        self.u32(s.names.iter().map(|x| x.len() as u32 + 1).sum());
        for x in &s.names {
            self.cstr(x);
        }
        for p in &s.parents {
            self.i16(*p);
        }
        for g in 0..n.div_ceil(4) {
            for c in 0..10 {
                for l in 0..4 {
                    self.f32(s.rest[g * 4 + l][c]);
                }
            }
        }
    }

    pub fn animation(&mut self, a: &AnimData) {
        self.cstr("ozz-animation");
        self.u32(7);
        self.f32(a.duration);
        self.u32(a.num_tracks as u32);
        self.u32(a.name.len() as u32);
        self.u32(a.timepoints.len() as u32);
        self.u32(a.t.keys.len() as u32);
        self.u32(a.r.keys.len() as u32);
        self.u32(a.s.keys.len() as u32);
        for c in [&a.t, &a.r, &a.s] {
            self.u32(c.iframe_entries.len() as u32);
            self.u32(c.iframe_desc.len() as u32);
        }
        self.buf.extend_from_slice(a.name.as_bytes());
        for t in &a.timepoints {
            self.f32(*t);
        }
        let small = a.timepoints.len() <= 255;
        for c in [&a.t, &a.r, &a.s] {
            self.comp(c, small);
        }
    }

    fn comp(&mut self, c: &Comp, small: bool) {
        for r in &c.ratios {
            if small {
                self.u8(*r as u8);
            } else {
                self.u16(*r);
            }
        }
        for p in &c.previouses {
            self.u16(*p);
        }
        self.buf.extend_from_slice(&c.iframe_entries);
        for d in &c.iframe_desc {
            self.u32(*d);
        }
        self.f32(c.iframe_interval);
        for k in &c.keys {
            for v in k {
                self.u16(*v);
            }
        }
    }

    pub fn track(&mut self, t: &TrackSpec) {
        self.cstr(match t.dim {
            1 => "ozz-float_track",
            2 => "ozz-float2_track",
            3 => "ozz-float3_track",
            4 => "ozz-float4_track",
            _ => "ozz-quat_track",
        });
        self.u32(1);
        self.u32(t.ratios.len() as u32);
        self.u32(t.name.len() as u32);
        for r in &t.ratios {
            self.f32(*r);
        }
        for v in &t.values {
            for c in 0..t.width() {
                self.f32(v[c]);
            }
        }
        let mut steps = vec![0u8; t.ratios.len().div_ceil(8)];
        for (i, s) in t.steps.iter().enumerate() {
            if *s {
                steps[i / 8] |= 1 << (i % 8);
            }
        }
        self.buf.extend_from_slice(&steps);
        self.buf.extend_from_slice(t.name.as_bytes());
    }
}

pub fn skeleton_bytes(s: &SkelSpec, big: bool) -> Vec<u8> {
    let mut w = W::new(big);
    w.skeleton(s);
    w.buf
}
pub fn animation_bytes(a: &AnimData, big: bool) -> Vec<u8> {
    let mut w = W::new(big);
    w.animation(a);
    w.buf
}
pub fn track_bytes(t: &TrackSpec, big: bool) -> Vec<u8> {
    let mut w = W::new(big);
    w.track(t);
    w.buf
}
