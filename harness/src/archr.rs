//! Independent parsers of little-endian archives (for the resource files).

use crate::gen::{AnimData, Comp};
use std::path::PathBuf;

pub fn resource_files() -> Vec<PathBuf> {
    let mut out = Vec::new();
    let root = std::env::var("OZZCHECK_REPO").unwrap_or_else(|_| "/repo".into());
    if let Ok(d) = std::fs::read_dir(format!("{root}/resource")) {
        for e in d.flatten() {
            if let Ok(d) = std::fs::read_dir(e.path()) {
                for f in d.flatten() {
                    if f.path().extension().map(|x| x == "ozz").unwrap_or(false) {
                        out.push(f.path());
                    }
                }
            }
        }
    }
    out.sort();
    out
}

struct P<'t>(&'t [u8]);
impl P<'_> {
    fn take(&mut self, n: usize) -> Option<Vec<u8>> {
        if self.0.len() < n {
            return None;
        }
        let v = self.0[..n].to_vec();
        self.0 = &self.0[n..];
        Some(v)
    }
    fn u16(&mut self) -> Option<u16> {
        self.take(2).map(|b| u16::from_le_bytes([b[0], b[1]]))
    }
    fn u32(&mut self) -> Option<u32> {
        self.take(4).map(|b| u32::from_le_bytes([b[0], b[1], b[2], b[3]]))
    }
    fn f32(&mut self) -> Option<f32> {
        self.u32().map(f32::from_bits)
    }
}

pub fn parse_animation(b: &[u8]) -> Option<AnimData> {
    let head = b"\x01ozz-animation\0";
    if !b.starts_with(head) {
        return None;
    }
    let mut p = P(&b[head.len()..]);
    if p.u32()? != 7 {
        return None;
    }
    let mut d = AnimData { duration: p.f32()?, num_tracks: p.u32()? as usize, ..AnimData::default() };
    let name_len = p.u32()? as usize;
    let ntp = p.u32()? as usize;
    let nk = [p.u32()? as usize, p.u32()? as usize, p.u32()? as usize];
    let mut ifr = [[0usize; 2]; 3];
    for i in ifr.iter_mut() {
        *i = [p.u32()? as usize, p.u32()? as usize];
    }
    d.name = String::from_utf8(p.take(name_len)?).ok()?;
    for _ in 0..ntp {
        d.timepoints.push(p.f32()?);
    }
    let mut comps = Vec::new();
    for k in 0..3 {
        let mut c = Comp::default();
        for _ in 0..nk[k] {
            c.ratios.push(if ntp <= 255 { p.take(1)?[0] as u16 } else { p.u16()? });
        }
        for _ in 0..nk[k] {
            c.previouses.push(p.u16()?);
        }
        c.iframe_entries = p.take(ifr[k][0])?;
        for _ in 0..ifr[k][1] {
            c.iframe_desc.push(p.u32()?);
        }
        c.iframe_interval = p.f32()?;
        for _ in 0..nk[k] {
            c.keys.push([p.u16()?, p.u16()?, p.u16()?]);
        }
        comps.push(c);
    }
    d.s = comps.pop()?;
    d.r = comps.pop()?;
    d.t = comps.pop()?;
    if p.0.is_empty() {
        Some(d)
    } else {
        None
    }
}
