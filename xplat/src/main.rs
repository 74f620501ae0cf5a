//! Answers tapes on stdin with result hashes on stdout.
//! request: u32 facet, u32 flags (1: send the words), u32 n, n * u64 tape
//! reply: u32 status (0 ran, 1 panicked), u64 hash, u64 input hash, u32 count, words
use std::io::{Read, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut i = std::io::stdin().lock();
    let mut o = std::io::stdout().lock();
    let mut h = [0u8; 12];
    while i.read_exact(&mut h).is_ok() {
        let u = |k: usize| u32::from_le_bytes(h[k..k + 4].try_into().unwrap());
        let (facet, flags, n) = (u(0), u(4), u(8));
        let mut b = vec![0u8; n as usize * 8];
        if i.read_exact(&mut b).is_err() { return; }
        let tape: Vec<u64> = b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        let r = std::panic::catch_unwind(|| ozzx::run_tape(facet, &tape));
        let mut out = Vec::new();
        match r {
            Ok(r) => {
                out.extend(0u32.to_le_bytes());
                out.extend(r.hash.to_le_bytes());
                out.extend(r.input.to_le_bytes());
                let w = if flags & 1 != 0 { &r.words[..] } else { &[] };
                out.extend((w.len() as u32).to_le_bytes());
                for x in w { out.extend(x.to_le_bytes()); }
            }
            Err(_) => {
                out.extend(1u32.to_le_bytes());
                out.extend([0u8; 20]);
            }
        }
        if o.write_all(&out).and_then(|_| o.flush()).is_err() { return; }
    }
}
