//! The C19 workload as a library (also a WebAssembly module).
#![feature(portable_simd)]
#![allow(clippy::all, dead_code)]

#[path = "../../harness/src/archw.rs"]
mod archw;
#[path = "../../harness/src/engine.rs"]
mod engine;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/refm.rs"]
mod refm;
#[path = "../../harness/src/xwork.rs"]
mod xwork;

pub struct Reply {
    pub hash: u64,
    pub input: u64,
    pub words: Vec<u32>,
}
pub fn run_tape(facet: u32, tape: &[u64]) -> Reply {
    let mut o = xwork::Out::default();
    xwork::run(facet as usize, &mut engine::Src::replay(tape, 0), &mut o);
    Reply { hash: o.hash(), input: o.input, words: o.words }
}

static mut TAPE: Vec<u64> = Vec::new();
static mut LAST: Reply = Reply { hash: 0, input: 0, words: Vec::new() };

#[no_mangle]
pub extern "C" fn x_tape(n: u32) -> *mut u64 {
    unsafe {
        let t = &mut *(&raw mut TAPE);
        t.clear();
        t.resize(n as usize, 0);
        t.as_mut_ptr()
    }
}
#[no_mangle]
pub extern "C" fn x_run(facet: u32) {
    unsafe { *(&raw mut LAST) = run_tape(facet, &*(&raw const TAPE)) }
}
#[no_mangle]
pub extern "C" fn x_hash() -> u64 { unsafe { (*(&raw const LAST)).hash } }
#[no_mangle]
pub extern "C" fn x_input() -> u64 { unsafe { (*(&raw const LAST)).input } }
#[no_mangle]
pub extern "C" fn x_words() -> *const u32 { unsafe { (*(&raw const LAST)).words.as_ptr() } }
#[no_mangle]
pub extern "C" fn x_count() -> u32 { unsafe { (*(&raw const LAST)).words.len() as u32 } }
