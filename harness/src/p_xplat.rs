//! C19: the same workload in differently built programs.
//!
//! OZZX_VARIANTS lists the programs ("name=path" or "name=wasm:path",
//! separated by ';'); each worker keeps one server process per variant.

use crate::engine::*;
use crate::ensure;
use crate::xwork;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Server {
    name: String,
    path: String,
    child: Option<(Child, ChildStdin, ChildStdout)>,
}

thread_local! {
    static SERVERS: RefCell<Option<Vec<Server>>> = RefCell::new(None);
}

fn root() -> String {
    std::env::var("OZZCHECK_ROOT").unwrap_or_else(|_| "/verif".into())
}
fn servers() -> Vec<Server> {
    let v = std::env::var("OZZX_VARIANTS").unwrap_or_default();
    let v: Vec<Server> = v
        .split(';')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let (n, p) = x.split_once('=').expect("OZZX_VARIANTS");
            Server { name: n.into(), path: p.into(), child: None }
        })
        .collect();
    if v.is_empty() {
        eprintln!("OZZX_VARIANTS is not set (run through run.sh)");
        std::process::exit(4);
    }
    v
}

#[derive(PartialEq)]
struct Reply {
    panicked: bool,
    hash: u64,
    input: u64,
    words: Vec<u32>,
}

impl Server {
    fn start(&mut self) {
        let mut c = match self.path.strip_prefix("wasm:") {
            Some(p) => {
                let mut c = Command::new("node");
                c.arg(format!("{}/xplat/serve.js", root())).arg(p);
                c
            }
            None => Command::new(&self.path),
        };
        let mut k = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| {
            eprintln!("cannot start {}: {e}", self.path);
            std::process::exit(4)
        });
        let (i, o) = (k.stdin.take().unwrap(), k.stdout.take().unwrap());
        self.child = Some((k, i, o));
    }
    fn send(&mut self, facet: u32, tape: &[u64], words: bool) {
        if self.child.is_none() { self.start(); }
        let mut b = Vec::with_capacity(12 + tape.len() * 8);
        b.extend(facet.to_le_bytes());
        b.extend((words as u32).to_le_bytes());
        b.extend((tape.len() as u32).to_le_bytes());
        for t in tape { b.extend(t.to_le_bytes()); }
        let _ = self.child.as_mut().unwrap().1.write_all(&b);
    }
    /// None: the program died.
    fn recv(&mut self) -> Option<Reply> {
        let (_, _, o) = self.child.as_mut()?;
        let mut h = [0u8; 24];
        if o.read_exact(&mut h).is_err() { return self.died(); }
        let n = u32::from_le_bytes(h[20..24].try_into().unwrap()) as usize;
        let mut b = vec![0u8; n * 4];
        if o.read_exact(&mut b).is_err() { return self.died(); }
        Some(Reply {
            panicked: h[0] != 0,
            hash: u64::from_le_bytes(h[4..12].try_into().unwrap()),
            input: u64::from_le_bytes(h[12..20].try_into().unwrap()),
            words: b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect(),
        })
    }
    fn died(&mut self) -> Option<Reply> {
        if let Some((mut k, i, _)) = self.child.take() {
            drop(i);
            let _ = k.wait();
        }
        None
    }
}

fn case(facet: u32, s: &mut Src, c: &mut Case) -> Res {
    let mut o = xwork::Out::default();
    xwork::run(facet as usize, s, &mut o);
    c.nontrivial = o.nontrivial;
    c.label(if o.wild { "extreme values" } else { "ordinary values" });
    c.describe(|| format!("{} draws, {} result words, hash {:016x}", s.rec.len(), o.words.len(), o.hash()));
    let tape = s.rec.clone();
    SERVERS.with(|v| {
        let mut v = v.borrow_mut();
        let v = v.get_or_insert_with(servers);
        // hash tables are laid out by pointer size: compare like with like
        let native = facet == 11;
        let mut v: Vec<&mut Server> = v.iter_mut().filter(|x| !native || !x.path.starts_with("wasm:")).collect();
        for x in v.iter_mut() { x.send(facet, &tape, false); }
        // read every answer, so that the servers stay in step
        let rs: Vec<Option<Reply>> = v.iter_mut().map(|x| x.recv()).collect();
        for (x, r) in v.iter_mut().zip(rs) {
            let Some(r) = r else { return Err(format!("{}: the program died", x.name)) };
            ensure!(!r.panicked, "{}: panics, the others do not", x.name);
            if r.input != o.input {
                eprintln!("the variant {} generates other inputs: the harness is wrong", x.name);
                std::process::exit(4);
            }
            if r.hash != o.hash() {
                x.send(facet, &tape, true);
                let w = x.recv().map(|r| r.words).unwrap_or_default();
                let i = (0..w.len().max(o.words.len())).find(|i| w.get(*i) != o.words.get(*i)).unwrap_or(0);
                let l = o.labels.iter().rev().find(|l| l.0 <= i).copied().unwrap_or((0, "result"));
                let sh = |w: Option<&u32>| w.map(|w| format!("{w:#010x} ({:e})", f32::from_bits(*w))).unwrap_or("nothing".into());
                return Err(format!("{}: {} [word {}] is {}, in the harness build {}", x.name, l.1, i - l.0, sh(w.get(i)), sh(o.words.get(i))));
            }
        }
        Ok(())
    })
}

macro_rules! facets {
    ($($i:literal $f:ident)*) => { $(fn $f(s: &mut Src, c: &mut Case) -> Res { case($i, s, c) })* };
}
facets!(0 f0 1 f1 2 f2 3 f3 4 f4 5 f5 6 f6 7 f7 8 f8 9 f9 10 f10 11 f11);

pub fn props() -> Vec<Prop> {
    const Q: u64 = 60_000;
    const T: u64 = 4_000_000;
    vec![Prop {
        id: "C19",
        rule: "the job has something to compute (keys, layers, more than one joint, edges, a weight)",
        assumptions: &[
            "the harness build (opt-level 2, overflow checks, x86-64) is compared with every variant named in coverage.extra",
            "NaNs compare equal whatever their payload and sign",
            "WebAssembly is executed by the installed node; other hardware (ARM) is not available here",
        ],
        facets: &[
            Facet { name: xwork::NAMES[0], run: f0, quick: Q, thorough: T },
            Facet { name: xwork::NAMES[1], run: f1, quick: Q, thorough: T },
            Facet { name: xwork::NAMES[2], run: f2, quick: Q, thorough: T },
            Facet { name: xwork::NAMES[3], run: f3, quick: Q, thorough: T },
            Facet { name: xwork::NAMES[4], run: f4, quick: Q, thorough: T },
            Facet { name: xwork::NAMES[5], run: f5, quick: Q, thorough: T },
            Facet { name: xwork::NAMES[6], run: f6, quick: Q, thorough: T },
            Facet { name: xwork::NAMES[7], run: f7, quick: Q, thorough: T },
            Facet { name: xwork::NAMES[8], run: f8, quick: Q, thorough: T },
            Facet { name: xwork::NAMES[9], run: f9, quick: Q, thorough: T },
            Facet { name: xwork::NAMES[10], run: f10, quick: Q, thorough: T },
            Facet { name: xwork::NAMES[11], run: f11, quick: Q / 4, thorough: T / 4 },
        ],
    }]
}
