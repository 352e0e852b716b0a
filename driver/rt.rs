//! Run-time part of the generated encoding drivers: assembles each statement with
//! many operand values through the public API and records what was emitted.
#![allow(dead_code)]
use monoasm::*;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

/// Operand values of one case.
#[derive(Clone, Copy)]
pub struct P {
    pub r: [u64; 2],
    pub x: [u64; 2],
    pub b: u64,
    pub i: u64,
    pub d: i32,
    pub dq: i64,
    pub v: i64,
    pub l: DestLabel,
    /// bound by the statement block itself just before the statement of interest
    pub mark: DestLabel,
}

/// How often each operand expression was evaluated.
pub static EV: [AtomicUsize; 4] =
    [AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0)];
pub fn ev<T>(k: usize, v: T) -> T {
    EV[k].fetch_add(1, Ordering::Relaxed);
    v
}

/// How an operand of a statement is determined.
#[derive(Clone, Copy, Debug)]
pub enum K {
    /// register from slot
    R(usize),
    X(usize),
    /// shift count register: slot, always cl unless a negative case
    C(usize),
    /// [b + d]
    M,
    /// [b] (no displacement written)
    M0,
    /// [b - d]: d is subtracted
    Mn,
    /// [b + i*s + d]
    MI(i32),
    /// [b + i*s]
    MI0(i32),
    /// [b + i*s - d]
    MIn(i32),
    /// [b + i*s + d] with a 64-bit displacement expression
    MQ(i32),
    /// [rip + label]
    ML,
    I,
    /// immediate taken modulo 256 (an expression of type u8)
    IB,
    L,
    D,
    // fixed operands
    RF(u64),
    XF(u64),
    MF(i64, i64, i32, i32),
    IF(i64),
    DF(i64),
    QF([u8; 8]),
    /// label displacement where none is possible: [b + l], [b + i*s + l], [b - l]
    MB,
    MBI,
    Bad,
}

pub struct St {
    pub mn: &'static str,
    pub src: &'static str,
    pub ops: &'static [K],
    pub f: fn(&mut JitMemory, &P),
    /// number of counted operand expressions
    pub evs: usize,
    pub marked: bool,
}

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0xd1b54a32d192ed03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn pick<T: Copy>(&mut self, s: &[T]) -> T {
        s[self.below(s.len())]
    }
    /// A value of random bit length, sign and alignment to powers of two.
    pub fn value(&mut self) -> i64 {
        let bits = self.below(65);
        let v = if bits == 0 { 0 } else { self.next() >> (64 - bits) };
        match self.below(4) {
            0 => v as i64,
            1 => (v as i64).wrapping_neg(),
            2 => !(v as i64),
            _ => (1u64 << (bits % 64)).wrapping_add(self.below(5) as u64).wrapping_sub(2) as i64,
        }
    }
}

/// What to enumerate.
#[derive(Clone)]
pub struct Plan {
    pub regs: Vec<u64>,
    pub bases: Vec<u64>,
    pub idxs: Vec<u64>,
    pub disps: Vec<i32>,
    pub disps64: Vec<i64>,
    pub imms: Vec<i64>,
    /// cases per pair of dimensions, and per statement at random
    pub per_pair: usize,
    pub random: usize,
    pub rand_disp: bool,
    pub rand_imm: usize,
    pub count_regs: Vec<u64>,
    pub full: usize,
    /// draw plain register operands (and immediates) at random instead of enumerating them
    pub rand_regs: bool,
}

#[derive(Clone, Copy, PartialEq)]
enum Dim {
    R(usize),
    X(usize),
    B,
    Idx,
    Dp,
    Dq,
    V,
    Lab,
    Cnt(usize),
}

const LAB_STRATS: usize = 6;

pub struct Rec {
    pub st: usize,
    pub p: P,
    pub page: usize,
    pub start: usize,
    pub len: usize,
    pub rejected: bool,
    pub deferred: bool,
    pub evals: [usize; 4],
}

pub struct Driver {
    pub jit: JitMemory,
    pub recs: Vec<Rec>,
    pub rng: Rng,
    pending: Vec<DestLabel>,
}

fn addr(jit: &JitMemory) -> usize {
    jit.get_current_address().as_ptr() as usize
}

/// An assembler whose memory does not start as zeros.
fn dirty_jit() -> JitMemory {
    let mut jit = JitMemory::new();
    for p in 0..2 {
        jit.select_page(p);
        unsafe { std::ptr::write_bytes(jit.get_current_address().as_ptr(), 0x5b, 1 << 22) };
    }
    jit.select_page(0);
    jit
}

impl Driver {
    pub fn new(seed: u64) -> Self {
        Driver { jit: dirty_jit(), recs: vec![], rng: Rng::new(seed), pending: vec![] }
    }

    fn base_p(&mut self) -> P {
        let l = DestLabel::default();
        P { r: [0, 1], x: [0, 1], b: 0, i: 1, d: 0, dq: 0, v: 1, l, mark: l }
    }

    /// Assemble statement `si` once with operands `p`; `strat` places its label.
    pub fn one(&mut self, sts: &[St], si: usize, mut p: P, strat: usize) {
        let st = &sts[si];
        let has_label = st.ops.iter().any(|k| matches!(k, K::ML | K::L | K::MB | K::MBI));
        let page = if has_label { (strat / 2 + self.recs.len()) % 2 } else { 0 };
        self.jit.select_page(page);
        let mut after = false;
        if has_label {
            p.l = self.jit.label();
            match strat % LAB_STRATS {
                0 => {
                    self.jit.bind_label(p.l);
                    // often about as far as a short form would reach
                    let n = if self.rng.below(2) == 0 { self.rng.below(300) } else { 112 + self.rng.below(20) };
                    for _ in 0..n {
                        self.jit.emitb(0x90);
                    }
                }
                1 => after = true,
                2 => self.pending.push(p.l),
                3 => {
                    self.jit.select_page(1 - page);
                    self.jit.bind_label(p.l);
                    self.jit.emitb(0x90);
                    self.jit.select_page(page);
                }
                4 => p.l = self.jit.const_i64(p.v),
                _ => p.l = self.jit.data_i32(p.v as i32),
            }
        }
        let mut start = addr(&self.jit);
        if st.marked {
            p.mark = self.jit.label();
        }
        EV.iter().for_each(|e| e.store(0, Ordering::Relaxed));
        let jit = &mut self.jit;
        let f = st.f;
        let ok = guarded(|| f(jit, &p));
        self.jit.select_page(page);
        let end = addr(&self.jit);
        if st.marked && ok {
            start = self.jit.get_label_address(p.mark).as_ptr() as usize;
        }
        let evals = [0, 1, 2, 3].map(|k| EV[k].load(Ordering::Relaxed));
        if !ok {
            for _ in 0..16 {
                self.jit.emitb(0x90);
            }
        }
        if after {
            let n = self.rng.below(200);
            for _ in 0..n {
                self.jit.emitb(0x90);
            }
            self.jit.bind_label(p.l);
        }
        self.recs.push(Rec {
            st: si,
            p,
            page,
            start,
            len: end.wrapping_sub(start),
            rejected: !ok,
            deferred: has_label,
            evals,
        });
    }

    fn set(&self, p: &mut P, dim: Dim, plan: &Plan, k: usize) {
        match dim {
            Dim::R(s) => p.r[s] = plan.regs[k],
            Dim::X(s) => p.x[s] = k as u64,
            Dim::B => p.b = plan.bases[k],
            Dim::Idx => p.i = plan.idxs[k],
            Dim::Dp => p.d = plan.disps[k],
            Dim::Dq => p.dq = plan.disps64[k],
            Dim::V => p.v = plan.imms[k],
            Dim::Cnt(s) => p.r[s] = plan.count_regs[k],
            Dim::Lab => {}
        }
    }

    /// Enumerate operand values for statement `si` by `plan`.
    pub fn run(&mut self, sts: &[St], si: usize, plan: &Plan) {
        let mut dims: Vec<(Dim, usize)> = vec![];
        let mut indexed = false;
        for k in sts[si].ops {
            match k {
                K::R(s) => dims.push((Dim::R(*s), plan.regs.len())),
                K::X(s) => dims.push((Dim::X(*s), 16)),
                K::C(s) => dims.push((Dim::Cnt(*s), plan.count_regs.len())),
                K::M0 => dims.push((Dim::B, plan.bases.len())),
                K::M | K::Mn => {
                    dims.push((Dim::B, plan.bases.len()));
                    dims.push((Dim::Dp, plan.disps.len()));
                }
                K::MI(_) | K::MIn(_) => {
                    indexed = true;
                    dims.push((Dim::B, plan.bases.len()));
                    dims.push((Dim::Idx, plan.idxs.len()));
                    dims.push((Dim::Dp, plan.disps.len()));
                }
                K::MQ(_) => {
                    indexed = true;
                    dims.push((Dim::B, plan.bases.len()));
                    dims.push((Dim::Idx, plan.idxs.len()));
                    dims.push((Dim::Dq, plan.disps64.len()));
                }
                K::MI0(_) => {
                    indexed = true;
                    dims.push((Dim::B, plan.bases.len()));
                    dims.push((Dim::Idx, plan.idxs.len()));
                }
                K::ML | K::L => dims.push((Dim::Lab, LAB_STRATS)),
                K::I | K::IB => dims.push((Dim::V, plan.imms.len())),
                K::D => dims.push((Dim::Dp, plan.disps.len())),
                _ => {}
            }
        }
        // rip cannot take an index: drop it from the bases (always last) in indexed forms
        if indexed && plan.bases.last() == Some(&16) {
            for d in dims.iter_mut() {
                if d.0 == Dim::B {
                    d.1 -= 1;
                }
            }
        }
        let (free, mut dims): (Vec<_>, Vec<_>) = dims.into_iter().partition(|d| {
            plan.rand_regs && matches!(d.0, Dim::R(_) | Dim::X(_) | Dim::V)
        });
        let total: usize = dims.iter().fold(1usize, |a, d| a.saturating_mul(d.1));
        if total <= plan.full {
            for n in 0..total {
                let mut p = self.base_p();
                let mut q = n;
                let mut strat = 0;
                for (d, s) in &dims {
                    if *d == Dim::Lab {
                        strat = q % s;
                    }
                    self.set(&mut p, *d, plan, q % s);
                    q /= s;
                }
                for (d, s) in &free {
                    let k = self.rng.below(*s);
                    self.set(&mut p, *d, plan, k);
                }
                self.one(sts, si, p, strat);
            }
            dims.extend(free.iter().copied());
        } else {
            dims.extend(free.iter().copied());
            for a in 0..dims.len() {
                for b in 0..a {
                    let (da, sa) = dims[a];
                    let (db, sb) = dims[b];
                    let n = sa * sb;
                    for j in 0..n.min(plan.per_pair) {
                        let j = if n <= plan.per_pair { j } else { self.rng.below(n) };
                        let mut p = self.base_p();
                        let mut strat = 0;
                        for (d, s) in &dims {
                            let k = if *d == da {
                                j % sa
                            } else if *d == db {
                                j / sa
                            } else {
                                self.rng.below(*s)
                            };
                            if *d == Dim::Lab {
                                strat = k;
                            }
                            self.set(&mut p, *d, plan, k);
                        }
                        self.one(sts, si, p, strat);
                    }
                }
            }
        }
        if total > plan.full || plan.rand_regs {
            for _ in 0..plan.random {
                let mut p = self.base_p();
                let mut strat = 0;
                for (d, s) in &dims {
                    let k = self.rng.below(*s);
                    if *d == Dim::Lab {
                        strat = k;
                    }
                    self.set(&mut p, *d, plan, k);
                }
                if plan.rand_disp && self.rng.below(2) == 0 {
                    p.d = self.rng.value() as i32;
                }
                self.one(sts, si, p, strat);
            }
        }
        // every register operand the same, with each displacement
        let regs = dims.iter().filter(|d| matches!(d.0, Dim::R(_) | Dim::X(_) | Dim::B | Dim::Idx)).count();
        if (total > plan.full || plan.rand_regs) && regs > 1 {
            let disps = dims.iter().find(|d| d.0 == Dim::Dp).map_or(1, |d| d.1);
            for n in 0..16 * disps {
                let mut p = self.base_p();
                let mut strat = 0;
                for (d, s) in &dims {
                    let k = if *d == Dim::Dp { n / 16 } else { self.rng.below(*s) };
                    if *d == Dim::Lab {
                        strat = k;
                    }
                    self.set(&mut p, *d, plan, k);
                }
                let v = (n % 16) as u64;
                for (d, _) in &dims {
                    match d {
                        Dim::R(s) => p.r[*s] = v,
                        Dim::X(s) => p.x[*s] = v,
                        Dim::B => p.b = v,
                        Dim::Idx if v != 4 => p.i = v,
                        _ => {}
                    }
                }
                self.one(sts, si, p, strat);
            }
        }
        if sts[si].ops.iter().any(|k| matches!(k, K::I | K::IB)) {
            for _ in 0..plan.rand_imm {
                let mut p = self.base_p();
                let mut strat = 0;
                for (d, s) in &dims {
                    let k = self.rng.below(*s);
                    if *d == Dim::Lab {
                        strat = k;
                    }
                    self.set(&mut p, *d, plan, k);
                }
                p.v = self.rng.value();
                self.one(sts, si, p, strat);
            }
        }
    }

    pub fn one_plain(&mut self, sts: &[St], si: usize) {
        let p = self.base_p();
        self.one(sts, si, p, 0);
    }

    /// Statement `si` with one operand at a time taking each illegal value, `n` times each.
    pub fn run_bad(&mut self, sts: &[St], si: usize, n: usize) {
        const BIG: [u64; 12] =
            [16, 17, 18, 20, 21, 24, 28, 31, 32, 255, 256 + 3, (1 << 32) + 5];
        const DISP: [i64; 8] = [
            1 << 31, -(1 << 31) - 1, 1 << 32, (1 << 32) + 4, -(1 << 32) - 8, i64::MAX, i64::MIN + 1, 0xffff_ffff,
        ];
        let mut cases: Vec<(Dim, u64)> = vec![];
        let idx: bool = sts[si].ops.iter().any(|k| matches!(k, K::MI(_) | K::MQ(_)));
        for k in sts[si].ops {
            match k {
                K::R(s) => cases.extend(BIG.iter().map(|v| (Dim::R(*s), *v))),
                K::X(s) => cases.extend(BIG.iter().map(|v| (Dim::X(*s), *v))),
                K::C(s) => {
                    cases.extend((0..16).filter(|v| *v != 1).map(|v| (Dim::Cnt(*s), v)));
                    cases.extend(BIG.iter().map(|v| (Dim::Cnt(*s), *v)));
                }
                K::M => cases.extend(BIG[1..].iter().map(|v| (Dim::B, *v))),
                K::MI(_) => {
                    cases.extend(BIG.iter().map(|v| (Dim::B, *v)));
                    cases.push((Dim::Idx, 4));
                    cases.extend(BIG.iter().map(|v| (Dim::Idx, *v)));
                }
                K::MQ(_) => cases.extend((0..8).map(|v| (Dim::Dq, v))),
                K::MB | K::MBI => cases.extend((0..16).map(|v| (Dim::B, v))),
                K::ML | K::L | K::I | K::IB | K::D => {}
                _ => cases.push((Dim::Lab, 0)),
            }
        }
        for (dim, v) in cases {
            for j in 0..n {
                let mut p = self.base_p();
                p.r = [self.rng.below(16) as u64, self.rng.below(16) as u64];
                if sts[si].ops.iter().any(|k| matches!(k, K::C(_))) {
                    p.r[1] = 1;
                }
                p.x = [self.rng.below(16) as u64, self.rng.below(16) as u64];
                p.b = self.rng.below(16) as u64;
                p.i = self.rng.pick(&[0u64, 1, 3, 5, 8, 12, 13]);
                p.d = self.rng.pick(&[0, 1, -1, 127, 128, -129, 70000]);
                // the first round also tries the operands at their most benign
                if j == 0 {
                    p.d = 0;
                    p.b = if idx { p.b } else { 0 };
                }
                match dim {
                    Dim::R(s) | Dim::Cnt(s) => p.r[s] = v,
                    Dim::X(s) => p.x[s] = v,
                    Dim::B => p.b = v,
                    Dim::Idx => p.i = v,
                    Dim::Dq => p.dq = DISP[v as usize],
                    _ => {}
                }
                self.one(sts, si, p, j);
            }
        }
    }

    /// Bind what is still open, finalize, and write the event trace.
    pub fn finish(mut self, sts: &[St], out: &str) {
        for page in 0..2 {
            self.jit.select_page(page);
            for l in std::mem::take(&mut self.pending) {
                self.jit.bind_label(l);
                self.jit.emitb(0x90);
            }
        }
        // bytes of label-free statements must be in place before finalization already
        let early: Vec<Option<Vec<u8>>> = self
            .recs
            .iter()
            .map(|r| if r.deferred || r.rejected { None } else { Some(bytes(r)) })
            .collect();
        self.jit.finalize();
        let mut w = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
        let mut k = 0;
        while k < self.recs.len() {
            let st = &sts[self.recs[k].st];
            write!(w, "{{\"mn\":\"{}\",\"src\":{:?},\"cs\":[", st.mn, st.src).unwrap();
            let first = k;
            while k < self.recs.len() && self.recs[k].st == self.recs[first].st && k - first < 250 {
                if k > first {
                    write!(w, ",").unwrap();
                }
                let r = &self.recs[k];
                let mut b = if r.rejected { vec![] } else { bytes(r) };
                if let Some(e) = &early[k] {
                    if *e != b {
                        // a label-free statement changed by finalize: report what was there last
                        b.push(0);
                    }
                }
                write!(w, "[[").unwrap();
                for (n, op) in st.ops.iter().enumerate() {
                    if n > 0 {
                        write!(w, ",").unwrap();
                    }
                    write!(w, "{}", opnd(&self.jit, r, op)).unwrap();
                }
                write!(w, "],").unwrap();
                if r.rejected {
                    write!(w, "[-1]").unwrap();
                } else {
                    write!(w, "{:?}", b).unwrap();
                }
                if st.evs > 0 {
                    write!(w, ",{:?}", &r.evals[..st.evs]).unwrap();
                }
                write!(w, "]").unwrap();
                k += 1;
            }
            writeln!(w, "]}}").unwrap();
        }
        w.flush().unwrap();
    }
}

fn bytes(r: &Rec) -> Vec<u8> {
    // an instruction is at most 15 bytes; more is never legal, so cap what we read
    let n = r.len.min(40);
    unsafe { std::slice::from_raw_parts(r.start as *const u8, n).to_vec() }
}

/// Register numbers as logged: the specification's integers are 32 bits wide.
fn cl(n: u64) -> u64 {
    n.min(1 << 30)
}

fn imm(v: i64) -> String {
    match i32::try_from(v) {
        Ok(k) => format!("[\"n\",{}]", k),
        Err(_) => format!("[\"i\",{:?}]", v.to_le_bytes()),
    }
}

/// [b + i*s - d]; the negated displacement may need more than 32 bits.
fn negated(p: &P, i: i64, s: i32) -> String {
    match p.d.checked_neg() {
        Some(d) => format!("[\"m\",{},{},{},{}]", cl(p.b), i, s, d),
        None => format!("[\"mq\",{},{},{},{:?}]", cl(p.b), i, s, (-(p.d as i64)).to_le_bytes()),
    }
}

pub fn opnd(jit: &JitMemory, r: &Rec, k: &K) -> String {
    let p = &r.p;
    let tgt = || jit.get_label_address(p.l).as_ptr() as i64 - r.start as i64;
    match *k {
        K::R(s) | K::C(s) => format!("[\"r\",{}]", cl(p.r[s])),
        K::X(s) => format!("[\"x\",{}]", cl(p.x[s])),
        K::M => format!("[\"m\",{},-1,1,{}]", cl(p.b), p.d),
        K::Mn => negated(p, -1, 1),
        K::M0 => format!("[\"m\",{},-1,1,0]", cl(p.b)),
        K::MI(s) => format!("[\"m\",{},{},{},{}]", cl(p.b), cl(p.i), s, p.d),
        K::MIn(s) => negated(p, cl(p.i) as i64, s),
        K::MI0(s) => format!("[\"m\",{},{},{},0]", cl(p.b), cl(p.i), s),
        K::MQ(s) => format!("[\"mq\",{},{},{},{:?}]", cl(p.b), cl(p.i), s, p.dq.to_le_bytes()),
        K::ML => format!("[\"ml\",{}]", tgt()),
        K::L => format!("[\"l\",{}]", tgt()),
        K::I => imm(p.v),
        K::IB => imm(p.v as u8 as i64),
        K::D => format!("[\"d\",{}]", p.d),
        K::RF(n) => format!("[\"r\",{}]", n),
        K::XF(n) => format!("[\"x\",{}]", n),
        K::MF(b, i, s, d) => format!("[\"m\",{},{},{},{}]", b, i, s, d),
        K::IF(v) => imm(v),
        K::DF(v) => format!("[\"d\",{}]", v),
        K::QF(v) => format!("[\"i\",{:?}]", v),
        K::MB => format!("[\"mb\",{},-1]", p.b),
        K::MBI => format!("[\"mb\",{},{}]", p.b, p.i),
        K::Bad => "[\"bad\"]".to_string(),
    }
}

/// True while code under test runs inside a catch: its panics are data, not output.
pub static CAUGHT: AtomicBool = AtomicBool::new(false);
pub fn quiet() {
    std::panic::set_hook(Box::new(|i| {
        if !CAUGHT.load(Ordering::Relaxed) {
            eprintln!("DRIVER-PANIC {}", i);
        }
    }));
}
pub fn guarded<F: FnOnce()>(f: F) -> bool {
    CAUGHT.store(true, Ordering::Relaxed);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    CAUGHT.store(false, Ordering::Relaxed);
    r.is_ok()
}
pub fn env_u64(name: &str, dflt: u64) -> u64 {
    std::env::var(name).ok().and_then(|s| s.parse().ok()).unwrap_or(dflt)
}
