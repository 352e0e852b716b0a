//! Assembles whole blocks of statements, in two assemblers and with two groupings of the
//! statements into macro calls, and records the code of each block.
use crate::rt::*;
use monoasm::*;
use std::fmt::Write as _;
use std::io::Write as _;

pub enum It {
    /// mnemonic, operands, label used, immediate class
    S(&'static str, &'static [K], usize, u8),
    /// the block binds its label with this number here
    B(usize),
}

pub struct Blk {
    pub its: &'static [It],
    pub labels: usize,
    /// all statements in one macro call / one macro call per statement / groups
    pub fs: [fn(&mut JitMemory, &[P], &[DestLabel]); 3],
}

pub struct Case {
    blk: usize,
    ps: Vec<P>,
    ls: Vec<DestLabel>,
    start: usize,
    end: usize,
    ok: bool,
}

fn here(jit: &JitMemory) -> usize {
    jit.get_current_address().as_ptr() as usize
}

fn imm(rng: &mut Rng, class: u8) -> i64 {
    let v = rng.value();
    match class {
        0 => v & 31,
        8 => v as i8 as i64,
        16 => v as i16 as i64,
        32 => v as i32 as i64,
        1 => v as u8 as i64,
        _ => v,
    }
}

/// An assembler whose memory does not start as zeros.
fn dirty_jit() -> JitMemory {
    let mut jit = JitMemory::new();
    for p in 0..2 {
        jit.select_page(p);
        unsafe { std::ptr::write_bytes(jit.get_current_address().as_ptr(), 0x5b, 1 << 22) };
    }
    jit.select_page(0);
    jit
}

/// Runs every block `reps` times; `twist` selects the grouping.
pub fn pass(blks: &[Blk], seed: u64, reps: usize, twist: usize, refuse: &dyn Fn(&mut JitMemory, usize)) -> (JitMemory, Vec<Case>) {
    let mut jit = dirty_jit();
    let mut rng = Rng::new(seed);
    let mut cases = vec![];
    let mut late: Vec<DestLabel> = vec![];
    for rep in 0..reps {
        for (bi, b) in blks.iter().enumerate() {
            // where: page, position, round
            let page = rng.below(2);
            jit.select_page(page);
            for _ in 0..rng.below(20) {
                jit.emitb(0xcc);
            }
            match rng.below(12) {
                0 => jit.align_page(),
                1 => jit.align16(),
                // up to a few bytes before a boundary
                2 => {
                    let (n, back) = (rng.pick(&[64, 256, 4096, 4096, 65536, 1 << 20]), rng.below(17));
                    while jit.get_current() % n + 4096 < n {
                        jit.emitb(0xcc);
                        jit.align_page();
                    }
                    while jit.get_current() % n != n - 1 - back {
                        jit.emitb(0xcc);
                    }
                }
                _ => {}
            }
            if rng.below(10) == 0 {
                jit.finalize();
            }
            if rng.below(6) == 0 {
                let k = rng.below(1000);
                let j = &mut jit;
                guarded(|| refuse(j, k));
                jit.select_page(page);
            }
            if rng.below(8) == 0 {
                jit.const_i32(rng.next() as i32);
            }
            let inside: Vec<usize> = b.its.iter().filter_map(|i| if let It::B(l) = i { Some(*l) } else { None }).collect();
            let mut ls = vec![];
            let mut now = vec![];
            for l in 0..b.labels {
                let mut d = jit.label();
                if !inside.contains(&l) {
                    match rng.below(5) {
                        0 => jit.bind_label(d),
                        1 => jit.bind_label_with_page(Page(1 - page), d),
                        2 => d = jit.const_i64(rng.value()),
                        3 => late.push(d),
                        _ => now.push(d),
                    }
                }
                ls.push(d);
            }
            let z = DestLabel::default();
            // in some blocks all statements have the same operands
            let same = rng.below(3) == 0;
            let sh = (rng.below(16) as u64, rng.below(16) as u64, rng.pick(&[0, 8, -8, 127, 128]), rng.below(32) as i64);
            let mut ps: Vec<P> = vec![];
            for it in b.its {
                if let It::S(_, ops, l, class) = it {
                    let cl = ops.iter().any(|k| matches!(k, K::C(_)));
                    let idx = ops.iter().any(|k| matches!(k, K::MI(_)));
                    ps.push(P {
                        r: [rng.below(16) as u64, if cl { 1 } else { rng.below(16) as u64 }],
                        x: [rng.below(16) as u64, rng.below(16) as u64],
                        b: rng.below(if idx { 16 } else { 17 }) as u64,
                        i: rng.pick(&[0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]),
                        d: if rng.below(3) == 0 { 0 } else { rng.value() as i32 },
                        dq: 0,
                        v: imm(&mut rng, *class),
                        l: if b.labels > 0 { ls[*l] } else { z },
                        mark: z,
                    });
                    if same {
                        let p = ps.last_mut().unwrap();
                        p.r = [sh.0, if cl { 1 } else { sh.1 }];
                        p.x = p.r;
                        p.b = sh.0;
                        p.i = if sh.1 == 4 { 5 } else { sh.1 };
                        p.d = sh.2;
                        p.v = sh.3;
                    }
                }
            }
            let f = b.fs[(rep + bi + twist) % 3];
            let start = here(&jit);
            let j = &mut jit;
            let ok = guarded(|| f(j, &ps, &ls));
            let end = here(&jit);
            for d in now {
                jit.emitb(0xcc);
                jit.bind_label(d);
            }
            cases.push(Case { blk: bi, ps, ls, start, end, ok });
        }
    }
    for d in late {
        jit.bind_label(d);
        jit.emitb(0xcc);
    }
    jit.finalize();
    (jit, cases)
}

fn code(c: &Case) -> &[u8] {
    let n = c.end.wrapping_sub(c.start);
    if !c.ok || n > 100_000 {
        return &[];
    }
    unsafe { std::slice::from_raw_parts(c.start as *const u8, n) }
}

pub fn run(blks: &[Blk], out: &str, reps: usize, refuse: &dyn Fn(&mut JitMemory, usize)) {
    quiet();
    let seed = env_u64("VERIF_SEED", 1);
    let (ja, a) = pass(blks, seed, reps, 0, refuse);
    let (_jb, b) = pass(blks, seed, reps, 1, refuse);
    let mut w = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for (c, d) in a.iter().zip(&b) {
        let mut s = String::new();
        let mut k = 0;
        for it in blks[c.blk].its {
            if !s.is_empty() {
                s.push(',');
            }
            match it {
                It::S(mn, ops, _, _) => {
                    let r = Rec {
                        st: 0,
                        p: c.ps[k],
                        page: 0,
                        start: c.start,
                        len: 0,
                        rejected: false,
                        deferred: false,
                        evals: [0; 4],
                    };
                    let o: Vec<String> = ops.iter().map(|x| opnd(&ja, &r, x)).collect();
                    let _ = write!(s, "[\"s\",\"{}\",[{}]]", mn, o.join(","));
                    k += 1;
                }
                It::B(l) => {
                    let l = c.ls[*l];
                    let a = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ja.get_label_address(l).as_ptr() as i64));
                    let _ = write!(s, "[\"b\",{}]", a.map(|a| (a - c.start as i64).clamp(-2, 1 << 30)).unwrap_or(-1));
                }
            }
        }
        let same = c.ok == d.ok && code(c) == code(d);
        writeln!(w, "{{\"blk\":{},\"its\":[{}],\"bytes\":{:?},\"same\":{}}}", c.blk, s, code(c), same as u8).unwrap();
    }
    w.flush().unwrap();
}
