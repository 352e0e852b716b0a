//! Executes assembled statements on the processor from chosen states and records what changed.
#![allow(dead_code)]
use crate::cpu::*;
use crate::rt::*;
use monoasm::*;
use std::io::Write;

pub const WIN: usize = 64;
const AREA: usize = 0x1_0000;
const AREA_AT: usize = 0x2000_0000;
const WB: usize = AREA_AT + 0x8000;

/// What the driver has to know about a statement to choose a state it can run in.
pub struct Info {
    pub c: &'static str,
    pub o: &'static str,
    pub w: u32,
}

struct Case {
    st: usize,
    p: P,
    entry: usize,
    init: Ctx,
    mem: [u8; WIN],
    wb: usize,
    rejected: bool,
}

pub fn double(rng: &mut Rng, o: &str) -> f64 {
    let sg = if rng.below(2) == 0 { 1.0 } else { -1.0 };
    match o {
        "sqrtpd" | "sqrtsd" => {
            let k = rng.below(60) as f64 / 4.0;
            if k == 0.0 { sg * 0.0 } else { k * k }
        }
        "divsd" => sg * rng.pick(&[0.0625, 0.125, 0.25, 0.5, 1.0, 2.0, 4.0, 3.0, 5.0]),
        "mulsd" => sg * rng.pick(&[0.0, 0.25, 0.5, 1.0, 1.25, 2.0, 3.75, 100.0, 255.0]),
        "roundpd" => sg * (rng.below(1000) as f64 / 16.0),
        _ => sg * (rng.below(4000) as f64 / rng.pick(&[1.0, 16.0, 2.0])),
    }
}
fn exact(v: f64) -> bool {
    v.abs() < 60000.0 && (v * 16.0).fract() == 0.0
}

/// Inverse of the odd number k modulo 2^64.
fn inv(k: u64) -> u64 {
    let mut x = k;
    for _ in 0..6 {
        x = x.wrapping_mul(2u64.wrapping_sub(k.wrapping_mul(x)));
    }
    x
}

fn packed(i: &Info) -> bool {
    matches!(i.o, "andpd" | "xorps" | "xorpd" | "sqrtpd" | "roundpd")
}
fn fp(i: &Info) -> bool {
    matches!(i.c, "sse" | "movsd" | "round" | "cvtxi") && !matches!(i.o, "andpd" | "xorps" | "xorpd")
}

/// The operands of a statement that are written into its text, as values of the slots they stand for.
#[derive(Clone, Default)]
struct Fix {
    r: Vec<u64>,
    x: Vec<u64>,
    m: Option<(u64, Option<u64>, i32)>,
    v: Option<i64>,
}
impl Fix {
    fn any(&self) -> bool {
        !self.r.is_empty() || !self.x.is_empty() || self.m.is_some() || self.v.is_some()
    }
    fn apply(&self, p: &mut P) {
        self.r.iter().enumerate().for_each(|(k, n)| p.r[k] = *n);
        self.x.iter().enumerate().for_each(|(k, n)| p.x[k] = *n);
        if let Some((b, i, d)) = self.m {
            (p.b, p.i, p.d) = (b, i.unwrap_or(p.i), d);
        }
        p.v = self.v.unwrap_or(p.v);
    }
}

/// The statement with slots for its constant operands, and the constants.
fn slots(st: &St) -> (St, Fix) {
    let mut fix = Fix::default();
    let ops: Vec<K> = st
        .ops
        .iter()
        .map(|k| match *k {
            K::RF(n) => {
                fix.r.push(n);
                K::R(fix.r.len() - 1)
            }
            K::XF(n) => {
                fix.x.push(n);
                K::X(fix.x.len() - 1)
            }
            K::MF(b, i, s, d) => {
                fix.m = Some((b as u64, u64::try_from(i).ok(), d));
                if i < 0 { K::M } else { K::MI(s) }
            }
            K::IF(v) => {
                fix.v = Some(v);
                K::I
            }
            k => k,
        })
        .collect();
    (St { mn: st.mn, src: st.src, ops: ops.leak(), f: st.f, evs: 0, marked: false }, fix)
}

/// A state for one run of the statement, or None if this draw does not suit it.
fn draw(rng: &mut Rng, n: usize, st: &St, fix: &Fix, inf: &Info, label_at: usize) -> Option<(P, Ctx, [u8; WIN], usize)> {
    let l = DestLabel::default();
    let mut p = P { r: [0, 1], x: [0, 1], b: 0, i: 1, d: 0, dq: 0, v: 1, l, mark: l };
    // every register in every role, and every pair of roles over many cases
    let (q, u) = (n % 16, n / 16);
    p.r = [q as u64, ((q * 7 + u) % 16) as u64];
    p.x = p.r;
    p.b = ((q * 5 + u * 3 + 1) % 16) as u64;
    p.i = [0u64, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15][(n * 2 + u) % 15];
    if rng.below(4) == 0 {
        p.r = [rng.below(16) as u64, p.r[1]];
        p.x = [rng.below(16) as u64, p.x[0]];
        p.b = rng.below(16) as u64;
    }
    if st.ops.iter().any(|k| matches!(k, K::C(_))) {
        p.r[1] = 1;
    }
    p.d = match (n + u) % 4 {
        0 => 0,
        1 => rng.next() as i8 as i32,
        2 => rng.pick(&[127, 128, -128, -129, i32::MAX, i32::MIN, 4096, -4096]),
        _ => rng.value() as i32,
    };
    let v = rng.value();
    p.v = match (inf.c, inf.w) {
        ("shift", w) => rng.below(w as usize) as i64,
        ("round", _) => rng.below(16) as i64,
        (_, 8) => v as i8 as i64,
        (_, 16) => v as i16 as i64,
        (_, 32) => v as i32 as i64,
        ("mov", _) if matches!(st.ops[0], K::R(_)) => v,
        _ => v as i32 as i64,
    };
    fix.apply(&mut p);
    let mut c = Ctx::zero();
    for k in 0..16 {
        c.r[k] = rng.value() as u64;
    }
    if rng.below(3) == 0 {
        // equal or nearly equal operands
        c.r[p.r[1] as usize] = c.r[p.r[0] as usize].wrapping_add(rng.below(3) as u64).wrapping_sub(1);
    }
    c.flags = 2;
    for (_, b) in FLAG_BITS {
        c.flags |= (rng.below(2) as u64) << b;
    }
    let two = |rng: &mut Rng| {
        let mut b = [0u8; 16];
        for h in 0..2 {
            let v: u64 = if fp(inf) {
                match (inf.c, rng.below(8)) {
                    ("cvtxi", 0) => rng.next(),
                    ("cvtxi", 1) => (rng.value() as f64).to_bits(),
                    ("movsd", _) => rng.next(),
                    ("sse", 0) if inf.o == "ucomisd" => f64::NAN.to_bits(),
                    _ => double(rng, inf.o).to_bits(),
                }
            } else {
                rng.next()
            };
            b[8 * h..8 * h + 8].copy_from_slice(&v.to_le_bytes());
        }
        b
    };
    for k in 0..16 {
        c.x[k] = two(rng);
    }
    let mut mem = [0u8; WIN];
    mem.iter_mut().for_each(|b| *b = rng.next() as u8);
    let label = st.ops.iter().any(|k| matches!(k, K::ML));
    let wb = if label { label_at } else { WB };
    let stack = matches!(inf.o, "push" | "pop");
    let so = 16 + rng.below(25);
    // a label operand has a window of its own: the stack then lies in it as well
    let mut locked = None;
    if stack {
        c.r[4] = (wb + so) as u64;
        locked = Some(4);
    }
    if inf.o == "leave" {
        c.r[5] = (wb + so) as u64;
        locked = Some(5);
    }
    let off = if label { 0 } else if packed(inf) { rng.pick(&[16, 32]) } else { 8 + rng.below(41) };
    let ea = (wb + off) as u64;
    let bump = if inf.o == "pop" { 8 } else { 0 };
    let mut has_mem = label;
    for k in st.ops {
        let s = match k {
            K::M => 0,
            K::MI(s) => *s as u64,
            _ => continue,
        };
        if inf.c == "lea" {
            continue;
        }
        has_mem = true;
        let (b, i) = (p.b as usize, p.i as usize);
        let rb = |c: &Ctx, n: usize| if n == 4 { c.r[n].wrapping_add(bump) } else { c.r[n] };
        if s != 0 && b == i {
            if locked == Some(b) {
                return None;
            }
            let t = ea.wrapping_sub(p.d as i64 as u64);
            c.r[b] = if s == 1 {
                if t % 2 == 1 {
                    return None;
                }
                t / 2 + if rng.below(2) == 0 { 1 << 63 } else { 0 }
            } else {
                t.wrapping_mul(inv(s + 1))
            };
        } else if locked == Some(b) {
            if s != 0 {
                c.r[i] = rng.below(5) as u64;
            }
            let x = rb(&c, b).wrapping_add(if s == 0 { 0 } else { c.r[i].wrapping_mul(s) });
            p.d = ea.wrapping_sub(x) as i64 as i32;
            if fix.m.is_some_and(|m| m.2 != p.d) {
                // the constant displacement decides where in the window
                return None;
            }
        } else {
            let x = if s == 0 { 0 } else { rb(&c, i).wrapping_mul(s) };
            c.r[b] = ea.wrapping_sub(p.d as i64 as u64).wrapping_sub(x);
        }
    }
    if has_mem && (fp(inf) || packed(inf)) {
        let b = two(rng);
        mem[off..off + 16].copy_from_slice(&b);
    }
    let opv = |k: &K| -> u64 {
        match k {
            K::R(s) => c.r[p.r[*s] as usize],
            _ => u64::from_le_bytes(mem[off..off + 8].try_into().unwrap()),
        }
    };
    match inf.o {
        "div" | "idiv" => {
            // draw again unless the quotient fits
            let d = opv(&st.ops[0]);
            let ok = match (inf.o, inf.w) {
                ("div", 64) => c.r[2] < d,
                ("div", _) => (c.r[2] as u32) < d as u32,
                (_, 64) => {
                    let n = ((c.r[2] as u128) << 64 | c.r[0] as u128) as i128;
                    let d = d as i64 as i128;
                    d != 0 && n.checked_div(d).map_or(false, |q| i64::try_from(q).is_ok())
                }
                _ => {
                    let n = ((c.r[2] as u32 as u64) << 32 | c.r[0] as u32 as u64) as i64;
                    let d = d as i32 as i64;
                    d != 0 && n.checked_div(d).map_or(false, |q| i32::try_from(q).is_ok())
                }
            };
            if !ok {
                return None;
            }
        }
        "addsd" | "subsd" | "mulsd" | "divsd" => {
            let a = f64::from_le_bytes(c.x[p.x[0] as usize][..8].try_into().unwrap());
            let b = match st.ops[1] {
                K::X(s) => f64::from_le_bytes(c.x[p.x[s] as usize][..8].try_into().unwrap()),
                _ => f64::from_bits(opv(&st.ops[1])),
            };
            let v = match inf.o {
                "addsd" => a + b,
                "subsd" => a - b,
                "mulsd" => a * b,
                _ => a / b,
            };
            if !exact(v) || !exact(a * 16.0) || (inf.o == "divsd" && b == 0.0) {
                return None;
            }
        }
        _ => {}
    }
    Some((p, c, mem, wb))
}

fn bytes8(v: u64) -> String {
    format!("{:?}", v.to_le_bytes())
}

pub fn exec_main(sts: &[St], infos: &[Info]) {
    let per = env_u64("PER", 16) as usize;
    let first = env_u64("FIRST", 0) as usize;
    quiet();
    let out = std::env::args().nth(1).unwrap();
    let mut rng = Rng::new(env_u64("VERIF_SEED", 1) ^ 0x5eed ^ (first as u64) << 32);
    let mut jit = JitMemory::new();
    let area = map_at(AREA_AT, AREA);
    let area = unsafe { std::slice::from_raw_parts_mut(area, AREA) };
    // a data item of WIN bytes whose label lies on a 16-byte boundary
    let mut lab = jit.data(WIN);
    jit.finalize();
    for _ in 0..64 {
        if jit.get_label_address(lab).as_ptr() as usize % 16 == 0 {
            break;
        }
        jit.data(8);
        lab = jit.data(WIN);
        jit.finalize();
    }
    let label_at = jit.get_label_address(lab).as_ptr() as usize;
    let aligned = label_at % 16 == 0;
    let mut cases = vec![];
    let (sts, fixes): (Vec<St>, Vec<Fix>) = sts.iter().map(slots).unzip();
    let all = per;
    for (si, st) in sts.iter().enumerate() {
        let inf = &infos[si];
        let per = if fixes[si].any() { all.min(6) } else { all };
        let label = st.ops.iter().any(|k| matches!(k, K::ML));
        if label && (!aligned && packed(inf)) {
            continue;
        }
        let mut left = 400 * per;
        let (mut n, mut stuck) = (first, 0);
        while n < first + per && left > 0 {
            left -= 1;
            let Some((mut p, init, mem, wb)) = draw(&mut rng, n, st, &fixes[si], inf, label_at) else {
                stuck += 1;
                if stuck > 60 {
                    stuck = 0;
                    n += 1; // no state suits this combination (div rdx, say)
                }
                continue;
            };
            stuck = 0;
            n += 1;
            p.l = lab;
            jit.select_page(n % 2);
            let entry = jit.get_current_address().as_ptr() as usize;
            let f = st.f;
            let j = &mut jit;
            let ok = guarded(|| f(j, &p));
            jit.select_page(n % 2);
            if !ok {
                (0..16).for_each(|_| jit.emitb(0x90));
            }
            exit_jump(0).iter().for_each(|b| jit.emitb(*b));
            cases.push(Case { st: si, p, entry, init, mem, wb, rejected: !ok });
        }
    }
    jit.finalize();
    let mut k = 0;
    std::fs::write(&out, b"").unwrap();
    while k < cases.len() {
        let si = cases[k].st;
        let mut e = k;
        while e < cases.len() && cases[e].st == si {
            e += 1;
        }
        // each case in turn, in a child; after a crash go on with the next one
        let mut group: Vec<String> = vec![];
        let part = format!("{}.part", out);
        while k < e {
            std::fs::write(&part, b"").unwrap();
            let st = contained(10, || {
                let mut w = std::fs::OpenOptions::new().append(true).open(&part).unwrap();
                for c in &cases[k..e] {
                    let s = one(c, &sts[si], &infos[si], area, label_at);
                    w.write_all(s.as_bytes()).unwrap();
                }
            });
            let done: Vec<String> =
                std::fs::read_to_string(&part).unwrap().lines().map(|s| s.to_string()).collect();
            k += done.len();
            group.extend(done);
            if k < e {
                let c = &cases[k];
                group.push(format!("{},[-2,{}]]", before(c, &sts[si], &infos[si]), st));
                k += 1;
            }
        }
        let mut w = std::fs::OpenOptions::new().append(true).open(&out).unwrap();
        writeln!(w, "{{\"mn\":\"{}\",\"src\":{:?},\"cs\":[{}]}}", sts[si].mn, sts[si].src, group.join(",")).unwrap();
    }
    let _ = std::fs::remove_file(format!("{}.part", out));
}

fn uses_mem(st: &St, inf: &Info) -> bool {
    matches!(inf.o, "push" | "pop" | "leave") || st.ops.iter().any(|k| matches!(k, K::M | K::MI(_) | K::ML))
}

/// `[operands, registers, flags, window, window address, xmm` of the starting state.
fn before(c: &Case, st: &St, inf: &Info) -> String {
    let mut s = String::from("[[");
    let mut regs = vec![0usize, 1, 2, 4, 5];
    let mut xs = vec![];
    for (n, k) in st.ops.iter().enumerate() {
        if n > 0 {
            s.push(',');
        }
        match k {
            K::ML => s.push_str("[\"s\",0]"),
            K::R(x) | K::C(x) => {
                regs.push(c.p.r[*x] as usize);
                s.push_str(&format!("[\"r\",{}]", c.p.r[*x]));
            }
            K::X(x) => {
                xs.push(c.p.x[*x] as usize);
                s.push_str(&format!("[\"x\",{}]", c.p.x[*x]));
            }
            K::M => {
                regs.push(c.p.b as usize);
                s.push_str(&format!("[\"m\",{},-1,1,{}]", c.p.b, c.p.d));
            }
            K::MI(x) => {
                regs.push(c.p.b as usize);
                regs.push(c.p.i as usize);
                s.push_str(&format!("[\"m\",{},{},{},{}]", c.p.b, c.p.i, x, c.p.d));
            }
            K::I | K::IB => match i32::try_from(c.p.v) {
                Ok(v) => s.push_str(&format!("[\"n\",{}]", v)),
                Err(_) => s.push_str(&format!("[\"i\",{}]", bytes8(c.p.v as u64))),
            },
            _ => unreachable!(),
        }
    }
    s.push_str("],[");
    for k in 0..16 {
        if k > 0 {
            s.push(',');
        }
        if regs.contains(&k) {
            s.push_str(&bytes8(c.init.r[k]));
        } else {
            s.push_str("[]");
        }
    }
    s.push_str(&format!("],{:?},", flag_vec(c.init.flags)));
    if uses_mem(st, inf) {
        s.push_str(&format!("{:?}", c.mem));
    } else {
        s.push_str("[]");
    }
    s.push_str(&format!(",{},[", bytes8(c.wb as u64)));
    for k in 0..16 {
        if k > 0 {
            s.push(',');
        }
        if xs.contains(&k) {
            s.push_str(&format!("{:?}", c.init.x[k]));
        } else {
            s.push_str("[]");
        }
    }
    s.push(']');
    s
}

fn one(c: &Case, st: &St, inf: &Info, area: &mut [u8], label_at: usize) -> String {
    let mut s = before(c, st, inf);
    if c.rejected {
        s.push_str(",[-1]]\n");
        return s;
    }
    area.fill(0xc3);
    let lab = unsafe { std::slice::from_raw_parts_mut(label_at as *mut u8, WIN) };
    lab.fill(0x5a);
    let win = unsafe { std::slice::from_raw_parts_mut(c.wb as *mut u8, WIN) };
    win.copy_from_slice(&c.mem);
    let area0 = area.to_vec();
    let lab0 = lab.to_vec();
    let a = run(&c.init, c.entry);
    let mut outside = 0;
    for (k, (x, y)) in area.iter().zip(&area0).enumerate() {
        if x != y && !(c.wb == WB && k >= WB - AREA_AT && k < WB - AREA_AT + WIN) {
            outside = 1;
        }
    }
    if c.wb != label_at && lab != &lab0[..] {
        outside = 1;
    }
    // the direction and alignment-check flags set would be as bad as a stray write
    if a.flags & 0x40400 != 0 {
        outside = 1;
    }
    let rd: Vec<_> = (0..16).filter(|k| a.r[*k] != c.init.r[*k]).map(|k| format!("[{},{}]", k, bytes8(a.r[k]))).collect();
    let xd: Vec<_> = (0..16).filter(|k| a.x[*k] != c.init.x[*k]).map(|k| format!("[{},{:?}]", k, a.x[k])).collect();
    let md: Vec<_> = (0..WIN).filter(|k| win[*k] != c.mem[*k]).map(|k| format!("[{},{}]", k, win[k])).collect();
    s.push_str(&format!(
        ",[0,[{}],{:?},[{}],[{}],{}]]\n",
        rd.join(","),
        flag_vec(a.flags),
        md.join(","),
        xd.join(","),
        outside
    ));
    s
}
