//! Assembles and runs whole programs; the program text comes from a file, one item per line:
//!   new N                     a fresh assembler and N code labels
//!   item K VALUE              a constant or data item (ci64 di64 cf64 ci32 di32 abs)
//!   page P | bind L | fin | al N | junk HEX | exit
//!   st FORM r0 r1 x0 x1 b i d v L
//!   win HEX                   contents of the scratch window
//!   run ENTRY SEED            runs from label ENTRY
//!   patch P L                 redirects the jump at label P to label L
//!   end
#![allow(dead_code)]
use crate::cpu::*;
use crate::rt::*;
use monoasm::*;
use std::io::{BufRead, Write};

const WIN: usize = 384;
const AREA: usize = 0x1_0000;
const AREA_AT: usize = 0x2000_0000;
const WB: usize = AREA_AT + 0x8000;

struct Prog {
    jit: JitMemory,
    labels: Vec<DestLabel>,
    items: Vec<(DestLabel, usize)>,
    addrs: Vec<(usize, usize)>,
    win: Vec<u8>,
    /// what went wrong, if anything
    failed: Option<String>,
}

fn lab(p: &Prog, n: usize) -> DestLabel {
    if n >= 1000 { p.items[n - 1000].0 } else { p.labels[n] }
}
fn here(p: &Prog) -> usize {
    p.jit.get_current_address().as_ptr() as usize
}

fn bytes_of(p: &Prog, k: usize) -> Vec<u8> {
    let (l, n) = p.items[k];
    let a = p.jit.get_label_address(l).as_ptr();
    unsafe { std::slice::from_raw_parts(a, n).to_vec() }
}

fn step(p: &mut Prog, sts: &[St], w: &[&str]) {
    let num = |k: usize| w[k].parse::<i64>().unwrap();
    match w[0] {
        "item" => {
            let v = num(2);
            let it = match w[1] {
                "ci64" => (p.jit.const_i64(v), 8),
                "di64" => (p.jit.data_i64(v), 8),
                "cf64" => (p.jit.const_f64(f64::from_bits(v as u64)), 8),
                "ci32" => (p.jit.const_i32(v as i32), 4),
                "di32" => (p.jit.data_i32(v as i32), 4),
                _ => {
                    let l = p.labels[v as usize];
                    (p.jit.abs_address(l), 8)
                }
            };
            p.items.push(it);
        }
        "page" => p.jit.select_page(num(1) as usize),
        "bind" => {
            let l = p.labels[num(1) as usize];
            p.jit.bind_label(l)
        }
        "fin" => p.jit.finalize(),
        "al" => match num(1) {
            16 => p.jit.align16(),
            8 => p.jit.align8(),
            _ => p.jit.align4(),
        },
        "junk" => (0..num(1)).for_each(|_| p.jit.emitb(0xcc)),
        "exit" => {
            let a = here(p);
            exit_jump(0).iter().for_each(|b| p.jit.emitb(*b));
            p.addrs.push((a, here(p)));
        }
        "st" => {
            let l = num(10) as usize;
            let l = if w[10] == "0" && p.labels.is_empty() { DestLabel::default() } else { lab(p, l) };
            let q = P {
                r: [num(2) as u64, num(3) as u64],
                x: [num(4) as u64, num(5) as u64],
                b: num(6) as u64,
                i: num(7) as u64,
                d: num(8) as i32,
                dq: 0,
                v: num(9),
                l,
                mark: l,
            };
            let a = here(p);
            let f = sts[num(1) as usize].f;
            f(&mut p.jit, &q);
            p.addrs.push((a, here(p)));
        }
        "patch" => {
            let (a, b) = (p.labels[num(1) as usize], p.labels[num(2) as usize]);
            p.jit.apply_jmp_patch(a, b)
        }
        _ => panic!("bad line"),
    }
}

fn b8(v: u64) -> String {
    format!("{:?}", v.to_le_bytes())
}

fn exec(p: &mut Prog, entry: usize, seed: u64, area: &mut [u8]) -> String {
    let mut rng = Rng::new(seed);
    let mut c = Ctx::zero();
    for k in 0..16 {
        c.r[k] = rng.value() as u64;
        for b in 0..16 {
            c.x[k][b] = rng.next() as u8;
        }
    }
    c.r[3] = WB as u64;
    c.r[12] = WB as u64 + 64;
    c.r[13] = WB as u64 + 128;
    c.r[4] = WB as u64 + 376;
    for (_, b) in FLAG_BITS {
        c.flags |= (rng.below(2) as u64) << b;
    }
    area.fill(0xc3);
    area[WB - AREA_AT..WB - AREA_AT + WIN].copy_from_slice(&p.win);
    let code: Vec<(usize, Vec<u8>)> = p
        .addrs
        .iter()
        .map(|(a, b)| (*a, unsafe { std::slice::from_raw_parts(*a as *const u8, b - a).to_vec() }))
        .collect();
    let items0: Vec<u8> = (0..p.items.len()).flat_map(|k| bytes_of(p, k)).collect();
    let start = p.jit.get_label_address(p.labels[entry]).as_ptr() as usize;
    let o = run(&c, start);
    let mut stray = 0;
    for (k, x) in area.iter().enumerate() {
        if *x != 0xc3 && !(k >= WB - AREA_AT && k < WB - AREA_AT + WIN) {
            stray = 1;
        }
    }
    for (a, b) in &code {
        if unsafe { std::slice::from_raw_parts(*a as *const u8, b.len()) } != &b[..] {
            stray = 2;
        }
    }
    if o.flags & 0x40400 != 0 {
        stray = 3;
    }
    let mut m0 = p.win.clone();
    m0.extend(items0);
    let mut m1 = area[WB - AREA_AT..WB - AREA_AT + WIN].to_vec();
    m1.extend((0..p.items.len()).flat_map(|k| bytes_of(p, k)));
    let regs = |c: &Ctx| c.r.iter().map(|v| b8(*v)).collect::<Vec<_>>().join(",");
    let xs = |c: &Ctx| c.x.iter().map(|v| format!("{:?}", v)).collect::<Vec<_>>().join(",");
    format!(
        "\"r\":[{}],\"f\":{:?},\"m\":{:?},\"wb\":{},\"x\":[{}],\"out\":[0,[{}],{:?},{:?},[{}],{}]",
        regs(&c),
        flag_vec(c.flags),
        m0,
        b8(WB as u64),
        xs(&c),
        regs(&o),
        flag_vec(o.flags),
        m1,
        xs(&o),
        stray
    )
}

/// An assembler whose memory does not start as zeros.
fn dirty_jit() -> JitMemory {
    let mut jit = JitMemory::new();
    for p in 0..2 {
        jit.select_page(p);
        unsafe { std::ptr::write_bytes(jit.get_current_address().as_ptr(), 0x5b, 1 << 13) };
    }
    jit.select_page(0);
    jit
}

pub fn prog_main(sts: &[St]) {
    quiet();
    let inp = std::env::args().nth(1).unwrap();
    let out = std::env::args().nth(2).unwrap();
    let area = map_at(AREA_AT, AREA);
    let area = unsafe { std::slice::from_raw_parts_mut(area, AREA) };
    let lines: Vec<String> =
        std::io::BufReader::new(std::fs::File::open(inp).unwrap()).lines().map(|l| l.unwrap()).collect();
    std::fs::write(&out, b"").unwrap();
    let mut k = 0;
    while k < lines.len() {
        let mut e = k;
        while lines[e] != "end" {
            e += 1;
        }
        // one program per child: assemblers keep their memory for ever
        let body = &lines[k..e];
        let part = format!("{}.part", out);
        std::fs::write(&part, b"").unwrap();
        let status = contained(10, || {
            let mut w = std::fs::OpenOptions::new().append(true).open(&part).unwrap();
            let mut p = Prog {
                jit: dirty_jit(),
                labels: vec![],
                items: vec![],
                addrs: vec![],
                win: vec![0; WIN],
                failed: None,
            };
            for line in body {
                let v: Vec<&str> = line.split(' ').collect();
                match v[0] {
                    "new" => p.labels = (0..v[1].parse::<usize>().unwrap()).map(|_| p.jit.label()).collect(),
                    "win" => {
                        p.win = (0..WIN).map(|i| u8::from_str_radix(&v[1][2 * i..2 * i + 2], 16).unwrap()).collect()
                    }
                    "run" => {
                        if let Some(m) = &p.failed {
                            writeln!(w, "{{\"out\":[-1],\"why\":{:?}}}", m).unwrap();
                            continue;
                        }
                        let s = exec(&mut p, v[1].parse().unwrap(), v[2].parse().unwrap(), area);
                        let a: Vec<_> = p.addrs.iter().map(|(a, b)| format!("[{},{}]", b8(*a as u64), b8(*b as u64))).collect();
                        writeln!(w, "{{\"addrs\":[{}],{}}}", a.join(","), s).unwrap();
                    }
                    _ => {
                        if p.failed.is_none() && !guarded(|| step(&mut p, sts, &v)) {
                            p.failed = Some(line.clone());
                        }
                    }
                }
            }
        });
        let runs = body.iter().filter(|l| l.starts_with("run")).count();
        let mut got: Vec<String> = std::fs::read_to_string(&part).unwrap().lines().map(|s| s.to_string()).collect();
        while got.len() < runs {
            got.push(format!("{{\"out\":[-2],\"why\":\"ended with status {}\"}}", status));
        }
        let mut w = std::fs::OpenOptions::new().append(true).open(&out).unwrap();
        for g in got {
            writeln!(w, "{}", g).unwrap();
        }
        k = e + 1;
    }
    let _ = std::fs::remove_file(format!("{}.part", out));
}
