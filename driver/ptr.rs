//! Labels and code pointers as handles on addresses.
use monoasm::*;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
}

struct Inst {
    jit: JitMemory,
    base: [usize; 2],
    labels: Vec<(DestLabel, bool)>,
}

fn create() -> Inst {
    let mut jit = JitMemory::new();
    jit.select_page(1);
    let b1 = jit.get_current_address().as_ptr() as usize;
    jit.select_page(0);
    let b0 = jit.get_current_address().as_ptr() as usize;
    Inst { jit, base: [b0, b1], labels: vec![] }
}

fn bytes(a: usize) -> String {
    format!("{:?}", (a as u64).to_le_bytes())
}

fn hash(p: CodePtr) -> u64 {
    let mut h = DefaultHasher::new();
    p.hash(&mut h);
    h.finish()
}

fn tried(f: impl FnOnce() -> usize) -> String {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(a) => bytes(a),
        Err(_) => "[]".into(),
    }
}

fn list(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

fn event(w: &mut [Inst], k: usize, words: &str, json: &str, out: &mut String) {
    let o: Vec<&str> = words.split(' ').collect();
    let n = |k: usize| o[k].parse::<usize>().unwrap();
    let x = &mut w[n(1) - 1];
    match o[0] {
        "sel" => x.jit.select_page(n(2)),
        "emit" => (0..n(2)).for_each(|_| x.jit.emitb(0x90)),
        "label" => {
            let l = x.jit.label();
            x.labels.push((l, false))
        }
        "const" => {
            let l = x.jit.const_i64(n(2) as i64);
            x.labels.push((l, true))
        }
        "data" => {
            let l = x.jit.data_i64(n(2) as i64);
            x.labels.push((l, true))
        }
        "bind" => x.jit.bind_label(x.labels[n(2) - 1].0),
        "fin" => x.jit.finalize(),
        x => panic!("unknown operation {x}"),
    }
    let (mut base, mut cur, mut here, mut lab, mut mem, mut ids, mut eq) = (vec![], vec![], vec![], vec![], vec![], vec![], vec![]);
    let mut ptrs: Vec<CodePtr> = vec![];
    for x in w.iter_mut() {
        base.push(list(x.base.iter().map(|b| bytes(*b)).collect()));
        cur.push(x.jit.get_current().to_string());
        here.push(bytes(x.jit.get_current_address().as_ptr() as usize));
        ptrs.push(x.jit.get_current_address());
        let (mut la, mut me) = (vec![], vec![]);
        for (l, stored) in x.labels.clone() {
            let jit = &mut x.jit;
            let a = [
                tried(|| jit.get_label_address(l).as_ptr() as usize),
                tried(|| jit.get_label_u64(l) as usize),
                tried(|| jit.get_label_addr::<u64, u64>(l) as usize),
                tried(|| jit.get_label_addr2::<u64, u64, u64>(l) as usize),
            ];
            if a[0] != "[]" {
                let p = jit.get_label_address(l);
                ptrs.push(p);
                ptrs.push(CodePtr::from(p.as_ptr()));
                me.push(if stored { format!("{:?}", unsafe { std::ptr::read_unaligned(p.as_ptr() as *const [u8; 8]) }) } else { "[]".into() });
            } else {
                me.push("[]".into());
            }
            la.push(list(a.to_vec()));
        }
        lab.push(list(la));
        mem.push(list(me));
        ids.push(list(x.labels.iter().map(|l| l.0.to_usize().to_string()).collect()));
        eq.push(list(x.labels.iter().map(|a| list(x.labels.iter().map(|b| ((a.0 == b.0) as u8).to_string()).collect())).collect()));
    }
    // not too many, but others every time
    while ptrs.len() > 10 {
        ptrs.swap_remove((k * 7 + ptrs.len() * 3) % ptrs.len());
    }
    let mut adds = vec![];
    for (j, n) in [0usize, 1, 255, 65536, 16_777_216, 268_435_456].iter().enumerate() {
        let i = (k + j) % ptrs.len();
        let s = ptrs[i] + *n;
        adds.push(format!("[{},{},{}]", i + 1, n, bytes(s.as_ptr() as usize)));
        if j % 2 == 1 {
            ptrs.push(s);
        }
    }
    let mut pairs = vec![];
    for (i, p) in ptrs.iter().enumerate() {
        for (j, q) in ptrs.iter().enumerate() {
            let same = *p == *q && !(*p != *q) && hash(*p) == hash(*q);
            pairs.push(format!("[{},{},{:?},{},{},{},{},{}]", i + 1, j + 1, (*p - *q).to_le_bytes(), (p < q) as u8, (p <= q) as u8, (p > q) as u8,
                (p >= q) as u8, same as u8));
        }
    }
    let _ = write!(out, "{{\"o\":{},\"base\":{},\"cur\":{},\"here\":{},\"lab\":{},\"mem\":{},\"ids\":{},\"eq\":{},\"ptrs\":{},\"pairs\":{},\"adds\":{}}}",
        json, list(base), list(cur), list(here), list(lab), list(mem), list(ids), list(eq),
        list(ptrs.iter().map(|p| bytes(p.as_ptr() as usize)).collect()), list(pairs), list(adds));
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let mut f = std::fs::File::create(&a[2]).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    for script in text.split("---\n") {
        if script.is_empty() {
            continue;
        }
        let pid = unsafe { fork() };
        assert!(pid >= 0);
        if pid == 0 {
            let ok = catch_unwind(AssertUnwindSafe(|| {
                let n: usize = script.lines().map(|l| l.split(' ').nth(1).unwrap().split('\t').next().unwrap().parse::<usize>().unwrap()).max().unwrap();
                let mut w: Vec<Inst> = (0..n).map(|_| create()).collect();
                let mut out = format!("{{\"n\":{},\"ev\":[", n);
                for (k, line) in script.lines().enumerate() {
                    let (words, json) = line.split_once('\t').unwrap();
                    if k > 0 {
                        out.push(',');
                    }
                    event(&mut w, k, words, json, &mut out);
                }
                out.push_str("]}\n");
                f.write_all(out.as_bytes()).unwrap();
            }));
            unsafe { _exit(if ok.is_ok() { 0 } else { 7 }) };
        }
        let mut st = 0;
        unsafe { waitpid(pid, &mut st, 0) };
        if st != 0 {
            f.write_all(format!("{{\"crash\":{st}}}\n").as_bytes()).unwrap();
        }
    }
}
