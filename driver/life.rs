//! Lifetimes of assemblers: creation, moves, drops, calls of what they generated.
use monoasm::*;
use monoasm_macro::monoasm;
use std::fmt::Write as _;
use std::io::Write as _;

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
}

struct Inst {
    jit: Option<Box<JitMemory>>,
    base: [usize; 2],
    page: usize,
}

#[derive(Default)]
struct World {
    inst: Vec<Inst>,
    fns: Vec<usize>,
    data: Vec<usize>,
    ballast: Vec<Vec<u8>>,
}

fn rights(maps: &str, a: usize, n: usize) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut covered = 0;
    for l in maps.lines() {
        let mut w = l.split_whitespace();
        let (r, perm) = (w.next().unwrap(), w.next().unwrap());
        let (x, y) = r.split_once('-').unwrap();
        let (x, y) = (usize::from_str_radix(x, 16).unwrap(), usize::from_str_radix(y, 16).unwrap());
        let (x, y) = (x.max(a), y.min(a + n));
        if x < y {
            covered += y - x;
            let p = perm[..3].to_string();
            if !out.contains(&p) {
                out.push(p);
            }
        }
    }
    if covered != n {
        out.push("none".into());
    }
    out
}

fn call(f: usize) -> i64 {
    let f: extern "C" fn() -> u64 = unsafe { std::mem::transmute(f) };
    let v = f();
    if v < 1 << 30 {
        v as i64
    } else {
        -1
    }
}

/// Carries an assembler to another thread, whether or not its type says that it may go.
struct Far<T>(T);
unsafe impl<T> Send for Far<T> {}

fn create() -> Inst {
    let mut jit = Box::new(JitMemory::new());
    let b0 = jit.get_current_address().as_ptr() as usize;
    jit.select_page(1);
    let b1 = jit.get_current_address().as_ptr() as usize;
    jit.select_page(0);
    Inst { jit: Some(jit), base: [b0, b1], page: 0 }
}

/// Generates a function that returns v (or counts its calls): where it and its counter are.
fn make(jit: &mut JitMemory, count: bool, v: u64) -> (usize, usize) {
    let l = jit.label();
    if !count {
        monoasm!( &mut *jit,
        l:
            movq rax, (v);
            ret;
        );
        jit.finalize();
        return (jit.get_label_address(l).as_ptr() as usize, 0);
    }
    let d = jit.data_i64(0);
    monoasm!( &mut *jit,
    l:
        addq [rip + d], 1;
        movq rax, [rip + d];
        ret;
    );
    jit.finalize();
    (jit.get_label_u64(l) as usize, jit.get_label_u64(d) as usize)
}

fn exercise(jit: &mut JitMemory) {
    let page = jit.get_page();
    let (a, b, late, nowhere) = (jit.label(), jit.label(), jit.label(), jit.label());
    let c = [jit.const_i64(-5), jit.const_i32(7), jit.const_f64(2.5), jit.constant(40), jit.const_align8(), jit.abs_address(a), jit.abs_address(nowhere),
        jit.data_i32(9), jit.data_i64(11), jit.data(33)];
    let x = c[8];
    monoasm!( &mut *jit,
    a:
        jmp b;
    b:
        movq rax, [rip + x];
        jz late;
        lea rdi, [rip + nowhere];
        ret;
    );
    for _ in 0..2 {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            monoasm!( &mut *jit, addb rax, 70000; );
        }));
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            jit.select_page(2);
        }));
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| jit.get_label_address(nowhere)));
        jit.align8();
        jit.finalize();
        jit.align16();
        jit.apply_jmp_patch(a, b);
        let at = jit.get_label_address(a);
        jit.apply_jmp_patch_address(at, a);
        std::hint::black_box(jit.as_slice().len());
        jit.select_page(1 - page);
        jit.align_page();
        jit.emitq(0x0102_0304_0506_0708);
        jit[Page(1 - page)].emitb(3);
        jit.bind_label_with_page(Page(page), late);
        jit.finalize();
        jit.select_page(page);
        let f: extern "C" fn(u64) -> u64 = jit.get_label_addr(b);
        let g: extern "C" fn(u64, u64) -> u64 = jit.get_label_addr2(b);
        assert!(f as usize == g as usize && f as usize as u64 == jit.get_label_u64(b));
    }
}

impl World {
    fn run(&mut self, w: &[&str]) -> Vec<i64> {
        let n = |k: usize| w[k].parse::<usize>().unwrap();
        let mut threaded = false;
        match w[0] {
            "new" => self.inst.push(create()),
            "sel" => {
                let i = &mut self.inst[n(1) - 1];
                i.jit.as_mut().unwrap().select_page(n(2));
                i.page = n(2);
            }
            "fn" | "cnt" => {
                let v = 1000 + self.fns.len() as u64;
                let (f, d) = make(self.inst[n(1) - 1].jit.as_mut().unwrap(), w[0] == "cnt", v);
                self.fns.push(f);
                self.data.push(d);
            }
            "tcnt" => {
                let i = &mut self.inst[n(1) - 1];
                let mut jit = Far(i.jit.take().unwrap());
                let (jit, (f, d)) = std::thread::spawn(move || {
                    let mut jit = jit;
                    let r = make(&mut jit.0, true, 0);
                    (jit, r)
                }).join().unwrap();
                i.jit = Some(jit.0);
                self.fns.push(f);
                self.data.push(d);
            }
            "tnew" => {
                let i = std::thread::spawn(|| Far(create())).join().unwrap().0;
                self.inst.push(i);
            }
            "pnew" => {
                let start = std::sync::Arc::new(std::sync::Barrier::new(n(1)));
                let h: Vec<_> = (0..n(1)).map(|_| {
                    let start = start.clone();
                    std::thread::spawn(move || {
                        start.wait();
                        Far(create())
                    })
                }).collect();
                for h in h {
                    self.inst.push(h.join().unwrap().0);
                }
            }
            "par" => {
                let m = n(1);
                let who: Vec<usize> = (0..self.inst.len()).filter(|i| self.inst[*i].jit.is_some()).collect();
                let start = std::sync::Arc::new(std::sync::Barrier::new(who.len()));
                let mut v = 1000 + self.fns.len() as u64;
                let mut h = vec![];
                for i in who {
                    let jit = Far(self.inst[i].jit.take().unwrap());
                    let start = start.clone();
                    let from = v;
                    v += m as u64;
                    h.push((i, std::thread::spawn(move || {
                        let mut jit = jit;
                        start.wait();
                        let r: Vec<_> = (0..m).map(|k| make(&mut jit.0, k % 2 == 1, from + k as u64)).collect();
                        (jit, r)
                    })));
                }
                for (i, h) in h {
                    let (jit, r) = h.join().unwrap();
                    self.inst[i].jit = Some(jit.0);
                    for (f, d) in r {
                        self.fns.push(f);
                        self.data.push(d);
                    }
                }
            }
            "tdrop" => {
                let jit = Far(self.inst[n(1) - 1].jit.take());
                std::thread::spawn(move || {
                    let jit = jit;
                    drop(jit.0);
                }).join().unwrap();
            }
            // the rest of the interface, in the code page selected
            "use" => exercise(self.inst[n(1) - 1].jit.as_mut().unwrap()),
            // leaves a gap of many megabytes before whatever comes next
            "far" => {
                let jit = self.inst[n(1) - 1].jit.as_mut().unwrap();
                let to = jit.get_current() + (n(2) << 20);
                while jit.get_current() < to {
                    jit.emitb(0xcc);
                    jit.align_page();
                }
            }
            // moves the assembler to another place
            "box" => {
                let i = &mut self.inst[n(1) - 1];
                let jit = *i.jit.take().unwrap();
                let mut v = vec![jit];
                let jit = v.pop().unwrap();
                i.jit = Some(Box::new(jit));
            }
            "drop" => self.inst[n(1) - 1].jit = None,
            // other users of memory
            "grow" => {
                for k in 0..6 {
                    self.ballast.push(vec![0xcc; 1 << (12 + 3 * k)]);
                }
            }
            "thr" => threaded = true,
            x => panic!("unknown operation {x}"),
        }
        let fns = self.fns.clone();
        let all = move || fns.iter().map(|f| call(*f)).collect::<Vec<_>>();
        if threaded {
            std::thread::spawn(all).join().unwrap()
        } else {
            all()
        }
    }

    fn event(&mut self, words: &str, json: &str, out: &mut String) {
        let w: Vec<&str> = words.split(' ').collect();
        let ret = self.run(&w);
        let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
        let (mut perm, mut inc, mut dist) = (vec![], vec![], vec![]);
        let on_stack = 0u8;
        let here = [std::ptr::null_mut(), &on_stack as *const u8 as *mut u8, usize::MAX as *mut u8, 4096 as *mut u8,
            out.as_ptr() as *mut u8, call as fn(usize) -> i64 as usize as *mut u8];
        for (i, x) in self.inst.iter().enumerate() {
            let Some(jit) = &x.jit else { continue };
            let ps = x.base[1] - x.base[0];
            let r: Vec<_> = [x.base[0], x.base[1], x.base[1] + ps].iter().map(|a| rights(&maps, *a, ps)).collect();
            perm.push(format!("[{},{:?}]", i + 1, r));
            for (j, y) in self.inst.iter().enumerate() {
                for off in [-1i64, 0, 1, 4096, ps as i64 - 1, ps as i64, ps as i64 + 1, 2 * ps as i64 - 1, 2 * ps as i64,
                    2 * ps as i64 + 1, 3 * ps as i64 - 1, 3 * ps as i64, 4 * ps as i64 - 1, 4 * ps as i64, -(ps as i64), -(ps as i64) - 1]
                {
                    // another instance may lie right beside this one
                    if i != j && !(0..3 * ps as i64).contains(&off) {
                        continue;
                    }
                    let a = (y.base[0] as i64 + off) as usize as *mut u8;
                    // TLC's integers have 32 bits
                    inc.push(format!("[{},{},{},{}]", i + 1, j + 1, off, jit.include(a) as u8));
                }
                if i != j {
                    let d = y.base[0] as i64 - x.base[0] as i64;
                    dist.push(format!("[{},{},{}]", i + 1, j + 1, d.clamp(-2_000_000_000, 2_000_000_000)));
                }
            }
            for a in here {
                inc.push(format!("[{},0,0,{}]", i + 1, jit.include(a) as u8));
            }
        }
        let mut pos = vec![];
        for (f, d) in self.fns.iter().zip(&self.data) {
            let who: Vec<String> = self.inst.iter().enumerate().filter_map(|(i, x)| {
                let jit = x.jit.as_ref()?;
                Some(format!("[{},{},{}]", i + 1, jit.include(*f as *mut u8) as u8, (*d != 0 && jit.include(*d as *mut u8)) as u8))
            }).collect();
            pos.push(format!("[{:?},{:?},[{}]]", rights(&maps, *f, 4), if *d == 0 { vec![] } else { rights(&maps, *d, 8) }, who.join(",")));
        }
        let _ = write!(out, "{{\"o\":{},\"ret\":{:?},\"perm\":[{}],\"inc\":[{}],\"dist\":[{}],\"pos\":[{}]}}", json, ret, perm.join(","),
            inc.join(","), dist.join(","), pos.join(","));
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let mut f = std::fs::File::create(&a[2]).unwrap();
    for script in text.split("---\n") {
        if script.is_empty() {
            continue;
        }
        let pid = unsafe { fork() };
        assert!(pid >= 0);
        if pid == 0 {
            let mut w = World::default();
            let mut out = String::from("{\"ev\":[");
            for (k, line) in script.lines().enumerate() {
                let (words, json) = line.split_once('\t').unwrap();
                if k > 0 {
                    out.push(',');
                }
                w.event(words, json, &mut out);
            }
            out.push_str("]}\n");
            f.write_all(out.as_bytes()).unwrap();
            unsafe { _exit(0) };
        }
        let mut st = 0;
        unsafe { waitpid(pid, &mut st, 0) };
        if st != 0 {
            // a lifetime that ended in a crash
            f.write_all(format!("{{\"crash\":{st}}}\n").as_bytes()).unwrap();
        }
    }
}
