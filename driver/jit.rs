//! Interprets operation scripts on a real JitMemory through its public API and records,
//! after every operation, what can be observed of it.
use monoasm::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

extern "C" {
    fn munmap(p: *mut u8, len: usize) -> i32;
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
}

const CHUNK: usize = 512;
const USED: usize = 1536;

pub struct Sess {
    pub jit: JitMemory,
    base: [usize; 3],
    ps: usize,
    labs: Vec<DestLabel>,
    addr: Vec<i64>,
    poll: Vec<usize>,
    seen: BTreeMap<usize, Vec<u8>>,
    nblocks: [Vec<(usize, usize, usize)>; 3],
    dump: bool,
    scan: bool,
    dirty: bool,
    /// reading by position disagreed with the memory
    odd: bool,
}

fn pos(p: Pos) -> usize {
    p - Pos::from(0)
}

pub fn hexbytes(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn le(b: &[u8]) -> u64 {
    let mut v = [0u8; 8];
    v[..b.len()].copy_from_slice(b);
    u64::from_le_bytes(v)
}

/// Sizes from 1300000000 on stand for those just below 2^64.
fn size(n: usize) -> usize {
    if n >= 1_300_000_000 {
        usize::MAX - (n - 1_300_000_000)
    } else {
        n
    }
}

/// Whether the bytes [a, a + n) lie in the same mapping as the byte before them.
fn same_mapping(a: usize, n: usize) -> bool {
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    maps.lines().any(|l| {
        let (x, y) = l.split_whitespace().next().unwrap().split_once('-').unwrap();
        let (x, y) = (usize::from_str_radix(x, 16).unwrap(), usize::from_str_radix(y, 16).unwrap());
        x < a && a + n <= y
    })
}

impl Sess {
    pub fn new(poll: Vec<usize>, dump: bool, dirty: bool) -> Self {
        let mut jit = JitMemory::new();
        let b0 = jit.get_current_address().as_ptr() as usize;
        jit.select_page(1);
        let b1 = jit.get_current_address().as_ptr() as usize;
        jit.select_page(0);
        let ps = b1 - b0;
        let mut s = Sess {
            jit,
            base: [b0, b1, b1 + ps],
            ps,
            labs: vec![],
            addr: vec![],
            poll,
            seen: BTreeMap::new(),
            nblocks: [vec![], vec![], vec![]],
            dump,
            scan: false,
            dirty,
            odd: false,
        };
        if dirty {
            // memory nothing was emitted to holds anything
            for p in 0..3 {
                for k in 0..USED {
                    s.jit[Page(p)][Pos::from(k)] = s.blank(p * ps + k);
                }
            }
        }
        for _ in 0..2 {
            s.new_label();
        }
        for p in 0..3 {
            for c in 0..USED / CHUNK {
                s.watch(p * ps + c * CHUNK);
            }
        }
        s
    }

    /// Also watches what lies behind the last page, if that is part of the same allocation.
    fn guard(&mut self) {
        let a = self.base[0] + 3 * self.ps;
        if same_mapping(a, CHUNK) {
            let now = unsafe { std::slice::from_raw_parts(a as *const u8, CHUNK) };
            if now.iter().all(|b| *b == 0) {
                self.seen.insert(3 * self.ps, now.to_vec());
            }
        }
    }

    fn new_label(&mut self) {
        let l = self.jit.label();
        self.push(l);
    }

    fn push(&mut self, l: DestLabel) {
        self.labs.push(l);
        self.addr.push(-1);
    }

    fn item(&mut self, l: DestLabel) {
        self.push(l);
        let n = self.labs.len();
        if !self.poll.contains(&n) {
            self.poll.push(n);
        }
    }

    fn watch(&mut self, a: usize) {
        if a < 3 * self.ps {
            let c = a / CHUNK * CHUNK;
            let blank = (c..c + CHUNK).map(|x| self.blank(x)).collect();
            self.seen.entry(c).or_insert(blank);
        }
    }

    /// What the memory at `a` held before anything was emitted.
    fn blank(&self, a: usize) -> u8 {
        if self.dirty && a % self.ps < USED {
            (a % self.ps % 251 + 1) as u8
        } else {
            0
        }
    }

    fn watch_span(&mut self, a: usize, b: usize) {
        if b - a > 200_000 {
            self.watch_span(a, a + 2 * CHUNK);
            self.watch_span(b.max(2 * CHUNK) - 2 * CHUNK, b);
            return;
        }
        let mut x = a;
        while x <= b {
            self.watch(x);
            x += CHUNK;
        }
        self.watch(b);
        self.watch(b + 64);
    }

    fn rel(&self, a: usize) -> i64 {
        let r = a as i64 - self.base[0] as i64;
        if r < 0 || r >= 4 * self.ps as i64 || r > 0x7fff_0000 {
            -3
        } else {
            r
        }
    }

    /// One operation; words are the operation's tokens.
    fn run(&mut self, w: &[&str], stm: &dyn Fn(&mut JitMemory, usize, DestLabel), plain: &dyn Fn(&mut JitMemory, usize)) {
        let n = |k: usize| w[k].parse::<usize>().unwrap();
        match w[0] {
            "label" => self.new_label(),
            "labels" => {
                for _ in 0..n(1) {
                    self.new_label();
                }
            }
            "bind" => {
                let l = self.labs[n(1) - 1];
                if n(1) % 2 == 1 {
                    monoasm_macro::monoasm!(&mut self.jit, l:);
                } else {
                    self.jit.bind_label(l);
                }
            }
            "bindp" => {
                let l = self.labs[n(2) - 1];
                self.jit.bind_label_with_page(Page(n(1)), l)
            }
            "sel" => self.jit.select_page(n(1)),
            "emit" => {
                let b = hexbytes(w.get(2).unwrap_or(&""));
                match w[1] {
                    "b" => self.jit.emitb(b[0]),
                    "w" => self.jit.emitw(le(&b) as u16),
                    "l" => self.jit.emitl(le(&b) as u32),
                    "q" => self.jit.emitq(le(&b)),
                    _ => self.jit.emit(&b),
                }
            }
            "pemit" => {
                let b = hexbytes(w[3]);
                let p = &mut self.jit[Page(n(1))];
                match w[2] {
                    "b" => p.emitb(b[0]),
                    "w" => p.emitw(le(&b) as u16),
                    "l" => p.emitl(le(&b) as u32),
                    _ => p.emitq(le(&b)),
                }
            }
            "al" => match n(1) {
                4 => self.jit.align4(),
                8 => self.jit.align8(),
                16 => self.jit.align16(),
                _ => self.jit.align_page(),
            },
            "pal" => {
                let k = n(2);
                let p = &mut self.jit[Page(n(1))];
                match k {
                    4 => p.align4(),
                    8 => p.align8(),
                    16 => p.align16(),
                    _ => p.align_page(),
                }
            }
            "fill" => {
                let to = n(1);
                while self.jit.get_current() + 4096 < to {
                    self.jit.emitb(0);
                    self.jit.align_page();
                }
                while self.jit.get_current() < to {
                    self.jit.emitb(0);
                }
            }
            "skip" => {
                for _ in 0..n(1) {
                    self.jit.emitb(0);
                    self.jit.align_page();
                }
            }
            "st" => {
                let l = self.labs[n(2) - 1];
                stm(&mut self.jit, n(1) - 1, l)
            }
            "pl" => plain(&mut self.jit, n(1) - 1),
            "raw" => {
                let l = self.labs[n(1) - 1];
                self.jit.save_reloc(l, n(2) as u8);
                self.jit.emitl(0);
            }
            "poke" => {
                let (k, p) = (size(n(1)), self.jit.get_page());
                self.jit[Pos::from(k)] = n(2) as u8;
                self.peek(p, k);
            }
            "ppoke" => {
                let (p, k) = (n(1), size(n(2)));
                self.jit[Page(p)][Pos::from(k)] = n(3) as u8;
                self.peek(p, k);
            }
            "peek" => self.peek(n(1), size(n(2))),
            "con" => {
                let l = match w[1] {
                    "u64" => self.jit.const_i64(le(&hexbytes(w[2])) as i64),
                    "f64" => self.jit.const_f64(f64::from_bits(le(&hexbytes(w[2])))),
                    "u32" => self.jit.const_i32(le(&hexbytes(w[2])) as i32),
                    "bytes" => self.jit.constant(size(n(2))),
                    "abs" => {
                        let l = self.labs[n(2) - 1];
                        self.jit.abs_address(l)
                    }
                    _ => self.jit.const_align8(),
                };
                self.item(l);
            }
            "dat" => {
                let l = match w[1] {
                    "u64" => self.jit.data_i64(le(&hexbytes(w[2])) as i64),
                    "u32" => self.jit.data_i32(le(&hexbytes(w[2])) as i32),
                    _ => self.jit.data(size(n(2))),
                };
                self.item(l);
            }
            "fin" => self.jit.finalize(),
            "patch" => {
                let (j, l) = (self.labs[n(1) - 1], self.labs[n(2) - 1]);
                self.jit.apply_jmp_patch(j, l)
            }
            "patcha" => {
                let (j, l) = (self.labs[n(1) - 1], self.labs[n(2) - 1]);
                let a = self.jit.get_label_address(j);
                self.jit.apply_jmp_patch_address(a, l)
            }
            x => panic!("unknown operation {x}"),
        }
    }

    /// Reads the byte at position k of page p in every way there is.
    fn peek(&mut self, p: usize, k: usize) {
        let b = self.jit[Page(p)][Pos::from(k)];
        let real = unsafe { *((self.base[p] + k.min(self.ps - 1)) as *const u8) };
        let mut same = b == real;
        let g = self.jit.get_page();
        if p == g {
            same &= self.jit[Pos::from(k)] == real;
        } else if p < 2 {
            self.jit.select_page(p);
            let b = catch_unwind(AssertUnwindSafe(|| self.jit[Pos::from(k)]));
            self.jit.select_page(g);
            same &= matches!(b, Ok(x) if x == real);
        }
        self.odd |= !same;
    }

    /// Runs one operation and appends the event to `out`.
    pub fn event(
        &mut self,
        words: &str,
        json: &str,
        out: &mut String,
        stm: &dyn Fn(&mut JitMemory, usize, DestLabel),
        plain: &dyn Fn(&mut JitMemory, usize),
    ) {
        let w: Vec<&str> = words.split(' ').collect();
        let nl = self.labs.len();
        let before = [self.jit.get_page(), self.jit.get_current()];
        let at = match w[0] {
            "poke" => before[0] * self.ps + w[1].parse::<usize>().unwrap(),
            "ppoke" => w[1].parse::<usize>().unwrap() * self.ps + w[2].parse::<usize>().unwrap(),
            _ => usize::MAX,
        };
        if at < 3 * self.ps {
            self.watch(at);
        }
        self.odd = false;
        let r = catch_unwind(AssertUnwindSafe(|| self.run(&w, stm, plain))).is_err();
        if r && ["label", "con", "dat"].contains(&w[0]) && self.labs.len() == nl {
            // keep the numbering of later operations in step
            let l = self.jit.label();
            self.push(l);
        }
        let (g, c) = (self.jit.get_page(), self.jit.get_current());
        let mut x: Vec<String> = vec![];
        if self.jit.get_current_address().as_ptr() as usize != self.base[g.min(2)] + c {
            x.push("\"current_address\"".into());
        }
        let _ = write!(out, "{{\"o\":{},\"r\":{},\"g\":{},\"c\":{}", json, r as u8, g, c.min(0x7fff_ffff));
        // blocks
        let _ = write!(out, ",\"bl\":[");
        let mut first = true;
        let mut ends = [0usize; 3];
        for p in 0..3 {
            let b: Vec<(usize, usize, usize)> =
                self.jit[Page(p)].code_block.iter().map(|b| (pos(b.0), pos(b.1), pos(b.2))).collect();
            if b != self.nblocks[p] {
                let old = self.nblocks[p].len();
                if b.len() < old || b[..old] != self.nblocks[p][..] {
                    // an earlier block changed: report an impossible count
                    let _ = write!(out, "{}[{},-1,0,0,0]", if first { "" } else { "," }, p);
                } else {
                    let k = b.last().unwrap();
                    let _ = write!(out, "{}[{},{},{},{},{}]", if first { "" } else { "," }, p, b.len(), k.0, k.1, k.2);
                }
                first = false;
                self.nblocks[p] = b;
            }
            ends[p] = self.nblocks[p].last().map(|b| b.2).unwrap_or(0);
        }
        let _ = write!(out, "]");
        // cursors, slices and dump after a finalization
        let (mut cu, mut sl, mut du) = (String::new(), String::new(), String::from("[[-2,0]]"));
        if w[0] == "fin" || r {
            if self.dump && !r {
                du = self.dump();
            }
            for p in 0..2 {
                self.jit.select_page(p);
                let s = self.jit.as_slice();
                let cc = self.jit.get_current();
                let _ = write!(cu, "{}{}", if p == 0 { "" } else { "," }, cc);
                let _ = write!(sl, "{}[{},{}]", if p == 0 { "" } else { "," }, s.len(),
                    (s.as_ptr() as i64 - self.base[p] as i64).clamp(-1, 0x7fff_ffff));
                self.watch_span(p * self.ps + cc.min(self.ps - 1), p * self.ps + cc.min(self.ps - 1));
            }
            self.jit.select_page(g);
        }
        let _ = write!(out, ",\"cu\":[{}],\"sl\":[{}],\"du\":{}", cu, sl, du);
        // labels
        let _ = write!(out, ",\"la\":[");
        first = true;
        for k in 0..self.poll.len() {
            let i = self.poll[k];
            if i == 0 || i > self.labs.len() {
                continue;
            }
            let l = self.labs[i - 1];
            let jit = &mut self.jit;
            let a = catch_unwind(AssertUnwindSafe(|| jit.get_label_address(l).as_ptr() as usize));
            let a = match a {
                Ok(a) => {
                    let f: extern "C" fn(u64) -> u64 = jit.get_label_addr(l);
                    let f2: extern "C" fn(u64, u64) -> u64 = jit.get_label_addr2(l);
                    if jit.get_label_u64(l) as usize != a || f as usize != a || f2 as usize != a {
                        x.push(format!("{}", i));
                    }
                    self.rel(a)
                }
                Err(_) => -1,
            };
            if a != self.addr[i - 1] {
                let _ = write!(out, "{}[{},{}]", if first { "" } else { "," }, i, a);
                first = false;
                self.addr[i - 1] = a;
                if a >= 0 {
                    self.watch_span(a as usize, a as usize + 40);
                }
            }
        }
        let _ = write!(out, "]");
        // memory
        if before[0] == g && c >= before[1] && c <= self.ps {
            self.watch_span(g * self.ps + before[1], g * self.ps + c);
        }
        for p in 0..3 {
            self.watch_span(p * self.ps + ends[p].min(self.ps - 1), p * self.ps + ends[p].min(self.ps - 1));
        }
        let _ = write!(out, ",\"ch\":[");
        first = true;
        let mut count = 0;
        for (a, old) in self.seen.iter_mut() {
            let now = unsafe { std::slice::from_raw_parts((self.base[0] + *a) as *const u8, CHUNK) };
            if now != &old[..] {
                for k in 0..CHUNK {
                    if now[k] != old[k] && count < 8000 {
                        let _ = write!(out, "{}[{},{}]", if first { "" } else { "," }, a + k, now[k]);
                        first = false;
                        count += 1;
                    }
                }
                old.copy_from_slice(now);
            }
        }
        if self.scan && self.stray() {
            x.push("\"stray\"".into());
        }
        let _ = write!(out, "],\"x\":[{}],\"y\":{}}}", x.join(","), self.odd as u8);
    }

    /// Whether any byte of the pages outside the watched chunks is not zero.
    fn stray(&self) -> bool {
        let all = unsafe { std::slice::from_raw_parts(self.base[0] as *const u64, 3 * self.ps / 8) };
        let n = CHUNK / 8;
        all.chunks(n).enumerate().any(|(k, c)| c.iter().fold(0, |a, b| a | b) != 0 && !self.seen.contains_key(&(k * CHUNK)))
    }

    /// Bytes of the code dump as [position, byte] pairs.
    fn dump(&self) -> String {
        let jit = &self.jit;
        let t = match catch_unwind(AssertUnwindSafe(|| jit.dump_code())) {
            Ok(Ok(t)) => t,
            _ => return "[[-1,0]]".into(),
        };
        let mut s = String::from("[");
        for line in t.lines() {
            let mut f = line.split('\t');
            let (a, b) = (f.next().unwrap_or(""), f.next().unwrap_or(""));
            let a = a.trim().trim_end_matches(':');
            let Ok(a) = usize::from_str_radix(a, 16) else { continue };
            for (k, h) in b.split_whitespace().enumerate() {
                if let Ok(v) = u8::from_str_radix(h, 16) {
                    let _ = write!(s, "{}[{},{}]", if s.len() > 1 { "," } else { "" }, a + k, v);
                }
            }
        }
        s + "]"
    }

    fn release(self) {
        let (b, n) = (self.base[0], self.ps * 3);
        drop(self);
        unsafe { munmap(b as *mut u8, n) };
    }
}

/// Reads scripts from the file `input` and writes one trace line per script.
/// A script whose header starts with "prefix" is run once; the scripts after it continue from
/// its final state, each in a process of its own.
pub fn main_loop(stm: &dyn Fn(&mut JitMemory, usize, DestLabel), plain: &dyn Fn(&mut JitMemory, usize)) {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    // created first, so that nothing of the driver's own can lie behind it
    let mut early = if a.len() > 3 { Some(Sess::new(vec![], false, false)) } else { None };
    if let Some(s) = &mut early {
        s.guard();
    }
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let mut f = std::fs::File::create(&a[2]).unwrap();
    let mut base: Option<(Sess, String)> = None;
    for script in text.split("---\n") {
        if script.is_empty() {
            continue;
        }
        let mut lines = script.lines();
        // header: poll labels, dump flag
        let head = lines.next().unwrap();
        let prefix = head.starts_with("prefix");
        let head: Vec<usize> = head.trim_start_matches("prefix").split_whitespace().map(|x| x.parse().unwrap()).collect();
        let scan = head[0] & 2 == 2;
        let go = |s: &mut Sess, out: &mut String| {
            let mut lines = lines.peekable();
            while let Some(line) = lines.next() {
                s.scan = scan && lines.peek().is_none();
                let (words, json) = line.split_once('\t').unwrap();
                if !out.ends_with('[') {
                    out.push(',');
                }
                s.event(words, json, out, stm, plain);
            }
        };
        if let (Some((s, out)), false) = (&mut base, prefix) {
            let pid = unsafe { fork() };
            assert!(pid >= 0);
            if pid == 0 {
                s.poll = head[1..].to_vec();
                go(s, out);
                out.push_str("]}\n");
                f.write_all(out.as_bytes()).unwrap();
                unsafe { _exit(0) };
            }
            let mut st = 0;
            unsafe { waitpid(pid, &mut st, 0) };
            if st != 0 {
                eprintln!("child status {st}");
                std::process::exit(9);
            }
            continue;
        }
        let mut s = if prefix { early.take().unwrap() } else { Sess::new(head[1..].to_vec(), head[0] & 1 == 1, head[0] & 4 == 4) };
        let b = (s.base[0] as u64).to_le_bytes();
        let mut out = format!("{{\"b\":{:?},\"ps\":{},\"d\":{},\"ev\":[", b, s.ps, s.dirty as u8);
        go(&mut s, &mut out);
        if prefix {
            base = Some((s, out));
            continue;
        }
        out.push_str("]}\n");
        f.write_all(out.as_bytes()).unwrap();
        s.release();
    }
}
