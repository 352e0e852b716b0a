//! Runs generated code with every register, flag and xmm register under control.
#![allow(dead_code, static_mut_refs)]
use std::arch::global_asm;

#[repr(C, align(16))]
#[derive(Clone, Copy)]
pub struct Ctx {
    pub r: [u64; 16],
    pub x: [[u8; 16]; 16],
    pub flags: u64,
    pub target: u64,
    pub host_rsp: u64,
    /// which exit was taken
    pub exit: u64,
}
impl Ctx {
    pub fn zero() -> Self {
        Ctx { r: [0; 16], x: [[0; 16]; 16], flags: 2, target: 0, host_rsp: 0, exit: 0 }
    }
}

#[no_mangle]
pub static mut VERIF_CTX: Ctx =
    Ctx { r: [0; 16], x: [[0; 16]; 16], flags: 2, target: 0, host_rsp: 0, exit: 0 };

// Offsets: r 0, x 128, flags 384, target 392, host_rsp 400, exit 408.
// Nothing here uses the guest's stack; mov does not touch the flags.
global_asm!(
    ".globl verif_enter",
    "verif_enter:",
    "push rbx", "push rbp", "push r12", "push r13", "push r14", "push r15",
    "mov [rip + VERIF_CTX + 400], rsp",
    "movaps xmm0, [rip + VERIF_CTX + 128]", "movaps xmm1, [rip + VERIF_CTX + 144]",
    "movaps xmm2, [rip + VERIF_CTX + 160]", "movaps xmm3, [rip + VERIF_CTX + 176]",
    "movaps xmm4, [rip + VERIF_CTX + 192]", "movaps xmm5, [rip + VERIF_CTX + 208]",
    "movaps xmm6, [rip + VERIF_CTX + 224]", "movaps xmm7, [rip + VERIF_CTX + 240]",
    "movaps xmm8, [rip + VERIF_CTX + 256]", "movaps xmm9, [rip + VERIF_CTX + 272]",
    "movaps xmm10, [rip + VERIF_CTX + 288]", "movaps xmm11, [rip + VERIF_CTX + 304]",
    "movaps xmm12, [rip + VERIF_CTX + 320]", "movaps xmm13, [rip + VERIF_CTX + 336]",
    "movaps xmm14, [rip + VERIF_CTX + 352]", "movaps xmm15, [rip + VERIF_CTX + 368]",
    "push qword ptr [rip + VERIF_CTX + 384]",
    "popfq",
    "mov rax, [rip + VERIF_CTX + 0]", "mov rcx, [rip + VERIF_CTX + 8]",
    "mov rdx, [rip + VERIF_CTX + 16]", "mov rbx, [rip + VERIF_CTX + 24]",
    "mov rbp, [rip + VERIF_CTX + 40]", "mov rsi, [rip + VERIF_CTX + 48]",
    "mov rdi, [rip + VERIF_CTX + 56]", "mov r8, [rip + VERIF_CTX + 64]",
    "mov r9, [rip + VERIF_CTX + 72]", "mov r10, [rip + VERIF_CTX + 80]",
    "mov r11, [rip + VERIF_CTX + 88]", "mov r12, [rip + VERIF_CTX + 96]",
    "mov r13, [rip + VERIF_CTX + 104]", "mov r14, [rip + VERIF_CTX + 112]",
    "mov r15, [rip + VERIF_CTX + 120]", "mov rsp, [rip + VERIF_CTX + 32]",
    "jmp [rip + VERIF_CTX + 392]",
    ".globl verif_exit0",
    "verif_exit0:",
    "mov qword ptr [rip + VERIF_CTX + 408], 0",
    "jmp 2f",
    ".globl verif_exit1",
    "verif_exit1:",
    "mov qword ptr [rip + VERIF_CTX + 408], 1",
    "2:",
    "mov [rip + VERIF_CTX + 0], rax", "mov [rip + VERIF_CTX + 8], rcx",
    "mov [rip + VERIF_CTX + 16], rdx", "mov [rip + VERIF_CTX + 24], rbx",
    "mov [rip + VERIF_CTX + 32], rsp", "mov [rip + VERIF_CTX + 40], rbp",
    "mov [rip + VERIF_CTX + 48], rsi", "mov [rip + VERIF_CTX + 56], rdi",
    "mov [rip + VERIF_CTX + 64], r8", "mov [rip + VERIF_CTX + 72], r9",
    "mov [rip + VERIF_CTX + 80], r10", "mov [rip + VERIF_CTX + 88], r11",
    "mov [rip + VERIF_CTX + 96], r12", "mov [rip + VERIF_CTX + 104], r13",
    "mov [rip + VERIF_CTX + 112], r14", "mov [rip + VERIF_CTX + 120], r15",
    "mov rsp, [rip + VERIF_CTX + 400]",
    "pushfq",
    "pop qword ptr [rip + VERIF_CTX + 384]",
    "cld",
    "movaps [rip + VERIF_CTX + 128], xmm0", "movaps [rip + VERIF_CTX + 144], xmm1",
    "movaps [rip + VERIF_CTX + 160], xmm2", "movaps [rip + VERIF_CTX + 176], xmm3",
    "movaps [rip + VERIF_CTX + 192], xmm4", "movaps [rip + VERIF_CTX + 208], xmm5",
    "movaps [rip + VERIF_CTX + 224], xmm6", "movaps [rip + VERIF_CTX + 240], xmm7",
    "movaps [rip + VERIF_CTX + 256], xmm8", "movaps [rip + VERIF_CTX + 272], xmm9",
    "movaps [rip + VERIF_CTX + 288], xmm10", "movaps [rip + VERIF_CTX + 304], xmm11",
    "movaps [rip + VERIF_CTX + 320], xmm12", "movaps [rip + VERIF_CTX + 336], xmm13",
    "movaps [rip + VERIF_CTX + 352], xmm14", "movaps [rip + VERIF_CTX + 368], xmm15",
    "pop r15", "pop r14", "pop r13", "pop r12", "pop rbp", "pop rbx",
    "ret",
);
extern "C" {
    fn verif_enter();
    fn verif_exit0();
    fn verif_exit1();
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn _exit(c: i32) -> !;
}

/// Runs code at `target` from state `c`; returns the state at its exit.
pub fn run(c: &Ctx, target: usize) -> Ctx {
    unsafe {
        VERIF_CTX = *c;
        VERIF_CTX.target = target as u64;
        std::sync::atomic::compiler_fence(std::sync::atomic::Ordering::SeqCst);
        verif_enter();
        std::sync::atomic::compiler_fence(std::sync::atomic::Ordering::SeqCst);
        VERIF_CTX
    }
}

/// An absolute jump to exit `n`: jmp [rip + 0]; address.
pub fn exit_jump(n: usize) -> [u8; 14] {
    let mut b = [0xff, 0x25, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    let a = if n == 0 { verif_exit0 as usize } else { verif_exit1 as usize };
    b[6..].copy_from_slice(&(a as u64).to_le_bytes());
    b
}

pub const FLAG_BITS: [(&str, u32); 5] = [("cf", 0), ("pf", 2), ("zf", 6), ("sf", 7), ("of", 11)];
pub fn flag_vec(f: u64) -> [u64; 5] {
    FLAG_BITS.map(|(_, b)| f >> b & 1)
}

/// Anonymous memory at a fixed low address.
pub fn map_at(addr: usize, n: usize) -> *mut u8 {
    // PROT_READ|WRITE, MAP_PRIVATE|ANONYMOUS|FIXED_NOREPLACE
    let p = unsafe { mmap(addr as *mut u8, n, 3, 0x2 | 0x20 | 0x100000, -1, 0) };
    assert!(p as usize == addr, "cannot map the scratch window");
    p
}

/// Runs `f` in a child process; Some(0) if it came back, otherwise how it ended.
pub fn contained<F: FnOnce()>(secs: u32, f: F) -> i32 {
    unsafe {
        let pid = fork();
        assert!(pid >= 0);
        if pid == 0 {
            alarm(secs);
            f();
            _exit(0);
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        st
    }
}
