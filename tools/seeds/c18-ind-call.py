prop = "C18"
needs = "an indirect call or jump through memory whose base register is r8..r15 together with an index register below r8"
breaks = "the REX prefix is left out when an indexed operand has an extended base, so the transfer goes through the wrong memory"
edits = [("monoasm/src/jit_memory.rs", """    fn rex_none(&mut self, reg: Reg, base: Reg, index: Reg, mode: Mode) {
        if reg.0 > 7 || base.0 > 7 || index.0 > 7 {""", """    fn rex_none(&mut self, reg: Reg, base: Reg, index: Reg, mode: Mode) {
        let ext = match mode {
            Mode::Ind(Scale::S1(..), _) if reg.0 == 0 => index.0 > 7,
            _ => base.0 > 7,
        };
        if reg.0 > 7 || ext || index.0 > 7 {""")]
demo = '''
    let mut jit = JitMemory::new();
    let (f, g) = (jit.label(), jit.label());
    monoasm!( &mut jit,
    f:
        movq r9, rdi;
        lea rcx, [rip + g];
        movq [r9 + 8], rcx;
        movq rdx, 1;
        lea rcx, [rdi - 64];
        call [r9 + rdx * 8];
        ret;
    g:
        movq rax, 9;
        ret;
    );
    jit.finalize();
    let f: extern "C" fn(*mut u64) -> u64 = jit.get_label_addr(f);
    let mut a = [0u64; 4];
    assert_eq!(f(a.as_mut_ptr()), 9);
'''
