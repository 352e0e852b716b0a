prop = 'C08'
needs = 'a build without debug assertions and a register number that is only known at run time'
breaks = 'in an optimized build the instruction pointer is accepted where a general register is needed and encoded as another register'
release = True
edits = [('monoasm/src/jit_memory.rs', '    pub fn enc_rexw_o(&mut self, op: u8, reg: Reg) {\n        assert!', '    pub fn enc_rexw_o(&mut self, op: u8, reg: Reg) {\n        debug_assert!')]
demo = '''
    let n = std::hint::black_box(16u64);
    let r = std::panic::catch_unwind(|| {
        let mut jit = JitMemory::new();
        monoasm!( &mut jit, xchgq rax, R(n); );
    });
    assert!(r.is_err());
'''
