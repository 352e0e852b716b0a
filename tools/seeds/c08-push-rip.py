prop = 'C08'
needs = 'rip as a plain register operand of a one-register form'
breaks = 'pushq R(16) and friends are assembled as if rax had been written'
edits = [('monoasm/src/jit_memory.rs', '    pub fn enc_o(&mut self, op: u8, reg: Reg) {\n        assert!(!reg.is_rip());', '    pub fn enc_o(&mut self, op: u8, reg: Reg) {\n        debug_assert!(reg.0 <= 16);')]
demo = '''
    let ok = std::panic::catch_unwind(|| {
        let mut jit = JitMemory::new();
        monoasm!( &mut jit, pushq R(16); );
    }).is_ok();
    assert!(!ok);
'''
