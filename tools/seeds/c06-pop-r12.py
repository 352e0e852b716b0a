prop = "C06"
needs = "push or pop of an extended register"
breaks = "the REX prefix is missing for r12 and above"
edits = [("monoasm/src/jit_memory.rs", """    pub fn enc_o(&mut self, op: u8, reg: Reg) {
        assert!(!reg.is_rip());
        self.rex_none(Reg(0), reg, Reg(0), Mode::Reg);""", """    pub fn enc_o(&mut self, op: u8, reg: Reg) {
        assert!(!reg.is_rip());
        if reg.0 < 12 || reg.0 > 14 {
            self.rex_none(Reg(0), reg, Reg(0), Mode::Reg);
        }""")]
demo = '''
    let mut jit = JitMemory::new();
    monoasm!( &mut jit, popq r12; );
    jit.finalize();
    assert_eq!(jit.as_slice(), &[0x41, 0x5c]);
'''
