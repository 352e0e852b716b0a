prop = "C03"
needs = "a 16-bit immediate instruction on memory or register with a negative immediate below -128"
breaks = "the sign bit of a 16-bit immediate is lost"
edits = [("monoasm/src/jit_memory.rs", """            Imm::W(w) => self.emitw(w as u16),""", """            Imm::W(w) => self.emitw(w.unsigned_abs().wrapping_mul(w.signum() as u16) & 0x7fff | (w as u16 & 0x8000) >> (w == -0x8000) as u16),""")]
demo = '''
    let mut jit = JitMemory::new();
    monoasm!( &mut jit, addw rcx, (-32768); );
    jit.finalize();
    assert_eq!(jit.as_slice(), &[0x66, 0x81, 0xc1, 0, 0x80]);
'''
