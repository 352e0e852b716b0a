prop = 'C03'
needs = 'an 8-bit arithmetic immediate on al next to an 8-bit one on another register, negative'
breaks = 'negative immediates of the short al form lose their sign bit'
edits = [('monoasm/src/jit_memory.rs', '            Imm::B(b) => self.emitb(b as u8),', '            Imm::B(b) => self.emitb(b.unsigned_abs().min(127).wrapping_mul(if b < 0 { 255 } else { 1 })),')]
demo = '''
    let mut jit = JitMemory::new();
    monoasm!( &mut jit, addb rcx, (-128); );
    jit.finalize();
    assert_eq!(jit.as_slice().last(), Some(&0x80));
'''
