prop = 'C12'
needs = 'align8 at a position that is already aligned'
breaks = 'the cursor moves although it is aligned'
edits = [('monoasm/src/jit_memory.rs', 'self.counter = Pos((self.counter.0 + 7) & !0b111);', 'self.counter = Pos((self.counter.0 & !0b111) + 8);')]
demo = '''
    let mut jit = JitMemory::new();
    jit.emitq(1);
    jit.align8();
    assert_eq!(jit.get_current(), 8);
'''
