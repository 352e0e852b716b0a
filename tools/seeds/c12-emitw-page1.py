prop = 'C12'
needs = 'alignment of page 1 while page 0 is selected'
breaks = 'align16 through a page index moves only when that page has code in the open block'
edits = [('monoasm/src/jit_memory.rs', '    pub fn align16(&mut self) {\n        self.counter = Pos((self.counter.0 + 15) & !0b1111);', '    pub fn align16(&mut self) {\n        if self.counter == self.code_block_top && self.code_len > 0 {\n            return self.align8();\n        }\n        self.counter = Pos((self.counter.0 + 15) & !0b1111);')]
demo = '''
    let mut jit = JitMemory::new();
    jit.emitq(1);
    jit.finalize();
    jit.align16();
    assert_eq!(jit.get_current(), 16);
'''
