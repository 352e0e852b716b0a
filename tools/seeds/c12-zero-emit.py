prop = 'C12'
needs = 'a zero byte emitted where memory is not zero'
breaks = 'emitting a zero byte only advances the cursor'
edits = [('monoasm/src/jit_memory.rs', '    pub fn emitb(&mut self, val: u8) {\n        let c = self.counter;\n        self[c] = val;', '    pub fn emitb(&mut self, val: u8) {\n        let c = self.counter;\n        let cell = &mut self[c];\n        if val != 0 {\n            *cell = val;\n        }')]
demo = '''
    let mut jit = JitMemory::new();
    jit[Pos::from(0)] = 0xcc;
    jit.emitb(0);
    assert_eq!(jit[Pos::from(0)], 0);
'''
