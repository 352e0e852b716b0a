prop = 'C09'
needs = 'a backward jump to a bound label 127 or 128 bytes before the jump'
breaks = 'the short form of a backward jump is chosen two bytes too far, so its displacement wraps around'
edits = [('monoasm/src/jit_memory.rs', '''    pub fn enc_d(&mut self, op: &[u8], dest: DestLabel) {
''', '''    pub fn enc_d(&mut self, op: &[u8], dest: DestLabel) {
        // A loop: the label lies behind us and the short form reaches it.
        if op == [0xe9] {
            if let Some((page, pos)) = self.labels[dest].loc {
                let back = self.counter.0.wrapping_sub(pos.0);
                if page == self.page && (64..=128).contains(&back) {
                    self.emit(&[0xeb, (-(back as i64) - 2) as u8]);
                    return;
                }
            }
        }
''')]
demo = '''
    let mut jit = JitMemory::new();
    let (f, l) = (jit.label(), jit.label());
    monoasm!(&mut jit,
    l:
        movq rax, 7;
        ret;
    );
    while jit.get_current() < 127 {
        jit.emitb(0xc3);
    }
    monoasm!(&mut jit,
    f:
        jmp l;
    );
    for _ in 0..256 {
        jit.emitb(0xc3);
    }
    jit.finalize();
    let f: extern "C" fn(u64) -> u64 = jit.get_label_addr(f);
    assert_eq!(f(1), 7);
'''
