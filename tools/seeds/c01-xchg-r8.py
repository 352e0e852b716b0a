prop = "C01"
needs = "xchgq between rax and an extended register"
breaks = "xchgq rax, r8 is taken for xchg rax, rax (nop) because only the low register bits are compared"
edits = [("monoasm/src/lib.rs", """    pub fn is_rax(&self) -> bool {
        self == &Self::rax()""", """    pub fn is_rax(&self) -> bool {
        self.0 & 0b111 == Self::rax().0""")]
demo = '''
    let mut jit = JitMemory::new();
    monoasm!( &mut jit, testq r8, 5; );
    jit.finalize();
    assert_eq!(jit.as_slice(), &[0x49, 0xf7, 0xc0, 5, 0, 0, 0]);
'''
