prop = "C17"
needs = "testq/testb with an immediate on exactly r8 (the register whose low encoding bits are those of rax)"
breaks = "the short rax form is used for r8, so the flags are those of rax"
edits = [("monoasm/src/lib.rs", """    pub fn is_rax(&self) -> bool {
        self == &Self::rax()
    }""", """    pub fn is_rax(&self) -> bool {
        self.0 & 0b111 == 0
    }""")]
demo = '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    monoasm!( &mut jit,
    f:
        movq r8, rdi;
        movq rax, 0;
        testq r8, 0xff;
        setne rax;
        ret;
    );
    jit.finalize();
    let f: extern "C" fn(u64) -> u64 = jit.get_label_addr(f);
    assert_eq!(f(1), 1);
    assert_eq!(f(256), 0);
'''
