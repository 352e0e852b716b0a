prop = 'C08'
needs = 'a shift whose count register is r9 (the register whose low bits are those of rcx)'
breaks = 'shlq rax, r9 is assembled as a shift by cl'
edits = [('monoasm/src/lib.rs', '        self == &Self::rcx()', '        self.0 & 0b111 == 1')]
demo = '''
    let ok = std::panic::catch_unwind(|| {
        let mut jit = JitMemory::new();
        monoasm!( &mut jit, shlq rax, r9; );
    }).is_ok();
    assert!(!ok);
'''
