prop = 'C20'
needs = 'asking for the two-argument function of a label that is not on the selected page'
breaks = 'the function pointer is computed in the selected page instead of the label\'s'
edits = [('monoasm/src/jit_memory.rs', '''    pub fn get_label_addr2<S, T, U>(&mut self, label: DestLabel) -> extern "C" fn(S, T) -> U {
        let (page, counter) = self.labels[label]
            .loc
            .expect("The DestLabel has no position binding.");
        let adr = self[page].contents();
''', '''    pub fn get_label_addr2<S, T, U>(&mut self, label: DestLabel) -> extern "C" fn(S, T) -> U {
        let (_, counter) = self.labels[label]
            .loc
            .expect("The DestLabel has no position binding.");
        let adr = self.contents();
''')]
demo = '''
    let mut jit = JitMemory::new();
    let l = jit.label();
    monoasm!( &mut jit,
    l:
        movq rax, rdi;
        addq rax, rsi;
        ret;
    );
    jit.finalize();
    jit.select_page(1);
    let f = jit.get_label_addr2::<u64, u64, u64>(l);
    assert_eq!(f as usize, jit.get_label_u64(l) as usize);
    assert_eq!(f(3, 4), 7);
'''
