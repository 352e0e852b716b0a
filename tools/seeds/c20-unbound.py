prop = 'C20'
needs = 'asking for the address of a label that is not bound yet'
breaks = 'an unbound label gets the address of the cursor instead of a panic'
edits = [('monoasm/src/jit_memory.rs', '''    fn get_label_pos(&self, label: DestLabel) -> (Page, Pos) {
        self.labels[label]
            .loc
            .expect("The DestLabel has no position binding.")
''', '''    fn get_label_pos(&self, label: DestLabel) -> (Page, Pos) {
        self.labels[label].loc.unwrap_or((self.page, self.counter))
''')]
demo = '''
    let mut jit = JitMemory::new();
    let l = jit.label();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| jit.get_label_address(l)));
    assert!(r.is_err());
'''
