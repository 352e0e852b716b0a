prop = 'C12'
needs = 'binding a label on a page that is not selected'
breaks = "the selected page's cursor is used"
edits = [('monoasm/src/jit_memory.rs', 'self.labels[label].loc = Some((page, self[page].counter));', 'self.labels[label].loc = Some((page, self.counter));')]
demo = '''
    let mut jit = JitMemory::new();
    let l = jit.label();
    let z = jit.get_current_address().as_ptr() as u64;
    jit.emitq(1);
    jit.bind_label_with_page(Page(1), l);
    jit.select_page(1);
    assert_eq!(jit.get_label_u64(l), jit.get_current_address().as_ptr() as u64);
    let _ = z;
'''
