prop = 'C09'
needs = 'a reference from one page to a label on the other'
breaks = "the distance is computed as if both were on the label's page"
edits = [('monoasm/src/jit_memory.rs', 'let target_ptr = self[page].contents + pos.0 + (offset as usize);', 'let from = if src_page == DATA_PAGE { page } else { src_page };\n                            let target_ptr = self[from].contents + pos.0 + (offset as usize);')]
demo = '''
    let mut jit = JitMemory::new();
    let l = jit.label();
    let f = jit.label();
    monoasm!( &mut jit, f: jmp l; );
    jit.select_page(1);
    monoasm!( &mut jit, l: movq rax, 42; ret; );
    jit.finalize();
    let a = jit.get_label_address(f).as_ptr();
    let d = unsafe { (a.add(1) as *const i32).read_unaligned() } as i64;
    assert_eq!(a as i64 + 5 + d, jit.get_label_address(l).as_ptr() as i64);
'''
