prop = 'C16'
needs = 'running code of page 1'
breaks = 'only the first code page is executable'
edits = [('monoasm/src/jit_memory.rs', '            protect(contents, PAGE_SIZE * 2, Protection::READ_WRITE_EXECUTE)\n                .expect("Mprotect failed.");\n            protect(\n                contents.add(PAGE_SIZE * 2),\n                PAGE_SIZE,\n                Protection::READ_WRITE,\n            )', '            protect(contents, PAGE_SIZE, Protection::READ_WRITE_EXECUTE)\n                .expect("Mprotect failed.");\n            protect(\n                contents.add(PAGE_SIZE),\n                PAGE_SIZE * 2,\n                Protection::READ_WRITE,\n            )')]
demo = '''
    let mut jit = JitMemory::new();
    jit.select_page(1);
    let l = jit.label();
    monoasm!( &mut jit, l: movq rax, 42; ret; );
    jit.finalize();
    let f: extern "C" fn(u64) -> u64 = jit.get_label_addr(l);
    assert_eq!(f(0), 42);
'''
