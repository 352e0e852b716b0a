prop = 'C14'
needs = 'a finalization round in which a page got no new code but earlier had constants'
breaks = 'the code slice of a page without new code keeps its old length'
edits = [('monoasm/src/jit_memory.rs', '            page.code_len = page.counter.0;', '            if page.counter != start_pos {\n                page.code_len = page.counter.0;\n            }')]
demo = '''
    let mut jit = JitMemory::new();
    monoasm!( &mut jit, ret; );
    jit.const_i64(5);
    jit.finalize();
    let n = jit.get_current();
    jit.finalize();
    assert_eq!(jit.as_slice().len(), n);
'''
