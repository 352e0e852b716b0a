prop = 'C09'
needs = 'a label used before a finalization and bound after it'
breaks = 'references to labels that are not bound yet are dropped by finalize'
edits = [('monoasm/src/jit_memory.rs', '            if let Some((src_page, src_pos)) = rel.loc {\n                let src_ptr = self[src_page].contents + src_pos.0;\n                for target in std::mem::take(&mut rel.target) {', '            let targets = std::mem::take(&mut rel.target);\n            if let Some((src_page, src_pos)) = rel.loc {\n                let src_ptr = self[src_page].contents + src_pos.0;\n                for target in targets {')]
demo = '''
    let mut jit = JitMemory::new();
    let l = jit.label();
    monoasm!( &mut jit, jmp l; );
    jit.finalize();
    monoasm!( &mut jit, ret; ret; l: ret; );
    jit.finalize();
    assert_eq!(&jit.as_slice()[..5], &[0xe9, 2, 0, 0, 0]);
'''
