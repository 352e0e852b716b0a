prop = 'C11'
needs = 'a patched jump and a later finalization'
breaks = 'references are resolved again on every finalization, undoing patches'
edits = [('monoasm/src/jit_memory.rs', 'for target in std::mem::take(&mut rel.target) {', 'for target in rel.target.clone() {')]
demo = '''
    let mut jit = JitMemory::new();
    let (j, a, b) = (jit.label(), jit.label(), jit.label());
    monoasm!( &mut jit, j: jmp a; a: ret; b: ret; );
    jit.finalize();
    jit.apply_jmp_patch(j, b);
    monoasm!( &mut jit, ret; );
    jit.finalize();
    assert_eq!(&jit.as_slice()[..5], &[0xe9, 1, 0, 0, 0]);
'''
