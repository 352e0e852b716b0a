prop = 'C16'
needs = 'a jump patched after finalization, code emitted near it afterwards'
breaks = 'patching a jump leaves its memory read-only'
edits = [('monoasm/src/jit_memory.rs', '''        unsafe { *(patch_point.as_ptr().add(1) as *mut [u8; 4]) = (offset as i32).to_ne_bytes() };
''', '''        unsafe {
            let p = patch_point.as_ptr();
            protect(p, 5, Protection::READ_WRITE_EXECUTE).expect("Mprotect failed.");
            *(p.add(1) as *mut [u8; 4]) = (offset as i32).to_ne_bytes();
            protect(p, 5, Protection::READ_EXECUTE).expect("Mprotect failed.");
        };
''')]
demo = '''
    let mut jit = JitMemory::new();
    let (a, b) = (jit.label(), jit.label());
    monoasm!(&mut jit,
    a:  jmp b;
        movq rax, 1;
    b:  ret;
    );
    jit.finalize();
    jit.apply_jmp_patch(a, b);
    monoasm!(&mut jit, ret;);
    jit.finalize();
'''
