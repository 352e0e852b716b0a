prop = 'C13'
needs = 'a jump retargeted from a far label to a near one'
breaks = 'only the low byte of a small displacement is written'
edits = [('monoasm/src/jit_memory.rs', '        unsafe { *(patch_point.as_ptr().add(1) as *mut [u8; 4]) = (offset as i32).to_ne_bytes() };', '        match i8::try_from(offset) {\n            Ok(o) if o >= 0 => unsafe { *patch_point.as_ptr().add(1) = o as u8 },\n            _ => unsafe {\n                *(patch_point.as_ptr().add(1) as *mut [u8; 4]) = (offset as i32).to_ne_bytes()\n            },\n        }')]
demo = '''
    let mut jit = JitMemory::new();
    let (j, a, b) = (jit.label(), jit.label(), jit.label());
    monoasm!( &mut jit, a: ret; j: jmp a; b: ret; );
    jit.finalize();
    jit.apply_jmp_patch(j, b);
    assert_eq!(&jit.as_slice()[1..6], &[0xe9, 0, 0, 0, 0]);
'''
