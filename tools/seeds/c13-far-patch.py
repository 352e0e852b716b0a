prop = 'C13'
needs = 'a patch over more than 16 MiB'
breaks = 'only three bytes of the displacement are replaced when its sign does not change'
edits = [('monoasm/src/jit_memory.rs', '        unsafe { *(patch_point.as_ptr().add(1) as *mut [u8; 4]) = (offset as i32).to_ne_bytes() };', '        unsafe {\n            let field = patch_point.as_ptr().add(1) as *mut [u8; 4];\n            let [a, b, c, d] = (offset as i32).to_ne_bytes();\n            *field = [a, b, c, if ((*field)[3] ^ d) & 0x80 == 0 { (*field)[3] } else { d }];\n        };')]
demo = '''
    let mut jit = JitMemory::new();
    let (f, g, h) = (jit.label(), jit.label(), jit.label());
    monoasm!( &mut jit, f: jmp g; g: ret; );
    jit.select_page(1);
    monoasm!( &mut jit, h: ret; );
    jit.select_page(0);
    jit.finalize();
    jit.apply_jmp_patch(f, h);
    let d = i32::from_le_bytes(jit.as_slice()[1..5].try_into().unwrap());
    assert_eq!(d as i64, jit.get_label_address(h) - jit.get_label_address(f) - 5);
'''
