prop = 'C13'
needs = 'patching by address while the other page is selected'
breaks = 'the displacement is taken relative to the selected page'
edits = [('monoasm/src/jit_memory.rs', '        let offset = jmp_dest - patch_point - 5;', '        let top = CodePtr::from(self.contents());\n        let offset = if jmp_dest < top { (top - patch_point) - (top - jmp_dest) - 4 } else { jmp_dest - patch_point - 5 };')]
demo = '''
    let mut jit = JitMemory::new();
    let (f, g, h) = (jit.label(), jit.label(), jit.label());
    monoasm!( &mut jit, h: ret; f: jmp h; );
    jit.select_page(1);
    monoasm!( &mut jit, g: ret; );
    jit.finalize();
    jit.apply_jmp_patch(f, h);
    jit.select_page(0);
    let d = i32::from_le_bytes(jit.as_slice()[2..6].try_into().unwrap());
    assert_eq!(d, -6);
'''
