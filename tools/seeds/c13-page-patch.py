prop = 'C13'
needs = 'a jump on one page patched to a label on the other'
breaks = 'the displacement is computed from positions within the pages'
edits = [('monoasm/src/jit_memory.rs', '        let patch_point = self.get_label_address(patch_point);\n        self.apply_jmp_patch_address(patch_point, jmp_dest);', '        let (_, from) = self.get_label_pos(patch_point);\n        let (_, to) = self.get_label_pos(jmp_dest);\n        let patch_point = self.get_label_address(patch_point);\n        let offset = to.0 as i64 - from.0 as i64 - 5;\n        unsafe { *(patch_point.as_ptr().add(1) as *mut [u8; 4]) = (offset as i32).to_ne_bytes() };')]
demo = '''
    let mut jit = JitMemory::new();
    let (j, a, b) = (jit.label(), jit.label(), jit.label());
    monoasm!( &mut jit, a: ret; j: jmp a; );
    jit.select_page(1);
    monoasm!( &mut jit, b: ret; );
    jit.finalize();
    jit.apply_jmp_patch(j, b);
    let p = jit.get_label_address(j).as_ptr();
    let d = unsafe { (p.add(1) as *const i32).read_unaligned() } as i64;
    assert_eq!(p as i64 + 5 + d, jit.get_label_u64(b) as i64);
'''
