prop = 'C10'
needs = 'an absolute-address constant of page 1 placed while page 0 is selected (or the reverse)'
breaks = "the address is stored at the selected page's position instead of the constant's"
edits = [('monoasm/src/jit_memory.rs', '        let pos = self[page].counter;\n        self.check_room(page, 8);', '        let pos = self.counter;\n        self.check_room(page, 8);')]
demo = '''
    let mut jit = JitMemory::new();
    let l = jit.label();
    jit.select_page(1);
    monoasm!( &mut jit, l: ret; );
    let a = jit.abs_address(l);
    jit.select_page(0);
    monoasm!( &mut jit, ret; ret; ret; );
    jit.finalize();
    let v = unsafe { *(jit.get_label_address(a).as_ptr() as *const u64) };
    assert_eq!(v, jit.get_label_u64(l));
'''
