prop = 'C10'
needs = 'a byte block placed over memory that is not zero (bytes poked through jit[Page(..)][Pos], or an allocator that hands out used memory)'
breaks = 'byte blocks only reserve their space and no longer write zeros'
edits = [('monoasm/src/jit_memory.rs', '                        self.bind_label_with_page(Page(id), const_label);\n                        for _ in 0..size {\n                            self[Page(id)].emitb(0);\n                        }', '                        self.bind_label_with_page(Page(id), const_label);\n                        // fresh pages are zero already: only the last byte decides whether it fits\n                        for k in size.saturating_sub(1)..size {\n                            let top = self[Page(id)].counter.0;\n                            self[Page(id)].counter = Pos(top + k);\n                            self[Page(id)].emitb(0);\n                        }')]
demo = '''
    let mut jit = JitMemory::new();
    for k in 0..64 {
        jit[Page(0)][Pos::from(k)] = 0x77;
    }
    monoasm!( &mut jit, ret; );
    let c = jit.constant(16);
    jit.finalize();
    let p = jit.get_label_address(c).as_ptr();
    for k in 0..16 {
        assert_eq!(unsafe { *p.add(k) }, 0);
    }
'''
