prop = 'C14'
needs = 'a code dump of a second round on a page with constants'
breaks = "the dump starts at the previous block's code end, so it lists the constants in between as code"
edits = [('monoasm/src/jit_memory.rs', '        file.write_all(&asm[start_pos.0..code_end.0]).unwrap();', '        let start_pos = match self.code_block.len() {\n            n if n > 2 => &self.code_block[n - 2].1,\n            _ => start_pos,\n        };\n        file.write_all(&asm[start_pos.0..code_end.0]).unwrap();')]
demo = '''
    let mut jit = JitMemory::new();
    for _ in 0..3 {
        let _ = jit.const_i64(0x0101010101010101);
        monoasm!( &mut jit, ret; );
        jit.finalize();
    }
    let d = jit.dump_code().unwrap();
    assert_eq!(d.lines().count(), 1, "{d}");
'''
