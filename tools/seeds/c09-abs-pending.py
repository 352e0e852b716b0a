prop = 'C09'
needs = 'an absolute-address constant placed before its label is bound'
breaks = "the reference is dropped when its label is unbound at the constant's finalization"
edits = [('monoasm/src/jit_memory.rs', '        self.labels = reloc;\n    }', '        for rel in reloc.iter_mut() {\n            rel.target.retain(|t| matches!(t, TargetType::Rel { .. }));\n        }\n        self.labels = reloc;\n    }')]
demo = '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    let c = jit.abs_address(f);
    jit.finalize();
    monoasm!( &mut jit, f: ret; );
    jit.finalize();
    let v = unsafe { *(jit.get_label_u64(c) as *const u64) };
    assert_eq!(v, jit.get_label_u64(f));
'''
