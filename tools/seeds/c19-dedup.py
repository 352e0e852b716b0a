prop = 'C19'
needs = 'the same sign extension twice in a row'
breaks = 'a statement written twice in a row is assembled once'
edits = [('monoasm_macro/src/inst.rs', '            stmts.contents.push(inst);\n', '''            match (stmts.contents.last(), &inst) {
                // Sign extension is idempotent.
                (Some(Inst::Cqo), Inst::Cqo) | (Some(Inst::Cdq), Inst::Cdq) => continue,
                _ => {}
            }
            stmts.contents.push(inst);
''')]
demo = '''
    let mut jit = JitMemory::new();
    let start = jit.get_current_address();
    monoasm!( &mut jit,
        cdq;
        cdq;
        cqo;
        cqo;
        ret;
    );
    jit.finalize();
    assert_eq!(jit.get_current_address() - start, 7);
'''
