prop = 'C19'
needs = 'a jump to the label bound directly after it in the same block'
breaks = 'the jump is dropped as redundant, so the block has fewer statements than its source and the slot that is patched later is not there'
edits = [('monoasm_macro/src/inst.rs', '            stmts.contents.push(inst);\n', '''            if let (Some(Inst::Jmp(Dest::Rel(dest))), Inst::Label(label)) =
                (stmts.contents.last(), &inst)
            {
                if dest == label {
                    stmts.contents.pop();
                }
            }
            stmts.contents.push(inst);
''')]
demo = '''
    let mut jit = JitMemory::new();
    let l = jit.label();
    let start = jit.get_current_address();
    monoasm!( &mut jit,
        cdq;
        jmp l;
    l:
        ret;
    );
    jit.finalize();
    assert_eq!(jit.get_current_address() - start, 7);
'''
