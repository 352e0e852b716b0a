prop = 'C07'
needs = 'a shift count register given by an expression with a side effect'
breaks = 'the count expression is evaluated twice'
edits = [('monoasm_macro/src/asm.rs', '                    if !#reg.is_cl() {\n                        panic!("\'{} {}, reg\' reg should be CL.", #inst_str, #op1_str);\n                    };\n                    jit.enc_digit(&[0xd3], #op1, #digit);', '                    if !#reg.is_cl() {\n                        panic!("\'{} {}, reg\' reg should be CL.", #inst_str, #op1_str);\n                    };\n                    jit.enc_digit(&[0xd2 | #reg.is_cl() as u8], #op1, #digit);')]
demo = '''
    let mut jit = JitMemory::new();
    let mut n = 0;
    monoasm!( &mut jit, shll rax, R({ n += 1; 1 }); );
    assert_eq!(n, 1);
'''
