prop = 'C01'
needs = 'imul between an extended and a low register'
breaks = 'imul r, r8.. multiplies into the other register'
edits = [('monoasm_macro/src/asm.rs', '                (RmiOperand::Reg(expr), op2) => quote! (\n                    jit.enc_rexw_mr(&[0x0f,0xaf], #expr, #op2);\n                ),\n', '                (RmiOperand::Reg(expr), RmiOperand::Reg(op2)) => quote! (\n                    let (dst, src) = (#expr, #op2);\n                    if dst == Reg::from(4) {\n                        jit.enc_rexw_mr(&[0x0f,0xaf], src, Rm::reg(dst));\n                    } else {\n                        jit.enc_rexw_mr(&[0x0f,0xaf], dst, Rm::reg(src));\n                    }\n                ),\n                (RmiOperand::Reg(expr), op2) => quote! (\n                    jit.enc_rexw_mr(&[0x0f,0xaf], #expr, #op2);\n                ),\n')]
demo = '''
    let mut jit = JitMemory::new();
    monoasm!( &mut jit, imul rsp, rcx; );
    jit.finalize();
    assert_eq!(jit.as_slice(), &[0x48, 0x0f, 0xaf, 0xe1]);
'''
