prop = "C05"
needs = "cvtsi2sdq with a memory source"
breaks = "a 32-bit integer is converted instead of a 64-bit one when the source is in memory"
edits = [("monoasm_macro/src/asm.rs", """                jit.enc_rexw_mr(&[0x0f, 0x2a], Reg::from(#op1), #op2);
            }""", """                let dst = Reg::from(#op1);
                match #op2 {
                    rm if rm.is_reg() => jit.enc_rexw_mr(&[0x0f, 0x2a], dst, rm),
                    rm => jit.enc_mr(&[0x0f, 0x2a], dst, rm),
                }
            }""")]
demo = '''
    let mut jit = JitMemory::new();
    monoasm!( &mut jit, cvtsi2sdq xmm1, [rax]; );
    jit.finalize();
    assert_eq!(jit.as_slice(), &[0xf2, 0x48, 0x0f, 0x2a, 0x08]);
'''
