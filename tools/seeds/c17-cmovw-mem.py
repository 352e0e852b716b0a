prop = "C17"
needs = "a 16-bit conditional move with a memory source and the upper half of the destination in use"
breaks = "cmovccw from memory moves 32 bits and clears the upper half of the destination"
edits = [("monoasm_macro/src/asm.rs", """                OperandSize::WORD => quote!(
                    jit.emitb(0x66);
                    jit.enc_mr(&[0x0f, #cond], #op1, #op2);
                ),
                _ => unimplemented!(),""", """                OperandSize::WORD => match &op2 {
                    RmOperand::Reg(_) => quote!(
                        jit.emitb(0x66);
                        jit.enc_mr(&[0x0f, #cond], #op1, #op2);
                    ),
                    op2 => quote!( jit.enc_mr(&[0x0f, #cond], #op1, #op2); ),
                },
                _ => unimplemented!(),""")]
demo = '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    monoasm!( &mut jit, f: movq rax, (-1); testq rax, rax; cmovnew rax, [rdi]; ret; );
    jit.finalize();
    let f: extern "C" fn(*const u32) -> u64 = jit.get_label_addr(f);
    let a = [0x1234_5678u32, 0];
    assert_eq!(f(a.as_ptr()), 0xffff_ffff_ffff_5678);
'''
