prop = "C17"
needs = "divl/idivl with a memory operand whose upper neighbour or whose edx/eax upper halves are not zero"
breaks = "the 32-bit division by a memory operand divides rdx:rax by eight bytes"
edits = [("monoasm_macro/src/asm.rs", """        OperandSize::DWORD => {
            quote! { jit.enc_digit(&[0xf7], #op, #signed); }
        }""", """        OperandSize::DWORD => match op {
            RmOperand::Reg(_) => quote! { jit.enc_digit(&[0xf7], #op, #signed); },
            op => quote! { jit.enc_rexw_digit(&[0xf7], #op, #signed, Imm::None); },
        },""")]
demo = '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    monoasm!( &mut jit, f: movl rax, 1000; cdq; idivl [rdi]; ret; );
    jit.finalize();
    let f: extern "C" fn(*const u32) -> u64 = jit.get_label_addr(f);
    let a = [7u32, 1, 0, 0];
    assert_eq!(f(a.as_ptr()), 142);
'''
