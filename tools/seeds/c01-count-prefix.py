prop = 'C01'
needs = 'a 32-bit bit count with a memory operand'
breaks = 'the 32-bit bit counts of a memory operand are encoded with REX.W and count all 64 bits'
edits = [('monoasm_macro/src/asm.rs', '''        OperandSize::DWORD => {
            quote!(
                jit.emitb(0xf3);
                jit.enc_mr(&[0x0f, #opcode], #op1, #op2);''', '''        OperandSize::DWORD if matches!(op2, RmOperand::Ind(_)) => {
            quote!(
                jit.emitb(0xf3);
                jit.enc_rexw_mr(&[0x0f, #opcode], #op1, #op2);
            )
        }
        OperandSize::DWORD => {
            quote!(
                jit.emitb(0xf3);
                jit.enc_mr(&[0x0f, #opcode], #op1, #op2);''')]
demo = '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    monoasm!( &mut jit, f: movq rax, 0; popcntl rax, [rdi]; ret; );
    jit.finalize();
    let f: extern "C" fn(*const u64) -> u64 = jit.get_label_addr(f);
    let v = 0xff_0000_00ffu64;
    assert_eq!(f(&v), 8);
'''
