prop = 'C17'
needs = 'movq of the literal 0 to a named register while a flag is live'
breaks = 'movq reg, 0 becomes xor reg, reg and destroys the flags'
edits = [('monoasm_macro/src/asm.rs', '''        (MovOperand::Reg(expr), MovOperand::Imm(i, size)) => {
            if let Some(size) = size {
                assert_eq!(OperandSize::QWORD, size);
                quote!(''', '''        (MovOperand::Reg(expr), MovOperand::Imm(i, size)) => {
            if size.is_none() && i.to_string() == "0" {
                quote!( jit.enc_rexw_mr(&[0x31], #expr, Rm::reg(#expr)); )
            } else if let Some(size) = size {
                assert_eq!(OperandSize::QWORD, size);
                quote!(''')]
demo = '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    monoasm!(&mut jit,
    f:
        cmpq rdi, rsi;
        movq rax, 0;
        setb rax;
        ret;
    );
    jit.finalize();
    let f: extern "C" fn(u64, u64) -> u64 = jit.get_label_addr2(f);
    assert_eq!(f(1, 2), 1);
'''
