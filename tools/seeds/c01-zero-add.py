prop = 'C01'
needs = 'a literal 0 as the immediate of addq or subq with a register'
breaks = 'addq/subq reg, 0 assembles to nothing, so the flags are not set'
edits = [('monoasm_macro/src/asm.rs', '''        // OP=CMP REX.W 83 /7 id
        (op1, RmiOperand::Imm(i)) => {
            let op1_str = format!("{}", op1);
            quote! {
                let #imm = (#i) as i64;
                if let Ok(#imm) = i8::try_from(#imm) {
                    jit.enc_rexw_digit''', '''        // OP=CMP REX.W 83 /7 id
        (RmOperand::Reg(_), RmiOperand::Imm(i))
            if matches!(op_name, "ADD" | "SUB") && i.to_string() == "0" =>
        {
            quote!()
        }
        (op1, RmiOperand::Imm(i)) => {
            let op1_str = format!("{}", op1);
            quote! {
                let #imm = (#i) as i64;
                if let Ok(#imm) = i8::try_from(#imm) {
                    jit.enc_rexw_digit''')]
demo = '''
    let mut jit = JitMemory::new();
    let a = jit.get_current();
    monoasm!(&mut jit, subq rdi, 0;);
    assert!(jit.get_current() > a);
'''
