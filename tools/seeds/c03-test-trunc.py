prop = "C03"
needs = "test or shift with a parenthesised immediate expression that does not fit 32 bits"
breaks = "the immediate is silently truncated to 32 bits instead of being rejected"
edits = [("monoasm_macro/src/inst.rs", """            Ok(RiOperand::Imm(gr.stream()))""", """            let expr = gr.stream();
            Ok(RiOperand::Imm(quote!((#expr) as i32)))""")]
demo = '''
    let r = std::panic::catch_unwind(|| {
        let mut jit = JitMemory::new();
        let v = 0x1_0000_0005i64;
        monoasm!( &mut jit, testq rcx, (v); );
    });
    assert!(r.is_err());
'''
