prop = "C07"
needs = "a subtracted displacement expression of an unsigned type"
breaks = "[base - (expr)] negates the expression before widening it: unsigned expressions no longer compile and narrow ones overflow"
edits = [("monoasm_macro/src/parse.rs", """            Disp::Expr(ts) => Disp::Expr(quote!(-(#ts))),""", """            Disp::Expr(ts) => Disp::Expr(quote!(-#ts)),""")]
demo = '''
    let mut jit = JitMemory::new();
    let a: i8 = -128;
    monoasm!( &mut jit, movq rax, [rcx - (a)]; );
    jit.finalize();
    assert_eq!(jit.as_slice(), &[0x48, 0x8b, 0x81, 0x80, 0, 0, 0]);
'''
