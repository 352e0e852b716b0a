prop = "C17"
needs = "a 32-bit arithmetic right shift by the immediate 1 of a negative value"
breaks = "sarl x, 1 is a logical shift, so the sign is lost"
edits = [("monoasm_macro/src/asm.rs", """                        jit.enc_digit(&[0xd1], #op1, #digit);""", """                        jit.enc_digit(&[0xd1], #op1, #digit & 0b101);""")]
demo = '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    monoasm!( &mut jit, f: movl rax, rdi; sarl rax, 1; ret; );
    jit.finalize();
    let f: extern "C" fn(u32) -> u32 = jit.get_label_addr(f);
    assert_eq!(f(100), 50);
    assert_eq!(f(-100i32 as u32), -50i32 as u32);
'''
