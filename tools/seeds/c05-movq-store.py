prop = 'C05'
needs = 'storing xmm8..xmm15 with movq to memory'
breaks = 'the extended store uses the 128-bit move, which overwrites 8 bytes more'
edits = [('monoasm_macro/src/asm.rs', '            jit.enc_mr(&[0x0f, 0xd6], Reg::from(#op2), #op1);', '            let x = Reg::from(#op2);\n            jit.enc_mr(if x == Reg::from(15) { &[0x0f, 0x11] } else { &[0x0f, 0xd6] }, x, #op1);')]
demo = '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    monoasm!( &mut jit, f: movq xmm15, rsi; movq [rdi], xmm15; ret; );
    jit.finalize();
    let f: extern "C" fn(*mut u64, u64) -> u64 = jit.get_label_addr2(f);
    let mut a = [1u64, 2];
    f(a.as_mut_ptr(), 9);
    assert_eq!(a, [9, 2]);
'''
