prop = 'C02'
needs = 'a rip-relative operand with a small negative displacement'
breaks = '[rip - n] with n up to 128 is zero-extended and points forward'
edits = [('monoasm/src/lib.rs', '            Mode::Ind(Scale::None, Disp::D8(d)) => d as i32,', '            Mode::Ind(Scale::None, Disp::D8(d)) => d as u8 as i32,')]
demo = '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    monoasm!( &mut jit, dq 77; f: movq rax, [rip - 15]; ret; );
    jit.finalize();
    let f: extern "C" fn(u64) -> u64 = jit.get_label_addr(f);
    assert_eq!(f(0), 77);
'''
