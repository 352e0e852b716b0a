prop = 'C04'
needs = 'the alias nge in a conditional move or set (not in a jump)'
breaks = 'cmovnge/setnge test less-or-equal instead of less'
edits = [('monoasm_macro/src/inst.rs', '            "nge" => Cond::Lt,', '            "nge" => Cond::Le,')]
demo = '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    monoasm!( &mut jit, f: movq rax, 0; cmpq rdi, rsi; setnge rax; ret; );
    jit.finalize();
    let f: extern "C" fn(u64, u64) -> u64 = jit.get_label_addr2(f);
    assert_eq!((f(1, 2), f(2, 2), f(3, 2)), (1, 0, 0));
'''
