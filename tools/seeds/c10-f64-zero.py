prop = 'C10'
needs = 'a floating-point constant that is negative zero (or a NaN with a payload)'
breaks = 'constants are normalised'
edits = [('monoasm/src/jit_memory.rs', '        let val = u64::from_ne_bytes(val.to_ne_bytes());', '        let val = u64::from_ne_bytes((val + 0.0).to_ne_bytes());')]
demo = '''
    let mut jit = JitMemory::new();
    let c = jit.const_f64(-0.0);
    jit.finalize();
    let v = unsafe { *(jit.get_label_u64(c) as *const u64) };
    assert_eq!(v, 1 << 63);
'''
