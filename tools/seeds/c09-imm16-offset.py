prop = 'C09'
needs = 'a rip-relative label operand followed by a 16-bit immediate'
breaks = "the immediate's size is left out of the distance"
edits = [('monoasm/src/lib.rs', '            Self::W(_) => 2,', '            Self::W(_) => 1,')]
demo = '''
    let mut jit = JitMemory::new();
    let l = jit.label();
    monoasm!( &mut jit, movw [rip + l], 700; dq 1; l: );
    jit.finalize();
    assert_eq!(&jit.as_slice()[3..7], &[8, 0, 0, 0]);
'''
