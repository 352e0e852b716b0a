prop = 'C02'
needs = 'base rbp or r13 with an index register and no displacement'
breaks = 'the zero displacement byte is only added without an index, so [rbp + rcx] is read as [rcx + disp32]'
edits = [('monoasm/src/lib.rs', '        matches!(self, Mode::Ind(_, Disp::None))', '        matches!(self, Mode::Ind(Scale::None, Disp::None))')]
demo = '''
    let mut jit = JitMemory::new();
    monoasm!( &mut jit, movq rax, [r13 + rcx * 4]; );
    jit.finalize();
    assert_eq!(jit.as_slice(), &[0x49, 0x8b, 0x44, 0x8d, 0x00]);
'''
