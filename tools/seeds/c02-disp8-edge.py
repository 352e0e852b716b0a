prop = "C02"
needs = "a displacement of exactly 128"
breaks = "[reg + 128] is shortened to an 8-bit displacement and addresses reg - 128"
edits = [("monoasm/src/lib.rs", """                if let Ok(disp) = i8::try_from(disp) {
                    Disp::D8(disp)""", """                if (-128..=128).contains(&disp) {
                    Disp::D8(disp as i8)""")]
demo = '''
    let mut jit = JitMemory::new();
    monoasm!( &mut jit, movq rax, [rcx + 128]; );
    jit.finalize();
    assert_eq!(jit.as_slice(), &[0x48, 0x8b, 0x81, 128, 0, 0, 0]);
'''
