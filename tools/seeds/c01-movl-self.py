prop = 'C01'
needs = 'movl between a named register and itself'
breaks = 'movl reg, reg of one register assembles to nothing, so the upper half is not cleared'
edits = [('monoasm_macro/src/asm.rs', '''        // MOV r/m32, r32
        // 89 /r
        // MR
        (op1, RmiOperand::Reg(expr))''', '''        // A register moved to itself.
        (RmOperand::Reg(Register::Reg(a)), RmiOperand::Reg(Register::Reg(b))) if a == b => {
            quote!()
        }
        // MOV r/m32, r32
        // 89 /r
        // MR
        (op1, RmiOperand::Reg(expr))''')]
demo = '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    monoasm!(&mut jit,
    f:
        movq rax, rdi;
        movl rax, rax;
        ret;
    );
    jit.finalize();
    let f: extern "C" fn(u64) -> u64 = jit.get_label_addr(f);
    assert_eq!(f(0x1234_5678_9abc_def0), 0x9abc_def0);
'''
