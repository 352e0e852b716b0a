prop = "C18"
needs = "a label that is referenced from both pages at the same offset within each page"
breaks = "references are deduplicated by offset without regard to the page, so one of the two stays unresolved"
edits = [("monoasm/src/jit_memory.rs", """                for target in std::mem::take(&mut rel.target) {""", """                rel.target.dedup_by_key(|t| match t {
                    TargetType::Rel { pos, .. } | TargetType::Abs { pos, .. } => pos.0,
                });
                for target in std::mem::take(&mut rel.target) {""")]
demo = '''
    let mut jit = JitMemory::new();
    let (f, g, h) = (jit.label(), jit.label(), jit.label());
    monoasm!( &mut jit, f: jmp h; );
    jit.select_page(1);
    monoasm!( &mut jit, g: jmp h; movq rax, 7; ret; h: movq rax, 5; ret; );
    jit.finalize();
    let f: extern "C" fn(u64) -> u64 = jit.get_label_addr(f);
    assert_eq!(f(0), 5);
    let g: extern "C" fn(u64) -> u64 = jit.get_label_addr(g);
    assert_eq!(g(0), 5);
'''
