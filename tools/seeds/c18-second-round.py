prop = 'C18'
needs = 'a loop whose back edge is in a later finalization round than its head, with the head at the end of a block'
breaks = "labels bound exactly at the end of a page's previous block are moved behind its constants"
edits = [('monoasm/src/jit_memory.rs', '        self.fill_relocs();\n        for page in &mut self.pages {', '        self.fill_relocs();\n        for label in self.labels.iter_mut() {\n            if let Some((p, pos)) = &mut label.loc {\n                let page = &self.pages[p.0];\n                let last = page.code_block.last().unwrap();\n                if *pos == last.1 && last.1 != last.0 && last.2 != last.1 && label.target.is_empty() && pos.0 % 16 != 0 {\n                    *pos = page.counter;\n                }\n            }\n        }\n        for page in &mut self.pages {')]
demo = '''
    let mut jit = JitMemory::new();
    let (f, g) = (jit.label(), jit.label());
    let _ = jit.const_i64(1);
    monoasm!( &mut jit, f: jmp g; g: );
    let at = jit.get_label_u64(g);
    jit.finalize();
    assert_eq!(jit.get_label_u64(g), at);
'''
