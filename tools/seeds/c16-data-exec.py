prop = 'C16'
needs = "looking at the data page's access rights"
breaks = 'the data page is executable'
edits = [('monoasm/src/jit_memory.rs', '            protect(contents, PAGE_SIZE * 2, Protection::READ_WRITE_EXECUTE)\n                .expect("Mprotect failed.");\n            protect(\n                contents.add(PAGE_SIZE * 2),\n                PAGE_SIZE,\n                Protection::READ_WRITE,\n            )\n            .expect("Mprotect failed.");', '            protect(contents, PAGE_SIZE * 3, Protection::READ_WRITE_EXECUTE)\n                .expect("Mprotect failed.");')]
demo = '''
    let mut jit = JitMemory::new();
    let d = jit.data_i64(1);
    jit.finalize();
    let a = jit.get_label_u64(d) as usize;
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    for l in maps.lines() {
        let (r, p) = l.split_once(' ').unwrap();
        let (x, y) = r.split_once('-').unwrap();
        let (x, y) = (usize::from_str_radix(x, 16).unwrap(), usize::from_str_radix(y, 16).unwrap());
        if x <= a && a < y {
            assert!(p.starts_with("rw-"), "{l}");
        }
    }
'''
