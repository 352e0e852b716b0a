prop = 'C20'
needs = 'code pointers of assemblers that lie more than 4 GiB apart'
breaks = 'code pointers are ordered by their low 32 bits'
edits = [('monoasm/src/lib.rs', '''        self.as_ptr().partial_cmp(&other.as_ptr())''', '''        (self.0.get() as u32).partial_cmp(&(other.0.get() as u32))''')]
demo = '''
    let a = CodePtr::from(0x1_8000_0000usize as *mut u8);
    let b = CodePtr::from(0x2_0000_1000usize as *mut u8);
    assert!(a < b);
'''
