prop = 'C20'
needs = 'two code pointers more than 2 GiB apart, as from two assemblers'
breaks = 'the distance of two code pointers is truncated to 32 bits'
edits = [('monoasm/src/lib.rs', '(self.0.get() as i64) - (rhs.0.get() as i64)', '(self.0.get() as i32).wrapping_sub(rhs.0.get() as i32) as i64')]
demo = '''
    let p = CodePtr::from(0x7f00_0000_1000 as *mut u8);
    let q = CodePtr::from(0x7e00_0000_0fff as *mut u8);
    assert_eq!(p - q, 0x100_0000_0001);
    assert_eq!(q - p, -0x100_0000_0001);
'''
