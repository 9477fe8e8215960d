//! Examples for the counter rule of C07 (see scan.rs of the analyser); never called.
pub struct S {
    pub depth: u8,
}
pub mod yes {
    use super::S;
    pub fn plain(s: &[u8]) -> i8 {
        let mut n: i8 = 0;
        for x in s {
            if *x == 0 {
                n += 1;
            } else {
                n -= 1;
            }
        }
        n
    }
    pub fn through_copy(s: &[u8]) -> u16 {
        let mut n: u16 = 0;
        let mut i = 0;
        while i < s.len() {
            let m = n;
            let k = m + 1;
            n = k;
            i += 1;
        }
        n
    }
    pub fn field(s: &[u8], t: &mut S) {
        for _ in s {
            t.depth += 1;
        }
    }
    pub fn wraps(s: &[u8]) -> u8 {
        let mut n: u8 = 0;
        for _ in s {
            n = n.wrapping_add(1);
        }
        n
    }
    pub fn sticks(s: &[u8]) -> u8 {
        let mut n: u8 = 0;
        for _ in s {
            n = n.saturating_add(1);
        }
        n
    }
}
pub mod no {
    pub fn wide(s: &[u8]) -> i32 {
        let mut n = 0;
        for _ in s {
            n += 1;
        }
        n
    }
    pub fn limited(s: &[u8]) -> u8 {
        let mut n: u8 = 0;
        for _ in s {
            if n < 3 {
                n += 1;
            }
        }
        n
    }
    pub fn no_loop(x: u8) -> u8 {
        let mut n = x;
        n += 1;
        n
    }
    pub fn not_carried(s: &[u8]) -> usize {
        let mut t = 0;
        for x in s {
            let y = *x / 2 + 1;
            t += y as usize;
        }
        t
    }
}
