//! native stand-in for the Kani library: values come from a recorded counterexample
use std::cell::RefCell;
thread_local!(pub static VALS: RefCell<Vec<Vec<u8>>> = const { RefCell::new(vec![]) });

pub trait Bits: Sized {
    fn from(b: &[u8]) -> Self;
}
macro_rules! bits {
    ($($t:ty),*) => { $(impl Bits for $t {
        fn from(b: &[u8]) -> Self {
            let mut a = [0u8; size_of::<$t>()];
            a.copy_from_slice(&b[..size_of::<$t>()]);
            <$t>::from_le_bytes(a)
        }
    })* };
}
bits!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64);
impl Bits for bool {
    fn from(b: &[u8]) -> Self {
        b[0] & 1 == 1
    }
}
pub fn any<T: Bits>() -> T {
    VALS.with(|v| {
        let mut v = v.borrow_mut();
        if v.is_empty() {
            std::process::exit(78)
        }
        let b = v.remove(0);
        if b.len() < size_of::<T>() {
            std::process::exit(78)
        }
        T::from(&b)
    })
}
pub fn assume(c: bool) {
    if !c {
        std::process::exit(77)
    }
}
