//! Announces about 2^b bytes to a constructor; ends with 0 if it is refused with a panic. It is built
//! without overflow checks, as a user builds a release.
use nanvm_lib::js::any::Any;
use nanvm_lib::js::js_array::new_array;
use nanvm_lib::js::js_bigint::{new_bigint, Sign};
use nanvm_lib::js::js_string::new_string;
use nanvm_lib::mem::global::GLOBAL;
use nanvm_lib::mem::local::Local;
use nanvm_lib::mem::manager::Manager;

fn huge_child(t: usize, b: u32) -> ! {
    // about 2^b bytes; 2^64 wraps around
    let n = |size: u32| if b == 64 { (1u128 << 64).div_ceil(size as u128).min(usize::MAX as u128) as usize } else { (1usize << b) / size as usize };
    let l: &'static Local = Box::leak(Box::default());
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match t {
        0 => new_string(GLOBAL, FakeLen(n(2), 1u16)).items().len(),
        1 => new_bigint(GLOBAL, Sign::Positive, FakeLen(n(8), 1u64)).items().len(),
        2 => new_array(GLOBAL, FakeLen(n(8), 1.5).map(Any::move_from)).items().len(),
        3 => new_array(l, FakeLen(n(8), 1.5).map(Any::move_from)).items().len(),
        4 => GLOBAL.flexible_array_new(FakeLen(n(32), [1u64; 4])).items().len(),
        _ => l.flexible_array_new(FakeLen(n(1), 1u8)).items().len(),
    }));
    std::process::exit(match res {
        Ok(_) => 3,
        Err(_) => 0,
    })
}
/// An iterator that announces a length, and goes on.
struct FakeLen<T>(usize, T);
impl<T: Clone> Iterator for FakeLen<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        Some(self.1.clone())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.0, Some(self.0))
    }
}
impl<T: Clone> ExactSizeIterator for FakeLen<T> {}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    huge_child(a[1].parse().unwrap(), a[2].parse().unwrap())
}
