// a backend which is not thread-safe is refused
// codes: E0277
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;

struct B(std::rc::Rc<u32>); //~ bad
struct B(std::sync::Arc<u32>); //~ good
impl DeviceImpl for B {
    fn identifier(&self) -> String {
        String::new()
    }
    fn new_handle(&self, _: u32) -> std::sync::atomic::AtomicPtr<std::ffi::c_void> {
        panic!()
    }
    fn drop_handle(&self, _: &std::sync::atomic::AtomicPtr<std::ffi::c_void>) {}
}

fn main() {
    let d = Device::new(B(Default::default()));
    d.identifier();
}
