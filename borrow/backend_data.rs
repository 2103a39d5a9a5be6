// data used by a device's backend cannot be freed before the device
// codes: E0505 E0597
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;

struct B<'a>(&'a [f32]);
impl DeviceImpl for B<'_> {
    fn identifier(&self) -> String {
        self.0.len().to_string()
    }
    fn new_handle(&self, _: u32) -> std::sync::atomic::AtomicPtr<std::ffi::c_void> {
        panic!()
    }
    fn drop_handle(&self, _: &std::sync::atomic::AtomicPtr<std::ffi::c_void>) {}
}

fn main() {
    let v = vec![1.];
    let d = Device::new(B(&v));
    drop(v); //~ bad
    d.identifier();
}
