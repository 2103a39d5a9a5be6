// a kernel which is not thread-safe is refused
// codes: E0277
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;

struct K(std::cell::Cell<u32>); //~ bad
struct K(std::sync::Mutex<u32>); //~ good
impl device_impl::FunctionFwF32Impl for K {
    fn call(&self, _: &[&Tensor], _: &[u32], _: &[f32], _: &mut [f32]) {}
}

fn main() {
    let mut d = devices::Naive::new();
    d.register_fw_f32_impl("mine", K(Default::default()));
    d.identifier();
}
