// data used by a registered kernel cannot be freed before the device
// codes: E0505 E0597
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;

struct K<'a>(&'a [f32]);
impl device_impl::FunctionFwF32Impl for K<'_> {
    fn call(&self, _: &[&Tensor], _: &[u32], _: &[f32], _: &mut [f32]) {
        assert!(self.0.len() > 0);
    }
}

fn main() {
    let v = vec![1.];
    let mut d = devices::Naive::new();
    d.register_fw_f32_impl("mine", K(&v));
    drop(v); //~ bad
    d.identifier();
}
