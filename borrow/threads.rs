// devices, tensors and shapes can be shared between threads, parameters and models sent to them, graphs cannot leave theirs
// codes: E0277
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;

fn both<T: Send + Sync>() {}
fn sent<T: Send>() {}

fn main() {
    let d = devices::Naive::new();
    let mut p = d.new_parameter(shape![2], &initializers::Constant::new(1.));
    let t = d.new_tensor_by_constant(shape![2], 1.);
    std::thread::scope(|s| {
        s.spawn(|| (&t + &t).to_vec());
        s.spawn(|| d.new_tensor_by_constant(shape![2], 1.).to_vec());
        s.spawn(move || p.reset_gradient());
    });
    both::<Device>();
    both::<Tensor>();
    both::<Shape>();
    both::<DefaultRandomizer>();
    sent::<Parameter>();
    sent::<Node>(); //~ bad
}
