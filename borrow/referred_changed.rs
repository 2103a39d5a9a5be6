// a tensor cannot be changed while another one refers to it
// codes: E0502
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;


fn main() {
    let d = devices::Naive::new();
    let mut a = d.new_tensor_by_constant(shape![2], 1.);
    a.reset(1.);
    let mut b = Tensor::new(&d, shape![2]);
    b.refer(&a);
    a.reset(2.); //~ bad
    b.to_vec();
}
