// a tensor cannot be changed while another one borrows its buffer
// codes: E0502
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;


fn main() {
    let d = devices::Naive::new();
    let mut a = d.new_tensor_by_constant(shape![2], 1.);
    let b = Tensor::from(&a);
    a.reset(2.); //~ bad
    b.to_vec();
    drop(b);
    a.reset(3.);
}
