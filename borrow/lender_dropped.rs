// a tensor cannot be freed while another one borrows its buffer
// codes: E0505
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;


fn main() {
    let d = devices::Naive::new();
    let a = d.new_tensor_by_constant(shape![2], 1.);
    let b = Tensor::from(&a);
    drop(a); //~ bad
    b.to_vec();
}
