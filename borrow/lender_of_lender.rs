// a tensor cannot be freed while a borrower of a borrower lives
// codes: E0505
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;


fn main() {
    let d = devices::Naive::new();
    let a = d.new_tensor_by_constant(shape![2], 1.);
    let b = Tensor::from(&a);
    let c = Tensor::from(&b);
    drop(a); //~ bad
    c.to_vec();
}
