// a tensor cannot be freed while another one refers to it
// codes: E0505 E0597
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;


fn main() {
    let d = devices::Naive::new();
    let a = d.new_tensor_by_constant(shape![2], 1.);
    let mut b = d.new_tensor(shape![2]);
    b.refer(&a);
    drop(a); //~ bad
    b.to_vec();
}
