// a tensor's buffer cannot be transferred twice
// codes: E0382
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;


fn main() {
    let d = devices::Naive::new();
    let a = d.new_tensor_by_constant(shape![2], 1.);
    let mut b = d.new_tensor(shape![2]);
    let mut c = d.new_tensor(shape![2]);
    b.replace(a);
    c.replace(a); //~ bad
    c.alloc(); //~ good
    b.to_vec();
}
