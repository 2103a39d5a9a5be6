// a shared reference does not allow to change a tensor
// codes: E0596
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;


fn main() {
    let d = devices::Naive::new();
    let t = d.new_tensor_by_constant(shape![2], 1.);
    let mut u = d.new_tensor_by_constant(shape![2], 1.);
    u.reset(1.);
    t.reset(1.); //~ bad
}
