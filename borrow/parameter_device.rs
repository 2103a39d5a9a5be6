// a parameter cannot outlive its device
// codes: E0505 E0597
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;


fn main() {
    let d = devices::Naive::new();
    let mut p = d.new_parameter(shape![2], &initializers::Constant::new(1.));
    drop(d); //~ bad
    p.reset_gradient();
}
