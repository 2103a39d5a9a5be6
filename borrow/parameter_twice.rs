// one parameter cannot be given to two leaves at once
// codes: E0499
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;


fn main() {
    let d = devices::Naive::new();
    let mut p = d.new_parameter(shape![2], &initializers::Constant::new(1.));
    let mut q = d.new_parameter(shape![2], &initializers::Constant::new(1.));
    let x = Node::from(&mut p);
    let y = Node::from(&mut q);
    let z = Node::from(&mut p); //~ bad
    let y = y + x;
    let y = y + z; //~ bad
    y.backward();
    drop(y);
    q.reset_gradient();
}
