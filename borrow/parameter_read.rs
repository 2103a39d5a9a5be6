// a parameter's gradient cannot be read while a graph uses it
// codes: E0502
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;


fn main() {
    let d = devices::Naive::new();
    let mut p = d.new_parameter(shape![2], &initializers::Constant::new(1.));
    let n = Node::from(&mut p);
    p.gradient.to_vec(); //~ bad
    n.backward();
    drop(n);
    p.gradient.to_vec();
}
