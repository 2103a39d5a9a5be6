// a parameter's value cannot be changed while a graph uses it
// codes: E0499
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;


fn main() {
    let d = devices::Naive::new();
    let mut p = d.new_parameter(shape![2], &initializers::Constant::new(1.));
    let n = Node::from(&mut p);
    p.value.reset(2.); //~ bad
    n.forward();
    drop(n);
    p.value.reset(2.);
}
