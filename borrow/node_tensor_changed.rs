// a tensor cannot be changed while a node holds it
// codes: E0502
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;


fn main() {
    let d = devices::Naive::new();
    let mut a = d.new_tensor_by_constant(shape![2], 1.);
    let n = Node::from(&a);
    a.reset(2.); //~ bad
    n.forward();
    drop(n);
    a.reset(3.);
}
