// a tensor cannot be freed while a node computed from it lives
// codes: E0505 E0597
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;


fn main() {
    let d = devices::Naive::new();
    let b = d.new_tensor_by_constant(shape![2], 1.);
    let a = d.new_tensor_by_constant(shape![2], 1.);
    let y = {
        let x = Node::from(&a);
        let z = Node::from(&b);
        x.exp() + z
    };
    drop(a); //~ bad
    y.forward();
}
