// a node cannot outlive its device
// codes: E0505 E0597
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;


fn main() {
    let d = devices::Naive::new();
    let n = Node::from(d.new_tensor_by_constant(shape![2], 1.));
    drop(d); //~ bad
    n.forward();
}
