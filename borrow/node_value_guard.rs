// a node cannot be freed while its value is looked at
// codes: E0505
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;


fn main() {
    let d = devices::Naive::new();
    let n = Node::from(d.new_tensor_by_constant(shape![2], 1.));
    n.forward();
    let v = n.inner_value();
    drop(n); //~ bad
    v.to_vec();
}
