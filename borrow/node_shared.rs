// a graph cannot be shared between threads
// codes: E0277
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;

fn shared<T: Sync>(_: &T) {}

fn main() {
    let d = devices::Naive::new();
    let n = Node::from(d.new_tensor_by_constant(shape![2], 1.));
    n.forward();
    shared(&1);
    shared(&n); //~ bad
}
