// a parameter cannot be freed while a graph uses it
// codes: E0505
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;


fn main() {
    let d = devices::Naive::new();
    let mut p = d.new_parameter(shape![2], &initializers::Constant::new(1.));
    let n = Node::from(&mut p);
    drop(p); //~ bad
    n.backward();
}
