// a parameter's statistics cannot be reached from several threads at once
// codes: E0277
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;

fn shared<T: Sync>(_: &T) {}

fn main() {
    let d = devices::Naive::new();
    let mut p = d.new_parameter(shape![2], &initializers::Constant::new(1.));
    p.reset_gradient();
    shared(&p.value);
    shared(&p.stats); //~ bad
}
