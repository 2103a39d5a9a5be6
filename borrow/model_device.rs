// a model cannot outlive its device
// codes: E0505 E0597
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;

struct M<'dev> {
    p: Parameter<'dev>,
}

fn main() {
    let d = devices::Naive::new();
    let mut m = M { p: d.new_parameter(shape![2], &initializers::Constant::new(1.)) };
    drop(d); //~ bad
    m.p.reset_gradient();
}
