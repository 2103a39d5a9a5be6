// a result of a computation cannot outlive the device
// codes: E0505 E0597
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;


fn main() {
    let d = devices::Naive::new();
    let t = {
        let u = d.new_tensor_by_constant(shape![2], 1.);
        let v = d.new_tensor_by_constant(shape![2], 1.);
        (&u + &v).exp().sum(0)
    };
    drop(d); //~ bad
    t.to_vec();
}
