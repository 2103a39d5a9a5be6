// a copy of a tensor cannot outlive its device
// codes: E0505 E0597
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;


fn main() {
    let d = devices::Naive::new();
    let t = {
        let u = d.new_tensor_by_slice(shape![2], &[1., 2.]);
        d.copy_tensor(&u)
    };
    drop(d); //~ bad
    t.to_vec();
}
