// a tensor moved to a device cannot outlive it
// codes: E0505 E0597
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;


fn main() {
    let d = devices::Naive::new();
    let mut t = Tensor::new_host_tensor(shape![2], vec![1., 2.]);
    t.move_to_device(&d);
    drop(d); //~ bad
    t.to_vec();
}
