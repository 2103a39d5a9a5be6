// a parameter moved to a device cannot outlive it
// codes: E0505 E0597
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;


fn main() {
    let d = devices::Naive::new();
    let mut p = Parameter::new(Tensor::new_host_tensor(shape![2], vec![1., 2.]), Tensor::new_host_tensor(shape![2], vec![1., 2.]));
    p.move_to_device(&d);
    drop(d); //~ bad
    p.value.to_vec();
}
