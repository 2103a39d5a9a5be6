// an unallocated tensor cannot outlive its device
// codes: E0505 E0597
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;


fn main() {
    let d = devices::Naive::new();
    let mut t = d.new_tensor(shape![2]);
    drop(d); //~ bad
    t.alloc();
}
