// a random generator which is not thread-safe is refused
// codes: E0277
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;

struct R(std::cell::Cell<u32>); //~ bad
struct R(std::sync::Mutex<u32>); //~ good
impl Randomizer for R {
    fn fill_bernoulli(&mut self, _: f32, _: &mut [f32]) {}
    fn fill_uniform(&mut self, _: f32, _: f32, _: &mut [f32]) {}
    fn fill_normal(&mut self, _: f32, _: f32, _: &mut [f32]) {}
    fn fill_log_normal(&mut self, _: f32, _: f32, _: &mut [f32]) {}
}
fn need<T: Randomizer>() {}

fn main() {
    need::<R>();
}
