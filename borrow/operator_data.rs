// data used by an operator cannot be freed while its node lives
// codes: E0505 E0597
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;

struct O<'a, 'dev>(&'dev Device<'dev>, &'a [f32]);
impl<'a, 'arg, 'dev> Operator<'arg, 'dev> for O<'a, 'dev> {
    fn name(&self) -> String {
        self.1.len().to_string()
    }
    fn device(&self) -> &'dev Device<'dev> {
        self.0
    }
    fn forward_shape(&self, x: &[Shape]) -> Vec<Shape> {
        x.to_vec()
    }
    fn forward(&self, x: &[&Tensor], y: &mut [&mut Tensor<'arg>]) {
        y[0].alloc();
        self.0.reset_tensor_by_tensor(y[0], x[0]);
    }
    fn backward(&self, _: &[&Tensor], _: &[&Tensor], _: &[&Tensor], _: &[&std::cell::RefCell<Tensor>]) {}
}

fn main() {
    let d = devices::Naive::new();
    let v = vec![1.];
    let x = Node::from(d.new_tensor_by_constant(shape![2], 1.));
    let y = Node::create(O(&d, &v), &[&x]).pop().unwrap();
    drop(v); //~ bad
    y.forward();
}
