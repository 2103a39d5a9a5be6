// an optimizer cannot update a model while a graph uses its parameters
// codes: E0499
#![allow(unused)]
use prima_undine::functions::{ArithmeticFunctions, BasicFunctions};
use prima_undine::*;

struct M<'dev> {
    p: Parameter<'dev>,
}
impl<'dev> Model<'dev> for M<'dev> {
    fn parameters(&self) -> Vec<&Parameter<'dev>> {
        vec![&self.p]
    }
    fn parameters_mut(&mut self) -> Vec<&mut Parameter<'dev>> {
        vec![&mut self.p]
    }
}

fn main() {
    let d = devices::Naive::new();
    let mut p = d.new_parameter(shape![2], &initializers::Constant::new(1.));
    let mut m = M { p };
    let mut o = optimizers::SGD::new(0.1);
    let y = Node::from(&mut m.p).exp();
    o.update_model(&mut m); //~ bad
    y.backward();
    drop(y);
    o.update_model(&mut m);
}
