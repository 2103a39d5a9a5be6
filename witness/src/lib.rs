//! Model types as a user would write them. The derive macro under test expands each of them, and the check
//! reads the enumeration functions it generates. Field names say what is expected: a field whose name ends in
//! `_x` must not be enumerated, every other field must be.
#![allow(dead_code, non_snake_case)]
use prima_undine::{Device, Model, Parameter};
use prima_undine_derive::Model;

#[derive(Model)]
pub struct One<'dev> {
    a: Parameter<'dev>,
}

#[derive(Model)]
pub struct Linear<'dev> {
    pub weight: Parameter<'dev>,
    pub bias: Parameter<'dev>,
}

/// a skipped field in the middle
#[derive(Model)]
pub struct SkipMiddle<'dev> {
    w: Parameter<'dev>,
    #[parameter(skip)]
    size_x: usize,
    b: Parameter<'dev>,
    u: Parameter<'dev>,
}

/// skipped fields first and last
#[derive(Model)]
pub struct SkipEnds<'dev> {
    #[parameter(skip)]
    flag_x: bool,
    w: Parameter<'dev>,
    b: Parameter<'dev>,
    #[parameter(skip)]
    rate_x: f32,
}

/// adjacent skipped fields, and a parameter that is skipped on purpose
#[derive(Model)]
pub struct SkipMany<'dev> {
    w: Parameter<'dev>,
    #[parameter(skip)]
    n_x: u32,
    #[parameter(skip)]
    frozen_x: Parameter<'dev>,
    b: Parameter<'dev>,
    #[parameter(skip)]
    name_x: String,
    c: Parameter<'dev>,
}

/// other attributes and other arguments do not decide anything
#[derive(Model)]
pub struct Attributes<'dev> {
    /// documented
    w: Parameter<'dev>,
    #[allow(unused)]
    b: Parameter<'dev>,
    #[parameter(trained)]
    c: Parameter<'dev>,
    #[allow(unused)]
    #[parameter(skip)]
    p_x: f32,
    #[parameter(config, skip)]
    q_x: f32,
    #[parameter(skip, config)]
    r_x: f32,
    #[parameter(config)]
    #[parameter(skip)]
    s_x: f32,
    /// documented and annotated
    #[allow(unused)]
    d: Parameter<'dev>,
}

/// an argument of the same name given to somebody else's attribute
#[derive(Model, serde::Serialize)]
pub struct Foreign<'dev> {
    w: Parameter<'dev>,
    #[serde(skip)]
    b: Parameter<'dev>,
    #[serde(skip)]
    #[parameter(skip)]
    n_x: u32,
    c: Parameter<'dev>,
}

/// every kind of enumerable field
#[derive(Model)]
pub struct Nested<'dev> {
    emb: Parameter<'dev>,
    lin: Linear<'dev>,
    free: Vec<Parameter<'dev>>,
    layers: Vec<Linear<'dev>>,
    deep: Vec<Vec<SkipMiddle<'dev>>>,
    boxed: Box<Parameter<'dev>>,
    out: Parameter<'dev>,
}

#[derive(Model)]
pub struct Generic<'dev, M: Model<'dev>> {
    first: M,
    p: Parameter<'dev>,
    rest: Vec<M>,
}

#[derive(Model)]
pub struct Where<'dev, A, B>
where
    A: Model<'dev>,
    B: Model<'dev>,
{
    a: A,
    p: Parameter<'dev>,
    b: B,
}

#[derive(Model)]
pub struct Sized_<'dev, const N: usize> {
    w: Parameter<'dev>,
    #[parameter(skip)]
    table_x: [f32; N],
    b: Parameter<'dev>,
}

#[derive(Model)]
pub struct Lifetimes<'dev, 'a> {
    w: Parameter<'dev>,
    #[parameter(skip)]
    device_x: &'dev Device<'dev>,
    #[parameter(skip)]
    name_x: &'a str,
    b: Parameter<'dev>,
}

#[derive(Model)]
pub struct Visibility<'dev> {
    pub a: Parameter<'dev>,
    pub(crate) b: Parameter<'dev>,
    c: Parameter<'dev>,
}

#[derive(Model)]
pub struct Names<'dev> {
    r#type: Parameter<'dev>,
    _hidden: Parameter<'dev>,
    skip: Parameter<'dev>,
    parameter: Parameter<'dev>,
    params: Parameter<'dev>,
    value: Parameter<'dev>,
    gradient: Parameter<'dev>,
    stats: Vec<Parameter<'dev>>,
    W1: Parameter<'dev>,
    b1: Parameter<'dev>,
    self_: Parameter<'dev>,
}

/// an LSTM cell and more: many fields
#[derive(Model)]
pub struct Large<'dev> {
    wxi: Parameter<'dev>,
    wxf: Parameter<'dev>,
    wxo: Parameter<'dev>,
    wxj: Parameter<'dev>,
    whi: Parameter<'dev>,
    whf: Parameter<'dev>,
    who: Parameter<'dev>,
    whj: Parameter<'dev>,
    bi: Parameter<'dev>,
    bf: Parameter<'dev>,
    bo: Parameter<'dev>,
    bj: Parameter<'dev>,
    initial_c: Parameter<'dev>,
    initial_h: Parameter<'dev>,
    g0: Parameter<'dev>,
    g1: Parameter<'dev>,
    g2: Parameter<'dev>,
    g3: Parameter<'dev>,
}
