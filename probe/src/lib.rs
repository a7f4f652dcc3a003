//! Moving to and sharing between threads is decided by the compiler first: this must compile.
#![allow(dead_code)]
use ibig::{IBig, Modulo, ModuloRing, UBig};

fn ok<T: Send + Sync>() {}

fn probe() {
    ok::<UBig>();
    ok::<IBig>();
    ok::<ModuloRing>();
    ok::<Modulo<'static>>();
    ok::<ibig::error::ParseError>();
    ok::<ibig::error::OutOfBoundsError>();
    ok::<ibig::fmt::InRadix<'static>>();
    ok::<ibig::rand::UniformUBig>();
    ok::<ibig::rand::UniformIBig>();
}
