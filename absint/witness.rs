//! Instantiations of the crate's generic functions and exported macros: analysed, never run.
#![allow(dead_code, unused_imports, unused_mut)]
use crate::{poly_math, LinearBinomial, Monomial, MutablePolynomial, Polynomial, QuadraticTrinomial, SizedPolynomial, SparsePolynomial, TryAddError};
use alloc::vec::Vec;
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use num::{One, Zero};

macro_rules! sinks {
    ($($name:ident, $src:ident, $dst:ident;)*) => {
        $(
            pub mod $name {
                use super::*;
                pub fn wit_add_poly<N: 'static + Copy + Zero + One + Add<Output = N> + AddAssign + Sub<Output = N> + SubAssign + Neg<Output = N> + Mul<Output = N> + PartialEq + crate::numerics::CanNegate>(a: &$src<N>, sink: &mut $dst<N>) -> Result<(), TryAddError> {
                    poly_math::add_poly(a.ordered_term_iter(), sink)
                }
                pub fn wit_sub_poly<N: 'static + Copy + Zero + One + Add<Output = N> + AddAssign + Sub<Output = N> + SubAssign + Neg<Output = N> + Mul<Output = N> + PartialEq + crate::numerics::CanNegate>(a: &$src<N>, sink: &mut $dst<N>) -> Result<(), TryAddError> {
                    poly_math::sub_poly(a.ordered_term_iter(), sink)
                }
                pub fn wit_mul_poly<N: 'static + Copy + Zero + One + Add<Output = N> + AddAssign + Sub<Output = N> + SubAssign + Neg<Output = N> + Mul<Output = N> + PartialEq + crate::numerics::CanNegate>(a: &$src<N>, sink: &mut $dst<N>) -> Result<(), TryAddError> {
                    crate::poly_mul!(*sink; a)
                }
                pub fn wit_add_into<N: 'static + Copy + Zero + One + Add<Output = N> + AddAssign + Sub<Output = N> + SubAssign + Neg<Output = N> + Mul<Output = N> + PartialEq + crate::numerics::CanNegate>(a: &$src<N>, sink: &mut $dst<N>) -> Result<(), TryAddError> {
                    crate::poly_add!(*sink; a)
                }
                pub fn wit_sub_into<N: 'static + Copy + Zero + One + Add<Output = N> + AddAssign + Sub<Output = N> + SubAssign + Neg<Output = N> + Mul<Output = N> + PartialEq + crate::numerics::CanNegate>(a: &$src<N>, sink: &mut $dst<N>) -> Result<(), TryAddError> {
                    crate::poly_sub!(*sink; a)
                }
                pub fn wit_macro_add<N: 'static + Copy + Zero + One + Add<Output = N> + AddAssign + Sub<Output = N> + SubAssign + Neg<Output = N> + Mul<Output = N> + PartialEq + crate::numerics::CanNegate>(a: &$src<N>, b: &$dst<N>) -> Polynomial<N> {
                    crate::poly_add!(a, b)
                }
                pub fn wit_macro_sub<N: 'static + Copy + Zero + One + Add<Output = N> + AddAssign + Sub<Output = N> + SubAssign + Neg<Output = N> + Mul<Output = N> + PartialEq + crate::numerics::CanNegate>(a: &$src<N>, b: &$dst<N>) -> Polynomial<N> {
                    crate::poly_sub!(a, b)
                }
                pub fn wit_macro_mul<N: 'static + Copy + Zero + One + Add<Output = N> + AddAssign + Sub<Output = N> + SubAssign + Neg<Output = N> + Mul<Output = N> + PartialEq + crate::numerics::CanNegate>(a: &$src<N>, b: &$dst<N>) -> Polynomial<N> {
                    crate::poly_mul!(a, b)
                }
            }
        )*
    };
}

sinks! {
    dd, Polynomial, Polynomial;
    ds, Polynomial, SparsePolynomial;
    sd, SparsePolynomial, Polynomial;
    ss, SparsePolynomial, SparsePolynomial;
    md, Monomial, Polynomial;
    bd, LinearBinomial, Polynomial;
    qd, QuadraticTrinomial, Polynomial;
    qs, QuadraticTrinomial, SparsePolynomial;
    db, Polynomial, LinearBinomial;
    bb, LinearBinomial, LinearBinomial;
    mq, Monomial, QuadraticTrinomial;
    bq, LinearBinomial, QuadraticTrinomial;
    qq, QuadraticTrinomial, QuadraticTrinomial;
    mm, Monomial, Monomial;
    bm, LinearBinomial, Monomial;
}

type C = i64;
pub fn wit_add3(a: &QuadraticTrinomial<C>, b: &LinearBinomial<C>, c: &LinearBinomial<C>) -> Polynomial<C> {
    crate::poly_add!(a, b, c)
}
pub fn wit_sub3(a: &QuadraticTrinomial<C>, b: &LinearBinomial<C>, c: &LinearBinomial<C>) -> Polynomial<C> {
    crate::poly_sub!(a, b, c)
}
pub fn wit_mul3(a: &LinearBinomial<C>, b: &LinearBinomial<C>, c: &LinearBinomial<C>) -> Polynomial<C> {
    crate::poly_mul!(a, b, c)
}
pub fn wit_add_into2(a: &LinearBinomial<C>, b: &LinearBinomial<C>, sink: &mut LinearBinomial<C>) -> Result<(), TryAddError> {
    crate::poly_add!(*sink; a, b)
}
pub fn wit_sub_into2(a: &LinearBinomial<C>, b: &LinearBinomial<C>, sink: &mut LinearBinomial<C>) -> Result<(), TryAddError> {
    crate::poly_sub!(*sink; a, b)
}
pub fn wit_mul_into2(a: &LinearBinomial<C>, b: &LinearBinomial<C>, sink: &mut QuadraticTrinomial<C>) -> Result<(), TryAddError> {
    crate::poly_mul!(*sink; a, b)
}
