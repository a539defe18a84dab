// ---- base prelude: error type, std contracts, macro stand-ins (trusted; listed in DESIGN.md)
#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_macros, unused_braces, unused_parens)]
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use std::sync::Arc;
use std::ops::Range;
verus! {
#[verifier::external_body]
pub struct DataFusionError { _x: u8 }
pub type Result<T, E = DataFusionError> = core::result::Result<T, E>;

#[verifier::external_body]
pub fn vx_err<T>() -> (r: Result<T>)
    ensures r is Err,
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_dferr() -> (r: DataFusionError)
{ unimplemented!() }

pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize)
    requires b != 0,
    ensures r == spec_div_ceil(a as int, b as int),
    opens_invariants none
;
pub open spec fn spec_div_ceil(a: int, b: int) -> int { if a % b == 0 { a / b } else { a / b + 1 } }

pub assume_specification[ <usize as From<bool>>::from ](b: bool) -> (r: usize)
    ensures r == (if b { 1usize } else { 0usize }),
;
pub assume_specification<T: PartialEq> [ <[T]>::contains ](s: &[T], x: &T) -> (r: bool)
    ensures <T as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() ==> r == (exists|i: int| 0 <= i < s@.len() && vstd::std_specs::cmp::PartialEqSpec::eq_spec(&#[trigger] s@[i], x)),
;
pub assume_specification[ <u64 as From<bool>>::from ](b: bool) -> (r: u64)
    ensures r == (if b { 1u64 } else { 0u64 }),
;

#[verifier::external_body]
pub fn vx_enum_ref<'a, T>(v: &'a Vec<T>) -> (r: Vec<(usize, &'a T)>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i] == (i as usize, &v@[i]),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_enum<T>(v: Vec<T>) -> (r: Vec<(usize, T)>)
    ensures r@.len() == v@.len(), r@.len() <= usize::MAX, forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i] == (i as usize, v@[i]),
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_enum_range(v: Range<usize>) -> (r: Vec<(usize, usize)>)
    ensures r@.len() == if v.start <= v.end { v.end - v.start } else { 0 }, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (i as usize, (v.start + i) as usize),
{ unimplemented!() }
/// `collect::<Result<Vec<_>>>()`: all values, or the first error
#[verifier::external_body]
pub fn vx_all_ok<T, E>(v: Vec<core::result::Result<T, E>>) -> (r: core::result::Result<Vec<T>, E>)
    ensures
        r is Ok ==> r->Ok_0@.len() == v@.len() && forall|i: int| #![trigger r->Ok_0@[i]] #![trigger v@[i]] 0 <= i < v@.len() ==> v@[i] is Ok && r->Ok_0@[i] == v@[i]->Ok_0,
        r is Err ==> exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]) is Err,
{ unimplemented!() }
/// `a.into_iter().zip(b)`
#[verifier::external_body]
pub fn vx_zip<A, B>(a: Vec<A>, b: Vec<B>) -> (r: Vec<(A, B)>)
    ensures r@.len() == if a@.len() <= b@.len() { a@.len() } else { b@.len() },
        forall|i: int| #![trigger r@[i]] #![trigger a@[i]] #![trigger b@[i]] 0 <= i < r@.len() ==> r@[i] == (a@[i], b@[i]),
{ unimplemented!() }

/// how far `a.zip(b)` goes
pub fn vx_zip_len(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub open spec fn eqq<T>(a: T, b: T) -> bool { a == b }
} // verus!
macro_rules! exec_err { ($($t:tt)*) => { vx_err() } }
macro_rules! internal_err { ($($t:tt)*) => { vx_err() } }
macro_rules! plan_err { ($($t:tt)*) => { vx_err() } }
macro_rules! not_impl_err { ($($t:tt)*) => { vx_err() } }
macro_rules! config_err { ($($t:tt)*) => { vx_err() } }
macro_rules! exec_datafusion_err { ($($t:tt)*) => { vx_dferr() } }
macro_rules! internal_datafusion_err { ($($t:tt)*) => { vx_dferr() } }
macro_rules! plan_datafusion_err { ($($t:tt)*) => { vx_dferr() } }
