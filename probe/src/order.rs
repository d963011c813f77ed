//! Comparing packed integers.
use super::marker::*;
use enum_like::{PackedU16, PackedU8};
use std::cmp::Ordering;
pub fn eq8(a: &PackedU8<A>, b: &PackedU8<A>) -> bool { a == b }
pub fn ne8(a: &PackedU8<A>, b: &PackedU8<A>) -> bool { a != b }
pub fn lt8(a: &PackedU8<A>, b: &PackedU8<A>) -> bool { a < b }
pub fn le8(a: &PackedU8<A>, b: &PackedU8<A>) -> bool { a <= b }
pub fn gt8(a: &PackedU8<A>, b: &PackedU8<A>) -> bool { a > b }
pub fn ge8(a: &PackedU8<A>, b: &PackedU8<A>) -> bool { a >= b }
pub fn cmp8(a: &PackedU8<A>, b: &PackedU8<A>) -> Ordering { a.cmp(b) }
pub fn partial_cmp8(a: &PackedU8<A>, b: &PackedU8<A>) -> Option<Ordering> { a.partial_cmp(b) }
pub fn clone8(a: &PackedU8<A>) -> PackedU8<A> { a.clone() }
pub fn eq16(a: &PackedU16<A>, b: &PackedU16<A>) -> bool { a == b }
pub fn ne16(a: &PackedU16<A>, b: &PackedU16<A>) -> bool { a != b }
pub fn lt16(a: &PackedU16<A>, b: &PackedU16<A>) -> bool { a < b }
pub fn le16(a: &PackedU16<A>, b: &PackedU16<A>) -> bool { a <= b }
pub fn gt16(a: &PackedU16<A>, b: &PackedU16<A>) -> bool { a > b }
pub fn ge16(a: &PackedU16<A>, b: &PackedU16<A>) -> bool { a >= b }
pub fn cmp16(a: &PackedU16<A>, b: &PackedU16<A>) -> Ordering { a.cmp(b) }
pub fn partial_cmp16(a: &PackedU16<A>, b: &PackedU16<A>) -> Option<Ordering> { a.partial_cmp(b) }
pub fn clone16(a: &PackedU16<A>) -> PackedU16<A> { a.clone() }
