//! The iterator over all values of a type.
use super::marker::*;
use enum_like::{EnumLike, EnumValues, Values};
pub fn start() -> Values<A> { A::values() }
pub fn next(it: &mut Values<A>) -> Option<A> { it.next() }
pub fn nth(it: &mut Values<A>, n: usize) -> Option<A> { it.nth(n) }
pub fn size(it: &Values<A>) -> (usize, Option<usize>) { it.size_hint() }
pub fn len(it: &Values<A>) -> usize { it.len() }
pub fn count(it: Values<A>) -> usize { it.count() }
pub fn last(it: Values<A>) -> Option<A> { it.last() }
pub fn fold(it: Values<A>, f: &mut ItemF) { it.fold((), |_, x| f(x)) }
pub fn for_each(it: Values<A>, f: &mut ItemF) { it.for_each(f) }
