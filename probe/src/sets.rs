//! The sets.
use super::marker::{Elem, ItemF, Iter as Items};
use bit_set::BitSet;
use enum_set2::{Difference, EnumSet, Intersection, Iter, SymmetricDifference, Union, WrapIter};
use std::iter::FromIterator;
pub fn new() -> EnumSet<Elem> { EnumSet::new() }
pub fn default() -> EnumSet<Elem> { Default::default() }
pub fn from_bits(b: BitSet) -> EnumSet<Elem> { EnumSet::from_bit_set(b) }
pub fn into_bits(s: EnumSet<Elem>) -> BitSet { s.into_bit_set() }
pub fn get_ref(s: &EnumSet<Elem>) -> &BitSet { s.get_ref() }
pub fn shrink(s: &mut EnumSet<Elem>) { s.shrink_to_fit() }
pub fn union_with(s: &mut EnumSet<Elem>, o: &EnumSet<Elem>) { s.union_with(o) }
pub fn intersect_with(s: &mut EnumSet<Elem>, o: &EnumSet<Elem>) { s.intersect_with(o) }
pub fn difference_with(s: &mut EnumSet<Elem>, o: &EnumSet<Elem>) { s.difference_with(o) }
pub fn symmetric_difference_with(s: &mut EnumSet<Elem>, o: &EnumSet<Elem>) { s.symmetric_difference_with(o) }
pub fn len(s: &EnumSet<Elem>) -> usize { s.len() }
pub fn is_empty(s: &EnumSet<Elem>) -> bool { s.is_empty() }
pub fn clear(s: &mut EnumSet<Elem>) { s.clear() }
pub fn contains(s: &EnumSet<Elem>, x: Elem) -> bool { s.contains(x) }
pub fn is_disjoint(s: &EnumSet<Elem>, o: &EnumSet<Elem>) -> bool { s.is_disjoint(o) }
pub fn is_subset(s: &EnumSet<Elem>, o: &EnumSet<Elem>) -> bool { s.is_subset(o) }
pub fn is_superset(s: &EnumSet<Elem>, o: &EnumSet<Elem>) -> bool { s.is_superset(o) }
pub fn insert(s: &mut EnumSet<Elem>, x: Elem) -> bool { s.insert(x) }
pub fn remove(s: &mut EnumSet<Elem>, x: Elem) -> bool { s.remove(x) }
pub fn extend(s: &mut EnumSet<Elem>, it: &mut Items) { s.extend(it) }
pub fn from_iter(it: &mut Items) -> EnumSet<Elem> { EnumSet::from_iter(it) }
pub fn clone(s: &EnumSet<Elem>) -> EnumSet<Elem> { s.clone() }
pub fn clone_from(s: &mut EnumSet<Elem>, o: &EnumSet<Elem>) { s.clone_from(o) }
pub fn debug(s: &EnumSet<Elem>, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(s, f) }
pub fn eq(s: &EnumSet<Elem>, o: &EnumSet<Elem>) -> bool { s == o }
pub fn ne(s: &EnumSet<Elem>, o: &EnumSet<Elem>) -> bool { s != o }
pub fn hash(s: &EnumSet<Elem>, h: &mut super::marker::Hash1) { std::hash::Hash::hash(s, h) }
pub fn cmp(s: &EnumSet<Elem>, o: &EnumSet<Elem>) -> std::cmp::Ordering { s.cmp(o) }
pub fn partial_cmp(s: &EnumSet<Elem>, o: &EnumSet<Elem>) -> Option<std::cmp::Ordering> { s.partial_cmp(o) }
pub fn lt(s: &EnumSet<Elem>, o: &EnumSet<Elem>) -> bool { s < o }
pub fn le(s: &EnumSet<Elem>, o: &EnumSet<Elem>) -> bool { s <= o }
pub fn gt(s: &EnumSet<Elem>, o: &EnumSet<Elem>) -> bool { s > o }
pub fn ge(s: &EnumSet<Elem>, o: &EnumSet<Elem>) -> bool { s >= o }
pub fn iter<'a>(s: &'a EnumSet<Elem>) -> Iter<'a, Elem> { s.iter() }
pub fn into_iter<'a>(s: &'a EnumSet<Elem>) -> Iter<'a, Elem> { s.into_iter() }
pub fn union<'a>(s: &'a EnumSet<Elem>, o: &'a EnumSet<Elem>) -> Union<'a, Elem> { s.union(o) }
pub fn intersection<'a>(s: &'a EnumSet<Elem>, o: &'a EnumSet<Elem>) -> Intersection<'a, Elem> { s.intersection(o) }
pub fn difference<'a>(s: &'a EnumSet<Elem>, o: &'a EnumSet<Elem>) -> Difference<'a, Elem> { s.difference(o) }
pub fn symmetric_difference<'a>(s: &'a EnumSet<Elem>, o: &'a EnumSet<Elem>) -> SymmetricDifference<'a, Elem> { s.symmetric_difference(o) }
pub fn iter_next<'a>(i: &mut Iter<'a, Elem>) -> Option<Elem> { i.next() }
pub fn union_next<'a>(i: &mut Union<'a, Elem>) -> Option<Elem> { i.next() }
pub fn intersection_next<'a>(i: &mut Intersection<'a, Elem>) -> Option<Elem> { i.next() }
pub fn difference_next<'a>(i: &mut Difference<'a, Elem>) -> Option<Elem> { i.next() }
pub fn symmetric_difference_next<'a>(i: &mut SymmetricDifference<'a, Elem>) -> Option<Elem> { i.next() }
pub fn iter_size<'a>(i: &Iter<'a, Elem>) -> (usize, Option<usize>) { i.size_hint() }
pub fn union_size<'a>(i: &Union<'a, Elem>) -> (usize, Option<usize>) { i.size_hint() }
pub fn intersection_size<'a>(i: &Intersection<'a, Elem>) -> (usize, Option<usize>) { i.size_hint() }
pub fn difference_size<'a>(i: &Difference<'a, Elem>) -> (usize, Option<usize>) { i.size_hint() }
pub fn symmetric_difference_size<'a>(i: &SymmetricDifference<'a, Elem>) -> (usize, Option<usize>) { i.size_hint() }
pub fn iter_last<'a>(i: Iter<'a, Elem>) -> Option<Elem> { i.last() }
pub fn iter_count<'a>(i: Iter<'a, Elem>) -> usize { i.count() }
pub fn iter_nth<'a>(i: &mut Iter<'a, Elem>, n: usize) -> Option<Elem> { i.nth(n) }
pub fn iter_fold<'a>(i: Iter<'a, Elem>, f: &mut ItemF) { i.fold((), |_, x| f(x)) }
pub fn iter_for_each<'a>(i: Iter<'a, Elem>, f: &mut ItemF) { i.for_each(f) }
pub fn union_last<'a>(i: Union<'a, Elem>) -> Option<Elem> { i.last() }
pub fn union_count<'a>(i: Union<'a, Elem>) -> usize { i.count() }
pub fn union_nth<'a>(i: &mut Union<'a, Elem>, n: usize) -> Option<Elem> { i.nth(n) }
pub fn union_fold<'a>(i: Union<'a, Elem>, f: &mut ItemF) { i.fold((), |_, x| f(x)) }
pub fn union_for_each<'a>(i: Union<'a, Elem>, f: &mut ItemF) { i.for_each(f) }
pub fn intersection_last<'a>(i: Intersection<'a, Elem>) -> Option<Elem> { i.last() }
pub fn intersection_count<'a>(i: Intersection<'a, Elem>) -> usize { i.count() }
pub fn intersection_nth<'a>(i: &mut Intersection<'a, Elem>, n: usize) -> Option<Elem> { i.nth(n) }
pub fn intersection_fold<'a>(i: Intersection<'a, Elem>, f: &mut ItemF) { i.fold((), |_, x| f(x)) }
pub fn intersection_for_each<'a>(i: Intersection<'a, Elem>, f: &mut ItemF) { i.for_each(f) }
pub fn difference_last<'a>(i: Difference<'a, Elem>) -> Option<Elem> { i.last() }
pub fn difference_count<'a>(i: Difference<'a, Elem>) -> usize { i.count() }
pub fn difference_nth<'a>(i: &mut Difference<'a, Elem>, n: usize) -> Option<Elem> { i.nth(n) }
pub fn difference_fold<'a>(i: Difference<'a, Elem>, f: &mut ItemF) { i.fold((), |_, x| f(x)) }
pub fn difference_for_each<'a>(i: Difference<'a, Elem>, f: &mut ItemF) { i.for_each(f) }
pub fn symmetric_difference_last<'a>(i: SymmetricDifference<'a, Elem>) -> Option<Elem> { i.last() }
pub fn symmetric_difference_count<'a>(i: SymmetricDifference<'a, Elem>) -> usize { i.count() }
pub fn symmetric_difference_nth<'a>(i: &mut SymmetricDifference<'a, Elem>, n: usize) -> Option<Elem> { i.nth(n) }
pub fn symmetric_difference_fold<'a>(i: SymmetricDifference<'a, Elem>, f: &mut ItemF) { i.fold((), |_, x| f(x)) }
pub fn symmetric_difference_for_each<'a>(i: SymmetricDifference<'a, Elem>, f: &mut ItemF) { i.for_each(f) }
