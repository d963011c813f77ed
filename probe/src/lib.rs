//! Root crate of the analysis: it instantiates the crates of /repo with marker types that the
//! analyser treats symbolically. Nothing here is ever executed.
#![feature(fn_traits, unboxed_closures)]
#![allow(dead_code, unused, private_interfaces)]
pub extern crate bit_set;
pub extern crate enum_like;
pub extern crate enum_set2;
pub extern crate enum_vec;
pub extern crate smallvec;

/// Opaque implementations of the traits the library is generic over.
pub mod marker {
    use enum_like::EnumLike;
    use std::hash::{Hash, Hasher};
    macro_rules! elem {
        ($($n:ident)*) => {$(
            #[derive(Copy, Clone, Debug)]
            pub struct $n(usize);
            unsafe impl EnumLike for $n {
                const NUM_VARIANTS: usize = 2;
                fn to_discr(self) -> usize { self.0 }
                fn from_discr(x: usize) -> Self { $n(x) }
            }
            impl PartialEq for $n { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
            impl Eq for $n {}
            impl Own for $n {}
            impl Ord for $n { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
            impl PartialOrd for $n { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
            impl Hash for $n { fn hash<H: Hasher>(&self, h: &mut H) { h.write_usize(self.to_discr()) } }
        )*}
    }
    /// A bound of the user's own.
    pub trait Own {}
    elem! { Elem A B C D }
    /// `FnMut(&Elem) -> bool`
    pub struct PredF(u8);
    impl<'a> FnOnce<(&'a Elem,)> for PredF {
        type Output = bool;
        extern "rust-call" fn call_once(self, _: (&'a Elem,)) -> bool { loop {} }
    }
    impl<'a> FnMut<(&'a Elem,)> for PredF {
        extern "rust-call" fn call_mut(&mut self, _: (&'a Elem,)) -> bool { loop {} }
    }
    /// `FnMut(&mut Elem)`
    pub struct MutF(u8);
    impl<'a> FnOnce<(&'a mut Elem,)> for MutF {
        type Output = ();
        extern "rust-call" fn call_once(self, _: (&'a mut Elem,)) { loop {} }
    }
    impl<'a> FnMut<(&'a mut Elem,)> for MutF {
        extern "rust-call" fn call_mut(&mut self, _: (&'a mut Elem,)) { loop {} }
    }
    /// `FnMut(T)` that only looks
    pub struct ItemF(u8);
    impl<T> FnOnce<(T,)> for ItemF {
        type Output = ();
        extern "rust-call" fn call_once(self, _: (T,)) { loop {} }
    }
    impl<T> FnMut<(T,)> for ItemF {
        extern "rust-call" fn call_mut(&mut self, _: (T,)) { loop {} }
    }
    /// an iterator over `Elem`
    pub struct Iter(u8);
    impl Iterator for Iter {
        type Item = Elem;
        fn next(&mut self) -> Option<Elem> { loop {} }
    }
    pub struct Hash1(u8);
    impl Hasher for Hash1 {
        fn finish(&self) -> u64 { 0 }
        fn write(&mut self, _: &[u8]) {}
    }
}

/// Reference semantics of the standard library loops that take caller-supplied code.
pub mod model {
    use smallvec::{Array, SmallVec};
    use std::fmt::{Debug, DebugList, DebugSet, Formatter, Result as Shown};
    pub fn list_entries<D: Debug, I: IntoIterator<Item = D>>(f: &mut DebugList, it: I) {
        for x in it { f.entry(&x); }
    }
    pub fn set_entries<D: Debug, I: IntoIterator<Item = D>>(f: &mut DebugSet, it: I) {
        for x in it { f.entry(&x); }
    }
    pub fn slice_debug<T: Debug>(v: &[T], f: &mut Formatter) -> Shown {
        let mut l = f.debug_list();
        for x in v { l.entry(x); }
        l.finish()
    }
    pub fn vec_debug<T: Debug>(v: &Vec<T>, f: &mut Formatter) -> Shown {
        let mut l = f.debug_list();
        for x in v.iter() { l.entry(x); }
        l.finish()
    }
    pub fn vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
        for x in it { v.push(x); }
    }
    pub fn vec_extend_ref<'a, T: Copy + 'a, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) {
        for x in it { v.push(*x); }
    }
    pub fn small_vec_extend<A: Array, I: IntoIterator<Item = A::Item>>(v: &mut SmallVec<A>, it: I) {
        for x in it { v.push(x); }
    }
    pub fn vec_collect<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
        let mut v = Vec::new();
        for x in it { v.push(x); }
        v
    }
    pub fn it_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(it: I, b: B, mut f: F) -> B {
        let mut acc = b;
        for x in it { acc = f(acc, x); }
        acc
    }
    pub fn it_for_each<I: Iterator, F: FnMut(I::Item)>(it: I, mut f: F) {
        for x in it { f(x); }
    }
    pub fn it_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
        while let Some(x) = it.next() { if !f(x) { return false; } }
        true
    }
    pub fn it_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
        while let Some(x) = it.next() { if f(x) { return true; } }
        false
    }
    pub fn it_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
        let mut i = 0;
        while let Some(x) = it.next() { if f(x) { return Some(i); } i += 1; }
        None
    }
    pub fn it_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
        while let Some(x) = it.next() { if f(&x) { return Some(x); } }
        None
    }
}

macro_rules! ops {
    ($m:ident, $src:ident) => {
        pub mod $m {
            use super::marker::*;
            use enum_like::EnumLike;
            use enum_vec::$src::{EnumVec, EnumVecIntoIter, EnumVecIter};
            use std::iter::FromIterator;
            type V = EnumVec<Elem>;
            pub fn new() -> V { V::new() }
            pub fn default() -> V { Default::default() }
            pub fn with_capacity(n: usize) -> V { V::with_capacity(n) }
            pub fn capacity(v: &V) -> usize { v.capacity() }
            pub fn get(v: &V, i: usize) -> Option<Elem> { v.get(i) }
            pub fn set(v: &mut V, i: usize, x: Elem) { v.set(i, x) }
            pub fn reserve(v: &mut V, n: usize) { v.reserve(n) }
            pub fn shrink_to_fit(v: &mut V) { v.shrink_to_fit() }
            pub fn truncate(v: &mut V, n: usize) { v.truncate(n) }
            pub fn swap_remove(v: &mut V, i: usize) -> Elem { v.swap_remove(i) }
            pub fn insert(v: &mut V, i: usize, x: Elem) { v.insert(i, x) }
            pub fn remove(v: &mut V, i: usize) -> Elem { v.remove(i) }
            pub fn retain(v: &mut V, f: &mut PredF) { v.retain(f) }
            pub fn push(v: &mut V, x: Elem) { v.push(x) }
            pub fn pop(v: &mut V) -> Option<Elem> { v.pop() }
            pub fn append(v: &mut V, o: &mut V) { v.append(o) }
            pub fn clear(v: &mut V) { v.clear() }
            pub fn len(v: &V) -> usize { v.len() }
            pub fn is_empty(v: &V) -> bool { v.is_empty() }
            pub fn split_off(v: &mut V, i: usize) -> V { v.split_off(i) }
            pub fn resize(v: &mut V, n: usize, x: Elem) { v.resize(n, x) }
            pub fn swap(v: &mut V, i: usize, j: usize) { v.swap(i, j) }
            pub fn for_each(v: &mut V, f: &mut MutF) { v.for_each(f) }
            pub fn to_vec(v: &V) -> Vec<Elem> { v.to_vec() }
            pub fn into_vec(v: V) -> Vec<Elem> { v.into() }
            pub fn from_elem(x: Elem, n: usize) -> V { V::from_elem(x, n) }
            pub fn from_slice(s: &[Elem]) -> V { V::from_slice(s) }
            pub fn from_vec(s: Vec<Elem>) -> V { V::from(s) }
            pub fn from_iter(it: &mut Iter) -> V { V::from_iter(it) }
            pub fn extend(v: &mut V, it: &mut Iter) { v.extend(it) }
            pub fn macro_elem(x: Elem, n: usize) -> V { enum_vec::enum_vec![x; n] }
            pub fn macro_list(x: Elem, y: Elem, z: Elem) -> V { enum_vec::enum_vec![x, y, z] }
            pub fn any(v: &V, x: Elem) -> bool { v.any(x) }
            pub fn all(v: &V, x: Elem) -> bool { v.all(x) }
            pub fn eq(v: &V, o: &V) -> bool { v == o }
            pub fn ne(v: &V, o: &V) -> bool { v != o }
            pub fn hash(v: &V, h: &mut Hash1) { std::hash::Hash::hash(v, h) }
            pub fn debug(v: &V, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(v, f) }
            pub fn clone(v: &V) -> V { v.clone() }
            pub fn clone_from(v: &mut V, o: &V) { v.clone_from(o) }
            pub fn get_raw_unchecked(v: &V, i: usize) -> Elem { Elem::from_discr(unsafe { v.get_raw_unchecked(i) }) }
            pub fn set_raw_unchecked(v: &mut V, i: usize, x: Elem) { unsafe { v.set_raw_unchecked(i, x.to_discr()) } }
            pub fn set_len(v: &mut V, n: usize) { unsafe { v.set_len(n) } }
            pub fn storage(v: &V) -> &(impl Sized + 'static) { v.storage() }
            pub fn storage_mut(v: &mut V) -> &mut (impl Sized + 'static) { unsafe { v.storage_mut() } }
            pub fn iter<'a>(v: &'a V) -> EnumVecIter<'a, Elem> { v.iter() }
            pub fn iter_ref<'a>(v: &'a V) -> EnumVecIter<'a, Elem> { v.into_iter() }
            pub fn into_iter(v: V) -> EnumVecIntoIter<Elem> { v.into_iter() }
            pub fn it_next<'a>(it: &mut EnumVecIter<'a, Elem>) -> Option<Elem> { it.next() }
            pub fn it_next_back<'a>(it: &mut EnumVecIter<'a, Elem>) -> Option<Elem> { it.next_back() }
            pub fn it_nth<'a>(it: &mut EnumVecIter<'a, Elem>, n: usize) -> Option<Elem> { it.nth(n) }
            pub fn it_size<'a>(it: &EnumVecIter<'a, Elem>) -> (usize, Option<usize>) { it.size_hint() }
            pub fn it_len<'a>(it: &EnumVecIter<'a, Elem>) -> usize { it.len() }
            pub fn it_count<'a>(it: EnumVecIter<'a, Elem>) -> usize { it.count() }
            pub fn ii_next(it: &mut EnumVecIntoIter<Elem>) -> Option<Elem> { it.next() }
            pub fn ii_next_back(it: &mut EnumVecIntoIter<Elem>) -> Option<Elem> { it.next_back() }
            pub fn ii_nth(it: &mut EnumVecIntoIter<Elem>, n: usize) -> Option<Elem> { it.nth(n) }
            pub fn ii_size(it: &EnumVecIntoIter<Elem>) -> (usize, Option<usize>) { it.size_hint() }
            pub fn ii_len(it: &EnumVecIntoIter<Elem>) -> usize { it.len() }
            pub fn ii_count(it: EnumVecIntoIter<Elem>) -> usize { it.count() }
            pub fn it_last<'a>(it: EnumVecIter<'a, Elem>) -> Option<Elem> { it.last() }
            pub fn ii_last(it: EnumVecIntoIter<Elem>) -> Option<Elem> { it.last() }
            pub fn it_nth_back<'a>(it: &mut EnumVecIter<'a, Elem>, n: usize) -> Option<Elem> { it.nth_back(n) }
            pub fn it_fold<'a>(it: EnumVecIter<'a, Elem>, f: &mut ItemF) { it.fold((), |_, x| f(x)) }
            pub fn it_rfold<'a>(it: EnumVecIter<'a, Elem>, f: &mut ItemF) { it.rfold((), |_, x| f(x)) }
            pub fn it_for_each<'a>(it: EnumVecIter<'a, Elem>, f: &mut ItemF) { it.for_each(f) }
            pub fn ii_nth_back(it: &mut EnumVecIntoIter<Elem>, n: usize) -> Option<Elem> { it.nth_back(n) }
            pub fn ii_fold(it: EnumVecIntoIter<Elem>, f: &mut ItemF) { it.fold((), |_, x| f(x)) }
            pub fn ii_rfold(it: EnumVecIntoIter<Elem>, f: &mut ItemF) { it.rfold((), |_, x| f(x)) }
            pub fn ii_for_each(it: EnumVecIntoIter<Elem>, f: &mut ItemF) { it.for_each(f) }
        }
    };
}
ops!(ops_u8, vec_u8);
ops!(ops_u16, vec_u16);
ops!(ops_u32, vec_u32);
ops!(ops_u64, vec_u64);
ops!(ops_u128, vec_u128);
ops!(ops_small, smallvec_u32);

pub mod values;
pub mod order;
pub mod packed;
pub mod sets;
pub mod builtin;
pub mod derived;
