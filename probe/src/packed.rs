//! The packed integers.
use super::marker::*;
use enum_like::{PackedU16, PackedU8};
pub fn new8(x: A) -> PackedU8<A> { PackedU8::new(x) }
pub fn get8(p: PackedU8<A>) -> A { p.get() }
pub fn new16(x: A) -> PackedU16<A> { PackedU16::new(x) }
pub fn get16(p: PackedU16<A>) -> A { p.get() }
