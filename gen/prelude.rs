#![allow(warnings)]
#![allow(clippy::all)]
pub use nom_derive::*;
pub use nom_derive::nom;
pub use nom::Parser as _;
pub use std::marker::PhantomData;
pub use core::convert::TryFrom;
/// (tuples are not accepted as field types by the derive macro, aliases are)
pub type Tup<A, B> = (A, B);
pub type LD8<'a> = LengthData<u8, &'a [u8]>;

/// user type implementing all three functions: remembers which one was called (`parse` is not `parse_be` here)
#[derive(Debug, Clone, Copy, PartialEq, Default)]
pub struct Which(pub u8, pub u8);
impl engine::Enc for Which { fn enc(&self, o: &mut Vec<u128>) { o.push(self.0 as u128); o.push(self.1 as u128) } }
impl<'a, E: nom::error::ParseError<&'a [u8]>> Parse<&'a [u8], E> for Which {
    fn parse(i: &'a [u8]) -> nom::IResult<&'a [u8], Self, E> {
        if i.is_empty() { return Err(nom::Err::Incomplete(nom::Needed::new(1))); }
        Ok((&i[1..], Which(3, i[0])))
    }
    fn parse_be(i: &'a [u8]) -> nom::IResult<&'a [u8], Self, E> {
        if i.is_empty() { return Err(nom::Err::Incomplete(nom::Needed::new(1))); }
        Ok((&i[1..], Which(1, i[0])))
    }
    fn parse_le(i: &'a [u8]) -> nom::IResult<&'a [u8], Self, E> {
        if i.is_empty() { return Err(nom::Err::Incomplete(nom::Needed::new(1))); }
        Ok((&i[1..], Which(2, i[0])))
    }
}
/// (as a length)
impl nom::ToUsize for Which { fn to_usize(&self) -> usize { (self.1 & 3) as usize + self.0 as usize } }

/// user types implementing only `parse`
macro_rules! only {
    ($n:ident, $t:ty, $f:ident) => {
        #[derive(Debug, Clone, Copy, PartialEq, Default)]
        pub struct $n(pub $t);
        impl nom::ToUsize for $n { fn to_usize(&self) -> usize { self.0 as usize } }
        impl engine::Enc for $n { fn enc(&self, o: &mut Vec<u128>) { engine::Enc::enc(&self.0, o) } }
        impl<'a, E: nom::error::ParseError<&'a [u8]>> Parse<&'a [u8], E> for $n {
            fn parse(i: &'a [u8]) -> nom::IResult<&'a [u8], Self, E> {
                nom::number::streaming::$f(i).map(|(i, x)| (i, $n(x)))
            }
        }
    };
}
only!(OnlyBE16, u16, be_u16);
only!(OnlyLE16, u16, le_u16);
only!(OnlyBE32, u32, be_u32);
only!(OnlyLE32, u32, le_u32);

/// type-preserving transformation of a value, used as Map function
pub trait Twist { fn twist(self) -> Self; }
/// condition on a value, used in Verify
pub trait Chk { fn chk(&self) -> bool; }
macro_rules! twist {
    ($($t:ty)*) => { $(
        impl Twist for $t { fn twist(self) -> Self { self ^ 1 } }
        impl Chk for $t { fn chk(&self) -> bool { *self % 3 != 0 } }
    )* }
}
twist!(u8 u16 u32 u64 i8 i16 i32 i64);
impl<T: Twist> Twist for Vec<T> {
    fn twist(self) -> Self { self.into_iter().rev().map(|x| x.twist()).collect() }
}
impl<T: Twist> Twist for Option<T> { fn twist(self) -> Self { self.map(|x| x.twist()) } }
impl Twist for &[u8] { fn twist(self) -> Self { if self.is_empty() { self } else { &self[1..] } } }
impl<T: Chk> Chk for Vec<T> { fn chk(&self) -> bool { self.len() != 2 && self.iter().all(|x| x.chk()) } }
impl<T: Chk> Chk for Option<T> { fn chk(&self) -> bool { self.as_ref().map(|x| x.chk()).unwrap_or(true) } }
impl Chk for &[u8] { fn chk(&self) -> bool { self.first().map(|x| x % 3 != 0).unwrap_or(true) } }

