// types and inputs of users (C25); follows prelude.rs
use nom::{Input, IResult, Needed, error::{ErrorKind, ParseError}};
use std::rc::Rc;

/// one byte, which decides how the parser ends
fn moody<I: InputSlice, E: ParseError<I>>(i: I) -> IResult<I, u8, E> {
    let b = match i.iter_elements().next() {
        None => return Err(nom::Err::Incomplete(Needed::new(1))),
        Some(b) => b,
    };
    match b {
        0xe1 => Err(nom::Err::Error(E::from_error_kind(i, ErrorKind::Alpha))),
        0xe2 => Err(nom::Err::Failure(E::from_error_kind(i, ErrorKind::Alpha))),
        0xe3 => Err(nom::Err::Incomplete(Needed::Unknown)),
        // one more byte is taken
        0xe4 if i.input_len() < 2 => Err(nom::Err::Incomplete(Needed::new(1))),
        0xe4 => Ok((i.take_from(2), b)),
        // nothing is taken
        0xe5 => Ok((i, b)),
        _ => Ok((i.take_from(1), b)),
    }
}

/// user types implementing some of the functions
macro_rules! user {
    ($n:ident $(, $f:ident $m:expr)*) => {
        #[derive(Debug, Clone, Copy, PartialEq, Default)]
        pub struct $n(pub u8, pub u8);
        impl nom::ToUsize for $n { fn to_usize(&self) -> usize { (self.1 & 3) as usize + self.0 as usize } }
        impl engine::Enc for $n { fn enc(&self, o: &mut Vec<u128>) { o.push(self.0 as u128); o.push(self.1 as u128) } }
        impl<I: InputSlice, E: ParseError<I>> Parse<I, E> for $n {
            fn parse(i: I) -> IResult<I, Self, E> { moody(i).map(|(i, x)| (i, $n(3, x))) }
            $( fn $f(i: I) -> IResult<I, Self, E> { moody(i).map(|(i, x)| (i, $n($m, x))) } )*
        }
    };
}
user!(User00);
user!(User10, parse_be 1);
user!(User01, parse_le 2);
user!(User11, parse_be 1, parse_le 2);

/// only for slices, with one type of errors
#[derive(Debug, Clone, Copy, PartialEq, Default)]
pub struct Only1(pub u8, pub u8);
impl engine::Enc for Only1 { fn enc(&self, o: &mut Vec<u128>) { o.push(self.0 as u128); o.push(self.1 as u128) } }
impl<'a> Parse<&'a [u8]> for Only1 {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self> { moody(i).map(|(i, x)| (i, Only1(3, x))) }
    fn parse_le(i: &'a [u8]) -> IResult<&'a [u8], Self> { moody(i).map(|(i, x)| (i, Only1(2, x))) }
}

/// the other byte order
#[derive(Debug, Clone, Copy, PartialEq, Default)]
pub struct Swap<T>(pub T);
impl<T: engine::Enc> engine::Enc for Swap<T> { fn enc(&self, o: &mut Vec<u128>) { self.0.enc(o) } }
impl<T: nom::ToUsize> nom::ToUsize for Swap<T> { fn to_usize(&self) -> usize { self.0.to_usize() } }
impl<I: InputSlice, E: ParseError<I>, T: Parse<I, E>> Parse<I, E> for Swap<T> {
    fn parse(i: I) -> IResult<I, Self, E> { T::parse(i).map(|(i, x)| (i, Swap(x))) }
    fn parse_be(i: I) -> IResult<I, Self, E> { T::parse_le(i).map(|(i, x)| (i, Swap(x))) }
    fn parse_le(i: I) -> IResult<I, Self, E> { T::parse_be(i).map(|(i, x)| (i, Swap(x))) }
}
/// (by one function only: always `parse`)
#[derive(Debug, Clone, Copy, PartialEq, Default)]
pub struct Plain<T>(pub T);
impl<T: engine::Enc> engine::Enc for Plain<T> { fn enc(&self, o: &mut Vec<u128>) { self.0.enc(o) } }
impl<I: InputSlice, E: ParseError<I>, T: Parse<I, E>> Parse<I, E> for Plain<T> {
    fn parse(i: I) -> IResult<I, Self, E> { T::parse(i).map(|(i, x)| (i, Plain(x))) }
}

/// borrowed text with a length
#[derive(Debug, Clone, Copy, PartialEq, Default)]
pub struct Text<'a>(pub &'a str);
impl<'a> engine::Enc for Text<'a> { fn enc(&self, o: &mut Vec<u128>) { engine::Enc::enc(&self.0.as_bytes(), o) } }
impl<'a, 'n: 'a, E: ParseError<&'n [u8]>> Parse<&'n [u8], E> for Text<'a> {
    fn parse(i: &'n [u8]) -> IResult<&'n [u8], Self, E> {
        let (r, n) = u8::parse(i)?;
        if r.len() < n as usize { return Err(nom::Err::Incomplete(Needed::new(n as usize - r.len()))); }
        match core::str::from_utf8(&r[..n as usize]) {
            Ok(s) => Ok((&r[n as usize..], Text(s))),
            Err(_) => Err(nom::Err::Error(E::from_error_kind(i, ErrorKind::Char))),
        }
    }
}

/// inputs which are not slices
pub trait Store: Clone { fn get(&self, k: usize) -> u8; }
#[derive(Clone)]
pub struct In<S> { pub s: S, pub pos: usize, pub len: usize }
impl<S> std::fmt::Debug for In<S> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}+{}", self.pos, self.len) } }
/// inputs which can be compared
pub trait Eqs {}
impl Eqs for Rope {}
impl Eqs for Fun {}
impl<S: Store + Eqs> PartialEq for In<S> {
    fn eq(&self, o: &Self) -> bool { self.iter_elements().eq(o.iter_elements()) }
}
impl<S> Pos for In<S> { fn at(&self) -> usize { self.pos } }
pub struct ItIn<S>(In<S>);
impl<S: Store> Iterator for ItIn<S> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        if self.0.len == 0 { return None; }
        let b = self.0.s.get(self.0.pos);
        self.0.pos += 1;
        self.0.len -= 1;
        Some(b)
    }
}
impl<S: Store> Input for In<S> {
    type Item = u8;
    type Iter = ItIn<S>;
    type IterIndices = std::iter::Enumerate<ItIn<S>>;
    fn input_len(&self) -> usize { self.len }
    fn take(&self, n: usize) -> Self { assert!(n <= self.len); In { s: self.s.clone(), pos: self.pos, len: n } }
    fn take_from(&self, n: usize) -> Self { assert!(n <= self.len); In { s: self.s.clone(), pos: self.pos + n, len: self.len - n } }
    fn take_split(&self, n: usize) -> (Self, Self) { (self.take_from(n), self.take(n)) }
    fn position<P: Fn(u8) -> bool>(&self, p: P) -> Option<usize> { self.iter_elements().position(p) }
    fn iter_elements(&self) -> ItIn<S> { ItIn(self.clone()) }
    fn iter_indices(&self) -> Self::IterIndices { ItIn(self.clone()).enumerate() }
    fn slice_index(&self, n: usize) -> Result<usize, Needed> {
        if n <= self.len { Ok(n) } else { Err(Needed::new(n - self.len)) }
    }
}
impl<S: Store> InputSlice for In<S> {}
impl<S: Store> engine::Enc for In<S> {
    fn enc(&self, o: &mut Vec<u128>) {
        o.push(self.len as u128);
        if self.len != 0 { o.push(self.pos as u128); }
        o.extend(self.iter_elements().map(|b| b as u128));
    }
}

/// pieces
#[derive(Clone)]
pub struct Rope(Rc<Vec<Vec<u8>>>);
impl Store for Rope {
    fn get(&self, mut k: usize) -> u8 {
        for p in self.0.iter() {
            if k < p.len() { return p[k]; }
            k -= p.len();
        }
        panic!("engine: out of the input")
    }
}
pub fn rope(i: &[u8]) -> In<Rope> {
    let a = (engine::kn(0) as usize).min(i.len());
    let b = (a + engine::kn(1) as usize).min(i.len());
    In { s: Rope(Rc::new(vec![i[..a].to_vec(), i[a..b].to_vec(), i[b..].to_vec()])), pos: 0, len: i.len() }
}
/// computed when they are read
#[derive(Clone)]
pub struct Fun(Rc<dyn Fn(usize) -> u8>);
impl Store for Fun { fn get(&self, k: usize) -> u8 { (self.0)(k) } }
pub fn fun(i: &[u8]) -> In<Fun> {
    let mut v: Vec<u8> = i.iter().map(|b| b ^ 0x5a).collect();
    v.reverse();
    let n = v.len();
    In { s: Fun(Rc::new(move |k| v[n - 1 - k] ^ 0x5a)), pos: 0, len: n }
}

/// (which cannot be compared)
#[derive(Clone)]
pub struct Bits(Rc<Vec<[bool; 8]>>);
impl Store for Bits {
    fn get(&self, k: usize) -> u8 { self.0[k].iter().fold(0, |a, b| a << 1 | *b as u8) }
}
pub fn bits(i: &[u8]) -> In<Bits> {
    let v = i.iter().map(|b| { let mut r = [false; 8]; for k in 0..8 { r[k] = b >> (7 - k) & 1 == 1 } r }).collect();
    In { s: Bits(Rc::new(v)), pos: 0, len: i.len() }
}

/// errors which are only made, and not from those of others
#[derive(Debug)]
pub struct Bare(ErrorKind);
impl<I> ParseError<I> for Bare {
    fn from_error_kind(_: I, k: ErrorKind) -> Self { Bare(k) }
    fn append(_: I, _: ErrorKind, o: Self) -> Self { o }
}
impl ErrInfo for Bare { fn kind(&self) -> Option<String> { Some(format!("{:?}", self.0)) } }

pub fn fini<S: Store, T, E: ErrInfo>(total: usize, r: IResult<In<S>, T, E>, f: impl Fn(&T, &mut Vec<u128>)) -> engine::Out {
    use engine::{Class, Out};
    match r {
        Ok((rem, v)) => {
            let mut o = Out::new(Class::Ok);
            o.rem = if rem.pos + rem.len == total { rem.pos } else { usize::MAX };
            f(&v, &mut o.val);
            o
        }
        Err(nom::Err::Incomplete(n)) => {
            let mut o = Out::new(Class::Inc);
            o.needed = match n { Needed::Unknown => None, Needed::Size(n) => Some(n.get()) };
            o
        }
        Err(nom::Err::Error(e)) => { let mut o = Out::new(Class::Err); o.kind = e.kind(); o.epos = e.pos(); o }
        Err(nom::Err::Failure(e)) => { let mut o = Out::new(Class::Fail); o.kind = e.kind(); o.epos = e.pos(); o }
    }
}
