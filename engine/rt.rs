// glue between nom and the engine; included by generated crates (which import nom_derive::nom)
pub trait ErrInfo {
    fn kind(&self) -> Option<String> { None }
    fn pos(&self) -> Option<usize> { None }
}
/// where in the input does this one start?
pub trait Pos {
    fn at(&self) -> usize;
}
impl Pos for &[u8] {
    fn at(&self) -> usize { engine::start_of(self) }
}
impl<I: Pos> ErrInfo for nom::error::Error<I> {
    fn kind(&self) -> Option<String> { Some(format!("{:?}", self.code)) }
    fn pos(&self) -> Option<usize> { Some(self.input.at()) }
}
impl ErrInfo for () {}
impl<I: Pos> ErrInfo for (I, nom::error::ErrorKind) {
    fn kind(&self) -> Option<String> { Some(format!("{:?}", self.1)) }
    fn pos(&self) -> Option<usize> { Some(self.0.at()) }
}

/// custom error type for programs with generic errors
#[derive(Debug, PartialEq)]
pub struct MyErr(pub Option<nom::error::ErrorKind>, pub u32);
impl<I> nom::error::ParseError<I> for MyErr {
    fn from_error_kind(_: I, k: nom::error::ErrorKind) -> Self { MyErr(Some(k), 0) }
    fn append(_: I, _: nom::error::ErrorKind, mut o: Self) -> Self { o.1 += 1; o }
}
impl<I, E> nom::error::FromExternalError<I, E> for MyErr {
    fn from_external_error(_: I, k: nom::error::ErrorKind, _: E) -> Self { MyErr(Some(k), 0) }
}
impl ErrInfo for MyErr {
    fn kind(&self) -> Option<String> { self.0.map(|k| format!("{:?}", k)) }
}

/// custom error type which keeps the places of the errors it is made of
#[derive(Debug, PartialEq)]
pub struct PosErr(pub nom::error::ErrorKind, pub usize);
impl<I: Pos> nom::error::ParseError<I> for PosErr {
    fn from_error_kind(i: I, k: nom::error::ErrorKind) -> Self { PosErr(k, i.at()) }
    fn append(_: I, _: nom::error::ErrorKind, o: Self) -> Self { o }
}
impl<I: Pos, E> nom::error::FromExternalError<I, E> for PosErr {
    fn from_external_error(i: I, k: nom::error::ErrorKind, _: E) -> Self { PosErr(k, i.at()) }
}
impl ErrInfo for PosErr {
    fn kind(&self) -> Option<String> { Some(format!("{:?}", self.0)) }
    fn pos(&self) -> Option<usize> { Some(self.1) }
}

pub fn fin<'a, T: engine::Enc, E: ErrInfo>(r: nom::IResult<&'a [u8], T, E>) -> engine::Out {
    finw(r, |v, o| engine::Enc::enc(v, o))
}

pub fn finw<'a, T, E: ErrInfo>(r: nom::IResult<&'a [u8], T, E>, f: impl Fn(&T, &mut Vec<u128>)) -> engine::Out {
    use engine::{Class, Out};
    match r {
        Ok((rem, v)) => {
            let mut o = Out::new(Class::Ok);
            o.rem = engine::rem_of(rem);
            f(&v, &mut o.val);
            o
        }
        Err(nom::Err::Incomplete(n)) => {
            let mut o = Out::new(Class::Inc);
            o.needed = match n { nom::Needed::Unknown => None, nom::Needed::Size(n) => Some(n.get()) };
            o
        }
        Err(nom::Err::Error(e)) => { let mut o = Out::new(Class::Err); o.kind = e.kind(); o.epos = e.pos(); o }
        Err(nom::Err::Failure(e)) => { let mut o = Out::new(Class::Fail); o.kind = e.kind(); o.epos = e.pos(); o }
    }
}
