//! Reference model of the attribute language.
//!
//! This is a direct interpreter of *declarations* (field types, attribute lists, object attributes)
//! written from the documentation of nom-derive (src/docs.rs, README, UPGRADING); it shares no code
//! with nom-derive or nom.  It is deliberately boring: a cursor, an environment, a trace.
use crate::sx::Sx;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Parse,
    Be,
    Le,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fixed {
    Entry,
    Be,
    Le,
    Dyn,
}

#[derive(Clone, Debug)]
pub enum Ty {
    Int { w: usize, signed: bool },
    Float { w: usize },
    Opt(Box<Ty>),
    Vec(Box<Ty>),
    Arr(Box<Ty>, usize),
    Tup(Box<Ty>, Box<Ty>),
    Str,
    LData(Box<Ty>),
    Obj(String),
    Phantom,
    /// user type which records the entry point it was called with, and one byte
    Which,
    /// user type implementing only `parse`: always read with this endianness
    Only { w: usize, be: bool },
    /// user type with some of the functions, whose byte decides how the parser ends
    User { be: bool, le: bool },
    /// user type which parses with the other byte order, or always with `parse`
    Swap(Box<Ty>),
    Plain(Box<Ty>),
    /// user type which reads the selector of an object first
    Tagged(String),
    /// length and text
    Text,
    /// type without a parser (field must have a terminal attribute)
    NoParse,
}

#[derive(Clone, Debug)]
pub enum Ex {
    Int(i128),
    Var(u32),
    Knob(usize),
    Bin(Bop, Box<Ex>, Box<Ex>),
    Not(Box<Ex>),
    Neg(Box<Ex>),
    If(Box<Ex>, Box<Ex>, Box<Ex>),
    Len(Box<Ex>),
    UnwrapOr(Box<Ex>, Box<Ex>),
    Fld(Box<Ex>, usize),
    Ev(u32, Box<Ex>),
    /// type-preserving transformation and condition (traits `Twist` and `Chk` of the harness)
    Twist(Box<Ex>),
    Chk(Box<Ex>),
    /// bytes as a list of integers
    AsList(Box<Ex>),
    /// length of current input variable
    ILen,
    /// length of the input of the object
    OrigLen,
    /// first byte of current input, or -1
    IPeek,
    /// constructors, for values
    Some(Box<Ex>),
    None,
    List(Vec<Ex>),
    Tuple(Vec<Ex>),
    Unit,
    /// slice of the current input variable
    Bytes(Vec<u8>),
    Slice(Vec<u8>),
}

#[derive(Clone, Copy, Debug)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
    And,
    Or,
    BitAnd,
    BitOr,
    BitXor,
    Shl,
    Shr,
}

#[derive(Clone, Debug)]
pub enum P {
    Int { w: usize, signed: bool, be: bool },
    Ty(Ty, End),
    Obj(String, End, Vec<Ex>),
    Take(Ex),
    Tag(Vec<u8>),
    TagE(Ex),
    Opt(Box<P>),
    Many(Box<P>),
    Complete(Box<P>),
    Count(Box<P>, Ex),
    LCount(Box<P>, Box<P>),
    LData(Box<P>),
    Verify(Box<P>, u32, Ex),
    Map(Box<P>, u32, Ex),
    Pair(Box<P>, Box<P>),
    Ev(u32, Box<P>),
    Ret(Ex),
    /// the second parser follows, with the value of the first bound
    Bind(Box<P>, u32, Box<P>),
    If(Ex, Box<P>, Box<P>),
    /// event with a value
    EvX(u32, Ex, Box<P>),
    Fail,
    Err,
    Inc,
    Rest,
}

#[derive(Clone, Debug)]
pub enum At {
    Complete,
    Debug,
    Cond(Ex),
    Count(Ex),
    LCount(P),
    Into,
    Map(u32, Ex),
    Verify(Ex),
    Parse(P),
    Tag(Vec<u8>),
    TagE(Ex),
    Take(Ex),
    Value(Ex),
    Ignore,
    Be,
    Le,
    SetEndian(Ex),
    Pre(Stmt),
    Post(Stmt),
    AlignB(Ex),
    AlignA(Ex),
    SkipB(Ex),
    SkipA(Ex),
    Move(Ex),
    MoveAbs(Ex),
    ErrIf(Ex),
    Exact,
}

/// effect of PreExec/PostExec statements
#[derive(Clone, Debug)]
pub enum Stmt {
    Ev(u32, Ex),
    Let(u32, Ex),
    /// advance the current input variable
    Advance(Ex),
    /// keep only the first bytes of the current input variable, and back
    Narrow(Ex),
    Widen,
    Seq(Vec<Stmt>),
    /// early return of an error: `if c { return Err(Error) }`
    FailIf(Ex),
}

#[derive(Clone, Debug)]
pub struct Field {
    pub name: u32,
    pub label: String,
    pub ty: Ty,
    pub attrs: Vec<At>,
}

#[derive(Clone, Debug)]
pub enum Pat {
    Wild,
    Int(i128),
    Range(i128, i128),
    Or(Vec<Pat>),
    Tup(Vec<Pat>),
    Bind(u32, Box<Pat>),
    Guard(Box<Pat>, Ex),
}

#[derive(Clone, Debug)]
pub struct Variant {
    pub pat: Pat,
    pub fields: Vec<Field>,
    /// unit variants: attributes are on the variant
    pub unit: Option<Vec<At>>,
}

#[derive(Clone, Debug)]
pub enum Kind {
    Struct(Vec<Field>),
    Enum(Vec<Variant>),
    Fieldless { w: usize, signed: bool, vals: Vec<i128> },
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub name: String,
    pub kind: Kind,
    pub endian: Fixed,
    pub complete: bool,
    pub debug: bool,
    pub args: Vec<u32>,
    pub selector: Option<u32>,
    pub attrs: Vec<At>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    I(i128),
    F(u64),
    B { off: usize, bytes: Vec<u8> },
    S(Vec<u8>),
    O(Option<Box<V>>),
    L(Vec<V>),
    A(Vec<V>),
    E(usize, Vec<V>),
    U,
}

impl V {
    pub fn tokens(&self, o: &mut Vec<u128>) {
        match self {
            V::I(x) => o.push(*x as u128),
            V::F(b) => o.push(*b as u128),
            V::B { off, bytes } => {
                o.push(bytes.len() as u128);
                if !bytes.is_empty() {
                    o.push(*off as u128);
                }
                o.extend(bytes.iter().map(|b| *b as u128));
            }
            V::S(s) => {
                o.push(s.len() as u128);
                o.extend(s.iter().map(|b| *b as u128));
            }
            V::O(None) => o.push(0),
            V::O(Some(v)) => {
                o.push(1);
                v.tokens(o)
            }
            V::L(l) => {
                o.push(l.len() as u128);
                for v in l {
                    v.tokens(o)
                }
            }
            V::A(l) => {
                for v in l {
                    v.tokens(o)
                }
            }
            V::E(k, l) => {
                o.push(*k as u128);
                for v in l {
                    v.tokens(o)
                }
            }
            V::U => (),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Bad {
    Inc,
    /// recoverable error; kind given only where it is documented
    Err(Option<&'static str>),
    Fail,
}

pub type R = Result<(usize, V), Bad>;

#[derive(Default)]
pub struct Program {
    pub objs: HashMap<String, Obj>,
    names: HashMap<String, u32>,
}

pub struct Run<'p> {
    pub prog: &'p Program,
    pub input: &'p [u8],
    pub knobs: &'p [i128],
    pub events: Vec<u128>,
    pub dbg: Vec<String>,
    pub steps: u64,
    /// without the `alloc` feature, arrays use `fill` (short input is Incomplete)
    pub no_alloc: bool,
    /// inputs which were narrowed by user code
    wide: Vec<&'p [u8]>,
    /// where the last error points: start of what failed
    pub epos: usize,
    full: usize,
}

struct St {
    env: Vec<(u32, V)>,
    orig: usize,
    pos: usize,
    dynend: Option<bool>,
    e: End,
}

impl Program {
    pub fn intern(&mut self, s: &str) -> u32 {
        let n = self.names.len() as u32;
        *self.names.entry(s.to_string()).or_insert(n)
    }

    pub fn ty(&mut self, s: &Sx) -> Ty {
        match s {
            Sx::A(a) => match a.as_str() {
                "u8" | "u16" | "u32" | "u64" | "u128" => Ty::Int {
                    w: a[1..].parse::<usize>().unwrap() / 8,
                    signed: false,
                },
                "i8" | "i16" | "i32" | "i64" | "i128" => Ty::Int {
                    w: a[1..].parse::<usize>().unwrap() / 8,
                    signed: true,
                },
                "f32" => Ty::Float { w: 4 },
                "f64" => Ty::Float { w: 8 },
                "str" => Ty::Str,
                "phantom" => Ty::Phantom,
                "which" => Ty::Which,
                "noparse" => Ty::NoParse,
                "text" => Ty::Text,
                _ => panic!("engine: bad type {}", a),
            },
            Sx::L(l) => match l[0].atom() {
                "opt" => Ty::Opt(Box::new(self.ty(&l[1]))),
                "vec" => Ty::Vec(Box::new(self.ty(&l[1]))),
                "arr" => Ty::Arr(Box::new(self.ty(&l[1])), l[2].int() as usize),
                "tup" => Ty::Tup(Box::new(self.ty(&l[1])), Box::new(self.ty(&l[2]))),
                "ldata" => Ty::LData(Box::new(self.ty(&l[1]))),
                "only" => Ty::Only {
                    w: l[1].int() as usize,
                    be: l[2].atom() == "be",
                },
                "obj" => Ty::Obj(l[1].atom().to_string()),
                "user" => Ty::User {
                    be: l[1].int() != 0,
                    le: l[2].int() != 0,
                },
                "swap" => Ty::Swap(Box::new(self.ty(&l[1]))),
                "plain" => Ty::Plain(Box::new(self.ty(&l[1]))),
                "tagged" => Ty::Tagged(l[1].atom().to_string()),
                x => panic!("engine: bad type {}", x),
            },
        }
    }

    pub fn ex(&mut self, s: &Sx) -> Ex {
        match s {
            Sx::A(a) => {
                if let Ok(n) = a.parse::<i128>() {
                    return Ex::Int(n);
                }
                match a.as_str() {
                    "ilen" => Ex::ILen,
                    "origlen" => Ex::OrigLen,
                    "ipeek" => Ex::IPeek,
                    "none" => Ex::None,
                    "unit" => Ex::Unit,
                    _ => Ex::Var(self.intern(a)),
                }
            }
            Sx::L(l) => {
                let h = l[0].atom();
                let bop = match h {
                    "+" => Some(Bop::Add),
                    "-" => Some(Bop::Sub),
                    "*" => Some(Bop::Mul),
                    "/" => Some(Bop::Div),
                    "%" => Some(Bop::Rem),
                    "==" => Some(Bop::Eq),
                    "!=" => Some(Bop::Ne),
                    "<" => Some(Bop::Lt),
                    "<=" => Some(Bop::Le),
                    ">" => Some(Bop::Gt),
                    ">=" => Some(Bop::Ge),
                    "and" => Some(Bop::And),
                    "or" => Some(Bop::Or),
                    "&" => Some(Bop::BitAnd),
                    "|" => Some(Bop::BitOr),
                    "^" => Some(Bop::BitXor),
                    "<<" => Some(Bop::Shl),
                    ">>" => Some(Bop::Shr),
                    _ => None,
                };
                if let Some(b) = bop {
                    return Ex::Bin(b, Box::new(self.ex(&l[1])), Box::new(self.ex(&l[2])));
                }
                match h {
                    "not" => Ex::Not(Box::new(self.ex(&l[1]))),
                    "neg" => Ex::Neg(Box::new(self.ex(&l[1]))),
                    "if" => Ex::If(
                        Box::new(self.ex(&l[1])),
                        Box::new(self.ex(&l[2])),
                        Box::new(self.ex(&l[3])),
                    ),
                    "k" => Ex::Knob(l[1].int() as usize),
                    "len" => Ex::Len(Box::new(self.ex(&l[1]))),
                    "unwrap_or" => {
                        Ex::UnwrapOr(Box::new(self.ex(&l[1])), Box::new(self.ex(&l[2])))
                    }
                    "fld" => Ex::Fld(Box::new(self.ex(&l[1])), l[2].int() as usize),
                    "ev" => Ex::Ev(l[1].int() as u32, Box::new(self.ex(&l[2]))),
                    "twist" => Ex::Twist(Box::new(self.ex(&l[1]))),
                    "aslist" => Ex::AsList(Box::new(self.ex(&l[1]))),
                    "chk" => Ex::Chk(Box::new(self.ex(&l[1]))),
                    "some" => Ex::Some(Box::new(self.ex(&l[1]))),
                    "list" => Ex::List(l[1..].iter().map(|x| self.ex(x)).collect()),
                    "tuple" => Ex::Tuple(l[1..].iter().map(|x| self.ex(x)).collect()),
                    "slice" => Ex::Slice(l[1..].iter().map(|x| x.int() as u8).collect()),
                    "bytes" => Ex::Bytes(l[1..].iter().map(|x| x.int() as u8).collect()),
                    x => panic!("engine: bad expr {}", x),
                }
            }
        }
    }

    fn end(s: &Sx) -> End {
        match s.atom() {
            "parse" => End::Parse,
            "be" => End::Be,
            "le" => End::Le,
            x => panic!("engine: bad endianness {}", x),
        }
    }

    pub fn p(&mut self, s: &Sx) -> P {
        match s {
            Sx::A(a) => match a.as_str() {
                "fail" => P::Fail,
                "err" => P::Err,
                "inc" => P::Inc,
                "rest" => P::Rest,
                _ => panic!("engine: bad parser {}", a),
            },
            Sx::L(l) => match l[0].atom() {
                "int" => P::Int {
                    w: l[1].int() as usize,
                    be: l[2].atom() == "be",
                    signed: l.len() > 3 && l[3].atom() == "s",
                },
                "ty" => P::Ty(self.ty(&l[1]), Self::end(&l[2])),
                "obj" => P::Obj(
                    l[1].atom().to_string(),
                    Self::end(&l[2]),
                    l[3..].iter().map(|x| self.ex(x)).collect(),
                ),
                "take" => P::Take(self.ex(&l[1])),
                "tag" => P::Tag(l[1..].iter().map(|x| x.int() as u8).collect()),
                "tage" => P::TagE(self.ex(&l[1])),
                "opt" => P::Opt(Box::new(self.p(&l[1]))),
                "many" => P::Many(Box::new(self.p(&l[1]))),
                "complete" => P::Complete(Box::new(self.p(&l[1]))),
                "count" => P::Count(Box::new(self.p(&l[1])), self.ex(&l[2])),
                "lcount" => P::LCount(Box::new(self.p(&l[1])), Box::new(self.p(&l[2]))),
                "ldata" => P::LData(Box::new(self.p(&l[1]))),
                "verify" => {
                    let n = self.intern(l[2].atom());
                    P::Verify(Box::new(self.p(&l[1])), n, self.ex(&l[3]))
                }
                "map" => {
                    let n = self.intern(l[2].atom());
                    P::Map(Box::new(self.p(&l[1])), n, self.ex(&l[3]))
                }
                "pair" => P::Pair(Box::new(self.p(&l[1])), Box::new(self.p(&l[2]))),
                "ev" => P::Ev(l[1].int() as u32, Box::new(self.p(&l[2]))),
                "pev" => P::EvX(l[1].int() as u32, self.ex(&l[2]), Box::new(self.p(&l[3]))),
                "ret" => P::Ret(self.ex(&l[1])),
                "bind" => {
                    let n = self.intern(l[2].atom());
                    P::Bind(Box::new(self.p(&l[1])), n, Box::new(self.p(&l[3])))
                }
                "if" => P::If(self.ex(&l[1]), Box::new(self.p(&l[2])), Box::new(self.p(&l[3]))),
                x => panic!("engine: bad parser {}", x),
            },
        }
    }

    fn stmt(&mut self, s: &Sx) -> Stmt {
        let l = s.list();
        match l[0].atom() {
            "ev" => Stmt::Ev(l[1].int() as u32, self.ex(&l[2])),
            "let" => Stmt::Let(self.intern(l[1].atom()), self.ex(&l[2])),
            "advance" => Stmt::Advance(self.ex(&l[1])),
            "narrow" => Stmt::Narrow(self.ex(&l[1])),
            "widen" => Stmt::Widen,
            "seq" => Stmt::Seq(l[1..].iter().map(|x| self.stmt(x)).collect()),
            "failif" => Stmt::FailIf(self.ex(&l[1])),
            x => panic!("engine: bad statement {}", x),
        }
    }

    fn at(&mut self, s: &Sx) -> At {
        let l = s.list();
        match l[0].atom() {
            "complete" => At::Complete,
            "debug" => At::Debug,
            "cond" => At::Cond(self.ex(&l[1])),
            "count" => At::Count(self.ex(&l[1])),
            "lcount" => At::LCount(self.p(&l[1])),
            "into" => At::Into,
            "map" => {
                let n = self.intern(l[1].atom());
                At::Map(n, self.ex(&l[2]))
            }
            "verify" => At::Verify(self.ex(&l[1])),
            "parse" => At::Parse(self.p(&l[1])),
            "tag" => At::Tag(l[1..].iter().map(|x| x.int() as u8).collect()),
            "tage" => At::TagE(self.ex(&l[1])),
            "take" => At::Take(self.ex(&l[1])),
            "value" => At::Value(self.ex(&l[1])),
            "ignore" => At::Ignore,
            "be" => At::Be,
            "le" => At::Le,
            "setendian" => At::SetEndian(self.ex(&l[1])),
            "pre" => At::Pre(self.stmt(&l[1])),
            "post" => At::Post(self.stmt(&l[1])),
            "alignb" => At::AlignB(self.ex(&l[1])),
            "aligna" => At::AlignA(self.ex(&l[1])),
            "skipb" => At::SkipB(self.ex(&l[1])),
            "skipa" => At::SkipA(self.ex(&l[1])),
            "move" => At::Move(self.ex(&l[1])),
            "moveabs" => At::MoveAbs(self.ex(&l[1])),
            "errif" => At::ErrIf(self.ex(&l[1])),
            "exact" => At::Exact,
            x => panic!("engine: bad attribute {}", x),
        }
    }

    fn field(&mut self, s: &Sx) -> Field {
        // (f name ty attr...)
        let l = s.list();
        assert!(l[0].atom() == "f");
        Field {
            name: self.intern(l[1].atom()),
            label: l[1].atom().to_string(),
            ty: self.ty(&l[2]),
            attrs: l[3..].iter().map(|x| self.at(x)).collect(),
        }
    }

    fn pat(&mut self, s: &Sx) -> Pat {
        match s {
            Sx::A(a) if a == "_" => Pat::Wild,
            Sx::A(_) => Pat::Int(s.int()),
            Sx::L(l) => match l[0].atom() {
                "range" => Pat::Range(l[1].int(), l[2].int()),
                "or" => Pat::Or(l[1..].iter().map(|x| self.pat(x)).collect()),
                "tup" => Pat::Tup(l[1..].iter().map(|x| self.pat(x)).collect()),
                "bind" => {
                    let n = self.intern(l[1].atom());
                    Pat::Bind(n, Box::new(self.pat(&l[2])))
                }
                "guard" => Pat::Guard(Box::new(self.pat(&l[1])), self.ex(&l[2])),
                x => panic!("engine: bad pattern {}", x),
            },
        }
    }

    /// (struct Name (endian e) [complete] [debug] (args a b) (sel name) (attrs ...) (fields ...))
    pub fn add_obj(&mut self, s: &Sx) {
        let l = s.list();
        let name = l[1].atom().to_string();
        let endian = match s.get("endian").map(|x| x[0].atom()).unwrap_or("entry") {
            "entry" => Fixed::Entry,
            "be" => Fixed::Be,
            "le" => Fixed::Le,
            "dyn" => Fixed::Dyn,
            x => panic!("engine: bad endian {}", x),
        };
        let flag = |n: &str| l.iter().any(|x| x == &Sx::A(n.to_string()));
        let args = s
            .get("args")
            .map(|x| x.to_vec())
            .unwrap_or_default()
            .iter()
            .map(|x| self.intern(x.atom()))
            .collect();
        let selector = s.get("sel").map(|x| x[0].clone()).map(|x| self.intern(x.atom()));
        let attrs = s
            .get("attrs")
            .map(|x| x.to_vec())
            .unwrap_or_default()
            .iter()
            .map(|x| self.at(x))
            .collect();
        let kind = match l[0].atom() {
            "struct" => Kind::Struct(
                s.get("fields")
                    .map(|x| x.to_vec())
                    .unwrap_or_default()
                    .iter()
                    .map(|x| self.field(x))
                    .collect(),
            ),
            "enum" => Kind::Enum(
                s.get("variants")
                    .unwrap()
                    .to_vec()
                    .iter()
                    .map(|v| {
                        // (v pat (fields ...)) or (v pat (unit attr...))
                        let vl = v.list();
                        Variant {
                            pat: self.pat(&vl[1]),
                            fields: v
                                .get("fields")
                                .map(|x| x.to_vec())
                                .unwrap_or_default()
                                .iter()
                                .map(|x| self.field(x))
                                .collect(),
                            unit: v
                                .get("unit")
                                .map(|x| x.to_vec())
                                .map(|x| x.iter().map(|a| self.at(a)).collect()),
                        }
                    })
                    .collect(),
            ),
            "fieldless" => {
                let repr = s.get("repr").unwrap()[0].clone();
                let (w, signed) = match self.ty(&repr) {
                    Ty::Int { w, signed } => (w, signed),
                    _ => panic!("engine: bad repr"),
                };
                Kind::Fieldless {
                    w,
                    signed,
                    vals: s.get("vals").unwrap().iter().map(|x| x.int()).collect(),
                }
            }
            x => panic!("engine: bad object {}", x),
        };
        let o = Obj {
            complete: flag("complete"),
            debug: flag("debug"),
            name: name.clone(),
            kind,
            endian,
            args,
            selector,
            attrs,
        };
        let old = self.objs.insert(name.clone(), o);
        assert!(old.is_none(), "engine: object {} defined twice", name);
    }
}

fn int(v: &V) -> i128 {
    match v {
        V::I(x) => *x,
        _ => panic!("engine: expected integer value, got {:?}", v),
    }
}

/// a length
fn size(v: &V) -> i128 {
    match v {
        // (conversion to usize of user types)
        V::A(l) => (int(&l[1]) & 3) + int(&l[0]),
        v => int(v),
    }
}

fn bytes_of(v: &V) -> Vec<u8> {
    match v {
        V::L(l) | V::A(l) => l.iter().map(|x| int(x) as u8).collect(),
        V::S(b) | V::B { bytes: b, .. } => b.clone(),
        v => panic!("engine: bytes of {:?}", v),
    }
}

fn twist(v: V) -> V {
    match v {
        V::I(x) => V::I(x ^ 1),
        V::L(l) => V::L(l.into_iter().rev().map(twist).collect()),
        V::O(o) => V::O(o.map(|x| Box::new(twist(*x)))),
        V::B { off, bytes } if !bytes.is_empty() => V::B {
            off: off + 1,
            bytes: bytes[1..].to_vec(),
        },
        v => v,
    }
}

fn chk(v: &V) -> bool {
    match v {
        V::I(x) => x % 3 != 0,
        V::L(l) => l.len() != 2 && l.iter().all(chk),
        V::O(o) => o.as_ref().map(|x| chk(x)).unwrap_or(true),
        V::B { bytes, .. } => bytes.first().map(|x| x % 3 != 0).unwrap_or(true),
        v => panic!("engine: chk of {:?}", v),
    }
}

impl<'p> Run<'p> {
    pub fn new(prog: &'p Program, input: &'p [u8], knobs: &'p [i128]) -> Self {
        Run {
            prog,
            input,
            knobs,
            events: vec![],
            dbg: vec![],
            steps: 0,
            no_alloc: false,
            wide: vec![],
            epos: usize::MAX,
            full: input.len(),
        }
    }

    fn ev(&mut self, ex: &Ex, st: &St) -> V {
        match ex {
            Ex::Int(n) => V::I(*n),
            Ex::Var(n) => st
                .env
                .iter()
                .rev()
                .find(|(k, _)| k == n)
                .map(|(_, v)| v.clone())
                .unwrap_or_else(|| {
                    panic!(
                        "engine: unbound variable {:?}",
                        self.prog.names.iter().find(|(_, v)| *v == n)
                    )
                }),
            Ex::Knob(k) => V::I(self.knobs[*k]),
            Ex::Bin(op, a, b) => {
                if let Bop::And = op {
                    return V::I((int(&self.ev(a, st)) != 0 && int(&self.ev(b, st)) != 0) as i128);
                }
                if let Bop::Or = op {
                    return V::I((int(&self.ev(a, st)) != 0 || int(&self.ev(b, st)) != 0) as i128);
                }
                let va = self.ev(a, st);
                let vb = self.ev(b, st);
                match op {
                    Bop::Eq => return V::I((va == vb) as i128),
                    Bop::Ne => return V::I((va != vb) as i128),
                    _ => (),
                }
                let (a, b) = (int(&va), int(&vb));
                V::I(match op {
                    Bop::Add => a + b,
                    Bop::Sub => a - b,
                    Bop::Mul => a * b,
                    Bop::Div => a / b,
                    Bop::Rem => a % b,
                    Bop::Lt => (a < b) as i128,
                    Bop::Le => (a <= b) as i128,
                    Bop::Gt => (a > b) as i128,
                    Bop::Ge => (a >= b) as i128,
                    Bop::BitAnd => a & b,
                    Bop::BitOr => a | b,
                    Bop::BitXor => a ^ b,
                    Bop::Shl => a << b,
                    Bop::Shr => a >> b,
                    _ => unreachable!(),
                })
            }
            Ex::Not(a) => V::I((int(&self.ev(a, st)) == 0) as i128),
            Ex::Neg(a) => V::I(-int(&self.ev(a, st))),
            Ex::If(c, a, b) => {
                if int(&self.ev(c, st)) != 0 {
                    self.ev(a, st)
                } else {
                    self.ev(b, st)
                }
            }
            Ex::Len(a) => match self.ev(a, st) {
                V::L(l) | V::A(l) => V::I(l.len() as i128),
                V::S(s) => V::I(s.len() as i128),
                V::B { bytes, .. } => V::I(bytes.len() as i128),
                v => panic!("engine: len of {:?}", v),
            },
            Ex::UnwrapOr(a, b) => match self.ev(a, st) {
                V::O(Some(v)) => *v,
                V::O(None) => self.ev(b, st),
                v => panic!("engine: unwrap_or of {:?}", v),
            },
            Ex::Fld(a, n) => match self.ev(a, st) {
                V::A(l) | V::L(l) | V::E(_, l) => l[*n].clone(),
                V::B { bytes, .. } | V::S(bytes) => V::I(bytes[*n] as i128),
                v => panic!("engine: field of {:?}", v),
            },
            Ex::Ev(n, a) => {
                let v = self.ev(a, st);
                self.events.push(*n as u128);
                v.tokens(&mut self.events);
                v
            }
            Ex::Twist(a) => twist(self.ev(a, st)),
            Ex::AsList(a) => {
                let v = self.ev(a, st);
                V::L(bytes_of(&v).into_iter().map(|x| V::I(x as i128)).collect())
            }
            Ex::Chk(a) => V::I(chk(&self.ev(a, st)) as i128),
            Ex::ILen => V::I((self.input.len() - st.pos) as i128),
            Ex::OrigLen => V::I((self.input.len() - st.orig) as i128),
            Ex::IPeek => V::I(self.input.get(st.pos).map(|x| *x as i128).unwrap_or(-1)),
            Ex::Some(a) => V::O(Some(Box::new(self.ev(a, st)))),
            Ex::None => V::O(None),
            Ex::List(l) => V::L(l.iter().map(|x| self.ev(x, st)).collect()),
            Ex::Tuple(l) => V::A(l.iter().map(|x| self.ev(x, st)).collect()),
            Ex::Unit => V::U,
            Ex::Bytes(b) => V::S(b.clone()),
            // (a slice which is not part of the input)
            Ex::Slice(b) => V::B { off: u64::MAX as usize, bytes: b.clone() },
        }
    }

    fn take(&self, pos: usize, n: i128) -> Result<usize, Bad> {
        // (negative values are converted to usize: huge)
        if n < 0 || n > (self.input.len() - pos) as i128 {
            Err(Bad::Inc)
        } else {
            Ok(pos + n as usize)
        }
    }

    fn int(&mut self, pos: usize, w: usize, signed: bool, be: bool) -> R {
        let end = self.take(pos, w as i128)?;
        let mut x: u128 = 0;
        for k in 0..w {
            let b = self.input[if be { pos + k } else { end - 1 - k }];
            x = (x << 8) | b as u128;
        }
        let bits = 8 * w;
        let v = if signed && bits < 128 && (x >> (bits - 1)) & 1 == 1 {
            (x as i128) - (1i128 << bits)
        } else {
            x as i128
        };
        Ok((end, V::I(v)))
    }

    fn slice(&self, a: usize, b: usize) -> V {
        V::B {
            off: a,
            bytes: self.input[a..b].to_vec(),
        }
    }

    /// an error at this position (end of the input: anywhere)
    fn fault(&mut self, pos: usize, b: Bad) -> Bad {
        self.epos = if pos == self.input.len() { self.full } else { pos };
        b
    }

    /// result of a parser which started at this position
    fn complete(&mut self, pos: usize, r: R) -> R {
        match r {
            Err(Bad::Inc) => Err(self.fault(pos, Bad::Err(None))),
            r => r,
        }
    }

    fn width(&self) -> (&'p [u8], usize) {
        (self.input, self.wide.len())
    }

    fn restore(&mut self, w: (&'p [u8], usize)) {
        self.input = w.0;
        self.wide.truncate(w.1);
    }

    fn many(&mut self, pos: usize, mut f: impl FnMut(&mut Self, usize) -> R) -> R {
        let mut pos = pos;
        let mut l = vec![];
        loop {
            let w = self.width();
            match f(self, pos) {
                Ok((np, v)) => {
                    if np == pos {
                        // no progress: an error, not an infinite loop
                        return Err(self.fault(pos, Bad::Err(None)));
                    }
                    pos = np;
                    l.push(v);
                }
                Err(Bad::Err(_)) => {
                    self.restore(w);
                    return Ok((pos, V::L(l)));
                }
                Err(e) => return Err(e),
            }
        }
    }

    fn count(&mut self, pos: usize, n: i128, mut f: impl FnMut(&mut Self, usize) -> R) -> R {
        let n = if n < 0 { i128::MAX } else { n };
        let mut pos = pos;
        let mut l = vec![];
        let mut k = 0;
        while k < n {
            let (np, v) = f(self, pos)?;
            pos = np;
            l.push(v);
            k += 1;
        }
        Ok((pos, V::L(l)))
    }

    pub fn parse_ty(&mut self, ty: &Ty, e: End, pos: usize) -> R {
        self.steps += 1;
        let be = e != End::Le;
        match ty {
            Ty::Int { w, signed } => self.int(pos, *w, *signed, be),
            Ty::Float { w } => {
                let (p, v) = self.int(pos, *w, false, be)?;
                Ok((p, V::F(int(&v) as u64)))
            }
            Ty::Only { w, be } => self.int(pos, *w, false, *be),
            Ty::Which => {
                let (p, v) = self.int(pos, 1, false, true)?;
                let which = match e {
                    End::Be => 1,
                    End::Le => 2,
                    End::Parse => 3,
                };
                Ok((p, V::A(vec![V::I(which), v])))
            }
            Ty::User { be, le } => {
                let which = match e {
                    End::Be if *be => 1,
                    End::Le if *le => 2,
                    _ => 3,
                };
                let (p, v) = self.int(pos, 1, false, true)?;
                let p = match int(&v) {
                    0xe1 => return Err(self.fault(pos, Bad::Err(None))),
                    0xe2 => return Err(self.fault(pos, Bad::Fail)),
                    0xe3 => return Err(Bad::Inc),
                    0xe4 => self.take(p, 1)?,
                    0xe5 => pos,
                    _ => p,
                };
                Ok((p, V::A(vec![V::I(which), v])))
            }
            Ty::Swap(t) => {
                let e = match e {
                    End::Be => End::Le,
                    End::Le => End::Be,
                    End::Parse => End::Parse,
                };
                self.parse_ty(t, e, pos)
            }
            Ty::Plain(t) => self.parse_ty(t, End::Parse, pos),
            Ty::Tagged(n) => {
                let (p, s) = self.int(pos, 1, false, true)?;
                self.parse_obj(n, e, &[s], p)
            }
            Ty::Text => {
                let (p, n) = self.int(pos, 1, false, true)?;
                let end = self.take(p, int(&n))?;
                if std::str::from_utf8(&self.input[p..end]).is_err() {
                    return Err(self.fault(pos, Bad::Err(None)));
                }
                Ok((end, self.slice(p, end)))
            }
            Ty::Opt(t) => {
                let w = self.width();
                let r = self.parse_ty(t, e, pos);
                match self.complete(pos, r) {
                    Ok((p, v)) => Ok((p, V::O(Some(Box::new(v))))),
                    Err(Bad::Err(_)) => {
                        self.restore(w);
                        Ok((pos, V::O(None)))
                    }
                    Err(x) => Err(x),
                }
            }
            Ty::Vec(t) => self.many(pos, |s, p| {
                let r = s.parse_ty(t, e, p);
                s.complete(p, r)
            }),
            Ty::Arr(t, n) => {
                let no_alloc = self.no_alloc;
                let (p, v) = self.count(pos, *n as i128, |s, p| {
                    let r = s.parse_ty(t, e, p);
                    if no_alloc {
                        return r;
                    }
                    match s.complete(p, r) {
                        // items must consume something, as for Vec
                        Ok((np, _)) if np == p => Err(s.fault(p, Bad::Err(None))),
                        r => r,
                    }
                })?;
                match v {
                    V::L(l) => Ok((p, V::A(l))),
                    _ => unreachable!(),
                }
            }
            Ty::Tup(a, b) => {
                let (p, va) = self.parse_ty(a, e, pos)?;
                let (p, vb) = self.parse_ty(b, e, p)?;
                Ok((p, V::A(vec![va, vb])))
            }
            Ty::Str => {
                // u32 length, always big-endian, then that many bytes which must be UTF-8
                let (p, n) = self.int(pos, 4, false, true)?;
                let end = self.take(p, int(&n))?;
                let b = &self.input[p..end];
                if std::str::from_utf8(b).is_err() {
                    return Err(self.fault(p, Bad::Err(None)));
                }
                Ok((end, V::S(b.to_vec())))
            }
            Ty::LData(t) => {
                let (p, n) = self.parse_ty(t, e, pos)?;
                let end = self.take(p, size(&n))?;
                Ok((end, self.slice(p, end)))
            }
            Ty::Obj(n) => self.parse_obj(n, e, &[], pos),
            Ty::Phantom => Ok((pos, V::U)),
            Ty::NoParse => panic!("engine: type without parser"),
        }
    }

    fn default(ty: &Ty) -> V {
        match ty {
            Ty::Int { .. } | Ty::Only { .. } => V::I(0),
            Ty::Float { .. } => V::F(0),
            Ty::Opt(_) => V::O(None),
            Ty::Vec(_) => V::L(vec![]),
            Ty::Arr(t, n) => V::A((0..*n).map(|_| Self::default(t)).collect()),
            Ty::Tup(a, b) => V::A(vec![Self::default(a), Self::default(b)]),
            // (empty slices)
            Ty::Str | Ty::NoParse => V::S(vec![]),
            Ty::Phantom => V::U,
            Ty::Which | Ty::User { .. } => V::A(vec![V::I(0), V::I(0)]),
            Ty::Swap(t) | Ty::Plain(t) => Self::default(t),
            Ty::Text => V::S(vec![]),
            t => panic!("engine: no default for {:?}", t),
        }
    }

    pub fn parse_p(&mut self, p: &P, pos: usize) -> R {
        self.run_p(
            p,
            pos,
            &mut St {
                env: vec![],
                orig: pos,
                pos,
                dynend: None,
                e: End::Parse,
            },
        )
    }

    fn run_p(&mut self, p: &P, pos: usize, st: &mut St) -> R {
        self.steps += 1;
        match p {
            P::Int { w, signed, be } => self.int(pos, *w, *signed, *be),
            P::Ty(t, e) => self.parse_ty(t, *e, pos),
            P::Obj(n, e, args) => {
                let a: Vec<V> = args.iter().map(|x| self.ev(x, st)).collect();
                self.parse_obj(n, *e, &a, pos)
            }
            P::Take(n) => {
                let n = int(&self.ev(n, st));
                let end = self.take(pos, n)?;
                Ok((end, self.slice(pos, end)))
            }
            P::Tag(t) => self.tag(t, pos),
            P::TagE(x) => {
                let v = self.ev(x, st);
                self.tag(&bytes_of(&v), pos)
            }
            P::Opt(q) => {
                let w = self.width();
                match self.run_p(q, pos, st) {
                    Ok((p, v)) => Ok((p, V::O(Some(Box::new(v))))),
                    Err(Bad::Err(_)) => {
                        self.restore(w);
                        Ok((pos, V::O(None)))
                    }
                    Err(x) => Err(x),
                }
            }
            P::Many(q) => self.many(pos, |s, p| s.run_p(q, p, st)),
            P::Complete(q) => {
                let r = self.run_p(q, pos, st);
                self.complete(pos, r)
            }
            P::Count(q, n) => {
                let n = int(&self.ev(n, st));
                self.count(pos, n, |s, p| s.run_p(q, p, st))
            }
            P::LCount(n, q) => {
                let (p, n) = self.run_p(n, pos, st)?;
                self.count(p, size(&n), |s, p| s.run_p(q, p, st))
            }
            P::LData(n) => {
                let (p, n) = self.run_p(n, pos, st)?;
                let end = self.take(p, size(&n))?;
                Ok((end, self.slice(p, end)))
            }
            P::Verify(q, n, x) => {
                let (p, v) = self.run_p(q, pos, st)?;
                st.env.push((*n, v.clone()));
                let ok = int(&self.ev(x, st)) != 0;
                st.env.pop();
                if ok {
                    Ok((p, v))
                } else {
                    Err(self.fault(pos, Bad::Err(Some("Verify"))))
                }
            }
            P::Map(q, n, x) => {
                let (p, v) = self.run_p(q, pos, st)?;
                st.env.push((*n, v));
                let v = self.ev(x, st);
                st.env.pop();
                Ok((p, v))
            }
            P::Pair(a, b) => {
                let (p, va) = self.run_p(a, pos, st)?;
                let (p, vb) = self.run_p(b, p, st)?;
                Ok((p, V::A(vec![va, vb])))
            }
            P::Ev(n, q) => {
                self.events.push(*n as u128);
                self.events.push((self.input.len() - pos) as u128);
                self.run_p(q, pos, st)
            }
            P::Ret(x) => {
                let v = self.ev(x, st);
                Ok((pos, v))
            }
            P::Bind(q, n, r) => {
                let (p, v) = self.run_p(q, pos, st)?;
                st.env.push((*n, v));
                let r = self.run_p(r, p, st);
                st.env.pop();
                r
            }
            P::EvX(n, x, q) => {
                let v = self.ev(x, st);
                self.events.push(*n as u128);
                v.tokens(&mut self.events);
                self.run_p(q, pos, st)
            }
            P::If(c, a, b) => {
                let q = if int(&self.ev(c, st)) != 0 { a } else { b };
                self.run_p(q, pos, st)
            }
            P::Fail => Err(self.fault(pos, Bad::Fail)),
            P::Err => Err(self.fault(pos, Bad::Err(None))),
            P::Inc => Err(Bad::Inc),
            P::Rest => Ok((self.input.len(), self.slice(pos, self.input.len()))),
        }
    }

    fn tag(&mut self, t: &[u8], pos: usize) -> R {
        for (k, b) in t.iter().enumerate() {
            match self.input.get(pos + k) {
                None => return Err(Bad::Inc),
                Some(x) if x != b => return Err(self.fault(pos, Bad::Err(None))),
                _ => (),
            }
        }
        Ok((pos + t.len(), self.slice(pos, pos + t.len())))
    }

    fn matches(&mut self, p: &Pat, v: &V, st: &mut St) -> bool {
        match p {
            Pat::Wild => true,
            Pat::Int(n) => int(v) == *n,
            Pat::Range(a, b) => *a <= int(v) && int(v) <= *b,
            Pat::Or(l) => l.iter().any(|p| self.matches(p, v, st)),
            Pat::Tup(l) => match v {
                V::A(vs) => {
                    assert!(vs.len() == l.len());
                    l.iter().zip(vs).all(|(p, v)| self.matches(p, v, st))
                }
                _ => panic!("engine: tuple pattern on {:?}", v),
            },
            Pat::Bind(n, p) => {
                if self.matches(p, v, st) {
                    st.env.push((*n, v.clone()));
                    true
                } else {
                    false
                }
            }
            Pat::Guard(p, x) => {
                let n = st.env.len();
                if self.matches(p, v, st) && int(&self.ev(x, st)) != 0 {
                    true
                } else {
                    st.env.truncate(n);
                    false
                }
            }
        }
    }

    pub fn parse_obj(&mut self, name: &str, e: End, args: &[V], pos: usize) -> R {
        self.steps += 1;
        let prog = self.prog;
        let obj = prog
            .objs
            .get(name)
            .unwrap_or_else(|| panic!("engine: unknown object {}", name));
        // effective endianness of the object
        let e = match (obj.endian, e) {
            (Fixed::Be, _) => End::Be,
            (Fixed::Le, _) => End::Le,
            (_, End::Le) => End::Le,
            _ => End::Be,
        };
        let mut st = St {
            env: vec![],
            orig: pos,
            pos,
            dynend: None,
            e,
        };
        let mut args = args.iter();
        let mut sel = V::U;
        if let Some(s) = obj.selector {
            sel = args.next().expect("engine: missing selector").clone();
            st.env.push((s, sel.clone()));
        }
        for n in &obj.args {
            let v = args.next().expect("engine: missing extra arg").clone();
            st.env.push((*n, v));
        }
        assert!(args.next().is_none(), "engine: too many args");
        for a in &obj.attrs {
            self.pre(a, obj, &mut st)?;
        }
        let v = match &obj.kind {
            Kind::Struct(fields) => V::A(self.fields(fields, obj, &mut st)?),
            Kind::Enum(variants) => {
                let mut found = None;
                // first match in declaration order; `_` is tried last
                for default in [false, true] {
                    for (k, v) in variants.iter().enumerate() {
                        if matches!(v.pat, Pat::Wild) != default || found.is_some() {
                            continue;
                        }
                        let n = st.env.len();
                        if self.matches(&v.pat, &sel, &mut st) {
                            found = Some((k, v));
                        } else {
                            st.env.truncate(n);
                        }
                    }
                }
                match found {
                    None => return Err(self.fault(st.pos, Bad::Err(Some("Switch")))),
                    Some((k, v)) => {
                        if let Some(attrs) = &v.unit {
                            for a in attrs {
                                self.pre(a, obj, &mut st)?;
                            }
                            if let Some(At::Parse(p)) =
                                attrs.iter().find(|a| matches!(a, At::Parse(_)))
                            {
                                let r = self.run_p(p, st.pos, &mut st);
                                let r = if obj.complete { self.complete(st.pos, r) } else { r };
                                st.pos = r?.0;
                            }
                            for a in attrs {
                                self.post(a, obj, &mut st)?;
                            }
                            V::E(k, vec![])
                        } else {
                            let l = self.fields(&v.fields, obj, &mut st)?;
                            V::E(k, l)
                        }
                    }
                }
            }
            Kind::Fieldless { w, signed, vals } => {
                let be = match st.e {
                    End::Le => false,
                    _ => true,
                };
                let r = self.int(st.pos, *w, *signed, be);
                let r = if obj.complete { self.complete(st.pos, r) } else { r };
                let (p, x) = r?;
                st.pos = p;
                match vals.iter().position(|v| *v == int(&x)) {
                    Some(k) => V::E(k, vec![]),
                    None => return Err(self.fault(st.orig, Bad::Err(Some("Switch")))),
                }
            }
        };
        for a in &obj.attrs {
            self.post(a, obj, &mut st)?;
        }
        Ok((st.pos, v))
    }

    fn missing(&mut self, obj: &Obj, pos: usize) -> Bad {
        if obj.complete {
            self.fault(pos, Bad::Err(None))
        } else {
            Bad::Inc
        }
    }

    fn skip(&mut self, n: i128, obj: &Obj, st: &mut St) -> Result<(), Bad> {
        if n < 0 || n > (self.input.len() - st.pos) as i128 {
            // (negative values are converted to usize: huge)
            return Err(self.missing(obj, st.pos));
        }
        st.pos += n as usize;
        Ok(())
    }

    fn align(&mut self, n: i128, obj: &Obj, st: &mut St) -> Result<(), Bad> {
        if n == 0 {
            return Err(self.fault(st.pos, Bad::Err(Some("Verify"))));
        }
        // (negative values are converted to usize: huge)
        let n = if n < 0 { i128::MAX } else { n };
        let off = (st.pos - st.orig) as i128;
        let pad = if off % n == 0 { 0 } else { n - off % n };
        self.skip(pad, obj, st)
    }

    fn seek(&mut self, target: i128, obj: &Obj, st: &mut St) -> Result<(), Bad> {
        if target < 0 {
            return Err(self.fault(st.pos, Bad::Err(Some("TooLarge"))));
        }
        if target > (self.input.len() - st.orig) as i128 {
            return Err(self.missing(obj, st.pos));
        }
        st.pos = st.orig + target as usize;
        Ok(())
    }

    fn stmt(&mut self, s: &Stmt, st: &mut St) -> Result<(), Bad> {
        match s {
            Stmt::Ev(n, x) => {
                let v = self.ev(x, st);
                self.events.push(*n as u128);
                v.tokens(&mut self.events);
            }
            Stmt::Let(n, x) => {
                let v = self.ev(x, st);
                st.env.push((*n, v));
            }
            Stmt::Advance(n) => {
                let n = int(&self.ev(n, st)) as usize;
                st.pos = std::cmp::min(st.pos + n, self.input.len());
            }
            Stmt::Narrow(n) => {
                let n = int(&self.ev(n, st)) as usize;
                self.wide.push(self.input);
                self.input = &self.input[..std::cmp::min(st.pos.saturating_add(n), self.input.len())];
            }
            Stmt::Widen => self.input = self.wide.pop().expect("engine: not narrowed"),
            Stmt::Seq(l) => {
                for s in l {
                    self.stmt(s, st)?;
                }
            }
            Stmt::FailIf(c) => {
                if int(&self.ev(c, st)) != 0 {
                    return Err(self.fault(st.pos, Bad::Err(None)));
                }
            }
        }
        Ok(())
    }

    fn pre(&mut self, a: &At, obj: &Obj, st: &mut St) -> Result<(), Bad> {
        match a {
            At::Pre(s) => self.stmt(s, st),
            At::AlignB(x) => {
                let n = int(&self.ev(x, st));
                self.align(n, obj, st)
            }
            At::SkipB(x) => {
                let n = int(&self.ev(x, st));
                self.skip(n, obj, st)
            }
            At::Move(x) => {
                let n = int(&self.ev(x, st));
                let here = (st.pos - st.orig) as i128;
                self.seek(here.saturating_add(n), obj, st)
            }
            At::MoveAbs(x) => {
                let n = int(&self.ev(x, st));
                self.seek(n, obj, st)
            }
            At::ErrIf(x) => {
                if int(&self.ev(x, st)) != 0 {
                    Err(self.fault(st.pos, Bad::Err(Some("Verify"))))
                } else {
                    Ok(())
                }
            }
            At::SetEndian(x) => {
                let big = int(&self.ev(x, st)) != 0;
                st.dynend = Some(big);
                Ok(())
            }
            _ => Ok(()),
        }
    }

    fn post(&mut self, a: &At, obj: &Obj, st: &mut St) -> Result<(), Bad> {
        match a {
            At::Post(s) => self.stmt(s, st),
            At::AlignA(x) => {
                let n = int(&self.ev(x, st));
                self.align(n, obj, st)
            }
            At::SkipA(x) => {
                let n = int(&self.ev(x, st));
                self.skip(n, obj, st)
            }
            At::Exact => {
                if st.pos != self.input.len() {
                    Err(self.fault(st.pos, Bad::Err(Some("Verify"))))
                } else {
                    Ok(())
                }
            }
            _ => Ok(()),
        }
    }

    fn fields(&mut self, fields: &[Field], obj: &Obj, st: &mut St) -> Result<Vec<V>, Bad> {
        let base = st.env.len();
        let saved_dyn = st.dynend;
        let mut out = vec![];
        for f in fields {
            for a in &f.attrs {
                self.pre(a, obj, st)?;
            }
            let e = self.field_endian(f, obj, st);
            let pos = st.pos;
            let mut r = self.attrs(&f.attrs, f, &f.ty, e, pos, st);
            if obj.complete {
                r = self.complete(pos, r);
            }
            if obj.debug {
                self.dump(&r, f, pos);
            }
            let (p, v) = r?;
            st.pos = p;
            st.env.push((f.name, v.clone()));
            out.push(v);
            for a in &f.attrs {
                self.post(a, obj, st)?;
            }
        }
        let _ = base;
        if obj.endian != Fixed::Dyn && matches!(obj.kind, Kind::Enum(_)) {
            st.dynend = saved_dyn;
        }
        Ok(out)
    }

    fn field_endian(&self, f: &Field, _obj: &Obj, st: &St) -> End {
        for a in &f.attrs {
            match a {
                At::Be => return End::Be,
                At::Le => return End::Le,
                _ => (),
            }
        }
        match st.dynend {
            Some(true) => End::Be,
            Some(false) => End::Le,
            None => st.e,
        }
    }

    /// attributes are applied in order of appearance, outermost first
    /// Debug: field, class of the error, and input of the parser which failed
    fn dump(&mut self, r: &R, f: &Field, pos: usize) {
        let c = match r {
            Ok(_) => return,
            Err(Bad::Inc) => "Incomplete",
            Err(Bad::Err(_)) => "Error",
            Err(Bad::Fail) => "Failure",
        };
        let hex: String = self.input[pos..].iter().map(|x| format!("{:02x}", x)).collect();
        self.dbg.push(format!("{}: {} at {}", f.label, c, hex));
    }

    fn attrs(&mut self, l: &[At], f: &Field, ty: &Ty, e: End, pos: usize, st: &mut St) -> R {
        let Some((a, rest)) = l.split_first() else {
            return self.parse_ty(ty, e, pos);
        };
        match a {
            At::Complete => {
                let r = self.attrs(rest, f, ty, e, pos, st);
                self.complete(pos, r)
            }
            At::Debug => {
                let r = self.attrs(rest, f, ty, e, pos, st);
                self.dump(&r, f, pos);
                r
            }
            At::Cond(c) => {
                let Ty::Opt(t) = ty else {
                    panic!("engine: Cond on {:?}", ty)
                };
                if int(&self.ev(c, st)) != 0 {
                    let (p, v) = self.attrs(rest, f, t, e, pos, st)?;
                    Ok((p, V::O(Some(Box::new(v)))))
                } else {
                    Ok((pos, V::O(None)))
                }
            }
            At::Count(n) => {
                let Ty::Vec(t) = ty else {
                    panic!("engine: Count on {:?}", ty)
                };
                let n = int(&self.ev(n, st));
                self.count(pos, n, |s, p| s.attrs(rest, f, t, e, p, st))
            }
            At::LCount(q) => {
                let Ty::Vec(t) = ty else {
                    panic!("engine: LengthCount on {:?}", ty)
                };
                let (p, n) = self.run_p(q, pos, st)?;
                self.count(p, size(&n), |s, p| s.attrs(rest, f, t, e, p, st))
            }
            // the value is converted to the field type, with the same integer value
            At::Into => self.attrs(rest, f, ty, e, pos, st),
            At::Map(n, x) => {
                let (p, v) = self.attrs(rest, f, ty, e, pos, st)?;
                st.env.push((*n, v));
                let v = self.ev(x, st);
                st.env.pop();
                Ok((p, v))
            }
            At::Verify(x) => {
                let (p, v) = self.attrs(rest, f, ty, e, pos, st)?;
                st.env.push((f.name, v.clone()));
                let ok = int(&self.ev(x, st)) != 0;
                st.env.pop();
                if ok {
                    Ok((p, v))
                } else {
                    Err(self.fault(pos, Bad::Err(Some("Verify"))))
                }
            }
            At::Parse(q) => self.run_p(q, pos, st),
            At::Tag(t) => self.tag(t, pos),
            At::TagE(x) => {
                let v = self.ev(x, st);
                self.tag(&bytes_of(&v), pos)
            }
            At::Take(n) => {
                let n = int(&self.ev(n, st));
                if n < 0 {
                    return Err(Bad::Inc);
                }
                let end = self.take(pos, n)?;
                Ok((end, self.slice(pos, end)))
            }
            At::Value(x) => {
                let v = self.ev(x, st);
                Ok((pos, v))
            }
            At::Ignore => Ok((pos, Self::default(ty))),
            _ => self.attrs(rest, f, ty, e, pos, st),
        }
    }
}
