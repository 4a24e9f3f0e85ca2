//! Bounded explicit-state exploration of parsers derived by nom-derive, in product with a reference
//! model.  See DESIGN.md.
pub mod explore;
pub mod model;
pub mod sx;

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

/// allocator recording what is asked for during an execution
struct Meter;
static WATCH: AtomicUsize = AtomicUsize::new(0);
static LARGEST: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);

#[inline]
fn meter(n: usize) {
    if WATCH.load(Relaxed) != 0 {
        if n > LARGEST.load(Relaxed) {
            LARGEST.store(n, Relaxed);
        }
        TOTAL.store(TOTAL.load(Relaxed).saturating_add(n), Relaxed);
    }
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        meter(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        meter(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        meter(n);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

#[global_allocator]
static METER: Meter = Meter;

pub(crate) fn meter_start() {
    LARGEST.store(0, Relaxed);
    TOTAL.store(0, Relaxed);
    WATCH.store(1, Relaxed);
}
/// largest and total number of bytes asked for
pub(crate) fn meter_stop() -> (usize, usize) {
    WATCH.store(0, Relaxed);
    (LARGEST.load(Relaxed), TOTAL.load(Relaxed))
}

/// class of a result
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Class {
    Ok = 0,
    Inc = 1,
    Err = 2,
    Fail = 3,
    Panic = 4,
}

impl Class {
    pub const ALL: [Class; 5] = [Class::Ok, Class::Inc, Class::Err, Class::Fail, Class::Panic];
    pub fn name(self) -> &'static str {
        match self {
            Class::Ok => "Ok",
            Class::Inc => "Incomplete",
            Class::Err => "Error",
            Class::Fail => "Failure",
            Class::Panic => "panic",
        }
    }
}

/// observation of one execution of the implementation
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Out {
    pub class: Class,
    /// offset of the remainder in the input (usize::MAX: not a suffix of the input)
    pub rem: usize,
    pub val: Vec<u128>,
    /// Incomplete: number of missing bytes, if given
    pub needed: Option<usize>,
    /// error kind, if the error type gives it
    pub kind: Option<String>,
    /// where an error points, if the error type gives it (offset in the input; usize::MAX: not in the input)
    pub epos: Option<usize>,
    pub msg: String,
    pub events: Vec<u128>,
}

impl Out {
    pub fn new(class: Class) -> Self {
        Out {
            class,
            rem: 0,
            val: vec![],
            needed: None,
            kind: None,
            epos: None,
            msg: String::new(),
            events: vec![],
        }
    }
}

thread_local! {
    static EVENTS: RefCell<Vec<u128>> = const { RefCell::new(Vec::new()) };
    static KNOBS: RefCell<Vec<i128>> = const { RefCell::new(Vec::new()) };
    static BASE: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
}

/// knob `n` (value of a directive argument, chosen by the explorer)
pub fn kn(n: usize) -> i128 {
    KNOBS.with(|k| k.borrow()[n])
}

pub(crate) fn set_knobs(k: &[i128]) {
    KNOBS.with(|x| {
        let mut x = x.borrow_mut();
        x.clear();
        x.extend_from_slice(k)
    })
}

/// record event `n`
pub fn ev<T: Enc>(n: u32, v: T) -> T {
    EVENTS.with(|e| {
        let mut e = e.borrow_mut();
        e.push(n as u128);
        v.enc(&mut e);
    });
    v
}

pub(crate) fn clear_events() {
    EVENTS.with(|e| e.borrow_mut().clear())
}
pub(crate) fn take_events() -> Vec<u128> {
    EVENTS.with(|e| std::mem::take(&mut *e.borrow_mut()))
}

pub fn set_base(i: &[u8]) {
    BASE.with(|b| b.set((i.as_ptr() as usize, i.len())))
}

/// offset in the input of a borrowed slice
pub fn offset_of(s: &[u8]) -> usize {
    let (base, len) = BASE.with(|b| b.get());
    let p = s.as_ptr() as usize;
    if p >= base && p + s.len() <= base + len {
        p - base
    } else {
        usize::MAX
    }
}

/// offset of the remainder (a suffix of the input, unless user code drops the end of the input)
pub fn rem_of(s: &[u8]) -> usize {
    let (base, len) = BASE.with(|b| b.get());
    if s.is_empty() {
        return len;
    }
    let p = s.as_ptr() as usize;
    if p >= base && p + s.len() <= base + len {
        // (bytes missing at the end in the upper half)
        (p - base) | (base + len - p - s.len()) << 32
    } else {
        usize::MAX
    }
}

/// offset where this slice starts, in the input (the end if there is nothing in it)
pub fn start_of(s: &[u8]) -> usize {
    if s.is_empty() {
        BASE.with(|b| b.get().1)
    } else {
        offset_of(s)
    }
}

/// canonical encoding of values
pub trait Enc {
    fn enc(&self, o: &mut Vec<u128>);
}

macro_rules! enc_int {
    ($($t:ty)*) => { $(impl Enc for $t { fn enc(&self, o: &mut Vec<u128>) { o.push(*self as i128 as u128) } })* }
}
enc_int!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize i128 bool);
impl Enc for u128 {
    fn enc(&self, o: &mut Vec<u128>) {
        o.push(*self)
    }
}
impl Enc for f32 {
    fn enc(&self, o: &mut Vec<u128>) {
        o.push(self.to_bits() as u128)
    }
}
impl Enc for f64 {
    fn enc(&self, o: &mut Vec<u128>) {
        o.push(self.to_bits() as u128)
    }
}
impl Enc for () {
    fn enc(&self, _: &mut Vec<u128>) {}
}
impl Enc for char {
    fn enc(&self, o: &mut Vec<u128>) {
        o.push(*self as u128)
    }
}
impl<T: ?Sized> Enc for std::marker::PhantomData<T> {
    fn enc(&self, _: &mut Vec<u128>) {}
}
impl<T: Enc> Enc for Option<T> {
    fn enc(&self, o: &mut Vec<u128>) {
        match self {
            None => o.push(0),
            Some(v) => {
                o.push(1);
                v.enc(o)
            }
        }
    }
}
impl<T: Enc> Enc for Box<T> {
    fn enc(&self, o: &mut Vec<u128>) {
        (**self).enc(o)
    }
}
impl<T: Enc> Enc for Vec<T> {
    fn enc(&self, o: &mut Vec<u128>) {
        o.push(self.len() as u128);
        for v in self {
            v.enc(o)
        }
    }
}
impl<T: Enc, const N: usize> Enc for [T; N] {
    fn enc(&self, o: &mut Vec<u128>) {
        for v in self {
            v.enc(o)
        }
    }
}
impl<A: Enc, B: Enc> Enc for (A, B) {
    fn enc(&self, o: &mut Vec<u128>) {
        self.0.enc(o);
        self.1.enc(o)
    }
}
impl<A: Enc, B: Enc, C: Enc> Enc for (A, B, C) {
    fn enc(&self, o: &mut Vec<u128>) {
        self.0.enc(o);
        self.1.enc(o);
        self.2.enc(o)
    }
}
impl Enc for String {
    fn enc(&self, o: &mut Vec<u128>) {
        o.push(self.len() as u128);
        o.extend(self.bytes().map(|b| b as u128));
    }
}
impl Enc for &[u8] {
    fn enc(&self, o: &mut Vec<u128>) {
        o.push(self.len() as u128);
        if !self.is_empty() {
            o.push(offset_of(self) as u128);
        }
        o.extend(self.iter().map(|b| *b as u128));
    }
}
impl Enc for &str {
    fn enc(&self, o: &mut Vec<u128>) {
        self.as_bytes().enc(o)
    }
}
