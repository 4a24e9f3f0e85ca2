//! Explicit-state exploration.
//!
//! A state is (program, entry point, knobs, bytes received so far).  The initial state of a program
//! has received nothing; a transition is the arrival of one more byte.  In every state the real
//! derived parser is run on the bytes received so far, and its observation is compared to the
//! reference model's; for programs marked `stream`, every pair (ancestor, state) is checked against
//! the streaming protocol.
use crate::model::{Bad, End, Program, Run, P, V};
use crate::sx::{parse_all, Sx};
use crate::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{Read, Seek, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub type ImplFn = fn(u8, &[u8]) -> Out;

/// places from this number on: input lying across an address which is a multiple of 2^40
const CROSS: usize = 1 << 20;
const ARENA: usize = 1 << 20;

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// memory around a multiple of 2^40
fn arena() -> usize {
    for k in 1..100 {
        let b: usize = k << 40;
        // private, anonymous, at this place if it is free
        let p = unsafe { mmap((b - ARENA) as *mut u8, 2 * ARENA, 3, 0x2 | 0x20 | 0x100000, -1, 0) } as usize;
        if p == b - ARENA {
            return b;
        }
    }
    panic!("engine: no memory around a boundary");
}

#[derive(Clone, Debug)]
enum Seg {
    Alt(Vec<Vec<u8>>),
    Rep(Vec<u8>, usize),
    Fill(usize),
    /// n filler bytes arriving together
    Blob(usize),
}

struct Prog {
    name: String,
    call: Call,
    entries: Vec<u8>,
    knobs: Vec<Vec<i128>>,
    segs: Vec<Seg>,
    stream: bool,
    never_inc: bool,
    dbg: bool,
    nokind: bool,
    epos: bool,
    places: Vec<usize>,
    twice: bool,
    no_alloc: bool,
    reach: Vec<Class>,
}

enum Call {
    Obj(String, Vec<crate::model::Ex>),
    Ty(crate::model::Ty),
    P(P),
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub what: String,
    pub prog: String,
    pub entry: u8,
    pub knobs: Vec<i128>,
    pub input: Vec<u8>,
    pub place: usize,
    pub expected: String,
    pub got: String,
}

#[derive(Default)]
struct Stats {
    programs: u64,
    states: u64,
    transitions: u64,
    traces: u64,
    execs: u64,
    pairs: u64,
    classes: [u64; 5],
    max_depth: usize,
    model_steps: u64,
    outcomes: HashSet<u64>,
    prog_outcomes: BTreeMap<String, u64>,
    reader_runs: u64,
    reader_steps: u64,
    max_alloc: usize,
}

struct Exp<'a> {
    prog: &'a Program,
    stats: Stats,
    violations: Vec<Violation>,
    nviol: u64,
    samples: Vec<String>,
    buf: Vec<u8>,
    stdout: Option<std::fs::File>,
    arena: usize,
    /// largest and total allocation of the last execution
    mem: (usize, usize),
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        write!(s, "{:02x}", x).unwrap();
    }
    s
}

fn unhex(s: &str) -> Vec<u8> {
    assert!(s.len() % 2 == 0);
    (0..s.len() / 2)
        .map(|k| u8::from_str_radix(&s[2 * k..2 * k + 2], 16).expect("engine: bad hex"))
        .collect()
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// byte used at position `k` where the value does not matter: distinct for neighbouring positions
pub fn filler(k: usize) -> u8 {
    ((k * 37 + 0x91) & 0xff) as u8
}

fn parse_prog(p: &mut Program, s: &Sx) -> Prog {
    let name = s.list()[1].atom().to_string();
    let call = {
        let c = s.get("call").expect("engine: no call");
        match c[0].atom() {
            "obj" => Call::Obj(
                c[1].atom().to_string(),
                c[2..].iter().map(|x| p.ex(x)).collect(),
            ),
            "ty" => Call::Ty(p.ty(&c[1])),
            "p" => Call::P(p.p(&c[1])),
            x => panic!("engine: bad call {}", x),
        }
    };
    let entries = match s.get("entries") {
        None => vec![0, 1, 2],
        Some(l) => l
            .iter()
            .map(|x| match x.atom() {
                "parse" => 0,
                "be" => 1,
                "le" => 2,
                x => panic!("engine: bad entry {}", x),
            })
            .collect(),
    };
    let mut knobs = vec![vec![]];
    if let Some(l) = s.get("knobs") {
        for k in l {
            let vals: Vec<i128> = k.list().iter().map(|x| x.int()).collect();
            knobs = knobs
                .iter()
                .flat_map(|a| {
                    vals.iter().map(move |v| {
                        let mut a: Vec<i128> = a.clone();
                        a.push(*v);
                        a
                    })
                })
                .collect();
        }
    }
    let segs = s
        .get("in")
        .expect("engine: no input language")
        .iter()
        .map(|g| {
            let l = g.list();
            match l[0].atom() {
                "alt" => Seg::Alt(
                    l[1..]
                        .iter()
                        .map(|x| {
                            let a = x.atom();
                            unhex(a.strip_prefix('x').expect("engine: hex strings start with x"))
                        })
                        .collect(),
                ),
                "range" => {
                    let (a, b) = (l[1].int(), l[2].int());
                    Seg::Alt((a..=b).map(|x| vec![x as u8]).collect())
                }
                "rep" => Seg::Rep(
                    l[1].list().iter().map(|x| x.int() as u8).collect(),
                    l[2].int() as usize,
                ),
                "fill" => Seg::Fill(l[1].int() as usize),
                "blob" => Seg::Blob(l[1].int() as usize),
                x => panic!("engine: bad segment {}", x),
            }
        })
        .collect();
    let flags: Vec<String> = s
        .get("flags")
        .unwrap_or(&[])
        .iter()
        .map(|x| x.atom().to_string())
        .collect();
    let flag = |n: &str| flags.iter().any(|x| x == n);
    let reach = match s.get("reach") {
        None => vec![Class::Ok],
        Some(l) => l
            .iter()
            .map(|x| match x.atom() {
                "ok" => Class::Ok,
                "inc" => Class::Inc,
                "err" => Class::Err,
                "fail" => Class::Fail,
                x => panic!("engine: bad class {}", x),
            })
            .collect(),
    };
    Prog {
        name,
        call,
        entries,
        knobs,
        segs,
        stream: flag("stream"),
        never_inc: flag("neverinc"),
        dbg: flag("dbg"),
        nokind: flag("nokind"),
        epos: flag("epos"),
        twice: flag("twice"),
        no_alloc: flag("noalloc"),
        places: s
            .get("place")
            .map(|l| l.iter().map(|x| x.int() as usize).collect())
            .unwrap_or_else(|| vec![1]),
        reach,
    }
}

/// position in the input language: (segment, alternative, offset in alternative or repetition)
type Pos = (usize, usize, usize);

fn settle(segs: &[Seg], p: Pos, out: &mut Vec<Pos>) {
    // p is at the end of an item, or at the beginning of a segment: move to positions where a byte is read
    let (s, a, o) = p;
    if s >= segs.len() {
        return;
    }
    match &segs[s] {
        Seg::Alt(l) => {
            if a == usize::MAX {
                for (k, alt) in l.iter().enumerate() {
                    if alt.is_empty() {
                        settle(segs, (s + 1, usize::MAX, 0), out);
                    } else if !out.contains(&(s, k, 0)) {
                        out.push((s, k, 0));
                    }
                }
            } else if o < l[a].len() {
                if !out.contains(&p) {
                    out.push(p);
                }
            } else {
                settle(segs, (s + 1, usize::MAX, 0), out);
            }
        }
        Seg::Blob(_) => {
            if o == 0 {
                let p = (s, 0, 0);
                if !out.contains(&p) {
                    out.push(p);
                }
            } else {
                settle(segs, (s + 1, usize::MAX, 0), out);
            }
        }
        Seg::Rep(_, n) | Seg::Fill(n) => {
            if o < *n {
                let p = (s, 0, o);
                if !out.contains(&p) {
                    out.push(p);
                }
            } else {
                settle(segs, (s + 1, usize::MAX, 0), out);
            }
        }
    }
}

fn next_bytes(segs: &[Seg], st: &[Pos], depth: usize) -> BTreeMap<Vec<u8>, Vec<Pos>> {
    let mut m: BTreeMap<Vec<u8>, Vec<Pos>> = BTreeMap::new();
    for &(s, a, o) in st {
        match &segs[s] {
            Seg::Alt(l) => {
                let b = l[a][o];
                settle(segs, (s, a, o + 1), m.entry(vec![b]).or_default());
            }
            Seg::Rep(al, _) => {
                for b in al {
                    settle(segs, (s, 0, o + 1), m.entry(vec![*b]).or_default());
                }
            }
            Seg::Fill(_) => {
                settle(segs, (s, 0, o + 1), m.entry(vec![filler(depth)]).or_default());
            }
            Seg::Blob(n) => {
                let b = (depth..depth + n).map(filler).collect();
                settle(segs, (s, 0, o + 1), m.entry(b).or_default());
            }
        }
    }
    m
}

static SEQ: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<Option<(String, u8, Vec<i128>, Vec<u8>)>> = Mutex::new(None);

#[derive(Clone, PartialEq, Debug)]
struct Exp1 {
    class: Class,
    rem: usize,
    val: Vec<u128>,
    kind: Option<&'static str>,
    /// where the error points
    epos: usize,
    events: Vec<u128>,
    dbg: Vec<String>,
}

fn fnv(h: &mut u64, x: u64) {
    for k in 0..8 {
        *h ^= (x >> (8 * k)) & 0xff;
        *h = h.wrapping_mul(0x100000001b3);
    }
}

impl<'a> Exp<'a> {
    fn model(&mut self, p: &Prog, entry: u8, knobs: &[i128], input: &[u8]) -> Exp1 {
        let mut run = Run::new(self.prog, input, knobs);
        run.no_alloc = p.no_alloc;
        let e = match entry {
            0 => End::Parse,
            1 => End::Be,
            _ => End::Le,
        };
        let r = match &p.call {
            Call::Obj(n, args) => {
                let args: Vec<V> = args.iter().map(|a| run.eval_closed(a)).collect();
                run.parse_obj(n, e, &args, 0)
            }
            Call::Ty(t) => run.parse_ty(t, e, 0),
            Call::P(q) => run.parse_p(q, 0),
        };
        self.stats.model_steps += run.steps;
        let mut x = Exp1 {
            class: Class::Ok,
            rem: 0,
            val: vec![],
            kind: None,
            epos: run.epos,
            events: run.events,
            dbg: run.dbg,
        };
        match r {
            Ok((pos, v)) => {
                // (an empty remainder can be anywhere; user code may have dropped the end of the input)
                x.rem = if pos == run.input.len() { input.len() } else { pos | (input.len() - run.input.len()) << 32 };
                v.tokens(&mut x.val);
            }
            Err(Bad::Inc) => x.class = Class::Inc,
            Err(Bad::Err(k)) => {
                x.class = Class::Err;
                x.kind = k;
            }
            Err(Bad::Fail) => x.class = Class::Fail,
        }
        x
    }

    /// run the implementation with the input stored at offset `place` of a buffer
    fn imp(&mut self, p: &Prog, f: ImplFn, entry: u8, knobs: &[i128], input: &[u8], place: usize) -> Out {
        self.stats.execs += 1;
        let n = input.len();
        // surroundings depend on the place, and must not matter
        let sur = (place as u8).wrapping_mul(0x3b) ^ 0x5a;
        let around: &mut [u8];
        let lead;
        if place >= CROSS {
            // across a boundary of 2^40 bytes, `place - CROSS` bytes before it
            let k = place - CROSS;
            lead = 16;
            around = unsafe { std::slice::from_raw_parts_mut((self.arena - k - lead) as *mut u8, lead + n + 16) };
        } else {
            let need = place + n + 16;
            if self.buf.len() < need {
                self.buf.resize(need, 0);
            }
            lead = place;
            around = &mut self.buf[..need];
        }
        around[..lead].fill(sur);
        around[lead..lead + n].copy_from_slice(input);
        around[lead + n..].fill(sur);
        let slice = &around[lead..lead + n];
        set_knobs(knobs);
        clear_events();
        {
            let mut c = CURRENT.lock().unwrap();
            match &mut *c {
                Some((n, e, k, i)) => {
                    if *n != p.name {
                        n.clone_from(&p.name);
                    }
                    *e = entry;
                    k.clear();
                    k.extend_from_slice(knobs);
                    i.clear();
                    i.extend_from_slice(input);
                }
                None => *c = Some((p.name.clone(), entry, knobs.to_vec(), input.to_vec())),
            }
        }
        SEQ.fetch_add(1, Ordering::SeqCst);
        set_base(slice);
        meter_start();
        let r = catch_unwind(AssertUnwindSafe(|| f(entry, slice)));
        self.mem = meter_stop();
        SEQ.fetch_add(1, Ordering::SeqCst);
        let mut o = match r {
            Ok(o) => o,
            Err(e) => {
                let mut o = Out::new(Class::Panic);
                o.msg = if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "?".to_string()
                };
                o
            }
        };
        if o.msg.starts_with("engine:") {
            panic!("{}", o.msg);
        }
        o.events = take_events();
        o
    }

    fn show_exp(x: &Exp1, at: bool) -> String {
        let mut s = match x.class {
            Class::Ok => format!("Ok(remainder at {}, value {:?})", x.rem, x.val),
            c => format!("{}{}", c.name(), x.kind.map(|k| format!("({})", k)).unwrap_or_default()),
        };
        if at && matches!(x.class, Class::Err | Class::Fail) {
            write!(s, " at {}", x.epos).unwrap();
        }
        if !x.events.is_empty() {
            write!(s, " events {:?}", x.events).unwrap();
        }
        s
    }

    fn show_out(o: &Out) -> String {
        let mut s = match o.class {
            Class::Ok if o.rem == usize::MAX => {
                format!("Ok(remainder is not a part of input, value {:?})", o.val)
            }
            Class::Ok => format!("Ok(remainder at {}, value {:?})", o.rem, o.val),
            Class::Inc => format!("Incomplete({:?})", o.needed),
            Class::Panic => format!("panic: {}", o.msg),
            c => format!("{}({})", c.name(), o.kind.clone().unwrap_or_default()),
        };
        if let Some(n) = o.epos {
            write!(s, " at {}", n).unwrap();
        }
        if !o.events.is_empty() {
            write!(s, " events {:?}", o.events).unwrap();
        }
        s
    }

    #[allow(clippy::too_many_arguments)]
    fn viol(&mut self, what: &str, p: &Prog, entry: u8, knobs: &[i128], input: &[u8], place: usize, expected: String, got: String) {
        self.nviol += 1;
        // keep the shortest inputs
        let n = self.violations.iter().filter(|v| v.prog == p.name && v.what == what).count();
        let v = Violation {
            what: what.to_string(),
            prog: p.name.clone(),
            entry,
            knobs: knobs.to_vec(),
            input: input.to_vec(),
            place,
            expected,
            got,
        };
        if n < 2 {
            self.violations.push(v);
        } else if let Some(w) = self
            .violations
            .iter_mut()
            .find(|w| w.prog == p.name && w.what == what && w.input.len() > input.len())
        {
            *w = v;
        }
    }

    fn same(x: &Exp1, o: &Out, p: &Prog) -> bool {
        if x.class != o.class || x.events != o.events {
            return false;
        }
        match x.class {
            Class::Ok => x.rem == o.rem && x.val == o.val,
            Class::Err | Class::Fail if p.epos && o.epos != Some(x.epos) => false,
            Class::Err => p.nokind || x.kind.is_none() || o.kind.is_none() || x.kind == o.kind.as_deref(),
            _ => true,
        }
    }

    /// check one state; returns the observation
    fn state(&mut self, p: &Prog, f: ImplFn, entry: u8, knobs: &[i128], input: &[u8]) -> (Exp1, Out) {
        self.stats.states += 1;
        let x = self.model(p, entry, knobs, input);
        if p.dbg {
            self.reset_stdout();
        }
        let o = self.imp(p, f, entry, knobs, input, p.places[0]);
        self.stats.classes[o.class as usize] += 1;
        let mut h = 0xcbf29ce484222325u64;
        fnv(&mut h, o.class as u64);
        if o.class == Class::Ok {
            fnv(&mut h, (input.len() - o.rem.min(input.len())) as u64);
            for v in &o.val {
                fnv(&mut h, *v as u64);
                fnv(&mut h, (*v >> 64) as u64);
            }
        }
        if let Some(k) = &o.kind {
            for b in k.bytes() {
                fnv(&mut h, b as u64);
            }
        }
        for v in &o.events {
            fnv(&mut h, *v as u64);
        }
        self.stats.outcomes.insert(h);
        if !Self::same(&x, &o, p) {
            let (a, b) = (Self::show_exp(&x, p.epos), Self::show_out(&o));
            self.viol("model", p, entry, knobs, input, p.places[0], a, b);
        }
        // (nom reserves room for up to 65536 items when it is given their number; the observation itself takes 16 bytes per item)
        let (largest, total) = self.mem;
        self.stats.max_alloc = self.stats.max_alloc.max(largest);
        if largest > (16 << 20) + 256 * input.len() || total > (64 << 20) + (8 << 20) * input.len() {
            self.viol("allocation", p, entry, knobs, input, p.places[0], "memory in proportion with the input".into(), format!("an allocation of {} bytes, {} in all, for {} bytes of input", largest, total, input.len()));
        }
        if p.never_inc && o.class == Class::Inc {
            self.viol("complete", p, entry, knobs, input, p.places[0], "not Incomplete".into(), Self::show_out(&o));
        }
        if p.dbg {
            let printed = self.read_stdout();
            let mut got: Vec<String> = vec![];
            for l in printed.lines() {
                if let Some((name, e)) = l.split_once(": Error(") {
                    let class = e.split(|c: char| !c.is_ascii_alphanumeric()).next().unwrap_or("");
                    got.push(format!("{}: {} at ", name.trim().trim_start_matches("r#"), class));
                } else if let (Some(g), Some((_, rest))) = (got.last_mut(), l.split_once('\t')) {
                    // (a line of the dump: offset, bytes, text)
                    g.extend(rest.split('\t').next().unwrap_or("").chars().filter(|c| c.is_ascii_hexdigit()));
                }
            }
            if got != x.dbg {
                self.viol("debug output", p, entry, knobs, input, p.places[0], format!("debug messages for fields {:?}", x.dbg), format!("{:?}", got));
            }
        }
        for place in &p.places[1..] {
            let o2 = self.imp(p, f, entry, knobs, input, *place);
            if o2 != o {
                let (a, b) = (Self::show_out(&o), Self::show_out(&o2));
                self.viol("placement", p, entry, knobs, input, *place, format!("same as at offset {}: {}", p.places[0], a), b);
            }
        }
        if p.twice {
            let o2 = self.imp(p, f, entry, knobs, input, p.places[0]);
            if o2 != o {
                let (a, b) = (Self::show_out(&o), Self::show_out(&o2));
                self.viol("history", p, entry, knobs, input, p.places[0], a, b);
            }
        }
        (x, o)
    }

    fn reset_stdout(&mut self) {
        let _ = std::io::stdout().flush();
        if let Some(f) = &mut self.stdout {
            f.set_len(0).expect("engine: stdout");
        }
    }

    fn read_stdout(&mut self) -> String {
        let _ = std::io::stdout().flush();
        let f = self.stdout.as_mut().expect("engine: no stdout file");
        f.seek(std::io::SeekFrom::Start(0)).unwrap();
        let mut v = vec![];
        f.read_to_end(&mut v).unwrap();
        String::from_utf8_lossy(&v).to_string()
    }

    #[allow(clippy::too_many_arguments)]
    fn dfs(&mut self, p: &Prog, f: ImplFn, entry: u8, knobs: &[i128], input: &mut Vec<u8>, st: &[Pos], hist: &mut Vec<(usize, Out)>, reached: &mut [bool; 5]) {
        let (x, o) = self.state(p, f, entry, knobs, input);
        reached[x.class as usize] = true;
        self.stats.max_depth = self.stats.max_depth.max(input.len());
        if self.samples.len() < 3 && input.len() >= 2 && o.class == Class::Ok && self.stats.states % 17 == 3 {
            self.samples.push(format!(
                "program {} entry {} knobs {:?} input {}: model {} implementation {}",
                p.name,
                ["parse", "parse_be", "parse_le"][entry as usize],
                knobs,
                hex(input),
                Self::show_exp(&x, p.epos),
                Self::show_out(&o)
            ));
        }
        if p.stream {
            self.stream_edges(p, entry, knobs, input, hist, &o);
        }
        hist.push((input.len(), o));
        let next = next_bytes(&p.segs, st, input.len());
        if next.is_empty() {
            self.stats.traces += 1;
        }
        for (b, nst) in next {
            self.stats.transitions += 1;
            let n = input.len();
            input.extend_from_slice(&b);
            self.dfs(p, f, entry, knobs, input, &nst, hist, reached);
            input.truncate(n);
        }
        hist.pop();
    }

    /// streaming protocol, on real observations only
    fn stream_edges(&mut self, p: &Prog, entry: u8, knobs: &[i128], input: &[u8], hist: &[(usize, Out)], o: &Out) {
        for (k, a) in hist.iter() {
            self.stats.pairs += 1;
            let k = *k;
            let more = input.len() - k;
            match a.class {
                Class::Ok => {
                    if o.class != Class::Ok || o.val != a.val || o.rem != a.rem {
                        self.viol("stability", p, entry, knobs, input, p.places[0], format!("same as after {} bytes: {}", k, Self::show_out(a)), Self::show_out(o));
                    }
                }
                Class::Err | Class::Fail => {
                    if o.class != a.class || o.kind != a.kind {
                        self.viol("stability", p, entry, knobs, input, p.places[0], format!("same as after {} bytes: {}", k, Self::show_out(a)), Self::show_out(o));
                    }
                }
                Class::Inc => {
                    if let Some(n) = a.needed {
                        if n == 0 || (more < n && o.class == Class::Ok) {
                            self.viol("needed", p, entry, knobs, input, p.places[0], format!("no success before {} more bytes (Incomplete({}) after {} bytes)", n, n, k), Self::show_out(o));
                        }
                    }
                }
                Class::Panic => (),
            }
        }
    }

    /// A reader which only knows the parser's answers: it waits for exactly the announced number of
    /// bytes (or one) and calls the parser again.  On a complete message it must reach the same
    /// result as a one-shot call, never waiting for bytes beyond those the result depends on.
    fn reader(&mut self, p: &Prog, f: ImplFn, entry: u8, knobs: &[i128], input: &[u8]) {
        let full = self.imp(p, f, entry, knobs, input, p.places[0]);
        if full.class == Class::Inc || full.class == Class::Panic {
            return;
        }
        self.stats.reader_runs += 1;
        // shortest prefix deciding the result
        let mut need = input.len();
        while need > 0 && self.imp(p, f, entry, knobs, &input[..need - 1], p.places[0]).class == full.class {
            need -= 1;
        }
        let mut have = 0;
        loop {
            self.stats.reader_steps += 1;
            let o = self.imp(p, f, entry, knobs, &input[..have], p.places[0]);
            if o.class == Class::Inc {
                let n = o.needed.unwrap_or(1);
                let wait = have + n;
                if full.class == Class::Ok && wait > need {
                    self.viol("reader", p, entry, knobs, input, p.places[0], format!("at most {} bytes requested", need), format!("Incomplete({:?}) with {} bytes", o.needed, have));
                    return;
                }
                if wait > input.len() {
                    return;
                }
                have = wait;
            } else {
                let mut a = o.clone();
                let mut b = full.clone();
                a.events.clear();
                b.events.clear();
                if a != b {
                    self.viol("reader", p, entry, knobs, input, p.places[0], Self::show_out(&full), Self::show_out(&o));
                }
                return;
            }
        }
    }

    fn leaves(segs: &[Seg], input: &mut Vec<u8>, st: &[Pos], out: &mut Vec<Vec<u8>>) {
        let m = next_bytes(segs, st, input.len());
        if m.is_empty() {
            out.push(input.clone());
        }
        for (b, nst) in m {
            let n = input.len();
            input.extend_from_slice(&b);
            Self::leaves(segs, input, &nst, out);
            input.truncate(n);
        }
    }

    fn program(&mut self, p: &Prog, f: ImplFn) -> Result<(), String> {
        self.stats.programs += 1;
        let before = self.stats.states;
        let mut reached = [false; 5];
        for knobs in &p.knobs {
            for entry in &p.entries {
                let mut st = vec![];
                settle(&p.segs, (0, usize::MAX, 0), &mut st);
                self.dfs(p, f, *entry, knobs, &mut vec![], &st, &mut vec![], &mut reached);
                if p.stream {
                    let mut l = vec![];
                    Self::leaves(&p.segs, &mut vec![], &st, &mut l);
                    for i in l {
                        self.reader(p, f, *entry, knobs, &i);
                    }
                }
            }
        }
        self.stats
            .prog_outcomes
            .insert(p.name.clone(), self.stats.states - before);
        for c in &p.reach {
            if !reached[*c as usize] {
                return Err(format!("program {} never reaches {}", p.name, c.name()));
            }
        }
        Ok(())
    }
}

impl<'p> Run<'p> {
    /// evaluate an expression without variables (knobs only)
    pub fn eval_closed(&mut self, x: &crate::model::Ex) -> V {
        let (_, v) = self
            .parse_p(&P::Ret(x.clone()), 0)
            .expect("engine: closed expression");
        v
    }
}

fn write_viol(v: &Violation) -> String {
    format!(
        "{{\"what\":{},\"prog\":{},\"entry\":{},\"knobs\":[{}],\"input\":{},\"place\":{},\"expected\":{},\"got\":{}}}",
        jstr(&v.what),
        jstr(&v.prog),
        v.entry,
        v.knobs.iter().map(|k| format!("\"{}\"", k)).collect::<Vec<_>>().join(","),
        jstr(&hex(&v.input)),
        v.place,
        jstr(&v.expected),
        jstr(&v.got)
    )
}

extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
}

/// entry point of generated binaries: `bin REPORT [--only PROG ENTRY KNOBS HEX PLACE]`
pub fn main(desc: &str, table: &[(&str, ImplFn)]) {
    let args: Vec<String> = std::env::args().collect();
    let report = args.get(1).expect("usage: bin REPORT").clone();
    std::panic::set_hook(Box::new(|i| {
        if let Some(s) = i.payload().downcast_ref::<String>() {
            if s.starts_with("engine:") {
                eprintln!("{}", i);
            }
        }
    }));
    // programs may print on stdout
    let stdout = {
        use std::os::fd::AsRawFd;
        let path = format!("{}.stdout", report);
        let f = std::fs::OpenOptions::new()
            .create(true)
            .truncate(true)
            .write(true)
            .open(&path)
            .expect("engine: stdout");
        drop(f);
        let f = std::fs::OpenOptions::new()
            .append(true)
            .read(true)
            .open(&path)
            .expect("engine: stdout");
        unsafe { dup2(f.as_raw_fd(), 1) };
        f
    };
    // hang detection
    {
        let report = report.clone();
        std::thread::spawn(move || {
            let mut last = 0;
            let mut since = std::time::Instant::now();
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                let s = SEQ.load(Ordering::SeqCst);
                if s != last || s % 2 == 0 {
                    last = s;
                    since = std::time::Instant::now();
                } else if since.elapsed().as_secs() >= 30 {
                    let c = CURRENT.lock().unwrap().clone().unwrap();
                    let v = Violation {
                        what: "hang".into(),
                        prog: c.0,
                        entry: c.1,
                        knobs: c.2,
                        input: c.3,
                        place: 1,
                        expected: "a result".into(),
                        got: "no result after 30 s".into(),
                    };
                    std::fs::write(&report, format!("{{\"hang\":true,\"nviol\":1,\"violations\":[{}]}}", write_viol(&v))).unwrap();
                    std::process::exit(4);
                }
            }
        });
    }
    let r = catch_unwind(|| {
        let sx = parse_all(desc);
        let mut prog = Program::default();
        let mut progs = vec![];
        for s in &sx {
            match s.head() {
                "prog" => (),
                _ => prog.add_obj(s),
            }
        }
        for s in &sx {
            if s.head() == "prog" {
                progs.push(parse_prog(&mut prog, s));
            }
        }
        (prog, progs)
    });
    let (prog, progs) = match r {
        Ok(x) => x,
        Err(_) => {
            eprintln!("engine: bad descriptor");
            std::process::exit(3)
        }
    };
    let mut e = Exp {
        prog: &prog,
        stats: Stats::default(),
        violations: vec![],
        nviol: 0,
        samples: vec![],
        mem: (0, 0),
        arena: arena(),
        buf: vec![0; 4096],
        stdout: Some(stdout),
    };
    let start = std::time::Instant::now();
    let mut errors: Vec<String> = vec![];
    let lookup = |n: &str| {
        table
            .iter()
            .find(|(m, _)| *m == n)
            .unwrap_or_else(|| panic!("engine: no function for program {}", n))
            .1
    };
    if args.get(2).map(|s| s.as_str()) == Some("--only") {
        let p = progs.iter().find(|p| p.name == args[3]).expect("engine: unknown program");
        let entry: u8 = args[4].parse().unwrap();
        let knobs: Vec<i128> = args[5].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        let input = unhex(&args[6]);
        let f = lookup(&p.name);
        let mut hist = vec![];
        for k in 0..=input.len() {
            let (x, o) = e.state(p, f, entry, &knobs, &input[..k]);
            eprintln!("input {:>3} bytes {}\n  expected {}\n  got      {}", k, hex(&input[..k]), Exp::show_exp(&x, p.epos), Exp::show_out(&o));
            if p.stream {
                e.stream_edges(p, entry, &knobs, &input[..k], &hist, &o);
            }
            hist.push((k, o));
        }
    } else {
        for p in &progs {
            let f = lookup(&p.name);
            match catch_unwind(AssertUnwindSafe(|| e.program(p, f))) {
                Ok(Ok(())) => (),
                Ok(Err(s)) => errors.push(s),
                Err(x) => {
                    let m = x.downcast_ref::<String>().cloned().or(x.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    errors.push(format!("program {}: {}", p.name, m))
                }
            }
        }
    }
    let s = &e.stats;
    let js = format!(
        "{{\"programs\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"execs\":{},\"pairs\":{},\"reader_runs\":{},\"reader_steps\":{},\"model_steps\":{},\"max_depth\":{},\"max_alloc\":{},\"classes\":{{{}}},\"distinct_outcomes\":{},\"wall\":{:.3},\"samples\":[{}],\"errors\":[{}],\"nviol\":{},\"violations\":[{}]}}",
        s.programs,
        s.states,
        s.transitions,
        s.traces,
        s.execs,
        s.pairs,
        s.reader_runs,
        s.reader_steps,
        s.model_steps,
        s.max_depth,
        s.max_alloc,
        Class::ALL
            .iter()
            .map(|c| format!("\"{}\":{}", c.name(), s.classes[*c as usize]))
            .collect::<Vec<_>>()
            .join(","),
        s.outcomes.len(),
        start.elapsed().as_secs_f64(),
        e.samples.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","),
        errors.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","),
        e.nviol,
        e.violations.iter().map(write_viol).collect::<Vec<_>>().join(",")
    );
    std::fs::write(&report, js).expect("engine: cannot write report");
    if !errors.is_empty() {
        std::process::exit(3);
    }
    std::process::exit(if e.nviol > 0 { 1 } else { 0 });
}
