import os, re, time
import families, families2, families3, families4, families5, families6, families7, families8, families9, families10, families11, families12
import cover
import run


def simple(fam):
    def f(res):
        run.explore(res, fam(res.tier))
    return f


CHECKS = {p: simple(getattr(m, p)) for m in (families, families2, families3, families4, families7, families8) for p in dir(m) if p[0] == 'C' and p[1:].isdigit()}


def prelude18(conf):
    """crate root for programs built with a feature set: `std` cannot be named in it, nor Vec and String without alloc"""
    pre = open(os.path.join(run.HERE, 'gen', 'prelude.rs')).read() + open(os.path.join(run.HERE, 'engine', 'rt.rs')).read()
    attrs, body = pre[:pre.index('pub use')], pre[pre.index('pub use'):].replace('std::', 'vstd::')
    if conf == 'alloc':
        return attrs + families5.NOSTD + body
    for n in ('twist', 'chk'):
        body = re.sub(r'impl<T: %s> %s for Vec<T> \{\n?.*\n?\}\n' % (n.title(), n.title()), '', body)
    body = re.sub(r'\bVec<', 'vstd::vec::Vec<', body)
    body = re.sub(r'\bString\b', 'vstd::string::String', body).replace('format!', 'vstd::format!')
    return attrs + families5.NOALLOC + body


def prelude(name):
    """crate root of that name (None: the usual one)"""
    if name in ('alloc', 'none'):
        return prelude18(name)
    pre = ''.join(open(os.path.join(run.HERE, *f)).read() for f in (('gen', 'prelude.rs'), ('engine', 'rt.rs')) + ((('gen', 'user.rs'),) if name == 'user' else ()))
    return '#![forbid(unsafe_code)]\n#![recursion_limit = "128"]\n' + pre if name == 'forbid' else pre


def c18(res):
    """the same programs with the three feature sets; without std and alloc, in crates which cannot name them"""
    for conf, features, prelude in (
            ('std', '', None),
            ('alloc', ', default-features = false, features = ["alloc"]', prelude18('alloc')),
            ('none', ', default-features = false', prelude18('none'))):
        n0, s0 = res.cov['programs'], res.cov['states']
        run.explore(res, families5.C18(res.tier, conf), dirname='%s-%s-%s' % (res.prop, res.tier, conf), features=features, prelude=prelude, prename=conf)
        res.cov['programs_' + conf] = res.cov['programs'] - n0
        res.cov['states_' + conf] = res.cov['states'] - s0
    freestanding(res)


BARE = '''#![no_std]
#![forbid(unsafe_code)]
#![allow(dead_code)]
// %d
%s
use nom_derive::*;
use core::marker::PhantomData;
#[derive(Nom)] pub struct Nest { pub a: u8, #[nom(LittleEndian)] pub b: u16 }
#[derive(Nom)] #[repr(u16)] pub enum Less { A, B = 7 }
#[derive(NomLE)] #[nom(Complete)] pub struct Mine<'a> { pub a: u8, #[nom(Cond = "a == 1")] pub b: Option<u16>, #[nom(Take = "2")] pub c: &'a [u8], #[nom(Tag = "b\\"ab\\"")] pub d: &'a [u8], pub e: [u16; 3], pub f: Option<Nest>, #[nom(Ignore)] pub g: PhantomData<u8>,
  #[nom(SkipBefore(1), AlignAfter(4), ErrorIf(a == 9), Verify(*h != 3))] pub h: u32, #[nom(Move(-1))] pub i2: i8, #[nom(MoveAbs(0))] pub j: f32, #[nom(Value(3))] pub k: u64, #[nom(Map = "|x: u16| x ^ 1")] pub l: u16, #[nom(Into, Parse = "nom::number::streaming::be_u8")] pub m: u32 }
#[derive(Nom)] #[nom(Selector = "u8", ExtraArgs(z: u32), PreExec = "let z = z + 1;")] pub enum Sel<'a> { #[nom(Selector = "1")] A(u16, Less), #[nom(Selector = "2..=7")] B { x: Nest, #[nom(Value(z))] y: u32 }, #[nom(Selector = "9")] C, #[nom(Selector = "_")] D(#[nom(Take(z))] &'a [u8]) }
#[derive(NomBE)] #[nom(GenericErrors, Exact, InputName(data))] pub struct Gen<A> where A: Copy { pub a: A, #[nom(SetEndian = "if data.len() == 1 { nom::number::Endianness::Big } else { nom::number::Endianness::Little }")] pub b: u64 }
#[derive(Nom)] pub struct Unit;
%s
'''


def freestanding(res):
    """without std (and without alloc), declarations need nothing of them: they are linked in libraries which define
    what std would define (rustc rejects it if std is linked), and no allocator (it rejects alloc)"""
    # (that the experiment can fail: with std and with alloc it must)
    for conf, features, alloc, want in (('none', '', 0, 1), ('alloc', ', features = ["alloc"]', 1, 1), ('alloc_unallocated', ', features = ["alloc"]', 0, 0), ('std', ', features = ["std"]', 1, 0)):
        d = os.path.join(run.WORK, 'C18-%s-bare-%s' % (res.tier, conf))
        name = 'bare-%s-%s' % (res.tier, conf.replace('_', '-'))
        run.write(os.path.join(d, 'Cargo.toml'), '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n[lib]\nname = "bare"\npath = "lib.rs"\ncrate-type = ["staticlib"]\n[profile.dev]\npanic = "abort"\ndebug = false\nincremental = false\n[dependencies]\nnom-derive = { path = "%s", default-features = false%s }\nbase = { path = "base" }\n[workspace]\n' % (name, run.REPO, features))
        # what the crate of declarations (without unsafe code) cannot define
        run.write(os.path.join(d, 'base', 'Cargo.toml'), '[package]\nname = "base"\nversion = "0.1.0"\nedition = "2021"\n[lib]\npath = "lib.rs"\n')
        run.write(os.path.join(d, 'base', 'lib.rs'), '#![no_std]\n// %d\n' % time.time_ns() + '#[panic_handler] fn ph(_: &core::panic::PanicInfo) -> ! { loop {} }\n' + (
            'struct No;\n#[global_allocator] static N: No = No;\nunsafe impl core::alloc::GlobalAlloc for No { unsafe fn alloc(&self, _: core::alloc::Layout) -> *mut u8 { core::ptr::null_mut() } unsafe fn dealloc(&self, _: *mut u8, _: core::alloc::Layout) {} }\n' if alloc else ''))
        more = ('#[derive(Nom)] pub struct More { pub a: Vec<u16>, #[nom(Count = "a.len()")] pub b: Vec<Nest>, pub c: String, #[nom(LengthCount = "nom::number::streaming::be_u8")] pub d: Vec<u8> }', 'extern crate alloc;\nuse alloc::{vec::Vec, string::String};') if alloc else ('', '')
        run.write(os.path.join(d, 'lib.rs'), BARE % (time.time_ns(), 'extern crate base as _;\n' + more[1], more[0]))
        rc, out, err = run.cargo(d, ['build', '--offline', '--message-format=json'])
        msg = [m['message']['message'] for m in run.diagnostics(out) if m['message']['level'] == 'error']
        if rc and not msg:
            raise run.Broken('build failed: %s' % err[-2000:])
        if want and rc:
            res.violation('bare:%s' % conf, 'declarations which need no %s cannot be linked without it: %s' % ('std' if alloc else 'std and alloc', msg[0][:300]), dict(kind='derive', message=msg[0]))
        elif not want and not rc:
            raise run.Broken('a library was linked twice (%s)' % conf)
    res.cov['linked_without_std'] = 2


CHECKS['C18'] = c18


def derive_prints():
    """[(marker, is its code printed?, text)]: kinds of objects x derive macros x places of DebugDerive among attributes"""
    out = []
    kinds = [('named', 'pub struct %s { pub a: u16, %s pub b: u8 }'), ('tuple', 'pub struct %s(pub u16, %s pub u8);'), ('unit', 'pub struct %s;'),
             ('gen', "pub struct %s<A> where A: Copy { pub a: A, %s pub b: u8 }"), ('lt', "pub struct %s<'a> { pub a: u16, #[nom(Take = \"2\")] pub b: &'a [u8] }"),
             ('enum', '#[nom(Selector = "u8")] pub enum %s { #[nom(Selector = "1")] A { a: u16, %s b: u8 }, #[nom(Selector = "2")] B(u32), #[nom(Selector = "_")] C }'),
             ('fieldless', '#[repr(u16)] pub enum %s { A, B = 7 }')]
    # (with attributes which the kind has not, the declaration is left out)
    tops = [('no', ''), ('dd', '#[nom(DebugDerive)]'), ('ddf', '#[nom(DebugDerive, Complete)]'), ('ddl', '#[nom(Complete, DebugDerive)]'), ('dd1', '#[nom(DebugDerive)] #[nom(Complete)]'), ('dd2', '#[nom(Complete)] #[nom(DebugDerive)]'),
            ('ddd', '#[nom(DebugDerive, DebugDerive)]'), ('ddi', '#[nom(InputName = "xx", DebugDerive)]'), ('ddg', '#[nom(GenericErrors, DebugDerive)]'), ('dda', '#[nom(ExtraArgs(zz: u8), DebugDerive)]'),
            ('dde', '#[nom(DebugDerive, Exact)]'), ('dbg', '#[nom(Debug)]'), ('dbgd', '#[nom(Debug, DebugDerive)]'), ('ddbe', '#[nom(DebugDerive, BigEndian)]'), ('ddle', '#[nom(DebugDerive)] #[nom(LittleEndian)]'), ('oth', '#[nom(Complete)]')]
    for (k, text), d, (tl, top) in ((a, b, c) for a in kinds for b in ('Nom', 'NomBE', 'NomLE') for c in tops):
        if k == 'fieldless' and tl == 'dda' or k in ('tuple', 'enum') and tl.startswith('dbg') or d != 'Nom' and tl in ('ddbe', 'ddle') or k in ('lt', 'gen') and tl in ('dbg', 'dbgd'):
            continue
        for fa in ('', '#[nom(Debug)]') if k in ('named', 'gen') else ('',):
            m = 'Mark%dX' % len(out)
            n = text.count('%s')
            out.append((m, 'DebugDerive' in top, '#[derive(%s)] %s %s' % (d, top, text % ((m, fa)[:n]))))
    return out


def c14(res):
    """debugging attributes: what parsers do, and what is printed when they are made"""
    run.explore(res, families3.C14(res.tier))
    decls = derive_prints()
    d = run.crate('%s-%s-derive' % (res.prop, res.tier), nshard=1)
    run.write(os.path.join(d, 'src', 's0.rs'), '#![allow(dead_code)]\n// %d\nextern crate nom_derive;\nuse nom_derive::*;\n%s\nfn main() {}\n' % (time.time_ns(), '\n'.join(t for _, _, t in decls)))
    rc, out, err = run.cargo(d, ['build', '--offline', '--bins', '--message-format=json'])
    if rc:
        msg = [m['message'].get('rendered') or m['message']['message'] for m in run.diagnostics(out) if m['message']['level'] == 'error']
        if not msg:
            raise run.Broken('build failed: %s' % err[-2000:])
        res.violation('derive:compile', 'declarations with DebugDerive do not compile: %s' % msg[0][:400], dict(kind='derive', message=msg[0]))
        return
    # the text of the generated implementation, however it is laid out
    err = re.sub(r'\s', '', err)
    for m, want, text in decls:
        got = re.search(r'impl.{0,400}?%s.*?fnparse_be' % m, err) is not None
        if got != want or want != (m in err):
            res.violation('derive:%s' % m, 'the code generated for this declaration is %s on the standard error of the compiler: %s' % ('not printed' if want else 'printed', text),
                          dict(kind='derive', source=text))
    res.cov['declarations_printed'] = sum(w for _, w, _ in decls)
    res.cov['declarations_not_printed'] = sum(not w for _, w, _ in decls)


CHECKS['C14'] = c14


def c24(res):
    """where and how, and in crates of other editions"""
    run.explore(res, families8.C24(res.tier))
    for ed in ('2018', '2024'):
        n0 = res.cov['programs']
        run.explore(res, families8.editions(res.tier, ed), dirname='%s-%s-%s' % (res.prop, res.tier, ed), edition=ed, prelude=prelude('forbid'), prename='forbid')
        res.cov['programs_' + ed] = res.cov['programs'] - n0


CHECKS['C24'] = c24


def c25(res):
    """with types and inputs of users"""
    run.explore(res, families9.C25(res.tier), prelude=prelude('user'), prename='user')


CHECKS['C25'] = c25


def c26(res):
    """places of errors"""
    run.explore(res, families10.C26(res.tier), prelude=prelude('user'), prename='user')


CHECKS['C26'] = c26


def combined(prop, own):
    """and combinations of features (families11) and sizes (families12)"""
    def f(res):
        own(res)
        n0, s0 = res.cov['programs'], res.cov['states']
        ps = families11.combos(prop, res.tier)
        sz = families12.sizes(prop, res.tier)
        if prop == 'C26':
            sz = families12.places(res.tier)
            ps = [families10.Placed(p, '') for p in ps]
        for p in sz:
            p.name = 'z_' + p.name
            if hasattr(p, 'p'):
                p.p.name = p.name
        ps += sz
        run.explore(res, ps, dirname='%s-%s-w' % (prop, res.tier), prelude=prelude('user') if prop == 'C26' else None, prename='user' if prop == 'C26' else None)
        res.cov['programs_combinations_and_sizes'] = res.cov['programs'] - n0
        res.cov['states_combinations_and_sizes'] = res.cov['states'] - s0
        res.cov['programs_sizes'] = len(sz)
        t, m = cover.missing()
        if m:
            raise run.Broken('%d combinations of features are in no row: run gen/cover.py' % m)
        res.cov['combinations_of_3_features_in_the_array'] = t
    return f


for _p in families11.WHO:
    CHECKS[_p] = combined(_p, CHECKS[_p])


def typecheck(dirname, decls):
    """which of these declarations does the compiler accept?  Returns (accepted, {name: (decl, message, rendered)})"""
    d = run.crate(dirname)
    pre = open(os.path.join(run.HERE, 'gen', 'prelude.rs')).read() + open(os.path.join(run.HERE, 'engine', 'rt.rs')).read()
    run.fresh_target()
    left, rejected, rounds = list(decls), {}, 0
    while True:
        sh = []
        for k in range(run.NSHARD):
            text, ranges, line = [pre], [], pre.count('\n') + 1
            mine = left[k::run.NSHARD]
            for p in mine:
                t = p.rs()
                ranges.append((line, line + t.count('\n') - 1, p))
                text.append(t)
                line += t.count('\n')
            text.append('fn main() {}\n')
            run.write(os.path.join(d, 'src', 's%d.rs' % k), ''.join(text))
            sh.append(('', ranges, mine))
        bad = run.build(d, sh, 'check')
        if not bad:
            return left, rejected, rounds
        rejected.update(bad)
        left = [p for p in left if p.name not in bad]
        rounds += 1
        if rounds > 30:
            raise run.Broken('declarations still do not compile after %d rounds' % rounds)


ACCIDENT = re.compile(r'message: (called `\w+::\w+\(\)`|index out of bounds|range (start|end) index|slice index|attempt to \w+|'
                      r'internal error|not (yet )?implemented|already (mutably )?borrowed|assertion|removal index|insertion index).*|'
                      r'the compiler unexpectedly panicked')


def c19(res):
    """declarations which must be rejected, their twins which must be accepted, and what accepted ones do"""
    rej, acc = families6.rejected(res.tier), families6.accepted(res.tier)
    left, bad, rounds = typecheck('C19-%s-rej' % res.tier, rej)
    res.cov['declarations_rejected'] = len(bad)
    res.cov['rounds'] = rounds
    for p in left:
        res.violation('%s:accepted' % p.name, 'declaration %s is accepted, it should be rejected (%s): %s' % (p.name, p.why, p.text[:300]),
                      dict(kind='accepted', prog=p.name, source=p.rs(), why=p.why))
    # rejected by a diagnostic, not by an accident of the macro
    for n, (p, msg, rendered) in sorted(bad.items()):
        if ACCIDENT.search(rendered):
            res.violation('%s:accident' % n, 'declaration %s is rejected without a diagnostic, by a panic of the macro (%s): %s' % (
                n, ACCIDENT.search(rendered).group(0), p.text[:300]), dict(kind='accident', prog=n, source=p.rs(), message=rendered))
    left, bad, rounds = typecheck('C19-%s-acc' % res.tier, acc)
    res.cov['declarations_accepted'] = len(left)
    for n, (p, msg, rendered) in sorted(bad.items()):
        res.violation('%s:rejected' % n, 'declaration %s is rejected (%s), it should be accepted (%s): %s' % (n, msg, p.why, p.text[:300]),
                      dict(kind='compile', prog=n, source=p.rs(), message=rendered))
    run.explore(res, families6.explored(res.tier))


CHECKS['C19'] = c19


def setup():
    """build the engine and the dependencies once, and explore one trivial program"""
    from dsl import Struct, F, Prog, fill
    res = run.Result('setup', 'quick')
    run.explore(res, [Prog('setup', [Struct('T', [F('a', 'u16')])], inp=[fill(3)])])
    if res.violations:
        # (the checks will report it)
        print('setup: %s' % res.violations[0]['text'][:300])
    print('setup done: %d states' % res.cov['states'])
    return 0
