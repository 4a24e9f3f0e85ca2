"""Program families: C24 (where and how a declaration is written does not matter)."""
import re
import dsl
from dsl import *
from families import *
from families3 import opt_kids, _needs_ext


class HProg(Prog):
    """program whose declarations are written through a hook"""
    hook = None

    def rs(self):
        h = self.hook()
        dsl.HOOK = h
        try:
            t = super().rs()
        finally:
            dsl.HOOK = dsl.Hook()
        return h.prog(self, t)


class Base(Hook):
    def prog(self, p, text):
        return text


# ---------------------------------------------------------------- declarations made by macros
class Mac(Base):
    """what: the parts given to the macro (the rest is in its body); depth: number of macros they go through"""
    def __init__(self, prog, what, depth=1):
        self.what, self.depth = set(what), depth
        self.pars, self.memo, self.count = [], {}, 0
        self.names = []
        if 'name' in self.what:
            for o in prog.objs:
                self.names += [n for n, t in o.args]
                for f in list(getattr(o, 'fields', [])) + [f for v in getattr(o, 'variants', []) for f in v.fields or []]:
                    self.names.append(f.name)
            self.names = [n for n in dict.fromkeys(self.names) if not re.fullmatch(r'_\d+', n)]

    def par(self, frag, text, memo=False):
        if memo and (frag, text) in self.memo:
            return self.memo[frag, text]
        n = '$p%d' % len(self.pars)
        self.pars.append((n, frag, text))
        if memo:
            self.memo[frag, text] = n
        return n

    def fty(self, f):
        t = rt(f.ty)
        return self.par('ty', t) if 'ty' in self.what else self.lt(t)

    def lt(self, t):
        return t.replace("'a", self.par('lifetime', "'a", True)) if 'lt' in self.what and "'a" in t else t

    def field(self, n):
        return self.par('ident', n, True) if 'name' in self.what else n

    def var(self, n):
        return self.par('ident', n) if 'var' in self.what else n

    def ren(self, t):
        """names of fields in the body of the macro"""
        for n in self.names:
            if re.search(r'(?<!\$)\b%s\b' % n, t):
                t = re.sub(r'(?<![\\$])\b%s\b(?!"|\\")' % re.escape(n), lambda m: self.par('ident', n, True), t)
        return t

    def arg(self, a):
        if a.arg is None:
            return a.name
        if 'meta' in self.what:
            return a.rs()
        # (the names of the input and of unnamed fields are those seen where the declaration is)
        here = '__I__' in a.arg or '__O__' in a.arg or re.search(r'\b_\d', a.arg) or a.name in ('PreExec', 'PostExec')
        if not here:
            if 'expr' in self.what:
                return '%s(%s)' % (a.name, self.par('expr', a.arg))
            if 'block' in self.what:
                return '%s(%s)' % (a.name, self.par('block', '{ %s }' % a.arg))
            if 'lit' in self.what:
                return '%s = %s' % (a.name, self.par('literal', '"%s"' % a.arg.replace('\\', '\\\\').replace('"', '\\"')))
            if 'tt' in self.what:
                return '%s %s' % (a.name, self.par('tt', '(%s)' % a.arg))
            if 'path' in self.what and re.fullmatch(r'[\w:]+', a.arg) and a.name in ('Parse', 'LengthCount'):
                return '%s(%s)' % (a.name, self.par('path', a.arg))
        if 'name' in self.what:
            return '%s(%s)' % (a.name, self.ren(a.arg))
        return a.rs()

    def nom(self, inner):
        return '#[%s]' % self.par('meta', 'nom(%s)' % inner) if 'meta' in self.what else super().nom(inner)

    def derive(self, d):
        return '#[%s]' % self.par('meta', 'derive(%s, Debug)' % d) if 'meta' in self.what else '#[derive(%s, Debug)]' % (self.par('ident', d) if 'derive' in self.what else d)

    def vis(self):
        return self.par('vis', 'pub') + ' ' if 'vis' in self.what else ''

    def pat(self, v):
        if 'pat' in self.what and ' if ' not in v.pat[0]:
            return 'Selector(%s)' % self.par('pat', v.pat[0])
        if 'lit' in self.what:
            return 'Selector = %s' % self.par('literal', '"%s"' % v.pat[0].replace('\\', '\\\\').replace('"', '\\"'))
        return super().pat(v)

    def sel(self, t):
        return 'Selector(%s)' % self.par('ty', t) if 'ty' in self.what and 'meta' not in self.what else super().sel(t)

    def xarg(self, n, t):
        if 'meta' in self.what:
            return n, t
        return self.par('ident', n, True) if 'name' in self.what else n, self.par('ty', t) if 'ty' in self.what else t

    def disc(self, t):
        return self.par('expr', t) if 'disc' in self.what else t

    def obj(self, o, text):
        self.count += 1
        m = 'mk%d' % self.count
        if 'repr' in self.what:
            text = re.sub(r'#\[repr\((\w+)\)\]', lambda k: '#[repr(%s)]' % self.par('ident', k.group(1)), text)
        if 'obj' in self.what:
            text = re.sub(r'pub (struct|enum) (\w+)', lambda k: '%s %s %s' % (self.par('vis', 'pub') if 'vis' in self.what else 'pub', k.group(1), self.par('ident', k.group(2))), text)
        if 'lt' in self.what:
            text = text.replace("<'a>", '<%s>' % self.par('lifetime', "'a", True), 1)
        if 'item' in self.what:
            t = 'macro_rules! %s { ($i:item) => { $i } }\n%s! { %s }\n' % (m, m, text)
        elif 'tts' in self.what:
            t = 'macro_rules! %s { ($($t:tt)*) => { $($t)* } }\n%s! { %s }\n' % (m, m, text)
        elif 'record' in self.what:
            t = 'macro_rules! %s { ($(#[$m:meta])* $v:vis %s $n:ident $($t:tt)*) => { $(#[$m])* $v %s $n $($t)* } }\n%s! { %s }\n' % (m, 'struct' if isinstance(o, Struct) else 'enum', 'struct' if isinstance(o, Struct) else 'enum', m, text)
        else:
            pat = ', '.join('%s:%s' % (n, f) for n, f, x in self.pars)
            # (forwarded from macro to macro)
            t = 'macro_rules! %s { (%s) => { %s } }\n' % (m, pat, text)
            for d in range(1, self.depth):
                t += 'macro_rules! %s_%d { (%s) => { %s! { %s } } }\n' % (m, d, pat, m if d == 1 else '%s_%d' % (m, d - 1), ', '.join(n for n, f, x in self.pars))
            t += '%s! { %s }\n' % (m if self.depth == 1 else '%s_%d' % (m, self.depth - 1), o.subst(', '.join(x for n, f, x in self.pars)))
        self.pars, self.memo = [], {}
        return t


# ---------------------------------------------------------------- conditional compilation, other attributes
class Cfg(Base):
    """attributes and parts which are not there"""
    def __init__(self, prog, what):
        self.what = what

    def nom(self, inner):
        if 'attr' in self.what:
            return '#[cfg_attr(any(), nom(NoSuchAttribute))] #[cfg_attr(all(), nom(%s))]' % inner
        if 'attr2' in self.what:
            return '#[cfg_attr(not(any()), cfg_attr(all(), nom(%s)), allow(dead_code))] #[cfg_attr(any(), nom(Count = "99"))]' % inner
        if 'each' in self.what:
            return '#[allow(unused)] #[nom(%s)] #[allow(dead_code)]' % inner
        return super().nom(inner)

    def derive(self, d):
        if 'attr' in self.what:
            return '#[cfg_attr(all(), derive(%s, Debug))] #[cfg_attr(any(), derive(NoSuchDerive))]' % d
        if 'attr2' in self.what:
            return '#[cfg_attr(all(), derive(Debug), derive(%s))]' % d
        return super().derive(d)

    def before(self):
        self.n = getattr(self, 'n', 0) + 1
        if 'on' in self.what:
            return '#[cfg(all())] '
        if 'doc' in self.what:
            return ['/// a = #[nom(Ignore)]\n', '#[doc = "#[nom(Count = 3)]"] ', '/** nom(Count = "3") */ ', '#[doc(alias = "nom")] ', '#[allow(non_snake_case)] ', '#[doc(hidden)] ', '#[cfg_attr(all(), doc = "x")] ', '#[rustfmt::skip] '][self.n % 8]
        return ''

    def fty(self, f):
        t = super().fty(f)
        if 'ghost' in self.what and not re.fullmatch(r'_\d+', f.name):
            # (a field behind this one, which is not there)
            self.n += 1
            return '%s, #[cfg(any())] #[nom(NoSuch)] ghost%d: NoSuchType' % (t, self.n)
        if 'ghost' in self.what:
            return '%s, #[cfg(not(all()))] #[nom(NoSuch)] NoSuchType' % t
        return t

    def var(self, n):
        return '#[cfg(all())] %s' % n if 'on' in self.what else n

    def obj(self, o, text):
        if 'ghost' in self.what:
            if isinstance(o, Enum):
                text = re.sub(r'\}\s*$', ' #[cfg(any())] #[nom(Selector = "_", NoSuch)] Ghost(NoSuchType), }\n', text)
                text = re.sub(r'(pub enum \w+(<\'a>)? )\{', r'\1{ #[cfg(any())] #[nom(Selector = "1")] Ghost0, ', text)
            elif isinstance(o, Fieldless):
                text = re.sub(r'(pub enum \w+ )\{', r'\1{ #[cfg(any())] Ghost0 = 77, ', text)
                text = re.sub(r'\}\s*$', ', #[cfg(any())] Ghost }\n', text)
            elif o.kind == 'named':
                text = re.sub(r'(pub struct \w+(<\'a>)? )\{', r'\1{ #[cfg(any())] #[nom(Count = "3")] ghost: NoSuchType, ', text)
            else:
                text = re.sub(r'(pub struct \w+(<\'a>)? *)\(', r'\1( #[cfg(any())] NoSuchType, ', text, count=1)
        if 'on' in self.what:
            text = '#[cfg(all())]\n#[cfg(not(any()))]\n' + text
        return text


class Deriv(Base):
    """what: how the macro is named, and what else is derived"""
    def __init__(self, prog, how):
        self.how = how

    def derive(self, d):
        return {
            'path': '#[derive(nom_derive::%s, Debug)]', 'gpath': '#[derive(Debug, ::nom_derive::%s,)]', 'ren': '#[derive(Debug, Ren%s)]', 'last': '#[derive(Debug, %s)]', 'two': '#[derive(Debug)]\n#[derive(%s)]', 'two2': '#[derive(%s)]\n#[derive(Debug)]',
            'many': '#[derive(Clone, %s, Debug, PartialEq)]', 'many2': '#[derive(PartialEq, Clone)]\n/// doc\n#[derive(%s)]\n#[allow(dead_code)]\n#[derive(Debug)]', 'selfp': '#[derive(self::ren::%s, Debug)]', 'doc': '/// a\n#[derive(%s)]\n#[doc(hidden)]\n#[must_use]\n#[derive(Debug)]\n#[allow(non_camel_case_types)]\n#[non_exhaustive]',
            'trail': '#[derive(%s, Debug,)]', 'mod': '#[derive(ren::inner::%s, Debug)]', 'macref': '#[derive(mm::%s, Debug)]',
        }[self.how] % d

    def prog(self, p, text):
        n = ('Nom', 'NomBE', 'NomLE')
        add = {'ren': 'use nom_derive::{%s};\n' % ', '.join('%s as Ren%s' % (x, x) for x in n), 'selfp': 'mod ren { pub use nom_derive::{Nom, NomBE, NomLE}; }\n', 'mod': 'mod ren { pub mod inner { pub use nom_derive::*; } }\n', 'macref': 'extern crate nom_derive as mm;\n'}.get(self.how, '')
        return text.replace('use super::*;\n', 'use super::*;\n' + add, 1)


# ---------------------------------------------------------------- where
def split_mod(text):
    m = re.fullmatch(r'pub mod (\w+) \{\nuse super::\*;\n(.*)\}\n', text, re.S)
    return m.group(1), m.group(2)


class Where(Base):
    """declared in the body of a function, ..."""
    def __init__(self, prog, how):
        self.how, self.extra = how, prog.extra

    def prog(self, p, text):
        name, body = split_mod(text)
        extra = ''
        if p.extra:
            assert body.startswith(p.extra)
            extra, body = p.extra + '\n', body[len(p.extra):]
        w = {
            'fn': 'pub fn run(e: u8, i: &[u8]) -> engine::Out {\n%s\nrun(e, i) }',
            'fn2': 'pub fn run(e: u8, i: &[u8]) -> engine::Out { fn inner(e: u8, i: &[u8]) -> engine::Out {\n%s\nrun(e, i) } inner(e, i) }',
            'clos': 'pub fn run(e: u8, i: &[u8]) -> engine::Out { let f = |e: u8, i: &[u8]| {\n%s\nrun(e, i) }; f(e, i) }',
            'meth': "pub struct Holder; impl Holder { fn go<'x, X: AsRef<[u8]>>(&self, e: u8, i: &'x X) -> engine::Out {\n%s\nrun(e, i.as_ref()) } }\npub fn run(e: u8, i: &[u8]) -> engine::Out { Holder.go(e, &i) }",
            'tr': "pub trait Go { fn go(e: u8, i: &[u8]) -> engine::Out; } impl<T> Go for Option<T> { fn go(e: u8, i: &[u8]) -> engine::Out {\n%s\nrun(e, i) } }\npub fn run(e: u8, i: &[u8]) -> engine::Out { <Option<u8> as Go>::go(e, i) }",
            'match': 'pub fn run(e: u8, i: &[u8]) -> engine::Out { match e { 0 => {}, _ => {} } if true {\n%s\nrun(e, i) } else { unreachable!() } }',
            'let': 'pub fn run(e: u8, i: &[u8]) -> engine::Out { let (r, orig_i, input) = (1, 2, 3); let x = {\n%s\nrun(e, i) }; x }',
            'mod': 'mod deep { use super::*; pub mod er { use super::*;\n%s } }\npub use deep::er::run;',
            'modfn': 'pub fn run(e: u8, i: &[u8]) -> engine::Out { mod inner { use super::*;\n%s } inner::run(e, i) }',
            'kon': 'pub trait Runs { const RUN: fn(u8, &[u8]) -> engine::Out; }\npub struct Holder;\nconst _: () = {\n%s\nimpl Runs for Holder { const RUN: fn(u8, &[u8]) -> engine::Out = run; } };\npub fn run(e: u8, i: &[u8]) -> engine::Out { Holder::RUN(e, i) }',
        }[self.how]
        return 'pub mod %s {\nuse super::*;\n%s%s\n}\n' % (name, extra, w % body)


class Split(Base):
    """each type in a module of its own"""
    def __init__(self, prog, how):
        self.how = how

    def vis(self):
        return {'pub': 'pub ', 'super': 'pub(super) ', 'deep': 'pub(in super::super) '}[self.how]

    def obj(self, o, text):
        m = 'of_%s' % o.name.lower()
        if self.how == 'deep':
            return 'mod %s { use super::*; pub(super) mod deeper { use super::*;\n%s } pub(super) use deeper::%s; }\nuse %s::%s;\n' % (m, text, o.name, m, o.name)
        return 'pub mod %s { use super::*;\n%s }\npub use %s::%s;\n' % (m, text, m, o.name)


class Vis(Base):
    def __init__(self, prog, how):
        self.how, self.n = how, 0

    def vis(self):
        l = ['', 'pub ', 'pub(crate) ', 'pub(super) ', 'pub(self) ', 'pub(in super) ', 'pub(in crate) ']
        self.n += 1
        return l[self.n % len(l)] if self.how == 'rot' else self.how + ' '

    def obj(self, o, text):
        l = ['', 'pub(crate)', 'pub(super)', 'pub(self)', 'pub(in super)']
        v = l[self.n % len(l)] if self.how == 'rot' else self.how
        return re.sub(r'pub (struct|enum) ', lambda k: '%s %s ' % (v, k.group(1)), text)


class Names(Base):
    """names of the types and of the fields, variants"""
    def __init__(self, prog, m, objs=True):
        self.m, self.progname = m, prog.name

    def prog(self, p, text):
        return re.sub(r'(?<![\w:.\'])(%s)\b(?!\s*::\s*<)' % '|'.join(self.m), lambda k: self.m[k.group(1)], text)


class Types(Base):
    """other writings of the same types"""
    def __init__(self, prog, how):
        self.how = how

    def fty(self, f):
        t = rt(f.ty)
        h = self.how
        special = {a.name for a in f.attrs}
        if h == 'alias':
            return re.sub(r'\b[ui](8|16|32|64|128)\b', lambda k: 'a_' + k.group(0), t)
        if h == 'len':
            return re.sub(r'; (\d+)\]', r'; { const K: usize = \1; K }]', t)
        if h == 'lenc':
            return re.sub(r'; (\d+)\]', r'; consts::N\1]', t)
        if h == 'lenx':
            return re.sub(r'; (\d+)\]', r'; 1 + \1 - 0x1]', t)
        if h == 'inner':
            # (types of elements: any path)
            return re.sub(r'(?<=[<\[ ])([ui](?:8|16|32|64|128))\b', r'core::primitive::\1', t)
        if h == 'proj':
            return re.sub(r'(?<=[<\[ ])([ui](?:8|16|32|64|128))\b', r'<\1 as Same>::Same', t)
        if h == 'paren':
            return re.sub(r'(?<=[<\[ ])([ui](?:8|16|32|64|128))\b', r'(\1)', t)
        if h == 'parens':
            return '(%s)' % t
        if h == 'mac':
            return re.sub(r'(?<=[<\[ ])([ui](?:8|16|32|64|128))\b', r'same!(\1)', t)
        if h == 'space':
            return re.sub(r'([<>\[\];,&])', r' \1 /* , > */ ', t)
        return t

    def disc(self, t):
        return {'len': '{ %s }', 'lenc': '%s + consts::ZERO', 'lenx': '0x10 + %s - 16', 'mac': 'same!(%s)', 'paren': '(%s)'}.get(self.how, '%s') % t

    def prog(self, p, text):
        add = ''
        if self.how == 'alias':
            add = ''.join('type a_%s = %s;\n' % (t, t) for t in INTS)
        elif self.how == 'lenc':
            add = 'mod consts { pub const N2: usize = 2; pub const N3: usize = 3; pub const N4: usize = 4; pub const N1: usize = 1; pub const ZERO: isize = 0; }\n'.replace('isize', next((o.repr for o in p.objs if isinstance(o, Fieldless)), 'u8'))
        elif self.how == 'proj':
            add = 'trait Same { type Same; }\nimpl<T> Same for T { type Same = T; }\n'
        elif self.how == 'mac':
            add = 'macro_rules! same { ($($t:tt)*) => { $($t)* } }\n'
        return text.replace('use super::*;\n', 'use super::*;\n' + add, 1)


class Toks(Base):
    """white space, comments, separators"""
    def __init__(self, prog, how):
        self.how = how

    def obj(self, o, text):
        # (nothing of this inside of literals)
        parts = re.split(r'(r##".*?"##|r#"[^"]*"#|b?"(?:[^"\\]|\\.)*"|\'\\?.\'|/\*.*?\*/|//[^\n]*\n)', text, flags=re.S)
        f = {
            'comm': lambda s: re.sub(r'([,;(){}\[\]])', r' \1 /* } ) ] "' + r"' */ ", s),
            'lines': lambda s: re.sub(r'([,;(){}\[\]])', r'\n\1 // } ) ] "' + r"'\n", s),
            'tight': lambda s: re.sub(r' *([,;:(){}\[\]=]) *', r'\1', s),
            'wide': lambda s: re.sub(r'(?<![:=!<>&|+\-*/.])([,;:(){}\[\]#=])(?![:=>])', '\n\t \\1 \r\n', s),
        }[self.how]
        return ''.join(f(x) if k % 2 == 0 else x for k, x in enumerate(parts))


HOOKS = []


def hook(name, cls, *args, need=None, skip=()):
    HOOKS.append((name, cls, args, need, skip))


def plain(fs, objs):
    """no attributes which look into types"""
    fs = fs + [f for o in objs for f in getattr(o, 'fields', [])]
    return not any(a.name in ('Cond', 'If', 'Count', 'LengthCount') for f in fs for a in f.attrs) and '[' not in ''.join(rt(f.ty).replace("&'a [u8]", '') for f in fs)


def no_ld(fs, objs):
    return not any(has_ld(f.ty) for f in fs)


def has_ty(s):
    return lambda fs, objs: any(s in rt(f.ty) for f in fs) or any(s in rt(f.ty) for o in objs for f in getattr(o, 'fields', []))


ALLF = ('name', 'ty', 'expr', 'pat', 'disc', 'obj', 'var', 'repr', 'lt', 'vis', 'derive')
hook('mty', Mac, ('ty',))
hook('mty3', Mac, ('ty', 'obj', 'disc'), 3)
hook('mname', Mac, ('name', 'obj', 'var', 'repr'))
hook('mexpr', Mac, ('name', 'expr', 'pat', 'disc'))
hook('mexpr3', Mac, ('name', 'expr', 'pat', 'disc'), 3)
hook('mblock', Mac, ('name', 'block'))
hook('mlit', Mac, ('name', 'lit'))
hook('mtt', Mac, ('name', 'tt'), 2)
hook('mpath', Mac, ('path', 'lt', 'pat'))
hook('mmeta', Mac, ('name', 'meta'))
hook('mmeta2', Mac, ('name', 'meta', 'vis', 'obj', 'ty'), 2)
hook('mall', Mac, ALLF)
hook('mall2', Mac, ALLF, 2)
hook('mitem', Mac, ('item',))
hook('mtts', Mac, ('tts',))
hook('mrec', Mac, ('record',))
hook('mnone', Mac, ())
hook('cattr', Cfg, ('attr',))
hook('cattr2', Cfg, ('attr2',))
hook('ceach', Cfg, ('each', 'doc'))
hook('con', Cfg, ('on',))
hook('cghost', Cfg, ('ghost',))
hook('cdoc', Cfg, ('doc',))
for _h in ('path', 'gpath', 'ren', 'last', 'two', 'two2', 'many', 'many2', 'selfp', 'doc', 'trail', 'mod', 'macref'):
    hook('d' + _h, Deriv, _h, need=no_ld if 'many' in _h else None)
for _h in ('fn', 'fn2', 'clos', 'meth', 'tr', 'match', 'let', 'mod', 'modfn', 'kon'):
    hook('w' + _h, Where, _h)
for _n, _h in (('rot', 'rot'), ('pub', 'pub'), ('crate', 'pub(crate)'), ('priv', '')):
    hook('v' + _n, Vis, _h)
for _h in ('super', 'pub', 'deep'):
    hook('s' + _h, Split, _h)
# names of types: those used by the generated code, those of its generic parameters, those of std and nom
for _n, _m in (('a', {'T': 'E', 'N': 'I', 'E': 'S', 'FL': 'X', 'O': 'Output'}), ('b', {'T': 'Error', 'N': 'Parse1', 'E': 'ParseError', 'FL': 'ErrorKind', 'O': 'Context'}), ('c', {'T': 'IResult', 'N': 'Input', 'E': 'Needed', 'FL': 'Incomplete', 'O': 'InputSlice'}),
               ('d', {'T': 'Result', 'N': 'Failure', 'E': 'Switch', 'FL': 'Take', 'O': 'Str'}), ('e', {'T': 'r#struct', 'N': 'r#type', 'E': 'r#fn', 'FL': 'r#enum', 'O': 'r#impl'}), ('f', {'T': 't', 'N': 'self_', 'E': '_e', 'FL': '__', 'O': 'nom_'}), ('g', {'T': '\u0416', 'N': '\u00e9', 'E': '\u65e5\u672c', 'FL': 'stra\u00dfe', 'O': '\u03a9'}),
               ('h', {'T': 'NomErr_', 'N': 'NomE', 'E': 'Err_', 'FL': 'NomI', 'O': 'T1'}), ('i', {'T': 'Count', 'N': 'Cond', 'E': 'Selector', 'FL': 'Map', 'O': 'Verify'}), ('j', {'T': 'i', 'N': 'orig_i', 'E': 'selector', 'FL': 'struct_def', 'O': 'fa'})):
    hook('n' + _n, Names, _m)
for _h in ('alias', 'inner', 'proj', 'paren', 'mac', 'space', 'parens'):
    hook('t' + _h, Types, _h, need=plain if _h in ('inner', 'proj', 'mac') else None)
for _h in ('len', 'lenc', 'lenx'):
    hook('t' + _h, Types, _h, need=lambda fs, objs: has_ty('; ')(fs, objs) or any(isinstance(o, Fieldless) for o in objs))
for _h in ('comm', 'lines', 'tight', 'wide'):
    hook('k' + _h, Toks, _h)


def items24():
    o = stream_items() + opt_kids()
    o.append(('arr3', [F('fa', ('arr', ('tup', 'u8', 'u16'), 2)), F('fb', ('arr', 'u8', 3))], [fill(9)], [], {}))
    o.append(('flm', [F('fa', ('obj', 'FL')), F('fb', 'u8')], [fill(1), fill(1)], [Fieldless('FL', 'i8', [('A', '3', 3), ('B', '1 + 4', 5), ('C', None, 6), ('D', '-128', -128), ('E1', '!0', -1)])], {}))
    o.append(('enp', [F('fa', 'u8'), F('fb', ('obj', 'E'), PARSE(p_obj('E', 'be', 'fa')))], [fill(1), fill(3)],
              [Enum('E', [Var('A', ('1 | 2', '(or 1 2)'), [F('x', 'u8'), F('y', 'u8', COND('x == 1') if False else ERRIF('x == 1'))]), Var('B', ('3 ..= 9', '(range 3 9)'), [F('x', 'u8')], kind='tuple'), Var('C', ('v if v & 1 == 1', '(guard (bind v _) (== (& v 1) 1))'), [F('x', 'u16')], patstyle='s'), Var('D', '_', None)])], {}))
    o.append(('vals', [F('fa', 'u8'), F('fb', ('opt', 'u8'), IGNORE), F('fc', ('opt', 'u8'), COND('fa > 1'), IGNORE), F('fd', ('vec', 'u8'), COUNT('fa'), VALUE('fa', 'u8')), F('fe', ('vec', 'u8'), IGNORE), F('ff', 'u8')], [rng(0, 3), fill(1)], [], {}))
    return o


def C24(tier):
    out = []
    T = tier == THOROUGH
    never = ('err', 'failp')
    kinds = ['named', 'evar', 'tuple', 'etup', 'nested', 'generr', 'input', 'args', 'complete', 'third']
    n = 0
    for hi, (hn, cls, args, need, skip) in enumerate(HOOKS):
        for ii, (lab, fs, inp, objs, kw) in enumerate(items24()):
            if need and not need(fs, objs) or lab in skip:
                continue
            named_only = any(a.name in ('Verify', 'Debug') for f in fs for a in f.attrs)
            ext = _needs_ext(fs, objs) or any(a.name in ('Parse', 'LengthCount') for f in fs for a in f.attrs)
            for ki, kind in enumerate(kinds):
                if not T and ki != (hi + 3 * ii) % 10:
                    continue
                if named_only:
                    kind = {'tuple': 'named', 'etup': 'evar'}.get(kind, kind)
                if kind == 'generr' and (ext or objs):
                    kind = 'named'
                if hn == 'nj':
                    # (tuple structs named like variables cannot be)
                    kind = {'args': 'named', 'tuple': 'named', 'etup': 'evar'}.get(kind, kind)
                nm = '%s_%s_%s' % (hn, lab, kind)
                if any(p.name == nm for p in out[-12:]):
                    continue
                p = wrap(nm, [F('p', 'u8')] + fs, [fill(1)] + inp, kind, objs=objs, reach=[], tail=1)
                p.__class__ = HProg
                p.hook = (lambda p, cls, args: lambda: cls(p, *args))(p, cls, args)
                out.append(p)
    out += partial(T)
    return _last(out)


def editions(tier, ed):
    """the plain declarations and those made by macros, in crates of another edition"""
    out = []
    kinds = ['named', 'evar', 'tuple', 'etup', 'nested', 'generr', 'args', 'complete']
    hooks = [None] + [h for h in HOOKS if h[0] in ('mexpr', 'mty', 'mall2', 'mlit', 'wfn', 'cattr', 'ne', 'tparens', 'kcomm')]
    for hi, h in enumerate(hooks):
        for ii, (lab, fs, inp, objs, kw) in enumerate(items24()):
            if h and (h[3] and not h[3](fs, objs) or lab in h[4]):
                continue
            # (patterns given to macros have no alternatives there)
            if ed == '2018' and h and h[0] in ('mexpr', 'mall2') and lab == 'enp':
                continue
            named_only = any(a.name in ('Verify', 'Debug') for f in fs for a in f.attrs)
            ext = _needs_ext(fs, objs) or any(a.name in ('Parse', 'LengthCount') for f in fs for a in f.attrs)
            for ki, kind in enumerate(kinds):
                if (ki - ii) % 8 > (7 if tier == THOROUGH else 2 if h is None else 0):
                    continue
                if named_only:
                    kind = {'tuple': 'named', 'etup': 'evar'}.get(kind, kind)
                if kind == 'generr' and (ext or objs):
                    kind = 'named'
                p = wrap('e%s_%s_%s_%s' % (ed, h[0] if h else 'plain', lab, kind), [F('p', 'u8')] + fs, [fill(1)] + inp, kind, objs=objs, reach=[], tail=1)
                if h:
                    p.__class__ = HProg
                    p.hook = (lambda p, cls, args: lambda: cls(p, *args))(p, h[1], h[2])
                out.append(p)
    return _last(out)


def _last(out):
    seen = {}
    for p in out:
        seen[p.name] = p
    return list(seen.values())


# ---------------------------------------------------------------- parts of expressions given to macros
class Part(Mac):
    """the parts of arguments between marks are given to the macro"""
    def sub(self, t):
        return re.sub('\u27e6(\\w+)\\|(.*?)\u27e7', lambda m: self.par(m.group(1), m.group(2)), t)

    def arg(self, a):
        if a.arg is None:
            return a.name
        return '%s(%s)' % (a.name, self.sub(a.arg))

    def pat(self, v):
        return 'Selector(%s)' % self.sub(v.pat[0])

    def disc(self, t):
        return self.sub(t)

    def fty(self, f):
        return self.sub(rt(f.ty))


def G(frag, e):
    """part given to the macro"""
    return E('\u27e6%s|%s\u27e7' % (frag, e.rs), e.sx)


# parts: expressions whose operators bind less than what is around them
NUMIN = [('add', E('engine::kn(0) + 1', '(+ (k 0) 1)')), ('sub', E('engine::kn(0) - 1', '(- (k 0) 1)')), ('shl', E('1 << engine::kn(0)', '(<< 1 (k 0))')), ('or', E('engine::kn(0) | 1', '(| (k 0) 1)')), ('xor', E('engine::kn(0) ^ 1', '(^ (k 0) 1)')), ('if', E('if engine::kn(0) > 1 { 1 } else { 2 }', '(if (> (k 0) 1) 1 2)')),
         ('ev', E('engine::ev(3, engine::kn(0)) + 0', '(ev 3 (k 0))')), ('cast', E('engine::kn(0) as i128', '(k 0)')), ('neg', E('-1 + engine::kn(0)', '(- (k 0) 1)')), ('blk', E('{ let x = engine::kn(0); x } + 1', '(+ (k 0) 1)')), ('lit', E('2', '2'))]
NUMOUT = [('mul', '2 * @', '(* 2 @)'), ('mul2', '@ * 2', '(* @ 2)'), ('sub', '5 - @', '(- 5 @)'), ('sub2', '7 - @ - @', '(- (- 7 @) @)'), ('cast', '@ as u8 as i128', '(& @ 255)'), ('rem', '@ % 3 + 1', '(+ (% @ 3) 1)'), ('neg', '3 + -@', '(- 3 @)'), ('meth', '@.pow(2)', '(* @ @)'), ('and', '@ & 3', '(& @ 3)'), ('only', '@', '@'), ('par', '(@)', '@'), ('call', 'core::cmp::max(@, 1)', '(if (> @ 1) @ 1)'), ('if', 'if @ > 2 { 2 } else { @ }', '(if (> @ 2) 2 @)'), ('shl', '1 << (@ & 1)', '(<< 1 (& @ 1))'), ('idx', '[4, 3, 2, 1][(@ & 3) as usize]', '(- 4 (& @ 3))')]
BOOLIN = [('or', E('engine::kn(0) == 1 || engine::kn(0) == 2', '(or (== (k 0) 1) (== (k 0) 2))')), ('eq', E('engine::kn(0) == 1', '(== (k 0) 1)')), ('true', E('true || false', '1')), ('if', E('if engine::kn(0) > 1 { false } else { true }', '(if (> (k 0) 1) 0 1)')), ('not', E('!(engine::kn(0) > 1)', '(not (> (k 0) 1))')), ('bitor', E('engine::kn(0) > 2 | false', '(> (k 0) 2)')) if False else ('and', E('engine::kn(0) > 0 && engine::kn(0) < 3', '(and (> (k 0) 0) (< (k 0) 3))'))]
BOOLOUT = [('andf', '@ && false', '(and @ 0)'), ('fand', 'engine::kn(0) != 2 && @', '(and (!= (k 0) 2) @)'), ('not', '!@', '(not @)'), ('eq', '@ == false', '(not @)'), ('eq2', 'true == @', '@'), ('only', '@', '@'), ('or', '@ || engine::kn(0) == 3', '(or @ (== (k 0) 3))'), ('xor', '@ ^ true', '(not @)'), ('two', '@ && !@', '0'), ('par', '(@) && engine::kn(0) < 2', '(and @ (< (k 0) 2))'), ('cast', '@ as u8 == 1', '@')]


def _join(outer, e, frag='expr'):
    return E(outer[1].replace('@', G(frag, e).rs), outer[2].replace('@', e.sx))


def partial(T):
    out = []

    def put(_, prog):
        prog.__class__ = HProg
        prog.hook = lambda: Part(prog, ())
        out.append(prog)
    K = [(0, 1, 2, 3)]
    kinds = ['named', 'etup', 'tuple', 'evar', 'nested', 'complete']
    n = 0
    for (il, e), o in itertools.product(NUMIN, NUMOUT):
        n += 1
        x = _join(o, e)
        if il == 'if' and o[0] in ('cast', 'meth') or il == 'ev' and o[0] not in ('mul', 'mul2', 'sub', 'neg', 'only', 'par', 'and', 'rem', 'cast') or o[0] == 'cast' and il in ('neg', 'sub', 'lit') or o[0] == 'meth' and il in ('lit', 'shl'):
            continue
        neg = '(and (>= %s 0) (< %s 12))' % (x.sx, x.sx)
        xx = E('{ let x: i128 = %s; if x < 0 || x > 11 { 0 } else { x } }' % x.rs, '(if %s %s 0)' % (neg, x.sx))
        if il == 'ev':
            xx = E('{ let x: i128 = %s; x & 7 }' % x.rs, '(& %s 7)' % x.sx)
        direct = il not in ('sub', 'neg') and o[0] in ('mul', 'mul2', 'rem', 'and', 'only', 'par', 'call', 'idx', 'shl') and not (il == 'shl' and o[0] == 'cast')
        y = x if direct else xx
        for ai, (al, fs) in enumerate([
                ('count', [F('a', 'u8'), F('b', ('vec', 'u8'), A('Count', y.rs, '(count %s)' % y.sx))]), ('take', [F('a', 'u8'), F('b', 'slice', A('Take', y.rs, '(take %s)' % y.sx))]), ('skipb', [F('a', 'u8'), F('b', 'u8', A('SkipBefore', y.rs, '(skipb %s)' % y.sx))]), ('skipa', [F('a', 'u8', A('SkipAfter', y.rs, '(skipa %s)' % y.sx)), F('b', 'u8')]),
                ('alignb', [F('a', 'u8'), F('b', 'u8', A('AlignBefore', y.rs, '(alignb %s)' % y.sx))]), ('aligna', [F('a', 'u8', A('AlignAfter', y.rs, '(aligna %s)' % y.sx)), F('b', 'u8')]), ('move', [F('a', 'u32'), F('b', 'u8', A('Move', x.rs, '(move %s)' % x.sx))]), ('moveabs', [F('a', 'u8'), F('b', 'u8', A('MoveAbs', x.rs, '(moveabs %s)' % x.sx))]),
                ('value', [F('a', 'u8'), F('b', ('raw', 'i128', 'i128'), A('Value', x.rs, '(value %s)' % x.sx))]), ('parse', [F('a', 'u8'), F('b', 'slice', A('Parse', 'nom::bytes::streaming::take({ %s } as usize)' % y.rs, '(parse (take %s))' % y.sx))]), ('map', [F('a', 'u8'), F('b', ('raw', 'i128', 'i128'), A('Map', '|v: u8| v as i128 - %s' % x.rs.replace('if @', '(if @') if o[0] != 'if' else '|v: u8| v as i128 - (%s)' % x.rs, '(map v (- v %s))' % x.sx if o[0] in ('mul', 'mul2', 'par', 'only', 'call', 'meth', 'idx') else '', ), PARSE(p_int('u8', 'be')))]),
                ('pre', [F('a', 'u8'), F('b', 'u8', A('PreExec', 'let zz = %s;' % y.rs, '(pre (let zz %s))' % y.sx)), F('c', ('vec', 'u8'), COUNT('zz'))]), ('cc', [F('a', ('vec', ('vec', 'u8')), A('Count', y.rs, '(count %s)' % y.sx), A('Count', '3 - (%s) %% 3' % y.rs, '(count (- 3 (%% %s 3)))' % y.sx))])]):
            if al in ('value', 'map') and not any('kn' in p for p in (x.rs,)):
                continue
            if al == 'parse' and il == 'if' and o[0] in ('rem', 'and', 'mul2'):
                continue
            if al == 'map' and (o[0] not in ('mul', 'mul2', 'par', 'only', 'call', 'meth', 'idx') or il in ('ev',)):
                continue
            if il == 'ev' and al in ('cc', 'map'):
                continue
            for ki, kind in enumerate(kinds):
                if (ki != (n + ai) % 6 if T else ki != (n + ai) % 6 or (n + ai) % 2):
                    continue
                if al == 'pre' and kind in ('tuple', 'etup'):
                    kind = 'named'
                put('', wrap('pn_%s_%s_%s_%s' % (il, o[0], al, kind), [F('p', 'u16')] + fs + [F('z', 'u8')], [fill(16)], kind, knobs=K, tail=0, reach=[]))
    for (il, e), o in itertools.product(BOOLIN, BOOLOUT):
        if (il, o[0]) == ('eq', 'eq'):
            continue                      # (rejected by rustc, in all macros)
        x = _join(o, e)
        for al, fs, nm in [
                ('cond', [F('b', ('opt', 'u16'), A('Cond', x.rs, '(cond %s)' % x.sx))], 0), ('condn', [F('b', ('vec', ('opt', 'u8')), COUNT(2), A('Cond', x.rs, '(cond %s)' % x.sx))], 0), ('errif', [F('b', 'u16', A('ErrorIf', x.rs, '(errif %s)' % x.sx))], 0), ('verify', [F('b', 'u16', A('Verify', x.rs, '(verify %s)' % x.sx))], 1), ('value', [F('b', ('raw', 'bool', 'u8'), A('Value', x.rs, '(value %s)' % x.sx))], 0),
                ('setend', [F('b', 'u16', A('SetEndian', 'if %s { nom::number::Endianness::Big } else { nom::number::Endianness::Little }' % x.rs, '(setendian %s)' % x.sx))], 0)]:
            n += 1
            if nm and il == 'if' and o[0] in ('andf', 'eq', 'or', 'xor', 'cast', 'two'):
                continue                  # (statements: the body of a closure)
            for ki, kind in enumerate(kinds):
                if (ki - n - n // 6) % 6 not in ((0,) if not T else (0, 1, 3)):
                    continue
                if nm:
                    kind = {'tuple': 'named', 'etup': 'evar'}.get(kind, kind)
                put('', wrap('pb_%s_%s_%s_%s' % (il, o[0], al, kind), [F('p', 'u8')] + fs + [F('z', 'u8')], [fill(5)], kind, knobs=K, tail=0, reach=[]))
        # guards
        for pl, prs, psx in (('v', 'v', '(bind v _)'), ('alt', '0 | 1 | 2', '(or (or 0 1) 2)'), ('any', '_', '_'), ('rng', '1 ..= 3', '(range 1 3)'), ('par', '(1 | 2)', '(or 1 2)')):
            for gp in (0, 1):
                # (the pattern can be given, too)
                p = G('pat', E(prs, psx)).rs if gp else prs
                vs = [Var('A', ('%s if %s' % (p, x.rs), '(guard %s %s)' % (psx, x.sx)), [F('x', 'u8')]), Var('B', ('1', '1'), [F('x', 'u8'), F('y', 'u8')]), Var('C', (p if pl != 'v' else '3', psx if pl != 'v' else '3'), None), Var('D', '_', [F('x', 'u16')], kind='tuple')]
                if pl == 'any':
                    vs.pop(2)
                put('', Prog('pg_%s_%s_%s_%d' % (il, o[0], pl, gp), [Enum('T', vs)], args=[E('engine::kn(0) as u8', '(k 0)')], knobs=K, inp=[fill(3)], reach=[]))
    # discriminants
    for k, (l, t, v) in enumerate([('mul', '2 * \u27e6expr|1 + 2\u27e7', 6), ('sub', '9 - \u27e6expr|3 - 1\u27e7', 7), ('neg', '-\u27e6expr|3 - 1\u27e7', -2), ('not', '!\u27e6expr|1 | 2\u27e7', -4), ('cast', '\u27e6expr|1u8 + 2\u27e7 as i8', 3), ('shl', '1 << \u27e6expr|1 + 1\u27e7', 4), ('only', '\u27e6expr|5\u27e7', 5), ('lit', '\u27e6literal|6\u27e7', 6), ('nlit', '\u27e6literal|-6\u27e7', -6), ('blk', '\u27e6block|{ 7 }\u27e7', 7), ('two', '\u27e6expr|1 | 8\u27e7 & \u27e6expr|8 | 4\u27e7', 8)]):
        for d in ('Nom', 'NomBE', 'NomLE'):
            put('', Prog('pd_%s_%s' % (l, d), [Fieldless('T', 'i8', [('A', None, 0), ('B', t, v), ('C', None, v + 1), ('D', '100', 100)], derive=d)], inp=[rng(0, 255), fill(1)]))
    # types
    for l, t, sx, n in (('el', ('vec', ('raw', '\u27e6ty|u16\u27e7', 'u16')), None, 6), ('gen', ('raw', 'Vec<\u27e6ty|u16\u27e7>', '(vec u16)'), None, 6), ('opt', ('raw', 'Option<\u27e6ty|[u8; 2]\u27e7>', '(opt (arr u8 2))'), None, 3), ('arr', ('raw', '[\u27e6ty|u16\u27e7; \u27e6expr|1 + 1\u27e7]', '(arr u16 2)'), None, 4), ('arrl', ('raw', '[u16; \u27e6literal|2\u27e7]', '(arr u16 2)'), None, 4), ('path', ('raw', '\u27e6path|Vec<u16>\u27e7', '(vec u16)'), None, 6), ('id', ('raw', '\u27e6ident|u32\u27e7', 'u32'), None, 4), ('tup', ('raw', 'Tup<\u27e6ty|u8\u27e7, \u27e6ty|Option<u16>\u27e7>', '(tup u8 (opt u16))'), None, 4),
                        ('nest', ('raw', 'Option<\u27e6ty|Tup<u8, Vec<u8>>\u27e7>', '(opt (tup u8 (vec u8)))'), None, 3)):
        for kind in kinds:
            put('', wrap('pt_%s_%s' % (l, kind), [F('p', 'u8'), F('a', t)], [fill(n + 1)], kind, reach=[], tail=1))
            if l in ('el', 'gen', 'path'):
                for c, at in (('cnt', COUNT(2)), ('lc', LCOUNT(cnt8())), ('val', None)):
                    if at is None:
                        continue
                    put('', wrap('ptc_%s_%s_%s' % (l, c, kind), [F('p', 'u8'), F('a', t, at)], [fill(1)] + ([rng(0, 2)] if c == 'lc' else []) + [fill(n)], kind, reach=[], tail=1))
            if l in ('opt', 'nest'):
                put('', wrap('ptc_%s_%s' % (l, kind), [F('p', 'u8'), F('a', t, COND('k0 > 1'))], [fill(n + 2)], kind, reach=[], tail=1, knobs=[(1, 2)]))
    return out
