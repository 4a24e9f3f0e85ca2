"""Small DSL: programs are built once and rendered twice, as Rust declarations using nom-derive (the
system under test) and as descriptors for the reference model (engine/src/model.rs)."""
import ast, re

INTS = ['u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128']


def width(t):
    return int(t[1:]) // 8


# ---------------------------------------------------------------- expressions
class E:
    """expression: Rust text and model text"""
    def __init__(self, rs, sx):
        self.rs, self.sx = rs, sx

    def ren(self, m):
        return E(_ren(self.rs, m), _ren(self.sx, m))


def _ren(s, m):
    for a, b in m.items():
        s = re.sub(r'(?<!\\)\b%s\b(?!"|\\")' % re.escape(a), b, s)
    return s


_OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '/', ast.Div: '/', ast.Mod: '%',
        ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
_CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}


def X(s, refs=()):
    """python-like integer expression.  k0, k1...: knobs; ilen, origlen: length of the current input /
    of the object's input; len(x); ev(n, x); names in `refs` are references in Rust"""
    if isinstance(s, E):
        return s
    if isinstance(s, int):
        return E(str(s), str(s))
    t = ast.parse(s.strip(), mode='eval').body
    if isinstance(t, ast.Name):
        rs, sx = _conv(t, refs)
        if not re.fullmatch(r'k\d+', t.id) and t.id not in ('ilen', 'origlen', 'ipeek', 'True', 'False'):
            rs = ('*' if t.id in refs else '') + t.id
        return E(rs, sx)
    return E(*_conv(t, refs))


def _conv(t, refs):
    if isinstance(t, ast.Constant) and isinstance(t.value, bool):
        return ('true', '1') if t.value else ('false', '0')
    if isinstance(t, ast.Constant):
        return str(t.value), str(t.value)
    if isinstance(t, ast.Name):
        n = t.id
        if re.fullmatch(r'k\d+', n):
            return 'engine::kn(%s)' % n[1:], '(k %s)' % n[1:]
        if n == 'ilen':
            return '(__I__.len() as i128)', 'ilen'
        if n == 'origlen':
            return '(__O__.len() as i128)', 'origlen'
        if n == 'ipeek':
            return '(__I__.first().map(|x| *x as i128).unwrap_or(-1))', 'ipeek'
        return '(%s%s as i128)' % ('*' if n in refs else '', n), n
    if isinstance(t, ast.BinOp):
        a, b = _conv(t.left, refs), _conv(t.right, refs)
        o = _OPS[type(t.op)]
        return '(%s %s %s)' % (a[0], o, b[0]), '(%s %s %s)' % (o, a[1], b[1])
    if isinstance(t, ast.Compare):
        assert len(t.ops) == 1
        a, b = _conv(t.left, refs), _conv(t.comparators[0], refs)
        o = _CMP[type(t.ops[0])]
        return '%s %s %s' % (a[0], o, b[0]), '(%s %s %s)' % (o, a[1], b[1])
    if isinstance(t, ast.BoolOp):
        o, w = ('&&', 'and') if isinstance(t.op, ast.And) else ('||', 'or')
        v = [_conv(x, refs) for x in t.values]
        rs, sx = v[0]
        for x in v[1:]:
            rs, sx = '(%s) %s (%s)' % (rs, o, x[0]), '(%s %s %s)' % (w, sx, x[1])
        return rs, sx
    if isinstance(t, ast.UnaryOp):
        a = _conv(t.operand, refs)
        if isinstance(t.op, ast.Not):
            return '!(%s)' % a[0], '(not %s)' % a[1]
        if isinstance(t.op, ast.USub):
            if isinstance(t.operand, ast.Constant):
                return '-%s' % a[0], '-%s' % a[1]
            return '(-%s)' % a[0], '(neg %s)' % a[1]
    if isinstance(t, ast.IfExp):
        c, a, b = (_conv(x, refs) for x in (t.test, t.body, t.orelse))
        return 'if %s { %s } else { %s }' % (c[0], a[0], b[0]), '(if %s %s %s)' % (c[1], a[1], b[1])
    if isinstance(t, ast.Call):
        f = t.func.id
        if f == 'len':
            n = t.args[0].id
            return '(%s.len() as i128)' % n, '(len %s)' % n
        if f == 'ev':
            n = t.args[0].value
            a = _conv(t.args[1], refs)
            return 'engine::ev(%d, %s)' % (n, a[0]), '(ev %d %s)' % (n, a[1])
        if f == 'fld':
            n, k = t.args[0].id, t.args[1].value
            acc = '[%d]' % k if len(t.args) < 3 else '.' + t.args[2].id
            return '(%s%s as i128)' % (n, acc), '(fld %s %d)' % (n, k)
        if f == 'uo':
            n, d = t.args[0].id, t.args[1].value
            return '(%s.unwrap_or(%s) as i128)' % (n, d), '(unwrap_or %s %s)' % (n, d)
    raise ValueError(ast.dump(t))


# ---------------------------------------------------------------- types
def rt(t):
    """Rust type"""
    if isinstance(t, str):
        if t in INTS or t in ('f32', 'f64'):
            return t
        return {'str': 'String', 'which': 'Which', 'phantom': 'PhantomData<u8>', 'slice': "&'a [u8]"}[t]
    k = t[0]
    if k == 'opt':
        return 'Option<%s>' % rt(t[1])
    if k == 'vec':
        return 'Vec<%s>' % rt(t[1])
    if k == 'arr':
        return '[%s; %d]' % (rt(t[1]), t[2])
    if k == 'tup':
        return 'Tup<%s, %s>' % (rt(t[1]), rt(t[2]))
    if k == 'ld':
        if len(t) > 2:
            return "LengthData%s<'a>" % t[1].upper()
        return "LengthData<%s, &'a [u8]>" % rt(t[1])
    if k == 'only':
        return 'Only%s%s' % (t[2].upper(), width(t[1]) * 8)
    if k == 'obj':
        return t[2] if len(t) > 2 else t[1]
    if k == 'raw':
        return t[1]
    raise ValueError(t)


def sxt(t, pre=''):
    if isinstance(t, str):
        return {'slice': 'noparse'}.get(t, t)
    k = t[0]
    if k in ('opt', 'vec'):
        return '(%s %s)' % (k, sxt(t[1], pre))
    if k == 'arr':
        return '(arr %s %d)' % (sxt(t[1], pre), t[2])
    if k == 'tup':
        return '(tup %s %s)' % (sxt(t[1], pre), sxt(t[2], pre))
    if k == 'ld':
        return '(ldata %s)' % sxt(t[1], pre)
    if k == 'only':
        return '(only %d %s)' % (width(t[1]), t[2])
    if k == 'obj':
        return '(obj %s%s)' % (pre, t[1])
    if k == 'raw':
        return t[2].replace('@', pre)
    raise ValueError(t)


def has_ld(t):
    return not isinstance(t, str) and (t[0] == 'ld' or any(has_ld(x) for x in t[1:] if isinstance(x, tuple)))


def enc_rs(t, x):
    """statement encoding `x` (a reference to a value of type t); LengthData is a foreign type"""
    if not has_ld(t):
        return 'engine::Enc::enc(%s, __out);' % x
    if t[0] == 'ld':
        return 'engine::Enc::enc(&(%s).data, __out);' % x
    if t[0] == 'opt':
        return 'match %s { None => __out.push(0), Some(__x) => { __out.push(1); %s } }' % (x, enc_rs(t[1], '__x'))
    if t[0] == 'vec':
        return '__out.push((%s).len() as u128); for __x in (%s).iter() { %s }' % (x, x, enc_rs(t[1], '__x'))
    if t[0] == 'arr':
        return 'for __x in (%s).iter() { %s }' % (x, enc_rs(t[1], '__x'))
    if t[0] == 'tup':
        return '{ %s %s }' % (enc_rs(t[1], '&(%s).0' % x), enc_rs(t[2], '&(%s).1' % x))
    raise ValueError(t)


def has_lt(t):
    return "'a" in rt(t)


# ---------------------------------------------------------------- parsers
class P:
    def __init__(self, rs, sx):
        self.rs, self.sx = rs, sx

    def ren(self, m):
        return P(_ren(self.rs, m), _ren(self.sx, m))


def p_int(t, e):
    return P('nom::number::streaming::%s_%s' % (e, t), '(int %d %s%s)' % (width(t), e, ' s' if t[0] == 'i' else ''))


_EP = {'parse': 'parse', 'be': 'parse_be', 'le': 'parse_le'}


def p_ty(t, e='parse'):
    return P('<%s>::%s' % (rt(t).replace("'a", "'_"), _EP[e]), '(ty %s %s)' % (sxt(t, '@'), e))


def p_obj(name, e='parse', *args):
    """args: (rust text, model text) or E"""
    if not args:
        return P('%s::%s' % (name, _EP[e]), '(obj @%s %s)' % (name, e))
    args = [X(a) for a in args]
    return P('{ |__x| %s::%s(__x, %s) }' % (name, _EP[e], ', '.join(a.rs for a in args)),
             '(obj @%s %s %s)' % (name, e, ' '.join(a.sx for a in args)))


def p_take(e):
    e = X(e)
    return P('nom::bytes::streaming::take((%s) as usize)' % e.rs, '(take %s)' % e.sx)


def p_tag(b):
    return P('nom::bytes::streaming::tag(&%s[..])' % bytelit(b), '(tag %s)' % ' '.join(map(str, b)))


def p_complete(p):
    return P('nom::combinator::complete(%s)' % p.rs, '(complete %s)' % p.sx)


def p_opt(p):
    return P('nom::combinator::opt(%s)' % p.rs, '(opt %s)' % p.sx)


def p_many(p):
    return P('nom::multi::many0(%s)' % p.rs, '(many %s)' % p.sx)


def p_count(p, e):
    e = X(e)
    return P('nom::multi::count(%s, (%s) as usize)' % (p.rs, e.rs), '(count %s %s)' % (p.sx, e.sx))


def p_pair(p, q):
    return P('nom::sequence::pair(%s, %s)' % (p.rs, q.rs), '(pair %s %s)' % (p.sx, q.sx))


def p_ldata(p):
    return P('nom::multi::length_data(%s)' % p.rs, '(ldata %s)' % p.sx)


def p_ev(n, p):
    return P('{ |__x: &\'nom [u8]| { engine::ev(%d, __x.len()); (%s).parse(__x) } }' % (n, p.rs), '(ev %d %s)' % (n, p.sx))


P_FAIL = P('{ |__x| Err(nom::Err::Failure(nom::error::make_error(__x, nom::error::ErrorKind::Alpha))) }', 'fail')
P_ERR = P('{ |__x| Err(nom::Err::Error(nom::error::make_error(__x, nom::error::ErrorKind::Alpha))) }', 'err')
P_REST = P('nom::combinator::rest', 'rest')


def bytelit(b):
    return 'b"%s"' % ''.join('\\x%02x' % x for x in b)


# ---------------------------------------------------------------- attributes
class A:
    """attribute: Rust name, Rust argument (or None), model text"""
    def __init__(self, name, arg, sx, style='s'):
        self.name, self.arg, self.sx, self.style = name, arg, sx, style

    def st(self, style):
        return A(self.name, self.arg, self.sx, style)

    def alias(self, name):
        return A(name, self.arg, self.sx, self.style)

    def rs(self):
        if self.arg is None:
            return self.name
        if self.style == 'l':
            return '%s(%s)' % (self.name, self.arg)
        if self.style == 'lc':
            return '%s( /* , ) */ %s // " )\n )' % (self.name, self.arg)
        if self.style == 'raw':
            return '%s = r##"%s"##' % (self.name, self.arg)
        if self.style == 'sc':
            return '%s = "/* ; */ %s // x\\n"' % (self.name, self.arg.replace('\\', '\\\\').replace('"', '\\"'))
        if self.style == 'uni':
            return '%s = "%s"' % (self.name, ''.join('\\u{%x}' % ord(c) if k % 3 else '\\x%02x' % ord(c) for k, c in enumerate(self.arg)))
        if self.style == 'cont':
            return '%s = "\\\n     %s\\\n "' % (self.name, self.arg.replace('\\', '\\\\').replace('"', '\\"'))
        return '%s = "%s"' % (self.name, self.arg.replace('\\', '\\\\').replace('"', '\\"'))

    def ren(self, m):
        return A(self.name, None if self.arg is None else _ren(self.arg, m), _ren(self.sx, m), self.style)


def _ea(name, sxn):
    def f(e, refs=()):
        e = X(e, refs)
        return A(name, e.rs, '(%s %s)' % (sxn, e.sx))
    return f


COUNT = _ea('Count', 'count')
COND = _ea('Cond', 'cond')
TAKE = _ea('Take', 'take')
ALIGNB = _ea('AlignBefore', 'alignb')
ALIGNA = _ea('AlignAfter', 'aligna')
SKIPB = _ea('SkipBefore', 'skipb')
SKIPA = _ea('SkipAfter', 'skipa')
MOVE = _ea('Move', 'move')
MOVEABS = _ea('MoveAbs', 'moveabs')
ERRIF = _ea('ErrorIf', 'errif')
COMPLETE = A('Complete', None, '(complete)')
DEBUG = A('Debug', None, '(debug)')
INTO = A('Into', None, '(into)')
IGNORE = A('Ignore', None, '(ignore)')
DEFAULT = A('Default', None, '(ignore)')
BE = A('BigEndian', None, '(be)')
LE = A('LittleEndian', None, '(le)')
EXACT = A('Exact', None, '(exact)')


def LCOUNT(p):
    return A('LengthCount', p.rs, '(lcount %s)' % p.sx)


def PARSE(p):
    return A('Parse', p.rs, '(parse %s)' % p.sx)


def TAG(b):
    return A('Tag', bytelit(b), '(tag %s)' % ' '.join(map(str, b)))


def VALUE(e, ty=None):
    """ty: type of the field, to which integers are converted"""
    x = X(e)
    return A('Value', x.rs if ty is None else '(%s) as %s' % (x.rs, ty), '(value %s)' % x.sx)


def VERIFY(s, *names):
    """names: fields referenced through the closure argument (a reference)"""
    e = X(s, names)
    return A('Verify', e.rs, '(verify %s)' % e.sx)


def VCHK(name, t):
    """Verify with the condition `chk` of the harness; t: type of the value at this level"""
    return A('Verify', '{ let __v: &%s = %s; __v.chk() }' % (rt(t).replace("'a", "'_"), name), '(verify (chk %s))' % name)


def MTWIST(t):
    """Map with the function `twist` of the harness"""
    return A('Map', '|__v: %s| __v.twist()' % rt(t).replace("'a", "'_"), '(map v (twist v))')


def MAP(e, var='v', ty=None):
    """|v| e, where e is an integer expression of v (cast to ty)"""
    x = X(e)
    body = x.rs if isinstance(e, E) else '(%s) as %s' % (x.rs, ty)
    return A('Map', '|%s%s| { %s }' % (var, '' if ty is None else ': ' + (ty if isinstance(ty, str) else ty), body), '(map %s %s)' % (var, x.sx))


def SETENDIAN(s):
    e = X(s)
    return A('SetEndian', 'if %s { nom::number::Endianness::Big } else { nom::number::Endianness::Little }' % e.rs,
             '(setendian %s)' % e.sx)


def SETENDIAN3(s):
    """0: big, 1: little, else that of the machine"""
    import sys
    e = X(s)
    return A('SetEndian', 'match %s { 0 => nom::number::Endianness::Big, 1 => nom::number::Endianness::Little, _ => nom::number::Endianness::Native }' % e.rs,
             '(setendian (%s %s %d))' % (('==', e.sx, 0) if sys.byteorder == 'little' else ('!=', e.sx, 1)))


class S:
    """statement"""
    def __init__(self, rs, sx):
        self.rs, self.sx = rs, sx


def s_ev(n, e='0'):
    e = X(e)
    return S('engine::ev(%d, %s);' % (n, e.rs), '(ev %d %s)' % (n, e.sx))


def s_let(v, e):
    e = X(e)
    return S('let %s = %s;' % (v, e.rs), '(let %s %s)' % (v, e.sx))


def s_advance(e):
    e = X(e)
    return S('let __I__ = &__I__[std::cmp::min((%s) as usize, __I__.len())..];' % e.rs, '(advance %s)' % e.sx)


def s_narrow(e):
    """keep only the first e bytes of the current input"""
    e = X(e)
    return S('let (__full, __I__) = (__I__, &__I__[..core::cmp::min((%s) as usize, __I__.len())]);' % e.rs, '(narrow %s)' % e.sx)


def s_widen():
    """back to the input before s_narrow, from the current position"""
    return S('let __I__ = &__full[__I__.as_ptr() as usize - __full.as_ptr() as usize..];', '(widen)')


def s_failif(e):
    e = X(e)
    return S('if %s { return Err(nom::Err::Error(nom::error::make_error(__I__, nom::error::ErrorKind::Alpha))); }' % e.rs,
             '(failif %s)' % e.sx)


def s_seq(*l):
    return S('{ %s }' % ' '.join(x.rs for x in l), '(seq %s)' % ' '.join(x.sx for x in l))


def PRE(s):
    return A('PreExec', s.rs, '(pre %s)' % s.sx)


def POST(s):
    return A('PostExec', s.rs, '(post %s)' % s.sx)


# ---------------------------------------------------------------- objects
class Hook:
    """how parts of declarations are written (see families8)"""
    def fty(self, f):
        return rt(f.ty)

    def field(self, name):
        return name

    def arg(self, a):
        return a.rs()

    def nom(self, inner):
        return '#[nom(%s)]' % inner

    def vis(self):
        return ''

    def obj(self, o, text):
        return text

    def pat(self, v):
        if v.patstyle == 's':
            return 'Selector = "%s"' % v.pat[0].replace('\\', '\\\\').replace('"', '\\"')
        return 'Selector(%s)' % v.pat[0]

    def var(self, n):
        return n

    def sel(self, t):
        return 'Selector = "%s"' % t

    def xarg(self, n, t):
        return n, t

    def disc(self, t):
        return t

    def derive(self, d):
        return '#[derive(%s, Debug)]' % d

    def before(self):
        return ''


HOOK = Hook()


class F:
    def __init__(self, name, ty, *attrs, split=None, doc=None):
        self.name, self.ty, self.attrs, self.split, self.doc = name, ty, list(attrs), split, doc

    def ren(self, m):
        return F(m.get(self.name, self.name), self.ty, *[a.ren(m) for a in self.attrs], split=self.split, doc=self.doc)

    def attr_text(self):
        return attr_text(self.attrs, self.split, self.doc)

    def sx(self, pre):
        n = self.name[2:] if self.name.startswith('r#') else self.name
        return '(f %s %s %s)' % (n, sxt(self.ty, pre), ' '.join(a.sx for a in self.attrs).replace('@', pre))


def attr_text(attrs, split=None, doc=None):
    if not attrs:
        return (doc or '') + ' '
    if split:
        parts = []
        k = 0
        for n in split:
            parts.append(attrs[k:k + n])
            k += n
        parts.append(attrs[k:])
        parts = [p for p in parts if p]
    else:
        parts = [attrs]
    return (doc or '') + (' ' + (doc or '')).join(HOOK.nom(', '.join(HOOK.arg(a) for a in p)) for p in parts) + ' '


TOPRS = {'be': 'BigEndian', 'le': 'LittleEndian'}


class _Raw:
    def __init__(self, s):
        self.s = s

    def rs(self):
        return self.s


class Obj:
    """derive: Nom/NomBE/NomLE; end: None/'be'/'le' (attribute) ; top: list of A (PreExec, Exact, SetEndian...)
    flags: complete, debug, generr, debugderive; args: [(name, type)]; input: InputName"""
    def __init__(self, name, derive='Nom', end=None, top=(), complete=False, debug=False, generr=False,
                 args=(), input=None, generics=None, where='', enc_generics=None, lt=None, topsplit=None,
                 toporder=None, attrs_text='', argstyle='l', inputstyle='s'):
        self.name, self.derive, self.end, self.top = name, derive, end, list(top)
        self.complete, self.debug, self.generr, self.args, self.input = complete, debug, generr, list(args), input
        self.generics, self.where, self.enc_generics, self.lt = generics, where, enc_generics, lt
        self.topsplit, self.toporder, self.attrs_text = topsplit, toporder, attrs_text
        self.argstyle, self.inputstyle = argstyle, inputstyle

    sel = None

    def top_attrs(self):
        l = []
        if self.complete:
            l.append('Complete')
        if self.debug:
            l.append('Debug')
        if self.generr:
            l.append('GenericErrors')
        if self.end:
            l.append(TOPRS[self.end])
        if self.input:
            l.append('InputName = "%s"' % self.input if self.inputstyle == 's' else 'InputName(%s)' % self.input)
        if self.sel:
            l.append(HOOK.sel(self.sel[1]))
        if self.args:
            l.append('ExtraArgs(%s)' % ', '.join('%s: %s' % HOOK.xarg(*a) for a in self.args))
        l += [HOOK.arg(a) for a in self.top]
        if self.toporder:
            l = [l[k] for k in self.toporder]
        return l

    def subst(self, s):
        i = self.input or 'i'
        return s.replace('__I__', i).replace('__O__', 'orig_' + i)

    def head_rs(self):
        l = self.top_attrs()
        t = ''
        if l:
            if getattr(self, 'written', None):
                import families4
                t = families4.written([_Raw(x) for x in l], self.written) + '\n'
            elif self.topsplit == 'each':
                t = ''.join(HOOK.nom(x) + '\n' for x in l)
            else:
                t = HOOK.nom(', '.join(l)) + '\n'
        return '%s\n%s%s' % (HOOK.derive(self.derive), t, self.attrs_text)

    def sx_head(self, pre):
        dyn = any(a.name == 'SetEndian' for a in self.top)
        e = {'NomBE': 'be', 'NomLE': 'le'}.get(self.derive) or self.end or 'entry'
        if dyn:
            e = 'dyn'
        s = '%s%s (endian %s)' % (pre, self.name, e)
        if self.complete:
            s += ' complete'
        if self.debug:
            s += ' debug'
        if self.sel:
            s += ' (sel %s)' % self.sel[0]
        if self.args:
            s += ' (args %s)' % ' '.join(a[0] for a in self.args)
        if self.top:
            s += ' (attrs %s)' % ' '.join(a.sx for a in self.top).replace('@', pre)
        return s

    def gen(self, need_lt):
        if self.generics is not None:
            return self.generics
        return "<'a>" if need_lt else ''

    def encgen(self, need_lt):
        """(impl generics, type generics) for Enc"""
        if self.enc_generics is not None:
            return self.enc_generics
        return ('', "<'_>") if need_lt else ('', '')


class Struct(Obj):
    def __init__(self, name, fields, kind='named', **kw):
        super().__init__(name, **kw)
        self.kind = kind
        if kind == 'tuple':
            m = {f.name: '_%d' % k for k, f in enumerate(fields)}
            fields = [f.ren(m) for f in fields]
            for f, k in zip(fields, range(len(fields))):
                f.name = '_%d' % k
        self.fields = fields

    def need_lt(self):
        return self.lt if self.lt is not None else any(has_lt(f.ty) for f in self.fields)

    def rs(self):
        lt = self.need_lt()
        g = self.gen(lt)
        if self.kind == 'named':
            body = ' %s{ %s }' % (self.where, ' '.join('%s%s%s%s: %s,' % (HOOK.before(), f.attr_text(), HOOK.vis(), HOOK.field(f.name), HOOK.fty(f)) for f in self.fields))
        elif self.kind == 'tuple':
            body = '( %s ) %s;' % (' '.join('%s%s%s%s,' % (HOOK.before(), f.attr_text(), HOOK.vis(), HOOK.fty(f)) for f in self.fields), self.where)
        else:
            body = '%s;' % self.where
        s = HOOK.obj(self, self.subst('%spub struct %s%s%s\n' % (self.head_rs(), self.name, g, body)))
        ig, tg = self.encgen(lt)
        acc = []
        for k, f in enumerate(self.fields):
            acc.append(enc_rs(f.ty, '&self.%s' % (k if self.kind == 'tuple' else f.name)))
        s += 'impl%s engine::Enc for %s%s { fn enc(&self, __out: &mut Vec<u128>) { %s } }\n' % (ig, self.name, tg, ' '.join(acc))
        return self.subst(s)

    def sx(self, pre):
        return '(struct %s (fields %s))' % (self.sx_head(pre), ' '.join(f.sx(pre) for f in self.fields))


class Var:
    """enum variant; pat: (rust, model); fields: list of F, or None for unit; attrs: for unit variants"""
    def __init__(self, name, pat, fields=None, kind='named', attrs=(), patstyle='s'):
        self.name, self.fields, self.kind, self.attrs, self.patstyle = name, fields, kind, list(attrs), patstyle
        self.pat = (str(pat), str(pat)) if isinstance(pat, (int, str)) else pat
        if kind == 'tuple' and fields:
            m = {f.name: '_%d' % k for k, f in enumerate(fields)}
            self.fields = [f.ren(m) for f in fields]


class Enum(Obj):
    def __init__(self, name, variants, seltype='u8', **kw):
        super().__init__(name, **kw)
        self.variants, self.sel = variants, ('selector', seltype)

    def need_lt(self):
        return self.lt if self.lt is not None else any(has_lt(f.ty) for v in self.variants for f in (v.fields or []))

    def rs(self):
        lt = self.need_lt()
        g = self.gen(lt)
        vs, arms = [], []
        for k, v in enumerate(self.variants):
            at = HOOK.nom(', '.join([HOOK.pat(v)] + [HOOK.arg(a) for a in v.attrs])) + ' '
            if v.fields is None:
                vs.append('%s%s%s,' % (HOOK.before(), at, HOOK.var(v.name)))
                arms.append('%s::%s => { __out.push(%d); }' % (self.name, v.name, k))
            elif v.kind == 'named':
                vs.append('%s%s%s { %s },' % (HOOK.before(), at, HOOK.var(v.name), ' '.join('%s%s%s: %s,' % (HOOK.before(), f.attr_text(), HOOK.field(f.name), HOOK.fty(f)) for f in v.fields)))
                arms.append('%s::%s { %s } => { __out.push(%d); %s }' % (
                    self.name, v.name, ', '.join(f.name for f in v.fields), k,
                    ' '.join(enc_rs(f.ty, f.name) for f in v.fields)))
            else:
                vs.append('%s%s%s( %s ),' % (HOOK.before(), at, HOOK.var(v.name), ' '.join('%s%s%s,' % (HOOK.before(), f.attr_text(), HOOK.fty(f)) for f in v.fields)))
                arms.append('%s::%s(%s) => { __out.push(%d); %s }' % (
                    self.name, v.name, ', '.join('_f%d' % j for j in range(len(v.fields))), k,
                    ' '.join(enc_rs(f.ty, '_f%d' % j) for j, f in enumerate(v.fields))))
        s = HOOK.obj(self, self.subst('%spub enum %s%s %s{ %s }\n' % (self.head_rs(), self.name, g, self.where, ' '.join(vs))))
        ig, tg = self.encgen(lt)
        s += 'impl%s engine::Enc for %s%s { fn enc(&self, __out: &mut Vec<u128>) { match self { %s } } }\n' % (
            ig, self.name, tg, ' '.join(arms))
        return self.subst(s)

    def sx(self, pre):
        vs = []
        for v in self.variants:
            if v.fields is None:
                vs.append('(v %s (unit %s))' % (v.pat[1], ' '.join(a.sx for a in v.attrs).replace('@', pre)))
            else:
                vs.append('(v %s (fields %s))' % (v.pat[1], ' '.join(f.sx(pre) for f in v.fields)))
        return '(enum %s (variants %s))' % (self.sx_head(pre), ' '.join(vs))


class Fieldless(Obj):
    """vals: [(name, explicit discriminant text or None, value)]"""
    def __init__(self, name, repr, vals, **kw):
        super().__init__(name, **kw)
        self.repr, self.vals = repr, vals

    def need_lt(self):
        return False

    def rs(self):
        s = HOOK.obj(self, self.subst('%s#[repr(%s)]\npub enum %s { %s }\n' % (
            self.head_rs(), self.repr, self.name,
            ', '.join(HOOK.before() + HOOK.var(n) if t is None else '%s%s = %s' % (HOOK.before(), HOOK.var(n), HOOK.disc(t)) for n, t, v in self.vals))))
        s += 'impl engine::Enc for %s { fn enc(&self, __out: &mut Vec<u128>) { match self { %s } } }\n' % (
            self.name, ' '.join('%s::%s => __out.push(%d),' % (self.name, n, k) for k, (n, t, v) in enumerate(self.vals)))
        return self.subst(s)

    def sx(self, pre):
        return '(fieldless %s (repr %s) (vals %s))' % (self.sx_head(pre), self.repr, ' '.join(str(v) for n, t, v in self.vals))


# ---------------------------------------------------------------- inputs
def alt(*bs):
    return '(alt %s)' % ' '.join('x' + bytes(b).hex() for b in bs)


def rep(al, n):
    return '(rep (%s) %d)' % (' '.join(map(str, al)), n)


def fill(n):
    return '(fill %d)' % n


def blob(n):
    return '(blob %d)' % n


def rng(a, b):
    return '(range %d %d)' % (a, b)


# ---------------------------------------------------------------- programs
class Prog:
    def __init__(self, name, objs, call=None, inp=(), knobs=(), entries=None, flags=(), reach=None,
                 err=None, place=None, extra='', args=None, note=''):
        """call: ('obj', name) (default: last object), ('ty', t), ('p', P)
        args: [(rust text, model text)] passed after the input (selector first)"""
        self.name, self.objs = name, list(objs)
        self.call = call or ('obj', self.objs[-1].name)
        self.inp, self.knobs, self.entries, self.flags = list(inp), list(knobs), entries, list(flags)
        self.reach, self.err, self.place, self.extra = reach, err, place, extra
        self.args = [X(a) for a in (args or [])]
        self.note = note

    def rs(self):
        err = self.err or "nom::error::Error<&[u8]>"
        out = [self.extra] if self.extra else []
        for o in self.objs:
            out.append(o.rs())
        k = self.call[0]
        if k == 'obj':
            path = self.call[2] if len(self.call) > 2 else self.call[1]
            turbo = path
        elif k == 'ty':
            turbo = '<%s>' % rt(self.call[1]).replace("'a", "'_")
        fin, enc = 'fin::<_, %s>' % err, ''
        if k == 'ty' and has_ld(self.call[1]):
            fin, enc = 'finw::<_, %s>' % err, ', |__x, __out| { %s }' % enc_rs(self.call[1], '__x')
        if k == 'p':
            out.append('pub fn run(_e: u8, i: &[u8]) -> engine::Out { fin::<_, %s>((%s).parse(i)) }' % (err, self.call[1].rs))
        else:
            a = ''.join(', ' + x.rs for x in self.args)
            out.append('pub fn run(e: u8, i: &[u8]) -> engine::Out { match e { %s } }' % ', '.join(
                '%s => %s(%s::%s(i%s)%s)' % (n, fin, turbo, f, a, enc)
                for n, f in (('0', 'parse'), ('1', 'parse_be'), ('_', 'parse_le'))))
        return 'pub mod %s {\nuse super::*;\n%s}\n' % (self.name, '\n'.join(out) + '\n')

    def sx(self):
        pre = self.name + '.'
        s = '\n'.join(o.sx(pre) for o in self.objs)
        k = self.call[0]
        if k == 'obj':
            c = '(call obj %s%s %s)' % (pre, self.call[1], ' '.join(a.sx for a in self.args))
        elif k == 'ty':
            c = '(call ty %s)' % sxt(self.call[1], pre)
        else:
            c = '(call p %s)' % self.call[1].sx.replace('@', pre)
        s += '\n(prog %s %s (in %s)' % (self.name, c, ' '.join(self.inp))
        if self.knobs:
            s += ' (knobs %s)' % ' '.join('(%s)' % ' '.join(map(str, k)) for k in self.knobs)
        if self.entries:
            s += ' (entries %s)' % ' '.join(self.entries)
        if self.flags:
            s += ' (flags %s)' % ' '.join(self.flags)
        if self.reach is not None:
            s += ' (reach %s)' % ' '.join(self.reach)
        if self.place:
            s += ' (place %s)' % ' '.join(map(str, self.place))
        return s + ')'
