"""Program families: C25 (types and inputs of users)."""
import itertools
from dsl import *
from families import *
from families2 import pbind

ERRS = ['nom::error::Error<%s>', 'MyErr', '()', '(%s, nom::error::ErrorKind)', 'Bare']


def U(b, l):
    return ('raw', 'User%d%d' % (b, l), '(user %d %d)' % (b, l))


USERS = [U(0, 0), U(1, 0), U(0, 1), U(1, 1)]
ONLY1 = ('raw', 'Only1', '(user 0 1)')
TEXT = ('raw', "Text<'a>", 'text')


def swap(t, n='Swap'):
    return ('raw', '%s<%s>' % (n, rt(t)), '(%s %s)' % (n.lower(), sxt(t, '@')))


def plain(t):
    return swap(t, 'Plain')


def lab(t):
    if isinstance(t, str):
        return t
    if t[0] == 'raw':
        return ''.join(c for c in t[1] if c.isalnum())
    return '_'.join(lab(x) if isinstance(x, tuple) else str(x) for x in t)


# ------------------------------------------------------------------------------------- inputs of users
class GProg(Prog):
    """built-in types on inputs which are not slices"""
    how = ('rope', 'Rope')

    def rs(self):
        f, s = self.how
        t = self.call[1]
        ins = 'In<%s>' % s
        ty = rt(t).replace("&'a [u8]", ins)
        err = self.err % ins if '%s' in self.err else self.err
        arms = ', '.join('%s => fini::<_, %s, %s>(i.len(), <%s as Parse<%s, %s>>::%s(%s(i)), |__x, __out| { %s })' % (
            n, ty, err, ty, ins, err, m, f, enc_rs(t, '__x')) for n, m in (('0', 'parse'), ('1', 'parse_be'), ('_', 'parse_le')))
        return 'pub mod %s {\nuse super::*;\npub fn run(e: u8, i: &[u8]) -> engine::Out { match e { %s } }\n}\n' % (self.name, arms)


class FProg(GProg):
    how = ('fun', 'Fun')


class BProg(GProg):
    how = ('bits', 'Bits')


MOODS = (1, 0xe1, 0xe2, 0xe3, 0xe4, 0xe5)


def usize(t):
    """bytes a value takes, about"""
    if isinstance(t, str):
        return width(t)
    k = t[0]
    if k == 'raw':
        return max([usize(x) for x in INTS + ['f32', 'f64'] if x in t[1]] or [1])
    if k == 'ld':
        return usize(t[1]) + 1
    if k == 'opt':
        return usize(t[1])
    if k == 'vec':
        return 2 * usize(t[1])
    if k == 'arr':
        return t[2] * usize(t[1])
    return usize(t[1]) + usize(t[2])


def uinp(t, n=0):
    if isinstance(t, str):
        return [fill(width(t))]
    k = t[0]
    if k == 'raw':
        return [fill(usize(t))] if usize(t) > 1 or 'u8' in t[1] or 'i8' in t[1] else [alt(*[bytes([m]) for m in (MOODS if n < 2 else MOODS[::3])])]
    if k == 'ld':
        w = usize(t[1])
        if not isinstance(t[1], str):
            return uinp(t[1]) + [fill(3)]
        vs = [0, 1, 3] if n < 2 else [1]
        return [alt(*([v.to_bytes(w, 'big') + bytes(range(7, 7 + v)) for v in vs] + ([v.to_bytes(w, 'little') + bytes(range(9, 9 + v)) for v in vs if w > 1])))]
    if k == 'opt':
        return uinp(t[1], n + 1)
    if k == 'vec':
        return uinp(t[1], n + 1) + uinp(t[1], n + 2)
    if k == 'arr':
        return [s for j in range(t[2]) for s in uinp(t[1], n + j)]
    return uinp(t[1], n + 1) + uinp(t[2], n + 1)


def inputs(T):
    out = []
    base = INTS + ['f32', 'f64'] + USERS + [swap('u16'), plain('u16'), swap(U(1, 0)), ('ld', 'u8'), ('ld', 'u16'), ('ld', 'u32'), ('ld', 'u64'), ('ld', U(1, 1)), ('ld', swap('u16'))]
    small = ['u8', 'i16', 'u32', 'f64', U(1, 1), U(0, 1), swap('u16'), ('ld', 'u8'), ('ld', 'u16')]
    l1 = []
    for b in base:
        l1 += [('opt', b), ('vec', b), ('arr', b, 2), ('arr', b, 3)]
    for b in small:
        l1 += [('arr', b, 0), ('arr', b, 1), ('arr', b, 5)] if not has_ld(b) else []
    for a, b in itertools.product(small, small):
        l1.append(('tup', a, b))
    l2 = []
    for b in [x for x in l1 if x[1] in ('u8', 'i16', U(1, 1), ('ld', 'u8'))]:
        if usize(b) <= (24 if T else 12):
            l2 += [('opt', b), ('vec', b), ('arr', b, 2), ('tup', b, 'u16'), ('tup', U(1, 1), b)]
    l2 = [x for x in l2 if usize(x) <= (24 if T else 10)]
    for n, t in enumerate(base + l1 + l2):
        z = usize(t)
        inp = uinp(t) + [fill(2)]
        cost = 6 ** len([x for x in uinp(t) if x.count('x') == 6])
        for k, err in enumerate(ERRS):
            # (() for lengths of arrays which do not fit: no kind)
            if err == 'Bare' and 'arr' in repr(t):
                continue
            if not T and k != n % 4 and t not in base and err != 'Bare':
                continue
            if cost > 300 and not T and k:
                continue
            knobs = [range(0, z + 2), [0, 1, 2]] if cost < 40 or T and cost < 300 else [[0, 1, 2], [1]]
            if z > 12 and not T:
                knobs = [range(0, z + 2, 3), [1]]
            out.append(GProg('rope%d_%s' % (k, lab(t)), [], call=('ty', t), inp=inp, err=err, reach=[], knobs=knobs))
            out.append(FProg('fun%d_%s' % (k, lab(t)), [], call=('ty', t), inp=inp, err=err, reach=[]))
            if not any(x in repr(t) for x in ("'vec'", "'arr'", "'ld'", "'tup'")):
                out.append(BProg('bits%d_%s' % (k, lab(t)), [], call=('ty', t), inp=inp, err=err, reach=[]))
    return out


# ------------------------------------------------------------------------------------- types of users
def user_shapes(t, twin='u16'):
    """(label, type, attributes, items of input)"""
    cnt = p_int('u8', 'be')
    m = alt(*[bytes([x]) for x in MOODS])
    ver = A('Verify', 'x.1 != 1', '(verify (!= (fld x 1) 1))')
    o = [
        ('one', t, [], [m]),
        ('opt', ('opt', t), [], [m]),
        ('cnt', ('vec', t), [COUNT(2)], [m, m]),
        ('lc', ('vec', t), [LCOUNT(cnt)], [alt(b'\0', b'\2'), m, m]),
        ('lcself', ('vec', 'u8'), [LCOUNT(p_ty(t, 'le'))], [m, fill(4)]),
        ('arr', ('arr', t, 2), [], [m, m]),
        ('arrarr', ('arr', ('arr', t, 1), 2), [], [m, m]),
        ('tup', ('tup', t, t), [], [m, m]),
        ('tupx', ('tup', 'u8', ('tup', t, 'u16')), [], [fill(1), m, fill(2)]),
        ('opttup', ('opt', ('tup', t, 'u16')), [], [m, fill(2)]),
        ('optopt', ('opt', ('opt', t)), [], [m]),
        ('optarr', ('opt', ('arr', t, 2)), [], [m, m]),
        ('tupopt', ('tup', ('opt', t), ('opt', t)), [], [m, m]),
        ('cond', ('opt', t), [COND('ilen > 1')], [m]),
        ('condcnt', ('opt', ('vec', t)), [COND('True'), COUNT(2)], [m, m]),
        ('cntopt', ('vec', ('opt', t)), [COUNT(2)], [m, m]),
        ('complete', t, [COMPLETE], [m]),
        ('debug', t, [DEBUG], [m]),
        ('verify', t, [ver], [m]),
        ('cverify', t, [COMPLETE, ver], [m]),
        ('map', 'u16', [A('Map', '|v: %s| (v.1 as u16) << v.0' % rt(t), '(map v (<< (fld v 1) (fld v 0)))'), PARSE(p_ty(t, 'le'))], [m]),
        ('parse', t, [PARSE(p_ty(t, 'parse'))], [m]),
        ('parsebe', t, [PARSE(p_ty(t, 'be'))], [m]),
        ('skip', t, [SKIPB(1), SKIPA(1)], [fill(1), m, fill(1)]),
        ('errif', t, [ERRIF('ipeek == 1')], [m]),
        ('ldself', ('ld', t), [PARSE(p_ty(('ld', t), 'le'))], [m, fill(4)]),
        ('vec', ('vec', t), [], [m, m]),
        ('vectup', ('vec', ('tup', t, 'u8')), [], [m, fill(1), m, fill(1)]),
        ('vecopt', ('vec', ('tup', 'u8', ('opt', t))), [], [fill(1), m, fill(1), m]),
        ('ignore', t, [IGNORE], []),
        ('ignoreopt', ('opt', t), [IGNORE], []),
    ]
    return o


EP = [('Nom', None), ('NomBE', None), ('NomLE', None), ('Nom', 'be'), ('Nom', 'le'), ('NomBE', 'be'), ('NomLE', 'le')]
AT = {None: [], 'be': [BE], 'le': [LE]}
BOX = """impl<'a, E: nom::error::ParseError<&'a [u8]>> Parse<&'a [u8], E> for Box<%s> where %s: Parse<&'a [u8], E> {
    fn parse(i: &'a [u8]) -> nom::IResult<&'a [u8], Self, E> { <%s>::parse(i).map(|(i, x)| (i, Box::new(x))) }
    fn parse_be(i: &'a [u8]) -> nom::IResult<&'a [u8], Self, E> { <%s>::parse_be(i).map(|(i, x)| (i, Box::new(x))) }
    fn parse_le(i: &'a [u8]) -> nom::IResult<&'a [u8], Self, E> { <%s>::parse_le(i).map(|(i, x)| (i, Box::new(x))) }
}
"""


def box(name):
    return BOX % ((name,) * 5)


TAGGED = """#[derive(Debug)] pub struct Tg(pub E);
impl engine::Enc for Tg { fn enc(&self, o: &mut Vec<u128>) { self.0.enc(o) } }
impl<'a> Parse<&'a [u8]> for Tg {
    fn parse(i: &'a [u8]) -> nom::IResult<&'a [u8], Self> { let (i, s) = u8::parse(i)?; let (i, v) = E::parse(i, s)?; Ok((i, Tg(v))) }
    fn parse_be(i: &'a [u8]) -> nom::IResult<&'a [u8], Self> { let (i, s) = u8::parse(i)?; let (i, v) = E::parse_be(i, s)?; Ok((i, Tg(v))) }
    fn parse_le(i: &'a [u8]) -> nom::IResult<&'a [u8], Self> { let (i, s) = u8::parse(i)?; let (i, v) = E::parse_le(i, s)?; Ok((i, Tg(v))) }
}
"""
TG = ('raw', 'Tg', '(tagged @E)')


def types(T):
    out = []
    # every shape, every set of implemented functions, every byte order
    for t in USERS + [ONLY1, swap(U(1, 1)), plain(U(1, 1)), swap(swap(U(0, 1))), swap(U(1, 0))]:
        full = t in (USERS[3], USERS[1])
        for sl, ty, ats, inp in user_shapes(t):
            if 'raw' in t and t[1].startswith(('Swap', 'Plain')) and sl in ('verify', 'cverify', 'map', 'lcself', 'ldself'):
                continue
            if t is ONLY1 and sl in ('lcself', 'ldself'):
                continue
            greedy = sl.startswith('vec')
            for n, (d, e) in enumerate(EP):
                for fa in (None, 'be', 'le'):
                    if not T and (not full and (n > 2 or fa and n) or fa and n > 2 or t is USERS[1] and n > 4):
                        continue
                    fs = [F('b', 'u16'), F('x', ty, *(AT[fa] + ats))] + ([] if greedy else [F('z', 'u16')])
                    i = [fill(2)] + inp + [fill(3)]
                    nm = '%s_%s_%s%s_%s' % (lab(t), sl, d, e or '', fa or 'no')
                    kinds = ['named']
                    if t is USERS[3] and fa is None and n < 3 or t is USERS[1] and fa is None and n == 2 or T:
                        more = ['tuple', 'evar', 'etup', 'nested', 'args', 'opt', 'vec', 'exact', 'complete', 'input', 'third'] + (['generr', 'unit_err'] if t is not ONLY1 else [])
                        # (each kind with a third of the byte orders of each type)
                        kinds += more if fa is None or full and n < 3 else more[(n + len(sl)) % 3::3]
                    elif fa is None and n < 3:
                        kinds += [['tuple', 'etup', 'opt', 'vec'][n]] + (['generr'] if t is not ONLY1 else [])
                    for k in kinds:
                        if greedy and k in ('nested', 'vec') or k in ('tuple', 'etup') and any(a.name in ('Verify', 'Debug') for a in ats):
                            continue
                        if k in ('generr', 'unit_err') and ('arr' in sl or any(a.name == 'Debug' for a in ats)):
                            continue
                        if k == 'vec' and sum(x.count('x') for x in i) > 8:
                            # (twice the same input)
                            continue
                        out.append(wrap('%s_%s' % (k, nm), fs, i, k, derive=d, end=e, reach=[]))
                        if k == 'generr':
                            p = wrap('bare_%s' % nm, fs, i, k, derive=d, end=e, reach=[])
                            p.err = 'Bare'
                            out.append(p)
    # byte orders chosen during parsing
    for t in USERS + [ONLY1, swap(U(1, 1)), plain(U(1, 1))]:
        for sl, ty, ats, inp in user_shapes(t):
            if t[1].startswith(('Swap', 'Plain')) and sl in ('verify', 'cverify', 'map', 'lcself', 'ldself') or t is ONLY1 and sl in ('lcself', 'ldself'):
                continue
            greedy = sl.startswith('vec')
            for fa in ((None, 'be', 'le') if T else (None,)):
                # (not on a field which has a byte order of its own)
                fs = [F('s', 'u8')] + ([F('x', ty, SETENDIAN('s == 1'), *ats)] if fa is None else [F('w', 'u8', SETENDIAN('s == 1')), F('x', ty, *(AT[fa] + ats))]) + ([] if greedy else [F('y', U(1, 1)), F('z', 'u16')])
                out.append(wrap('sete_%s_%s_%s' % (lab(t), sl, fa), fs, [rng(0, 1)] + ([fill(1)] if fa else []) + inp + ([] if greedy else [alt(b'\1', b'\xe2'), fill(2)]), 'named', reach=[]))
                out.append(wrap('sett_%s_%s_%s' % (lab(t), sl, fa), [F('x', ty, *(AT[fa] + ats))] + ([] if greedy else [F('y', U(1, 1))]), inp + [fill(1)], 'named', top=[SETENDIAN('ilen > 3')], reach=[]))
    # objects inside user types
    N = lambda d, e, **kw: Struct('N', [F('a', 'u16'), F('w', 'which'), F('u', U(0, 1))], derive=d, end=e, **kw)
    ni = [fill(3), alt(*[bytes([x]) for x in MOODS])]
    for d, e in EP:
        for lb, w in (('swap', swap), ('plain', plain), ('swsw', lambda t: swap(swap(t))), ('swpl', lambda t: swap(plain(t)))):
            for sl, mk, k in (('one', lambda t: (t, []), 1), ('opt', lambda t: (('opt', t), []), 1), ('cnt', lambda t: (('vec', t), [COUNT(2)]), 2), ('arr', lambda t: (('arr', t, 2), []), 2), ('tup', lambda t: (('tup', t, 'u16'), []), 1),
                              ('cond', lambda t: (('opt', t), [COND('True')]), 1), ('comp', lambda t: (t, [COMPLETE]), 1)):
                for n, (d2, e2) in enumerate(EP[:5]):
                    if not T and (n > 2 and (d != 'Nom') or lb in ('swsw', 'swpl') and sl not in ('one', 'tup')):
                        continue
                    ty, ats = mk(w(('obj', 'N')))
                    out.append(Prog('own_%s_%s_%s%s_%s%s' % (lb, sl, d, e or '', d2, e2 or ''), [N(d, e), Struct('T', [F('x', ty, *ats), F('z', 'u16')], derive=d2, end=e2)], inp=ni * k + [fill(4)], reach=[]))
        # below shapes, the other way around
        for lb, t, inp in (('so', swap(('opt', ('obj', 'N'))), ni), ('sv', swap(('vec', ('obj', 'N'))), ni + ni), ('sa', swap(('arr', ('obj', 'N'), 2)), ni + ni), ('st', swap(('tup', ('obj', 'N'), 'u16')), ni + [fill(2)]), ('po', plain(('opt', ('obj', 'N'))), ni), ('pt', plain(('tup', ('obj', 'N'), 'u16')), ni + [fill(2)]),
                           ('sf', swap(('obj', 'FL')), [alt(b'\0\1', b'\1\0', b'\2\0')]), ('sof', swap(('opt', ('obj', 'FL'))), [alt(b'\0\1', b'\1\0', b'\2\0')]), ('pf', plain(('obj', 'FL')), [alt(b'\0\1', b'\1\0', b'\2\0')])):
            fl = [Fieldless('FL', 'u16', [('A', None, 0), ('B', None, 1), ('C', '0x200', 0x200)], derive=d, end=e)]
            for n, (d2, e2) in enumerate(EP[:3]):
                out.append(Prog('in_%s_%s%s_%s%s' % (lb, d, e or '', d2, e2 or ''), (fl if 'FL' in repr(t) else [N(d, e)]) + [Struct('T', [F('x', t), F('z', U(1, 1))], derive=d2, end=e2)], inp=inp + [fill(3)], reach=[]))
    # a selector read by hand
    en = lambda d, e: Enum('E', [Var('A', 1, [F('a', 'u16')]), Var('B', 2, [F('b', U(1, 1)), F('c', 'u16', LE)]), Var('C', '_', [F('d', 'u16', BE), F('e', U(0, 1))], kind='tuple'), Var('D', 3, None)][:3], derive=d, end=e)
    for d, e in EP:
        for sl, ty, ats, k in (('one', TG, [], 1), ('opt', ('opt', TG), [], 1), ('cnt', ('vec', TG), [COUNT(2)], 2), ('arr', ('arr', TG, 2), [], 2), ('tup', ('tup', TG, TG), [], 2), ('swap', swap(TG), [], 1), ('plain', plain(TG), [], 1), ('vec', ('vec', TG), [], 2)):
            for d2, e2 in EP[:5]:
                p = Prog('tg_%s_%s%s_%s%s' % (sl, d, e or '', d2, e2 or ''), [en(d, e), Struct('T', [F('x', ty, *ats)] + ([] if sl == 'vec' else [F('z', 'u16')]), derive=d2, end=e2)], inp=[rng(0, 3), fill(2), rng(0, 3), fill(2)] if k == 2 else [rng(0, 3), alt(*[bytes([m, 9]) for m in MOODS]), fill(4)], extra=TAGGED, reach=[])
                out.append(p)
    # borrowed text
    ti = [alt(b'\0', b'\1a', b'\2\xc3\xa9', b'\2\xc3\x28', b'\3abc')]
    for sl, ty, ats, k in (('one', TEXT, [], 1), ('opt', ('opt', TEXT), [], 1), ('cnt', ('vec', TEXT), [COUNT(2)], 2), ('arr', ('arr', TEXT, 2), [], 2), ('tup', ('tup', TEXT, 'u16'), [], 1), ('vec', ('vec', TEXT), [], 2), ('cond', ('opt', TEXT), [COND('ilen != 4')], 1),
                           ('lc', ('vec', TEXT), [LCOUNT(p_int('u8', 'be'))], 3), ('comp', TEXT, [COMPLETE], 1), ('swap', swap(TEXT), [], 1), ('ign', TEXT, [IGNORE], 0), ('ver', TEXT, [A('Verify', 'x.0.len() != 1', '(verify (!= (len x) 1))')], 1), ('skip', TEXT, [SKIPB(1), SKIPA(2)], 4)):
        for k2 in ('named', 'tuple', 'evar', 'etup', 'nested', 'opt', 'vec', 'exact', 'complete', 'third'):
            if k2 in ('tuple', 'etup') and sl == 'ver' or sl == 'vec' and k2 in ('nested', 'vec'):
                continue
            inp = {0: [], 1: ti, 2: ti + ti, 3: [alt(b'\0', b'\2')] + ti + ti, 4: [fill(1)] + ti + [fill(2)]}[k]
            for d in ('Nom', 'NomLE'):
                out.append(wrap('text_%s_%s_%s' % (d, sl, k2), [F('b', 'u8'), F('x', ty, *ats)] + ([] if sl == 'vec' else [F('z', U(1, 1))]), [fill(1)] + inp + [alt(b'\1', b'\xe1')], k2, derive=d, reach=[]))
    # recursion
    for d, e in EP[:5]:
        for g in (False, True):
            kw = dict(derive=d, end=e, generr=g)
            err = MYERR if g else None
            def rec(nm, objs, inp, extra=''):
                out.append(Prog('rec_%s_%s%s%d' % (nm, d, e or '', g), objs, inp=inp, extra=extra, err=err, reach=[]))
            B = ('raw', 'Box<T>', '(obj @T)')
            if not g:
                rec('list', [Struct('T', [F('v', 'u8'), F('w', 'which'), F('n', ('opt', B), COND('v & 1 == 1'))], **kw)], [rng(0, 1), fill(1), rng(0, 1), fill(1), rng(0, 1), fill(1), rng(0, 1), fill(1)], box('T'))
                rec('opt', [Struct('T', [F('v', 'u8', ERRIF('ipeek == 2')), F('w', 'u16'), F('n', ('opt', B))], **kw)], [rng(0, 2), fill(2), rng(0, 2), fill(2), rng(0, 2), fill(2)], box('T'))
                rec('ends', [Struct('T', [F('v', 'u8'), F('w', 'which'), F('n', ('opt', ('raw', 'Swap<Box<T>>', '(swap (obj @T))')), COND('v & 1 == 1')), F('z', 'u16')], **kw)], [rng(0, 1), fill(1), rng(0, 1), fill(1), rng(0, 1), fill(6)], box('T'))
            rec('tree', [Struct('T', [F('v', U(1, 1)), F('n', ('vec', ('obj', 'T')), LCOUNT(p_int('u8', 'be')))], **kw)], [alt(b'\1\1', b'\1\2', b'\xe1\1'), rep((1, 2, 0), 2), rep((0, 2), 4)])
            rec('many', [Struct('T', [F('v', 'u8', ERRIF('ipeek == 0')), F('n', ('vec', ('obj', 'T'))), F('z', 'u8')], **kw)], [rep((0, 1), 8)])
            rec('cnt', [Struct('T', [F('v', 'u8'), F('n', ('vec', ('obj', 'T')), COUNT('v % 4')), F('z', 'u8')], **kw)], [rep((0, 1, 2), 6)])
            rec('mut', [Struct('Q', [F('q', 'u8'), F('r', ('vec', ('obj', 'T')), COUNT('q % 3'))], **kw), Struct('T', [F('v', 'which'), F('n', ('vec', ('obj', 'Q')), LCOUNT(p_int('u8', 'be')))], **kw)], [rep((0, 1, 2), 6)])
            rec('tag', [Enum('E', [Var('A', 1, [F('a', 'u8'), F('b', ('vec', TG), COUNT('a'))]), Var('B', 2, [F('x', TG if False else ('vec', TG), COUNT(1)), F('y', 'u16')], kind='tuple'), Var('C', 0, None), Var('D', '_', [F('d', 'which')], kind='tuple')], derive=d, end=e), Struct('T', [F('t', TG)], derive=d, end=e)], [rep((0, 1, 2, 3), 5)], TAGGED) if not g else None
    return out


def C25(tier):
    T = tier == THOROUGH
    return inputs(T) + types(T)
