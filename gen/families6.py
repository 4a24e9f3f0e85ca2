"""Program families: C19 (declarations which are accepted and rejected)."""
import itertools, re
from dsl import *
from families import *
from families4 import V, arg_obj

# ---------------------------------------------------------------- the documentation's table of attributes
# name -> (levels, takes an argument)
DOC = {
    'AlignAfter': ('fields', 1), 'AlignBefore': ('fields', 1), 'BigEndian': ('all', 0), 'Cond': ('fields', 1), 'Complete': ('all', 0),
    'Count': ('fields', 1), 'Debug': ('all', 0), 'DebugDerive': ('top', 0), 'Default': ('fields', 0), 'ErrorIf': ('fields', 1), 'Exact': ('top', 0),
    'GenericErrors': ('top', 0), 'If': ('fields', 1), 'Ignore': ('fields', 0), 'InputName': ('top', 1), 'Into': ('fields', 0), 'LengthCount': ('fields', 1),
    'LittleEndian': ('all', 0), 'Map': ('fields', 1), 'Move': ('fields', 1), 'MoveAbs': ('fields', 1), 'Parse': ('fields', 1), 'PreExec': ('all', 1),
    'PostExec': ('all', 1), 'Selector': ('all', 1), 'SetEndian': ('all', 1), 'SkipAfter': ('fields', 1), 'SkipBefore': ('fields', 1), 'Tag': ('fields', 1),
    'Take': ('fields', 1), 'Value': ('fields', 1), 'Verify': ('fields', 1), 'ExtraArgs': ('top', 1),
}
# correct argument, type of a field having this attribute, model
END = "if engine::kn(0) == 0 { nom::number::Endianness::Big } else { nom::number::Endianness::Little }"
GOOD = {
    'AlignAfter': ('4', 'u16', '(aligna 4)'), 'AlignBefore': ('4', 'u16', '(alignb 4)'), 'BigEndian': (None, 'u16', 'be'), 'Cond': ('a == 1', ('opt', 'u16'), '(cond (== a 1))'),
    'If': ('a == 1', ('opt', 'u16'), '(cond (== a 1))'), 'Complete': (None, 'u16', 'complete'), 'Count': ('a', ('vec', 'u16'), '(count a)'), 'Debug': (None, 'u16', 'debug'),
    'Default': (None, 'u16', 'ignore'), 'Ignore': (None, 'u16', 'ignore'), 'ErrorIf': ('a == 1', 'u16', '(errif (== a 1))'), 'Into': (None, 'u16', 'into'),
    'LengthCount': ('nom::number::streaming::u8', ('vec', 'u8'), '(lcount (int 1 be))'), 'LittleEndian': (None, 'u16', 'le'), 'Map': ('|x: u16| x ^ 1', 'u16', '(map v (^ v 1))'),
    'Move': ('1', 'u16', '(move 1)'), 'MoveAbs': ('0', 'u16', '(moveabs 0)'), 'Parse': ('nom::number::streaming::le_u16', 'u16', '(parse (int 2 le))'), 'PreExec': ('engine::ev(1, 3);', 'u16', '(pre (ev 1 3))'),
    'PostExec': ('engine::ev(1, 3);', 'u16', '(post (ev 1 3))'), 'SetEndian': None, 'SkipAfter': ('1', 'u16', '(skipa 1)'), 'SkipBefore': ('1', 'u16', '(skipb 1)'),
    'Tag': ('b"\\x01\\x02"', 'slice', '(tag 1 2)'), 'Take': ('2', 'slice', '(take 2)'), 'Value': ('7', 'u16', '(value 7)'), 'Verify': ('true', 'u16', '(verify 1)'),
    'InputName': ('zz', 'u16', None), 'ExtraArgs': ('zz: u8', 'u16', None), 'Selector': ('u8', 'u16', None), 'Exact': (None, 'u16', None), 'GenericErrors': (None, 'u16', None), 'DebugDerive': (None, 'u16', None),
}
_se = SETENDIAN('k0 == 0')
GOOD['SetEndian'] = (_se.arg, 'u16', _se.sx)
for _n, _f in (('Complete', COMPLETE), ('Debug', DEBUG), ('Ignore', IGNORE), ('Into', INTO), ('BigEndian', BE), ('LittleEndian', LE), ('Exact', EXACT)):
    GOOD[_n] = (None, 'u16', _f.sx)
GOOD['Default'] = GOOD['Ignore']

TOPS = ['named', 'tuple', 'unit', 'enum', 'fieldless']
PLACES = ['named', 'tuple', 'evar', 'etup', 'uvar']
DERIVES = ['Nom', 'NomBE', 'NomLE']


class Decl:
    """a declaration given as text: it must be accepted, or rejected"""
    def __init__(self, name, text, why=''):
        self.name, self.text, self.why, self.note = name, text, why, why

    def rs(self):
        return 'pub mod %s {\nuse super::*;\n%s\n}\n' % (self.name, self.text)

    def sx(self):
        return ''


def attr(name, arg, style='s'):
    return A(name, arg, '', style).rs()


def top_decl(kind, derive, lists):
    """object with these lists of attributes"""
    at = ''.join('#[nom(%s)] ' % l for l in lists)
    if kind == 'named':
        return '#[derive(%s)] %spub struct T { pub x: u16 }' % (derive, at)
    if kind == 'tuple':
        return '#[derive(%s)] %spub struct T(pub u16);' % (derive, at)
    if kind == 'unit':
        return '#[derive(%s)] %spub struct T;' % (derive, at)
    if kind == 'enum':
        return '#[derive(%s)] #[nom(Selector = "u8")] %spub enum T { #[nom(Selector = "1")] A(u16), #[nom(Selector = "_")] B }' % (derive, at)
    if kind == 'fieldless':
        return '#[derive(%s)] %s#[repr(u8)] pub enum T { A, B = 7 }' % (derive, at)


def field_decl(place, derive, lists, ty='u16', head='', tail='pub z: u8', first='pub a: u8'):
    """object with a field having these lists of attributes"""
    at = ''.join('#[nom(%s)] ' % l for l in lists)
    lt = "<'a>" if "'a" in ty else ''
    if place == 'named':
        return '#[derive(%s)] %spub struct T%s { %s, %spub bb: %s, %s }' % (derive, head, lt, first, at, ty, tail)
    if place == 'tuple':
        return '#[derive(%s)] %spub struct T%s(pub u8, %spub %s, pub u8);' % (derive, head, lt, re.sub(r'\ba\b', '_0', at) if "'a" not in at else at, ty)
    if place == 'evar':
        return '#[derive(%s)] #[nom(Selector = "u8")] %spub enum T%s { #[nom(Selector = "1")] A { %s, %sbb: %s, %s }, #[nom(Selector = "_")] B }' % (derive, head, lt, first.replace('pub ', ''), at, ty, tail.replace('pub ', ''))
    if place == 'etup':
        return '#[derive(%s)] #[nom(Selector = "u8")] %spub enum T%s { #[nom(Selector = "1")] A(u8, %s%s, u8), #[nom(Selector = "_")] B }' % (derive, head, lt, re.sub(r'\ba\b', '_0', at) if "'a" not in at else at, ty)
    if place == 'uvar':
        return '#[derive(%s)] #[nom(Selector = "u8")] %spub enum T { #[nom(Selector = "1")] %sA, #[nom(Selector = "_")] B { x: u8 } }' % (derive, head, at)


def around(bad, neutral):
    """the attribute alone, before and after others, in the same list and in others"""
    yield 'x', [bad]
    yield 'f', ['%s, %s' % (bad, neutral)]
    yield 'l', ['%s, %s' % (neutral, bad)]
    yield 'ff', [bad, neutral]
    yield 'll', [neutral, bad]
    yield 'm', ['%s, %s, %s' % (neutral, bad, neutral)]
    yield 't', ['%s,' % bad]


WRONG = ['1', 'true', "'c'", 'b"1"', '1.5', 'u32', '"1 +"', '")"', '""', '"("', '"1 2"', '"a,"', '"let"']


def rejected(tier):
    T = tier == THOROUGH
    out = []

    def add(name, text, why):
        out.append(Decl('r_' + name, text, why))

    # 1. attributes where they are not allowed
    for n, (lev, takes) in DOC.items():
        arg = GOOD[n][0]
        for kind in TOPS:
            if lev != 'fields':
                continue
            for d in DERIVES:
                for st in ('s', 'l') if takes else ('s',):
                    for pl, lists in around(attr(n, arg, st), 'Complete'):
                        if not T and (len(out) % 2 and pl not in ('x', 'll')):
                            continue
                        add('lt_%s_%s_%s_%s_%s' % (n, kind, d, st, pl), top_decl(kind, d, lists), '%s is an attribute of fields, not of objects' % n)
        for place in PLACES:
            if lev != 'top':
                continue
            for d in DERIVES:
                for st in ('s', 'l') if takes else ('s',):
                    if n == 'ExtraArgs' and st == 's':
                        continue
                    for pl, lists in around(attr(n, arg, st), 'Complete'):
                        add('lf_%s_%s_%s_%s_%s' % (n, place, d, st, pl), field_decl(place, d, lists), '%s is an attribute of objects, not of fields' % n)

    # 2. missing, unexpected and malformed arguments
    for n, (lev, takes) in DOC.items():
        arg, ty, _ = GOOD[n]
        forms = []
        if takes:
            forms.append(('none', n))
            for k, w in enumerate(WRONG):
                if n in ('PreExec', 'PostExec') and w in ('"1 2"',) or n == 'Selector' and w in ('"let"',):
                    pass
                if n == 'ExtraArgs' or not (w == 'u32' and n == 'Selector'):
                    forms.append(('w%d' % k, '%s = %s' % (n, w)))
            if n in ('AlignAfter', 'AlignBefore', 'Count', 'Cond', 'If', 'ErrorIf', 'Take', 'SkipAfter', 'SkipBefore', 'Move', 'MoveAbs', 'Parse', 'LengthCount', 'Map', 'Verify', 'SetEndian', 'Selector', 'InputName'):
                forms.append(('empty', '%s()' % n))
            if n in ('Count', 'Cond', 'If', 'ErrorIf', 'Take', 'SkipAfter', 'SkipBefore', 'AlignAfter', 'AlignBefore', 'Move', 'MoveAbs'):
                forms.append(('two', '%s(%s, %s)' % (n, arg, arg)))
        else:
            forms += [('s', '%s = "true"' % n), ('l', '%s(false)' % n), ('i', '%s = 1' % n), ('e', '%s()' % n)]
        for lab, f in forms:
            places = [('t', k) for k in TOPS] if lev in ('top', 'all') else []
            places += [('f', k) for k in PLACES[:4]] if lev in ('fields', 'all') else []
            if n == 'Selector':
                places = [('t', 'named'), ('v', '')]
            for lvl, k in places:
                for d in DERIVES if T else [DERIVES[(len(out)) % 3]]:
                    if n in ('BigEndian', 'LittleEndian', 'SetEndian'):
                        if T and d != 'Nom':
                            continue
                        d = 'Nom'
                    if n in ('Debug', 'Verify') and k in ('tuple', 'etup') or n == 'SetEndian' and k == 'fieldless' or n == 'ExtraArgs' and k == 'fieldless':
                        continue
                    if n == 'InputName' and lab in ('w12', 'w11'):
                        pass
                    if lvl == 'v':
                        at = f if n == 'Selector' else ''
                        add('a_%s_%s_v_%s' % (n, lab, d), '#[derive(%s)] #[nom(Selector = "u8")] pub enum T { #[nom(%s)] A, #[nom(Selector = "2")] B { x: u8 } }' % (d, at), 'wrong argument of %s' % n)
                        add('a_%s_%s_e_%s' % (n, lab, d), '#[derive(%s)] #[nom(%s)] pub enum T { #[nom(Selector = "1")] A, #[nom(Selector = "2")] B { x: u8 } }' % (d, at), 'wrong argument of %s' % n)
                        break
                    for pl, lists in around(f, 'Complete') if T or lab in ('none', 's') else [('x', [f])]:
                        text = top_decl(k, d, lists) if lvl == 't' else field_decl(k, d, lists, rt(ty))
                        add('a_%s_%s_%s%s_%s_%s' % (n, lab, lvl, k, d, pl), text, 'wrong argument of %s' % n)

    # 3. names which are not attributes
    names = ['Foo', 'count', 'COUNT', 'Counts', 'Bigendian', 'bigEndian', 'BE', 'LE', 'Little', 'Endian', 'complete', 'Completed', 'parse', 'Parser', 'Skip', 'Align', 'verify', 'cond', 'IfCond', 'Repeat', 'Until', 'Many', 'take', 'tag', 'Exec', 'Error', 'GenericError', 'Generic',
             'selector', 'Length', 'LengthData', 'Move_Abs', 'Moveabs', 'default', 'ignore', 'value', 'map', 'into', 'debug', 'Streaming', 'Args', 'Extra', 'Input', 'U8', 'Option', 'Vec', 'Phantom', 'r#Complete', 'a::Complete', 'nom::Complete']
    for k, n in enumerate(names):
        for lvl, kind in [('t', x) for x in TOPS] + [('f', x) for x in PLACES]:
            if not T and (k + len(kind)) % 2:
                continue
            for fl, f in (('p', n), ('s', '%s = "1"' % n), ('l', '%s(1)' % n)):
                if n in ('r#Complete', 'a::Complete', 'nom::Complete') and fl != 'p':
                    continue
                for pl, lists in list(around(f, 'Complete'))[:3 if T else 1 + k % 3]:
                    d = DERIVES[(k + len(fl)) % 3]
                    if n == 'r#Complete':
                        continue
                    add('n_%s_%s%s_%s_%s' % (re.sub(r'\W', '_', n), lvl, kind, fl, pl), top_decl(kind, d, lists) if lvl == 't' else field_decl(kind, d, lists), '%s is not an attribute' % n)
    # forms of the attribute itself
    for k, f in enumerate(['#[nom]', '#[nom = "Complete"]', '#[nom = 1]', '#[nom(,)]', '#[nom(Complete Complete)]', '#[nom(Complete;)]', '#[nom(1)]', '#[nom("Complete")]', '#[nom(Complete,,)]', '#[nom(+)]', '#[nom((Complete))]', '#[nom(Complete = )]', '#[nom(= "x")]']):
        for kind in TOPS:
            add('f_%d_t%s' % (k, kind), top_decl(kind, 'Nom', []).replace('pub ', f + ' pub ', 1), 'malformed attribute')
        for place in PLACES:
            add('f_%d_f%s' % (k, place), field_decl(place, 'Nom', ['Complete']).replace('#[nom(Complete)]', f), 'malformed attribute')

    # 4. several byte orders
    B, L, S = 'BigEndian', 'LittleEndian', attr('SetEndian', GOOD['SetEndian'][0])
    for kind in TOPS:
        combos = [('bl', 'Nom', [B, L]), ('lb', 'Nom', [L, B]), ('blb', 'Nom', [B, L, B]), ('beL', 'NomBE', [L]), ('leB', 'NomLE', [B]), ('beBL', 'NomBE', [B, L]), ('leLB', 'NomLE', [L, B])]
        if kind != 'fieldless':
            combos += [('bs', 'Nom', [B, S]), ('sb', 'Nom', [S, B]), ('ls', 'Nom', [L, S]), ('sl', 'Nom', [S, L]), ('bls', 'Nom', [B, L, S]), ('sbl', 'Nom', [S, B, L]), ('beS', 'NomBE', [S]), ('leS', 'NomLE', [S])]
        for lab, d, ats in combos:
            for pl, lists in (('one', [', '.join(ats)]), ('each', ats), ('sep', [', Complete, '.join(ats)]), ('pre', ['Complete', ', '.join(ats)]), ('ge', ats + ['GenericErrors'])):
                add('e_%s_%s_%s' % (lab, kind, pl), top_decl(kind, d, lists), 'several byte orders')
    for place in PLACES[:4]:
        for lab, ats in (('bl', [B, L]), ('lb', [L, B]), ('bs', [B, S]), ('sb', [S, B]), ('ls', [L, S]), ('sl', [S, L]), ('bls', [B, L, S]), ('sbl', [S, B, L]), ('blb', [B, L, B])):
            for pl, lists in (('one', [', '.join(ats)]), ('each', ats), ('sep', [', Complete, '.join(ats)]), ('skip', ['SkipBefore(1)', ', '.join(ats)])):
                for d in DERIVES:
                    for ty, pre in (('u16', ''), ('Vec<u16>', 'Count(a), '), ('Option<u16>', 'Cond(a == 1), '), ('Vec<u16>', 'LengthCount(nom::number::streaming::u8), '), ('Option<u16>', ''), ('Vec<u16>', ''), ('[u16; 2]', ''), ('u16', 'Map(|x: u16| x), ')):
                        if not T and (d != 'Nom' or pl not in ('one', 'each')) and ty != 'u16':
                            continue
                        add('ef_%s_%s_%s_%s_%s' % (lab, place, pl, d, re.sub(r'\W+', '_', pre[:4] + ty)), field_decl(place, d, [pre + lists[0]] + lists[1:], ty), 'several byte orders')
    # a unit variant has no byte order, but fields of other variants do: every field is checked
    for d in DERIVES:
        for k in range(5):
            fs = ', '.join(('#[nom(BigEndian, LittleEndian)] ' if j == k else '') + 'pub f%d: u16' % j for j in range(5))
            add('e5_%s_%d' % (d, k), '#[derive(%s)] pub struct T { %s }' % (d, fs), 'several byte orders')
            vs = ', '.join('#[nom(Selector = "%d")] V%d(%su16)' % (j, j, '#[nom(BigEndian, LittleEndian)] ' if j == k else '') for j in range(5))
            add('e5v_%s_%d' % (d, k), '#[derive(%s)] #[nom(Selector = "u8")] pub enum T { %s }' % (d, vs), 'several byte orders')
            fs = ', '.join(('#[nom(Exact)] ' if j == k else '') + 'pub f%d: u16' % j for j in range(5))
            add('l5_%s_%d' % (d, k), '#[derive(%s)] pub struct T { %s }' % (d, fs), 'attribute of objects')
            vs = ', '.join('#[nom(Selector = "%d")] V%d(%su16)' % (j, j, '#[nom(Exact)] ' if j == k else '') for j in range(5))
            add('l5v_%s_%d' % (d, k), '#[derive(%s)] #[nom(Selector = "u8")] pub enum T { %s }' % (d, vs), 'attribute of objects')

    # 5. enums
    for d in DERIVES:
        for t, ats in enumerate(['', '#[nom(Complete)] ', '#[nom(PreExec = "();")] ', '#[nom(GenericErrors)] ', '#[nom(InputName = "zz")] ', '#[nom(ExtraArgs(x: u8))] ']):
            for k, body in enumerate(['A(u16)', 'A { x: u16 }', 'A, B(u8)', 'A(u8), B', '#[nom(Selector = "1")] A(u16), #[nom(Selector = "_")] B', '#[nom(Selector = "1")] A { x: u16 }', 'A = 1, B(u8) = 2', 'A(), B']):
                for rp in ('', '#[repr(u8)] '):
                    if 'A = 1' in body and not rp:
                        continue
                    add('s_%s_%d_%d_%d' % (d, t, k, len(rp)), '#[derive(%s)] %s%spub enum T { %s }' % (d, ats, rp, body), 'enum with fields and without selector')
            # fieldless, without representation
            if 'ExtraArgs' in ats:
                continue
            for k, (rp, body) in enumerate([('', 'A, B'), ('', 'A = 1, B = 2'), ('', 'A'), ('#[repr(C)] ', 'A, B'), ('#[doc = "repr(u8)"] ', 'A, B'), ('', '#[nom(Selector = "1")] A, #[nom(Selector = "2")] B')]):
                add('r_%s_%d_%d' % (d, t, k), '#[derive(%s)] %s%spub enum T { %s }' % (d, ats, rp, body), 'fieldless enum without representation')
            # variant without pattern, at any place
            for n in (1, 2, 3, 4):
                for miss in range(n):
                    for sh in range(3):
                        vs = []
                        for j in range(n):
                            p = '' if j == miss else '#[nom(Selector = "%d")] ' % j
                            if j == miss and sh == 1:
                                p = '#[nom(SkipBefore = "1")] '
                            vs.append(p + 'V%d%s' % (j, ('(u16)', '{ x: u8 }', '')[(j + sh) % 3]))
                        if not T and t and (n + miss + sh) % 3:
                            continue
                        add('p_%s_%d_%d_%d_%d' % (d, t, n, miss, sh), '#[derive(%s)] #[nom(Selector = "u8")] %spub enum T { %s }' % (d, ats, ', '.join(vs)), 'variant without pattern')
        # unions
        for t, ats in enumerate(['', '#[nom(Complete)] ', '#[nom(Selector = "u8")] ', '#[repr(C)] ', '#[nom(Exact)] ']):
            for k, body in enumerate(['a: u8', 'a: u8, b: u16', 'a: [u8; 2]']):
                add('u_%s_%d_%d' % (d, t, k), '#[derive(%s)] %spub union T { %s }' % (d, ats, body), 'unions have no parser')

    # 6. attributes for fields of other types
    for lab, attrs_, want, tys in (
            ('cond', ['Cond = "a == 1"', 'Cond(a == 1)', 'If = "a == 1"', 'If(true)'], 'Option', ['u16', 'Vec<u16>', '[u16; 2]', 'Which', 'Tup<u8, u16>', 'String', 'Optional<u16>', 'Result<u16, ()>', 'Box<Option<u16>>', 'OnlyBE16', 'PhantomData<u8>', 'Vec<Option<u16>>']),
            ('count', ['Count = "2"', 'Count(a)', 'Count = "a as usize"'], 'Vec', ['u16', 'Option<u16>', '[u16; 2]', 'Which', 'Tup<u8, u16>', 'String', "&'a [u8]", 'Box<u8>', 'VecX<u16>', 'OnlyBE16', 'PhantomData<u8>', 'Option<Vec<u16>>', 'Box<Vec<u16>>']),
            ('lcount', ['LengthCount = "nom::number::streaming::u8"', 'LengthCount(nom::number::streaming::u8)'], 'Vec', ['u16', 'Option<u16>', '[u16; 2]', 'Which', 'Tup<u8, u16>', 'String', "&'a [u8]", 'Box<u8>', 'VecX<u16>', 'OnlyBE16', 'PhantomData<u8>', 'Option<Vec<u16>>'])):
        for at, ty, place in itertools.product(attrs_, tys, PLACES[:4]):
            for comp in ('', 'Complete', 'SkipBefore(1)', 'Map(|x| x)', 'Into', 'BigEndian'):
                if comp in ('Map(|x| x)', 'Into') and not T:
                    continue
                for after in ('', 'Parse = "nom::number::streaming::be_u16"', 'Complete'):
                    if not T and comp and after:
                        continue
                    l = ', '.join(x for x in (comp, at, after) if x)
                    add('t_%s_%d_%s_%s_%s_%s' % (lab, attrs_.index(at), re.sub(r'\W+', '_', ty), place, comp[:3], after[:3]), 'type Optional<T> = Option<T>; type VecX<T> = Vec<T>; ' + field_decl(place, 'Nom', [l], ty), 'field must be of type %s' % want)
        # inside of others
        inner = {'cond': ['Vec<u16>', 'Vec<Vec<u16>>'], 'count': ['Option<u16>', 'Vec<u16>', 'Vec<Option<Vec<u16>>>', 'Option<Option<Vec<u8>>>'], 'lcount': ['Option<u16>', 'Vec<u16>', 'Option<Option<Vec<u8>>>']}[lab]
        for at, ty, place in itertools.product(attrs_, inner, PLACES[:4]):
            outer = 'Cond(a == 1)' if ty.startswith('Option') else 'Count(2)'
            add('ti_%s_%d_%s_%s' % (lab, attrs_.index(at), re.sub(r'\W+', '_', ty), place), field_decl(place, 'Nom', ['%s, %s' % (outer, at)], ty), 'items must be of type %s' % want)
            add('tj_%s_%d_%s_%s' % (lab, attrs_.index(at), re.sub(r'\W+', '_', ty), place), field_decl(place, 'Nom', [outer, at], ty), 'items must be of type %s' % want)
    # conditions which are not conditions, sizes which are not sizes, values of another type
    for place in PLACES[:4]:
        for k, (at, ty) in enumerate([('Cond = "1"', 'Option<u16>'), ('If = "a"', 'Option<u16>'), ('Cond = "Some(1)"', 'Option<u16>'), ('ErrorIf = "1"', 'u16'), ('ErrorIf = "a"', 'u16'), ('ErrorIf = "\\"x\\""', 'u16'), ('Count = "\\"1\\""', 'Vec<u8>'), ('Count = "b\\"1\\""', 'Vec<u8>'), ('Count = "Some(1)"', 'Vec<u8>'),
                                      ('Take = "Some(1)"', "&'a [u8]"), ('SkipBefore = "Some(1)"', 'u8'), ('SkipAfter = "[1]"', 'u8'), ('AlignBefore = "(1, 2)"', 'u8'), ('AlignAfter = "Some(4)"', 'u8'), ('Move = "Some(1)"', 'u8'), ('MoveAbs = "\\"1\\""', 'u8'), ('Tag = "1"', "&'a [u8]"), ('Tag = "b\\"x\\""', 'u16'),
                                      ('Value = "\\"1\\""', 'u16'), ('Value = "1u8"', 'u16'), ('Value = "Some(1)"', 'u16'), ('Take = "2"', 'u16'), ('Take = "2"', 'Vec<u8>'), ('Parse = "nom::number::streaming::be_u32"', 'u16'), ('Parse = "1"', 'u16'), ('Parse = "nosuch"', 'u16'), ('Map = "1"', 'u16'), ('Map = "|x: u8| x as u16"', 'u16'), ('Map = "|x: u16| x as u8"', 'u16'), ('SetEndian = "1"', 'u16'), ('SetEndian = "true"', 'u16'),
                                      ('LengthCount = "1"', 'Vec<u8>'), ('LengthCount = "nom::bytes::streaming::take(2usize)"', 'Vec<u8>'), ('Verify = "1"', 'u16'), ('Verify = "bb"', 'u16'), ('Verify = "Some(bb)"', 'u16'), ('PreExec = "let x: u8 = true;"', 'u8'), ('PostExec = "nosuch();"', 'u8')]):
            if 'Verify' in at and place in ('tuple', 'etup'):
                continue
            for d in DERIVES if T else ['Nom']:
                if 'SetEndian' in at and d != 'Nom' and False:
                    continue
                add('v_%d_%s_%s' % (k, place, d), field_decl(place, d, [at], ty), 'argument of another type')
    # 7. types without parser
    for place in PLACES[:4]:
        for k, ty in enumerate(['usize', 'isize', 'bool', 'char', "&'a [u8]", "&'a str", 'NoP', 'Option<NoP>', 'Vec<bool>', '[usize; 2]', 'Box<u8>', '()', 'fn()', "&'a u8", 'Option<bool>', 'VecDeque<u8>', 'Tup<u8, bool>', 'Tup<NoP, u8>']):
            for d in DERIVES if T else ['Nom']:
                for l in ('', 'Complete', 'BigEndian', 'SkipBefore(1)', 'Into') if ty not in ('()', 'fn()') else ('',):
                    add('y_%d_%s_%s_%s' % (k, place, d, l[:3]), 'use std::collections::VecDeque; pub struct NoP; ' + field_decl(place, d, [l] if l else [], ty), 'type without parser')
    # 8. values which are not known (yet)
    for d in DERIVES:
        for k, at in enumerate(['Count(zz)', 'Count(ww)', 'Count(cc)']):
            add('w_%s_%d' % (d, k), '#[derive(%s)] pub struct T { pub a: u8, #[nom(%s)] pub cc: Vec<u8>, pub zz: u8 }' % (d, at), 'value of a field which is not parsed yet')
            add('wt_%s_%d' % (d, k), '#[derive(%s)] pub struct T(pub u8, #[nom(%s)] pub Vec<u8>, pub u8);' % (d, at.replace('zz', '_2').replace('cc', '_1')), 'value of a field which is not parsed yet')
            add('we_%s_%d' % (d, k), '#[derive(%s)] #[nom(Selector = "u8")] pub enum T { #[nom(Selector = "1")] A { zz: u8, ww: u8 }, #[nom(Selector = "2")] B { a: u8, #[nom(%s)] cc: Vec<u8> } }' % (d, at), 'value of a field of another variant')
        for k, at in enumerate(['Count(selector)', 'ErrorIf(selector == 1)', 'SkipBefore(extra)', 'PreExec(let q = extra;)']):
            add('ws_%s_%d' % (d, k), '#[derive(%s)] pub struct T { pub a: u8, #[nom(%s)] pub cc: Vec<u8> }' % (d, at), 'no such argument')
        add('wp_%s' % d, '#[derive(%s)] pub struct T { #[nom(PreExec = "let q = 1;")] pub a: u8 } #[derive(%s)] pub struct U { pub t: T, #[nom(Count = "q")] pub v: Vec<u8> }' % (d, d), 'variable of another object')
    # 9. calls
    E = '#[derive({d})] #[nom(Selector = "u8")] pub enum E {{ #[nom(Selector = "1")] A(u16), #[nom(Selector = "_")] B }} #[derive({d})] #[nom(ExtraArgs(x: u8, y: u16))] pub struct S {{ #[nom(Value(x))] pub a: u8, #[nom(Value(y))] pub b: u16 }} '
    E += '#[derive({d})] #[nom(Selector = "u8", ExtraArgs(x: u16))] pub enum F {{ #[nom(Selector = "1")] A(#[nom(Value(x))] u16), #[nom(Selector = "_")] B }} #[derive({d})] pub struct P {{ pub a: u8 }} type R<\'a, T> = nom::IResult<&\'a [u8], T>; '
    for d in DERIVES:
        for f in ('parse', 'parse_be', 'parse_le'):
            for k, call in enumerate(['E::{f}(i)', 'E::{f}(i, 1u16)', 'E::{f}(i, 1, 2)', 'S::{f}(i)', 'S::{f}(i, 1)', 'S::{f}(i, 1u16, 2u16)', 'S::{f}(i, 2u16, 1u8)', 'S::{f}(i, 1, 2, 3)', 'F::{f}(i, 1)', 'F::{f}(i, 1u16, 1u8)', 'F::{f}(i, 1u16)', 'P::{f}(i, 1)', 'P::{f}()', 'S::{f}(1, 2, i)', 'E::{f}(1, i)']):
                add('c_%s_%s_%d' % (d, f, k), E.format(d=d) + 'pub fn g(i: &[u8]) { let _: R<%s> = %s; }' % (call[0], call.format(f=f)), 'wrong arguments')
        for k, ob in enumerate(['E', 'S', 'F']):
            for w in ('%s', 'Option<%s>', 'Vec<%s>', '[%s; 2]'):
                add('cn_%s_%d_%s' % (d, k, re.sub(r'\W+', '_', w)), E.format(d=d) + '#[derive(%s)] pub struct T { pub a: u8, pub e: %s }' % (d, w % ob), 'an object with arguments cannot be parsed without them')
            add('ct_%s_%d' % (d, k), E.format(d=d) + "pub fn g<'a, T: Parse<&'a [u8], nom::error::Error<&'a [u8]>>>() {} pub fn h() { g::<%s>() }" % ob, 'an object with arguments does not implement Parse')
    # 10. results cannot outlive the input, errors are those which were asked for
    for d in DERIVES:
        for k, fld in enumerate(["#[nom(Take(2))] pub a: &'a [u8]", "#[nom(Tag(b\"x\"))] pub a: &'a [u8]", "#[nom(Parse = \"nom::bytes::streaming::take(1usize)\")] pub a: &'a [u8]", "#[nom(Count(2), Take(1))] pub a: Vec<&'a [u8]>", "#[nom(Cond(true), Take(1))] pub a: Option<&'a [u8]>"]):
            for f in ('parse', 'parse_be', 'parse_le'):
                add('b_%s_%d_%s' % (d, k, f), "#[derive(%s)] pub struct T<'a> { %s } pub fn g() -> Option<T<'static>> { let v = vec![0u8; 4]; let r: nom::IResult<_, T> = T::%s(&v[..]); r.ok().map(|x| x.1) }" % (d, fld, f), 'the result borrows from the input')
        for f in ('parse', 'parse_be', 'parse_le'):
            add('br_%s_%s' % (d, f), "#[derive(%s)] pub struct T { pub a: u8 } pub fn g() -> &'static [u8] { let v = vec![0u8; 4]; let r: nom::IResult<_, T> = T::%s(&v[..]); r.unwrap().0 }" % (d, f), 'the remainder borrows from the input')
            add('ge_%s_%s' % (d, f), "#[derive(%s)] pub struct T { pub a: u8 } pub fn g(i: &[u8]) -> nom::IResult<&[u8], T, MyErr> { T::%s(i) }" % (d, f), 'the error type is not generic')
    for d in out:
        d.name = d.name.lower() if False else d.name
    return out


def accepted(tier):
    """twins of the rejected declarations: the smallest changes which make them correct"""
    T = tier == THOROUGH
    out = []

    def add(name, text, why):
        out.append(Decl('y_' + name, text, why))

    for n, (lev, takes) in DOC.items():
        arg, ty, _ = GOOD[n]
        for st in ('s', 'l') if takes else ('s',):
            if n == 'ExtraArgs' and st == 's':
                continue
            f = attr(n, arg, st)
            for d in DERIVES:
                if n in ('BigEndian', 'LittleEndian', 'SetEndian') and d != 'Nom':
                    continue
                if lev in ('top', 'all') and n != 'Selector':
                    for kind in TOPS:
                        if n == 'SetEndian' and kind == 'fieldless' or n == 'ExtraArgs' and kind == 'fieldless' or n == 'Debug' and kind == 'tuple' or n == 'DebugDerive' and not T:
                            continue
                        for pl, lists in around(f, 'Complete'):
                            text = top_decl(kind, d, lists)
                            if n == 'Debug' and kind == 'enum':
                                text = text.replace('A(u16)', 'A { x: u16 }')
                            add('t_%s_%s_%s_%s_%s' % (n, kind, d, st, pl), text, '%s on an object' % n)
                if lev in ('fields', 'all') and n != 'Selector':
                    for place in PLACES[:4]:
                        if n in ('Debug', 'Verify') and place in ('tuple', 'etup'):
                            continue
                        for pl, lists in around(f, 'Complete'):
                            add('f_%s_%s_%s_%s_%s' % (n, place, d, st, pl), field_decl(place, d, lists, rt(ty)), '%s on a field' % n)
    # byte orders: on the object, and another one on the field
    for place in PLACES[:4]:
        for d in DERIVES:
            for a1 in ('', 'BigEndian', 'LittleEndian', 'SetEndian'):
                for a2 in ('', 'BigEndian', 'LittleEndian', 'SetEndian'):
                    if a1 and (d, a1) not in (('Nom', 'BigEndian'), ('Nom', 'LittleEndian'), ('Nom', 'SetEndian'), ('NomBE', 'BigEndian'), ('NomLE', 'LittleEndian')):
                        continue
                    se = attr('SetEndian', GOOD['SetEndian'][0])
                    add('e_%s_%s_%s_%s' % (place, d, a1[:3], a2[:3]), field_decl(place, d, [a2 if a2 != 'SetEndian' else se] if a2 else [], head='#[nom(%s)] ' % (a1 if a1 != 'SetEndian' else se) if a1 else ''), 'a byte order for the object and another for the field')
    # twice the same
    for kind in TOPS:
        for lab, d, l in (('bb', 'Nom', ['BigEndian, BigEndian']), ('ll', 'Nom', ['LittleEndian', 'LittleEndian']), ('beb', 'NomBE', ['BigEndian']), ('lel', 'NomLE', ['LittleEndian'])):
            add('d_%s_%s' % (kind, lab), top_decl(kind, d, l), 'the same byte order twice')
    # forms of the attribute
    for k, f in enumerate(['', '#[nom()]', '#[nom(Complete)]', '#[nom(Complete,)]', '#[nom(Complete)] #[nom()]', '#[doc = "x"] #[nom(Complete)]', '#[nom(Complete)] #[allow(dead_code)]', '/// x\n#[nom(Complete)] // x\n', '#[nom[Complete]]', '#[nom{Complete}]', '#[cfg_attr(all(), nom(Complete))]']):
        for kind in TOPS:
            add('g_%d_t%s' % (k, kind), top_decl(kind, 'Nom', []).replace('pub ', f + ' pub ', 1), 'form of attribute')
        for place in PLACES:
            add('g_%d_f%s' % (k, place), field_decl(place, 'Nom', ['Complete']).replace('#[nom(Complete)]', f), 'form of attribute')
    # enums
    for d in DERIVES:
        for r in ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64'):
            for k, body in enumerate(['A', 'A, B', 'A = 1, B = 2', 'A = 3, B']):
                add('r_%s_%s_%d' % (d, r, k), '#[derive(%s)] #[repr(%s)] pub enum T { %s }' % (d, r, body), 'fieldless enum')
        for n in (1, 2, 3, 4):
            for sh in range(3):
                vs = ['#[nom(Selector = "%d")] V%d%s' % (j, j, ('(u16)', '{ x: u8 }', '')[(j + sh) % 3]) for j in range(n)]
                add('p_%s_%d_%d' % (d, n, sh), '#[derive(%s)] #[nom(Selector = "u8")] pub enum T { %s }' % (d, ', '.join(vs)), 'enum with selector')
        # a selector of any type
        for k, (ty, ps) in enumerate([('u8', ['1', '_']), ('u64', ['1 ..= 3', '4 | 5', '_']), ('i32', ['-1', '_']), ('&str', ['\\"a\\"', '_']), ("&'static str", ['\\"a\\"', '_']), ('(u8, u8)', ['(1, _)', '_']), ('bool', ['true', 'false']), ('Option<u8>', ['Some(1)', 'None']), ('char', ["'a'", '_']), ('&[u8]', ['[1, ..]', '[]', '_']), ('Which', ['Which(1, _)', '_']), ('[u8; 2]', ['[1, _]', '_']),
                                    ('&Option<u8>', ['Some(x) if *x > 3', '_'])]):
            vs = ', '.join('#[nom(Selector = "%s")] V%d%s' % (p, j, ('(u16)', '{ x: u8 }', '')[j % 3]) for j, p in enumerate(ps))
            add('sel_%s_%d' % (d, k), '#[derive(%s)] #[nom(Selector = "%s")] pub enum T { %s }' % (d, ty, vs), 'selector of type %s' % ty)
    # types of fields
    for lab, at, tys in (('cond', ['Cond = "a == 1"', 'If(a == 1)'], ['Option<u16>', 'Option<Vec<u16>>', 'Option<Option<u8>>', 'Option<[u8; 2]>', 'Option<Which>', 'Option<Tup<u8, u16>>']), ('count', ['Count = "2"', 'Count(a)'], ['Vec<u16>', 'Vec<Option<u16>>', 'Vec<Vec<u16>>', 'Vec<[u8; 2]>', 'Vec<Which>', 'Vec<Tup<u8, u16>>', 'Vec<String>']),
                         ('lcount', ['LengthCount = "nom::number::streaming::u8"'], ['Vec<u16>', 'Vec<Option<u16>>', 'Vec<[u8; 2]>'])):
        for a, ty, place in itertools.product(at, tys, PLACES[:4]):
            for comp in ('', 'Complete', 'SkipBefore(1)', 'BigEndian'):
                add('t_%s_%d_%s_%s_%s' % (lab, at.index(a), re.sub(r'\W+', '_', ty), place, comp[:4]), field_decl(place, 'Nom', [', '.join(x for x in (comp, a) if x)], ty), 'field of the right type')
    for place in PLACES[:4]:
        for k, (l, ty) in enumerate([('Count(2), Cond(a == 1)', 'Vec<Option<u16>>'), ('Cond(a == 1), Count(2)', 'Option<Vec<u16>>'), ('Count(1), Count(2)', 'Vec<Vec<u16>>'), ('Cond(true), Cond(false)', 'Option<Option<u8>>'), ('Count(a), LengthCount = "nom::number::streaming::u8"', 'Vec<Vec<u8>>'), ('Count(1), Count(1), Count(1)', 'Vec<Vec<Vec<u8>>>')]):
            add('n_%d_%s' % (k, place), field_decl(place, 'Nom', [l], ty), 'attributes of items')
        for k, ty in enumerate(['u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128', 'f32', 'f64', 'String', 'Option<u8>', 'Vec<u8>', '[u8; 3]', '[[u8; 2]; 2]', 'Option<Vec<u8>>', 'Vec<Option<u8>>', 'PhantomData<u8>', 'Which', 'Tup<u8, u16>', 'Option<String>', 'LengthDataU8<\'static>']):
            if 'LengthData' in ty:
                continue
            for d in DERIVES:
                add('y_%d_%s_%s' % (k, place, d), field_decl(place, d, [], ty), 'type with a parser')
    # calls
    E = '#[derive({d})] #[nom(Selector = "u8")] pub enum E {{ #[nom(Selector = "1")] A(u16), #[nom(Selector = "_")] B }} #[derive({d})] #[nom(ExtraArgs(x: u8, y: u16))] pub struct S {{ #[nom(Value(x))] pub a: u8, #[nom(Value(y))] pub b: u16 }} '
    E += '#[derive({d})] #[nom(Selector = "u8", ExtraArgs(x: u16))] pub enum F {{ #[nom(Selector = "1")] A(#[nom(Value(x))] u16), #[nom(Selector = "_")] B }} #[derive({d})] pub struct P {{ pub a: u8 }} type R<\'a, T> = nom::IResult<&\'a [u8], T>; '
    for d in DERIVES:
        for f in ('parse', 'parse_be', 'parse_le'):
            for k, call in enumerate(['E::{f}(i, 1)', 'E::{f}(i, 1u8)', 'S::{f}(i, 1, 2)', 'S::{f}(i, 1u8, 2u16)', 'F::{f}(i, 1, 2)', 'F::{f}(i, 1u8, 1u16)', 'P::{f}(i)']):
                add('c_%s_%s_%d' % (d, f, k), E.format(d=d) + 'pub fn g(i: &[u8]) { let _: R<%s> = %s; }' % (call[0], call.format(f=f)), 'arguments')
            for k, fld in enumerate(["#[nom(Take(2))] pub a: &'a [u8]", "#[nom(Tag(b\"x\"))] pub a: &'a [u8]", "#[nom(Parse = \"nom::bytes::streaming::take(1usize)\")] pub a: &'a [u8]", "#[nom(Count(2), Take(1))] pub a: Vec<&'a [u8]>", "#[nom(Cond(true), Take(1))] pub a: Option<&'a [u8]>"]):
                add('b_%s_%d_%s' % (d, k, f), "#[derive(%s)] pub struct T<'a> { %s } pub fn g(v: &[u8]) -> Option<T> { let r: nom::IResult<_, T> = T::%s(v); r.ok().map(|x| x.1) }" % (d, fld, f), 'the result borrows from the input')
            add('br_%s_%s' % (d, f), "#[derive(%s)] pub struct T { pub a: u8 } pub fn g(v: &[u8]) -> &[u8] { let r: nom::IResult<_, T> = T::%s(v); r.unwrap().0 } pub fn h() -> T { let v = vec![0u8; 4]; let r: nom::IResult<_, T> = T::%s(&v[..]); r.unwrap().1 }" % (d, f, f), 'the remainder borrows from the input')
            add('ge_%s_%s' % (d, f), "#[derive(%s)] #[nom(GenericErrors)] pub struct T { pub a: u8 } pub fn g(i: &[u8]) -> nom::IResult<&[u8], T, MyErr> { T::%s(i) } pub fn h(i: &[u8]) -> nom::IResult<&[u8], T, ()> { T::%s(i) }" % (d, f, f), 'the error type is generic')
            add('pt_%s_%s' % (d, f), E.format(d=d) + "pub fn g<'a, T: Parse<&'a [u8], nom::error::Error<&'a [u8]>>>(i: &'a [u8]) { let _ = T::%s(i); } pub fn h(i: &[u8]) { g::<P>(i) } #[derive(%s)] pub struct Q { pub p: P, pub o: Option<P>, pub v: Vec<P> }" % (f, d), 'derived objects implement Parse')
    return out


def explored(tier):
    """every documented attribute at every place it is documented for, with the behaviour which is documented"""
    T = tier == THOROUGH
    out = []
    for n, (lev, takes) in DOC.items():
        arg, ty, sx = GOOD[n]
        for st in ('s', 'l') if takes else ('s',):
            if lev in ('fields', 'all') and sx:
                for place, d in itertools.product(PLACES[:4], DERIVES):
                    if n in ('Debug', 'Verify') and place in ('tuple', 'etup'):
                        continue
                    at = A(n, arg, sx, st)
                    for pl, l, split in (('x', [at], None), ('f', [at, COMPLETE], None), ('l', [COMPLETE, at], None), ('ff', [at, COMPLETE], [1, 1]), ('ll', [COMPLETE, at], [1, 1]), ('sb', [SKIPB(1), at], None), ('sa', [at, SKIPA(1)], [1, 1])):
                        fs = [F('a', 'u8'), F('bb', ty, *l, split=split) if split else F('bb', ty, *l), F('cc', 'u8')]
                        k = dict(derive=d)
                        kn = [(0, 1)] if n == 'SetEndian' or place[0] == 'e' else []
                        if place in ('named', 'tuple'):
                            o, args = Struct('T', fs, kind=place, **k), None
                        else:
                            o, args = Enum('T', [Var('A', 1, fs, kind='named' if place == 'evar' else 'tuple'), Var('B', '_', None)], **k), [E('engine::kn(0) as u8', '(k 0)')]
                        inp = [rng(0, 2), fill(7)] if n not in ('Tag', 'LengthCount') else [rng(0, 2), alt(b'\1\2', b'\1\3', b'\0\1', b'\2\2'), fill(5)]
                        out.append(Prog('f_%s_%s_%s_%s_%s' % (n, place, d, st, pl), [o], args=args, knobs=kn, inp=inp, reach=[]))
            if lev in ('top', 'all') and n != 'Selector':
                if n == 'ExtraArgs' and st == 's':
                    continue
                for kind, d in itertools.product(TOPS, DERIVES):
                    if n == 'SetEndian' and (kind == 'fieldless' or d != 'Nom') or n == 'ExtraArgs' and kind == 'fieldless' or n == 'Debug' and kind in ('tuple', 'enum') or n == 'DebugDerive' or n in ('BigEndian', 'LittleEndian') and d != 'Nom':
                        continue
                    for pl in ('x', 'f', 'l'):
                        k = dict(derive=d)
                        top = []
                        if n in ('BigEndian', 'LittleEndian'):
                            k['end'] = n[0].lower() + 'e'
                        elif n == 'Complete':
                            k['complete'] = True
                        elif n == 'Debug':
                            k['debug'] = True
                        elif n == 'GenericErrors':
                            k['generr'] = True
                        elif n == 'InputName':
                            k['input'], k['inputstyle'] = 'zz', st
                        elif n == 'ExtraArgs':
                            k['args'] = [('xa', 'u8')]
                        else:
                            top = [A(n, arg, sx, st)]
                        if pl != 'x' and n != 'Complete':
                            k['complete'] = True
                        if pl == 'l':
                            k['topsplit'] = 'each'
                        kn = [(0, 1)]
                        args = None
                        ev = V('ev', 'u8', 'xa', 'xa') if n == 'ExtraArgs' else F('ev', 'u8')
                        if kind in ('named', 'tuple'):
                            o = Struct('T', [F('a', 'u16'), ev], kind=kind, top=top, **k)
                        elif kind == 'unit':
                            o = Struct('T', [], kind='unit', top=top, **k)
                        elif kind == 'enum':
                            o, args = Enum('T', [Var('A', 1, [F('a', 'u16'), ev], kind='tuple'), Var('B', '_', None)], top=top, **k), [E('engine::kn(0) as u8', '(k 0)')]
                        else:
                            o = Fieldless('T', 'u16', [('A', '1', 1), ('B', None, 2), ('C', '0x100', 256)], top=top, **k)
                        if n == 'ExtraArgs':
                            args = (args or []) + [9]
                        out.append(Prog('t_%s_%s_%s_%s_%s' % (n, kind, d, st, pl), [o], args=args, knobs=kn, err=MYERR if n == 'GenericErrors' else None, inp=[alt(b'\0\1', b'\1\0', b'\0\2', b'\3\3'), fill(3)], reach=[]))
    return out
