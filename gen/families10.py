"""Program families: C26 (places of errors)."""
import itertools, re
from dsl import *
from families import *
import families, families2, families3, families4, families7, families8, families9
from families3 import opt_kids
from families2 import DIRS

THOROUGH = families.THOROUGH
FAMS = {p: getattr(m, p) for m in (families, families2, families3, families4, families7, families8, families9) for p in dir(m) if p[0] == 'C' and p[1:].isdigit()}


class Placed:
    """a program of another family, looking at the places of its errors"""
    def __init__(self, prog, pre=''):
        self.p = prog
        prog.name = pre + prog.name
        prog.flags = [f for f in prog.flags if f not in ('dbg',)] + ['epos']
        prog.reach = []
        if prog.err == MYERR:
            prog.err = 'PosErr'
        self.name, self.note = prog.name, prog.note

    def rs(self):
        return self.p.rs()

    def sx(self):
        return self.p.sx()


def fits(p):
    # (nom's `complete` passes on to the parts of nom's combinators: where they fail is up to nom)
    if 'Complete' in p.rs() and re.search(r'nom::(multi|sequence|combinator|branch)::', p.rs()):
        return False
    if getattr(p, 'err', None) == MYERR:
        # (some programs name their error type themselves)
        return p.rs().count(MYERR) == p.rs().count('fin::<_, %s>' % MYERR) + p.rs().count('finw::<_, %s>' % MYERR)
    return getattr(p, 'err', None) in (None, '(&[u8], nom::error::ErrorKind)', 'nom::error::Error<%s>', '(%s, nom::error::ErrorKind)') and MYERR not in p.rs()


def sample(fam, n):
    l = [p for p in FAMS[fam](QUICK) if hasattr(p, 'flags') and fits(p)]
    if n and len(l) > n:
        l = [l[(k * len(l)) // n] for k in range(n)]
    return [Placed(p, fam.lower() + '_') for p in l]


#: programs of each family
N = dict(C01=40, C02=60, C03=100, C04=150, C05=350, C06=350, C07=150, C08=150, C09=350, C10=250, C11=200, C12=300, C13=100, C14=200,
         C15=100, C16=50, C17=60, C20=80, C21=80, C22=80, C23=200, C24=150, C25=350)


def faults():
    """(label, fields, input, objects): fields which fail in one way, or succeed"""
    bad = Struct('N', [F('x', 'u8', VERIFY('x != 2', 'x')), F('y', 'u16')])
    sel = Enum('E', [Var('A', 1, [F('x', 'u16')]), Var('B', 2, [F('x', 'u8', ERRIF('x0 == 1'))] if False else [F('x', 'u8'), F('y', 'u8', ERRIF('x == 1'))], kind='named'), Var('C', 3, None, attrs=[SKIPB(2), PARSE(p_int('u16', 'be'))])])
    fl = Fieldless('FL', 'u16', [('A', None, 0), ('B', None, 1), ('C', '256', 256)])
    o = [
        ('u16', [F('fa', 'u16', COMPLETE)], [fill(2)], []),
        ('verify', [F('fa', 'u16', VERIFY('fa != 258', 'fa'))], [alt(b'\1\2', b'\2\1')], []),
        ('cverify', [F('fa', 'u16', COMPLETE, VERIFY('fa != 258', 'fa'))], [alt(b'\1\2', b'\2\1')], []),
        ('tag', [F('fa', 'slice', TAG(b'\1\2'))], [alt(b'\1\2', b'\1\3', b'\0\2')], []),
        ('ctag', [F('fa', 'slice', COMPLETE, TAG(b'\1\2'))], [alt(b'\1\2', b'\1\3', b'\0\2')], []),
        ('take', [F('fa', 'u8'), F('fb', 'slice', COMPLETE, TAKE('fa'))], [rng(0, 4), fill(3)], []),
        ('errif', [F('fa', 'u8'), F('fb', 'u16', ERRIF('fa == 1'))], [rng(0, 2), fill(2)], []),
        ('skipb', [F('fa', 'u8', COMPLETE, SKIPB(2)), F('fb', 'u8', SKIPB('fa'))], [fill(2), rng(0, 3), fill(3)], []),
        ('skipa', [F('fa', 'u8', SKIPA(2)), F('fb', 'u16', SKIPA('fa'))], [rng(0, 2), fill(5)], []),
        ('alignb', [F('fa', 'u8'), F('fb', 'u8', ALIGNB('fa'))], [alt(b'\0', b'\1', b'\4'), fill(4)], []),
        ('aligna', [F('fa', 'u8', ALIGNA('fa')), F('fb', 'u8')], [alt(b'\0', b'\1', b'\4'), fill(4)], []),
        ('move', [F('fa', 'u8'), F('fb', 'u16'), F('fc', 'u8', MOVE('fa - 6'))], [alt(b'\0', b'\2', b'\3', b'\6', b'\x0f'), fill(4)], []),
        ('moveabs', [F('fa', 'u8'), F('fb', 'u16'), F('fc', 'u8', MOVEABS('fa - 1'))], [alt(b'\0', b'\1', b'\3', b'\x0f'), fill(4)], []),
        ('str', [F('fa', 'str')], [alt(b'\0\0\0\0', b'\0\0\0\2\xc3\xa9', b'\0\0\0\2\xc3\x28')], []),
        ('cstr', [F('fa', 'str', COMPLETE)], [alt(b'\0\0\0\0', b'\0\0\0\2\xc3\xa9', b'\0\0\0\2\xc3\x28')], []),
        ('arr', [F('fa', ('arr', 'u16', 3))], [fill(6)], []),
        ('arrarr', [F('fa', ('arr', ('arr', 'u16', 2), 2))], [fill(8)], []),
        ('arrn', [F('fa', ('arr', ('obj', 'N'), 2))], [alt(b'\1', b'\2'), fill(2)] * 2, [bad]),
        ('arr0', [F('fa', ('arr', ('opt', 'u16'), 2))], [fill(4)], []),
        ('tup', [F('fa', ('tup', 'u16', ('tup', ('obj', 'N'), 'u8')))], [fill(2), alt(b'\1', b'\2'), fill(3)], [bad]),
        ('ctup', [F('fa', ('tup', 'u16', ('tup', ('obj', 'N'), 'u8')), COMPLETE)], [fill(2), alt(b'\1', b'\2'), fill(3)], [bad]),
        ('cnt', [F('fa', ('vec', 'u16'), COMPLETE, COUNT(3))], [fill(6)], []),
        ('cntc', [F('fa', ('vec', 'u16'), COUNT(3), COMPLETE)], [fill(6)], []),
        ('cntn', [F('fa', ('vec', ('obj', 'N')), COUNT(2))], [alt(b'\1', b'\2'), fill(2)] * 2, [bad]),
        ('ccntn', [F('fa', ('vec', ('obj', 'N')), COMPLETE, COUNT(2))], [alt(b'\1', b'\2'), fill(2)] * 2, [bad]),
        ('cc', [F('fa', ('vec', ('vec', ('obj', 'N'))), COUNT(2), LCOUNT(cnt8()), COMPLETE)], [rng(0, 1), alt(b'\1', b'\2'), fill(2)] * 2, [bad]),
        ('lc', [F('fa', ('vec', ('obj', 'N')), LCOUNT(cnt8()))], [rng(0, 2)] + [alt(b'\1', b'\2'), fill(2)] * 2, [bad]),
        ('clc', [F('fa', ('vec', ('obj', 'N')), COMPLETE, LCOUNT(cnt8()))], [rng(0, 2)] + [alt(b'\1', b'\2'), fill(2)] * 2, [bad]),
        ('cond', [F('fa', 'u8'), F('fb', ('opt', ('obj', 'N')), COND('fa == 1')), F('fc', ('opt', 'u16'), COMPLETE, COND('fa != 1'))], [rng(0, 1), alt(b'\1', b'\2'), fill(3)], [bad]),
        ('opt', [F('fa', ('opt', ('obj', 'N'))), F('fb', 'u16', COMPLETE)], [alt(b'\1', b'\2'), fill(4)], [bad]),
        ('opterr', [F('fa', ('opt', ('obj', 'N'))), F('fb', 'u8', VERIFY('fb != 2', 'fb'))], [alt(b'\1', b'\2'), fill(2), alt(b'\1', b'\2')], [bad]),
        ('vec', [F('fa', ('vec', ('obj', 'N'))), F('fb', 'u16', COMPLETE)], [alt(b'\1', b'\2'), fill(2), alt(b'\1', b'\2'), fill(3)], [bad]),
        ('vec0', [F('fa', 'u8'), F('fb', ('vec', ('tup', ('opt', 'u16'), ('opt', 'u8'))))], [fill(4)], []),
        ('nest', [F('fa', ('obj', 'N')), F('fb', ('obj', 'N'), COMPLETE)], [alt(b'\1', b'\2'), fill(2)] * 2, [bad]),
        ('nestc', [F('fa', ('obj', 'M'))], [fill(1), alt(b'\1', b'\2'), fill(3)], [bad, Struct('M', [F('m', 'u8'), F('n', ('obj', 'N')), F('o', 'u8')], complete=True)]),
        ('exact', [F('fa', 'u8'), F('fb', ('opt', ('obj', 'X'))), F('fc', ('obj', 'X'))], [fill(3)], [Struct('X', [F('x', 'u16')], top=[EXACT])]),
        ('fl', [F('fa', ('obj', 'FL'))], [alt(b'\0\0', b'\0\1', b'\1\0', b'\2\2')], [fl]),
        ('cfl', [F('fa', ('obj', 'FL'), COMPLETE)], [alt(b'\0\0', b'\0\1', b'\1\0', b'\2\2')], [fl]),
        ('en', [F('fa', 'u8'), F('fb', ('obj', 'E'), PARSE(p_obj('E', 'be', 'fa')))], [rng(0, 4), alt(b'\1', b'\2'), fill(4)], [sel]),
        ('cen', [F('fa', 'u8'), F('fb', ('obj', 'E'), COMPLETE, PARSE(p_obj('E', 'be', 'fa')))], [rng(0, 4), alt(b'\1', b'\2'), fill(4)], [sel]),
        ('enp', [F('fa', 'u8'), F('fb', ('obj', 'P'), PARSE(p_obj('P', 'be', 'fa')))], [rng(0, 2), fill(3)], [Enum('P', [Var('A', 1, [F('x', 'u16')])], top=[PRE(s_advance('2'))])]),
        ('flp', [F('fa', 'u8'), F('fb', ('obj', 'FL'))], [fill(2), alt(b'\0\1', b'\2\2')], [Fieldless('FL', 'u16', [('A', None, 0), ('B', None, 1)], top=[PRE(s_advance('1'))])]),
        ('err', [F('fa', 'u8'), F('fb', ('opt', 'u8'), COND('fa == 1'), PARSE(P_ERR)), F('fc', 'u8', PARSE(P_FAIL))], [rng(0, 1), fill(2)], []),
        ('mapv', [F('fa', 'u16', VERIFY('fa != 258', 'fa'), MAP('v ^ 0', 'v', 'u16'))], [alt(b'\1\2', b'\2\1')], []),
        ('into', [F('fa', 'u32', VERIFY('fa != 258', 'fa'), INTO, PARSE(p_int('u16', 'be')))], [alt(b'\1\2', b'\2\1')], []),
        ('ld', [F('fa', ('ld', 'u16'), COMPLETE, PARSE(p_ty(('ld', 'u16'), 'be')))], [alt(b'\0\0', b'\0\2xy')], []),
        ('prei', [F('fa', 'u8'), F('fb', 'u16', PRE(s_advance('1')), PRE(s_failif('fa == 1')), ERRIF('fa == 2'), VERIFY('fa != 3', 'fb'), COMPLETE)], [rng(0, 4), fill(3)], []),
        ('posti', [F('fa', 'u8', POST(s_advance('1')), POST(s_failif('fa == 1')), SKIPA('fa')), F('fb', 'u8', COMPLETE)], [rng(0, 3), fill(3)], []),
        ('seek', [F('fa', 'u8'), F('fb', 'u8', SKIPB(1), ALIGNB('fa'), MOVE('fa - 4'), COMPLETE), F('fc', 'u8', COMPLETE)], [rng(0, 5), fill(5)], []),
    ]
    return o


KINDS26 = ['named', 'tuple', 'evar', 'etup', 'nested', 'nested3', 'vec', 'opt', 'generr', 'input', 'args', 'exact', 'third', 'complete']


def own(T):
    out = []
    for (lab, fs, i, ob), k in itertools.product(faults(), KINDS26):
        if k in ('tuple', 'etup') and any(a.name == 'Verify' for f in fs for a in f.attrs):
            continue
        if k == 'generr' and any(x in repr([f.ty for f in fs]) for x in ("'arr'", "'str'", "'obj'")):
            continue
        if k == 'vec' and any(has_lt(f.ty) for f in fs) or k == 'vec' and lab == 'err':
            continue
        for n, kw in enumerate((dict(), dict(derive='NomLE'), dict(complete=True))):
            if n and (k in ('generr', 'vec') and not T or k == 'complete'):
                continue
            out.append(Placed(wrap('f%d_%s_%s' % (n, k, lab), fs, i, k, objs=ob, reach=[], tail=2, **kw)))
    return [p for p in out if fits(p)]


def C26(tier):
    T = tier == THOROUGH
    out = own(T)
    for f, n in N.items():
        out += sample(f, n * 5 if T else n)
    return out
