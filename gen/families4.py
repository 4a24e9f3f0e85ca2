"""Program families: C20 (arguments), C21 (generics), C22 (ways to write)."""
import itertools
from dsl import *
from families import *
from families2 import pint, prange, por, pguard, pbind


def V(name, ty, rs, sx):
    """field with a value given as Rust and model text"""
    return F(name, ty, A('Value', '(%s) as %s' % (rs, ty), '(value %s)' % sx))


# ------------------------------------------------------------------------------------- C20
C20X = '''#[derive(Debug, Clone, Copy, PartialEq)] pub struct Cfg { pub a: u8, pub b: u16 }
pub fn inc(x: u8) -> u8 { x + 1 } pub fn dbl(x: u8) -> u8 { x * 2 }
pub static CFG: Cfg = Cfg { a: 7, b: 300 };
'''


def atypes():
    """(label, type, value passed by the caller (k-th argument), integers computed from the argument called n)"""
    o = []
    for t in ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i64', 'usize', 'u128'):
        o.append((t, t, lambda k: E(str(7 * k + 3), str(7 * k + 3)), lambda n: E('(%s as i128)' % n, n)))
    o.append(('bool', 'bool', lambda k: E('engine::kn(0) == %d' % (k % 2), '(== (k 0) %d)' % (k % 2)), lambda n: E('(%s as i128)' % n, n)))
    o.append(('char', 'char', lambda k: E("'\\u{%x}'" % (97 + k), str(97 + k)), lambda n: E('(%s as u32 as i128)' % n, n)))
    o.append(('tup', '(u8, u16)', lambda k: E('(%d, %d)' % (k + 1, k + 20), '(tuple %d %d)' % (k + 1, k + 20)), lambda n: E('(%s.0 as i128 + %s.1 as i128 * 256)' % (n, n), '(+ (fld %s 0) (* 256 (fld %s 1)))' % (n, n))))
    o.append(('cfg', 'Cfg', lambda k: E('Cfg { a: %d, b: 9 }' % (k + 40), '(tuple %d 9)' % (k + 40)), lambda n: E('(%s.a as i128)' % n, '(fld %s 0)' % n)))
    o.append(('rcfg', '&Cfg', lambda k: E('&CFG', '(tuple 7 300)'), lambda n: E('(%s.b as i128)' % n, '(fld %s 1)' % n)))
    o.append(('ru8', '&u8', lambda k: E('&%d' % (50 + k), str(50 + k)), lambda n: E('(*%s as i128)' % n, n)))
    o.append(('sl', '&[u8]', lambda k: E('&%s[..]' % bytelit(bytes(k + 2)), '(bytes %s)' % ' '.join(['0'] * (k + 2))), lambda n: E('(%s.len() as i128)' % n, '(len %s)' % n)))
    o.append(('str', "&'static str", lambda k: E('"%s"' % ('x' * (k + 1)), '(bytes %s)' % ' '.join(['0'] * (k + 1))), lambda n: E('(%s.len() as i128)' % n, '(len %s)' % n)))
    o.append(('opt', 'Option<u16>', lambda k: E('if engine::kn(0) == 0 { Some(%d) } else { None }' % (60 + k), '(if (== (k 0) 0) (some %d) none)' % (60 + k)), lambda n: E('(%s.unwrap_or(%d) as i128)' % (n, 99), '(unwrap_or %s 99)' % n)))
    o.append(('fn', 'fn(u8) -> u8', lambda k: E('inc' if k % 2 else 'dbl', '0' if k % 2 else '1'), lambda n: E('(%s(5) as i128)' % n, '(if (== %s 0) 6 10)' % n)))
    o.append(('vec', '&Vec<u16>', lambda k: E('&vec![%s]' % ', '.join(['4'] * (k + 1)), '(list %s)' % ' '.join(['4'] * (k + 1))), lambda n: E('(%s.len() as i128)' % n, '(len %s)' % n)))
    return o


AKINDS = ['named', 'tuple', 'evar', 'etup', 'uvar']


def arg_obj(kind, args, fields, name='T', sel='u8', pat='_', **kw):
    """object with extra arguments; for enums the selector comes first"""
    if kind in ('named', 'tuple'):
        return Struct(name, fields, kind=kind, args=args, **kw)
    if kind == 'uvar':
        ats = []
        for k, f in enumerate(fields):
            ats.append(A('PreExec', 'engine::ev(%d, %s);' % (k, f.attrs[0].arg if f.attrs else '0'), '(pre (ev %d %s))' % (k, f.attrs[0].sx[7:-1] if f.attrs else '0')))
        # (one PreExec for a variant)
        if ats:
            ats = [A('PreExec', '{ %s }' % ' '.join(a.arg for a in ats), '(pre (seq %s))' % ' '.join(a.sx[5:-1] for a in ats))]
        return Enum(name, [Var('A', 250, [F('x', 'u8')]), Var('B', pat, None, attrs=ats)], seltype=sel, args=args, **kw)
    return Enum(name, [Var('A', 250, [F('x', 'u8')]), Var('B', pat, fields, kind='named' if kind == 'evar' else 'tuple')], seltype=sel, args=args, **kw)


def C20(tier):
    out = []
    T = tier == THOROUGH
    U = E('engine::kn(0) as u8', '(k 0)')
    ats = atypes()
    derives = [('Nom', dict()), ('NomBE', dict(derive='NomBE')), ('NomLE', dict(derive='NomLE')), ('be', dict(end='be')), ('le', dict(end='le'))]
    # numbers of arguments of the same type: no two of them may be exchanged
    for n in (0, 1, 2, 3, 4, 5, 8, 12):
        for kind in AKINDS:
            for dl, kw in derives:
                args = [('a%d' % j, 'u8') for j in range(n)]
                fs = [V('v%d' % j, 'u8', 'a%d' % j, 'a%d' % j) for j in range(n)]
                if kind in ('evar', 'etup', 'uvar'):
                    fs.append(V('s', 'u8', 'selector', 'selector'))
                if kind != 'uvar':
                    fs.append(F('w', 'u16'))
                elif not n:
                    continue
                call = [11 * (j + 1) for j in range(n)]
                if kind in ('evar', 'etup', 'uvar'):
                    call = [3] + call
                out.append(Prog('n_%s_%s_%d' % (kind, dl, n), [arg_obj(kind, args, fs, **kw)], args=call, inp=[fill(3)], reach=[]))
    # all pairs of types, in both orders; triples on the diagonal
    for (x, y) in itertools.product(range(len(ats)), repeat=2):
        kinds = AKINDS if T else [AKINDS[(x * 5 + y) % 5]]
        for kind in kinds:
            ts = [ats[x], ats[y]] + ([ats[(x + 1) % len(ats)]] if x == y else [])
            args = [('a%d' % j, t[1]) for j, t in enumerate(ts)]
            fs = []
            for j, t in enumerate(ts):
                e = t[3]('a%d' % j)
                fs.append(V('v%d' % j, 'i64', e.rs, e.sx))
            call = [t[2](j) for j, t in enumerate(ts)]
            if kind in ('evar', 'etup', 'uvar'):
                call = [4] + call
            out.append(Prog('t_%s_%s' % (kind, '_'.join(t[0] for t in ts)), [arg_obj(kind, args, fs, derive=('Nom', 'NomLE', 'NomBE')[(x + y) % 3])], args=call, knobs=[(0, 1)], inp=[fill(1)], extra=C20X, reach=[]))
    # selector of each type with arguments of each type
    for x, t in enumerate(ats):
        if t[0] in ('opt', 'fn', 'vec', 'cfg', 'rcfg', 'ru8', 'sl', 'str'):
            continue
        for y, u in enumerate(ats):
            if not T and (x + y) % 2:
                continue
            e, s = u[3]('xa'), t[3]('selector')
            out.append(Prog('s_%s_%s' % (t[0], u[0]), [Enum('T', [Var('A', '_', [V('p', 'i64', s.rs, s.sx), V('q', 'i64', e.rs, e.sx), F('r', 'u16')])], seltype=t[1], args=[('xa', u[1])])],
                            args=[t[2](1), u[2](2)], knobs=[(0, 1)], inp=[fill(3)], extra=C20X, reach=[]))
    # every attribute, at every place, with arguments taking several values
    uses = [
        ('count', ('vec', 'u8'), lambda: [COUNT('xa')]),
        ('lc', ('vec', 'u8'), lambda: [LCOUNT(p_take_n('xa'))]),
        ('cond', ('opt', 'u16'), lambda: [COND('xa > xb')]),
        ('take', 'slice', lambda: [TAKE('xa')]),
        ('skipb', 'u8', lambda: [SKIPB('xa')]),
        ('skipa', 'u8', lambda: [SKIPA('xa')]),
        ('alignb', 'u8', lambda: [ALIGNB('xa + 1')]),
        ('aligna', 'u8', lambda: [ALIGNA('xa + 1')]),
        ('move', 'u8', lambda: [MOVE('xa - xb')]),
        ('moveabs', 'u8', lambda: [MOVEABS('xa')]),
        ('errif', 'u8', lambda: [ERRIF('xa == xb')]),
        ('map', 'u8', lambda: [MAP('v ^ xa', 'v', 'u8')]),
        ('value', 'u16', lambda: [VALUE('xa * 16 + xb', 'u16')]),
        ('parse', 'slice', lambda: [PARSE(p_take('xa'))]),
        ('pre', 'u8', lambda: [PRE(s_ev(1, 'xa * 16 + xb'))]),
        ('post', 'u8', lambda: [POST(s_ev(2, 'xa * 16 + xb'))]),
        ('prea', 'u8', lambda: [PRE(s_advance('xa'))]),
        ('set', 'u16', lambda: [SETENDIAN('xa == xb')]),
        ('verify', 'u8', lambda: [VERIFY('fa != xa', 'fa')]),
        ('cc', ('vec', ('vec', 'u8')), lambda: [COUNT('xa'), COUNT('xb')]),
    ]

    def p_take_n(e):
        # a length computed from the argument
        return P('{ |__x| Ok((__x, (%s) as usize)) }' % e, '(ret %s)' % e)
    for lab, ty, mk in uses:
        for kind in ('named', 'tuple', 'evar', 'etup'):
            if lab == 'verify' and kind in ('tuple', 'etup'):
                continue
            for (pa, pb) in ((0, 1), (1, 0)):
                for j, sub in enumerate(((), ('selector',))):
                    if sub and kind in ('named', 'tuple'):
                        continue
                    # the arguments, in both orders, and the selector as one of them
                    m = {'xa': 'selector'} if sub else {}
                    ren = [F('fa', ty, *[a.ren(m) for a in mk()])]
                    args = [('xa', 'u8'), ('xb', 'u8')]
                    vals = [E('engine::kn(0) as u8', '(k 0)'), E('engine::kn(1) as u8', '(k 1)')]
                    if pa:
                        args.reverse()
                        vals.reverse()
                    o = arg_obj(kind, args, [F('p', 'u8')] + ren + [F('z', 'u16')], derive='NomLE' if pa and lab != 'set' else 'Nom')
                    call = ([E('engine::kn(0) as u8', '(k 0)') if sub else 5] if kind[0] == 'e' else []) + vals
                    out.append(Prog('u_%s_%s_%d%d' % (kind, lab, pa, j), [o], args=call, knobs=[(0, 1, 2, 3), (0, 1, 3)], inp=[fill(9)], reach=[]))
    # patterns with guards on arguments; attributes of unit variants
    for perm in itertools.permutations([('A', pguard(('_', '_'), 'xa == 1')), ('B', pguard(pbind('n'), 'n == xb')), ('C', pguard(prange(0, 2), 'xa > xb')), ('D', ('_', '_'))], 3):
        vs = [Var(n, p, [F('x', 'u8'), V('y', 'u8', 'xa', 'xa')] if k == 0 else [F('x', 'u16')] if k == 1 else None, attrs=[SKIPB('xa'), PRE(s_ev(3, 'selector'))] if k == 2 else ()) for k, (n, p) in enumerate(perm)]
        out.append(Prog('g_%s' % ''.join(n for n, p in perm), [Enum('T', vs, args=[('xa', 'u8'), ('xb', 'u8')])], args=[E('engine::kn(2) as u8', '(k 2)'), E('engine::kn(0) as u8', '(k 0)'), E('engine::kn(1) as u8', '(k 1)')],
                        knobs=[(0, 1, 2), (0, 1, 2), (0, 1, 3)], inp=[fill(4)], reach=[]))
    # top-level attributes
    for kind in AKINDS:
        for lab, top in (('pre', [PRE(s_ev(1, 'xa * 256 + xb'))]), ('post', [POST(s_ev(2, 'xa * 256 + xb'))]), ('prea', [PRE(s_advance('xa'))]), ('set', [SETENDIAN('xa == xb')]), ('ex', [EXACT]), ('postf', [POST(s_failif('xa == xb'))])):
            fs = [V('v', 'u8', 'xb', 'xb')] + ([] if kind == 'uvar' else [F('w', 'u16')])
            out.append(Prog('top_%s_%s' % (kind, lab), [arg_obj(kind, [('xa', 'u8'), ('xb', 'u8')], fs, top=top)], args=([9] if kind[0] in 'eu' else []) + [E('engine::kn(0) as u8', '(k 0)'), 2], knobs=[(0, 1, 2)], inp=[fill(5)], reach=[]))
        for lab, kw, err in (('comp', dict(complete=True), None), ('in', dict(input='aaa'), None), ('ge', dict(generr=True), MYERR), ('geu', dict(generr=True), '()'), ('dbg', dict(debug=True), None),
                             ('all', dict(complete=True, input='aaa', generr=True, debug=True, top=[EXACT]), MYERR)):
            for dl, d in derives[:3]:
                if kind in ('tuple', 'etup') and 'debug' in kw:
                    continue
                fs = [V('v', 'u8', 'xa', 'xa'), V('u', 'u8', 'xb', 'xb')] + ([] if kind == 'uvar' else [F('w', 'u16'), F('x', ('vec', 'u8'), COUNT('xa'))])
                k = dict(kw)
                if 'top' in k:
                    k['top'] = list(k['top'])
                out.append(Prog('at_%s_%s_%s' % (kind, lab, dl), [arg_obj(kind, [('xa', 'u8'), ('xb', 'u16')], fs, **k, **d)], err=err, args=([9] if kind[0] in 'eu' else []) + [E('engine::kn(0) as u8', '(k 0)'), 2], knobs=[(0, 1, 2)],
                                inp=[fill(5)], reach=[]))
    # names of arguments
    for k, names in enumerate([['r#type', 'r#match'], ['input', 'rem'], ['E', 'I'], ['orig', 'orig_input'], ['x', 'y'], ['struct_def', 'enum_def'], ['res', 'e'], ['nom', 'parse'], ['selector_', 'sel'], ['_a', '__a'], ['len', 'count'],
                               ['align', 'offset'], ['slice', 'err'], ['v0', 'data'], ['missing', 'new_offset'], ['u8', 'u16'], ['self_', 'this']]):
        for kind in AKINDS:
            nm = [n[2:] if n.startswith('r#') else n for n in names]
            mn = ['M_' + n for n in nm]
            fs = [V('q0', 'u8', names[0], mn[0]), V('q1', 'u8', names[1], mn[1])]
            if kind != 'uvar':
                fs += [F('q2', 'u8', A('SkipBefore', names[0], '(skipb %s)' % mn[0])), F('q3', 'u8', A('Move', '%s as i32 - 2' % names[1], '(move (- %s 2))' % mn[1])), F('q4', 'u8', A('AlignBefore', '%s + 2' % names[0], '(alignb (+ %s 2))' % mn[0])),
                       F('q5', 'u8', A('MoveAbs', names[1], '(moveabs %s)' % mn[1])), F('q6', ('vec', 'u8'), A('Count', names[0], '(count %s)' % mn[0])), F('q7', ('opt', 'u8'), A('Cond', '%s == 1' % names[1], '(cond (== %s 1))' % mn[1]))]
            o = arg_obj(kind, [(names[0], 'u8'), (names[1], 'u8')], fs, derive=('Nom', 'NomLE')[k % 2])
            # (model names must not clash with others)
            osx = o.args
            o2 = o.sx
            o.sx = (lambda f, a, m: lambda pre: f(pre).replace('(args %s %s)' % (a[0][0], a[1][0]), '(args %s %s)' % (m[0], m[1])))(o2, osx, mn)
            out.append(Prog('nm_%d_%s' % (k, kind), [o], args=([9] if kind[0] in 'eu' else []) + [E('engine::kn(0) as u8', '(k 0)'), E('engine::kn(1) as u8', '(k 1)')], knobs=[(0, 1), (1, 2, 3)], inp=[fill(10)], reach=[]))
    # extra arguments have the same name as fields of other objects or variants, and are shadowed by fields declared before
    out.append(Prog('shadow', [Enum('T', [Var('A', 1, [F('xa', 'u8'), F('y', ('vec', 'u8'), COUNT('xa & 1'))]), Var('B', 2, [F('y', ('vec', 'u8'), COUNT('xa')), F('xa', 'u8')]), Var('C', '_', [F('selector', 'u8'), V('z', 'u8', 'selector', 'selector')])], args=[('xa', 'u8')])],
                    args=[E('engine::kn(0) as u8', '(k 0)'), 2], knobs=[(1, 2, 3)], inp=[fill(4)]))
    # nested calls: through all combinations of kinds, orders of arguments and functions, over three levels
    perms = [(0, 1), (1, 0)]
    n = 0
    for k1, k2 in itertools.product(('named', 'tuple', 'evar', 'etup'), repeat=2):
        for p1, p2 in itertools.product(perms, perms):
            for e1, e2 in itertools.product(('parse', 'be', 'le'), repeat=2):
                n += 1
                if not T and n % 3:
                    continue
                la, ma = ['ya', 'yb'], ['xa', 'xb']
                leaf = arg_obj(k2, [('ya', 'u8'), ('yb', 'u8')], [V('q', 'u8', 'ya', 'ya'), V('r', 'u8', 'yb', 'yb'), F('w', 'u16'), F('x', ('vec', 'u8'), COUNT('ya & 1'))], name='L')
                c2 = ([E('xa', 'xa')] if k2[0] == 'e' else []) + [E(ma[p2[0]], ma[p2[0]]), E(ma[p2[1]], ma[p2[1]])]
                mid = arg_obj(k1, [('xa', 'u8'), ('xb', 'u8')], [F('g', 'u8'), F('l', ('obj', 'L'), PARSE(p_obj('L', e2, *c2)))], name='M')
                fn = ['f', 'h']
                c1 = ([E('h', 'h')] if k1[0] == 'e' else []) + [E(fn[p1[0]], fn[p1[0]]), E(fn[p1[1]], fn[p1[1]])]
                top = Struct('T', [F('f', 'u8'), F('h', 'u8'), F('m', ('obj', 'M'), PARSE(p_obj('M', e1, *c1))), F('z', 'u8')])
                out.append(Prog('ne_%s_%s_%d%d_%s_%s' % (k1, k2, p1[0], p2[0], e1, e2), [leaf, mid, top], inp=[rng(3, 4), rng(6, 7), fill(6)], entries=['parse'] if n % 5 else None, reach=[]))
    # objects with arguments used repeatedly: the arguments are the same for each item
    for kind in ('named', 'tuple', 'evar', 'etup'):
        for e in ('parse', 'be', 'le'):
            leaf = lambda: arg_obj(kind, [('xa', 'u8'), ('xb', 'u8')], [F('w', 'u16'), V('q', 'u8', 'xa', 'xa'), V('r', 'u8', 'xb', 'xb')], name='L')
            call = ([E('s', 's')] if kind[0] == 'e' else []) + [E('b', 'b'), E('a', 'a')]
            pl = p_obj('L', e, *call)
            head = [F('a', 'u8'), F('b', 'u8'), F('s', 'u8')]
            hin = [rng(1, 2), rng(3, 4), rng(0, 1)]
            for lab, f in (('vec', F('l', ('vec', ('obj', 'L')), COUNT('a'), PARSE(pl))), ('lc', F('l', ('vec', ('obj', 'L')), LCOUNT(p_int('u8', 'be')), PARSE(pl))), ('opt', F('l', ('opt', ('obj', 'L')), COND('a == 1'), PARSE(pl))),
                           ('many', F('l', ('vec', ('obj', 'L')), PARSE(p_many(p_complete(pl))))), ('popt', F('l', ('opt', ('obj', 'L')), PARSE(p_opt(p_complete(pl))))), ('comp', F('l', ('obj', 'L'), COMPLETE, PARSE(pl))), ('pair', F('l', ('tup', ('obj', 'L'), 'u8'), PARSE(p_pair(pl, p_int('u8', 'be')))))):
                out.append(Prog('rp_%s_%s_%s' % (kind, e, lab), [leaf(), Struct('T', head + [f, F('z', 'u8')])], inp=hin + ([rng(0, 2)] if lab == 'lc' else []) + [fill(5)], reach=[]))
    # arguments changed by statements; passed by value, moved, mutable
    for kind in AKINDS:
        fs = [V('q', 'u8', 'xa', 'xa')] + ([] if kind == 'uvar' else [F('w', 'u16', PRE(s_let('xa', '(xa + 1) & 3'))), F('v', ('vec', 'u8'), COUNT('xa')), F('u', 'u8', POST(s_let('xb', 'u')), ), V('t', 'u8', 'xb', 'xb')])
        for top in ([], [PRE(s_let('xb', 'xb + 5'))]):
            out.append(Prog('let_%s_%d' % (kind, len(top)), [arg_obj(kind, [('xa', 'i128'), ('xb', 'i128')], [F(f.name, f.ty, *f.attrs) for f in fs], top=top)], args=([9] if kind[0] in 'eu' else []) + [E('engine::kn(0)', '(k 0)'), E('engine::kn(1)', '(k 1)')],
                            knobs=[(0, 1, 2), (3, 4)], inp=[fill(7)], reach=[]))
    for kind in ('named', 'evar'):
        out.append(Prog('mut_%s' % kind, [arg_obj(kind, [('mut xa', 'u8'), ('xb', 'u8')], [F('a', 'u8', A('PreExec', 'xa = xa + xb;', '(pre (let xa (+ xa xb)))')), F('v', ('vec', 'u8'), COUNT('xa'))])], args=([9] if kind[0] == 'e' else []) + [1, E('engine::kn(0) as u8', '(k 0)')],
                        knobs=[(0, 1, 2)], inp=[fill(5)], reach=[]))
        out[-1].objs[-1].sx = (lambda f: lambda pre: f(pre).replace('mut xa', 'xa'))(out[-1].objs[-1].sx)
    # the three functions agree on everything which does not depend on the byte order
    for kind in AKINDS:
        fs = [V('q', 'u8', 'xa', 'xa'), V('r', 'u8', 'xb', 'xb')] + ([] if kind == 'uvar' else [F('e', ('vec', 'u8'), COUNT('xa')), F('w', ('opt', 'u32'), COND('xb == 1')), F('y', 'u16', SKIPA('xa'))])
        for dl, kw in derives:
            out.append(Prog('ag_%s_%s' % (kind, dl), [arg_obj(kind, [('xa', 'u8'), ('xb', 'u8')], fs, sel='u16', **kw)], args=([E('engine::kn(1) as u16', '(k 1)')] if kind[0] in 'eu' else []) + [E('engine::kn(0) as u8', '(k 0)'), E('engine::kn(1) as u8', '(k 1)')],
                            knobs=[(0, 1, 2), (0, 1, 250)], inp=[fill(8)], reach=[]))
    return out


# ------------------------------------------------------------------------------------- C21
class Gen:
    """a generic declaration (rendered in Rust) and its concrete instances (rendered for the model)"""
    def __init__(self, template, instances):
        self.template, self.instances, self.name = template, instances, template.name

    def rs(self):
        return self.template.rs()

    def sx(self, pre):
        return '\n'.join(o.sx(pre) for o in self.instances)


def TP(n, model='noparse'):
    """type parameter"""
    return ('raw', n, model)


def gtypes():
    """(label, type, input, objects)"""
    N = Struct('N', [F('n0', 'u8'), F('n1', 'u16')])
    return [
        ('u8', 'u8', [fill(1)], []),
        ('u16', 'u16', [fill(2)], []),
        ('i64', 'i64', [fill(8)], []),
        ('nest', ('obj', 'N'), [fill(3)], [N]),
        ('opt', ('opt', 'u16'), [fill(2)], []),
        ('tup', ('tup', 'u8', 'u32'), [fill(5)], []),
        ('arr', ('arr', 'u16', 2), [fill(4)], []),
        ('which', 'which', [fill(1)], []),
        ('only', ('only', 'u16', 'be'), [fill(2)], []),
        ('str', 'str', [alt(b'\0\0\0\0', b'\0\0\0\1A')], []),
        ('fl', ('obj', 'FL'), [alt(b'\0\0', b'\0\1', b'\1\0', b'\2\2')], [Fieldless('FL', 'u16', [('A', None, 0), ('B', None, 1), ('C', '256', 256)])]),
        ('vec', ('vec', 'u16'), [fill(4)], []),
        ('f32', 'f32', [fill(4)], []),
        ('box', ('obj', 'NB'), [fill(3)], [Struct('NB', [F('n0', 'u16', SKIPB(1))], complete=True)]),
    ]


def shapes1():
    """fields using one type parameter; A: function giving the type (in Rust text or concrete); ia: input of one A"""
    return [
        ('a', lambda A: [F('a', A)], lambda i: i),
        ('ab', lambda A: [F('a', A), F('b', 'u16')], lambda i: i + [fill(2)]),
        ('ba', lambda A: [F('b', 'u16'), F('a', A), F('c', A)], lambda i: [fill(2)] + i + i),
        ('opt', lambda A: [F('a', ('opt', A)), F('b', 'u8')], lambda i: i + [fill(1)]),
        ('cnt', lambda A: [F('n', 'u8'), F('a', ('vec', A), COUNT('n')), F('b', 'u8')], lambda i: [rng(0, 2)] + i + i),
        ('lc', lambda A: [F('a', ('vec', A), LCOUNT(cnt8())), F('b', 'u8')], lambda i: [rng(0, 2)] + i + i),
        ('vec', lambda A: [F('a', ('vec', A))], lambda i: i + i),
        ('tup', lambda A: [F('a', ('tup', A, 'u16')), F('b', ('tup', 'u8', A))], lambda i: i + [fill(3)] + i),
        ('cond', lambda A: [F('n', 'u8'), F('a', ('opt', A), COND('n == 1')), F('b', 'u8')], lambda i: [rng(0, 1)] + i + [fill(1)]),
        ('end', lambda A: [F('a', A, BE), F('b', A, LE), F('c', A)], lambda i: i + i + i),
        ('compl', lambda A: [F('a', A, COMPLETE), F('b', 'u8')], lambda i: i + [fill(1)]),
        ('dir', lambda A: [F('a', A, SKIPB(1), ALIGNA(4)), F('b', A, MOVE(-1)), F('c', 'u8', MOVEABS(0))], lambda i: [fill(1)] + i + [fill(2)] + i),
        ('ign', lambda A: [F('b', 'u8'), F('p', ('raw', 'PhantomData<%s>' % rt(A), 'phantom'), IGNORE), F('c', 'u16')], lambda i: [fill(3)]),
        ('val', lambda A: [F('a', A), F('p', ('raw', 'PhantomData<%s>' % rt(A), 'phantom'), A_('Value', 'PhantomData', '(value unit)')), F('c', 'u16')], lambda i: i + [fill(2)]),
        ('parse', lambda A: [F('a', A, PARSE(P('<%s>::parse_le' % rt(A), '(ty %s le)' % sxt(A, '@')))), F('b', A, PARSE(P('<%s>::parse_be' % rt(A), '(ty %s be)' % sxt(A, '@')))), F('c', A)], lambda i: i + i + i),
        ('pre', lambda A: [F('a', A, PRE(s_ev(1, 'ilen')), POST(s_ev(2, 'ilen'))), F('b', 'u8', ERRIF('b0 == 1') if False else PRE(s_ev(3)))], lambda i: i + [fill(1)]),
        ('many', lambda A: [F('n', 'u8'), F('a', ('vec', ('opt', A)), COUNT('n'))], lambda i: [rng(0, 2)] + i + i),
        ('set', lambda A: [F('n', 'u8'), F('a', A, SETENDIAN('n == 1')), F('b', A)], lambda i: [rng(0, 1)] + i + i),
    ]


A_ = A


def conc(t):
    """the type as seen by the model, with its Rust text"""
    return t


def gstruct(name, kind, fields, params, encp, **kw):
    if kind in ('named', 'tuple'):
        return Struct(name, fields, kind=kind, generics=params, enc_generics=encp, **kw)
    return Enum(name, [Var('A', 0, [F('q', 'u8')]), Var('B', 1, fields, kind='named' if kind == 'evar' else 'tuple'), Var('C', 2, None)], generics=params, enc_generics=encp, **kw)


def C21(tier):
    out = []
    T = tier == THOROUGH
    gt = gtypes()
    kinds = ['named', 'tuple', 'evar', 'etup']
    derives = [('Nom', {}), ('NomLE', dict(derive='NomLE')), ('be', dict(end='be')), ('NomBE', dict(derive='NomBE')), ('le', dict(end='le'))]

    def enc(*ps, lts='', consts=''):
        """generics of the Enc implementation"""
        l = [x for x in (lts,) if x] + ['%s: engine::Enc' % p for p in ps] + [c for c in (consts,) if c]
        import re
        names = ([lts] if lts else []) + list(ps) + re.findall(r'const (\w+)', consts)
        return ('<%s>' % ', '.join(l), '<%s>' % ', '.join(names))

    def one(nm, kind, mk, inp, tobj, types, names, params=None, encp=None, call=None, err=None, lts=(), reach=(), **kw):
        """generic object T with type parameters `names`, used at `types`; mk: function of the types"""
        params = params if params is not None else '<%s>' % ', '.join(list(lts) + names)
        encp = encp or enc(*names, lts=', '.join(lts))
        tmpl = gstruct('T', kind, mk(*[TP(n) for n in names]), params, encp, **kw)
        inst = gstruct('T', kind, mk(*types), None, None, **kw)
        targs = ', '.join(["'_" for _ in lts] + [rt(t).replace("'a", "'_") for t in types])
        out.append(Prog(nm, list(tobj) + [Gen(tmpl, [inst])], call=('obj', 'T', '<T<%s>>' % targs), args=[E('engine::kn(0) as u8', '(k 0)')] if kind[0] == 'e' else None, knobs=[(0, 1, 2, 3)] if kind[0] == 'e' else (),
                        inp=list(inp) + [fill(1)], err=err, reach=list(reach)))

    # all shapes x all argument types
    n = 0
    for (sl, mk, ii), (tl, t, ti, ob) in itertools.product(shapes1(), gt):
        n += 1
        for kind in kinds if T else [kinds[n % 4]]:
            one('s_%s_%s_%s' % (kind, sl, tl), kind, mk, ii(ti), ob, [t], ['A'], **derives[n % (1 if sl in ('set',) else 5)][1])
        if tl in ('u16', 'nest'):
            for kind in ('named', 'tuple'):
                one('d_%s_%s_%s' % (kind, sl, tl), kind, mk, ii(ti), ob, [t], ['A'])
    # names of parameters, bounds and where clauses
    for k, (params, names, where, eg) in enumerate([
            ('<E>', ['E'], '', None), ('<I>', ['I'], '', None), ('<T0>', ['T0'], '', None), ('<Input>', ['Input'], '', None), ('<A: Copy>', ['A'], '', ('<A: Copy + engine::Enc>', '<A>')),
            ('<A: Clone + PartialEq>', ['A'], '', ('<A: Clone + PartialEq + engine::Enc>', '<A>')), ('<A>', ['A'], 'where A: Copy ', ('<A: Copy + engine::Enc>', '<A>')), ('<A>', ['A'], 'where A: Copy, A: PartialEq, ', ('<A: Copy + PartialEq + engine::Enc>', '<A>')),
            ('<A = u8>', ['A'], '', None), ('<A: Copy = u16>', ['A'], '', ('<A: Copy + engine::Enc>', '<A>')), ('<A: Copy>', ['A'], 'where A: PartialEq', ('<A: Copy + PartialEq + engine::Enc>', '<A>')),
            ('<A: ?Sized + Copy>', ['A'], '', ('<A: Copy + engine::Enc>', '<A>')), ('<A: std::fmt::Debug + Copy,>', ['A'], '', ('<A: Copy + std::fmt::Debug + engine::Enc>', '<A>')), ('<A>', ['A'], 'where Vec<A>: PartialEq, Option<A>: Copy ', ('<A: engine::Enc>', '<A>')),
            ('<A>', ['A'], 'where A: Copy, A: PartialEq, A: PartialOrd, A: std::fmt::Debug ', ('<A: Copy + PartialOrd + std::fmt::Debug + engine::Enc>', '<A>')), ('<A: Copy + PartialEq + PartialOrd + std::fmt::Debug>', ['A'], 'where (A, A): PartialEq, [A]: PartialEq, (A,): PartialEq, A: Clone + Send ', ('<A: Copy + PartialOrd + std::fmt::Debug + Send + engine::Enc>', '<A>'))]):
        if k == 13:
            eg = ('<A: engine::Enc + PartialEq + Copy>', '<A>')
            params, where = '<A>', 'where A: PartialEq + Copy '
        for kind in kinds:
            for tl, t, ti, ob in (gt[1], gt[5]):
                mk = lambda A: [F('x', A), F('y', ('opt', A)), F('z', 'u16')]
                kw = dict(where=where) if where else {}
                one('b_%d_%s_%s' % (k, kind, tl), kind, mk, ti + ti + [fill(2)], ob, [t], names, params=params, encp=eg or enc(*names), **kw)
    # two and three parameters: not exchanged
    two = [gt[0], gt[1], gt[3], gt[5], gt[7]]
    for (x, y) in itertools.product(two, two):
        for kind in kinds:
            ob = x[3] + [o for o in y[3] if o not in x[3] and o.name not in [p.name for p in x[3]]]
            one('p2_%s_%s_%s' % (kind, x[0], y[0]), kind, lambda A, B: [F('a', A), F('b', B), F('c', ('tup', B, A)), F('d', ('opt', B))], x[2] + y[2] + y[2] + x[2] + y[2], ob, [x[1], y[1]], ['A', 'B'], **derives[len(out) % 5][1])
    for perm in itertools.permutations([gt[0], gt[1], gt[7]]):
        for kind in kinds:
            one('p3_%s_%s' % (kind, '_'.join(p[0] for p in perm)), kind, lambda A, B, C: [F('a', B), F('b', C), F('c', A), F('v', ('vec', C), COUNT(2))], [s for p in perm for s in p[2]] + [fill(6)], [], [p[1] for p in perm], ['A', 'B', 'C'])
    # many parameters, lifetimes and constants (a limit on their number would be seen)
    pool = [gt[0], gt[1], gt[7], gt[5], gt[12], gt[2], gt[4], gt[6], gt[0], gt[1], gt[7], gt[5]]
    for k in (4, 5, 6, 8, 12):
        for kind in kinds:
            for rev in (0, 1):
                ps = pool[:k][::-1] if rev else pool[:k]
                names = ['A', 'B', 'C', 'D', 'F', 'G', 'H', 'J', 'K', 'L', 'M', 'N'][:k]
                kw = dict(derives[(k + rev) % 5][1])
                inp = [s for p_ in ps for s in p_[2]]
                for gl, gk, err in (('', {}, None), ('ge', dict(generr=True), MYERR), ('gea', dict(generr=True, args=[('xa', 'u8')]), MYERR)):
                    if gl and rev:
                        continue
                    one('pm_%s_%d_%d%s' % (kind, k, rev, gl), kind, lambda *ts: [F('f%d' % j, t) for j, t in enumerate(ts)], inp, [], [p_[1] for p_ in ps], names, err=err, **dict(kw, **gk))
                    if gl == 'gea':
                        out[-1].args = (out[-1].args or []) + [X(7)]
                if not rev:
                    # with lifetimes before and constants after
                    lts = ["'l%d" % j for j in range(k)]
                    cs = ['N%d' % j for j in range(k)]
                    def mk(r, ts):
                        return ([F('s%d' % j, ('raw', "&%s [u8]" % l if r else 'Sl', 'noparse'), TAKE(1)) for j, l in enumerate(lts)] + [F('f%d' % j, t) for j, t in enumerate(ts)]
                                + [V('c%d' % j, 'u64', '%s as u64' % c if r else str(j + 1), str(j + 1)) for j, c in enumerate(cs)])
                    params = '<%s>' % ', '.join(lts + names + ['const %s: usize' % c for c in cs])
                    eg = ('<%s>' % ', '.join(lts + ['%s: engine::Enc' % x for x in names] + ['const %s: usize' % c for c in cs]), '<%s>' % ', '.join(lts + names + cs))
                    tmpl = gstruct('T', kind, mk(1, [TP(x) for x in names]), params, eg, **kw)
                    con = gstruct('T', kind, mk(0, [p_[1] for p_ in ps]), None, None, **kw)
                    out.append(Prog('pl_%s_%d' % (kind, k), [Gen(tmpl, [con])], call=('obj', 'T', '<T<%s>>' % ', '.join(["'_"] * k + [rt(p_[1]) for p_ in ps] + [str(j + 1) for j in range(k)])),
                                    args=[E('engine::kn(0) as u8', '(k 0)')] if kind[0] == 'e' else None, knobs=[(0, 1, 2, 3)] if kind[0] == 'e' else (), inp=[fill(k)] + inp, reach=[]))
    # generic objects in generic objects
    for tl, t, ti, ob in gt:
        if tl in ('str', 'vec') and not T:
            continue
        for ki, ko in itertools.product(('named', 'tuple'), repeat=2):
            if not T and (ki, ko) != ('named', 'tuple') and tl not in ('u16', 'nest'):
                continue
            mki = lambda A: [F('x', A), F('y', 'u8')]

            def inst(nm, t):
                return gstruct(nm, ki, mki(t), None, None)
            Iof = lambda A, nm: ('obj', nm, 'I<%s>' % rt(A))
            ti_ = gstruct('I', ki, mki(TP('A')), '<A>', enc('A'))
            o_t = [('n', lambda A, B, nm: [F('a', Iof(A, nm)), F('b', 'u16')]), ('v', lambda A, B, nm: [F('a', ('vec', Iof(A, nm)), COUNT(2)), F('b', A)]), ('o', lambda A, B, nm: [F('a', ('opt', Iof(A, nm))), F('b', 'u8')]),
                   ('c', lambda A, B, nm: [F('a', Iof(A, nm)), F('b', B), F('d', Iof(A, nm), BE)]), ('t', lambda A, B, nm: [F('a', ('tup', Iof(A, nm), A)), F('b', ('vec', Iof(A, nm)))])]
            for ol, mk in o_t:
                tmpl = gstruct('T', ko, mk(TP('A'), TP('A'), 'I'), '<A>', enc('A'))
                i1 = inst('I', t)
                con = gstruct('T', ko, mk(t, t, 'I'), None, None)
                out.append(Prog('g_%s_%s_%s_%s' % (ki, ko, ol, tl), ob + [Gen(ti_, [i1]), Gen(tmpl, [con])], call=('obj', 'T', '<T<%s>>' % rt(t)), inp=ti + [fill(1)] + ti + [fill(1)] + ti[:1] + [fill(2)], reach=[]))
            # several instances of the same declaration, one in the other
            u = ('obj', 'I1', 'I<%s>' % rt(t))
            con = Struct('T', [F('a', u), F('b', ('obj', 'I2', 'I<u32>')), F('c', ('obj', 'I3', 'I<I<%s>>' % rt(t))), F('d', 'u8')])
            out.append(Prog('gi_%s_%s_%s' % (ki, ko, tl), ob + [Gen(ti_, [inst('I1', t), inst('I2', 'u32'), inst('I3', u)]), con], inp=ti + [fill(1)] + [fill(5)] + ti + [fill(4)], reach=[]))
    # functions of a generic object with arguments, selector, and nested calls with type arguments
    for tl, t, ti, ob in gt:
        for ki in kinds:
            for dl, d in derives[:2] if not T else derives:
                mki = lambda A: [F('x', A), F('y', ('vec', A), COUNT('xa')), V('z', 'u8', 'xa', 'xa')]
                tmpl = gstruct('I', ki, mki(TP('A')), '<A>', enc('A'), args=[('xa', 'u8')], **d)
                con = gstruct('I', ki, mki(t), None, None, args=[('xa', 'u8')], **d)
                sel = ki[0] == 'e'
                p = P('{ |__x| <I<%s>>::parse_be(__x, %ss) }' % (rt(t), 's, ' if sel else ''), '(obj @I be %ss)' % ('s ' if sel else ''))
                top = Struct('T', [F('s', 'u8'), F('ii', ('obj', 'I', 'I<%s>' % rt(t)), PARSE(p)), F('e', 'u8')])
                out.append(Prog('ga_%s_%s_%s' % (ki, dl, tl), ob + [Gen(tmpl, [con]), top], inp=[rng(0, 2)] + ti + ti + [fill(1)], reach=[]))
    # object attributes
    for tl, t, ti, ob in (gt[1], gt[3], gt[5], gt[7]):
        for al, kw, err in (('comp', dict(complete=True), None), ('in', dict(input='aaa'), None), ('dbg', dict(debug=True), None), ('ex', dict(top=[EXACT]), None), ('ge', dict(generr=True), MYERR), ('geu', dict(generr=True), '()'),
                            ('gea', dict(generr=True, args=[('xa', 'u8')]), MYERR), ('all', dict(generr=True, complete=True, input='aaa', debug=True), MYERR), ('alla', dict(generr=True, complete=True, input='aaa', debug=True, args=[('xa', 'u8')]), MYERR), ('pre', dict(top=[PRE(s_ev(1, 'ilen')), POST(s_ev(2, 'ilen'))]), None), ('set', dict(top=[SETENDIAN('ilen % 2 == 0')]), None)):
            for kind in kinds:
                if ob and err == '()':
                    continue
                if kind in ('tuple', 'etup') and kw.get('debug'):
                    continue
                if err and kind[0] == 'e' and tl == 'tup' and False:
                    continue
                obs = ob
                if err:
                    obs = [Struct('N', [F('n0', 'u8'), F('n1', 'u16')], generr=True)] if ob else []
                k = dict(kw)
                if 'top' in k:
                    k['top'] = list(k['top'])
                one('at_%s_%s_%s' % (kind, al, tl), kind, lambda A: [F('x', A), F('y', ('opt', A)), F('z', 'u16')], ti + ti + [fill(2)], obs, [t], ['A'], err=err, **k)
                if 'args' in kw:
                    out[-1].args = (out[-1].args or []) + [X(7)]
    # strings with generic errors
    for kw in (dict(), dict(args=[('xa', 'u8')]), dict(debug=True), dict(debug=True, args=[('xa', 'u8')])):
        for kind in ('named', 'tuple'):
            if kind == 'tuple' and kw.get('debug'):
                continue
            out.append(wrap('ges_%s_%s' % (kind, '_'.join(kw)), [F('a', 'u8'), F('s', 'str')], [fill(1), alt(b'\0\0\0\0', b'\0\0\0\1A', b'\0\0\0\1\xff')], kind, generr=True, err=MYERR, reach=[], **kw))
            if 'args' in kw:
                out[-1].args = [X(1)]
    # constants
    for nv in (0, 1, 2, 3, 5):
        for kind in kinds:
            for lab, mk, inp in (
                    ('arr', lambda N, r: [F('a', ('raw', '[u8; %s]' % r, '(arr u8 %s)' % N)), F('b', 'u8')], [fill(6)]),
                    ('arr16', lambda N, r: [F('b', 'u8'), F('a', ('raw', '[u16; %s]' % r, '(arr u16 %s)' % N))], [fill(11)]),
                    ('cnt', lambda N, r: [F('a', ('vec', 'u16'), A('Count', r, '(count %s)' % N)), F('b', 'u8')], [fill(11)]),
                    ('skip', lambda N, r: [F('a', 'u8', A('SkipBefore', r, '(skipb %s)' % N)), F('b', 'u8', A('AlignBefore', '%s + 1' % r, '(alignb (+ %s 1))' % N)), F('c', 'u8', A('MoveAbs', r, '(moveabs %s)' % N))], [fill(12)]),
                    ('cond', lambda N, r: [F('a', ('opt', 'u16'), A('Cond', '%s > 1' % r, '(cond (> %s 1))' % N)), V('b', 'u8', r, str(N)), F('c', 'u8')], [fill(3)]),
                    ('take', lambda N, r: [F('v', ('vec', 'u8'), COUNT(1)), F('a', 'slice', A('Take', r, '(take %s)' % N))], [fill(6)])):
                lt = lab == 'take'
                ps = '<%sconst N: usize>' % ("'a, " if lt else '')
                eg = enc(lts="'a" if lt else '', consts='const N: usize')
                tmpl = gstruct('T', kind, mk('0', 'N'), ps, eg)
                con = gstruct('T', kind, mk(nv, str(nv)), None, None)
                out.append(Prog('c_%s_%s_%d' % (kind, lab, nv), [Gen(tmpl, [con])], call=('obj', 'T', '<T<%s%d>>' % ("'_, " if lt else '', nv)), args=[E('engine::kn(0) as u8', '(k 0)')] if kind[0] == 'e' else None, knobs=[(0, 1, 2, 3)] if kind[0] == 'e' else (), inp=inp, reach=[]))
    for nv in (0, 1, 2):
        for cty, vals in (('u8', ('0', '1', '2')), ('bool', ('false', 'true', 'true')), ('char', ("'\\0'", "'\\x01'", "'\\x02'")), ('i32', ('0', '1', '2'))):
            v = vals[nv]
            iv = min(nv, 1) if cty == 'bool' else nv
            cast = 'N as u32 as i128' if cty == 'char' else 'N as i128'
            cast0 = '(%s)' % cast
            mk = lambda N: [V('b', 'u8', cast0, str(N)), F('c', 'u16', A('SkipBefore', 'N as usize', '(skipb %s)' % N)), F('d', ('opt', 'u8'), A('Cond', '%s == 1' % cast0, '(cond (== %s 1))' % N))]
            for kind in kinds:
                out.append(Prog('ct_%s_%s_%d' % (kind, cty, nv), [Gen(gstruct('T', kind, mk(0), '<const N: %s>' % cty, ('<const N: %s>' % cty, '<N>')), [gstruct('T', kind, mk(iv), None, None)])], call=('obj', 'T', '<T<{ %s }>>' % v),
                                args=[E('engine::kn(0) as u8', '(k 0)')] if kind[0] == 'e' else None, knobs=[(0, 1, 2, 3)] if kind[0] == 'e' else (), inp=[fill(6)], reach=[]))
    # mixed parameters, constants in patterns of selectors, several constants
    for nv, mv in itertools.product((0, 1, 2), repeat=2):
        mk = lambda A, N, M, r: [F('x', A), F('s', 'slice', A_('Take', 'NN' if r else str(N), '(take %s)' % N)), F('v', ('vec', A), A_('Count', 'M' if r else str(M), '(count %s)' % M)), F('a', ('raw', '[u8; %s]' % ('M' if r else M), '(arr u8 %s)' % M))]
        for tl, t, ti, ob in (gt[1], gt[3]):
            for kind in kinds:
                tmpl = gstruct('T', kind, mk(TP('A'), 0, 0, 1), "<'a, A: PartialEq, const NN: usize, const M: usize>", ("<'a, A: PartialEq + engine::Enc, const NN: usize, const M: usize>", "<'a, A, NN, M>"))
                obs = [Struct('N', [F('n0', 'u8'), F('n1', 'u16')], attrs_text='#[derive(PartialEq)]\n')] if ob else []
                con = gstruct('T', kind, mk(t, nv, mv, 0), None, None)
                out.append(Prog('mx_%s_%s_%d%d' % (kind, tl, nv, mv), obs + [Gen(tmpl, [con])], call=('obj', 'T', "<T<'_, %s, %d, %d>>" % (rt(t), nv, mv)), args=[E('engine::kn(0) as u8', '(k 0)')] if kind[0] == 'e' else None, knobs=[(0, 1, 2, 3)] if kind[0] == 'e' else (),
                                inp=ti + [fill(8)], reach=[]))
        vs = lambda N, M, r: [Var('A', pguard(('_', '_'), E('selector == %s' % ('N' if r else N), '(== selector %s)' % N)), [F('x', 'u8')]), Var('B', pguard(pbind('n'), E('n as usize == %s as usize + 1' % ('M' if r else M), '(== n (+ %s 1))' % M)), [F('x', 'u16')], kind='tuple'), Var('C', pint(2), None)]
        out.append(Prog('cs_%d%d' % (nv, mv), [Gen(Enum('T', vs(0, 0, 1), generics='<const N: u8, const M: u16>', enc_generics=('<const N: u8, const M: u16>', '<N, M>')), [Enum('T', vs(nv, mv, 0))])], call=('obj', 'T', '<T<%d, %d>>' % (nv, mv)),
                        args=[E('engine::kn(0) as u8', '(k 0)')], knobs=[(0, 1, 2, 3, 4)], inp=[fill(3)], reach=[]))
    # lifetimes
    for k, (params, lts, where) in enumerate([("<'a>", ['a'], ''), ("<'a, 'b>", ['a', 'b'], ''), ("<'b, 'a>", ['b', 'a'], ''), ("<'a, 'b: 'a>", ['a', 'b'], ''), ("<'a: 'b, 'b>", ['a', 'b'], ''), ("<'a, 'b>", ['a', 'b'], "where 'a: 'b "), ("<'a, 'b>", ['a', 'b'], "where 'b: 'a, "),
                                             ("<'input>", ['input'], ''), ("<'i, 'input, 'x>", ['i', 'input', 'x'], ''), ("<'_x>", ['_x'], ''), ("<'nom_>", ['nom_'], ''), ("<'de>", ['de'], ''), ("<'a, 'b, 'c, 'd>", ['a', 'b', 'c', 'd'], ''), ("<'a, 'b, 'c>", ['a', 'b', 'c'], "where 'a: 'b + 'c, 'b: 'c ")]):
        for kind in kinds:
            sl = lambda l: ('raw', "&'%s [u8]" % l, 'noparse')
            fs = [F('n', 'u8')]
            for j, l in enumerate(lts):
                fs.append(F('s%d' % j, sl(l), TAKE('n & 3') if j % 2 == 0 else PARSE(p_take(1))))
            fs += [F('o', ('opt', sl(lts[0])), COND('n > 1'), TAKE(1)), F('v', ('vec', sl(lts[-1])), COUNT('n & 1'), TAKE(1)), F('t', ('raw', "Tup<&'%s [u8], u8>" % lts[0], '(tup noparse u8)'), PARSE(p_pair(p_take(1), p_int('u8', 'be'))))]
            g = '<%s>' % ', '.join("'" + l for l in lts)
            plain = "'_, " * len(lts)
            o = gstruct('T', kind, fs, params, ('', '<%s>' % plain[:-2]) if not (where or ':' in params) else (params, g), where=where)
            sel = ', 1' if kind[0] == 'e' else ''
            x = ', '.join(["'x"] * len(lts))
            extra = "pub fn keep<'x>(i: &'x [u8]) -> Option<(&'x [u8], T<%s>)> { let c = i; let r = { let d = &c[..]; T::parse_be(d%s) }; let s: nom::IResult<&'x [u8], T<%s>> = T::parse_le(c%s); drop(s); r.ok() }\n" % (x, sel, x, sel)
            out.append(Prog('l_%d_%s' % (k, kind), [o], args=[1] if kind[0] == 'e' else None, inp=[rng(0, 3), fill(11)], extra=extra, reach=[]))
    # lifetimes of nested objects; arguments with lifetimes; borrowed data in generic parameters
    for kind in kinds:
        S = Struct('S', [F('n', 'u8'), F('s', 'slice', TAKE('n & 1'))])
        so = ('obj', 'S', "S<'a>")
        mk = [F('a', so), F('b', ('opt', so)), F('c', ('vec', so), COUNT(1)), F('d', ('tup', so, 'u8')), F('e', ('arr', so, 1))]
        sel = ', 1' if kind[0] == 'e' else ''
        extra = "pub fn keep<'x>(i: &'x [u8]) -> Option<T<'x>> { let d = &i[..]; T::parse_be(d%s).ok().map(|x| x.1) }\n" % sel
        out.append(Prog('ln_%s' % kind, [S, gstruct('T', kind, mk, "<'a>", ('', "<'_>"))], args=[1] if kind[0] == 'e' else None, inp=[rng(0, 1), rng(0, 1), fill(7)], extra=extra, reach=[]))
        fs = [F('a', 'u8'), F('w', 'slice', A('Value', 'xs', '(value xs)')), F('s', 'slice', TAKE(2)), F('l', 'u8', VALUE('len(xs)', 'u8'))]
        out.append(Prog('la_%s' % kind, [gstruct('T', kind, fs, "<'a>", ('', "<'_>"), args=[('xs', "&'a [u8]")])], args=([1] if kind[0] == 'e' else []) + [E('&b"abc"[..]', '(slice 97 98 99)')], inp=[fill(4)],
                        extra="pub fn keep<'x>(i: &'x [u8], xs: &'x [u8]) -> Option<T<'x>> { let d = &i[..]; T::parse_be(d%s, xs).ok().map(|x| x.1) }\n" % sel, reach=[]))
        # a type parameter which borrows
        mk2 = lambda A: [F('a', A), F('b', ('vec', A), COUNT(2)), F('c', 'u8')]
        out.append(Prog('lb_%s' % kind, [S, Gen(gstruct('T', kind, mk2(TP('A')), '<A>', enc('A')), [gstruct('T', kind, mk2(('obj', 'S', "S<'_>")), None, None)])], call=('obj', 'T', "<T<S<'_>>>"), args=[1] if kind[0] == 'e' else None, inp=[rng(0, 1), rng(0, 1), fill(6)],
                        extra="pub fn keep<'x>(i: &'x [u8]) -> Option<T<S<'x>>> { let d = &i[..]; <T<S<'x>>>::parse_be(d%s).ok().map(|x| x.1) }\n" % sel, reach=[]))
        # both lifetime and type parameters
        for tl, t, ti, ob in gt[:8]:
            mk3 = lambda A: [F('x', A), F('s', 'slice', TAKE(2)), F('y', ('opt', A)), F('r', 'slice', PARSE(P_REST))]
            tm = gstruct('T', kind, mk3(TP('A')), "<'a, A>", ("<'a, A: engine::Enc>", "<'a, A>"))
            out.append(Prog('lt_%s_%s' % (kind, tl), ob + [Gen(tm, [gstruct('T', kind, mk3(t), None, None)])], call=('obj', 'T', "<T<'_, %s>>" % rt(t)), args=[1] if kind[0] == 'e' else None, inp=ti + [fill(2)] + ti + [fill(1)],
                            extra="pub fn keep<'x>(i: &'x [u8]) -> Option<T<'x, %s>> { let d = &i[..]; <T<'x, %s>>::parse_le(d%s).ok().map(|x| x.1) }\n" % (rt(t), rt(t), sel), reach=[]))
            # nested in a declaration which fixes the argument
            out.append(Prog('lf_%s_%s' % (kind, tl), ob + [Gen(tm, [gstruct('T', kind, mk3(t), None, None)]), Struct('O', [F('p', 'u8'), F('t', ('obj', 'T', "T<'a, %s>" % rt(t)), PARSE(p_obj('T', 'le', 'p') if kind[0] == 'e' else P('T::parse_le', '(obj @T le)')))], lt=True)],
                            inp=[rng(0, 2)] + ti + [fill(2)] + ti + [fill(1)], reach=[]))
    return out


# ------------------------------------------------------------------------------------- C22
STYLES = ['s', 'l', 'lc', 'raw', 'sc', 'uni', 'cont']


class FW(F):
    """field whose attributes are written in a special way"""
    def __init__(self, name, ty, *attrs, mode='', split=None, **kw):
        super().__init__(name, ty, *attrs, split=split, **kw)
        self.mode = mode

    def ren(self, m):
        f = super().ren(m)
        return FW(f.name, f.ty, *f.attrs, mode=self.mode, split=f.split, doc=f.doc)

    def attr_text(self):
        return written(self.attrs, self.mode, self.split)


def written(attrs, mode, split=None):
    l = [a.rs() for a in attrs]
    if mode == 'each':
        return ''.join('#[nom(%s)] ' % x for x in l)
    if mode == 'trail':
        return '#[nom(%s,)] ' % ', '.join(l)
    if mode == 'trails':
        return ''.join('#[nom(%s,)] ' % x for x in l)
    if mode == 'doc':
        return '/// before, #[nom(Count = "0")]\n' + ''.join('#[nom(%s)]\n/// between\n#[doc = "nom(Ignore)"]\n/** and\n block */\n' % x for x in l)
    if mode == 'comm':
        return '/* #[nom(Ignore)] */ #[nom( /* a */ %s /* b */ // c\n)] // #[nom(Ignore)]\n' % ' /* d */ , // e, \n /* f */'.join(l)
    if mode == 'ws':
        return '#\n[ \tnom\n (\n%s\n)\n]\n' % '\n ,\n\t'.join(l)
    if mode == 'tight':
        return '#[nom(%s)]' % ','.join(l)
    if mode == 'cfg':
        return ''.join('#[cfg_attr(all(), nom(%s))] ' % x for x in l) + '#[cfg_attr(any(), nom(Ignore))] '
    if mode == 'cfg1':
        return '#[cfg_attr(all(), allow(dead_code), nom(%s))] ' % ', '.join(l)
    if mode == 'others':
        return '#[allow(dead_code)] ' + ''.join('#[nom(%s)] #[cfg(all())] #[allow(unused)] ' % x for x in l)
    if mode == 'empty':
        return '#[nom()] ' + ''.join('#[nom(%s)] #[nom()] ' % x for x in l)
    if mode == 'split':
        return attr_text(attrs, split)
    return '#[nom(%s)] ' % ', '.join(l)


MODES = ['each', 'trail', 'trails', 'doc', 'comm', 'ws', 'tight', 'cfg', 'cfg1', 'others', 'empty']


def tab(f):
    """model expression of a function of the field `a`, which is 0..3"""
    v = [int(f(x)) for x in range(4)]
    s = str(v[3])
    for x in (2, 1, 0):
        s = '(if (== a %d) %d %s)' % (x, v[x], s)
    return s


C22X = '''pub const K2: u8 = 2; pub static S1: u8 = 1; pub struct P { pub x: u8 } impl P { pub const K: usize = 3; pub fn get(x: u8) -> u8 { x } pub fn len(&self) -> u8 { self.x } }
pub mod consts { pub const K1: u8 = 1; pub fn id(x: u8) -> u8 { x } pub fn be(i: &[u8]) -> super::nom::IResult<&[u8], u16> { super::nom::number::streaming::be_u16(i) } }
pub fn addone(x: u8) -> u8 { x + 1 } pub fn conv<T: Into<u64>>(x: T) -> u64 { x.into() } pub fn is_one(x: u8) -> bool { x == 1 } pub fn apply(f: impl Fn(u8) -> u8, x: u8) -> u8 { f(x) }
macro_rules! mac { ($e:expr) => { $e }; () => { 2 } } macro_rules! pmac { () => { nom::number::streaming::be_u16 } } macro_rules! stmac { ($e:expr) => { engine::ev(7, $e) } }
pub fn adder(k: u8) -> impl Fn(u8) -> u8 { move |x| x.wrapping_add(k) } pub const FN: fn(u8) -> u8 = addone; pub fn mkp<'x>(k: usize) -> impl FnMut(&'x [u8]) -> nom::IResult<&'x [u8], &'x [u8]> { nom::bytes::streaming::take(k) }
#[derive(Debug, Clone, PartialEq)] pub struct Wr(pub u8); impl engine::Enc for Wr { fn enc(&self, o: &mut Vec<u128>) { o.push(self.0 as u128) } }
'''

INTEXPR = [
    # label, expression, function of a, type
    ('lit', '2', lambda a: 2, 'u8'), ('hex', '0x2', lambda a: 2, 'u8'), ('bin', '0b1_0', lambda a: 2, 'u8'), ('suf', '2u8', lambda a: 2, 'u8'), ('suf_', '2_usize', lambda a: 2, 'usize'), ('oct', '0o2i64', lambda a: 2, 'i64'), ('byte', "b'\\x02'", lambda a: 2, 'u8'),
    ('fld', 'a', lambda a: a, 'u8'), ('cast', 'a as usize', lambda a: a, 'usize'), ('cast2', 'a as u64 as u32', lambda a: a, 'u32'), ('castp', '(a as i8) as u16', lambda a: a, 'u16'),
    ('add', 'a + 1', lambda a: a + 1, 'u8'), ('sub', '5 - a', lambda a: 5 - a, 'u8'), ('mul', 'a * 2', lambda a: a * 2, 'u8'), ('prec', '1 + a * 2', lambda a: 1 + 2 * a, 'u8'), ('prec2', '(1 + a) * 2', lambda a: 2 * (1 + a), 'u8'), ('mixed', '7 - a - 1', lambda a: 6 - a, 'u8'),
    ('and', 'a & 1', lambda a: a & 1, 'u8'), ('or', 'a | 1', lambda a: a | 1, 'u8'), ('xor', 'a ^ 3', lambda a: a ^ 3, 'u8'), ('shl', '1 << a', lambda a: 1 << a, 'u8'), ('shr', 'a >> 1', lambda a: a >> 1, 'u8'), ('rem', 'a % 2 + 1', lambda a: a % 2 + 1, 'u8'), ('div', '4 / (a + 1)', lambda a: 4 // (a + 1), 'u8'),
    ('orand', 'a & 1 | 2', lambda a: a & 1 | 2, 'u8'), ('castadd', '1 + a as usize', lambda a: a + 1, 'usize'), ('castsh', '(a as u16) << 1', lambda a: a << 1, 'u16'),
    ('not', '!!a', lambda a: a, 'u8'), ('not2', '!a & 3', lambda a: 3 - a, 'u8'), ('neg', '-(-(a as i32))', lambda a: a, 'i32'), ('neg2', '3 - -1i8', lambda a: 4, 'i8'), ('deref', '*&a', lambda a: a, 'u8'), ('paren', '(a)', lambda a: a, 'u8'), ('paren2', '((a) + (1))', lambda a: a + 1, 'u8'),
    ('blk', '{ a }', lambda a: a, 'u8'), ('blk2', '{ let b = a; let c = b + 1; c }', lambda a: a + 1, 'u8'), ('blk3', '{ fn f(x: u8) -> u8 { x } f(a) }', lambda a: a, 'u8'), ('unsafe', 'unsafe { a }', lambda a: a, 'u8'), ('if', 'if a > 1 { 1 } else { 2 }', lambda a: 1 if a > 1 else 2, 'u8'),
    ('ifelse', 'if a == 0 { 3 } else if a == 1 { a } else { 0 }', lambda a: (3, 1, 0, 0)[a], 'u8'), ('iflet', 'if let Some(x) = Some(a) { x + 1 } else { 0 }', lambda a: a + 1, 'u8'), ('match', 'match a { 0 => 1, 1 | 2 => 2, _ => 3 }', lambda a: (1, 2, 2, 3)[a], 'u8'),
    ('matchg', 'match a { x if x > 1 => x - 1, x @ 1 => x + 2, _ => 0 }', lambda a: (0, 3, 1, 2)[a], 'u8'), ('matcht', 'match (a, 1) { (x, y) => x + y }', lambda a: a + 1, 'u8'), ('call', 'addone(a)', lambda a: a + 1, 'u8'), ('callp', 'consts::id(a)', lambda a: a, 'u8'), ('calls', 'self::addone(a)', lambda a: a + 1, 'u8'),
    ('callm', 'P::get(a)', lambda a: a, 'u8'), ('calls2', 'addone(addone(a))', lambda a: a + 2, 'u8'), ('konst', 'K2', lambda a: 2, 'u8'), ('static', 'S1', lambda a: 1, 'u8'), ('kpath', 'consts::K1', lambda a: 1, 'u8'), ('assoc', 'P::K', lambda a: 3, 'usize'), ('assoc2', '<P>::K', lambda a: 3, 'usize'), ('max', 'u8::MAX - 253', lambda a: 2, 'u8'),
    ('turbo', 'conv::<u8>(a)', lambda a: a, 'u64'), ('from', 'usize::from(a)', lambda a: a, 'usize'), ('from2', '<u32 as From<u8>>::from(a)', lambda a: a, 'u32'), ('meth', 'a.min(2)', lambda a: min(a, 2), 'u8'), ('methc', 'a.wrapping_sub(1).wrapping_add(2)', lambda a: a + 1, 'u8'), ('litm', '2u8.max(a)', lambda a: max(2, a), 'u8'), ('litm2', '1_u8 + a', lambda a: 1 + a, 'u8'),
    ('cmp', 'core::cmp::min(a, 2)', lambda a: min(a, 2), 'u8'), ('idx', '[3u8, 1, 0, 2][a as usize]', lambda a: (3, 1, 0, 2)[a], 'u8'), ('tup', '(a, 2u16).0', lambda a: a, 'u8'), ('struct', 'P { x: a }.x', lambda a: a, 'u8'), ('structm', 'P { x: a }.len()', lambda a: a, 'u8'), ('clos', '(|x: u8| x + 1)(a)', lambda a: a + 1, 'u8'),
    ('closa', 'apply(|x| x + 1, a)', lambda a: a + 1, 'u8'), ('closb', 'apply(|x| { let y = x; y * 2 }, a)', lambda a: a * 2, 'u8'), ('mac', 'mac!(a)', lambda a: a, 'u8'), ('macb', 'mac![a + 1]', lambda a: a + 1, 'u8'), ('macc', 'mac! { a }', lambda a: a, 'u8'), ('mac0', 'mac!() + a', lambda a: 2 + a, 'u8'), ('vec', 'vec![0; 2].len()', lambda a: 2, 'usize'),
    ('str', '"ab".len()', lambda a: 2, 'usize'), ('bstr', 'b"7\\x00".len()', lambda a: 2, 'usize'), ('quote', '"\\"".len()', lambda a: 1, 'usize'), ('uni', '"\\u{e9}".len()', lambda a: 2, 'usize'), ('chr', "'\\x02' as u8", lambda a: 2, 'u8'), ('chrq', "('\\'' as u8) - 38", lambda a: 1, 'u8'), ('loop', 'loop { break a; }', lambda a: a, 'u8'), ('lab', "'x: loop { break 'x a; }", lambda a: a, 'u8'),
    ('unw', 'Some(a).unwrap_or(3)', lambda a: a, 'u8'), ('opt', 'a.checked_sub(1).unwrap_or(3)', lambda a: (3, 0, 1, 2)[a], 'u8'), ('mapor', 'Some(a).map_or(0, |v| v + 1)', lambda a: a + 1, 'u8'), ('bool', 'matches!(a, 1 | 2) as u8', lambda a: a in (1, 2), 'u8'), ('lt', '(a < 2) as u8', lambda a: a < 2, 'u8'), ('gen', '<u8 as Into<u32>>::into(a)', lambda a: a, 'u32'),
    ('iter', '(0..a).map(|x| x).count()', lambda a: a, 'usize'), ('iter2', '(0..=a as usize).len()' if False else '(0..a as usize).len()', lambda a: a, 'usize'), ('slice', '[1u8, 2, 3][..2].len()', lambda a: 2, 'usize'), ('size', 'core::mem::size_of::<u16>()', lambda a: 2, 'usize'), ('try', 'Some(a).into_iter().next().unwrap()', lambda a: a, 'u8'),
    ('two', '{ let x = 1; x + a }', lambda a: a + 1, 'u8'), ('u128', 'a as u128', lambda a: a, 'u128'), ('i128', 'a as i128', lambda a: a, 'i128'), ('letelse', '{ let Some(x) = Some(a) else { return Err(nom::Err::Error(nom::error::make_error(__I__, nom::error::ErrorKind::Alpha))); }; x }', lambda a: a, 'u8'),
]

BOOLEXPR = [
    ('t', 'true', lambda a: True), ('f', 'false', lambda a: False), ('eq', 'a == 1', lambda a: a == 1), ('ne', 'a != 1', lambda a: a != 1), ('lt', 'a < 2', lambda a: a < 2), ('ge', 'a >= 2', lambda a: a >= 2), ('and', 'a > 0 && a < 3', lambda a: 0 < a < 3), ('or', 'a == 0 || a == 2', lambda a: a in (0, 2)),
    ('andor', 'a == 0 || a > 1 && a != 2', lambda a: a in (0, 3)), ('orand', '(a == 0 || a > 1) && a != 2', lambda a: a in (0, 3)), ('not', '!(a == 1)', lambda a: a != 1), ('not2', '!is_one(a)', lambda a: a != 1), ('paren', '(a == 1)', lambda a: a == 1), ('eqeq', '(a > 0) == (a < 3)', lambda a: a in (1, 2)), ('xor', '(a > 0) ^ (a > 1)', lambda a: a == 1),
    ('bit', 'a & 1 != 0', lambda a: a & 1), ('bits', '(a & 1) | (a >> 1) == 1', lambda a: ((a & 1) | (a >> 1)) == 1), ('arith', 'a * 2 > 3', lambda a: 2 * a > 3), ('cast', 'a as u16 > 1', lambda a: a > 1), ('castl', '(a as u16) < 1', lambda a: a < 1), ('matches', 'matches!(a, 1 | 2)', lambda a: a in (1, 2)), ('macc', 'mac!(a == 1)', lambda a: a == 1),
    ('blk', '{ a > 1 }', lambda a: a > 1), ('blk2', '{ let b = a; b > 1 }', lambda a: a > 1), ('if', 'if a > 1 { true } else { a == 0 }', lambda a: a > 1 or a == 0), ('match', 'match a { 1 | 2 => true, _ => false }', lambda a: a in (1, 2)), ('call', 'is_one(a)', lambda a: a == 1), ('meth', 'Some(a).is_some()', lambda a: True), ('cont', '[1, 2].contains(&a)', lambda a: a in (1, 2)),
    ('range', '(1..3).contains(&a)', lambda a: a in (1, 2)), ('clos', '(|x: u8| x == 1)(a)', lambda a: a == 1), ('any', '[0u8, 3].iter().any(|x| *x == a)', lambda a: a in (0, 3)), ('konst', 'a == K2', lambda a: a == 2), ('cpath', 'a == consts::K1', lambda a: a == 1), ('assoc', 'a as usize == P::K', lambda a: a == 3), ('str', '"ab" == "ab"', lambda a: True),
    ('quote', '"\\"" != "\'"', lambda a: True), ('neg', '-(a as i8) < -1', lambda a: a > 1), ('unsafe', 'unsafe { a == 1 }', lambda a: a == 1), ('struct', '(P { x: a }).x == 1', lambda a: a == 1), ('loop', 'loop { break a == 1 }', lambda a: a == 1), ('eqc', 'a == 1 as u8', lambda a: a == 1), ('deref', '*&a == 1', lambda a: a == 1), ('isx', 'a.eq(&1)', lambda a: a == 1),
]


def sty(a, st):
    """an attribute in a given style, or None if it cannot be written this way"""
    if st == 'l' and a.arg is not None and (a.arg.startswith('"') or a.arg.startswith('b"')) and False:
        return None
    return a.st(st)


def C22(tier):
    out = []
    T = tier == THOROUGH
    n = 0
    kinds = ['named', 'tuple', 'evar', 'etup']

    def put(nm, fields, kind, inp, **kw):
        out.append(wrap(nm, fields, inp, kind, reach=[], extra=C22X, **kw))

    cnt = [0]

    def rot(kind, st):
        # in the quick tier, one of the kinds of objects for each style
        if T:
            return True
        if kind == kinds[0]:
            cnt[0] += 1
        return kinds[(cnt[0] + STYLES.index(st)) % 4] == kind

    # 1. every kind of integer expression in every attribute taking a number, in all styles
    def num_attrs(rs, sx):
        return [
            ('Count', ('vec', 'u8'), [A('Count', rs, '(count %s)' % sx)]), ('Take', 'slice', [A('Take', rs, '(take %s)' % sx)]), ('SkipBefore', 'u8', [A('SkipBefore', rs, '(skipb %s)' % sx)]), ('SkipAfter', 'u8', [A('SkipAfter', rs, '(skipa %s)' % sx)]),
            ('AlignBefore', 'u8', [A('AlignBefore', rs, '(alignb %s)' % sx)]), ('AlignAfter', 'u8', [A('AlignAfter', rs, '(aligna %s)' % sx)]), ('Move', 'u8', [A('Move', rs, '(move %s)' % sx)]), ('MoveAbs', 'u8', [A('MoveAbs', rs, '(moveabs %s)' % sx)]),
            ('Value', None, [A('Value', rs, '(value %s)' % sx)]), ('CountCount', ('vec', ('vec', 'u8')), [A('Count', rs, '(count %s)' % sx), A('Count', rs, '(count %s)' % sx)]),
            ('CountTake', ('vec', 'slice'), [A('Count', rs, '(count %s)' % sx), A('Take', rs, '(take %s)' % sx)]),
        ]
    for ei, (el, rs, f, ty) in enumerate(INTEXPR):
        for ai, (al, aty, ats) in enumerate(num_attrs(rs, tab(f))):
            if el == 'u128' and al in ('Move', 'MoveAbs'):
                continue
            for si, st in enumerate(STYLES if T else ['s', 'l', STYLES[2 + (ei + ai) % 5]]):
                n += 1
                if st == 'uni' and '__I__' in rs:
                    continue
                kind = kinds[(ei + ai + si) % 4]
                t = aty or ty
                if t == 'usize':
                    t = ('raw', 'usize', 'u64')
                put('i_%s_%s_%s' % (el, al, st), [F('a', 'u8'), F('bb', t, *[a.st(st) for a in ats]), F('cc', 'u16')], kind, [rng(0, 3), fill(12)])
    # 2. conditions
    for ei, (el, rs, f) in enumerate(BOOLEXPR):
        sx = tab(f)
        for ai, (al, t, ats, named) in enumerate([('Cond', ('opt', 'u16'), [A('Cond', rs, '(cond %s)' % sx)], 0), ('If', ('opt', 'u16'), [A('If', rs, '(cond %s)' % sx)], 0), ('ErrorIf', 'u16', [A('ErrorIf', rs, '(errif %s)' % sx)], 0), ('Verify', 'u16', [A('Verify', rs, '(verify %s)' % sx)], 1),
                                                  ('Value', ('raw', 'bool', 'u8'), [A('Value', rs, '(value %s)' % sx)], 0), ('CondVal', ('opt', 'u8'), [A('Cond', rs, '(cond %s)' % sx), A('Verify', rs, '(verify %s)' % sx)], 1)]):
            for si, st in enumerate(STYLES if T else ['s', 'l', STYLES[2 + (ei + ai) % 5]]):
                kind = kinds[(ei + ai + si) % 4]
                if named:
                    kind = {'tuple': 'named', 'etup': 'evar'}.get(kind, kind)
                put('c_%s_%s_%s' % (el, al, st), [F('a', 'u8'), F('bb', t, *[a.st(st) for a in ats]), F('cc', 'u8')], kind, [rng(0, 3), fill(4)])
        # as selector guard
        for st in ('s', 'l'):
            vs = [Var('A', ('a if %s' % rs, '(guard (bind a _) %s)' % sx), [F('x', 'u8')], patstyle=st), Var('B', '_', [F('x', 'u16')], patstyle=st)]
            out.append(Prog('cg_%s_%s' % (el, st), [Enum('T', vs)], extra=C22X, args=[E('engine::kn(0) as u8', '(k 0)')], knobs=[(0, 1, 2, 3)], inp=[fill(3)], reach=[]))
    # 3. functions applied to values
    maps = [
        ('clos', '|x: u8| x ^ 1', '(map v (^ v 1))'), ('closb', '|x: u8| { x ^ 1 }', '(map v (^ v 1))'), ('closr', '|x: u8| -> u8 { x ^ 1 }', '(map v (^ v 1))'), ('closp', '(|x: u8| x ^ 1)', '(map v (^ v 1))'), ('closk', '{ |x: u8| x ^ 1 }', '(map v (^ v 1))'), ('move', 'move |x: u8| x ^ a', '(map v (^ v a))'), ('cap', '|x: u8| x & a', '(map v (& v a))'),
        ('fn', 'consts::id', '(map v v)'), ('fnp', 'self::consts::id', '(map v v)'), ('meth', 'u8::reverse_bits', None), ('methp', '<u8>::count_ones', None), ('from', 'u16::from', '(map v v)'), ('ctor', 'Wr', '(map v v)'), ('some', 'Some', '(map v (some v))'), ('call', 'adder(1)', None), ('callf', 'adder(a)', None), ('konst', 'FN', None),
        ('blk', '{ let k = a; move |x: u8| x ^ k }', '(map v (^ v a))'), ('underscore', '|_: u8| 7', '(map v 7)'), ('match', '|x: u8| match x { 0 => 1u8, _ => 2 }', '(map v (if (== v 0) 1 2))'), ('tuple', '|x: u8| (x, a)', '(map v (tuple v a))'), ('if', '|x: u8| if x > a { x } else { a }', '(map v (if (> v a) v a))'),
    ]
    for k, (lab, rs, sx) in enumerate(maps):
        if sx is None:
            if lab in ('call', 'konst'):
                sx = '(map v (& (+ v 1) 255))'
            elif lab == 'callf':
                sx = '(map v (& (+ v a) 255))'
            else:
                continue
        ty = {'from': 'u16', 'ctor': ('raw', 'Wr', 'u8'), 'some': ('opt', 'u8'), 'tuple': ('tup', 'u8', 'u8'), 'underscore': 'u8'}.get(lab, 'u8')
        for st in STYLES:
            for kind in kinds:
                if not rot(kind, st):
                    continue
                # (small values: no overflow in the functions)
                inp = [rng(0, 3), rng(0, 3), fill(1)]
                put('m_%s_%s_%s' % (lab, st, kind), [F('a', 'u8'), F('bb', ty, A('Map', rs, sx, st), PARSE(p_int('u8', 'be')).st(st)), F('cc', 'u8')], kind, inp)
    # 4. parsers
    parsers = [
        ('path', 'nom::number::streaming::be_u16', '(int 2 be)', 'u16'), ('use', 'be16', '(int 2 be)', 'u16'), ('mod', 'consts::be', '(int 2 be)', 'u16'), ('self', 'self::consts::be', '(int 2 be)', 'u16'), ('qself', '<u16>::parse_le', '(int 2 le)', 'u16'), ('type', 'u16::parse_be', '(int 2 be)', 'u16'), ('ufcs', '<u16 as Parse<&[u8]>>::parse_le', '(int 2 le)', 'u16'),
        ('call', 'nom::bytes::streaming::take(a as usize)', '(take a)', 'slice'), ('calls', 'nom::bytes::streaming::take(2usize)', '(take 2)', 'slice'), ('user', 'mkp(a as usize)', '(take a)', 'slice'), ('clos', '{ |x| nom::number::streaming::be_u16(x) }', '(int 2 be)', 'u16'), ('closn', "{ |x: &'nom [u8]| { let (x, y) = nom::number::streaming::be_u16(x)?; Ok((x, y)) } }", '(int 2 be)', 'u16'),
        ('closp', '(|x| nom::number::streaming::be_u16(x))', '(int 2 be)', 'u16'), ('paren', '(nom::number::streaming::le_u16)', '(int 2 le)', 'u16'), ('blk', '{ let k = a as usize; nom::bytes::streaming::take(k) }', '(take a)', 'slice'), ('mac', 'pmac!()', '(int 2 be)', 'u16'), ('pair', 'nom::sequence::pair(nom::number::streaming::u8, nom::number::streaming::be_u16)', '(pair (int 1 be) (int 2 be))', ('tup', 'u8', 'u16')),
        ('map', 'nom::combinator::map(nom::number::streaming::be_u16, |x| x ^ 1)', '(map (int 2 be) v (^ v 1))', 'u16'), ('opt', 'nom::combinator::opt(nom::combinator::complete(nom::number::streaming::be_u16))', '(opt (complete (int 2 be)))', ('opt', 'u16')), ('meth', 'nom::number::streaming::be_u16.map(|x: u16| x ^ 1)', '(map (int 2 be) v (^ v 1))', 'u16'),
        ('if', 'if a > 1 { nom::number::streaming::be_u16 } else { nom::number::streaming::le_u16 }', None, 'u16'), ('count', 'nom::multi::count(nom::number::streaming::u8, a as usize)', '(count (int 1 be) a)', ('vec', 'u8')), ('turbo', 'nom::bytes::streaming::take::<_, _, nom::error::Error<&[u8]>>(a)', '(take a)', 'slice'), ('tag', 'nom::bytes::streaming::tag(&b"\\xb6"[..])', '(tag 182)', 'slice'),
        ('ret', "{ |x: &'nom [u8]| { return nom::number::streaming::be_u16(x); } }", '(int 2 be)', 'u16'), ('many', 'nom::multi::many0(nom::combinator::complete(nom::number::streaming::be_u16))', '(many (complete (int 2 be)))', ('vec', 'u16')), ('verify', 'nom::combinator::verify(nom::number::streaming::u8, |x: &u8| *x != a)', None, 'u8'), ('tuple', '(nom::number::streaming::u8, nom::number::streaming::be_u16)', '(pair (int 1 be) (int 2 be))', ('tup', 'u8', 'u16')),
    ]
    for lab, rs, sx, ty in parsers:
        if sx is None:
            if lab != 'if':
                continue
        for st in STYLES:
            for kind in kinds:
                f = F('bb', ty, A('Parse', rs, '(parse %s)' % sx, st)) if lab != 'if' else None
                if f is None or not rot(kind, st):
                    continue
                put('p_%s_%s_%s' % (lab, st, kind), [F('a', 'u8'), f, F('cc', 'u8')], kind, [rng(0, 3), fill(5)])
                out[-1].extra += 'use nom::number::streaming::be_u16 as be16;\n'
                if ty == 'u16' and kind in ('named', 'evar') and st in ('s', 'l'):
                    put('pl_%s_%s_%s' % (lab, st, kind), [F('a', 'u8'), F('bb', ('vec', 'u8'), A('LengthCount', rs, '(lcount %s)' % sx, st)), F('dd', ('vec', 'u16'), COUNT(1).st(st), A('Parse', rs, '(parse %s)' % sx, st)), F('cc', 'u8')], kind, [rng(0, 1), alt(b'\0\1', b'\1\0', b'\0\0'), fill(6)])
                    out[-1].extra += 'use nom::number::streaming::be_u16 as be16;\n'
                if ty == 'slice' and st in ('s', 'l'):
                    put('pv_%s_%s_%s' % (lab, st, kind), [F('a', 'u8'), F('bb', ('vec', 'slice'), COUNT('a').st(st), A('Parse', rs, '(parse %s)' % sx, st)), F('oo', ('opt', 'slice'), COND('a == 1').st(st), A('Parse', rs, '(parse %s)' % sx, st)), F('cc', 'u8')], kind, [rng(1, 3), fill(6)])
    # tags
    for lab, rs, by in (('b', 'b"\\x01\\x02"', b'\1\2'), ('arr', '[1u8, 2]', b'\1\2'), ('ref', '&[1u8, 2]', b'\1\2'), ('konst', 'TAGC', b'\1\2'), ('sl', 'TAGS', b'\1\2'), ('str', '"\\x01\\x02".as_bytes()', b'\1\2'), ('blk', '{ b"\\x01\\x02" }', b'\1\2'), ('one', 'b"\\x01"', b'\1'), ('raw', 'br"AB"', b'AB'), ('rawh', 'br#"A""#', b'A"'), ('q', 'b"\\"\\\\"', b'"\\'), ('idx', 'TAGS[1..]', b'\2'), ('call', 'tagf()', b'\1\2'),
                        ('if', 'if true { TAGS } else { &[] }', b'\1\2'), ('vec', 'vec![1u8, 2]', b'\1\2'), ('mac', 'mac!(b"\\x01\\x02")', b'\1\2')):
        for st in STYLES:
            for kind in kinds:
                if not rot(kind, st):
                    continue
                put('g_%s_%s_%s' % (lab, st, kind), [F('a', 'u8'), F('bb', 'slice', A('Tag', rs, '(tag %s)' % ' '.join(map(str, by)), st)), F('cc', 'u8')], kind, [fill(1), alt(by, by[:-1] + b'\x77', b'\x77' + by[1:]), fill(1)])
                out[-1].extra += "pub const TAGC: [u8; 2] = [1, 2]; pub static TAGS: &[u8] = &[1, 2]; pub fn tagf() -> &'static [u8] { TAGS }\n"
    # 5. statements
    stmts = [
        ('let', 'let zz = a + 1;', '(let zz (+ a 1))'), ('lett', 'let zz: u8 = a;', '(let zz a)'), ('letp', 'let (zz, _) = (a, 2);', '(let zz a)'), ('letmut', 'let mut zz = a;', '(let zz a)'), ('letif', 'let zz = if a > 1 { 1 } else { 0 };', '(let zz (if (> a 1) 1 0))'), ('letelse', 'let Some(zz) = Some(a) else { unreachable!() };', '(let zz a)'), ('letclos', 'let zz = (|x: u8| { x + 1 })(a);', '(let zz (+ a 1))'),
        ('call', 'engine::ev(5, a);', '(ev 5 a)'), ('blk', '{ engine::ev(5, a); engine::ev(6, 1); }', '(seq (ev 5 a) (ev 6 1))'), ('mac', 'stmac!(a);', '(ev 7 a)'), ('macb', 'stmac! { a };', '(ev 7 a)'), ('if', 'if true { engine::ev(5, a); }', '(ev 5 a)'), ('for', 'for x in 1..3 { engine::ev(5, x); }', '(seq (ev 5 1) (ev 5 2))'), ('match', 'match a { _ => { engine::ev(5, a); } }', '(ev 5 a)'), ('item', 'const QQ: u8 = 3;', '(let qq 3)'),
        ('fn', 'fn inner(x: u8) -> u8 { x }', '(let qq 0)'), ('use', 'use core::cmp::min;', '(let qq 0)'), ('adv', 'let __I__ = &__I__[1.min(__I__.len())..];', '(advance 1)'), ('loop', 'loop { engine::ev(5, a); break; }', '(ev 5 a)'), ('str', 'engine::ev(5, "7;7\\"".len());', '(ev 5 4)'), ('unsafe', 'unsafe { engine::ev(5, a); }', '(ev 5 a)'), ('assign', 'let _ = engine::ev(5, a);', '(ev 5 a)'),
    ]
    for lab, rs, sx in stmts:
        for st in STYLES:
            for kind in kinds:
                uz = lab.startswith('let')
                if st == 'uni' and '__I__' in rs or not rot(kind, st):
                    continue
                if lab in ('item', 'fn', 'use'):
                    put('s_%s_%s_%s' % (lab, st, kind), [F('a', 'u8'), F('bb', 'u8', A('PreExec', rs, '(pre %s)' % sx, st)), F('cc', 'u8')], kind, [rng(0, 3), fill(8)])
                    continue
                put('s_%s_%s_%s' % (lab, st, kind), [F('a', 'u8'), F('bb', 'u8', A('PreExec', rs, '(pre %s)' % sx, st)), F('dd', 'u8', A('PostExec', rs, '(post %s)' % sx, st))] + ([V('ee', 'u8', 'zz', 'zz'), F('vv', ('vec', 'u8'), COUNT('zz').st(st))] if uz else []) + [F('cc', 'u8')], kind, [rng(0, 3), fill(8)])
    # several statements between parentheses
    for kind in kinds:
        put('s2_%s' % kind, [F('a', 'u8'), F('bb', 'u8', A('PreExec', 'let zz = a; engine::ev(5, zz); let zz = zz + 1;', '(pre (ev 5 a)) (pre (let zz (+ a 1)))', 'l')), F('vv', ('vec', 'u8'), COUNT('zz'))], kind, [rng(0, 3), fill(6)])
    # 6. lists: every way to split lists of attributes, and all writings
    seqs = [
        ('dirs', 'u8', [SKIPB(1), ALIGNB(4), ERRIF('a == 2'), SKIPA('a')], 0), ('cnt', ('vec', 'u8'), [COUNT('a'), MAP('v ^ 1', 'v', 'u8'), PARSE(p_int('u8', 'be')), PRE(s_ev(1, 'a'))], 0), ('cond', ('opt', 'u16'), [COND('a != 1'), MAP('v ^ 1', 'v', 'u16'), COMPLETE, LE], 0),
        ('two', 'u16', [LE, MOVE(1)], 0), ('ver', 'u16', [COMPLETE, VERIFY('bb != 5', 'bb'), BE, POST(s_ev(2, 'bb'))], 1), ('cc', ('vec', ('vec', 'u8')), [COUNT('a'), COUNT(2), PRE(s_let('q', 'a')), SKIPA('q')], 0), ('lc', ('vec', ('opt', 'u8')), [LCOUNT(cnt8()), COND('a > 1'), DEBUG, MAP('v + 0', 'v', 'u8')], 1),
        ('pp', 'u8', [PRE(s_ev(1)), PRE(s_ev(2)), SKIPB(1), PRE(s_ev(3)), POST(s_ev(4)), SKIPA(1), POST(s_ev(5))], 0), ('val', 'u16', [PRE(s_let('q', 'a + 1')), VALUE('q', 'u16'), SKIPA('q')], 0), ('one', ('vec', 'u8'), [COUNT('a')], 0), ('take', 'slice', [ALIGNB(2), TAKE('a')], 0), ('flag', 'u16', [COMPLETE, LE], 0), ('ign', 'u16', [SKIPB(1), IGNORE], 0), ('flag1', 'u16', [BE], 0),
    ]
    for lab, ty, ats, named in seqs:
        k = len(ats)
        kk = [x for x in kinds if not named or x in ('named', 'evar')]
        # compositions
        for m in range(1 << (k - 1)):
            if k > 5 and not T and m % 3:
                continue
            sp, c = [], 1
            for b in range(k - 1):
                if m >> b & 1:
                    sp.append(c)
                    c = 1
                else:
                    c += 1
            for kind in kk if T else [kk[m % len(kk)]]:
                put('l_%s_%d_%s' % (lab, m, kind), [F('a', 'u8'), FW('bb', ty, *ats, mode='split', split=sp or None), F('cc', 'u8')], kind, [rng(0, 3), fill(9)])
        for mode in MODES:
            for kind in kk if T else [kk[MODES.index(mode) % len(kk)]]:
                for st in ('s', 'l') + (tuple(STYLES[2:]) if T else ()):
                    put('w_%s_%s_%s_%s' % (lab, mode, kind, st), [F('a', 'u8'), FW('bb', ty, *[a.st(st) for a in ats], mode=mode), F('cc', 'u8')], kind, [rng(0, 3), fill(9)])
        # mixed styles
        for m in range(len(STYLES)):
            for kind in kk if T else [kk[m % len(kk)]]:
                put('x_%s_%d_%s' % (lab, m, kind), [F('a', 'u8'), F('bb', ty, *[a.st(STYLES[(m + j) % len(STYLES)]) for j, a in enumerate(ats)]), F('cc', 'u8')], kind, [rng(0, 3), fill(9)])
    # 7. aliases, alone and behind or before other attributes
    for kind in kinds:
        for st in STYLES:
            for al in ('If', 'Cond'):
                put('a_%s_%s_%s' % (al, st, kind), [F('a', 'u8'), F('bb', ('opt', 'u16'), COND('a == 1').alias(al).st(st)), F('dd', ('opt', 'u16'), SKIPB(1), COND('a != 1').alias(al).st(st), COMPLETE, PARSE(p_int('u16', 'le'))), F('ee', ('vec', ('opt', 'u8')), COUNT(2), COND('a == 2').alias(al).st(st)), F('cc', 'u8')], kind, [rng(0, 3), fill(6)])
        for al in ('Ignore', 'Default'):
            put('a_%s_%s' % (al, kind), [F('a', 'u8'), F('bb', ('opt', 'u16'), IGNORE.alias(al)), F('dd', 'u16', SKIPB(1), IGNORE.alias(al)), F('ee', ('opt', 'u16'), COND('a == 2'), IGNORE.alias(al)), F('ff', ('vec', 'u32'), COUNT('a'), IGNORE.alias(al)), F('cc', 'u8')], kind, [rng(0, 3), fill(3)])
    # 8. attributes of objects and variants
    tops = [
        ('pre', dict(), [PRE(s_ev(1, 'ilen')), PRE(s_let('zz', 'ilen')), POST(s_ev(2, 'ilen'))]), ('set', dict(), [SETENDIAN('ilen % 2 == 1')]), ('flags', dict(complete=True, debug=True, end='le'), []), ('all', dict(complete=True, debug=True, input='aaa', args=[('xa', 'u8'), ('xb', 'u16')]), [PRE(s_ev(1, 'xa')), EXACT]),
        ('ge', dict(generr=True, input='bbb', end='be'), [EXACT]), ('adv', dict(end='le'), [PRE(s_advance(1)), POST(s_advance(1)), EXACT]), ('in', dict(input='aaa'), [PRE(s_ev(1, 'ilen'))]),
    ]
    for lab, kw, top in tops:
        for kind in kinds:
            for st in STYLES:
                if kind in ('tuple', 'etup') and kw.get('debug') or st == 'uni' and any('__I__' in x.arg for x in top if x.arg):
                    continue
                for ins in ('s', 'l') if kw.get('input') else ('s',):
                    for sp in (None, 'each', 'trail', 'doc', 'comm', 'cfg'):
                        if not T and STYLES.index(st) > 1 and sp is not None:
                            continue
                        fs = [F('a', 'u16'), F('b', 'u8')]
                        k = dict(kw)
                        if sp in (None, 'each'):
                            k['topsplit'] = sp
                        k['inputstyle'] = ins
                        o = Struct('T', fs, kind=kind, top=[a.st(st) for a in top], **k) if kind in ('named', 'tuple') else Enum('T', [Var('A', 1, fs, kind='named' if kind == 'evar' else 'tuple'), Var('B', 2, None)], top=[a.st(st) for a in top], **k)
                        if sp in ('trail', 'doc', 'comm', 'cfg'):
                            o.written = sp
                        out.append(Prog('t_%s_%s_%s_%s_%s' % (lab, kind, st, ins, sp), [o], extra=C22X, args=([E('engine::kn(0) as u8', '(k 0)')] if kind[0] == 'e' else []) + ([4, 5] if 'args' in kw else []), knobs=[(1, 2, 3)] if kind[0] == 'e' else (), err=MYERR if kw.get('generr') else None,
                                        inp=[fill(5)], reach=[]))
        # any order of the attributes of an object
        if len(top) + len(kw) > 1:
            m = len([x for x in kw if x != 'args']) + len(top) + (1 if 'args' in kw else 0)
            perms = list(itertools.permutations(range(m)))
            for pi, perm in enumerate(perms if T or m < 4 else perms[::max(1, len(perms) // 24)]):
                idx = [x for x in perm if x >= m - len(top)]
                if idx != sorted(idx):
                    continue
                fs = [F('a', 'u16'), F('b', 'u8')]
                out.append(Prog('o_%s_%d' % (lab, pi), [Struct('T', fs, top=list(top), toporder=perm, **kw)], args=[4, 5] if 'args' in kw else None, err=MYERR if kw.get('generr') else None, inp=[fill(5)], reach=[]))
    # unit variants and patterns
    for st in STYLES:
        if st == 'uni':
            continue
        for mode in [None] + MODES:
            ats = [PRE(s_ev(1, 'ilen')), SKIPB(1), PARSE(p_int('u8', 'be')), POST(s_ev(2, 'ilen')), SKIPA(1)]
            ats = [a.st(st) for a in ats]
            pats = [('1', '1'), ('2 | 3', '(or 2 3)'), ('4 ..= 6', '(range 4 6)'), ('x if x == 7', '(guard (bind x _) (== x 7))'), ('_', '_')]
            vs = []
            for j, p in enumerate(pats):
                v = Var('V%d' % j, p, None, attrs=ats if j != 2 else [], patstyle='l' if st == 'l' else 's')
                v.mode, v.st = mode, st
                vs.append(v)
            out.append(Prog('v_%s_%s' % (st, mode), [EnumW('T', vs)], args=[E('engine::kn(0) as u8', '(k 0)')], knobs=[(1, 2, 3, 4, 6, 7, 8)], inp=[fill(4)], reach=[]))
    # the selector of a variant anywhere among its attributes
    for mode, nat in itertools.product([None] + MODES, (1, 2, 3, 5)):
        for pos in range(1, nat + 1):
            ats = [PRE(s_ev(1, 'ilen')), PARSE(p_int('u8', 'be')), SKIPB(1), POST(s_ev(2, 'ilen')), SKIPA(1)][:nat]
            vs = []
            for j, p in enumerate([('1', '1'), ('2 | 3', '(or 2 3)'), ('x if x == 7', '(guard (bind x _) (== x 7))'), ('_', '_')]):
                v = Var('V%d' % j, p, None, attrs=ats if j != 1 else ats[:1], patstyle='s')
                v.mode, v.st, v.pos = mode, 's', pos
                vs.append(v)
            out.append(Prog('vp_%s_%d_%d' % (mode, nat, pos), [EnumW('T', vs)], args=[E('engine::kn(0) as u8', '(k 0)')], knobs=[(1, 2, 3, 7, 8)], inp=[fill(4)], reach=[]))
    return out


class EnumW(Enum):
    """enum of unit variants whose attributes are written in a special way"""
    def rs(self):
        vs = []
        for v in self.variants:
            p = A('Selector', v.pat[0], '', v.st)
            k = min(getattr(v, 'pos', 0), len(v.attrs))
            vs.append('%s %s,' % (written(v.attrs[:k] + [p] + v.attrs[k:], v.mode), v.name))
        s = '%spub enum %s { %s }\n' % (self.head_rs(), self.name, ' '.join(vs))
        s += 'impl engine::Enc for %s { fn enc(&self, __out: &mut Vec<u128>) { match self { %s } } }\n' % (self.name, ' '.join('%s::%s => { __out.push(%d); }' % (self.name, v.name, k) for k, v in enumerate(self.variants)))
        return self.subst(s)
