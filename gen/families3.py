"""Program families C14-C17 (see families.py)."""
from families import *
from families import _letters, _SIZE
from families2 import DIRS, pint, prange, por, pguard, pbind


def opt_kids():
    """items looking at the end of the input"""
    return [
        ('opt', [F('fa', ('opt', 'u16')), F('fb', 'u8')], [fill(3)], [], {}),
        ('vec', [F('fa', 'u8'), F('fb', ('vec', 'u16'))], [fill(5)], [], {}),
        ('optn', [F('fa', ('opt', ('obj', 'N'))), F('fb', 'u8')], [rng(0, 2), fill(2)], [Struct('N', [F('x', 'u8', VERIFY('x != 1', 'x')), F('y', 'u8')])], {}),
        ('vecn', [F('fa', ('vec', ('obj', 'N')))], [rep((0, 1, 2), 4)], [Struct('N', [F('x', 'u8', VERIFY('x != 1', 'x')), F('y', 'u8')])], {}),
        ('arr', [F('fa', ('arr', 'u16', 2))], [fill(4)], [], {}),
        ('compl', [F('fa', 'u8', COMPLETE), F('fb', 'u16', COMPLETE), F('fc', 'u16')], [fill(5)], [], {}),
        ('optvec', [F('fa', ('opt', ('tup', 'u8', ('opt', 'u16'))))], [fill(3)], [], {}),
        ('lcv', [F('fa', ('vec', ('opt', 'u16')), LCOUNT(cnt8()))], [rng(0, 2), fill(4)], [], {}),
        ('condc', [F('fa', 'u8'), F('fb', ('opt', 'u16'), COND('fa == 1'), COMPLETE)], [rng(0, 1), fill(2)], [], {}),
    ]


# ------------------------------------------------------------------------------------- C14
ERRS = [('err', None), ('my', MYERR), ('unit', "()"), ('tup', "(&[u8], nom::error::ErrorKind)")]
DD = '#[nom(DebugDerive)]\n'


def _needs_ext(fields, objs):
    """items whose parsers need more from the error type than ParseError"""
    s = repr([f.ty for f in fields]) + repr([f.ty for o in objs for f in getattr(o, 'fields', [])])
    return 'arr' in s or "'str'" in s


def C14(tier):
    out = []
    T = tier == THOROUGH
    never = ('err', 'failp')
    items = stream_items() + opt_kids()
    for n, (lab, fs, inp, objs, kw) in enumerate(items):
        reach = []
        ext = _needs_ext(fs, objs)
        with_parse = any(a.name in ('Parse', 'LengthCount') for f in fs for a in f.attrs) or any(a.name == 'Parse' for o in objs for f in getattr(o, 'fields', []) for a in f.attrs)

        named_only = any(a.name in ('Verify', 'Debug') for f in fs for a in f.attrs)

        def put(nm, fields, kind, flags=(), derr=None, obs=None, place=None, **k):
            if named_only and kind in ('tuple', 'etup'):
                return
            obs = objs if obs is None else obs
            out.append(wrap('%s_%s_%s' % (nm, kind, lab), [F('p', 'u8')] + fields, [fill(1)] + inp, kind, objs=obs, flags=flags, reach=reach, tail=1, **k))
            if derr is not None:
                out[-1].err = derr
        # Debug: on the object, on each field, on all fields; first and last in the list of attributes
        put('none', fs, 'named')
        for kind in ('named', 'evar', 'nested', 'complete', 'vec', 'opt', 'third', 'input', 'args'):
            put('dobj', fs, kind, ['dbg'], debug=True)
        for j in range(len(fs)):
            for where in (0, 1):
                g = list(fs)
                at = list(fs[j].attrs)
                term = [k for k, a in enumerate(at) if a.name in ('Tag', 'Take', 'Value', 'Parse', 'Ignore', 'Default')]
                if not where:
                    at = [DEBUG] + at
                elif term:
                    at = at[:term[0]] + [DEBUG] + at[term[0]:]
                else:
                    at = at + [DEBUG]
                if where and at[0] is DEBUG:
                    continue
                g[j] = F(fs[j].name, fs[j].ty, *at)
                for kind in ('named', 'evar', 'complete'):
                    put('dfld%d%d' % (j, where), g, kind, ['dbg'])
                    put('dboth%d%d' % (j, where), g, kind, ['dbg'], debug=True)
        g = [F(f.name, f.ty, DEBUG, *f.attrs) for f in fs]
        put('dall', g, 'named', ['dbg'])
        put('dall', g, 'nested', ['dbg'])
        # DebugDerive, alone and with others
        for kind in ('named', 'tuple', 'evar', 'etup') if T or n % 4 == 0 else (('named', 'tuple', 'evar', 'etup')[n % 4],):
            put('dd', fs, kind, attrs_text=DD)
        # InputName
        for nm in ('aaa', 'rest', 'i2', '_x', 'data', '__input', 'bytes', 'input', 'E', 'I', 'orig', 'selector_', 'nom_i', 'res'):
            for kind in ('named', 'tuple', 'evar', 'etup'):
                if not T and (kind not in ('named', 'evar') or (n + len(nm)) % 3) and nm != 'aaa':
                    continue
                put('in_%s' % nm.replace('r#', 'r_'), fs, kind, input=nm)
        put('ins', fs, 'named', input='aaa', inputstyle='l')
        # GenericErrors: all error types
        # (the methods of an enum with GenericErrors need an error type with Debug)
        if not ext and lab != 'en':
            obs = []
            import copy
            for o in objs:
                o = copy.copy(o)
                o.generr = True
                obs.append(o)
            for en, et in ERRS:
                for kind in ('named', 'tuple', 'evar', 'etup') if en in ('my', 'unit') or T else ('named',):
                    put('ge_%s' % en, fs, kind, derr=et, obs=obs, generr=True)
            # the object is generic, those using it have a fixed type
            for kind in ('nested', 'vec', 'opt', 'nested3'):
                put('gef', fs, kind, obs=obs, generr=True)
            # everything together
            has_dbg = any(a is DEBUG for f in fs for a in f.attrs)
            for en, et in ERRS[:2]:
                put('all_%s' % en, fs, 'named', ['dbg'], derr=et, obs=obs, generr=True, debug=True, input='aaa', attrs_text=DD)
                put('all_%s' % en, fs, 'evar', ['dbg'], derr=et, obs=obs, generr=True, debug=True, input='aaa', attrs_text=DD)
            put('ged', fs, 'complete', derr=MYERR, obs=obs, generr=True, input='aaa')
        put('alld', fs, 'named', ['dbg'], debug=True, input='aaa', attrs_text=DD)
        put('alld', fs, 'complete', ['dbg'], debug=True, input='aaa', attrs_text=DD)
    # InputName makes fields called like the default name possible
    for k, names in enumerate([['i', 'orig_i', 'x'], ['orig_i', 'i', 'z'], ['x', 'y', 'i']]):
        for kind in ('named', 'evar'):
            for ats in ([], [SKIPB(1)], [ALIGNB(2)], [MOVE(1)], [MOVEABS(3)], [ALIGNA(4)], [COMPLETE], [DEBUG], [BE]):
                fs = [F(names[0], 'u8'), F(names[1], 'u16', *ats), F(names[2], 'u8', *ats), F('v', ('vec', 'u8'), COUNT('%s %% 3' % names[0])), F('w', ('opt', 'u8'), COND('%s == 1' % names[1]))]
                out.append(wrap('fi_%s_%d_%s' % (kind, k, ats[0].name if ats else ''), fs, [rng(0, 2), fill(9)], kind, input='aaa', reach=[]))
    # the input under its new name in the attributes
    for nm in ('aaa', 'i', 'rest', 'x1'):
        for kind in ('named', 'tuple', 'evar', 'etup', 'nested', 'complete'):
            out.append(wrap('inx_%s_%s' % (nm.replace('r#', 'r_'), kind), [F('a', 'u8', ERRIF('ilen == 2')), F('b', 'u16', PRE(s_ev(1, 'ilen')), PRE(s_advance(1)), POST(s_ev(2, 'ilen'))), F('c', 'u64', VALUE('ilen + origlen * 16', 'u64')), F('d', ('opt', 'u8'), COND('ipeek > 100')),
                                                                            F('e', 'u8', ALIGNB(4)), F('g', 'u8', MOVEABS(1)), F('h', 'u8', MOVE(2))], [fill(10)], kind, input=nm, reach=[]))
    # fieldless enums, unit variants, unit structs
    for d in ('Nom', 'NomLE'):
        for lab, kw, err in (('none', {}, None), ('in', dict(input='aaa'), None), ('dd', dict(attrs_text=DD), None), ('ge', dict(generr=True), MYERR), ('geu', dict(generr=True), '()'), ('get', dict(generr=True), ERRS[3][1]),
                             ('all', dict(generr=True, input='aaa', attrs_text=DD), MYERR), ('c', dict(generr=True, input='aaa', complete=True), MYERR)):
            for t in REPRS if T or d == 'Nom' else ('u16',):
                w = width(t)
                out.append(Prog('fl_%s_%s_%s' % (d, lab, t), [Fieldless('T', t, [('A', None, 0), ('B', '5', 5), ('C', None, 6)], derive=d, **kw)], err=err,
                                inp=[alt(*[v.to_bytes(w, b) for v in (0, 5, 6, 7) for b in ('big', 'little')]), fill(1)]))
            out.append(Prog('un_%s_%s' % (d, lab), [Enum('T', [Var('A', 1, None, attrs=[SKIPB(1)]), Var('B', 2, None, attrs=[PARSE(p_int('u16', 'be'))]), Var('C', 3, [F('x', 'u16')]), Var('D', 4, [F('x', 'u8'), F('y', 'u32')], kind='tuple')], derive=d, **kw)],
                            err=err, args=[E('engine::kn(0) as u8', '(k 0)')], knobs=[(0, 1, 2, 3, 4)], inp=[fill(6)], reach=[]))
            out.append(Prog('us_%s_%s' % (d, lab), [Struct('T', [], kind='unit', derive=d, **kw)], err=err, inp=[fill(2)]))
            out.append(Prog('ue_%s_%s' % (d, lab), [Struct('T', [], derive=d, **kw)], err=err, inp=[fill(2)]))
    # error kinds with other error types (Verify, Switch, TooLarge)
    for en, et in ERRS:
        for d in ('Nom', 'NomBE'):
            out.append(Prog('kv_%s_%s' % (en, d), [Struct('T', [F('a', 'u8', VERIFY('a != 1', 'a')), F('b', 'u8', ERRIF('a == 2')), F('c', 'u8', MOVE('a - 4'))], derive=d, generr=True, top=[EXACT])], err=et, inp=[rng(0, 4), fill(4)], reach=[]))
            out.append(Prog('ks_%s_%s' % (en, d), [Enum('T', [Var('A', 1, [F('x', 'u8')])], derive=d, generr=True)], err=et, args=[E('engine::kn(0) as u8', '(k 0)')], knobs=[(0, 1)], inp=[fill(2)], reach=[]))
    # the message has the name of the field (raw identifiers: with or without r#)
    for k, names in enumerate([['Ab', 'aB', 'ABC'], ['a_b', '_a', 'a__b_'], ['été', 'Éa', 'é2'], ['r#type', 'r#fn', 'x'], ['field_with_a_rather_long_name_1', 'field_with_a_rather_long_name_2', 'f'], ['u8', 'String', 'Vec'], ['a1', 'a10', 'a2'], ['T', 'Self_', 'error']]):
        for kind in ('named', 'evar', 'nested', 'complete'):
            for where in ('obj', 'fld', 'both'):
                at = [] if where == 'obj' else [DEBUG]
                fs = [F(names[0], 'u16', *at, VERIFY('%s != 258' % names[0], names[0])) if not names[0].startswith('r#') else F(names[0], 'u16', *at), F(names[1], ('vec', 'u8'), *at, COUNT(2)), F(names[2], 'slice', *at, TAG(b'ab'))]
                out.append(wrap('dn_%d_%s_%s' % (k, kind, where), fs, [alt(b'\1\2', b'\3\4'), fill(2), alt(b'ab', b'aB')], kind, debug=where != 'fld', flags=['dbg'], reach=[], tail=1))
    # Debug at several levels of nesting: one message for each failing parser of a marked field, innermost first
    for m in range(8):
        for cm in (0, 1, 2, 4, 7):
            objs = [Struct('A', [F('x', 'u8'), F('y', 'u16', VERIFY('y != 258', 'y'))], debug=bool(m & 1), complete=bool(cm & 1)),
                    Struct('B', [F('p', 'u8'), F('a', ('obj', 'A')), F('q', 'u8')], debug=bool(m & 2), complete=bool(cm & 2)),
                    Struct('C', [F('o', ('opt', ('obj', 'A'))), F('b', ('obj', 'B')), F('v', ('vec', ('obj', 'A')))], debug=bool(m & 4), complete=bool(cm & 4))]
            out.append(Prog('lv_%d_%d' % (m, cm), objs, inp=[fill(1), alt(b'\1\2', b'\3\4'), fill(2), alt(b'\1\2', b'\3\4'), fill(1), fill(1), alt(b'\1\2', b'\3\4')], flags=['dbg'], reach=[]))
    return out


# ------------------------------------------------------------------------------------- C15
def bvals(t, extra=()):
    """boundary values of an integer type"""
    w = width(t) * 8
    lo, hi = (0, (1 << w) - 1) if t[0] == 'u' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    v = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, hi, hi - 1, hi - 2, hi - 7, hi >> 1, (hi >> 1) + 1, lo, lo + 1, lo + 2, -1, -2, -3, -5, -8}
    for b in (7, 8, 15, 16, 31, 32, 60, 61, 62, 63, 64, 65, 96, 126, 127):
        for o in (-1, 0, 1, 2):
            v |= {(1 << b) + o, -(1 << b) + o}
    return sorted(x for x in v | set(extra) if lo <= x <= hi)


def alts(t, vals, e='big'):
    w = width(t)
    return alt(*[(x % (1 << (8 * w))).to_bytes(w, e) for x in vals])


USES = [
    ('count8', ('vec', 'u8'), lambda: [COUNT('n')]),
    ('count16', ('vec', 'u16'), lambda: [COUNT('n')]),
    ('count128', ('vec', 'u128'), lambda: [COUNT('n')]),
    ('countnest', ('vec', ('obj', 'N')), lambda: [COUNT('n')]),
    ('countvec', ('vec', ('vec', 'u8')), lambda: [COUNT('n'), COUNT('n')]),
    ('countopt', ('vec', ('tup', 'u8', ('opt', 'u16'))), lambda: [COUNT('n')]),
    ('countarr', ('vec', ('arr', 'u8', 2)), lambda: [COUNT('n')]),
    ('take', 'slice', lambda: [TAKE('n')]),
    ('skipb', 'u8', lambda: [SKIPB('n')]),
    ('skipa', 'u8', lambda: [SKIPA('n')]),
    ('alignb', 'u8', lambda: [ALIGNB('n')]),
    ('aligna', 'u8', lambda: [ALIGNA('n')]),
    ('move', 'u8', lambda: [MOVE('n')]),
    ('moveabs', 'u8', lambda: [MOVEABS('n')]),
    ('condcount', ('opt', ('vec', 'u16')), lambda: [COND('n > 2'), COUNT('n')]),
    ('mapcount', ('vec', 'u8'), lambda: [MTWIST(('vec', 'u8')), COUNT('n')]),
    ('complcount', ('vec', 'u16'), lambda: [COMPLETE, COUNT('n')]),
    ('skipskip', 'u8', lambda: [SKIPB('n'), SKIPB('n')]),
    ('skipalign', 'u8', lambda: [SKIPB(1), ALIGNB('n'), SKIPB('n')]),
    ('movemove', 'u8', lambda: [MOVE('n'), MOVE('n')]),
    ('alignmove', 'u8', lambda: [ALIGNB('n'), MOVE('n'), MOVEABS('n')]),
    ('valskip', 'u8', lambda: [VALUE(1, 'u8'), SKIPA('n'), ALIGNA('n')]),
    ('optmove', ('opt', 'u16'), lambda: [MOVE('n')]),
    ('vecmove', ('vec', 'u16'), lambda: [MOVEABS('n'), ALIGNA('n')]),
]


def raw_attr(a, expr):
    """the attribute with an expression of the original type (no conversion to i128)"""
    return A(a.name, expr, a.sx)


def C15(tier):
    out = []
    T = tier == THOROUGH
    N = Struct('N', [F('x', 'u8'), F('y', 'u16')])
    kinds = ['named', 'evar', 'nested3', 'complete', 'tuple', 'etup', 'opt', 'vec', 'exact', 'debug', 'generr', 'input']
    q = 0
    for lab, ty, at in USES:
        objs = [N] if 'nest' in lab else []
        for t in INTS:
            for signed_native in (0, 1):
                # both as declared (the macro converts), and as a 128-bit expression
                for k in kinds:
                    q += 1
                    if not T and k not in ('named', 'complete') and (q // 2) % 5:
                        continue
                    ats = at()
                    if signed_native:
                        neg = t[0] == 'i'
                        ats2 = []
                        for a in ats:
                            if a.name in ('Cond', 'Complete', 'Map', 'Value') or '(n as i128)' not in (a.arg or ''):
                                ats2.append(a)
                            else:
                                ats2.append(A(a.name, a.arg.replace('(n as i128)', 'n'), a.sx))
                        ats = ats2
                    vals = bvals(t)
                    if any(a.name in ('Move', 'MoveAbs') for a in ats):
                        vals = [v for v in vals if v < 1 << 127]
                    if k == 'generr' and ('arr' in lab or 'nest' in lab):
                        continue
                    fs = [F('p', 'u8'), F('n', t), F('x', ty, *ats), F('z', 'u8')]
                    out.append(wrap('%s_%s_%s_%d' % (lab, t, k, signed_native), fs, [fill(1), alts(t, vals), fill(4)] if k != 'vec' else [fill(1), alts(t, vals[::3]), fill(3)], k,
                                    objs=objs, reach=[], entries=['parse'] if k not in ('named',) else ['parse', 'le'], tail=1))
    # LengthCount and lengths read by parsers, LengthData, String
    for t in INTS:
        for e in ('be', 'le'):
            if t[0] == 'i':
                continue
            vals = bvals(t)
            for nm, it in (('u8', 'u8'), ('u32', 'u32'), ('u128', 'u128'), ('nest', ('obj', 'N')), ('tup', ('tup', 'u64', 'u64')), ('vec', None)):
                for k in ('named', 'evar', 'complete', 'opt') + (('nested3', 'etup', 'generr') if T else ()):
                    if nm == 'nest' and k == 'generr' or t == 'u128':
                        # (nom's length_count takes numbers which convert to usize)
                        continue
                    ty = ('vec', it) if it else ('vec', ('vec', 'u16'))
                    ats = [LCOUNT(p_int(t, e))] if it else [LCOUNT(p_int(t, e)), COUNT(2)]
                    fs = [F('p', 'u8'), F('x', ty, *ats), F('z', 'u8')]
                    out.append(wrap('lc_%s_%s_%s_%s' % (t, e, nm, k), fs, [fill(1), alts(t, vals, 'big' if e == 'be' else 'little'), fill(4)], k, objs=[N] if nm == 'nest' else [], reach=[], tail=1, entries=['parse']))
    for t in ('u8', 'u16', 'u32', 'u64'):
        for e in ('parse', 'be', 'le'):
            vals = bvals(t)
            for k in ('named', 'evar', 'complete', 'nested3'):
                out.append(wrap('ld_%s_%s_%s' % (t, e, k), [F('p', 'u8'), F('x', ('ld', t), PARSE(p_ty(('ld', t), e))), F('z', 'u8')], [fill(1), alts(t, vals, 'little' if e == 'le' else 'big'), fill(4)], k, reach=[], tail=1))
    out.append(Prog('str', [Struct('T', [F('p', 'u8'), F('s', 'str'), F('z', 'u8')])], inp=[fill(1), alts('u32', bvals('u32')), fill(4)], reach=[]))
    out.append(Prog('strv', [Struct('T', [F('v', ('vec', 'str')), F('z', 'u8')])], inp=[alts('u32', bvals('u32')), alt(b'abc', b'\0\0\0\0')], reach=[]))
    # numbers of several fields combined: products and sums of hostile values
    small = (0, 1, 2, 7, 8, 127, 128, 254, 255)
    for (l1, t1, a1), (l2, t2, a2) in itertools.product([u for u in USES if u[0] in ('count16', 'take', 'skipb', 'skipa', 'alignb', 'aligna', 'move', 'moveabs', 'movemove')], repeat=2):
        for k in ('named', 'complete', 'evar') if T else ('named',):
            for ty in ('u8', 'i8', 'u64', 'i64'):
                v = [x for x in small if x < (1 << (8 * width(ty))) and (ty[0] == 'u' or x < (1 << (8 * width(ty) - 1)))] if ty in ('u8', 'i8') else [0, 1, 3, 8]
                if ty == 'i8':
                    v += [-1, -2, -3, -8, -127, -128]
                if ty == 'u64':
                    v += [(1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - 2, 1 << 32]
                if ty == 'i64':
                    v += [(1 << 63) - 1, -(1 << 63), -1, -3, -(1 << 63) + 1]
                b1 = [A(a.name, a.arg and a.arg.replace('(n as i128)', 'n'), a.sx) for a in a1()]
                b2 = [a.ren({'n': 'm'}) for a in a2()]
                b2 = [A(a.name, a.arg and a.arg.replace('(m as i128)', 'm'), a.sx) for a in b2]
                out.append(wrap('mm_%s_%s_%s_%s' % (l1, l2, k, ty), [F('n', ty), F('m', ty), F('x', t1, *b1), F('y', t2, *b2), F('z', 'u8')], [alts(ty, v), alts(ty, v), fill(4)], k, reach=[], entries=['parse'], tail=0))
    # loops: items which may consume nothing, nested lists, at the end of the input
    for nm, t in (('vv', ('vec', ('vec', 'u8'))), ('vo', ('vec', ('opt', 'u8'))), ('vvo', ('vec', ('vec', ('opt', 'u16')))), ('ov', ('opt', ('vec', 'u8'))), ('vu', ('vec', ('obj', 'U'))), ('ve', ('vec', ('obj', 'S0'))),
                  ('vm', ('vec', ('obj', 'MB'))), ('vs', ('vec', ('obj', 'SB'))), ('vc', ('vec', ('obj', 'CC'))), ('vp', ('vec', ('obj', 'PP')))):
        ob = [Struct('U', [], kind='unit'), Struct('S0', [F('v', 'u8', VALUE(1, 'u8'))]), Struct('MB', [F('x', 'u8'), F('y', 'phantom', MOVEABS('x % 2'))]), Struct('SB', [F('x', 'u8'), F('y', 'u8', SKIPB('x'))]),
              Struct('CC', [F('x', ('opt', 'u8'), COND('ipeek == 1'))]), Struct('PP', [F('x', 'u8'), F('y', 'phantom', MOVE('-1'))])]
        ob = [o for o in ob if "'%s'" % o.name in repr(t)]
        for k in ('named', 'evar', 'complete', 'tuple', 'opt', 'nested'):
            out.append(wrap('loop_%s_%s' % (nm, k), [F('x', t), F('z', 'u8')], [rep((0, 1, 2), 4)], k, objs=ob, reach=[], tail=1))
            out.append(wrap('loopl_%s_%s' % (nm, k), [F('x', ('vec', t), LCOUNT(cnt8()))], [alt(b'\0', b'\1', b'\3', b'\xff'), rep((0, 1, 2), 3)], k, objs=ob, reach=[], tail=1))
    # allocations announced by the input: lists of lists of hostile lengths
    for t1, t2 in itertools.product(('u8', 'u16', 'u32', 'u64'), repeat=2):
        if not T and t1 != t2 and 'u64' not in (t1, t2):
            continue
        hv = [0, 1, 2, (1 << (8 * width(t1))) - 1, 1 << (8 * width(t1) - 1)]
        hw = [0, 1, 2, (1 << (8 * width(t2))) - 1, 1 << (8 * width(t2) - 1)]
        for it in ('u8', 'u64', ('tup', 'u128', 'u128')):
            out.append(wrap('al_%s_%s_%s' % (t1, t2, it if isinstance(it, str) else 'tup'), [F('x', ('vec', ('vec', it)), LCOUNT(p_int(t1, 'be')), LCOUNT(p_int(t2, 'be')))], [alts(t1, hv), alts(t2, hw), fill(2)], 'named', reach=[], entries=['parse'], tail=1))
            out.append(wrap('al2_%s_%s_%s' % (t1, t2, it if isinstance(it, str) else 'tup'), [F('n', t1), F('x', ('vec', ('obj', 'I')), COUNT('n'))], [alts(t1, hv), alts(t2, hw), fill(2)], 'named', objs=[Struct('I', [F('m', t2), F('v', ('vec', it), COUNT('m'))])],
                            reach=[], entries=['parse'], tail=1))
    # selectors and guards of all values
    out.append(Prog('sel8', [Enum('E', [Var('A', prange(0, 100), [F('x', 'u8')]), Var('B', 255, None)]), Struct('T', [F('s', 'u8'), F('e', ('obj', 'E'), PARSE(p_obj('E', 'be', 's')))])], inp=[rng(0, 255), fill(1)], reach=[]))
    # many messages of arbitrary bytes through one large declaration: all words over a hostile alphabet
    big = [F('n', 'i8'), F('v', ('vec', 'u8'), LCOUNT(cnt8())), F('m', 'u8', MOVE('n')), F('s', 'slice', TAKE('m')), F('o', ('opt', 'u16')), F('a', 'u8', ALIGNB('m')), F('e', ('vec', 'u16'))]
    for k in ('named', 'complete', 'evar', 'tuple'):
        out.append(wrap('word_%s' % k, big, [rep((0, 1, 2, 127, 128, 255), 6 if T else 5)], k, reach=[], entries=['parse'], tail=0))
    return out


# ------------------------------------------------------------------------------------- C16
def c16_types():
    base = ['u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'u128', 'i128', 'f32', 'f64', 'str', 'which', 'phantomless', ('only', 'u16', 'be'), ('only', 'u16', 'le'), ('ld', 'u8'), ('ld', 'u16'), ('ld', 'u32'), ('ld', 'u64'), ('ld', 'which'), ('ld', ('only', 'u16', 'be')), ('ld', ('only', 'u16', 'le'))]
    return [b for b in base if b != 'phantomless']


def tlab(t):
    return t if isinstance(t, str) else '_'.join(tlab(x) if isinstance(x, tuple) else str(x) for x in t)


def tsize(t):
    if isinstance(t, str):
        return {'str': 5, 'which': 1}.get(t) or width(t)
    if t[0] in ('only',):
        return width(t[1])
    if t[0] == 'ld':
        return tsize(t[1]) + 1
    if t[0] == 'opt':
        return tsize(t[1])
    if t[0] == 'vec':
        return 2 * tsize(t[1])
    if t[0] == 'arr':
        return t[2] * tsize(t[1])
    return tsize(t[1]) + tsize(t[2])


def tinp(t, n=0):
    """input segments for a value of a type"""
    if isinstance(t, str):
        if t == 'str':
            return [alt(b'\0\0\0\0', b'\0\0\0\x01A', b'\0\0\0\x02\xc3\xa9', b'\0\0\0\x02\xc3\x28')] if n < 2 else [alt(b'\0\0\0\x01B', b'\0\0\0\0')]
        return [fill({'which': 1}.get(t) or width(t))]
    k = t[0]
    if k == 'only':
        return [fill(width(t[1]))]
    if k == 'ld':
        w = tsize(t[1])
        vs = [0, 1, 3] if n < 2 else [1]
        return [alt(*([v.to_bytes(w, 'big') + bytes(range(7, 7 + v)) for v in vs] + ([v.to_bytes(w, 'little') + bytes(range(9, 9 + v)) for v in vs if w > 1])))]
    if k == 'opt':
        return tinp(t[1], n + 1)
    if k == 'vec':
        return tinp(t[1], n + 1) + tinp(t[1], n + 2)
    if k == 'arr':
        return [s for j in range(t[2]) for s in tinp(t[1], n + j)]
    return tinp(t[1], n + 1) + tinp(t[2], n + 1)


UTF8 = [b'', b'a', b'\x7f', b'\x80', b'\xbf', b'\xc0\x80', b'\xc1\xbf', b'\xc2\x80', b'\xc2\x7f', b'\xc2\xc0', b'\xdf\xbf', b'\xdf', b'\xe0\x80\x80', b'\xe0\x9f\xbf', b'\xe0\xa0\x80', b'\xe0\xa0', b'\xe0\xbf\xbf',
        b'\xe1\x80\x80', b'\xec\xbf\xbf', b'\xed\x9f\xbf', b'\xed\xa0\x80', b'\xed\xbf\xbf', b'\xee\x80\x80', b'\xef\xbf\xbe', b'\xef\xbf\xbf', b'\xef\xbb\xbf', b'\xf0\x80\x80\x80', b'\xf0\x8f\xbf\xbf', b'\xf0\x90\x80\x80', b'\xf0\x90\x80',
        b'\xf1\x80\x80\x80', b'\xf3\xbf\xbf\xbf', b'\xf4\x8f\xbf\xbf', b'\xf4\x90\x80\x80', b'\xf5\x80\x80\x80', b'\xf7\xbf\xbf\xbf', b'\xf8\x88\x80\x80\x80', b'\xfe', b'\xff', b'a\xff', b'\xe4\xb8\xad\xe6\x96\x87', b'a\x00b', b'\x00', b'ab\xc3\xa9c', b'ab\xc3',
        b'\xf0\x9f\x98\x80', b'\xed\xa0\xbd\xed\xb8\x80', b'\xc3\xa9\xc3', b'x' * 255, b'y' * 256, b'z' * 257, b'\xc3\xa9' * 128, b'\xc3\xa9' * 127 + b'\xc3']


def C16(tier):
    out = []
    T = tier == THOROUGH
    # all values of 8 and 16-bit types; boundary values, every byte position and every bit of wider ones
    for t in ('u8', 'i8'):
        out.append(Prog('all_%s' % t, [], call=('ty', t), inp=[rng(0, 255), fill(1)]))
    for t in ('u16', 'i16'):
        out.append(Prog('all_%s' % t, [], call=('ty', t), inp=[rng(0, 255), rng(0, 255)]))
    for t in ('u32', 'i32', 'u64', 'i64', 'u128', 'i128', 'f32', 'f64'):
        w = width(t)
        pat = {bytes([0] * k + [b] + [0] * (w - 1 - k)) for k in range(w) for b in [1 << j for j in range(8)] + [255, 254, 127, 3]}
        pat |= {bytes([255] * k + [b] + [255] * (w - 1 - k)) for k in range(w) for b in (0, 1, 127, 128, 254)}
        pat |= {bytes(range(1, w + 1)), bytes(range(w, 0, -1)), bytes(w), b'\xff' * w, b'\x80' * w, b'\x7f' * w}
        # pairs of bytes
        pat |= {bytes([(0x11 if k == a else 0x92 if k == b else 0) for k in range(w)]) for a in range(w) for b in range(w)}
        if t[0] == 'f':
            import struct
            f = '>f' if w == 4 else '>d'
            vals = [0.0, -0.0, 1.0, -1.0, 1.5, float('inf'), float('-inf'), 1e-40, 5e-324, 3.4e38, 1.17549435e-38, 0.1]
            for v in vals:
                try:
                    p = struct.pack(f, v)
                except OverflowError:
                    continue
                pat |= {p, p[::-1]}
            # signalling and quiet NaN with payloads
            hi = [b'\x7f\x80', b'\x7f\xc0', b'\xff\x80', b'\xff\xc0'] if w == 4 else [b'\x7f\xf0', b'\x7f\xf8', b'\xff\xf0', b'\xff\xf8']
            pat |= {(h + bytes(w - 3) + b'\1') for h in hi} | {(h + bytes(w - 3) + b'\1')[::-1] for h in hi} | {h + bytes(w - 2) for h in hi}
        out.append(Prog('pat_%s' % t, [], call=('ty', t), inp=[alt(*sorted(pat)), fill(1)]))
    # 32-bit values: all pairs of the two high (or low) bytes
    for t in ('u32', 'i32', 'f32'):
        for nm, seg in (('hi', [rng(0, 255), rng(0, 255), fill(2)]), ('lo', [fill(2), rng(0, 255), rng(0, 255)])) if T else (('hi', [rng(0, 255), alt(*[bytes([x]) for x in range(0, 256, 5)]), fill(2)]),):
            out.append(Prog('all_%s_%s' % (t, nm), [], call=('ty', t), inp=seg))
    # strings
    al = []
    for b in UTF8:
        al.append(len(b).to_bytes(4, 'big') + b)
    out.append(Prog('utf8', [], call=('ty', 'str'), inp=[alt(*al), fill(1)]))
    lens = [0, 1, 2, 3, 255, 256, 257, 65535, 65536, 65537, (1 << 24) - 1, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 0x01000000, 0x02000000, 0x00010000]
    out.append(Prog('strlen', [], call=('ty', 'str'), inp=[alt(*[x.to_bytes(4, 'big') for x in lens]), alt(b'abc', b'')], reach=[]))
    for n in (255, 256, 65535, 65536, 65537):
        out.append(Prog('strbig_%d' % n, [], call=('ty', 'str'), inp=[alt(n.to_bytes(4, 'big') + b'a' * n, n.to_bytes(4, 'big') + b'a' * (n - 1) + b'\xff')], flags=[], reach=[]) if n < 300 else
                   Prog('strbig_%d' % n, [Struct('T', [F('s', 'str'), F('z', 'u8')])], inp=[alt(n.to_bytes(4, 'big')), alt(b'')], reach=[]))
    # all strings of three bytes over an alphabet of critical bytes
    crit = (0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5)
    for n in (1, 2, 3) + ((4,) if T else ()):
        out.append(Prog('utf8_%d' % n, [], call=('ty', 'str'), inp=[alt(n.to_bytes(4, 'big')), rep(crit, n)], entries=['parse'] if n > 2 else None))
    # LengthData: all lengths of all widths
    for t in ('u8', 'u16', 'u32', 'u64'):
        w = width(t)
        vs = sorted({0, 1, 2, 3, 4, 5, 127, 128, 254, 255, 256, 257, (1 << (8 * w)) - 1, 1 << (8 * w - 1), 1 << (8 * w - 8), 3 << (8 * w - 8)} & set(range(1 << 16)) | {(1 << (8 * w)) - 1, 1 << (8 * w - 1), 1 << (8 * w - 8), 3 << (8 * w - 8)})
        vs = [v for v in vs if v < 1 << (8 * w)]
        out.append(Prog('ld_%s' % t, [], call=('ty', ('ld', t)), inp=[alt(*[v.to_bytes(w, 'big') for v in vs]), fill(6)], place=[1, 2, 7, 8]))
        out.append(Prog('lda_%s' % t, [], call=('ty', ('ld', t, 'alias')), inp=[alt(*[v.to_bytes(w, 'big') for v in vs]), fill(6)]))
        for e in ('be', 'le'):
            out.append(wrap('ldaf_%s_%s' % (t, e), [F('x', ('ld', t, 'alias'), PARSE(p_ty(('ld', t, 'alias'), e))), F('y', 'u8')], [alt(*[v.to_bytes(w, 'big') for v in vs]), fill(6)], reach=[]))
        out.append(Prog('ldb_%s' % t, [], call=('ty', ('ld', t)), inp=[alt(*[v.to_bytes(w, e) for v in (254, 255, 256, 257) if v < 1 << (8 * w) for e in ('big', 'little')]), blob(250), fill(10)], reach=[]))
    # compositions
    base = c16_types()
    lvl1 = []
    for b in base:
        lvl1 += [('opt', b), ('vec', b), ('arr', b, 1), ('arr', b, 2), ('arr', b, 3)]
        if T or b in ('u8', 'i16', 'u32', 'i64', 'u128', 'f32', 'str', 'which') or b[0] == 'ld':
            lvl1 += [('arr', b, 0), ('arr', b, 5), ('arr', b, 8)]
    for a, b in itertools.product(base, base):
        if T or a == b or (a in ('u8', 'u16', 'which', 'str') or b in ('u8', 'u16', 'which')) and (base.index(a) + base.index(b)) % 2:
            lvl1.append(('tup', a, b))
    seen = set()

    def put(t, nm='c'):
        lab = '%s_%s' % (nm, tlab(t))
        if lab in seen or tsize(t) > 100:
            return
        if t == ('vec',) or 'vec' == t[0] and isinstance(t[1], tuple) and t[1][0] in ('arr',) and t[1][2] == 0:
            pass
        if nm == 'x' and tsize(t) > 40 and not T:
            return
        seen.add(lab)
        out.append(Prog(lab, [], call=('ty', t), inp=tinp(t) + [fill(2)], reach=[]))
    for t in base + lvl1:
        put(t)
    s2 = ['u8', 'u16', 'i32', 'f64', 'which', 'str', ('ld', 'u16'), ('only', 'u16', 'le')]
    l1 = []
    for b in s2:
        l1 += [('opt', b), ('vec', b), ('arr', b, 2), ('tup', b, 'u16'), ('tup', 'which', b)]
    for b in l1:
        for t in [('opt', b), ('vec', b), ('arr', b, 2), ('tup', b, 'u16'), ('tup', 'u8', b), ('tup', b, b)]:
            put(t, 'x')
    if T:
        for b in [x for x in l1 if 'u16' in x or 'which' in x]:
            for b2 in [('opt', b), ('vec', b), ('arr', b, 2), ('tup', b, 'which'), ('tup', 'u16', b)]:
                for t in [('opt', b2), ('vec', b2), ('arr', b2, 2), ('tup', b2, 'u16'), ('tup', 'which', b2)]:
                    put(t, 'y')
    # built-in types as fields, with both derives
    for t in base:
        for d in ('Nom', 'NomLE', 'NomBE'):
            for k in ('named', 'tuple', 'evar'):
                ats = [PARSE(p_ty(t, {'NomLE': 'le'}.get(d, 'be')))] if t[0] == 'ld' else []
                out.append(wrap('fld_%s_%s_%s' % (d, k, tlab(t)), [F('a', t, *ats), F('b', 'u16')], tinp(t) + [fill(2)], k, derive=d, reach=[]))
    # larger arrays
    for n in (4, 6, 7, 9, 12, 15, 16, 17, 31, 32, 33, 64, 100, 256, 257, 1000):
        for t in ('u8', 'u16', 'which') if n < 300 else ('u8',):
            out.append(Prog('big_%s_%d' % (t, n), [], call=('ty', ('arr', t, n)), inp=[fill(1), blob(max(0, n * tsize(t) - 2)), fill(3)], reach=[], entries=['parse', 'le']))
    return out


# ------------------------------------------------------------------------------------- C17
# (from 2^20 on: so many bytes before an address which is a multiple of 2^40)
CROSS = [(1 << 20) + k for k in range(1, 17)]
PLACES = list(range(16)) + CROSS


def C17(tier):
    out = []
    T = tier == THOROUGH
    for lab, fs, inp, objs, kw in stream_items() + opt_kids():
        for k in ('named', 'tuple', 'evar', 'etup', 'nested', 'nested3', 'complete', 'vec', 'opt', 'third', 'generr', 'input', 'args', 'exact') if T or lab in ('align', 'move', 'moveabs', 'take', 'tag', 'ldat', 'nest', 'skip', 'opt', 'vec', 'en', 'lduu16') else ('named', 'evar', 'complete', 'tuple'):
            if k == 'generr' and (_needs_ext(fs, objs) or objs):
                continue
            if k in ('tuple', 'etup') and any(a.name in ('Verify', 'Debug') for f in fs for a in f.attrs):
                continue
            out.append(wrap('s_%s_%s' % (k, lab), [F('p', 'u8')] + fs, [fill(1)] + inp, k, objs=objs, place=PLACES, flags=['twice'], reach=[], tail=1))
    # fieldless enums of all widths
    for t in REPRS:
        w = width(t)
        for c in (False, True):
            out.append(Prog('fl_%s_%s' % (t, c), [Fieldless('T', t, [('A', None, 0), ('B', None, 1)], complete=c)], inp=[alt(bytes(w), b'\0' * (w - 1) + b'\1', b'\7' * w), fill(1)], place=PLACES, flags=['twice']))
    # the position of directives does not depend on the address of the input
    for d, (mk, vals) in DIRS.items():
        for e, (mk2, vals2) in DIRS.items():
            va = {'a': (1, 2, 3, 4, 8, 16), 's': (0, 1, 3), 'm': (-2, -1, 0, 2, 5)}
            for k in ('named', 'evar', 'nested', 'nested3', 'complete', 'tuple') if T else ('named', 'nested3'):
                out.append(wrap('d_%s_%s_%s' % (k, d, e), [F('a', ('vec', 'u8'), COUNT('k0')), F('x', 'u8', mk('k1')), F('y', 'u16', mk2('k2')), F('z', 'u8')], [fill(12)], k, knobs=[(0, 1, 3), va[d[0]], va[e[0]]], place=[0, 1, 2, 3, 5, 8, 13], flags=['twice'], reach=[], tail=2))
    # borrowed fields: all ways to obtain a slice, at all offsets
    ways = [
        ('take', lambda: ([F('x', 'slice', TAKE('k1'))], [])),
        ('tag', lambda: ([F('x', 'slice', TAG(b'\xb6'))], [])),
        ('taken', lambda: ([F('x', 'slice', PARSE(p_take('k1')))], [])),
        ('ldat', lambda: ([F('x', 'slice', PARSE(p_ldata(p_int('u8', 'be'))))], [])),
        ('rest', lambda: ([F('x', 'slice', PARSE(P_REST))], [])),
        ('map', lambda: ([F('x', 'slice', MTWIST('slice'), TAKE('k1'))], [])),
        ('cond', lambda: ([F('x', ('opt', 'slice'), COND('k1 > 1'), TAKE('k1'))], [])),
        ('cnt', lambda: ([F('x', ('vec', 'slice'), COUNT('k1'), TAKE(2))], [])),
        ('lc', lambda: ([F('x', ('vec', 'slice'), LCOUNT(p_int('u8', 'be')), TAKE('k1'))], [])),
        ('ver', lambda: ([F('x', 'slice', VCHK('x', 'slice'), TAKE('k1'))], [])),
        ('mult', lambda: ([F('x', 'slice', TAKE('k1')), F('y', 'slice', TAKE(1)), F('w', 'slice', TAKE('k1')), F('v', 'slice', TAKE(0))], [])),
        ('mv', lambda: ([F('x', 'slice', TAKE('k1')), F('y', 'slice', MOVEABS(1), TAKE('k1')), F('w', 'slice', MOVE(-1), TAKE('k1'))], [])),
        ('sk', lambda: ([F('x', 'slice', SKIPB(1), ALIGNA(4), TAKE('k1')), F('y', 'slice', ALIGNB(3), TAKE('k1'))], [])),
        ('ld', lambda: ([F('x', ('ld', 'u8'), PARSE(p_ty(('ld', 'u8'), 'be'))), F('y', ('ld', 'u16'), PARSE(p_ty(('ld', 'u16'), 'le')))], [])),
    ]
    for lab, f in ways:
        for k in ('named', 'tuple', 'evar', 'etup', 'nested', 'nested3', 'third', 'complete', 'opt', 'vec', 'exact', 'args'):
            fs, ob = f()
            if k in ('tuple', 'etup') and lab == 'ver':
                continue
            lead = [F('a', ('vec', 'u8'), COUNT('k0'))]
            inp = [alt(b'\0\1\0\0\0\1', b'\1\0\1\0\0\0', b'\2\1\1\1\0\0\1', b'\xb6\xb6\xb6\xb6')] if lab in ('ldat', 'lc', 'ld', 'tag') else []
            out.append(wrap('b_%s_%s' % (lab, k), lead + fs, inp + [fill(6)], k, objs=ob, knobs=[(0, 1, 2, 3), (0, 1, 2, 3)], place=PLACES if T else [0, 1, 3, 8, 15] + CROSS, flags=['twice'], reach=[], tail=1))
    # nested objects holding slices
    for nm, t, ats in (('o', ('obj', 'S', "S<'a>"), []), ('v', ('vec', ('obj', 'S', "S<'a>")), [COUNT(2)]), ('g', ('vec', ('obj', 'S', "S<'a>")), []), ('p', ('opt', ('obj', 'S', "S<'a>")), []), ('a', ('arr', ('obj', 'S', "S<'a>"), 2), []), ('t', ('tup', ('obj', 'S', "S<'a>"), ('obj', 'S', "S<'a>")), []),
                       ('c', ('opt', ('obj', 'S', "S<'a>")), [COND('k0 > 0')]), ('l', ('vec', ('obj', 'S', "S<'a>")), [LCOUNT(cnt8())])):
        out.append(Prog('n_%s' % nm, [Struct('S', [F('n', 'u8'), F('s', 'slice', TAKE('n'))]), Struct('T', [F('a', ('vec', 'u8'), COUNT('k0')), F('x', t, *ats), F('z', 'u8', VALUE(0, 'u8'))])], inp=[rng(0, 2), rng(0, 2), fill(1), rng(0, 2), fill(2)], knobs=[(0, 1, 2)],
                        place=PLACES, flags=['twice'], reach=[]))
        out.append(Prog('m_%s' % nm, [Struct('R', [F('n', 'u8'), F('s', 'slice', TAKE('n'))]), Struct('S', [F('r', ('obj', 'R', "R<'a>")), F('q', 'slice', TAKE(1))]), Struct('T', [F('a', ('vec', 'u8'), COUNT('k0')), F('x', t, *ats), F('z', 'u8', VALUE(0, 'u8'))])],
                        inp=[rng(0, 2), rng(0, 2), fill(1), rng(0, 2), fill(2)], knobs=[(0, 1, 2)], place=PLACES, flags=['twice'], reach=[]))
    # all built-in types directly
    for t in c16_types() + [('opt', 'u16'), ('vec', 'u16'), ('arr', 'u16', 2), ('tup', 'u8', 'u32'), ('vec', ('tup', 'u8', 'u16'))]:
        out.append(Prog('ty_%s' % tlab(t), [], call=('ty', t), inp=tinp(t) + [fill(2)], place=PLACES, flags=['twice'], reach=[]))
    return out
