"""Program families, per property.  Each function returns a list of Prog for a tier."""
import itertools, re
from dsl import *

QUICK, THOROUGH = 'quick', 'thorough'


def nest(name='Nest', **kw):
    return Struct(name, [F('n0', 'u8'), F('n1', 'u16')], **kw)


MYERR = 'MyErr'
REPRS = ['u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64']

# ------------------------------------------------------------------------------------- leaves
LEAVES = [
    ('u8', 'u8'),
    ('u16', 'u16'),
    ('i32', 'i32'),
    ('u64', 'u64'),
    ('arr', ('arr', 'u16', 2)),
    ('tup', ('tup', 'u8', 'u16')),
    ('ld', ('ld', 'u16')),
    ('nest', ('obj', 'Nest')),
    ('f32', 'f32'),
    ('which', 'which'),
    ('opt', ('opt', 'u16')),
    ('only', ('only', 'u16', 'be')),
    ('i128', 'i128'),
    ('str', 'str'),
    ('vec', ('vec', 'u16')),
    ('f64', 'f64'),
    ('ph', 'phantom'),
]
LEAF = dict(LEAVES)

_SIZE = {'u8': 1, 'u16': 2, 'i32': 4, 'u64': 8, 'arr': 4, 'tup': 3, 'nest': 3, 'f32': 4, 'which': 1,
         'opt': 2, 'only': 2, 'i128': 16, 'vec': 4, 'f64': 8, 'u32': 4, 'i16': 2, 'u128': 16, 'ph': 0}


def leaf_input(lab):
    """segments for one leaf"""
    if lab == 'ld':
        return [alt(b'\0\0', b'\0\x01\x55', b'\0\x02\xaa\xbb', b'\x01\0\x66')]
    if lab == 'str':
        return [alt(b'\0\0\0\0', b'\0\0\0\x01A', b'\0\0\0\x02\xc3\xa9', b'\0\0\0\x02\xc3\x28')]
    return [fill(_SIZE[lab])] if _SIZE[lab] else []


def leaf_field(name, lab, *attrs):
    t = LEAF[lab]
    if lab == 'ld' and not attrs:
        # (a LengthData field must be parsed explicitly: its type has the lifetime of the struct)
        return F(name, t, PARSE(p_ty(t, 'be')))
    return F(name, t, *attrs)


def _letters(n):
    return 'f%d' % n


# ------------------------------------------------------------------------------------- contexts
KINDS = ['named', 'tuple', 'evar', 'etup', 'nested', 'vec', 'opt', 'generr', 'input', 'args', 'exact', 'third']


def wrap(name, fields, inp, kind='named', objs=(), tail=2, flags=(), knobs=(), reach=None, entries=None,
         note='', extra='', err=None, place=None, **kw):
    """a program parsing `fields` in a given context"""
    objs = list(objs)
    inp = list(inp)
    names = [f.name for f in fields]
    args, callname = None, 'T'
    tobj = ('obj', 'T', "T<'a>") if any(has_lt(f.ty) for f in fields) else ('obj', 'T')
    if kind == 'named':
        objs.append(Struct('T', fields, **kw))
    elif kind == 'tuple':
        objs.append(Struct('T', fields, kind='tuple', **kw))
    elif kind in ('evar', 'etup'):
        k = 'named' if kind == 'evar' else 'tuple'
        objs.append(Enum('T', [
            Var('A', 0, [F('a', 'u8')]),
            Var('D', '_', [F('d', 'u64')]),
            Var('B', 1, fields, kind=k),
            Var('C', 2, None)], **kw))
        args = [1]
    elif kind == 'nested':
        objs.append(Struct('T', fields, **kw))
        objs.append(Struct('O', [F('o0', 'u8'), F('o1', tobj), F('o2', 'u16')]))
        inp = [fill(1)] + inp + [fill(2)]
        callname = 'O'
    elif kind == 'nested3':
        # at an odd offset, behind an object of another size
        objs.append(Struct('T', fields, **kw))
        objs.append(Struct('O', [F('o0', 'u16'), F('o1', 'u8'), F('o2', ('tup', 'u16', tobj))]))
        inp = [fill(5)] + inp
        callname = 'O'
    elif kind == 'vec':
        objs.append(Struct('T', fields, **kw))
        objs.append(Struct('O', [F('o0', ('vec', tobj), COUNT(2)), F('o1', 'u8')]))
        inp = inp + inp + [fill(1)]
        callname = 'O'
    elif kind == 'opt':
        objs.append(Struct('T', fields, **kw))
        objs.append(Struct('O', [F('o0', ('opt', tobj)), F('o1', 'u8')]))
        callname = 'O'
    elif kind == 'generr':
        objs.append(Struct('T', fields, generr=True, **kw))
        err = MYERR
    elif kind == 'unit_err':
        objs.append(Struct('T', fields, generr=True, **kw))
        err = '()'
    elif kind == 'input':
        objs.append(Struct('T', fields, input='aaa', **kw))
    elif kind == 'args':
        objs.append(Struct('T', fields, args=[('xa', 'u8'), ('xb', 'u32')], **kw))
        args = [3, 4]
    elif kind == 'exact':
        objs.append(Struct('T', fields, top=kw.pop('top', []) + [EXACT], **kw))
    elif kind == 'third':
        # between other fields
        fields = [F('p0', 'u16')] + list(fields) + [F('q0', 'u8'), F('q1', 'u16')]
        inp = [fill(2)] + inp + [fill(3)]
        objs.append(Struct('T', fields, **kw))
    elif kind == 'complete':
        objs.append(Struct('T', fields, complete=True, **kw))
        flags = list(flags) + ['neverinc']
    elif kind == 'debug':
        objs.append(Struct('T', fields, debug=True, **kw))
    else:
        raise ValueError(kind)
    if tail:
        inp.append(fill(tail))
    return Prog(name, objs, call=('obj', callname), inp=inp, args=args, flags=flags, knobs=knobs, reach=reach,
                entries=entries, note=note, extra=extra, err=err, place=place)


def layout(name, labs, kind='named', **kw):
    fields = [leaf_field(_letters(k), l) for k, l in enumerate(labs)]
    objs = [nest(generr=kind == 'generr')] if 'nest' in labs else []
    inp = [s for l in labs for s in leaf_input(l)]
    # (a Vec takes everything it can: what follows may never get its bytes)
    reach = [] if 'vec' in labs[:-1] or ('vec' in labs and kind not in ('named', 'tuple')) else None
    if kind == 'generr' and 'arr' in labs:
        kind = 'named'
    return wrap(name, fields, inp, kind, objs=objs, reach=reach, note='fields: ' + ' '.join(labs), **kw)


# ------------------------------------------------------------------------------------- C01
def C01(tier):
    out = []
    base = [l for l, _ in LEAVES]
    kinds = ['named', 'tuple', 'evar', 'etup', 'nested', 'generr', 'input', 'args', 'third', 'nested3', 'complete']
    for a in base:
        for k in kinds:
            out.append(layout('p1_%s_%s' % (k, a), [a], kind=k))
    n = 0
    for a, b in itertools.product(base, base):
        for k in (['named', 'tuple', 'evar', 'etup'] if tier == THOROUGH else [kinds[n % 4]]):
            out.append(layout('p2_%s_%s_%s' % (k, a, b), [a, b], kind=k))
        n += 1
    if tier == THOROUGH:
        small = ['u8', 'u16', 'i32', 'arr', 'tup', 'nest', 'which', 'opt', 'only', 'ph', 'u64', 'ld']
        for n, l in enumerate(itertools.product(small, repeat=3)):
            out.append(layout('p3_%s' % '_'.join(l), list(l), kind=kinds[n % 4]))
    # long objects: every field at its own position
    mix = ['u8', 'u16', 'i32', 'arr', 'u8', 'which', 'tup', 'nest', 'f32', 'only', 'u64', 'ph', 'u8', 'u16', 'f64', 'i128',
           'ld', 'u8', 'str', 'u8', 'u16', 'u8', 'u8', 'u16', 'u8', 'u8', 'u32' if 'u32' in LEAF else 'i32', 'u8', 'u8', 'u8',
           'u16', 'u8', 'u8', 'u8']
    for k in ('named', 'tuple', 'evar', 'etup', 'nested'):
        for n in (4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 26, 33):
            out.append(layout('long_%s_%d' % (k, n), [x for x in mix if x not in ('ld', 'str')][:n], kind=k))
    for k in ('named', 'tuple', 'evar', 'etup'):
        out.append(layout('longs_%s' % k, mix, kind=k))
    # field names: raw identifiers, names used in generated code, unusual order of names
    for k in ('named', 'evar', 'third', 'nested'):
        for n, names in enumerate([['r#type', 'r#match', 'r#fn'], ['input', 'rem', 'orig'], ['zz', 'aa', 'mm'],
                                   ['_x', '__x', 'x_'], ['struct_def', 'enum_def', 'res'], ['selector_', 'orig_input', 'e'],
                                   ['offset', 'align', 'skip'], ['nom', 'parse', 'data'], ['len', 'count', 'take'],
                                   ['__endianness', 'endian', 'value'], ['A', 'fieldName', 'l1'],
                                   ['new_offset', 'pos', 'missing'], ['u8', 'u16', 'Vec']]):
            fields = [F(names[0], 'u8'), F(names[1], 'u16'), F(names[2], 'u8')]
            out.append(wrap('names_%s_%d' % (k, n), fields, [fill(4)], kind=k))
            # (with directives, whose generated code introduces variables)
            fields = [F(names[0], 'u8', ALIGNA(2), MOVE(1)), F(names[1], 'u8', MOVE(1), SKIPB(1)),
                      F(names[2], 'u8', ALIGNB(2), MOVEABS(3))]
            out.append(wrap('namesd_%s_%d' % (k, n), fields, [fill(8)], kind=k))
    # hundreds of fields, arguments using the first, the last and others
    for k in ('named', 'tuple', 'evar', 'etup'):
        for n in (65, 100, 129, 258) + ((511, 514, 1026) if tier == THOROUGH else ()):
            fields = [F('f%d' % j, 'u16' if j % 3 == 0 else 'u8') for j in range(n)]
            fields += [F('v', ('vec', 'u8'), COUNT('(f0 + f%d) & 1' % (n - 1))), F('w', 'u8', VALUE('(f%d + f%d + f1) & 255' % (n - 2, n // 2), 'u8')), F('x', 'u8', ERRIF('f2 == f%d' % (n - 3))), F('y', ('opt', 'u8'), COND('f%d & 1 == 1' % min(64, n - 1)))]
            out.append(wrap('huge_%s_%d' % (k, n), fields, [blob(sum(2 if j % 3 == 0 else 1 for j in range(n)) - 1), fill(4)], kind=k, reach=[]))
    # many variants, and many fields in them
    for n in (65, 129, 200):
        out.append(Prog('hugee_%d' % n, [Enum('E', [Var('V%d' % j, j, [F('a%d' % x, 'u8') for x in range(j % 5)] if j % 7 else None, kind='tuple' if j % 2 else 'named') for j in range(n)]), Struct('T', [F('s', 'u8'), F('e', ('obj', 'E'), PARSE(p_obj('E', 'be', 's'))), F('z', 'u8')])], inp=[rng(0, n), fill(5)], reach=[]))
    # unit structs, empty structs
    out.append(Prog('unit', [Struct('T', [], kind='unit')], inp=[fill(2)]))
    out.append(Prog('empty', [Struct('T', [])], inp=[fill(2)]))
    out.append(Prog('unit_in', [Struct('U', [], kind='unit'), Struct('V', []), Struct('T', [F('a', 'u8'), F('b', ('obj', 'U')), F('v', ('obj', 'V')), F('c', 'u8')])],
                    inp=[fill(4)]))
    # nesting: objects in objects, up to 4 levels, at all positions
    for perm in itertools.product([0, 1, 2], repeat=3 if tier == THOROUGH else 2):
        objs = [Struct('L0', [F('x', 'u8'), F('y', 'u16')])]
        for d, pos in enumerate(perm):
            fs = [F('a', 'u8'), F('b', 'u16')]
            fs.insert(pos, F('n', ('obj', 'L%d' % d)))
            objs.append(Struct('L%d' % (d + 1), fs, kind='tuple' if d == 1 else 'named'))
        out.append(Prog('deep_%s' % ''.join(map(str, perm)), objs, inp=[fill(3 * (len(perm) + 1) + 2)]))
    # values of previous fields are available in the arguments of following fields
    for k in ('named', 'evar', 'tuple', 'etup', 'nested', 'third'):
        for n in range(1, 5):
            fields = [F('f%d' % j, 'u8') for j in range(n)]
            fields.append(F('v', ('vec', 'u8'), COUNT('+'.join('(f%d & 1)' % j for j in range(n)))))
            fields.append(F('w', ('opt', 'u16'), COND('f0 > f%d' % (n - 1))))
            fields.append(F('z', 'u16', VALUE('len(v) + f0', 'u16')))
            inp = [rep([0, 1, 3], 1)] * min(n, 2) + [rep([0, 1], 1)] * (n - min(n, 2)) + [fill(n + 2)]
            out.append(wrap('prev_%s_%d' % (k, n), fields, inp, kind=k))
    # a field may shadow an extra argument; following fields see the field
    out.append(Prog('shadow', [Struct('T', [F('n', 'u8'), F('v', ('vec', 'u8'), COUNT('n & 3'))], args=[('n', 'u8')])],
                    args=[2], inp=[rng(0, 4), fill(4)]))
    return out


# ------------------------------------------------------------------------------------- C02
def endian_shapes():
    """(label, field type, attributes, input): one multi-byte item under various shapes.  Fields are
    called x"""
    w = fill
    out = []
    for t in ('u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'u128', 'i128', 'f32', 'f64', 'which', 'u8'):
        n = {'which': 1, 'u8': 1}.get(t) or int(t[1:]) // 8
        out.append((t, t, [], [w(n)]))
    W = 'which'
    NW = ('obj', 'NW')
    cnt = p_int('u8', 'be')
    out += [
        ('opt', ('opt', W), [], [w(1)]),
        ('opt16', ('opt', 'u16'), [], [w(2)]),
        ('vec', ('vec', W), [COUNT(2)], [w(2)]),
        ('vec16', ('vec', 'u16'), [COUNT(2)], [w(4)]),
        ('arr', ('arr', W, 2), [], [w(2)]),
        ('arr16', ('arr', 'u16', 2), [], [w(4)]),
        ('arrarr', ('arr', ('arr', 'u16', 2), 2), [], [w(8)]),
        ('tup', ('tup', W, W), [], [w(2)]),
        ('tup16', ('tup', 'u16', 'u32'), [], [w(6)]),
        ('tuptup', ('tup', ('tup', W, 'u16'), ('tup', 'u16', W)), [], [w(6)]),
        ('opttup', ('opt', ('tup', W, 'u16')), [], [w(3)]),
        ('vecarr', ('vec', ('arr', W, 2)), [COUNT(2)], [w(4)]),
        ('nest', NW, [], [w(3)]),
        ('optnest', ('opt', NW), [], [w(3)]),
        ('vecnest', ('vec', NW), [COUNT(2)], [w(6)]),
        ('arrnest', ('arr', NW, 2), [], [w(6)]),
        ('tupnest', ('tup', NW, W), [], [w(4)]),
        ('cond', ('opt', W), [COND('True')], [w(1)]),
        ('cond16', ('opt', 'u16'), [COND('True')], [w(2)]),
        ('condvec', ('opt', ('vec', W)), [COND('True'), COUNT(2)], [w(2)]),
        ('condlc', ('opt', ('vec', W)), [COND('True'), LCOUNT(cnt)], [alt(b'\2')] + [w(2)]),
        ('lc', ('vec', W), [LCOUNT(cnt)], [alt(b'\0', b'\2'), w(2)]),
        ('lc16', ('vec', 'u16'), [LCOUNT(cnt)], [alt(b'\2'), w(4)]),
        ('lcnest', ('vec', NW), [LCOUNT(cnt)], [alt(b'\1'), w(3)]),
        ('map', 'u16', [MAP('x + 1', 'x', 'u16')], [alt(b'\1\2')]),
        ('verify', 'u16', [VERIFY('x != 258', 'x')], [alt(b'\1\2', b'\2\1', b'\7\7')]),
        ('complete', W, [COMPLETE], [w(1)]),
        ('complete16', 'u16', [COMPLETE], [w(2)]),
        ('into', 'u32', [INTO, ], [w(4)]),
        ('mapver', 'u16', [MAP('x + 1', 'x', 'u16'), VERIFY('x != 258', 'x')], [alt(b'\1\2', b'\2\1')]),
        ('compver', 'u16', [COMPLETE, VERIFY('x != 258', 'x')], [alt(b'\1\2', b'\2\1')]),
        ('cntver', ('vec', 'u16'), [COUNT(2), VERIFY('x != 258', 'x')], [alt(b'\1\2', b'\2\1'), w(2)]),
        ('vercnt', ('vec', 'u16'), [VCHK('x', ('vec', 'u16')), COUNT(1)], [alt(b'\1\2', b'\2\1', b'\0\3', b'\4\0')]),
        ('cntcnt', ('vec', ('vec', 'u16')), [COUNT(2), COUNT(1)], [w(4)]),
        ('lccnt', ('vec', ('vec', 'u16')), [LCOUNT(cnt), COUNT(1)], [alt(b'\2'), w(4)]),
        ('cntlc', ('vec', ('vec', 'u16')), [COUNT(2), LCOUNT(cnt)], [alt(b'\1'), w(2), alt(b'\1'), w(2)]),
        ('cmap', ('opt', 'u16'), [COND('True'), MAP('x + 1', 'x', 'u16')], [alt(b'\1\2')]),
        ('debug', 'u16', [DEBUG], [w(2)]),
        ('debugcnt', ('vec', 'u16'), [DEBUG, COUNT(2)], [w(4)]),
        ('only', ('only', 'u16', 'be'), [], [w(2)]),
        ('onlyle', ('only', 'u16', 'le'), [], [w(2)]),
        ('parsebe', 'u16', [PARSE(p_int('u16', 'be'))], [w(2)]),
        ('parsele', 'u16', [PARSE(p_int('u16', 'le'))], [w(2)]),
        ('parsedflt', W, [PARSE(p_ty(W, 'parse'))], [w(1)]),
        ('skip', 'u16', [SKIPB(1), SKIPA(1)], [w(4)]),
        ('str', 'str', [], [alt(b'\0\0\0\x01A', b'\x01\0\0\0')]),
        ('optstr', ('opt', 'str'), [], [alt(b'\0\0\0\x01A')]),
        ('fl', ('obj', 'FL'), [], [alt(b'\0\1', b'\1\0', b'\2\0')]),
        ('optfl', ('opt', ('obj', 'FL')), [], [alt(b'\0\1', b'\1\0', b'\2\0')]),
        # (greedy, last)
        ('vecall', ('vec', W), [], [w(2)]),
        ('vecall16', ('vec', 'u16'), [], [w(4)]),
        ('vecallnest', ('vec', NW), [], [w(6)]),
        ('vecopt', ('vec', ('tup', W, ('opt', 'u16'))), [], [w(6)]),
    ]
    return out


SHAPES = endian_shapes()


def shape_objs(t, **kw):
    s = repr(t)
    o = []
    if 'NW' in s:
        o.append(Struct('NW', [F('n0', 'which'), F('n1', 'u16')], **kw))
    if 'FL' in s:
        o.append(Fieldless('FL', 'u16', [('A', None, 0), ('B', None, 1), ('C', '0x200', 0x200)], **kw))
    return o


def C02(tier):
    out = []
    srcs = [(d, e) for d in ('Nom', 'NomBE', 'NomLE') for e in (None, 'be', 'le')
            if not (d == 'NomBE' and e == 'le') and not (d == 'NomLE' and e == 'be')]
    srcs = [('Nom', None), ('NomBE', None), ('NomLE', None), ('Nom', 'be'), ('Nom', 'le'), ('NomBE', 'be'), ('NomLE', 'le')]
    for lab, t, attrs, inp in SHAPES:
        greedy = lab.startswith('vec') and not attrs
        for n, (d, e) in enumerate(srcs):
            for fa in (None, 'be', 'le'):
                a = {'be': [BE], 'le': [LE], None: []}[fa]
                for pos in ((0, 1) if a and attrs else (0,)):
                    # (the position of the endianness attribute in the list does not matter)
                    at = a + attrs if pos == 0 else attrs + a
                    # fields before and after are not affected by the field attribute
                    fs = [F('b', 'u16'), F('x', t, *at)] + ([] if greedy else [F('z', 'u16')])
                    i = [fill(2)] + inp + [fill(3)]
                    nm = '%s_%s%s_%s%d' % (lab, d, e or '', fa or 'no', pos)
                    kinds = ['named']
                    if n < 5 and (lab in ('u16', 'nest', 'vec16', 'lc', 'cond16', 'opt16', 'arr16', 'tup16', 'verify', 'fl', 'which') or tier == THOROUGH):
                        kinds += ['evar', 'nested', 'args', 'generr']
                    for k in kinds:
                        if k == 'generr' and ('arr' in lab or 'nest' in lab or 'fl' in lab or 'str' in lab or 'debug' in lab):
                            continue
                        if greedy and k == 'nested':
                            continue
                        out.append(wrap('%s_%s' % (k, nm), fs, i, k, objs=shape_objs(t), derive=d, end=e))
                    # unnamed fields
                    if not any(x.name in ('Verify', 'Debug') for x in at) and fa is None or lab in ('u16', 'lc16', 'nest'):
                        if not any(x.name in ('Verify', 'Debug') for x in at):
                            for k in ('tuple', 'etup'):
                                out.append(wrap('%s_%s' % (k, nm), fs, i, k, objs=shape_objs(t), derive=d, end=e))
    # nested objects with their own endianness, three levels
    lv = [('Nom', None), ('Nom', 'be'), ('Nom', 'le'), ('NomBE', None), ('NomLE', None)]
    for a, b, c in itertools.product(lv, lv, lv[:3] if tier == QUICK else lv):
        for fa, fb in itertools.product((None, 'be', 'le'), repeat=2):
            if tier == QUICK and fa and fb and (a[0] != 'Nom' or b[0] != 'Nom'):
                continue
            at = {None: [], 'be': [BE], 'le': [LE]}
            objs = [Struct('A', [F('x', 'u16'), F('w', 'which')], derive=a[0], end=a[1]),
                    Struct('B', [F('x', 'u16'), F('a', ('obj', 'A'), *at[fa]), F('y', 'u16')], derive=b[0], end=b[1]),
                    Struct('C', [F('w', 'which'), F('b', ('obj', 'B'), *at[fb]), F('y', 'u16')], derive=c[0], end=c[1])]
            nm = '_'.join('%s%s' % (x[0], x[1] or '') for x in (a, b, c)) + '_%s_%s' % (fa, fb)
            out.append(Prog('n3_' + nm, objs, inp=[fill(11)]))
    # nested objects under each shape with their own endianness
    for a in lv[1:]:
        for c in lv[:3]:
            for lab, t, attrs, inp in SHAPES:
                if 'NW' in repr(t) or 'FL' in repr(t):
                    greedy = lab.startswith('vec') and not attrs
                    fs = [F('x', t, *attrs)] + ([] if greedy else [F('z', 'u16')])
                    out.append(Prog('own_%s_%s%s_%s%s' % (lab, a[0], a[1] or '', c[0], c[1] or ''),
                                    shape_objs(t, derive=a[0], end=a[1]) + [Struct('T', fs, derive=c[0], end=c[1])],
                                    inp=inp + [fill(3)]))
    # enums with selector: nested in objects through Parse, all entry points
    for d, e in lv:
        for ep in ('parse', 'be', 'le'):
            en = Enum('E', [Var('A', 1, [F('a', 'u16')]), Var('B', 2, [F('b', 'which'), F('c', 'u16', LE)]),
                            Var('C', '_', [F('d', 'u16', BE), F('e', 'which')], kind='tuple')], derive=d, end=e)
            out.append(Prog('en_%s%s_%s' % (d, e or '', ep), [en, Struct('T', [
                F('s', 'u8'), F('v', ('obj', 'E'), PARSE(p_obj('E', ep, 's'))), F('z', 'u16')])],
                inp=[rng(0, 3), fill(5)]))
    return out


# ------------------------------------------------------------------------------------- C03
def C03(tier):
    out = []
    thorough = tier == THOROUGH
    # every assignment of {nothing, SetEndian, BigEndian, LittleEndian} to the fields of an object
    ats = {'n': lambda k: [], 's': lambda k: [SETENDIAN('k%d == 1' % k)], 'b': lambda k: [BE], 'l': lambda k: [LE]}
    tops = {'no': [], 'top': [SETENDIAN('k0 == 1')]}

    def fields(combo, t='u16'):
        return [F('f%d' % j, t, *ats[c](j + 1)) for j, c in enumerate(combo)]

    def knobs(combo, top):
        return [(0, 1) if top == 'top' else (0,)] + [(0, 1) if c == 's' else (0,) for c in combo]
    for top in tops:
        for combo in itertools.product('nsbl', repeat=4 if thorough else 3):
            if 's' not in combo and top == 'no':
                continue
            nm = '%s_%s' % (top, ''.join(combo))
            n = len(combo)
            for kind in ('named', 'tuple') + (('evar', 'etup') if not thorough else ()):
                out.append(wrap('%s_%s' % (kind, nm), fields(combo), [fill(2 * n)], kind, top=list(tops[top]),
                                knobs=knobs(combo, top), tail=1))
    # fixed base byte order of the function only: object attributes cannot be combined; types of all kinds
    for lab, t, attrs, inp in SHAPES:
        if lab in ('parsebe', 'parsele', 'parsedflt', 'only', 'onlyle'):
            continue
        greedy = lab.startswith('vec') and not attrs
        nms = any(x.name in ('Verify', 'Debug') for x in attrs)
        for where in ('top', 'self', 'before', 'selfafter'):
            a = [SETENDIAN('k0 == 1')]
            fs = [F('b', 'u16', *(a if where == 'before' else [])),
                  F('x', t, *((a + attrs) if where == 'self' else (attrs + a) if where == 'selfafter' else attrs))]
            i = [fill(2)] + inp
            if not greedy:
                fs.append(F('z', 'u16'))
                i = i + [fill(2)]
            for kind in ('named', 'evar') if nms or where == 'selfafter' else ('named', 'tuple', 'evar', 'etup'):
                out.append(wrap('sh_%s_%s_%s' % (kind, where, lab), fs, i, kind, objs=shape_objs(t),
                                top=(a if where == 'top' else []), knobs=[(0, 1)], tail=1))
    # the argument uses previous fields, extra arguments, the input; it is evaluated once, in place
    for kind in ('named', 'evar', 'nested', 'tuple', 'etup', 'third', 'complete', 'input'):
        fs = [F('m', 'u16'), F('a', 'u16', SETENDIAN("ev(1, m) == 258")), F('b', 'u32'),
              F('c', 'u16', SETENDIAN('ev(2, b) > ev(3, a)')), F('d', 'u16')]
        out.append(wrap('prev_%s' % kind, fs, [alt(b'\1\2', b'\2\1'), alt(b'\0\1', b'\1\0'), alt(b'\0\0\0\1', b'\1\0\0\0'), fill(4)], kind))
        fs = [F('m', 'u16'), F('a', 'u16', PRE(s_ev(1)), SETENDIAN('ev(2, ilen) > 6'), PRE(s_ev(3)), POST(s_ev(4))),
              F('b', 'u32', PRE(s_ev(5)))]
        out.append(wrap('once_%s' % kind, fs, [fill(8)], kind))
        # in several positions of the list, with cursor directives before and after
        for pos in range(4):
            l = [SKIPB(1), VERIFY('a != 258', 'a') if kind not in ('tuple', 'etup') else SKIPA(1), ALIGNA(4)]
            l.insert(pos, SETENDIAN('ipeek < 3'))
            fs = [F('m', 'u8'), F('a', 'u16', *l), F('b', 'u16', SKIPB(1)), F('c', 'u16')]
            out.append(wrap('pos%d_%s' % (pos, kind), fs, [alt(b'\1', b'\5'), alt(b'\1', b'\5'), alt(b'\1\2', b'\2\1'), fill(8)], kind))
    for d in ('parse', 'be', 'le'):
        out.append(Prog('args_%s' % d, [
            Struct('T', [F('a', 'u16'), F('b', 'u16', SETENDIAN('xb == 0')), F('c', 'u16')], top=[SETENDIAN('xa == 1')],
                   args=[('xa', 'u8'), ('xb', 'u8')]),
            Struct('O', [F('s', 'u8'), F('t', 'u8'), F('v', ('obj', 'T'), PARSE(p_obj('T', d, 's', 't'))), F('z', 'u16')])],
            inp=[rng(0, 1), rng(0, 1), fill(9)]))
    # object-level SetEndian: argument evaluated once per call, before the first field
    out.append(Prog('topev', [Struct('T', [F('a', 'u16', PRE(s_ev(2))), F('b', 'u16', PRE(s_ev(3)))],
                                     top=[PRE(s_ev(1)), SETENDIAN('ev(9, ilen) > 4'), PRE(s_ev(4)), POST(s_ev(5))])], inp=[fill(7)]))
    # does not leak to containing objects, following siblings, other variants, or repeated items
    inner = lambda: Struct('I', [F('x', 'u16'), F('y', 'u16', SETENDIAN('k0 == 1')), F('z', 'u16')])
    innert = lambda: Struct('I', [F('x', 'u16'), F('z', 'u16')], top=[SETENDIAN('k0 == 1')])
    dflt = lambda: Struct('J', [F('x', 'u16'), F('w', 'which')])
    fixed = [('', {}), ('be', dict(end='be')), ('le', dict(end='le')), ('NBE', dict(derive='NomBE')), ('NLE', dict(derive='NomLE'))]
    for n, mk in (('f', inner), ('t', innert)):
        for lab, kw in fixed:
            out.append(Prog('leak_%s_%s' % (n, lab), [mk(), Struct('O', [F('a', 'u16'), F('ii', ('obj', 'I')), F('b', 'u16'), F('j', ('obj', 'I')), F('c', 'u16')], **kw)],
                            knobs=[(0, 1)], inp=[fill(19)]))
            for fa in ([BE], [LE]):
                out.append(Prog('leakf_%s_%s_%s' % (n, lab, fa[0].name), [mk(), Struct('O', [F('a', 'u16'), F('ii', ('obj', 'I'), *fa), F('b', 'u16')], **kw)],
                                knobs=[(0, 1)], inp=[fill(11)]))
        out.append(Prog('vec_%s' % n, [mk(), Struct('O', [F('ii', ('vec', ('obj', 'I')), COUNT(2)), F('b', 'u16')])], knobs=[(0, 1)], inp=[fill(15)]))
        # the container has SetEndian as well
        for c in itertools.product('nsbl', repeat=2):
            out.append(Prog('both_%s_%s' % (n, ''.join(c)), [mk(), Struct('O', [
                F('a', 'u16', SETENDIAN('k1 == 1')), F('ii', ('obj', 'I'), *ats[c[0]](2)), F('b', 'u16', *ats[c[1]](3)), F('c', 'u16')])],
                knobs=[(0, 1), (0, 1), (0, 1) if c[0] == 's' else (0,), (0, 1) if c[1] == 's' else (0,)], inp=[fill(14)]))
    # nested objects are called with the selected byte order, unless they have their own
    for lab, kw in fixed:
        for kind in ('named', 'evar', 'tuple', 'etup'):
            for where in ('top', 'f'):
                objs = [Struct('J', [F('x', 'u16'), F('w', 'which')], **kw),
                        Fieldless('FL', 'u16', [('A', None, 0), ('B', None, 1), ('C', '256', 256)], **kw)]
                s = [SETENDIAN('k0 == 1')]
                fs = [F('a', 'u16'), F('j', ('obj', 'J'), *([] if where == 'top' else s)), F('b', 'u16'), F('f', ('obj', 'FL')),
                      F('kk', ('vec', ('obj', 'J')), COUNT(2)), F('o', ('opt', ('obj', 'J')))]
                out.append(wrap('nest_%s_%s_%s' % (lab, kind, where), fs, [fill(7), alt(b'\0\1', b'\1\0'), fill(9)], kind, objs=objs,
                                top=s if where == 'top' else [], knobs=[(0, 1)]))
    # enum: SetEndian in one variant, not in others; all kinds of variants; object level
    for top in tops:
        for combo in itertools.product('ns', repeat=4):
            vs = [Var('A', 1, [F('a', 'u16'), F('b', 'u16', *ats[combo[0]](1)), F('c', 'u16')]),
                  Var('B', 2, [F('a', 'u16'), F('b', 'u16', *ats[combo[1]](2)), F('c', 'u16')], kind='tuple'),
                  Var('C', 3, None, attrs=ats[combo[2]](3)),
                  Var('D', '_', [F('a', 'u16'), F('b', 'u16', *ats[combo[3]](4)), F('c', 'u16')])]
            for order in ((0, 1, 2, 3), (3, 2, 1, 0)):
                out.append(Prog('en_%s_%s_%d' % (top, ''.join(combo), order[0]),
                                [Enum('E', [vs[o] for o in order], top=list(tops[top])), Struct('T', [
                                    F('s', 'u8'), F('v', ('obj', 'E'), PARSE(p_obj('E', 'le', 's'))), F('z', 'u16'),
                                    F('w', ('obj', 'E'), PARSE(p_obj('E', 'be', 's'))), F('y', 'u16')])],
                                knobs=[(0, 1) if top == 'top' else (0,)] + [(0, 1) if c == 's' else (0,) for c in combo],
                                inp=[rng(1, 4), fill(17)]))
    # long objects: SetEndian far from its uses, several switches
    for kind in ('named', 'tuple', 'evar'):
        for n in (8, 12, 20):
            for at in (0, 1, n // 2, n - 2, n - 1):
                fs = [F('f%d' % j, 'u16', *([SETENDIAN('k0 == 1')] if j == at else [])) for j in range(n)]
                out.append(wrap('long_%s_%d_%d' % (kind, n, at), fs, [fill(2 * n)], kind, knobs=[(0, 1)], tail=0))
            fs = [F('f%d' % j, 'u16', *([SETENDIAN('k%d == 1' % (j % 3))] if j % 2 else [])) for j in range(n)]
            out.append(wrap('alt_%s_%d' % (kind, n), fs, [fill(2 * n)], kind, knobs=[(0, 1)] * 3, tail=0))
    # every value of the type Endianness, that of the machine included
    for kind in ('named', 'tuple', 'evar', 'etup', 'nested', 'generr', 'complete', 'debug'):
        out.append(wrap('nat_%s' % kind, [F('a', 'u16'), F('b', 'u16', SETENDIAN3('k0')), F('c', 'u32'), F('d', ('tup', 'u16', 'u16'), SETENDIAN3('k1'))], [fill(12)], kind,
                        knobs=[(0, 1, 2), (0, 1, 2)], tail=0))
        if kind not in ('nested', 'generr', 'debug'):
            out.append(wrap('natt_%s' % kind, [F('a', 'u16'), F('b', 'which'), F('c', 'f32')], [fill(7)], kind, top=[SETENDIAN3('k0')], knobs=[(0, 1, 2)], tail=0))
    # two SetEndian on the same field or object: each replaces the previous one
    for kind in ('named', 'evar'):
        out.append(wrap('two_%s' % kind, [F('a', 'u16', SETENDIAN('k0 == 1'), SETENDIAN('k1 == 1')), F('b', 'u16')], [fill(4)], kind,
                        knobs=[(0, 1), (0, 1)]))
        out.append(wrap('twot_%s' % kind, [F('a', 'u16'), F('b', 'u16')], [fill(4)], kind, top=[SETENDIAN('k0 == 1'), SETENDIAN('k1 == 1')],
                        knobs=[(0, 1), (0, 1)]))
    # with generic errors, debug, complete
    for kind in ('generr', 'debug', 'complete', 'args', 'exact'):
        out.append(wrap('kw_%s' % kind, [F('a', 'u16'), F('b', 'u16', SETENDIAN('k0 == 1')), F('c', 'u32')], [fill(8)], kind, knobs=[(0, 1)], tail=0))
        out.append(wrap('kwt_%s' % kind, [F('a', 'u16'), F('c', 'u32')], [fill(6)], kind, top=[SETENDIAN('k0 == 1')],
                        knobs=[(0, 1)], tail=0))
    return out


# ------------------------------------------------------------------------------------- C04
def cnt8():
    return p_int('u8', 'be')


def stream_items():
    """(label, fields, input, objects): the fragment of the language without constructs looking at the end of input.
    Fields are called f..., so that they can be repeated"""
    o = []

    def it(lab, fields, inp, objs=(), **kw):
        o.append((lab, fields, inp, list(objs), kw))
    for t in ('u8', 'u16', 'i32', 'u64', 'u128', 'i8', 'i16', 'u32', 'i64', 'i128', 'f32', 'f64'):
        it(t, [F('fa', t)], [fill(int(t[1:]) // 8)])
    it('tup', [F('fa', ('tup', 'u8', ('tup', 'u16', 'u32')))], [fill(7)])
    it('str', [F('fa', 'str')], [alt(b'\0\0\0\0', b'\0\0\0\x03abc', b'\0\0\0\x02\xc3\xa9', b'\0\0\0\x02\xc3\x28')])
    for w in ('u8', 'u16', 'u32', 'u64'):
        n = int(w[1:]) // 8
        it('ld' + w, [F('fa', ('ld', w), PARSE(p_ty(('ld', w), 'be')))], [alt(bytes(n), bytes(n - 1) + b'\3xyz')])
    it('cond', [F('fa', 'u8'), F('fb', ('opt', 'u16'), COND('fa == 1')), F('fc', ('opt', 'u32'), COND('fa != 1'))], [rng(0, 1), fill(4)])
    it('count', [F('fa', 'u8'), F('fb', ('vec', 'u16'), COUNT('fa'))], [rng(0, 3), fill(6)])
    it('cnt_nest', [F('fa', ('vec', ('obj', 'N')), COUNT(2))], [fill(6)], [Struct('N', [F('x', 'u8'), F('y', 'u16')])])
    it('lc', [F('fa', ('vec', 'u16'), LCOUNT(cnt8()))], [rng(0, 3), fill(6)])
    it('lc16', [F('fa', ('vec', ('obj', 'N')), LCOUNT(p_int('u16', 'be')))], [alt(b'\0\0', b'\0\2'), fill(6)], [Struct('N', [F('x', 'u8'), F('y', 'u16')])])
    it('cc', [F('fa', ('vec', ('vec', 'u8')), LCOUNT(cnt8()), LCOUNT(cnt8()))], [rng(0, 2), rng(0, 2), fill(2), rng(0, 2), fill(2)])
    it('map', [F('fa', 'u16', MAP('v ^ 3', 'v', 'u16'))], [fill(2)])
    it('verify', [F('fa', 'u16', VERIFY('fa != 258', 'fa'))], [alt(b'\1\2', b'\2\1', b'\1\3')])
    it('into', [F('fa', 'u32', INTO, PARSE(p_int('u16', 'be')))], [fill(2)])
    it('take', [F('fa', 'u8'), F('fb', 'slice', TAKE('fa'))], [rng(0, 3), fill(3)])
    it('take0', [F('fb', 'slice', TAKE(0)), F('fc', 'slice', TAKE(1))], [fill(1)])
    it('tag', [F('fa', 'slice', TAG(b'\1\2\3'))], [alt(b'\1\2\3', b'\1\2\4', b'\1\3\3', b'\0\2\3')])
    it('parse', [F('fa', 'u16', PARSE(p_int('u16', 'le')))], [fill(2)])
    it('pair', [F('fa', ('raw', '(u8, u16)', '(tup u8 u16)'), PARSE(p_pair(p_int('u8', 'be'), p_int('u16', 'le'))))] if False else
       [F('fa', ('tup', 'u8', 'u16'), PARSE(p_pair(p_int('u8', 'be'), p_int('u16', 'le'))))], [fill(3)])
    it('ldat', [F('fa', 'slice', PARSE(p_ldata(p_int('u16', 'be'))))], [alt(b'\0\0', b'\0\3abc')])
    it('skip', [F('fa', 'u8', SKIPB(2), SKIPA(3)), F('fb', 'u8')], [fill(7)])
    it('skipf', [F('fa', 'u8'), F('fb', 'u8', SKIPB('fa')), F('fc', 'u8')], [rng(0, 3), fill(5)])
    it('align', [F('fa', 'u8', ALIGNA(4)), F('fb', 'u8', ALIGNB(8)), F('fc', 'u8')], [fill(14)])
    it('move', [F('fa', 'u8'), F('fb', 'u8', MOVE(3)), F('fc', 'u8', MOVE(-4)), F('fd', 'u8', MOVE(1))], [fill(7)])
    it('moveabs', [F('fa', 'u8'), F('fb', 'u8', MOVEABS(5)), F('fc', 'u8', MOVEABS(0)), F('fd', 'u8', MOVEABS(9))], [fill(11)])
    it('movef', [F('fa', 'u8'), F('fb', 'u8', MOVE('fa-2'))], [rng(0, 5), fill(7)])
    it('moveaf', [F('fa', 'u8'), F('fb', 'u8', MOVEABS('fa-1'))], [rng(0, 5), fill(7)])
    it('errif', [F('fa', 'u8'), F('fb', 'u16', ERRIF('fa == 1'))], [rng(0, 2), fill(2)])
    it('value', [F('fa', 'u8'), F('fb', 'u16', VALUE('fa + 1', 'u16')), F('fc', 'u32', IGNORE), F('fd', 'phantom')], [fill(1)])
    it('setend', [F('fa', 'u8'), F('fb', 'u16', SETENDIAN('fa == 1')), F('fc', 'u32')], [rng(0, 1), fill(6)])
    it('end', [F('fa', 'u16', BE), F('fb', 'u32', LE)], [fill(6)])
    it('nest', [F('fa', ('obj', 'N')), F('fb', ('obj', 'N'))], [fill(10)], [Struct('N', [F('x', 'u8', ALIGNA(2)), F('y', 'u16', SKIPA(1))])])
    it('fl', [F('fa', ('obj', 'FL'))], [alt(b'\0\0', b'\0\1', b'\1\0', b'\2\2')],
       [Fieldless('FL', 'u16', [('A', None, 0), ('B', None, 1), ('C', '256', 256)])])
    it('en', [F('fa', 'u8'), F('fb', ('obj', 'E'), PARSE(p_obj('E', 'be', 'fa')))], [rng(0, 3), fill(6)],
       [Enum('E', [Var('A', 0, [F('x', 'u16')]), Var('B', 1, [F('x', 'u8'), F('y', 'u32')], kind='tuple'), Var('C', 2, None, attrs=[SKIPB(2)])])])
    it('debug', [F('fa', 'u16', DEBUG)], [fill(2)])
    it('err', [F('fa', 'u8'), F('fb', 'u8', PARSE(P_ERR)), F('fc', 'u8')], [fill(3)])
    it('failp', [F('fa', 'u8'), F('fb', 'u8', PARSE(P_FAIL)), F('fc', 'u8')], [fill(3)])
    it('pre', [F('fa', 'u8', PRE(s_let('zz', 'k0')), POST(s_let('yy', 'fa')))] if False else [F('fa', 'u16', PRE(s_ev(1)), POST(s_ev(2, 'fa')))], [fill(2)])
    return o


def C04(tier):
    out = []
    items = stream_items()
    st = ['stream']
    never = ('err', 'failp')

    def pr(lab):
        return [] if any(n in lab.split('.') for n in never) else None

    def comb(*its):
        """several items in one object"""
        fields, inp, objs, seen = [], [], [], {}
        for k, (lab, fs, i, ob, kw) in enumerate(its):
            m = {f.name: '%s%d' % (f.name, k) for f in fs}
            fields += [f.ren(m) for f in fs]
            inp += i
            for x in ob:
                if x.name in seen and seen[x.name] != lab:
                    return None
                if x.name not in seen:
                    seen[x.name] = lab
                    objs.append(x)
        return fields, inp, objs
    kinds = ['named', 'tuple', 'evar', 'etup', 'nested', 'nested3', 'generr', 'input', 'args', 'third', 'vec', 'debug']
    for it in items:
        lab, fs, i, ob, kw = it
        nms = any(a.name in ('Verify', 'Debug') for f in fs for a in f.attrs)
        for k in kinds:
            if k in ('tuple', 'etup') and nms:
                continue
            if k == 'generr' and lab in ('nest', 'cnt_nest', 'lc16', 'fl', 'en', 'debug', 'str') or k == 'debug' and lab in ('pair',):
                continue
            if k == 'vec' and (lab in ('failp', 'err') or any(has_lt(f.ty) for f in fs)):
                continue
            # (no neutral `tail`: the last byte of the input language is part of the message)
            rk = [] if k == 'vec' else pr(lab)
            out.append(wrap('p1_%s_%s' % (k, lab), fs, i, k, objs=ob, flags=st, tail=2, reach=rk))
    n = 0
    pk = ['named', 'tuple', 'evar', 'nested'] if tier == QUICK else ['named', 'nested', 'evar']
    for a, b in itertools.product(items, items):
        c = comb(a, b)
        if not c:
            continue
        fs, i, ob = c
        nms = any(x.name in ('Verify', 'Debug') for f in fs for x in f.attrs)
        n += 1
        for k in ([pk[n % 4]] if tier == QUICK else pk):
            if k == 'tuple' and nms:
                k = 'named'
            lab = '%s.%s' % (a[0], b[0])
            # (moves and sizes may make the message unreachable within the input language)
            out.append(wrap('p2_%s_%s_%s' % (k, a[0], b[0]), fs, i, k, objs=ob, flags=st, tail=3, reach=[]))
    if tier == THOROUGH:
        small = [x for x in items if x[0] in ('u16', 'tup', 'count', 'lc', 'verify', 'take', 'tag', 'skip', 'align', 'move', 'moveabs',
                                              'cond', 'nest', 'fl', 'en', 'errif', 'ldu8')]
        for a, b, c in itertools.product(small, repeat=3):
            d = comb(a, b, c)
            if d:
                out.append(wrap('p3_%s_%s_%s' % (a[0], b[0], c[0]), d[0], d[1], 'named', objs=d[2], flags=st, tail=1, reach=[]))
    # a length-type-value protocol and the like: messages made of several items depending on each other
    out.append(Prog('tlv', [Enum('V', [Var('A', 1, [F('x', 'u16')]), Var('B', 2, [F('v', ('vec', 'u8'), COUNT('len'))]),
                                       Var('C', '_', [F('v', 'slice', TAKE('len'))])], args=[('len', 'u8')]),
                            Struct('T', [F('t', 'u8'), F('l', 'u8'), F('v', ('obj', 'V', "V<'a>"), PARSE(p_obj('V', 'be', 't', 'l'))), F('c', 'u16')])],
                    inp=[rng(0, 3), rng(0, 3), fill(6)], flags=st))
    out.append(Prog('hdr', [Struct('T', [F('magic', 'slice', TAG(b'\x7fE')), F('cls', 'u8', VERIFY('cls < 3', 'cls')), F('n', 'u16', SETENDIAN('cls == 1')),
                                         F('items', ('vec', ('tup', 'u8', 'u16')), COUNT('n'), ), F('off', 'u8'), F('tl', 'u32', MOVEABS('off'))])],
                    inp=[alt(b'\x7fE', b'\x7fF'), rng(1, 3), alt(b'\0\1', b'\1\0', b'\2\0'), fill(6), alt(b'\0', b'\7', b'\x0c'), fill(8)], flags=st))
    # larger sizes: announced lengths around 255, 256, 65535; bytes arrive in blocks
    for nm, f in (('take', [F('n', 'u16'), F('v', 'slice', TAKE('n')), F('z', 'u8')]),
                  ('cnt', [F('n', 'u16'), F('v', ('vec', 'u8'), COUNT('n')), F('z', 'u8')]),
                  ('skip', [F('n', 'u16', BE), F('z', 'u8', SKIPB('n'))]),
                  ('move', [F('n', 'u16'), F('z', 'u8', MOVE('n'))]),
                  ('moveabs', [F('n', 'u16'), F('z', 'u8', MOVEABS('n'))]),
                  ('ld', [F('v', ('ld', 'u16'), PARSE(p_ty(('ld', 'u16'), 'be'))), F('z', 'u8')])):
        for kind in ('named', 'evar', 'nested'):
            for a, bl in ((b'\0\xff', 254), (b'\1\0', 255), (b'\1\1', 256)):
                out.append(wrap('big_%s_%s_%d' % (kind, nm, bl), f, [alt(a), blob(bl), fill(4)], kind, flags=st, tail=0,
                                entries=['parse', 'be'] if nm != 'ld' else None))
    out.append(wrap('big_al', [F('a', 'u8', ALIGNA(256)), F('b', 'u8', ALIGNA(512)), F('c', 'u8')], [fill(1), blob(254), fill(2), blob(254), fill(3)], 'named', flags=st, tail=0))
    # alignment and moves: positions given by knobs
    for kind in ('named', 'nested3', 'evar'):
        for nm, f in (('alignb', [F('a', 'slice', TAKE('k0')), F('b', 'u8', ALIGNB('k1')), F('c', 'u8')]),
                      ('aligna', [F('a', 'slice', TAKE('k0'), ALIGNA('k1')), F('c', 'u8')]),
                      ('move', [F('a', 'slice', TAKE('k0')), F('b', 'u8', MOVE('k1 - 4')), F('c', 'u8')]),
                      ('moveabs', [F('a', 'slice', TAKE('k0')), F('b', 'u8', MOVEABS('k1')), F('c', 'u8')])):
            out.append(wrap('pos_%s_%s' % (kind, nm), f, [fill(12)], kind, flags=st,
                            knobs=[tuple(range(0, 6)), tuple(range(1, 9))], tail=3))
    return out


# ------------------------------------------------------------------------------------- C05
def C05(tier):
    out = []
    items = stream_items()
    items += [('opt', [F('fa', ('opt', 'u32'))], [fill(4)], [], {}),
              ('arr', [F('fa', ('arr', 'u16', 2))], [fill(4)], [], {}),
              ('which', [F('fa', 'which')], [fill(1)], [], {}),
              ('only', [F('fa', ('only', 'u16', 'be'))], [fill(2)], [], {}),
              ('vec', [F('fa', ('vec', 'u16'))], [fill(4)], [], {}),
              ('incp', [F('fa', 'u8'), F('fb', ('vec', 'u16'), PARSE(p_count(p_int('u16', 'be'), 'fa')))], [rng(0, 2), fill(4)], [], {}),
              ('rest', [F('fa', 'u8'), F('fb', 'slice', PARSE(P_REST))], [fill(3)], [], {}),
              ('fcompl', [F('fa', 'u16', COMPLETE), F('fb', 'u16')], [fill(4)], [], {})]
    ni = ['neverinc']
    kinds = ['named', 'tuple', 'evar', 'etup', 'args', 'generr', 'input', 'third', 'exact', 'debug']
    srcs = [('Nom', None), ('NomBE', None), ('NomLE', None), ('Nom', 'be'), ('Nom', 'le')]
    for lab, fs, i, ob, kw in items:
        nms = any(a.name in ('Verify', 'Debug') for f in fs for a in f.attrs)
        rk = [] if lab in ('err', 'failp') else None
        for k in kinds:
            if k in ('tuple', 'etup') and nms:
                continue
            if k == 'generr' and lab in ('nest', 'cnt_nest', 'lc16', 'fl', 'en', 'debug', 'str', 'arr'):
                continue
            r2 = [] if k == 'exact' or k == 'third' and lab in ('vec', 'rest') else rk
            setend = any(a.name == 'SetEndian' for f in fs for a in f.attrs)
            for n, (d, e) in enumerate(srcs):
                if n and (setend or k not in ('named', 'evar')):
                    continue
                out.append(wrap('top_%s_%s_%s%s' % (k, lab, d, e or ''), fs, i, k, objs=ob, flags=ni, complete=True, reach=r2,
                                derive=d, end=e))
        # nested in another object (marked Complete, or not)
        if lab not in ('err', 'failp'):
            T = Struct('T', fs, complete=True)
            tt = ('obj', 'T', "T<'a>") if T.need_lt() else ('obj', 'T')
            for oc in (True, False):
                out.append(Prog('nest_%s_%s' % (lab, oc), ob + [Struct('T', fs, complete=True), Struct('O', [F('a', 'u8'), F('t', tt), F('z', 'u16')], complete=oc)],
                                inp=[fill(1)] + i + [fill(3)], flags=ni if oc else [], reach=['ok'] if lab not in ('vec', 'rest') else []))
                if oc:
                    out.append(Prog('nestin_%s' % lab, ob + [Struct('T', fs), Struct('O', [F('a', 'u8'), F('t', tt), F('z', 'u16')], complete=oc)],
                                    inp=[fill(1)] + i + [fill(3)], flags=ni, reach=['ok'] if lab not in ('vec', 'rest') else []))
                if not T.need_lt():
                    # in Option and Vec, in an enum variant, through Parse
                    out.append(Prog('nesto_%s_%s' % (lab, oc), ob + [Struct('T', fs, complete=True), Struct('O', [F('t', ('opt', tt)), F('z', 'u8')], complete=oc)],
                                    inp=i + [fill(3)], flags=ni if oc else [], reach=[]))
                    out.append(Prog('nestc_%s_%s' % (lab, oc), ob + [Struct('T', fs, complete=True), Struct('O', [F('t', ('vec', tt), COUNT(2)), F('z', 'u8')], complete=oc)],
                                    inp=i + i + [fill(3)], flags=ni if oc else [], reach=[]))
        # Complete on each field of the item, others being streaming
        for j in range(len(fs)):
            for pos in ('first', 'last'):
                g = [f.ren({}) for f in fs]
                f = g[j]
                term = {'Parse', 'Take', 'Tag', 'Value', 'Ignore'}
                if pos == 'last':
                    idx = next((n for n, a in enumerate(f.attrs) if a.name in term), len(f.attrs))
                    if idx == 0:
                        continue
                    f.attrs.insert(idx, COMPLETE)
                else:
                    f.attrs.insert(0, COMPLETE)
                for k in ('named', 'evar', 'tuple', 'nested'):
                    if k == 'tuple' and nms:
                        continue
                    out.append(wrap('f%d%s_%s_%s' % (j, pos, k, lab), g, i, k, objs=ob, reach=[] if k == 'nested' and lab in ('vec', 'rest') else rk))
    # pairs of items in one object marked Complete
    sel = [x for x in items if x[0] in ('u16', 'str', 'count', 'lc', 'take', 'tag', 'skip', 'align', 'move', 'moveabs', 'cond', 'nest', 'fl', 'en', 'opt',
                                        'arr', 'verify', 'lduu8', 'vec')]
    for a, b in itertools.product(sel if tier == QUICK else items, repeat=2):
        m = [{f.name: f.name + str(n) for f in x[1]} for n, x in enumerate((a, b))]
        fs = [f.ren(m[0]) for f in a[1]] + [f.ren(m[1]) for f in b[1]]
        ob = a[3] + [o for o in b[3] if o.name not in [p.name for p in a[3]]]
        if any(o.name == 'N' for o in a[3]) and any(o.name == 'N' for o in b[3]) and a[0] != b[0]:
            continue
        out.append(wrap('p2_%s_%s' % (a[0], b[0]), fs, a[2] + b[2], 'named', objs=ob, flags=ni, complete=True, reach=[]))
    # fieldless enums, for all representations and functions
    for t in REPRS:
        w = width(t)
        for n, (d, e) in enumerate(srcs):
            fl = lambda c: Fieldless('T', t, [('A', None, 0), ('B', None, 1)], derive=d, end=e, complete=c)
            vals = [(x).to_bytes(w, bo) for x in (0, 1) for bo in ('big', 'little')]
            out.append(Prog('fl_%s_%s%s' % (t, d, e or ''), [fl(True)], inp=[alt(*vals), fill(1)], flags=ni))
            out.append(Prog('flo_%s_%s%s' % (t, d, e or ''), [fl(True), Struct('O', [F('a', 'u8'), F('b', ('obj', 'T')), F('c', 'u16')])], inp=[fill(1), alt(*vals), fill(3)]))
    # unit variants, with directives and parsers; default variants; all with and without Complete
    for c in (True, False):
        for nm, at in (('none', []), ('skipb', [SKIPB(2)]), ('skipa', [SKIPA(2)]), ('alignb', [SKIPB(1), ALIGNB(4)]), ('aligna', [SKIPB(1), ALIGNA(4)]),
                       ('move', [MOVE(2)]), ('moveabs', [MOVEABS(3)]), ('parse', [PARSE(p_int('u16', 'be'))]), ('parse0', [PARSE(p_take(3)), SKIPA(1)]),
                       ('neg', [MOVE(-1)]), ('errif', [ERRIF('ilen < 2')])):
            out.append(Prog('unit_%s_%s' % (nm, c), [Enum('T', [Var('A', 1, None, attrs=at), Var('B', 2, [F('x', 'u16')]), Var('D', '_', None, attrs=at)], complete=c),
                                                       Struct('O', [F('s', 'u8'), F('t', ('obj', 'T'), PARSE(p_obj('T', 'be', 's'))), F('z', 'u8')], complete=c)],
                            inp=[rng(1, 3), fill(5)], flags=ni if c else []))
            out.append(Prog('unitt_%s_%s' % (nm, c), [Enum('T', [Var('A', 1, None, attrs=at), Var('B', 2, [F('x', 'u16')])], complete=c)],
                            args=[1], inp=[fill(5)], flags=ni if c else [], reach=[] if nm == 'neg' else None))
    # object-level statements and Exact
    for c in (True, False):
        for k in ('named', 'tuple', 'evar'):
            out.append(wrap('stm_%s_%s' % (k, c), [F('a', 'u8', PRE(s_ev(1)), POST(s_ev(2))), F('b', 'u16', PRE(s_ev(3, 'ilen')))], [fill(3)], k,
                            top=[PRE(s_ev(4)), POST(s_ev(5, 'ilen'))], complete=c, flags=ni if c else []))
    # knobs: directives at all distances of the end
    for k in ('named', 'tuple', 'evar', 'nested3', 'etup'):
        for nm, f in (('alignb', [F('a', 'slice', TAKE('k0')), F('b', 'phantom', ALIGNB('k1'))]),
                      ('aligna', [F('a', 'slice', TAKE('k0'), ALIGNA('k1'))]),
                      ('skip', [F('a', 'slice', SKIPB('k0'), TAKE(1), SKIPA('k1'))]),
                      ('move', [F('a', 'slice', TAKE('k0')), F('b', 'u8', MOVE('k1 - 3'))]),
                      ('moveabs', [F('a', 'slice', TAKE('k0')), F('b', 'u8', MOVEABS('k1 - 3'))])):
            out.append(wrap('pos_%s_%s' % (k, nm), f, [fill(9)], k, flags=ni if k != 'nested3' else [], complete=True,
                            knobs=[tuple(range(0, 6)), tuple(range(1, 9))], tail=0))
    # huge announced lengths
    for k in ('named', 'evar'):
        for t in ('u16', 'u32', 'u64'):
            for nm, f in (('take', F('v', 'slice', TAKE('n'))), ('cnt', F('v', ('vec', 'u16'), COUNT('n'))), ('skip', F('v', 'u8', SKIPB('n'))),
                          ('skipa', F('v', 'u8', SKIPA('n'))), ('move', F('v', 'u8', MOVE('n'))), ('moveabs', F('v', 'u8', MOVEABS('n'))),
                          ('align', F('v', 'u8', ALIGNB('n | 1')))):
                out.append(wrap('huge_%s_%s_%s' % (k, t, nm), [F('n', t), f], [alt(b'\xff' * width(t), b'\x7f' + b'\xff' * (width(t) - 1), bytes(width(t))), fill(2)],
                                k, complete=True, flags=ni, reach=[]))
    return out


# ------------------------------------------------------------------------------------- C06
def opt_items(tier):
    """(label, type, input segments of one item, objects)"""
    o = [(t, t, [fill(int(t[1:]) // 8)], []) for t in ('u8', 'u16', 'i32', 'u64', 'i8', 'i16', 'u32', 'f32', 'f64', 'i64', 'u128', 'i128')]
    N = Struct('N', [F('x', 'u8'), F('y', 'u16')])
    o += [
        ('tup', ('tup', 'u8', 'u16'), [fill(3)], []),
        ('tup2', ('tup', ('opt', 'u16'), 'u8'), [fill(3)], []),
        ('arr', ('arr', 'u16', 2), [fill(4)], []),
        ('str', 'str', [alt(b'\0\0\0\0', b'\0\0\0\2ab', b'\0\0\0\1\xff', b'\0\0\0\2\xc3\xa9')], []),
        ('which', 'which', [fill(1)], []),
        ('only', ('only', 'u16', 'le'), [fill(2)], []),
        ('nest', ('obj', 'N'), [fill(3)], [N]),
        ('nest2', ('obj', 'M'), [fill(6)], [N, Struct('M', [F('n', ('obj', 'N')), F('o', ('obj', 'N'))])]),
        ('fl', ('obj', 'FL'), [rng(0, 3)], [Fieldless('FL', 'u8', [('A', None, 0), ('B', None, 1), ('C', '3', 3)])]),
        ('fl16', ('obj', 'FL'), [alt(b'\0\1', b'\1\0', b'\2\0')], [Fieldless('FL', 'u16', [('A', None, 0), ('B', None, 1), ('C', '256', 256)])]),
        ('ver', ('obj', 'N'), [alt(b'\1', b'\2', b'\3'), fill(1)], [Struct('N', [F('x', 'u8', VERIFY('x != 2', 'x')), F('y', 'u8')])]),
        ('ver2', ('obj', 'N'), [alt(b'\1', b'\2', b'\3'), fill(1), rng(4, 6)], [Struct('N', [F('x', 'u8'), F('y', 'u8'), F('z', 'u8', VERIFY('z != 5', 'z'))])]),
        ('erri', ('obj', 'N'), [rng(0, 2), fill(1)], [Struct('N', [F('x', 'u8'), F('y', 'u8', ERRIF('x == 1'))])]),
        ('complete', ('obj', 'N'), [fill(3)], [Struct('N', [F('x', 'u8'), F('y', 'u16')], complete=True)]),
        ('fail', ('obj', 'N'), [rng(0, 2), fill(1)], [
            Enum('E', [Var('A', 1, [F('x', 'u8', PARSE(P_FAIL))]), Var('B', 2, [F('x', 'u8', PARSE(P_ERR))]), Var('C', '_', [F('x', 'u8')])]),
            Struct('N', [F('s', 'u8'), F('e', ('obj', 'E'), PARSE(p_obj('E', 'be', 's')))])]),
        ('en', ('obj', 'N'), [rng(0, 2), fill(3)], [
            Enum('E', [Var('A', 1, [F('x', 'u8')]), Var('B', 2, [F('x', 'u16'), F('y', 'u8')])]),
            Struct('N', [F('s', 'u8'), F('e', ('obj', 'E'), PARSE(p_obj('E', 'be', 's')))])]),
        ('cnt', ('obj', 'N'), [rng(0, 3), fill(3)], [Struct('N', [F('n', 'u8'), F('v', ('vec', 'u8'), COUNT('n'))])]),
        ('skip', ('obj', 'N'), [fill(5)], [Struct('N', [F('x', 'u8', ALIGNA(2)), F('y', 'u8', SKIPB(2))])]),
        ('move', ('obj', 'N'), [rng(0, 3), fill(3)], [Struct('N', [F('x', 'u8'), F('y', 'u8', MOVEABS('x'))])]),
        ('exact', ('obj', 'N'), [fill(1)], [Struct('N', [F('x', 'u8')], top=[EXACT])]),
        ('opt', ('opt', 'u16'), [fill(2)], []),
        ('optopt', ('opt', ('opt', 'u8')), [fill(1)], []),
        ('vec', ('vec', 'u16'), [fill(2)], []),
        ('unit', ('obj', 'N'), [], [Struct('N', [], kind='unit')]),
        ('empty', ('obj', 'N'), [], [Struct('N', [])]),
        ('ph', ('obj', 'N'), [], [Struct('N', [F('p', 'phantom')])]),
        ('val', ('obj', 'N'), [], [Struct('N', [F('a', 'u8', VALUE(3, 'u8')), F('b', 'u16', IGNORE)])]),
        ('take0', ('obj', 'N'), [rng(0, 2), fill(2)], [Struct('N', [F('n', 'u8', MOVE(0)), F('v', 'u8', MOVEABS('n'))])]),
        ('mv0', ('obj', 'N'), [rng(0, 2)], [Struct('N', [F('n', 'u8'), F('v', 'phantom', MOVEABS('n'))])]),
    ]
    return o


def C06(tier):
    out = []
    for lab, t, inp, ob in opt_items(tier):
        zero = lab in ('unit', 'empty', 'ph', 'val', 'opt', 'optopt', 'vec', 'exact')
        for shape in ('opt', 'vec', 'optvec', 'optopt', 'vecopt', 'vecvec'):
            ty = {'opt': ('opt', t), 'vec': ('vec', t), 'optvec': ('opt', ('vec', t)), 'optopt': ('opt', ('opt', t)),
                  'vecopt': ('vec', ('opt', t)), 'vecvec': ('vec', ('vec', t))}[shape]
            many = 'vec' in shape
            i = inp * (2 if lab in ('str', 'en', 'fail') else 3) if many else inp
            kinds = ['named', 'tuple', 'evar', 'etup', 'nested', 'third', 'complete', 'args', 'input']
            if tier == QUICK and shape not in ('opt', 'vec'):
                kinds = ['named', 'third']
            for k in kinds:
                out.append(wrap('%s_%s_%s' % (shape, k, lab), [F('x', ty)], i, k, objs=ob, reach=[], tail=1 if many else 3))
            # between fields, twice
            if shape in ('opt', 'vec'):
                out.append(wrap('mid_%s_%s' % (shape, lab), [F('a', 'u8'), F('x', ty), F('y', ty), F('z', 'u8')], [fill(1)] + i + inp, 'named', objs=ob, reach=[], tail=1))
            # byte orders
            for n, (d, e) in enumerate((('NomBE', None), ('NomLE', None), ('Nom', 'be'), ('Nom', 'le'))):
                if shape in ('opt', 'vec'):
                    out.append(wrap('%s_%s%s_%s' % (shape, d, e or '', lab), [F('x', ty)], i, 'named', objs=ob, derive=d, end=e, reach=[], tail=1))
            if shape in ('opt', 'vec'):
                for a in (BE, LE):
                    out.append(wrap('%s_f%s_%s' % (shape, a.name, lab), [F('x', ty, a)], i, 'named', objs=ob, reach=[], tail=1))
        # direct calls on the types
        for shape in ('opt', 'vec', 'optvec', 'vecopt'):
            ty = {'opt': ('opt', t), 'vec': ('vec', t), 'optvec': ('opt', ('vec', t)), 'vecopt': ('vec', ('opt', t))}[shape]
            out.append(Prog('ty_%s_%s' % (shape, lab), ob, call=('ty', ty), inp=inp * (3 if 'vec' in shape and lab not in ('str', 'en', 'fail') else 2) + [fill(1)], reach=[]))
        if lab not in ('exact',):
            # in tuples, and items made of an optional part
            out.append(Prog('tuo_%s' % lab, ob, call=('ty', ('tup', ('opt', t), 'u8')), inp=inp + [fill(2)], reach=[]))
            out.append(Prog('tuv_%s' % lab, ob, call=('ty', ('vec', ('tup', 'u8', ('opt', t)))), inp=[fill(1)] + inp + [fill(1)] + inp, reach=[]))
            out.append(Prog('tup_%s' % lab, ob, call=('ty', ('tup', ('vec', t), 'u8')), inp=inp + inp + [fill(1)], reach=[]))
            out.append(Prog('arr_%s' % lab, ob, call=('ty', ('arr', ('opt', ('tup', 'u8', t)), 1)), inp=[fill(1)] + inp + [fill(1)], reach=[]))
    # many items
    for t, n in (('u8', 300), ('u16', 130), ('u16', 300)) + ((('u8', 66000), ('u32', 20000)) if tier == THOROUGH else (('u8', 66000),)):
        w = width(t)
        out.append(Prog('many_%s_%d' % (t, n), [Struct('T', [F('v', ('vec', t)), F('z', ('opt', 'u8'))])], inp=[blob(n * w - 1), fill(2)]))
    # an optional field which is there, but whose content is partially wrong: the position is reset
    for k in ('named', 'evar', 'nested'):
        N = Struct('N', [F('a', 'u16'), F('b', 'u8'), F('c', 'u8', VERIFY('c == 1', 'c'))])
        for nm, f in (('o', [F('x', ('opt', ('obj', 'N'))), F('y', ('opt', 'u16')), F('z', 'u8')]),
                      ('v', [F('x', ('vec', ('obj', 'N'))), F('y', ('vec', 'u16')), F('z', ('opt', 'u8'))])):
            out.append(wrap('reset_%s_%s' % (k, nm), f, [fill(3), rng(0, 1), fill(3), rng(0, 1), fill(1)], k, objs=[N], reach=[], tail=0))
    # byte order below Option and Vec is that of the field, also when it is set at run time
    for k in ('named', 'evar'):
        for ty in (('opt', 'which'), ('vec', 'which'), ('vec', ('opt', 'u16')), ('opt', ('vec', 'u16'))):
            out.append(wrap('se_%s_%s' % (k, sxt(ty).replace(' ', '').replace('(', '').replace(')', '')), [F('a', 'u16'), F('x', ty, SETENDIAN('k0 == 1'))],
                            [fill(6)], k, knobs=[(0, 1)], reach=[]))
    return out


# ------------------------------------------------------------------------------------- C07
def count_items():
    N = Struct('N', [F('x', 'u8'), F('y', 'u16')])
    return [
        ('u8', 'u8', [fill(1)], []), ('u16', 'u16', [fill(2)], []), ('i32', 'i32', [fill(4)], []), ('u128', 'u128', [fill(16)], []),
        ('f32', 'f32', [fill(4)], []),
        ('tup', ('tup', 'u8', 'u16'), [fill(3)], []), ('arr', ('arr', 'u8', 2), [fill(2)], []),
        ('nest', ('obj', 'N'), [fill(3)], [N]),
        ('opt', ('tup', 'u8', ('opt', 'u8')), [fill(2)], []),
        ('which', 'which', [fill(1)], []), ('only', ('only', 'u16', 'le'), [fill(2)], []),
        ('str', 'str', [alt(b'\0\0\0\0', b'\0\0\0\1a', b'\0\0\0\1\xff')], []),
        ('fl', ('obj', 'FL'), [rng(0, 2)], [Fieldless('FL', 'u8', [('A', None, 0), ('B', None, 1)])]),
        ('ver', ('obj', 'N'), [rng(1, 2), fill(1)], [Struct('N', [F('x', 'u8', VERIFY('x != 2', 'x')), F('y', 'u8')])]),
        ('fail', ('obj', 'N'), [rng(1, 3), fill(1)], [
            Enum('E', [Var('A', 1, [F('x', 'u8', PARSE(P_FAIL))]), Var('B', 2, [F('x', 'u8', PARSE(P_ERR))]), Var('C', '_', [F('x', 'u8')])]),
            Struct('N', [F('s', 'u8'), F('e', ('obj', 'E'), PARSE(p_obj('E', 'be', 's')))])]),
        ('compl', ('obj', 'N'), [fill(3)], [Struct('N', [F('x', 'u8'), F('y', 'u16')], complete=True)]),
        ('tlv', ('obj', 'N'), [rng(0, 2), fill(2)], [Struct('N', [F('n', 'u8'), F('v', ('vec', 'u8'), COUNT('n'))])]),
    ]


def C07(tier):
    out = []
    kinds = ['named', 'tuple', 'evar', 'etup', 'nested', 'third', 'complete', 'args', 'input', 'nested3', 'exact', 'debug', 'generr']
    many = {'u8', 'u16', 'nest', 'tup'}
    for lab, t, inp, ob in count_items():
        reps = 2 if lab in ('str', 'fail') else 3
        for k in kinds if lab in many or tier == THOROUGH else ['named', 'etup']:
            if k == 'generr' and lab not in ('u8', 'u16', 'tup', 'which', 'only'):
                continue
            i = inp * reps
            ta = [] if k in ('exact',) else None
            # Count = expression of a field, a knob, a constant
            out.append(wrap('cf_%s_%s' % (k, lab), [F('n', 'u8'), F('v', ('vec', t), COUNT('n')), F('z', 'u8')], [rng(0, 4)] + i, k, objs=ob, reach=ta))
            out.append(wrap('ck_%s_%s' % (k, lab), [F('v', ('vec', t), COUNT('k0')), F('z', 'u8')], i, k, objs=ob, knobs=[tuple(range(0, 5))], reach=ta))
            for n in (0, 1, 3):
                out.append(wrap('cc%d_%s_%s' % (n, k, lab), [F('v', ('vec', t), COUNT(n)), F('z', 'u8')], inp * max(n, 1), k, objs=ob, reach=ta))
            # LengthCount
            out.append(wrap('lc_%s_%s' % (k, lab), [F('v', ('vec', t), LCOUNT(cnt8())), F('z', 'u8')], [rng(0, 4)] + i, k, objs=ob, reach=ta))
            # arrays
            if k != 'generr':
                for n in (0, 1, 2, 3):
                    out.append(wrap('ar%d_%s_%s' % (n, k, lab), [F('v', ('arr', t, n)), F('z', 'u8')], inp * max(n, 1), k, objs=ob, reach=ta))
        # all together
        out.append(wrap('all_%s' % lab, [F('a', ('arr', t, 2)), F('n', 'u8'), F('b', ('vec', t), COUNT('n')), F('c', ('vec', t), LCOUNT(cnt8())), F('z', 'u8')],
                        inp + (inp if lab not in ('str', 'fail', 'tlv') else []) + [rng(0, 1)] + inp[:1] + [rng(0, 1)] + inp, 'named', objs=ob, reach=[]))
    # Count below other combinators and vice versa
    V8, VV = ('vec', 'u8'), ('vec', ('vec', 'u8'))
    for k in ('named', 'evar', 'tuple', 'complete'):
        for a in ('c', 'l'):
            for b in ('c', 'l'):
                at = lambda x, kn: COUNT(kn) if x == 'c' else LCOUNT(cnt8())
                i = ([rng(0, 2)] if a == 'l' else []) + (([rng(0, 2), fill(2)] if b == 'l' else [fill(2)]) * 2)
                out.append(wrap('nn_%s_%s%s' % (k, a, b), [F('v', VV, at(a, 'k0'), at(b, 'k1')), F('z', 'u8')], i, k, knobs=[(0, 1, 2, 3), (0, 1, 2)], reach=[]))
        out.append(wrap('ct_%s' % k, [F('v', ('vec', 'slice'), COUNT('k0'), TAKE('k1'))], [fill(6)], k, knobs=[(0, 1, 2, 3), (0, 1, 2)]))
        out.append(wrap('cp_%s' % k, [F('v', ('vec', 'u16'), COUNT('k0'), PARSE(p_int('u16', 'le')))], [fill(6)], k, knobs=[(0, 1, 2, 3)]))
        out.append(wrap('cv_%s' % k, [F('v', ('vec', 'u16'), COUNT('k0'), VALUE(7, 'u16'))], [fill(2)], k, knobs=[(0, 1, 2, 300)]))
        out.append(wrap('oc_%s' % k, [F('v', ('opt', V8), COND('k1 == 1'), COUNT('k0'))], [fill(3)], k, knobs=[(0, 1, 2, 3), (0, 1)]))
        out.append(wrap('ol_%s' % k, [F('v', ('opt', V8), COND('k0 == 1'), LCOUNT(cnt8()))], [rng(0, 3), fill(3)], k, knobs=[(0, 1)]))
        out.append(wrap('m_%s' % k, [F('v', V8, MTWIST(V8), COUNT('k0'), MTWIST('u8'))], [fill(3)], k, knobs=[(0, 1, 2, 3)]))
        if k != 'tuple':
            out.append(wrap('cvv_%s' % k, [F('v', V8, COUNT('k0'), VERIFY('v != 2', 'v'))], [rep((1, 2), 3)], k, knobs=[(0, 1, 2, 3)]))
            out.append(wrap('vcv_%s' % k, [F('v', V8, VCHK('v', V8), COUNT('k0'))], [rep((1, 3), 3)], k, knobs=[(0, 1, 2, 3)]))
        out.append(wrap('cco_%s' % k, [F('v', V8, COMPLETE, COUNT('k0'))], [fill(3)], k, knobs=[(0, 1, 2, 3)]))
        out.append(wrap('cco2_%s' % k, [F('v', V8, COUNT('k0'), COMPLETE)], [fill(3)], k, knobs=[(0, 1, 2, 3)]))
    # sources of counts: all integer types and parsers, evaluated once
    for t in INTS:
        w = width(t)
        for k in ('named', 'evar'):
            vals = alt(*[(x).to_bytes(w, 'big') for x in (0, 1, 3)])
            out.append(wrap('src_%s_%s' % (k, t), [F('n', t, BE), F('v', ('vec', 'u8'), COUNT('n')), F('w', 'slice', TAKE('n')), F('z', 'u8')], [vals, fill(6)], k))
            out.append(wrap('srce_%s_%s' % (k, t), [F('n', t, BE), F('v', ('vec', 'u8'), COUNT('n + 1')), F('w', 'slice', TAKE('n * 2 - n')), F('z', 'u8')], [vals, fill(8)], k))
    for k in ('named', 'etup'):
        for t in ('u8', 'u16', 'u32', 'u64'):
            for e in ('be', 'le'):
                vals = alt(*[(x).to_bytes(width(t), 'big' if e == 'be' else 'little') for x in (0, 1, 3)])
                out.append(wrap('lcs_%s_%s_%s' % (k, t, e), [F('v', ('vec', 'u16'), LCOUNT(p_int(t, e))), F('z', 'u8')], [vals, fill(6)], k))
                out.append(wrap('lct_%s_%s_%s' % (k, t, e), [F('v', ('vec', 'u16'), LCOUNT(p_ty(t, e))), F('z', 'u8')], [vals, fill(6)], k))
    for k in ('named', 'tuple', 'evar'):
        out.append(wrap('ev_%s' % k, [F('v', V8, COUNT('ev(1, k0)')), F('w', V8, LCOUNT(p_ev(2, cnt8()))), F('y', ('vec', 'u16'), COUNT(2), PARSE(p_ev(3, p_int('u16', 'be'))))],
                        [fill(3), rng(0, 2), fill(6)], k, knobs=[(0, 1, 2, 3)], reach=[]))
        out.append(wrap('evt_%s' % k, [F('v', 'slice', TAKE('ev(1, k0)')), F('z', 'u8')], [fill(4)], k, knobs=[(0, 1, 2, 3)]))
    # exactly the announced number for larger numbers: bytes arrive in blocks
    big = [(254, 'u8'), (255, 'u8'), (256, 'u8'), (257, 'u8'), (300, 'u16'), (1000, 'u8'), (4096, 'u8'), (65535, 'u8'), (65536, 'u8'), (65537, 'u8'), (70000, 'u16')]
    for n, t in big:
        w = width(t)
        for k in ('named', 'evar'):
            for nm, f in (('c', F('v', ('vec', t), COUNT(n))), ('ck', F('v', ('vec', t), COUNT('k0'))), ('t', F('v', 'slice', TAKE(n * w)))):
                out.append(wrap('big_%s_%s_%d_%s' % (k, nm, n, t), [f, F('z', 'u8')], [blob(n * w - 1), fill(2)], k, knobs=[(n,)] if nm == 'ck' else [], tail=0))
            l = 'u16' if n < 65536 else 'u32'
            out.append(wrap('bigl_%s_%d_%s' % (k, n, t), [F('v', ('vec', t), LCOUNT(p_int(l, 'be'))), F('z', 'u8')],
                            [alt(n.to_bytes(width(l), 'big')), blob(n * w - 1), fill(2)], k, tail=0))
            out.append(wrap('bigf_%s_%d_%s' % (k, n, t), [F('n', l, BE), F('v', ('vec', t), COUNT('n')), F('z', 'u8')],
                            [alt(n.to_bytes(width(l), 'big')), blob(n * w - 1), fill(2)], k, tail=0))
        if n <= 4096:
            out.append(Prog('biga_%d_%s' % (n, t), [Struct('T', [F('v', ('arr', t, n)), F('z', 'u8')])], inp=[blob(n * w - 1), fill(2)]))
    for n in (4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129):
        out.append(Prog('arr_%d' % n, [Struct('T', [F('v', ('arr', 'u8', n)), F('w', ('vec', 'u8'), COUNT(n)), F('x', 'slice', TAKE(n)), F('z', 'u8')])], inp=[fill(3 * n + 2)],
                        entries=None if n < 40 else ['le']))
    # larger than the input can hold
    for k in ('named', 'evar', 'nested', 'complete'):
        for t in INTS:
            w = width(t)
            vals = {b'\xff' * w, b'\x7f' + b'\xff' * (w - 1), b'\x80' + bytes(w - 1), bytes(w - 1) + b'\x09', bytes(w // 2) + b'\xff' * (w - w // 2),
                    bytes(w - 1) + b'\xff'}
            a = alt(*sorted(vals))
            if w == 16:
                vals |= {bytes(7) + b'\1' + bytes(7) + b'\2', b'\1' + bytes(14) + b'\1'}
                a = alt(*sorted(vals))
            for nm, f in (('c', F('v', ('vec', 'u16'), COUNT('n'))), ('cn', F('v', ('vec', ('obj', 'N')), COUNT('n'))), ('t', F('v', 'slice', TAKE('n'))),
                          ('cc', F('v', ('vec', ('vec', 'u8')), COUNT('n'), COUNT('n')))):
                out.append(wrap('huge_%s_%s_%s' % (k, t, nm), [F('n', t, BE), f], [a, fill(3)], k, objs=[Struct('N', [F('x', 'u8'), F('y', 'u16')])] if nm == 'cn' else [], reach=[]))
            if t in ('u8', 'u16', 'u32', 'u64'):
                out.append(wrap('hugel_%s_%s' % (k, t), [F('v', ('vec', 'u16'), LCOUNT(p_int(t, 'be')))], [a, fill(3)], k, reach=[]))
                out.append(wrap('hugeld_%s_%s' % (k, t), [F('v', ('ld', t), PARSE(p_ty(('ld', t), 'be')))], [a, fill(3)], k, reach=[]))
        out.append(wrap('hugestr_%s' % k, [F('v', 'str')], [alt(b'\xff\xff\xff\xff', b'\0\0\0\x09', b'\x7f\xff\xff\xff'), fill(3)], k, reach=[]))
    return out


# ------------------------------------------------------------------------------------- C08
COMBS = 'PCNLIMVD'      # comPlete, Cond, couNt, LengthCount, Into, Map, Verify, Debug
TERMS = {
    'none': ('u8', None, []), 'tag': ('slice', lambda: TAG(b'\1\2'), []), 'take': ('slice', lambda: TAKE('k9'), [9]),
    'value': ('u8', lambda: VALUE(7, 'u8'), []), 'parse': ('u8', lambda: PARSE(p_int('u8', 'be')), []),
    'parsen': ('u8', lambda: PARSE(p_ty('u8', 'le')), []), 'ignore': ('u8', lambda: IGNORE, []), 'perr': ('u8', lambda: PARSE(P_ERR), []),
    'pfail': ('u8', lambda: PARSE(P_FAIL), []),
}


def seq_field(name, seq, term, extra=(), split=None):
    """field with the combinators `seq`, then a terminal; returns (field, knobs).  Knobs are allotted in order of use"""
    base, t, _ = TERMS[term]
    tys = [base]
    for c in reversed(seq):
        tys.insert(0, ('opt', tys[0]) if c == 'C' else ('vec', tys[0]) if c in 'NL' else tys[0])
    attrs, knobs = [], []

    def knob(vals):
        knobs.append(vals)
        return 'k%d' % (len(knobs) - 1)
    for c, ty, sub in zip(seq, tys, tys[1:]):
        if c == 'P':
            a = COMPLETE
        elif c == 'C':
            a = COND('%s == 1' % knob((0, 1)))
        elif c == 'N':
            a = COUNT(knob((0, 1, 2)))
        elif c == 'L':
            a = LCOUNT(cnt8())
        elif c == 'I':
            a = INTO
        elif c == 'M':
            a = MTWIST(ty)
        elif c == 'V':
            a = VCHK(name, ty)
        else:
            a = DEBUG
        attrs.append(a)
    if term == 'take':
        attrs.append(TAKE(knob((0, 1, 2))))
    elif t:
        attrs.append(t())
    attrs += list(extra)
    return F(name, tys[0], *attrs, split=split), knobs


def seq_ok(seq, term):
    if 'I' in seq and term in ('perr', 'pfail'):
        return False
    # (the target of Into must be known: it cannot be inferred below these)
    for a, b in zip(seq, seq[1:]):
        if b == 'I' and a in 'IV':
            return False
    if 'I' in seq:
        k = seq.index('I')
        # Into of Into; conversion of a value examined by Verify, even through Debug, Complete...
        if 'I' in seq[k + 1:]:
            return False
        if 'V' in seq[:k]:
            return False
    return True


def C08(tier):
    out = []
    depth = 2 if tier == QUICK else 3
    al = (0, 1, 2)

    def prog(nm, seq, term, kind, extra=(), split=None, fields=None, n=None, al=al):
        f, knobs = seq_field('x', seq, term, extra, split)
        nin = n or (2 + 2 * sum(c in 'NL' for c in seq) + (term in ('tag', 'take')))
        nin = min(nin, 5)
        return wrap('%s_%s_%s_%s' % (nm, kind, ''.join(seq), term), [F('a', 'u8', VALUE(1, 'u8')), f], [rep(al, nin)], kind, knobs=knobs, reach=[], tail=1)
    seqs = [s for n in range(0, depth + 1) for s in itertools.product(COMBS, repeat=n)]
    for s in seqs:
        for t in TERMS:
            if not seq_ok(s, t):
                continue
            if len(s) == 3 and t in ('parsen', 'ignore', 'perr') or len(s) == 3 and t == 'pfail' and s[0] not in 'CNL':
                continue
            nms = any(c in 'VD' for c in s)
            ks = ['named', 'evar'] + ([] if nms else ['tuple', 'etup'])
            if len(s) == 3 or tier == QUICK and len(s) == 2 and t not in ('none', 'parse', 'take'):
                ks = ks[:1]
            for k in ks:
                out.append(prog('s', list(s), t, k))
    if tier == QUICK:
        # a selection of the sequences of three
        for s in itertools.product(COMBS, repeat=3):
            if seq_ok(s, 'none') and len(set(s)) == 3 and 'D' not in s:
                out.append(prog('s3', list(s), 'none', 'named', al=(1, 2) if 'L' in s else (0, 1)))
    # what follows the terminal attribute is not considered
    ex = [COMPLETE, COND('k0 == 5'), COUNT(7), LCOUNT(cnt8()), MAP('v + 1', 'v', 'u8'), VERIFY('x == 77', 'x'), TAG(b'\3'), TAKE(3), VALUE(9, 'u8'),
          PARSE(p_int('u8', 'le')), IGNORE, DEBUG, INTO, PARSE(P_ERR)]
    for t in TERMS:
        if t == 'none':
            continue
        for n, e in enumerate(ex):
            for s in ((), ('P',), ('C',), ('N',), ('M',)) if tier == THOROUGH else ((), ('C', 'N')[n % 2:n % 2 + 1]):
                for k in ('named', 'evar') if e.name in ('Verify', 'Debug') else ('named', 'tuple'):
                    # (a knob, as the condition uses one)
                    p = prog('after%d' % n, list(s), t, k, extra=[e])
                    p.knobs = p.knobs or [(0, 1)]
                    out.append(p)
    # interleaved attributes of other kinds, at all positions
    inter = [ALIGNB(2), ALIGNA(2), SKIPB(1), SKIPA(1), MOVE(0), MOVEABS(0), ERRIF('ipeek == 3'), BE, LE, SETENDIAN('1 == 1'), PRE(s_ev(1)), POST(s_ev(2))]
    n = 0
    for s in itertools.product(COMBS, repeat=2):
        for t in ('none', 'parse', 'take', 'value'):
            if not seq_ok(s, t):
                continue
            for pos in range(0, 4 if t != 'none' else 3):
                for q in range(2 if tier == QUICK else len(inter)):
                    a = inter[(n * 5 + q * 7) % len(inter)] if tier == QUICK else inter[q]
                    f, knobs = seq_field('x', list(s), t)
                    f.attrs.insert(pos, a)
                    out.append(wrap('i%d_%d_%s_%s' % (pos, q, ''.join(s), t), [F('a', 'u8'), f, F('z', 'u8')], [fill(1), rep((1, 2) if 'L' in s else (0, 1), 4)],
                                    ('named', 'evar')[n % 2], knobs=knobs, reach=[], tail=2))
                n += 1
    # splitting in several lists: all compositions
    for s in itertools.product('PCNLMVD', repeat=2 if tier == QUICK else 3):
        for t in ('none', 'parse', 'take'):
            f, knobs = seq_field('x', list(s), t)
            m = len(f.attrs)
            for mask in range(1, 1 << (m - 1)):
                split, run_ = [], 1
                for j in range(m - 1):
                    if mask >> j & 1:
                        split.append(run_)
                        run_ = 1
                    else:
                        run_ += 1
                p = prog('sp%d' % mask, list(s), t, 'named', split=split, n=3 if len(s) == 2 else 4, al=(1, 2) if 'L' in s else (0, 1))
                out.append(p)
    # the same attribute sequences on several fields of an object
    for s in (('C', 'N'), ('N', 'M'), ('L', 'M'), ('V', 'N'), ('M', 'V'), ('V', 'M'), ('P', 'N'), ('C', 'L'), ('C', 'V'), ('V', 'C')):
        f, k1 = seq_field('x', list(s), 'none')
        g, k2 = seq_field('y', list(reversed(s)), 'none')
        up = lambda m, n=len(k1): '%s%d' % (m.group(1), int(m.group(2)) + n)
        g.attrs = [A(a.name, a.arg and re.sub(r'(kn\()(\d+)', up, a.arg), re.sub(r'(\(k )(\d+)', up, a.sx)) for a in g.attrs]
        for k in ('named', 'evar', 'nested', 'complete'):
            out.append(wrap('two_%s_%s' % (k, ''.join(s)), [f, g, F('z', 'u8')], [rep((1, 2), 5)], k, knobs=k1 + k2, reach=[], tail=1))
    # conversions: the parser has another type than the field
    for k in ('named', 'tuple', 'evar'):
        out.append(wrap('into_%s' % k, [F('x', 'u32', INTO, PARSE(p_int('u16', 'le')))], [fill(2)], k))
        out.append(wrap('ninto_%s' % k, [F('x', ('vec', 'u32'), COUNT('k0'), INTO, PARSE(p_int('u16', 'le')))], [fill(4)], k, knobs=[(0, 1, 2)]))
        out.append(wrap('cinto_%s' % k, [F('x', ('opt', 'u32'), COND('k0 == 1'), INTO, PARSE(p_int('u8', 'le')))], [fill(2)], k, knobs=[(0, 1)]))
        out.append(wrap('lmap_%s' % k, [F('x', ('vec', 'u32'), LCOUNT(cnt8()), A('Map', '|v: u16| v as u32 + 70000', '(map v (+ v 70000))'), PARSE(p_int('u16', 'be')))], [rng(0, 2), fill(4)], k))
        out.append(wrap('mapm_%s' % k, [F('x', 'u32', MAP('v * 3', E_('v', 'u32'), 'u32'), MAP('v + 1', E_('v', 'u16'), 'u32'), PARSE(p_int('u16', 'be')))] if False else
                        [F('x', 'u32', MAP('v * 3', 'v', 'u32'), MAP('v + 1', 'v', 'u32'))], [alt(b'\0\0\0\1', b'\0\0\1\0')], k))
    return out
