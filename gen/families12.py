"""Sizes: what the other families explore, far from the start of the input, deep in nested objects, and in large numbers."""
from dsl import *
from families import *
import families, families2, families3, families4, families7, families8
from families3 import opt_kids

FAMS = {p: getattr(m, p) for m in (families, families2, families3, families4, families7, families8) for p in dir(m) if p[0] == 'C' and p[1:].isdigit()}
FARAWAY = 70000
#: programs of each family seen from far away
N = dict(C01=40, C02=60, C03=60, C04=80, C05=60, C06=60, C07=60, C08=25, C09=100, C10=60, C11=40, C12=80, C13=60, C14=20, C20=60, C22=60, C23=60)


def apart(ats):
    """an attribute each (rustc does not expand more than 128 `nom` of one field)"""
    k = -(-len(ats) // 100)
    return [len(ats[j:j + k]) for j in range(0, len(ats), k)]


def far(p, n, size):
    """the program, after `size` bytes (an object which contains it)"""
    if type(p) is not Prog or p.call[0] != 'obj' or len(p.call) > 2 or p.extra or 'stream' in p.flags or 'twice' in p.flags or p.place:
        return None
    o = next((o for o in p.objs if o.name == p.call[1]), None)
    if not isinstance(o, (Struct, Enum, Fieldless)) or o.generics is not None or o.where or len(str(p.inp)) > 4000 or 'blob' in str(p.inp):
        return None
    if any(f.name == 'Far' for f in p.objs):
        return None
    ty = ('obj', o.name, o.name + ("<'a>" if o.need_lt() else ''))
    e = ('be', 'le')[n % 2]
    ats = [PARSE(p_obj(o.name, e, *p.args))] if p.args else [{'be': BE, 'le': LE}[e]]
    # (a result which does not implement Error is not shown)
    objs = p.objs + [Struct('Far', [F('pad', 'slice', TAKE(size)), F('x', ty, *ats), F('y', 'u8')])]
    return Prog('far%d_%s' % (size, p.name), objs, call=('obj', 'Far'), inp=[blob(size)] + p.inp + [fill(1)], knobs=p.knobs, entries=['parse'], flags=[f for f in p.flags if f not in ('neverinc',)], reach=[])


def faraway(prop, tier):
    if prop not in N:
        return []
    out = []
    l = [p for p in (far(p, n, FARAWAY) for n, p in enumerate(FAMS[prop](QUICK))) if p]
    k = N[prop] * (5 if tier == THOROUGH else 1)
    if len(l) > k:
        l = [l[(j * len(l)) // k] for j in range(k)]
    return l


def chain(depth, mk, inp):
    """objects in objects; mk(level, inner type or None): fields and keywords"""
    objs, i = [], []
    inner = None
    for d in range(depth):
        fs, kw = mk(d, inner)
        objs.append(Struct('L%d' % d, fs, kind='tuple' if d % 3 == 2 and not kw.pop('named', 0) else 'named', **{k: v for k, v in kw.items() if k != 'named'}))
        inner = ('obj', 'L%d' % d, "L%d<'a>" % d if objs[-1].need_lt() else 'L%d' % d)
    return objs


def many(prop, tier):
    """(name, program)s of the property with large numbers"""
    out = []
    T = tier == THOROUGH
    D = (5, 9, 17) + ((33, 65) if T else ())
    A_ = (9, 17, 33, 65) + ((130, 260) if T else ())
    add = out.append
    K4 = ('named', 'tuple', 'evar', 'etup')

    def deep(nm, d, mk, inp, last=None, **kw):
        objs = chain(d, mk, inp)
        if last:
            last(objs[-1])
        add(Prog('%s_%d' % (nm, d), objs, call=('obj', 'L%d' % (d - 1)), inp=inp, reach=[], **kw))

    if prop == 'C01':
        for d in D:
            deep('deep', d, lambda l, t: ([F('a', 'u8')] + ([F('x', t)] if t else [F('x', 'u16')]) + ([F('b', 'u16')] if l % 2 else []), {}), [blob(d), fill(2 + d + 1)])
    if prop == 'C02':
        for d in D:
            for k, (fe, kw) in enumerate([([], {}), ([BE], {}), ([LE], {})]):
                # the byte order is handed down, or replaced half way
                deep('deep%d' % k, d, lambda l, t: ([F('a', 'u16')] + ([F('x', t, *(fe if l == d // 2 else []))] if t else [F('x', 'u32')]), {}), [blob(2 * d - 1), fill(6)])
            deep('deepo', d, lambda l, t: ([F('a', 'u16')] + ([F('x', t)] if t else [F('x', 'u32')]), dict(end=('be', 'le', None)[l % 3])), [blob(2 * d - 1), fill(6)])
            deep('deepv', d, lambda l, t: ([F('a', 'u16')] + ([F('x', ('vec', t), COUNT(1)), F('w', ('opt', 'u16'))] if t else [F('x', 'u32')]), {}), [blob(2 * d - 1), fill(8)])
        for n in (40, 300):
            for k in K4:
                for m in (2, 3):
                    add(wrap('alt%d_%s_%d' % (m, k, n), [F('f%d' % j, 'u16', *([[BE], [LE], []][j % m])) for j in range(n)], [blob(2 * n - 3), fill(4)], k, reach=[], derive=('Nom', 'NomLE')[n > 40 and m == 3]))
    if prop == 'C03':
        for d in D:
            deep('deep', d, lambda l, t: ([F('a', 'u8')] + ([F('x', t)] if t else [F('x', 'u32')]), {}), [rng(0, 1), blob(d - 2), fill(6)], last=lambda o: o.fields[1].attrs.append(SETENDIAN('a == 1' if o.kind == 'named' else '_0 == 1')))
            deep('deepk', d, lambda l, t: ([F('a', 'u16')] + ([F('x', t)] if t else [F('x', 'u32')]), dict(top=[SETENDIAN('k0 %% 3 == %d' % (l % 3))] if l % 2 else [])), [blob(2 * d - 1), fill(6)], knobs=[(0, 1, 2)])
        for n in (40, 300):
            for k in K4:
                add(wrap('flip_%s_%d' % (k, n), [F('f%d' % j, 'u16', *([SETENDIAN('k0 %% 2 == %d' % (j // 3 % 2))] if j % 3 == 0 else [])) for j in range(n)], [blob(2 * n - 3), fill(4)], k, knobs=[(0, 1)], reach=[]))
                add(wrap('one_%s_%d' % (k, n), [F('f%d' % j, 'u16', *([SETENDIAN('k0 == 1')] if j == n // 2 else [LE] if j == n - 2 else [])) for j in range(n)], [blob(2 * n - 3), fill(4)], k, knobs=[(0, 1)], reach=[]))
    if prop == 'C05':
        for d in D:
            for w in (0, d // 2, d - 1):
                deep('deep%d' % w, d, lambda l, t: ([F('a', 'u8')] + ([F('x', t)] if t else [F('x', 'u16')]) + [F('b', 'u8')], dict(complete=l == w)), [blob(max(1, d - 2)), fill(2), fill(2), fill(d)])
        for n in (40, 200):
            for k in K4:
                add(wrap('last_%s_%d' % (k, n), [F('f%d' % j, 'u16', *([COMPLETE] if j == n - 2 else [])) for j in range(n)], [blob(2 * n - 6), fill(8)], k, reach=[]))
                add(wrap('lasto_%s_%d' % (k, n), [F('f%d' % j, 'u16') for j in range(n)], [blob(2 * n - 6), fill(8)], k, reach=[], complete=True, flags=['neverinc']))
    if prop == 'C06':
        for d in D:
            deep('deepo', d, lambda l, t: ([F('a', 'u8')] + ([F('x', ('opt', t))] if t else [F('x', 'u16')]) + [F('b', 'u8')], {}), [fill(2 * d + 2)])
            deep('deepv', d, lambda l, t: ([F('a', 'u8')] + ([F('x', ('vec', t))] if t else [F('x', 'u16')]), {}), [fill(d + 4)])
        for n in range(2, 7):
            t = 'u16'
            for _ in range(n):
                t = ('opt', t)
            add(wrap('optopt_%d' % n, [F('a', 'u8'), F('x', t), F('y', ('opt', 'u8'))], [fill(5)], 'named', reach=[]))
        for n in (40, 200):
            for k in K4:
                add(wrap('opts_%s_%d' % (k, n), [F('f%d' % j, ('opt', ('u16', 'u8')[j % 2])) for j in range(n)], [blob(n), fill(n // 2 + 2)], k, reach=[]))
    if prop == 'C08':
        for n in A_[:2] + ((33,) if T else ()):
            for lab, ats in (('map', [MTWIST('u8')] * n), ('mapv', [MTWIST('u8'), VCHK('x', 'u8')] * n), ('compl', [COMPLETE] * n), ('mix', [MTWIST('u8'), COMPLETE, VCHK('x', 'u8'), SKIPB(1)] * (n // 4))):
                for sp in (None, apart(ats), [3] * (len(ats) // 3)):
                    add(wrap('n%s%d_%d' % (lab, 0 if sp is None else sp[0], n), [F('a', 'u8'), F('x', 'u8', *ats, split=sp), F('z', 'u8')], [fill(1), rng(0, 7), fill(n // 4)], 'named', reach=[]))
        for n in range(2, 6):
            t, tc, tm = 'u8', 'u8', 'u8'
            for _ in range(n):
                t, tc = ('vec', t), ('opt', tc)
            add(wrap('cc_%d' % n, [F('x', t, *[COUNT(2 if j < 2 else 1) for j in range(n)]), F('z', 'u8')], [fill(5)], 'named', reach=[]))
            add(wrap('cd_%d' % n, [F('a', 'u8'), F('x', tc, *[COND('a != %d' % j) for j in range(n)]), F('z', 'u8')], [rng(0, n), fill(2)], 'tuple' if n % 2 else 'named', reach=[]))
            for perm in range(1 << n):
                t = 'u8'
                ats = []
                for j in range(n):
                    c = perm >> j & 1
                    t = ('opt', t) if c else ('vec', t)
                    ats = [COND('a != %d' % j) if c else COUNT('b')] + ats
                add(wrap('cx_%d_%d' % (n, perm), [F('a', 'u8'), F('b', 'u8'), F('x', t, *ats), F('z', 'u8')], [rng(0, n), rng(0, 2), fill(4)], 'etup' if perm % 2 else 'named', reach=[]))
    if prop == 'C09':
        for d in D:
            deep('deep', d, lambda l, t: ([F('a', 'u8')] + ([F('x', t, ALIGNB(2 + l % 3))] if t else [F('x', 'u16', MOVEABS(1))]) + [F('b', 'u8', ALIGNA(4))], {}), [fill(5 * d + 4)])
            deep('deepm', d, lambda l, t: ([F('a', 'u8')] + ([F('x', t, MOVE(l % 2), SKIPA(1))] if t else [F('x', 'u8')]) + [F('b', 'u8', MOVEABS(1 - l % 2))], {}), [fill(2 * d + 4)])
        for n in A_:
            for lab, at in (('sb', [SKIPB(1)] * n), ('sa', [SKIPA(1)] * n), ('mv', [MOVE(1), MOVE(2), MOVE(-2)] * (n // 3)), ('al', [SKIPB(1), ALIGNB(2)] * (n // 2)), ('ab', [MOVEABS(j % 5) for j in range(n)]), ('mix', [SKIPB(1), ALIGNA(3), MOVE(-1), SKIPA(1), ALIGNB(2)] * (n // 5))):
                for k in ('named', 'etup', 'nested3'):
                    add(wrap('n%s_%s_%d' % (lab, k, n), [F('a', 'u8'), F('x', 'u8', *at, split=apart(at) if k == 'etup' else None), F('z', 'u8')], [blob(n - 1), fill(4), fill(n // 5 + 2)], k, reach=[]))
        for n in (40, 200):
            for k in K4:
                add(wrap('all_%s_%d' % (k, n), [F('f%d' % j, 'u8', [SKIPB(1), ALIGNB(4), MOVE(-1), SKIPA(2), ALIGNA(2), MOVE(2)][j % 6]) for j in range(n)], [blob(n), fill(2 * n)], k, reach=[]))
        # offsets and arguments around 2^8, 2^16 and more, within the object
        for b in (255, 256, 65535, 65536, 65537, 70001):
            for k in ('named', 'etup', 'nested3', 'complete'):
                for lab, at in (('al4', ALIGNB(4)), ('al3', ALIGNA(3)), ('al256', ALIGNB(256)), ('al64k', ALIGNB(65536)), ('mv0', MOVE('0 - k0')), ('mva', MOVEABS('k0')), ('mvb', MOVEABS('%d + k0' % (b - 255))), ('sk', SKIPB('k0')), ('mvf', MOVE('k0'))):
                    if lab in ('al256', 'al64k') and b + 3 > 65536 and lab == 'al64k' and b != 65535:
                        continue
                    if lab == 'al64k' and b < 65535:
                        continue
                    kn = [(0, 1, 254, 255, 256, b - 1, b, b + 1, b + 2)] if '(k 0)' in at.sx else ()
                    add(wrap('off_%s_%s_%d' % (k, lab, b), [F('pad', 'slice', TAKE(b)), F('x', 'u8', at), F('z', 'u8')], [blob(b), fill(3), blob(256), fill(3)], k, knobs=kn, entries=['parse'], reach=[], tail=0))
    if prop == 'C10':
        for n in (100, 256):
            for d in (0, n // 2, n):
                vs = [Var('V%d' % j, j, [F('x', ('u8', 'u16')[j % 2])] if j % 3 else None, kind='tuple' if j % 3 == 1 else 'named', attrs=[]) for j in range(n - 1)]
                vs.insert(min(d, len(vs)), Var('D', '_', [F('x', 'u32')]))
                add(Prog('n_%d_%d' % (n, d), [Enum('T', vs)], args=[E('engine::kn(0) as u8', '(k 0)')], inp=[fill(4)], knobs=[(0, 1, 2, 3, 63, 64, 65, 97, 98, 99, 100, 126, 127, 128, 129, 253, 254, 255)], reach=[]))
    if prop == 'C12':
        for n in A_:
            for lab, ats in (('ef', [ERRIF('k0 == %d' % j) for j in range(n)]), ('vl', [VERIFY('x + k0 != %d' % (j + 40), 'x') for j in range(n)])):
                for sp in (None, apart(range(n))):
                    add(wrap('n%s%d_%d' % (lab, sp is None, n), [F('a', 'u8'), F('x', 'u8', *ats, split=sp), F('z', 'u8')], [fill(1), rng(38, 40), fill(1)], 'named', knobs=[(0, 1, n // 2, n - 2, n - 1, n, n + 1)], reach=[]))
        for n in (40, 200):
            for k in K4:
                add(wrap('all_%s_%d' % (k, n), [F('f%d' % j, 'u8', ERRIF('k0 == %d' % j)) for j in range(n)], [blob(n - 3), fill(3)], k, knobs=[(0, 1, n // 2, n - 1, n)], reach=[]))
                add(wrap('cond_%s_%d' % (k, n), [F('f%d' % j, ('opt', 'u8'), COND('k0 %% %d == 0' % (j + 1))) for j in range(n)], [fill(12)], k, knobs=[(0, 1, 2, 6, 12, n - 1, n)] if n < 50 else [(1, 2, 12, n)], reach=[]))
        for d in D:
            deep('exact', d, lambda l, t: ([F('a', 'u8')] + ([F('x', t)] if t else [F('x', 'u16')]), dict(top=[EXACT])), [blob(d), fill(2), fill(2)])
    if prop == 'C13':
        for n in A_:
            for lab, ats in (('pre', [PRE(s_ev(j, 'ilen')) for j in range(n)]), ('post', [POST(s_ev(j, 'ilen')) for j in range(n)]), ('mix', [x for j in range(n // 2) for x in (POST(s_ev(j, 'ilen')), PRE(s_ev(j, 'ilen')))]),
                             ('adv', [PRE(s_advance(1)), PRE(s_ev(7, 'ilen')), SKIPB(1), POST(s_ev(8, 'ilen'))] * (n // 8))):
                for k in K4:
                    add(wrap('n%s_%s_%d' % (lab, k, n), [F('a', 'u8'), F('x', 'u8', *ats, split=apart(ats) if k == 'tuple' else None), F('z', 'u8')], [blob(n // 4), fill(4)], k, reach=[]))
            add(wrap('top_%d' % n, [F('a', 'u8'), F('b', 'u8')], [fill(2)], 'named', top=[x for j in range(n // 2) for x in (PRE(s_ev(j, 'ilen')), POST(s_ev(j, 'ilen')))], reach=[]))
        for n in (40, 200):
            for k in K4:
                add(wrap('all_%s_%d' % (k, n), [F('f%d' % j, 'u8', PRE(s_ev(j, 'ilen')), POST(s_ev(j, 'ilen'))) for j in range(n)], [blob(n - 3), fill(3)], k, reach=[]))
                add(wrap('val_%s_%d' % (k, n), [F('f%d' % j, 'u16', *([VALUE(j, 'u16')] if j % 3 == 0 else [IGNORE] if j % 3 == 1 else [])) for j in range(n)], [blob(2 * (n // 3)), fill(3)], k, reach=[]))
        for d in D:
            deep('deep', d, lambda l, t: ([F('a', 'u8', PRE(s_ev(l, 'ilen')))] + ([F('x', t, POST(s_ev(l, 'ilen')))] if t else [F('x', 'u16')]), dict(top=[PRE(s_ev(1, 'ilen')), POST(s_ev(2, 'ilen'))])), [blob(d), fill(4)])
    if prop == 'C20':
        for d in D:
            objs = []
            for l in range(d):
                inner = [F('x', ('obj', 'L%d' % (l - 1)), PARSE(p_obj('L%d' % (l - 1), ('be', 'le')[l % 2], 'xb + 1', 'xa + 2')))] if l else [F('x', 'u8', VALUE('xa', 'u8')), F('y', 'u16', VALUE('xb', 'u16'))]
                objs.append(Struct('L%d' % l, [F('a', 'u16')] + inner, args=[('xa', 'i128'), ('xb', 'i128')]))
            add(Prog('deep_%d' % d, objs, call=('obj', 'L%d' % (d - 1)), args=[3, 40], inp=[blob(2 * d - 1), fill(2)], reach=[]))
    if prop == 'C22':
        for n in A_[:3]:
            ats = [SKIPB(1), PRE(s_ev(1, 'ilen')), ALIGNB(2), ERRIF('ilen == 3'), POST(s_ev(2, 'ilen')), SKIPA(1)] * (n // 6) + [COMPLETE, MTWIST('u8')]
            for sp in (None, apart(ats), [2] * (len(ats) // 2), [len(ats) - 1], [1, len(ats) - 2]):
                for st in ('s', 'l'):
                    a = [x if x.arg is None else x.st(st) for x in ats]
                    add(wrap('n%s_%d_%s' % ('x' if sp is None else '%d_%d' % (sp[0], len(sp)), n, st), [F('a', 'u8'), F('x', 'u8', *a, split=sp), F('z', 'u8')], [blob(n // 2), fill(n // 2 + 3)], 'named', reach=[]))
    return out


def sizes(prop, tier):
    return faraway(prop, tier) + [p for p in many(prop, tier)]


def places(tier):
    """places of errors far from the start, and deep"""
    import families10
    out = []
    l = [q for q in (far(p.p, n, FARAWAY) for n, p in enumerate(families10.own(False)) if p.p.err is None) if q]
    k = 600 if tier == THOROUGH else 150
    l = [l[(j * len(l)) // k] for j in range(k)] if len(l) > k else l
    for lab, (fs, inp) in dict(ver=([F('x', 'u8'), F('y', 'u8', ERRIF('x == 2'))], [rng(1, 2), fill(1)]), tag=([F('x', 'slice', TAG(b'\1\2'))], [alt(b'\1\2', b'\1\3')]),
                               comp=([F('x', 'u8'), F('y', 'u32', COMPLETE)], [fill(5)]), skip=([F('x', 'u8'), F('y', 'u8', COMPLETE, SKIPB(3))], [fill(5)])).items():
        for d in (5, 9, 17):
            lt = any(has_lt(f.ty) for f in fs)
            objs = [Struct('L0', fs)]
            for j in range(1, d):
                t = ('obj', 'L%d' % (j - 1), "L%d<'a>" % (j - 1) if lt else 'L%d' % (j - 1))
                # (each time in another way)
                f = [F('x', t), F('x', ('vec', t), COUNT(1)), F('x', ('opt', t), COND('a != 0')), F('x', t, COMPLETE), F('x', ('tup', 'u8', t))][j % 5]
                objs.append(Struct('L%d' % j, [F('a', 'u8'), f, F('b', 'u8')]))
            n = d - 1 + sum(j % 5 == 4 for j in range(1, d))
            l.append(Prog('deep_%s_%d' % (lab, d), objs, call=('obj', 'L%d' % (d - 1)), inp=[blob(n)] + inp + [fill(d)], reach=[]))
    return [families10.Placed(p, '') for p in l]


PROPS = sorted(set(N) | {'C01', 'C02', 'C03', 'C05', 'C06', 'C08', 'C09', 'C10', 'C12', 'C13', 'C20', 'C22'})
