"""Program families C09-C15 (see families.py)."""
from families import *
from families import _letters, _SIZE


# ------------------------------------------------------------------------------------- C09
DIRS = {
    'alignb': (ALIGNB, list(range(1, 18))), 'aligna': (ALIGNA, list(range(1, 18))),
    'skipb': (SKIPB, list(range(0, 9))), 'skipa': (SKIPA, list(range(0, 9))),
    'move': (MOVE, list(range(-8, 9))), 'moveabs': (MOVEABS, list(range(-1, 13))),
}
C9KINDS = ['named', 'tuple', 'evar', 'etup', 'nested', 'nested3', 'input', 'args', 'complete', 'third', 'vec', 'opt', 'generr', 'debug']


def C09(tier):
    out = []
    T = tier == THOROUGH
    # every directive, argument and position of the cursor
    for d, (mk, vals) in DIRS.items():
        for k in C9KINDS:
            offs = tuple(range(0, 10)) if k in ('named', 'evar', 'nested3', 'complete') or T else (0, 1, 3, 5)
            v = tuple(vals) if k in ('named', 'evar', 'nested3', 'complete') or T else tuple(vals[::2])
            lead = F('a', ('vec', 'u8'), COUNT('k0'))
            ni = 14 if k != 'vec' else 9
            rk = [] if k == 'vec' else None
            # before/after a field in the middle, on the last field, on the first one
            out.append(wrap('d1_%s_%s' % (k, d), [lead, F('x', 'u8', mk('k1')), F('z', 'u16')], [fill(ni)], k, knobs=[offs, v], tail=4, reach=rk))
            out.append(wrap('d1l_%s_%s' % (k, d), [lead, F('x', 'u16', mk('k1'))], [fill(ni)], k, knobs=[offs, v], tail=4, reach=rk))
        for k in ('named', 'tuple', 'evar', 'nested', 'complete', 'vec'):
            out.append(wrap('d0_%s_%s' % (k, d), [F('x', 'u8', mk('k0')), F('z', 'u8')], [fill(12)], k, knobs=[tuple(vals)], tail=3, reach=[] if k == 'vec' else None))
            # together with a field which is optional, a list, a condition, a constant...
            for nm, t, ats in (('opt', ('opt', 'u16'), []), ('cnt', ('vec', 'u8'), [COUNT(2)]), ('cond', ('opt', 'u8'), [COND('k2 == 1')]),
                               ('val', 'u8', [VALUE(3, 'u8')]), ('ign', 'u32', [IGNORE]), ('arr', ('arr', 'u8', 3), []), ('take', ('vec', 'u8'), [LCOUNT(cnt8())]),
                               ('compl', 'u16', [COMPLETE]), ('ph', 'phantom', [])):
                for order in (0, 1):
                    a = [mk('k1')]
                    a = ats + a if order else a + ats
                    if order and not ats:
                        continue
                    out.append(wrap('t%d_%s_%s_%s' % (order, k, d, nm), [F('a', 'u8'), F('x', t, *a), F('z', 'u8')],
                                    [rep((1, 2), 1)] + ([fill(2), rep((0, 2), 2), fill(8)] if nm == 'take' else [fill(11)]), k, knobs=[(0,), tuple(vals[::2]), (0, 1)], reach=[], tail=2))
    # ordered pairs of directives on one field, and on following fields
    for (d, (mk, v)), (e, (mk2, v2)) in itertools.product(DIRS.items(), repeat=2):
        va = {'a': (1, 2, 3, 4, 7, 8), 's': (0, 1, 3), 'm': (-4, -1, 0, 2, 5)}
        for k in ('named', 'evar', 'nested3', 'complete') + (('tuple', 'etup', 'nested', 'vec') if T else ()):
            out.append(wrap('p_%s_%s_%s' % (k, d, e), [F('a', 'u8'), F('b', ('vec', 'u8'), COUNT('k0')), F('x', 'u8', mk('k1'), mk2('k2')), F('z', 'u8')], [fill(15)], k,
                            knobs=[(0, 1, 2, 4), va[d[0]], va[e[0]]], reach=[] if k == 'vec' else None, tail=2))
            out.append(wrap('q_%s_%s_%s' % (k, d, e), [F('a', 'u8'), F('x', 'u8', mk('k1')), F('y', 'u16', mk2('k2')), F('z', 'u8')], [fill(15)], k,
                            knobs=[(0,), va[d[0]], va[e[0]]], reach=[] if k == 'vec' else None, tail=2))
    # the same directive, written twice or three times, at once or around another one
    for d, (mk, v) in DIRS.items():
        for x in {'a': (2, 3, 8), 's': (1, 2), 'm': (-1, 1, 2)}[d[0]]:
            for k in ('named', 'tuple', 'evar', 'etup', 'nested3', 'complete', 'generr', 'input'):
                for lab, ats in (('2', [mk(x)] * 2), ('3', [mk(x)] * 3), ('o', [mk(x), SKIPB(1), mk(x)]), ('e', [mk(x), ERRIF('ilen == 5'), mk(x)]), ('k', [mk('k0'), mk('k0')])):
                    out.append(wrap('same_%s_%s_%d_%s' % (k, d, x % 256, lab), [F('a', 'u16'), F('b', 'u8', *ats), F('c', 'u8', *ats)], [fill(14)], k, knobs=[(x,)], reach=[], tail=1))
                if k == 'named':
                    out.append(Prog('sameu_%s_%d' % (d, x % 256), [Enum('E', [Var('A', 1, None, attrs=[mk(x), mk(x)]), Var('B', '_', None, attrs=[mk(x), mk(x), mk(x)])]), Struct('T', [F('a', 'u16'), F('s', 'u8'), F('e', ('obj', 'E'), PARSE(p_obj('E', 'be', 's'))), F('z', 'u8')])],
                                    inp=[fill(2), rng(1, 2), fill(10)], reach=[]))
    # three directives
    for a, b, c in itertools.product(DIRS, repeat=3):
        if not T and len({a, b, c}) < 3:
            continue
        va = {'a': (2, 3), 's': (0, 1), 'm': (-2, 3)}
        out.append(wrap('tr_%s_%s_%s' % (a, b, c), [F('a', 'u16'), F('x', 'u8', *[DIRS[d][0]('k%d' % n) for n, d in enumerate((a, b, c))]), F('z', 'u8')], [fill(11)],
                        'named', knobs=[va[a[0]], va[b[0]], va[c[0]]], reach=[], tail=1))
    # unit variants
    for d, (mk, v) in DIRS.items():
        for c in (False, True):
            for e in DIRS:
                mk2 = DIRS[e][0]
                va = {'a': (1, 2, 3, 4, 7, 8), 's': (0, 1, 3), 'm': (-4, -1, 0, 2, 5)}
                at = [mk('k0'), mk2('k1')]
                out.append(Prog('u_%s_%s_%s' % (d, e, c), [
                    Enum('E', [Var('A', 1, None, attrs=at), Var('B', '_', [F('x', 'u8')])], complete=c),
                    Struct('T', [F('a', 'u16'), F('s', 'u8'), F('e', ('obj', 'E'), PARSE(p_obj('E', 'be', 's'))), F('z', 'u8')])],
                    knobs=[va[d[0]], va[e[0]]], inp=[fill(2), rng(1, 2), fill(10)]))
                if e == 'skipb':
                    out.append(Prog('up_%s_%s_%s' % (d, e, c), [Enum('E', [Var('A', 1, None, attrs=[mk('k0'), PARSE(p_int('u16', 'be')), mk2('k1')]), Var('B', '_', [F('x', 'u8')])], complete=c)],
                                    args=[1], knobs=[va[d[0]], va[e[0]]], inp=[fill(12)]))
    # argument computed from fields of all types, and from arguments
    for t in INTS:
        w = width(t)
        for k in ('named', 'evar', 'complete', 'nested'):
            for d, (mk, v) in DIRS.items():
                vals = [0, 1, 3, 4, 8] if d[0] != 'a' else [0, 1, 3, 4, 8]
                if t[0] == 'i':
                    vals = vals + [-1, -3] if d[0] == 'm' else vals
                a = alt(*[(x % (1 << (8 * w))).to_bytes(w, 'big') for x in vals])
                out.append(wrap('f_%s_%s_%s' % (k, t, d), [F('n', t, BE), F('x', 'u8', mk('n')), F('z', 'u8')], [a, fill(10)], k))
    for k in ('named', 'evar', 'args', 'nested'):
        out.append(wrap('ex_%s' % k, [F('a', 'u8'), F('b', 'u8', SKIPB('a + 1')), F('c', 'u8', ALIGNB('a * 2 + 2')), F('d', 'u8', MOVE('0 - a'), SKIPA('a % 2')),
                                      F('e', 'u8', MOVEABS('a + b % 4')), F('z', 'u8')], [rng(0, 3), fill(2), rng(0, 3), fill(12)], k, reach=[]))
        # evaluated once, in order
        out.append(wrap('once_%s' % k, [F('a', 'u8'), F('b', 'u8', SKIPB('ev(1, 2)'), ALIGNB('ev(2, 4)'), MOVE('ev(3, 0 - 1)'), MOVEABS('ev(4, ilen * 0 + 3)'), SKIPA('ev(5, 1)'), ALIGNA('ev(6, 8)')),
                                        F('z', 'u8')], [fill(12)], k))
        # inside: the current input and Pre/PostExec
        out.append(wrap('pre_%s' % k, [F('a', 'u8'), F('b', 'u8', PRE(s_advance(1)), ALIGNB(4), PRE(s_ev(1, 'ilen')), MOVE(-1), PRE(s_ev(2, 'ilen')), POST(s_advance(2)), ALIGNA(3), POST(s_ev(3, 'ilen'))),
                                       F('z', 'u8')], [fill(14)], k))
        # user code which drops the end of the input, or limits it for some fields
        for d in ('skipb', 'skipa', 'alignb', 'aligna'):
            for e in ('skipb', 'skipa', 'alignb', 'aligna'):
                va = {'a': (1, 2, 3, 4, 7), 's': (0, 1, 3)}
                out.append(wrap('cut_%s_%s_%s' % (k, d, e), [F('a', 'u8'), F('b', 'u8', PRE(s_narrow('ilen - k0')), DIRS[d][0]('k1')), F('x', 'u8', DIRS[e][0]('k2'))], [fill(10)], k,
                                knobs=[(0, 1, 2, 3), va[d[0]], va[e[0]]], reach=[]))
                out.append(wrap('lim_%s_%s_%s' % (k, d, e), [F('a', 'u8'), F('b', 'u8', PRE(s_narrow('k0')), DIRS[d][0]('k1')), F('x', 'u8', DIRS[e][0]('k2'), POST(s_widen())), F('z', 'u8', DIRS[d][0]('k1'))], [fill(11)], k,
                                knobs=[(0, 2, 3, 5, 9), va[d[0]], va[e[0]]], reach=[]))
    # positions are counted from the start of each object, at every nesting
    inner = lambda c=False, **kw: Struct('I', [F('x', 'u8'), F('y', 'u8', ALIGNB('k1')), F('w', 'u8', MOVE('k2')), F('v', 'u8', MOVEABS('k3'), ALIGNA('k1'))], complete=c, **kw)
    for pre in range(0, 6):
        for nm, fs in (('f', [F('i', 'u8')] if False else [F('ii', ('obj', 'I')), F('j', ('obj', 'I'))]), ('v', [F('ii', ('vec', ('obj', 'I')), COUNT(2))]), ('o', [F('ii', ('opt', ('obj', 'I')))]),
                       ('t', [F('ii', ('tup', 'u8', ('obj', 'I')))]), ('p', [F('ii', ('obj', 'I'), PARSE(p_obj('I', 'be')))]), ('g', [F('ii', ('vec', ('obj', 'I')))]),
                       ('c', [F('ii', ('opt', ('obj', 'I')), COND('1 == 1'))]), ('a', [F('ii', ('arr', ('obj', 'I'), 2))])):
            out.append(Prog('n_%s_%d' % (nm, pre), [inner(), Struct('O', [F('a', ('arr', 'u8', pre)) if pre else F('a', 'u8', VALUE(0, 'u8'))] + fs)], knobs=[(0,), (1, 2, 3, 4), (-2, -1, 0, 1), (0, 2, 5)],
                            inp=[fill(pre + 14)], reach=[]))
        # objects with directives containing objects with directives
        out.append(Prog('nn_%d' % pre, [inner(), Struct('O', [F('a', 'u8', ALIGNA('k0')), F('ii', ('obj', 'I'), SKIPB(pre), ALIGNA('k0')), F('j', ('obj', 'I'), MOVE('k4')), F('z', 'u8', MOVEABS('k3'))])],
                        knobs=[(1, 3, 4), (1, 2, 3), (-1, 1), (0, 3), (-3, -1, 0, 2)], inp=[fill(pre + 16)], reach=[]))
        out.append(Prog('nl_%d' % pre, [inner(), Struct('M', [F('p', ('arr', 'u8', 1)), F('ii', ('obj', 'I')), F('q', 'u8', ALIGNB('k0'))]), Struct('O', [F('a', 'u8', SKIPA(pre)), F('m', ('obj', 'M')), F('z', 'u8', ALIGNB('k0'))])],
                        knobs=[(2, 3, 4, 5), (2, 3), (0,), (2,)], inp=[fill(pre + 16)]))
    # enums as objects: offsets count from the start of the enum
    for pre in range(0, 4):
        out.append(Prog('ne_%d' % pre, [Enum('E', [Var('A', 1, [F('x', 'u8'), F('y', 'u8', ALIGNB('k0'))]), Var('B', 2, [F('x', 'u8', SKIPB(1)), F('y', 'u8', MOVEABS('k1'))], kind='tuple'),
                                                   Var('C', 3, None, attrs=[MOVEABS('k1')]), Var('D', 4, None, attrs=[SKIPB(1), ALIGNA('k0')]), Var('F', '_', [F('x', 'u16', MOVE('k1'))])]),
                                        Struct('O', [F('s', 'u8', SKIPA(pre)), F('e', ('obj', 'E'), PARSE(p_obj('E', 'be', 's'))), F('z', 'u8')])],
                        knobs=[(1, 2, 3, 4), (-1, 0, 1, 3)], inp=[rng(1, 5), fill(pre + 9)]))
    # large arguments
    for k in ('named', 'evar', 'nested3', 'complete'):
        for n in (16, 32, 64, 100, 255, 256, 257, 300, 512, 1000, 4096, 65535, 65536, 65537, 100000):
            body = [blob(n - 1)]
            out.append(wrap('L_alb_%s_%d' % (k, n), [F('a', 'u8'), F('x', 'u8', ALIGNB('k0')), F('z', 'u8')], [fill(1)] + body[:1] + [fill(3)], k, knobs=[(n, n - 1, n + 1)], tail=1, reach=[]))
            out.append(wrap('L_ala_%s_%d' % (k, n), [F('a', 'u8', ALIGNA('k0')), F('z', 'u8')], [fill(1)] + body + [fill(3)], k, knobs=[(n, n - 1, n + 1)], tail=1, reach=[]))
            out.append(wrap('L_sk_%s_%d' % (k, n), [F('x', 'u8', SKIPB('k0')), F('z', 'u8')], body + [fill(4)], k, knobs=[(n, n - 1, n + 1)], tail=1, reach=[]))
            out.append(wrap('L_ska_%s_%d' % (k, n), [F('x', 'u8', SKIPA('k0')), F('z', 'u8')], [fill(1)] + body + [fill(4)], k, knobs=[(n, n - 1, n + 1)], tail=1, reach=[]))
            out.append(wrap('L_mv_%s_%d' % (k, n), [F('a', 'u16'), F('x', 'u8', MOVE('k0')), F('y', 'u8', MOVE('0 - k0 - 1')), F('z', 'u8')], body + [fill(6)], k, knobs=[(n, n - 1, n + 1)], tail=1, reach=[]))
            out.append(wrap('L_ma_%s_%d' % (k, n), [F('a', 'u16'), F('x', 'u8', MOVEABS('k0')), F('y', 'u8', MOVEABS('k0 - 3')), F('z', 'u8')], body + [fill(6)], k, knobs=[(n, n - 1, n + 1)], tail=1, reach=[]))
    # extreme arguments, in positions where arithmetic could overflow
    X_ = sorted({s * ((1 << b) + o) for b in (7, 8, 15, 16, 31, 32, 62, 63, 64, 65, 126) for o in (-1, 0, 1) for s in (1, -1)} | {(1 << 127) - 1, -(1 << 127), 0})
    for d, (mk, v) in DIRS.items():
        vals = [x for x in X_ if x >= 0] if d.startswith('align') else X_
        for k in ('named', 'evar', 'nested3', 'complete', 'tuple'):
            out.append(wrap('X_%s_%s' % (k, d), [F('a', ('vec', 'u8'), COUNT('k1')), F('x', 'u8', mk('k0')), F('z', 'u8')], [fill(4)], k, knobs=[tuple(vals), (0, 1, 3)], reach=[], tail=1))
            for e in ('skipb', 'move', 'moveabs'):
                out.append(wrap('XX_%s_%s_%s' % (k, d, e), [F('a', 'u8'), F('x', 'u8', DIRS[e][0]('k1'), mk('k0')), F('z', 'u8')], [fill(4)], k, knobs=[tuple(vals), (0, 1, 2)], reach=[], tail=1))
    return out


# ------------------------------------------------------------------------------------- C10
def pint(n):
    return (str(n), str(n))


def prange(a, b):
    return ('%s..=%s' % (a, b), '(range %s %s)' % (a, b))


def por(*l):
    return (' | '.join(x[0] for x in l), '(or %s)' % ' '.join(x[1] for x in l))


def pguard(p, e):
    e = X(e)
    return ('%s if %s' % (p[0], e.rs), '(guard %s %s)' % (p[1], e.sx))


def pbind(n, p=None):
    return (n if p is None else '%s @ %s' % (n, p[0]), '(bind %s %s)' % (n, '_' if p is None else p[1]))


def PATS():
    """patterns on a small integer, overlapping in all ways"""
    return [
        ('i0', pint(0)), ('i1', pint(1)), ('i2', pint(2)), ('r01', prange(0, 1)), ('r12', prange(1, 2)), ('r03', prange(0, 3)),
        ('o02', por(pint(0), pint(2))), ('o13', por(pint(1), pint(3))), ('or', por(pint(0), prange(2, 3))),
        ('g1', pguard(('_', '_'), 'k0 == 1')), ('gs', pguard(('_', '_'), 'selector < 2')), ('gi', pguard(prange(1, 2), 'k0 == 1')),
        ('b', pguard(pbind('n'), 'n % 2 == 1')), ('bb', pguard(pbind('n', prange(0, 2)), 'n != 1')), ('bo', pbind('n', ('(0 | 1)', '(or 0 1)'))),
        ('w', ('_', '_')),
    ]


def C10(tier):
    out = []
    T = tier == THOROUGH
    pats = PATS()

    def bodies(k):
        """a different layout for each variant"""
        return [lambda p, nm: Var(nm, p, [F('x', 'u8'), F('y', 'u16')]),
                lambda p, nm: Var(nm, p, [F('x', 'u16')], kind='tuple'),
                lambda p, nm: Var(nm, p, None),
                lambda p, nm: Var(nm, p, [F('x', 'u8'), F('z', 'u8'), F('w', 'u8')], kind='tuple')][k % 4]

    n = 0
    for length in (1, 2, 3):
        for combo in itertools.permutations(pats, length):
            n += 1
            if length == 3 and not T and n % 3:
                continue
            # variables of patterns: one model name each
            vs = [bodies(j + n)(p, 'V%d' % j) for j, (lab, p) in enumerate(combo)]
            g = any(l in ('g1', 'gi') for l, _ in combo)
            nm = 'p_' + '_'.join(l for l, _ in combo)
            out.append(Prog(nm, [Enum('E', vs), Struct('T', [F('s', 'u8'), F('e', ('obj', 'E'), PARSE(p_obj('E', 'be', 's'))), F('z', 'u8')])],
                            knobs=[(0, 1)] if g else [(0,)], inp=[rng(0, 4), fill(5)], entries=['parse', 'le'] if length < 3 else ['parse'], reach=[]))
    # direct calls: the selector is the argument of the functions, all 8-bit values
    for nm, ps in (('lit', [pint(0), pint(17), pint(255)]), ('rng', [prange(0, 9), prange(5, 200), pint(100), pint(255)]), ('or', [por(pint(1), pint(255)), prange(0, 128)]),
                   ('g', [pguard(('_', '_'), 'selector % 3 == 0'), pguard(pbind('n'), 'n > 200'), prange(100, 210)])):
        for wild in (None, 0, 1, 'last'):
            vs = [bodies(j)(p, 'V%d' % j) for j, p in enumerate(ps)]
            if wild is not None:
                vs.insert(len(vs) if wild == 'last' else wild, Var('W', '_', [F('q', 'u32')]))
            for d, e in (('Nom', None), ('NomLE', None), ('NomBE', None)):
                out.append(Prog('all_%s_%s_%s' % (nm, wild, d), [Enum('E', vs, derive=d)], args=['k0'], knobs=[tuple(range(256))], inp=[fill(4)], reach=[]))
    for p in out:
        if p.name.startswith('all_'):
            p.args = [E('engine::kn(0) as u8', '(k 0)')]
    # `_` at each place among overlapping patterns, in longer lists
    long = [('a', pint(3)), ('b', prange(0, 9)), ('c', pint(5)), ('d', por(pint(3), pint(12))), ('e', prange(10, 20)), ('f', pguard(('_', '_'), 'selector == 30')), ('g', pint(15)), ('h', pint(30))]
    for wild in list(range(len(long) + 1)) + [None]:
        for rot in range(0, len(long), 1 if T else 3):
            vs = [bodies(j)(p, 'V' + l) for j, (l, p) in enumerate(long[rot:] + long[:rot])]
            if wild is not None:
                vs.insert(wild, Var('W', '_', [F('q', 'u8')], kind='tuple'))
            out.append(Prog('long_%s_%d' % (wild, rot), [Enum('E', vs)], args=[E('engine::kn(0) as u8', '(k 0)')], knobs=[tuple(range(32))], inp=[fill(4)], reach=[]))
    # many variants
    for m in (10, 33, 64, 130):
        vs = [Var('V%d' % j, pint(j), [F('x', 'u8')] if j % 3 else None) for j in range(m)]
        out.append(Prog('many_%d' % m, [Enum('E', vs)], args=[E('engine::kn(0) as u8', '(k 0)')], knobs=[tuple(range(m + 2))], inp=[fill(2)], reach=[]))
        vs = list(reversed(vs))
        vs.insert(m // 2, Var('W', '_', [F('x', 'u16')]))
        out.append(Prog('manyw_%d' % m, [Enum('E', vs)], args=[E('engine::kn(0) as u8', '(k 0)')], knobs=[tuple(range(m + 2))], inp=[fill(2)], reach=[]))
    # selector types
    for t in INTS + ['usize']:
        lo, hi = {'u': (0, (1 << (8 * (8 if t == 'usize' else width(t)))) - 1), 'i': (-(1 << (8 * (8 if t == 'usize' else width(t)) - 1)), (1 << (8 * (8 if t == 'usize' else width(t)) - 1)) - 1)}[t[0]]
        hi = min(hi, (1 << 127) - 1)
        vals = sorted({lo, lo + 1, hi, hi - 1, 0, 1, 2, 100})
        vs = [Var('A', pint(lo), [F('x', 'u8')]), Var('B', pint(hi), [F('x', 'u16')]), Var('C', prange(lo, 1), [F('x', 'u8'), F('y', 'u8')], kind='tuple'), Var('D', pint(2), None)]
        for wild in (False, True):
            out.append(Prog('ty_%s_%s' % (t, wild), [Enum('E', vs + ([Var('W', '_', None)] if wild else []), seltype=t)], args=[E('engine::kn(0) as %s' % t, '(k 0)')], knobs=[tuple(vals)], inp=[fill(3)], reach=[]))
    sels = [
        ('bool', 'bool', [('true', '1'), ('false', '0')], [('k == 1', None)], 'engine::kn(0) != 0', (0, 1)),
        ('char', 'char', [("'a'", '97'), ("'0'..='9'", '(range 48 57)'), ("'b' | 'a'", '(or 98 97)')], None, 'engine::kn(0) as u8 as char', (97, 98, 48, 57, 58, 99)),
    ]
    for nm, ty, ps, _, rs, kv in sels:
        for perm in itertools.permutations(ps):
            for wild in (None, 0, 1):
                vs = [bodies(j)(p, 'V%d' % j) for j, p in enumerate(perm)]
                if nm == 'bool' and wild is not None:
                    vs = vs[:1]
                if wild is not None:
                    vs.insert(wild, Var('W', '_', [F('q', 'u8')]))
                elif nm == 'bool':
                    continue
                out.append(Prog('sel_%s_%s_%s' % (nm, '_'.join(str(ps.index(p)) for p in perm), wild), [Enum('E', vs, seltype=ty)], args=[E(rs, '(k 0)')], knobs=[kv], inp=[fill(3)], reach=[]))
    # tuples
    tp = [('(0, _)', '(tup 0 _)'), ('(_, 1)', '(tup _ 1)'), ('(1, 0..=1)', '(tup 1 (range 0 1))'), ('(x, y) if x as u16 == y', '(guard (tup (bind x _) (bind y _)) (== x y))'), ('(0 | 2, 2)', '(tup (or 0 2) 2)')]
    for perm in itertools.permutations(tp, 3):
        for wild in (None, 0):
            vs = [bodies(j)(p, 'V%d' % j) for j, p in enumerate(perm)]
            if wild is not None:
                vs.insert(wild, Var('W', '_', [F('q', 'u8')]))
            out.append(Prog('tup_%s_%s' % ('_'.join(str(tp.index(p)) for p in perm), wild), [Enum('E', vs, seltype='(u8, u16)')],
                            args=[E('(engine::kn(0) as u8, engine::kn(1) as u16)', '(tuple (k 0) (k 1))')], knobs=[(0, 1, 2, 3), (0, 1, 2)], inp=[fill(3)], reach=[]))
    # strings, byte strings, constants, user enums, references
    strs = ['b"ab"', 'b"a"', 'b""', 'b"abc"']
    for nm, ty, lits in (('str', "&str", ['"ab"', '"a"', '""', '"abc"']), ('bytes', '&[u8]', strs)):
        for perm in itertools.permutations(range(3)):
            for wild in (None, 1):
                vs = [bodies(j)((lits[q], str(q)), 'V%d' % j) for j, q in enumerate(perm)]
                if wild is not None:
                    vs.insert(wild, Var('W', '_', [F('q', 'u8')]))
                out.append(Prog('%s_%s_%s' % (nm, ''.join(map(str, perm)), wild), [Enum('E', vs, seltype=ty)], extra='const LITS: [%s; 4] = [%s];' % (ty.replace('&', "&'static "), ', '.join(lits)),
                                args=[E('LITS[engine::kn(0) as usize]', '(k 0)')], knobs=[(0, 1, 2, 3)], inp=[fill(3)], reach=[]))
    ext = '''#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum Kd { Aa, Bb(u8), Cc { v: u8 } }
pub const KA: u8 = 1; pub const KB: u8 = 2; pub struct Ks; impl Ks { pub const C: u8 = 3; }
pub fn mk(n: i128) -> Kd { match n { 0 => Kd::Aa, 1..=3 => Kd::Bb(n as u8), _ => Kd::Cc { v: n as u8 } } }'''
    kd = [('Kd::Aa', '0'), ('Kd::Bb(2)', '2'), ('Kd::Bb(_)', '(range 1 3)'), ('Kd::Cc { .. }', '(range 4 9)'), ('Kd::Cc { v: 5 }', '5')]
    for perm in itertools.permutations(kd, 3):
        for wild in (None, 0, 2):
            vs = [bodies(j)(p, 'V%d' % j) for j, p in enumerate(perm)]
            if wild is not None:
                vs.insert(wild, Var('W', '_', [F('q', 'u8')]))
            elif len(perm) < 4:
                pass
            out.append(Prog('kd_%s_%s' % ('_'.join(str(kd.index(p)) for p in perm), wild), [Enum('E', vs, seltype='Kd')], extra=ext, args=[E('mk(engine::kn(0))', '(k 0)')],
                            knobs=[(0, 1, 2, 4, 5)], inp=[fill(3)], reach=[]))
    for perm in itertools.permutations([('KA', '1'), ('KB', '2'), ('Ks::C', '3'), ('KA | KB', '(or 1 2)')], 3):
        for wild in (None, 1):
            vs = [bodies(j)(p, 'V%d' % j) for j, p in enumerate(perm)]
            if wild is not None:
                vs.insert(wild, Var('W', '_', [F('q', 'u8')]))
            out.append(Prog('const_%s_%s' % ('_'.join(''.join(c for c in p[0] if c.isalpha()) for p in perm), wild), [Enum('E', vs)], extra=ext, args=[E('engine::kn(0) as u8', '(k 0)')], knobs=[(0, 1, 2, 3)], inp=[fill(3)], reach=[]))
    # patterns given as tokens in parentheses
    for perm in itertools.permutations([pint(1), prange(0, 2), pguard(('_', '_'), 'selector == 7'), ('_', '_')]):
        vs = [bodies(j)(p, 'V%d' % j) for j, p in enumerate(perm)]
        for v in vs:
            v.patstyle = 'l'
        out.append(Prog('paren_%s' % '_'.join(re.sub(r'\W+', 'x', p[1]) for p in perm), [Enum('E', vs)], args=[E('engine::kn(0) as u8', '(k 0)')], knobs=[(0, 1, 2, 3, 7)], inp=[fill(3)], reach=[]))
    # bindings are available in the fields of the variant; the selector and extra arguments as well
    for pos in range(3):
        vs = [Var('A', pbind('n', prange(0, 3)), [F('x', ('vec', 'u8'), COUNT('n'))]), Var('B', pguard(pbind('mm'), 'mm > 7'), [F('x', 'u8', VALUE('mm - 1', 'u8')), F('y', 'u8')]),
              Var('C', '_', [F('x', 'u8', VALUE('selector', 'u8'))])]
        vs.insert(0, vs.pop(pos))
        out.append(Prog('bind_%d' % pos, [Enum('E', vs), Struct('T', [F('s', 'u8'), F('e', ('obj', 'E'), PARSE(p_obj('E', 'be', 's'))), F('z', 'u8')])], inp=[rng(0, 9), fill(5)]))
    # no effect of the other variants: events
    for combo in itertools.product(range(4), repeat=2):
        pt = [pint(1), prange(0, 2), ('_', '_'), pguard(('_', '_'), 'ev(9, selector) == 1')]
        if combo[0] == combo[1]:
            continue
        vs = [Var('A', pt[combo[0]], [F('x', 'u8', PRE(s_ev(1, 'ilen')), POST(s_ev(2, 'x')))]), Var('B', pt[combo[1]], [F('x', 'u8', PRE(s_ev(3)), PARSE(p_ev(4, p_int('u8', 'be')))), F('y', 'u16', SKIPB('ev(5, 1)'))], kind='tuple' if False else 'named'),
              Var('C', 5, None, attrs=[PRE(s_ev(6)), PARSE(p_ev(7, p_int('u8', 'be'))), POST(s_ev(8))])]
        out.append(Prog('ev_%d%d' % combo, [Enum('E', vs)], args=[E('engine::kn(0) as u8', '(k 0)')], knobs=[(0, 1, 2, 3, 5)], inp=[fill(5)], reach=[]))
    # contexts: all kinds of object attributes
    for lab, kw in (('complete', dict(complete=True)), ('debug', dict(debug=True)), ('be', dict(end='be')), ('le', dict(end='le')), ('nombe', dict(derive='NomBE')), ('input', dict(input='aaa')),
                    ('exact', dict(top=[EXACT])), ('gen', dict(generr=True)), ('args', dict(args=[('xa', 'u8')])), ('pre', dict(top=[PRE(s_ev(1, 'selector')), POST(s_ev(2, 'ilen'))]))):
        for wild in (None, 0, 1, 2):
            vs = [Var('A', prange(0, 2), [F('x', 'u16')]), Var('B', pint(1), [F('x', 'u8'), F('y', 'u8')], kind='named' if lab == 'debug' else 'tuple'), Var('C', pint(3), None)]
            if wild is not None:
                vs.insert(wild, Var('W', '_', [F('q', 'u8')]))
            out.append(Prog('ctx_%s_%s' % (lab, wild), [Enum('E', vs, **kw)], err=MYERR if lab == 'gen' else None, args=[E('engine::kn(0) as u8', '(k 0)')] + ([7] if lab == 'args' else []),
                            knobs=[(0, 1, 2, 3, 4)], inp=[fill(3)], reach=[]))
    # unit variants only, with a parser for some
    for wild in (None, 0, 2):
        vs = [Var('A', prange(0, 2), None), Var('B', pint(1), None, attrs=[PARSE(p_int('u8', 'be'))]), Var('C', pint(3), None, attrs=[PARSE(p_int('u16', 'le')), SKIPA(1)])]
        if wild is not None:
            vs.insert(wild, Var('W', '_', None, attrs=[PARSE(p_int('u8', 'be'))]))
        out.append(Prog('units_%s' % wild, [Enum('E', vs), Struct('T', [F('s', 'u8'), F('e', ('obj', 'E'), PARSE(p_obj('E', 'be', 's'))), F('z', 'u8')])], inp=[rng(0, 4), fill(5)]))
    # recursive and repeated uses: the choice does not depend on previous ones
    out.append(Prog('seq', [Enum('E', [Var('W', '_', [F('q', 'u8')]), Var('A', 1, [F('x', 'u16')]), Var('B', prange(1, 2), None)]),
                            Struct('I', [F('s', 'u8'), F('e', ('obj', 'E'), PARSE(p_obj('E', 'parse', 's')))]),
                            Struct('T', [F('v', ('vec', ('obj', 'I')), COUNT(3))])], inp=[rep((0, 1, 2), 1), rep((0, 1, 2), 2), rep((0, 1, 2), 3)]))
    return out


# ------------------------------------------------------------------------------------- C11
def disc_sets(t):
    w = width(t) * 8
    lo, hi = (0, (1 << w) - 1) if t[0] == 'u' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    sets = [
        ('imp', [(None, 0), (None, 1), (None, 2)]),
        ('one', [(None, 0)]),
        ('exp', [('5', 5), ('2', 2), ('9', 9)]),
        ('mix', [('3', 3), (None, 4), ('1', 1), (None, 2)]),
        ('max', [(str(hi), hi), ('0', 0), (str(hi - 1), hi - 1)]),
        ('maximp', [(str(hi - 2), hi - 2), (None, hi - 1), (None, hi)]),
        ('hex', [('0x10', 16), (None, 17), ('0b11', 3), ("b'a' as %s" % t, 97), ('0o17', 15)]),
        ('const', [('KC', 7), (None, 8), ('KC + 4', 11), ('KC * 2 - 1', 13)]),
        ('half', [(str((hi >> 1) + 1 if t[0] == 'u' else hi), (hi >> 1) + 1 if t[0] == 'u' else hi), (str(hi >> 1 if t[0] == 'u' else hi - 1), hi >> 1 if t[0] == 'u' else hi - 1)]),
    ]
    if t[0] == 'i':
        sets += [('neg', [('-1', -1), (None, 0), (None, 1), ('-128', -128)]), ('min', [(str(lo), lo), (None, lo + 1), (str(hi), hi), ('0', 0)]),
                 ('negimp', [('-3', -3), (None, -2), (None, -1), (None, 0), (None, 1)])]
    return sets, lo, hi


def C11(tier):
    out = []
    T = tier == THOROUGH
    srcs = [('Nom', None), ('NomBE', None), ('NomLE', None), ('Nom', 'be'), ('Nom', 'le'), ('NomBE', 'be'), ('NomLE', 'le')]
    for t in REPRS:
        w = width(t)
        sets, lo, hi = disc_sets(t)
        for lab, vals in sets:
            vs = [('V%d' % j, x, v) for j, (x, v) in enumerate(vals)]
            near = {v + d for _, v in vals for d in (-1, 0, 1)} | {lo, hi, 0, 1}
            near |= {int.from_bytes((v % (1 << 8 * w)).to_bytes(w, 'little'), 'big') for v in list(near)}
            # values equal to a discriminant modulo a smaller width
            near |= {v + (1 << b) for _, v in vals for b in (8, 16, 32) if b < 8 * w}
            inp = [alt(*sorted({(v % (1 << 8 * w)).to_bytes(w, 'big') for v in near}))]
            ex = 'pub const KC: %s = 7;' % t
            for d, e in srcs:
                if w == 1:
                    inp = [rng(0, 255)]
                elif w == 2 and (T or lab in ('imp', 'neg', 'mix', 'max') and (d, e) in (srcs[0], srcs[2])):
                    inp = [rng(0, 255), rng(0, 255)]
                elif w == 2:
                    inp = [alt(*sorted({(v % 65536).to_bytes(2, 'big') for v in near}))]
                for c in (False, True):
                    if c and w == 2 and len(inp) == 2:
                        continue
                    out.append(Prog('f_%s_%s_%s%s_%s' % (t, lab, d, e or '', c), [Fieldless('T', t, vs, derive=d, end=e, complete=c)], extra=ex, inp=inp + [fill(1)],
                                    flags=['neverinc'] if c else ['stream']))
            # nested in other objects, in all shapes
            fl = lambda **kw: Fieldless('FL', t, vs, **kw)
            small = [alt(*sorted({(v % (1 << 8 * w)).to_bytes(w, 'big') for v in near}))]
            for k in ('named', 'tuple', 'evar', 'nested', 'opt', 'third', 'complete'):
                out.append(wrap('n_%s_%s_%s' % (t, lab, k), [F('a', 'u8'), F('x', ('obj', 'FL')), F('z', 'u8')], [fill(1)] + small + [fill(1)], k, objs=[fl()], extra=ex, reach=[]))
            for nm, ty, at in (('opt', ('opt', ('obj', 'FL')), []), ('vec', ('vec', ('obj', 'FL')), []), ('cnt', ('vec', ('obj', 'FL')), [COUNT(2)]), ('arr', ('arr', ('obj', 'FL'), 2), []),
                               ('tup', ('tup', ('obj', 'FL'), 'u8'), []), ('be', ('obj', 'FL'), [BE]), ('le', ('obj', 'FL'), [LE]), ('se', ('obj', 'FL'), [SETENDIAN('k0 == 1')]),
                               ('pa', ('obj', 'FL'), [PARSE(p_obj('FL', 'le'))]), ('co', ('opt', ('obj', 'FL')), [COND('1 == 1')]), ('cm', ('obj', 'FL'), [COMPLETE])):
                i2 = [alt(*[(v % (1 << 8 * w)).to_bytes(w, bo) for _, v in vals for bo in ('big', 'little')], b'\x77' * w)]
                out.append(wrap('s_%s_%s_%s' % (t, lab, nm), [F('x', ty, *at)] + ([] if nm == 'vec' else [F('z', 'u8')]), i2 + (i2 if nm in ('cnt', 'arr', 'vec') else []) + [fill(1)], 'named', objs=[fl()], extra=ex,
                                knobs=[(0, 1)] if nm == 'se' else [], reach=[]))
        # Pre/PostExec, input name, errors, debug
        vs = [('A', None, 0), ('B', '3', 3), ('C', None, 4)]
        i3 = [alt(*[x.to_bytes(w, bo) for x in (0, 3, 4, 5) for bo in ('big', 'little')]), fill(2)]
        for lab, kw in (('pre', dict(top=[PRE(s_ev(1, 'ilen')), POST(s_ev(2, 'ilen'))])), ('adv', dict(top=[PRE(s_advance(1)), POST(s_advance(1))])), ('in', dict(input='aaa')), ('ge', dict(generr=True)),
                        ('dbg', dict(debug=True)), ('ex', dict(top=[EXACT])), ('inpre', dict(input='bbb', top=[PRE(s_ev(1, 'ilen')), PRE(s_advance(1)), POST(s_ev(2, 'ilen')), EXACT]))):
            for d, e in srcs[:5]:
                out.append(Prog('k_%s_%s_%s%s' % (t, lab, d, e or ''), [Fieldless('T', t, vs, derive=d, end=e, **kw)], inp=([fill(1)] if 'adv' in lab or lab == 'inpre' else []) + i3, err=MYERR if lab == 'ge' else None))
    # many variants (rustc itself cannot cast variants which are more than 127 after the last one with a discriminant to an i8)
    for t in ('u8', 'i8', 'u16', 'i16', 'u32', 'i64'):
        for m in (16, 128, 255) if T else (16, 128):
            vs = [('V%d' % j, None, j) for j in range(m)]
            out.append(Prog('many_%s_%d' % (t, m), [Fieldless('T', t, vs)], inp=[alt(*[x.to_bytes(width(t), 'big') for x in range(0, min(m + 3, 256))])]) if t not in ('i8',) or m < 128 else
                       Prog('many_%s_%d' % (t, m), [Fieldless('T', t, [('V%d' % j, None if j % 128 else str(j - 128), j - 128) for j in range(m)])], inp=[rng(0, 255)]))
            out.append(Prog('rev_%s_%d' % (t, m), [Fieldless('T', t, [('V%d' % j, str(100 - j if t[0] == 'i' else 255 - j), 100 - j if t[0] == 'i' else 255 - j) for j in range(min(m, 200))])],
                            inp=[alt(*[x.to_bytes(width(t), bo) for x in range(0, 256) for bo in ('big', 'little')])]))
    return out


# ------------------------------------------------------------------------------------- C12
def C12(tier):
    out = []
    T = tier == THOROUGH
    KN = ['named', 'evar', 'nested', 'third', 'args', 'input', 'complete', 'exact', 'generr', 'debug', 'opt', 'vec']
    # Verify: all values of one byte, conditions of all shapes
    conds = ['x == 0', 'x != 7', 'x < 128', 'x >= 200', 'x % 2 == 0', '(x & 3) == 1', 'x == 1 or x == 3', 'x > 3 and x < 9', 'not (x == 5)', 'k0 == 1', 'x == k0', 'True', 'False', '0 == x', '3 < x',
             '1 + x == 4']
    for n, c in enumerate(conds):
        for k in KN if n in (0, 2, 8) or T else ['named', 'evar', KN[2 + n % 10]]:
            out.append(wrap('v_%s_%d' % (k, n), [F('a', 'u8'), F('x', 'u8', VERIFY(c, 'x')), F('z', 'u8')], [fill(1), rng(0, 255) if k in ('named', 'evar') else rng(0, 9), fill(1)], k,
                            knobs=[(0, 1)] if 'k0' in c else [], reach=[], tail=1 if k != 'exact' else 0))
    # conditions on other fields and arguments, and on all types of values
    for k in KN:
        out.append(wrap('vp_%s' % k, [F('a', 'u8'), F('b', 'u8'), F('x', 'u8', VERIFY('x == a + b', 'x')), F('z', 'u8')], [rng(0, 2), rng(0, 2), rng(0, 4), fill(1)], k, reach=[], tail=1))
        out.append(wrap('vm_%s' % k, [F('a', 'u8', VERIFY('a != 1', 'a')), F('b', 'u8', VERIFY('b != a', 'b')), F('c', 'u8', VERIFY('c > b', 'c'))], [rng(0, 2), rng(0, 2), rng(0, 3)], k, reach=[], tail=1))
    for t in INTS + ['f32', 'f64']:
        w = int(t[1:]) // 8
        vals = alt(*[v for v in (bytes(w), b'\xff' * w, bytes(w - 1) + b'\1', b'\1' + bytes(w - 1), b'\x80' + bytes(w - 1))]) if w > 1 else rng(0, 255)
        for e in ([], [BE], [LE]):
            if t[0] == 'f':
                at = A('Verify', '*x > 0.0 && *x < 1.0', None)
                continue
            out.append(wrap('vt_%s_%s' % (t, e[0].name if e else ''), [F('x', t, *(e + [VERIFY('x < 2', 'x')])), F('z', 'u8')], [vals, fill(1)], 'named', reach=[]))
            out.append(wrap('vtg_%s_%s' % (t, e[0].name if e else ''), [F('x', t, *([VERIFY('x > 0', 'x')] + e)), F('z', 'u8')], [vals, fill(1)], 'evar', reach=[]))
    for k in ('named', 'evar', 'nested', 'complete'):
        for nm, t, ats, inp in (('opt', ('opt', 'u8'), [], [rng(0, 6)]), ('vec', ('vec', 'u8'), [COUNT('k0')], [rep((1, 3), 3)]), ('lc', ('vec', 'u8'), [LCOUNT(cnt8())], [rng(0, 3), rep((1, 3), 3)]),
                                ('cond', ('opt', 'u8'), [COND('k0 == 1')], [rng(0, 6)]), ('take', 'slice', [TAKE('k0')], [rep((1, 3), 3)]), ('tag', 'slice', [TAG(b'\1')], [rng(0, 3)]),
                                ('val', 'u8', [VALUE(3, 'u8')], []), ('val1', 'u8', [VALUE(4, 'u8')], []), ('map', 'u8', [MTWIST('u8')], [rng(0, 9)]), ('par', 'u8', [PARSE(p_ev(1, p_int('u8', 'be')))], [rng(0, 9)]),
                                ('compl', 'u16', [COMPLETE], [rng(0, 1), rng(0, 6)]), ('err', 'u8', [PARSE(P_ERR)], [fill(1)]), ('fail', 'u8', [PARSE(P_FAIL)], [fill(1)]),
                                ('optv', ('opt', 'u16'), [], [rng(0, 1), rng(0, 6)]), ('condl', ('opt', ('vec', 'u8')), [COND('k0 == 1'), COUNT(3)], [rep((1, 3), 3)])):
            out.append(wrap('vs_%s_%s' % (k, nm), [F('a', 'u8'), F('x', t, VCHK('x', t), *ats), F('z', 'u8')], [fill(1)] + inp + [fill(1)], k, knobs=[(0, 1, 2, 3)] if nm not in ('cond', 'condl') else [(0, 1)], reach=[]))
            # below: on the items
            if nm in ('vec', 'lc', 'cond', 'condl'):
                sub = t[1]
                out.append(wrap('vi_%s_%s' % (k, nm), [F('a', 'u8'), F('x', t, ats[0], VCHK('x', sub), *ats[1:]), F('z', 'u8')], [fill(1)] + inp + [fill(1)], k, knobs=[(0, 1, 2, 3)] if nm not in ('cond', 'condl') else [(0, 1)], reach=[]))
        # several Verify; the condition is evaluated once, after the field was parsed, and not at all if it failed
        out.append(wrap('v2_%s' % k, [F('x', 'u8', VERIFY('ev(1, x) != 3', 'x'), VERIFY('ev(2, x) != 5', 'x')), F('z', 'u8')], [rng(0, 9), fill(1)], k))
        out.append(wrap('v3_%s' % k, [F('x', 'u16', VERIFY('ev(1, x) < 1000', 'x'), PARSE(p_ev(2, p_int('u16', 'be')))), F('z', 'u8', VERIFY('ev(3, z) > 100', 'z'))], [alt(b'\0\1', b'\7\7'), rng(0, 255)], k))
        # nested objects
        out.append(wrap('vo_%s' % k, [F('a', 'u8'), F('x', ('obj', 'N'), A('Verify', '{ x.p > x.q }', '(verify (> (fld x 0) (fld x 1)))')), F('z', 'u8')], [fill(1), rng(0, 2), rng(0, 2), fill(1)], k,
                        objs=[Struct('N', [F('p', 'u8'), F('q', 'u8')])], reach=[]))
        # inside Option and Vec a failing guard is an absent item
        for g in (VERIFY('p != 1', 'p'), ERRIF('ipeek == 1')):
            for nm, t, ats in (('opt', ('opt', ('obj', 'N')), []), ('vec', ('vec', ('obj', 'N')), []), ('arr', ('arr', ('obj', 'N'), 2), []), ('cnt', ('vec', ('obj', 'N')), [COUNT(2)])):
                out.append(wrap('vg_%s_%s_%s' % (k, nm, g.name), [F('a', 'u8'), F('x', t, *ats), F('z', 'u8', VALUE(1, 'u8'))], [fill(1), rep((0, 1, 2), 3)], k, objs=[Struct('N', [F('p', 'u8', g)])], reach=[]))
    # ErrorIf
    for n, c in enumerate(['a == 1', 'a != k0', 'ilen < 2', 'ilen >= 3', 'ipeek == 2', 'True', 'False', 'origlen > 3', 'a == 0 or ipeek == 1', 'a > 1 and ilen == 2', 'not (a == 1)']):
        for k in KN + ['tuple', 'etup']:
            out.append(wrap('e_%s_%d' % (k, n), [F('a', 'u8'), F('x', 'u8', ERRIF(c)), F('z', 'u8')], [rng(0, 2), rng(0, 2), fill(1)], k, knobs=[(0, 1, 2)] if 'k0' in c else [], reach=[], tail=2))
    for k in ('named', 'tuple', 'evar', 'nested', 'complete'):
        # first and last fields, several, with all other attributes around; evaluated in place
        out.append(wrap('e0_%s' % k, [F('a', 'u8', ERRIF('ipeek == 1')), F('x', 'u8'), F('z', 'u8', ERRIF('x == a'))], [rng(0, 2), rng(0, 2), fill(1)], k, reach=[]))
        out.append(wrap('e2_%s' % k, [F('a', 'u8'), F('x', 'u8', ERRIF('ev(1, a) == 1'), ERRIF('ev(2, a) == 2'), SKIPB(1), ERRIF('ev(3, ipeek) == 3'), PRE(s_ev(4)), PARSE(p_ev(5, p_int('u8', 'be'))), POST(s_ev(6))), F('z', 'u8')],
                        [rng(0, 3), fill(1), rng(2, 4), fill(1)], k, reach=[]))
        for nm, t, ats in (('opt', ('opt', 'u8'), []), ('vec', ('vec', 'u8'), []), ('cond', ('opt', 'u8'), [COND('a == 1')]), ('val', 'u8', [VALUE(3, 'u8')]), ('ign', 'u8', [IGNORE]), ('ph', 'phantom', []), ('cnt', ('vec', 'u8'), [COUNT(2)]),
                           ('mv', 'u8', [MOVE(1)])):
            for o in (0, 1):
                at = [ERRIF('a == ipeek')]
                out.append(wrap('es_%s_%s_%d' % (k, nm, o), [F('a', 'u8'), F('x', t, *(ats + at if o else at + ats)), F('z', 'u8', VALUE(1, 'u8'))], [rng(0, 2), rng(0, 2), fill(2)], k, reach=[]))
        # on unit variants
        out.append(Prog('eu_%s' % k, [Enum('E', [Var('A', 1, None, attrs=[ERRIF('ipeek == 1'), SKIPB(1), ERRIF('ipeek == 2')]), Var('B', '_', [F('x', 'u8', ERRIF('selector == 2'))])], complete=k == 'complete'),
                                      Struct('T', [F('s', 'u8'), F('e', ('obj', 'E'), PARSE(p_obj('E', 'be', 's'))), F('z', 'u8')], kind='tuple' if k == 'tuple' else 'named')], inp=[rng(1, 3), rng(0, 2), rng(0, 3), fill(1)]))
    # Exact: all kinds of objects, positions, and remainders of 0 to 3 bytes
    for lab, fields, inp in (('u8', [F('a', 'u8')], [fill(1)]), ('mix', [F('a', 'u8'), F('b', 'u16')], [fill(3)]), ('cnt', [F('a', 'u8'), F('b', ('vec', 'u8'), COUNT('a'))], [rng(0, 3)]),
                             ('vec', [F('a', 'u8'), F('b', ('vec', 'u16'))], [fill(3)]), ('opt', [F('a', 'u8'), F('b', ('opt', 'u16'))], [fill(3)]), ('val', [F('a', 'u8', VALUE(3, 'u8'))], []),
                             ('sk', [F('a', 'u8', SKIPA('a'))], [rng(0, 3)]), ('al', [F('a', 'u8', ALIGNA(4))], [fill(4)]), ('mv', [F('a', 'u8'), F('b', 'u8', MOVEABS('a'))], [rng(0, 4), fill(3)]),
                             ('post', [F('a', 'u8', POST(s_advance(1)))], [fill(2)]), ('empty', [], []), ('rest', [F('a', 'u8'), F('b', 'slice', PARSE(P_REST))], [fill(2)]),
                             ('err', [F('a', 'u8'), F('b', 'u8', VERIFY('b == 1', 'b'))], [fill(1), rng(0, 2)])):
        for k in ('named', 'tuple', 'evar', 'etup'):
            if k in ('tuple', 'etup') and lab == 'err' or not fields and k != 'named':
                continue
            for c in (False, True):
                for post in ([], [POST(s_ev(1, 'ilen'))], [POST(s_advance(1))]):
                    for o in (0, 1):
                        if o and not post:
                            continue
                        top = post + [EXACT] if o else [EXACT] + post
                        out.append(wrap('x_%s_%s_%s_%s_%d' % (k, lab, c, post[0].sx.split()[1].strip('(') if post else '', o), fields, inp, k, top=top, complete=c, tail=3, reach=[]))
    for d in (0, 1, 2):
        objs = [Struct('A', [F('x', 'u8'), F('y', 'u8')], top=[EXACT] if d == 0 else []), Struct('B', [F('a', ('obj', 'A')), F('b', ('opt', ('obj', 'A')))], top=[EXACT] if d == 1 else []),
                Struct('C', [F('p', 'u8'), F('b', ('obj', 'B')), F('v', ('vec', 'u8'))], top=[EXACT] if d == 2 else [])]
        out.append(Prog('xn_%d' % d, objs, inp=[fill(8)], reach=[]))
    out.append(Prog('xo', [Struct('A', [F('x', 'u8')], top=[EXACT]), Struct('B', [F('o', ('opt', ('obj', 'A'))), F('v', ('vec', 'u8'))])], inp=[fill(4)]))
    out.append(Prog('xl', [Struct('A', [F('x', ('vec', 'u8'), COUNT(2))], top=[EXACT]), Struct('B', [F('n', 'u8'), F('o', ('obj', 'A'), A('Parse', '{ |__x| nom::sequence::preceded(nom::bytes::streaming::take(0usize), A::parse).parse(__x) }', '(parse (obj @A parse))'))])], inp=[fill(5)], reach=[]))
    for t in ('u8', 'u16'):
        for c in (False, True):
            out.append(Prog('xf_%s_%s' % (t, c), [Fieldless('T', t, [('A', None, 0), ('B', None, 1)], top=[EXACT], complete=c)], inp=[alt(bytes(width(t)), b'\7' * width(t)), fill(2)]))
    # Cond
    for n, c in enumerate(['a == 1', 'a != 1', 'k0 == 1', 'True', 'False', 'a > 1 or k0 == 1', 'a == 1 and k0 == 0', 'not (a == 0)', 'ilen > 2', 'ipeek == 1']):
        for k in KN + ['tuple', 'etup']:
            for alias in ('Cond', 'If') if k in ('named', 'tuple') else ('Cond',):
                out.append(wrap('c_%s_%s_%d' % (alias, k, n), [F('a', 'u8'), F('x', ('opt', 'u16'), COND(c).alias(alias)), F('z', 'u8')], [rng(0, 2), rng(0, 1), fill(2)], k, knobs=[(0, 1)] if 'k0' in c else [], reach=[], tail=2))
    for k in ('named', 'tuple', 'evar', 'nested', 'complete'):
        for nm, t, ats, inp in (('u8', 'u8', [], [fill(1)]), ('opt', ('opt', 'u16'), [], [fill(2)]), ('vec', ('vec', 'u16'), [], [fill(4)]), ('cnt', ('vec', 'u16'), [COUNT(2)], [fill(4)]), ('lc', ('vec', 'u8'), [LCOUNT(cnt8())], [rng(0, 2), fill(2)]),
                                ('take', 'slice', [TAKE(2)], [fill(2)]), ('tag', 'slice', [TAG(b'\1\2')], [alt(b'\1\2', b'\1\3')]), ('val', 'u8', [VALUE(7, 'u8')], []), ('par', 'u16', [PARSE(p_int('u16', 'le'))], [fill(2)]),
                                ('obj', ('obj', 'N'), [], [fill(3)]), ('fl', ('obj', 'FL'), [], [rng(0, 3)]), ('err', 'u8', [PARSE(P_ERR)], [fill(1)]), ('fail', 'u8', [PARSE(P_FAIL)], [fill(1)]), ('str', 'str', [], [alt(b'\0\0\0\1A', b'\0\0\0\1\xff')]),
                                ('arr', ('arr', 'u16', 2), [], [fill(4)]), ('tup', ('tup', 'u8', 'u16'), [], [fill(3)]), ('cc', ('opt', 'u8'), [COND('k1 == 1')], [fill(1)]), ('map', 'u8', [MTWIST('u8')], [fill(1)]), ('compl', 'u16', [COMPLETE], [fill(2)]),
                                ('en', ('obj', 'E'), [PARSE(p_obj('E', 'be', 'a'))], [fill(2)])):
            ob = [Struct('N', [F('p', 'u8'), F('q', 'u16')]), Fieldless('FL', 'u8', [('A', None, 0), ('B', '2', 2)]), Enum('E', [Var('A', 0, [F('x', 'u8')]), Var('B', 1, None)])]
            ob = [o for o in ob if o.name in repr(t)]
            out.append(wrap('cs_%s_%s' % (k, nm), [F('a', 'u8'), F('x', ('opt', t), COND('k0 == 1'), *ats), F('z', 'u8', VALUE(1, 'u8'))], [rng(0, 1)] + inp + [fill(1)], k, objs=ob,
                            knobs=[(0, 1), (0, 1)], reach=[]))
        # the condition is evaluated once, before the parser, with the fields seen so far
        out.append(wrap('ce_%s' % k, [F('a', 'u8'), F('x', ('opt', 'u16'), COND('ev(1, a) == 1'), PARSE(p_ev(2, p_int('u16', 'be')))), F('y', ('opt', 'u8'), COND('ev(3, uo(x, 9)) == 9')), F('z', 'u8')], [rng(0, 1), fill(4)], k))
        # several dependent conditions
        out.append(wrap('cm_%s' % k, [F('a', 'u8'), F('x', ('opt', 'u8'), COND('(a & 1) == 1')), F('y', ('opt', 'u16'), COND('(a & 2) == 2')), F('w', ('opt', 'u8'), COND('(a & 4) == 4')), F('z', ('opt', ('vec', 'u8')), COND('a >= 4'), COUNT('a & 3'))],
                        [rng(0, 7), fill(7)], k))
    return out


# ------------------------------------------------------------------------------------- C13
def C13(tier):
    out = []
    T = tier == THOROUGH
    nothing = [
        ('val8', 'u8', lambda: [VALUE(3, 'u8')]), ('val64', 'u64', lambda: [VALUE(1 << 40, 'u64')]), ('valneg', 'i16', lambda: [VALUE(-5, 'i16')]), ('ign', 'u32', lambda: [IGNORE]), ('dflt', 'i64', lambda: [DEFAULT]),
        ('ph', 'phantom', lambda: []), ('ignph', 'phantom', lambda: [IGNORE]), ('ignvec', ('vec', 'u16'), lambda: [IGNORE]), ('ignopt', ('opt', 'u8'), lambda: [IGNORE]), ('ignstr', 'str', lambda: [DEFAULT]),
        ('ignarr', ('arr', 'u8', 3), lambda: [IGNORE]), ('igntup', ('tup', 'u8', 'u16'), lambda: [IGNORE]), ('ignf', 'f64', lambda: [DEFAULT]),
        ('ignao', ('arr', ('opt', 'u8'), 2), lambda: [IGNORE]), ('ignav', ('arr', ('vec', 'u16'), 2), lambda: [DEFAULT]), ('ignap', ('arr', 'phantom', 2), lambda: [IGNORE]), ('ignaa', ('arr', ('arr', ('opt', 'u8'), 2), 2), lambda: [IGNORE]),
        ('ignat', ('arr', ('tup', 'u8', ('opt', 'u8')), 2), lambda: [IGNORE]), ('ignsl', ('raw', "&'a [u8]", 'noparse'), lambda: [IGNORE]), ('ignst', ('raw', "&'static str", 'noparse'), lambda: [DEFAULT]),
        ('igntu', ('raw', '(u8, Option<u16>)', '(tup u8 (opt u16))'), lambda: [IGNORE]), ('ignut', ('raw', '()', 'phantom'), lambda: [IGNORE]), ('ignpa', ('raw', '(u16)', 'u16'), lambda: [IGNORE]), ('ignas', ('arr', ('raw', "&'a [u8]", 'noparse'), 2), lambda: [IGNORE]),
        ('valvec', ('vec', 'u8'), lambda: [A('Value', 'vec![1, 2, 3]', '(value (list 1 2 3))')]), ('valopt', ('opt', 'u8'), lambda: [A('Value', 'Some(4)', '(value (some 4))')]),
        ('valnone', ('opt', 'u8'), lambda: [A('Value', 'None', '(value none)')]), ('valtup', ('tup', 'u8', 'u16'), lambda: [A('Value', '(1, 300)', '(value (tuple 1 300))')]),
        ('valarr', ('arr', 'u8', 2), lambda: [A('Value', '[7, 8]', '(value (tuple 7 8))')]), ('valstr', 'str', lambda: [A('Value', 'String::from("ab")', '(value (bytes 97 98))')]),
        ('valph', 'phantom', lambda: [A('Value', 'PhantomData', '(value unit)')]), ('valprev', 'u16', lambda: [VALUE('a + 1', 'u16')]), ('vallen', 'u64', lambda: [VALUE('ilen', 'u64')]),
        ('valev', 'u8', lambda: [VALUE('ev(1, 9)', 'u8')]), ('valmap', 'u8', lambda: [MTWIST('u8'), VALUE(8, 'u8')]),
        ('valcond', ('opt', 'u8'), lambda: [COND('a == 1'), VALUE(8, 'u8')]), ('valcnt', ('vec', 'u8'), lambda: [COUNT('a'), VALUE('8', 'u8')]), ('ignc', ('opt', 'u8'), lambda: [COND('a == 1'), IGNORE]),
    ]
    KN = ['named', 'tuple', 'evar', 'etup', 'nested', 'third', 'args', 'input', 'complete', 'exact', 'generr', 'debug']
    for lab, t, at in nothing:
        for k in KN:
            for pos in range(3):
                if pos == 0 and lab in ('valprev', 'valcond', 'valcnt', 'ignc'):
                    continue
                if lab in ('vallen',) and k in ('tuple', 'etup') and False:
                    continue
                fs = [F('a', 'u8'), F('z', 'u16')]
                fs.insert(pos, F('x', t, *at()))
                if k == 'generr' and not isinstance(t, str) and t[0] == 'arr' and not at():
                    continue
                out.append(wrap('n_%s_%s_%d' % (k, lab, pos), fs, [rng(0, 2), fill(2)], k, tail=1, reach=[] if k == 'exact' else None))
        # alone, and followed by directives
        for k in ('named', 'tuple', 'evar'):
            if lab not in ('valprev', 'valcond', 'valcnt', 'ignc'):
                out.append(wrap('na_%s_%s' % (k, lab), [F('x', t, *at())], [fill(1)], k))
                out.append(wrap('nd_%s_%s' % (k, lab), [F('x', t, *(at() + [SKIPA(1)])), F('y', t, *([SKIPB(1)] + at())), F('z', 'u8')], [fill(3)], k))
    # all pairs
    for (l1, t1, a1), (l2, t2, a2) in itertools.product([x for x in nothing if x[0] not in ('valprev', 'valcond', 'valcnt', 'ignc')], repeat=2):
        out.append(wrap('nn_%s_%s' % (l1, l2), [F('x', t1, *a1()), F('y', t2, *a2()), F('z', 'u8')], [fill(2)], ('named', 'tuple', 'evar', 'etup')[(len(out)) % 4]))
    # traces: statements on every subset of fields, before and after, in all kinds of objects
    pre = lambda n: PRE(s_ev(n, 'ilen'))
    post = lambda n: POST(s_ev(n, 'ilen'))
    for k in ('named', 'tuple', 'evar', 'etup', 'nested', 'complete', 'third', 'input', 'args', 'generr', 'debug', 'vec', 'opt'):
        for mask in range(64):
            if mask % (1 if k in ('named', 'evar') or T else 5):
                continue
            fs = []
            for j, t in enumerate(('u8', 'u16', 'u8')):
                at = []
                if mask >> (2 * j) & 1:
                    at.append(pre(10 + j))
                if mask >> (2 * j + 1) & 1:
                    at.append(post(20 + j))
                if (mask + j) % 2:
                    at.reverse()
                fs.append(F('f%d' % j, t, *at))
            for top in range(4):
                if top and k not in ('named', 'tuple', 'evar', 'etup'):
                    continue
                tp = ([pre(1)] if top & 1 else []) + ([post(2)] if top & 2 else [])
                if k in ('nested', 'third', 'input', 'args', 'generr', 'debug', 'vec', 'opt', 'complete', 'named', 'tuple', 'evar', 'etup'):
                    out.append(wrap('t_%s_%d_%d' % (k, mask, top), fs, [fill(4)], k, top=tp, tail=1))
    # order among several statements and other attributes on one field: all permutations
    items = [PRE(s_ev(1, 'ilen')), PRE(s_ev(2, 'ilen')), POST(s_ev(3, 'ilen')), POST(s_ev(4, 'ilen')), SKIPB(1), SKIPA(1), ALIGNB(2), ALIGNA(3), ERRIF('ev(5, ilen) == 1'), MOVE(1)]
    for n, perm in enumerate(itertools.permutations(items, 4)):
        if not T and n % 4:
            continue
        k = ('named', 'evar', 'tuple', 'etup')[n % 4 if T else (n // 4) % 4]
        out.append(wrap('o_%d' % n, [F('a', 'u8'), F('x', 'u8', *[p.ren({}) for p in perm]), F('z', 'u8')], [fill(9)], k, tail=1, reach=[]))
    # statements written twice, next to each other or not, and statements whose text is a part of another one's, run as often as they are written
    for k in ('named', 'tuple', 'evar', 'etup', 'nested', 'complete', 'generr', 'input', 'args'):
        for w, mk in (('pre', PRE), ('post', POST)):
            for lab, l in (('aa', [s_ev(1, 'ilen')] * 2), ('aaa', [s_ev(1, 'ilen')] * 3), ('aba', [s_ev(1, 'ilen'), s_ev(2), s_ev(1, 'ilen')]), ('adv', [s_advance(1)] * 2), ('advev', [s_advance(1), s_ev(1, 'ilen')] * 2),
                           ('sub', [s_seq(s_ev(1), s_ev(2)), s_ev(2), s_ev(1)]), ('let', [s_let('qa', 3), s_let('qa', 'qa + 1'), s_let('qa', 'qa + 1'), s_ev(3, 'qa')])):
                ats = [mk(x) for x in l]
                out.append(wrap('dup_%s_%s_%s' % (k, w, lab), [F('a', 'u8'), F('b', 'u8', *ats), F('c', 'u8', *ats)], [fill(10)], k, tail=1, reach=[]))
                out.append(wrap('dupo_%s_%s_%s' % (k, w, lab), [F('a', 'u8'), F('b', 'u8', *sum(([x, ERRIF('a == 3')] for x in ats), [])), F('c', 'u8')], [fill(10)], k, tail=1, reach=[]))
                if k in ('named', 'tuple', 'evar', 'etup'):
                    out.append(wrap('dupt_%s_%s_%s' % (k, w, lab), [F('a', 'u8'), F('b', 'u8', *([mk(l[0])] * 2))], [fill(10)], k, tail=1, top=ats, reach=[]))
                    out.append(Prog('dupu_%s_%s_%s' % (k, w, lab), [Enum('E', [Var('A', 1, None, attrs=ats), Var('B', 2, None, attrs=ats), Var('C', '_', [F('x', 'u8', *ats)], kind='tuple')], top=ats),
                                                                    Struct('T', [F('s', 'u8', *ats), F('e', ('obj', 'E'), PARSE(p_obj('E', 'be', 's')), *ats)], kind='named')], inp=[rng(1, 3), fill(9)], reach=[]) if k == 'named' else
                               Prog('dupf_%s_%s_%s' % (k, w, lab), [Fieldless('T', 'u8', [('A', None, 0), ('B', '0x91', 0x91)], top=ats)], inp=[fill(5)], reach=[]))
        # the same statement before and after
        out.append(wrap('dupb_%s' % k, [F('a', 'u8', PRE(s_ev(1, 'ilen')), POST(s_ev(1, 'ilen')), PRE(s_ev(1, 'ilen')), POST(s_ev(1, 'ilen'))), F('b', 'u8', ERRIF('ev(2, 0) == 1'), ERRIF('ev(2, 0) == 1'), VCHK('b', 'u8') if k not in ('tuple', 'etup') else ERRIF('ev(2, 0) == 1'))], [fill(3)], k, reach=[]))
    # statements see the fields parsed so far, definitions of previous statements are visible in following attributes
    for k in ('named', 'evar', 'nested', 'args', 'complete', 'tuple', 'etup'):
        out.append(wrap('def_%s' % k, [F('a', 'u8', POST(s_let('qa', 'a + 1'))), F('b', ('vec', 'u8'), PRE(s_let('qb', 'qa + 1')), COUNT('qa'), POST(s_ev(1, 'qb'))), F('c', 'u8', PRE(s_ev(2, 'len(b) + qb')), VALUE('qb + qa', 'u8')),
                                       F('d', ('opt', 'u8'), COND('qa == 2'), POST(s_let('qa', 'qb'))), F('e', 'slice', TAKE('qa'))], [rng(0, 2), fill(6)], k))
        out.append(wrap('seq_%s' % k, [F('a', 'u8', PRE(s_seq(s_ev(1), s_ev(2, 'ilen')))), F('b', 'u8', PRE(s_let('qq', 'a')), PRE(s_ev(3, 'qq')), POST(s_ev(4, 'b')), POST(s_let('qq', 'qq + b'))), F('c', 'u16', VALUE('qq', 'u16')), F('z', 'u8')],
                        [rng(0, 2), rng(0, 2), fill(1)], k))
        # changing the current input
        for n in range(0, 4):
            out.append(wrap('adv_%s_%d' % (k, n), [F('a', 'u8', POST(s_advance(n))), F('b', 'u8', PRE(s_advance(n))), F('c', 'u8', PRE(s_advance('b % 2')), POST(s_advance('c % 3')))], [fill(2), rep((0, 1, 2), 2), fill(6)], k))
        for n in range(0, 5):
            # (limited to a part of the input, and back; or dropping its end for good)
            for nm, t, at in (('vec', ('vec', 'u16'), []), ('opt', ('opt', 'u16'), []), ('rest', 'slice', [PARSE(P_REST)]), ('cnt', ('vec', 'u8'), [COUNT('a')]), ('u8', 'u8', []), ('arr', ('arr', 'u8', 2), []),
                              ('cond', ('opt', 'u8'), [COND('ilen > 1')]), ('err', 'u8', [ERRIF('ilen == 1')])):
                out.append(wrap('lim_%s_%s_%d' % (k, nm, n), [F('a', 'u8'), F('b', t, PRE(s_narrow(n)), *at, POST(s_ev(1, 'ilen'))), F('c', 'u8', PRE(s_widen()), PRE(s_ev(2, 'ilen')))], [rng(1, 3), fill(5)], k, reach=[]))
                out.append(wrap('cut_%s_%s_%d' % (k, nm, n), [F('a', 'u8'), F('b', t, PRE(s_narrow(n)), *at, POST(s_ev(1, 'ilen')))], [rng(1, 3), fill(5)], k, reach=[]))
        # early returns
        out.append(wrap('ret_%s' % k, [F('a', 'u8', PRE(s_failif('ipeek == 1')), POST(s_failif('a == 2')), POST(s_ev(1))), F('b', 'u8', PRE(s_ev(2)), PRE(s_failif('a == 3')), PRE(s_ev(3)))], [rng(0, 4), fill(1)], k))
        # do not run if the parser failed before
        out.append(wrap('fail_%s' % k, [F('a', 'u8', pre(1), PARSE(p_int('u8', 'be')), post(2)), F('b', 'slice', pre(3), TAG(b'\1'), post(4)), F('c', 'u8', pre(5), post(6), ERRIF('a == 1'), pre(7)), F('d', 'u8', pre(8), post(9))],
                        [rng(0, 1), rng(0, 2), fill(2)], k, top=[pre(20), post(21)] if k in ('named', 'tuple', 'evar', 'etup') else []))
        # on Value, Ignore and PhantomData fields, Option, Vec, Cond, Count (once per field, not per item)
        out.append(wrap('on_%s' % k, [F('a', 'u8', VALUE(1, 'u8'), pre(1), post(2)), F('b', 'u16', IGNORE, pre(3), post(4)), F('p', 'phantom', pre(5), post(6)), F('c', ('vec', 'u8'), COUNT(2), pre(7), post(8)),
                                      F('d', ('opt', 'u8'), COND('k0 == 1'), pre(9), post(10)), F('e', ('opt', 'u16'), pre(11), post(12)), F('f', ('vec', 'u8'), pre(13), post(14))], [fill(6)], k, knobs=[(0, 1)], reach=[]))
    # object-level statements of all kinds of objects; definitions visible in fields; after all the fields
    for k in ('named', 'tuple', 'evar', 'etup'):
        for perm in itertools.permutations([PRE(s_let('qa', 2)), PRE(s_ev(1, 'ilen')), POST(s_ev(2, 'ilen')), POST(s_advance(1)), PRE(s_advance(1))]):
            out.append(wrap('top_%s_%s' % (k, '_'.join(re.sub(r'\W+', '', p.sx) for p in perm)), [F('a', 'u8', PRE(s_ev(3, 'qa'))), F('b', 'slice', TAKE('qa'), POST(s_ev(4, 'len(b)')))], [fill(5)], k, top=list(perm), tail=1))
        out.append(wrap('topf_%s' % k, [F('a', 'u8', PRE(s_ev(3))), F('b', 'slice', TAG(b'\1'), POST(s_ev(4)))], [fill(1), rng(0, 2)], k, tail=1, top=[PRE(s_ev(1)), PRE(s_failif('ilen == 1')), PRE(s_ev(5)), POST(s_ev(2, 'ilen')), EXACT, POST(s_ev(6))]))
        out.append(wrap('toparg_%s' % k, [F('a', 'u8')], [fill(2)], k if k in ('named', 'tuple') else 'named', args=None if False else [('xa', 'u8')], top=[PRE(s_ev(1, 'xa')), POST(s_ev(2, 'xa'))]) if False else
                   wrap('toplast_%s' % k, [F('a', 'u8', post(1)), F('b', 'u8', VALUE('a', 'u8'), post(2))], [fill(2)], k, top=[post(3), pre(4), post(5), pre(6)]))
    out.append(Prog('toparg', [Struct('T', [F('a', 'u8', PRE(s_ev(3, 'xb')))], args=[('xa', 'u8'), ('xb', 'u16')], top=[PRE(s_ev(1, 'xa')), POST(s_ev(2, 'xb'))])], args=[3, 400], inp=[fill(2)]))
    for k in ('named', 'tuple', 'evar', 'etup'):
        for n in range(0, 6):
            for ex in ([], [EXACT]):
                for p in (0, 1):
                    out.append(wrap('topcut_%s_%d_%d_%d' % (k, n, len(ex), p), [F('a', 'u8', *([POST(s_narrow(n))] if p else [])), F('b', ('vec', 'u16'))], [fill(6)], k, top=([] if p else [PRE(s_narrow(n))]) + ex + [POST(s_ev(2, 'ilen'))], reach=[]))
                    out.append(wrap('toplim_%s_%d_%d_%d' % (k, n, len(ex), p), [F('a', 'u8'), F('b', ('vec', 'u16'))] if p else [F('a', ('arr', 'u8', 2))], [fill(6)], k, top=[PRE(s_narrow(n))] + ex + [POST(s_widen())], reach=[]))
    # fieldless enums
    for t in REPRS:
        w = width(t)
        for d in ('Nom', 'NomLE'):
            vs = [('A', None, 0), ('B', '5', 5)]
            out.append(Prog('fl_%s_%s' % (t, d), [Fieldless('T', t, vs, derive=d, top=[PRE(s_ev(1, 'ilen')), POST(s_ev(2, 'ilen')), PRE(s_ev(3)), POST(s_ev(4))])], inp=[alt(*[v.to_bytes(w, b) for v in (0, 5, 6) for b in ('big', 'little')]), fill(1)]))
            out.append(Prog('fla_%s_%s' % (t, d), [Fieldless('T', t, vs, derive=d, top=[PRE(s_advance(1)), POST(s_ev(2, 'ilen')), POST(s_advance(1))])], inp=[fill(1), alt(*[v.to_bytes(w, b) for v in (0, 5, 6) for b in ('big', 'little')]), fill(2)]))
    # unit variants
    for perm in itertools.permutations([PRE(s_ev(1, 'ilen')), POST(s_ev(2, 'ilen')), PARSE(p_ev(3, p_int('u8', 'be'))), SKIPB(1), SKIPA(1)]):
        out.append(Prog('un_%s' % '_'.join(p.name for p in perm), [Enum('E', [Var('A', 1, None, attrs=list(perm)), Var('B', '_', None, attrs=[PRE(s_ev(4))])], top=[PRE(s_ev(5, 'ilen')), POST(s_ev(6, 'ilen'))]),
                                                                   Struct('T', [F('s', 'u8'), F('e', ('obj', 'E'), PARSE(p_obj('E', 'be', 's')), post(7)), F('z', 'u8')])], inp=[rng(1, 2), fill(5)]))
    # unit and empty structs
    for kind in ('unit', 'named'):
        out.append(Prog('us_%s' % kind, [Struct('U', [], kind=kind, top=[PRE(s_ev(1, 'ilen')), POST(s_ev(2, 'ilen')), PRE(s_advance(1)), POST(s_ev(3, 'ilen'))]), Struct('T', [F('a', 'u8'), F('u', ('obj', 'U')), F('z', 'u8')])], inp=[fill(4)]))
    # nested: order of statements of all levels; once per element of a Vec
    I_ = Struct('I', [F('x', 'u8', pre(1), post(2))], top=[pre(3), post(4)])
    for nm, t, ats in (('o', ('obj', 'I'), []), ('v', ('vec', ('obj', 'I')), [COUNT(2)]), ('g', ('vec', ('obj', 'I')), []), ('p', ('opt', ('obj', 'I')), []), ('a', ('arr', ('obj', 'I'), 2), []), ('t', ('tup', ('obj', 'I'), ('obj', 'I')), []),
                       ('c', ('opt', ('obj', 'I')), [COND('k0 == 1')]), ('l', ('vec', ('obj', 'I')), [LCOUNT(p_ev(9, cnt8()))])):
        out.append(Prog('ne_%s' % nm, [I_, Struct('T', [F('a', 'u8', post(5)), F('n', t, *(ats + [pre(6), post(7)])), F('z', 'u8', VALUE(0, 'u8'), pre(8))], top=[pre(10), post(11)])], inp=[fill(1), rng(0, 2), fill(3)], knobs=[(0, 1)] if nm == 'c' else [], reach=[]))
    return out
