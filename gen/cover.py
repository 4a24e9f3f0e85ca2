"""Covering array of features: rows such that every allowed combination of the levels of any three factors
occurs in one of them (C01..C26 use them, see families11).  `python3 gen/cover.py` rewrites gen/rows.txt."""
import itertools, os, random

ROWS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'rows.txt')

FACTORS = [
    ('main', ['u16', 'i64', 'f32', 'arr', 'nest', 'opt', 'vec', 'tup', 'str', 'which', 'only', 'cnt', 'cntn', 'lc', 'cond', 'condcnt', 'cntcond', 'take', 'tag', 'map', 'into',
              'val', 'parse', 'ign', 'ph', 'ld', 'fl', 'en', 'mapcnt', 'optnest']),
    ('kind', ['named', 'tuple', 'evar', 'etup']),
    ('end', ['Nom', 'NomBE', 'NomLE', 'be', 'le', 'set']),
    ('top', ['', 'complete', 'exact', 'complexact']),
    ('inp', ['', 's', 'l']),
    ('args', ['0', '1', '2']),
    ('exec', ['', 'pre', 'post', 'both', 'adv']),
    ('errt', ['', 'generr']),
    ('nest', ['', 'odd', 'vec', 'opt', 'le']),
    ('order', ['one', 'each', 'rev', 'reveach']),
    ('style', ['s', 'l']),
    ('fend', ['', 'be', 'le', 'set']),
    ('dirb', ['', 'skip', 'skipfa', 'align', 'move', 'back', 'abs']),
    ('dira', ['', 'skip', 'align']),
    ('guard', ['', 'errif', 'verify']),
    ('fexec', ['', 'pre', 'post', 'adv']),
    ('fcomp', ['', 'outer', 'inner']),
    ('dbg', ['', 'field', 'obj']),
    ('third', ['u16', 'opt', 'abs', 'le', 'skip', 'eif', 'compl']),
]
NAMES = [f for f, _ in FACTORS]
LEV = [l for _, l in FACTORS]

CHKS = {'u16', 'i64', 'cnt', 'lc', 'cond', 'take', 'tag', 'map', 'val', 'parse', 'opt', 'vec', 'mapcnt'}


def bad(f, x, g, y):
    """two levels which do not go together (see the limits in DESIGN.md)"""
    if (f, g) == ('kind', 'guard'):
        return y == 'verify' and x in ('tuple', 'etup')
    if (f, g) == ('kind', 'dbg'):
        return y != '' and x in ('tuple', 'etup')
    if (f, g) == ('main', 'guard'):
        return y == 'verify' and x not in CHKS
    if (f, g) == ('main', 'errt'):
        return y == 'generr' and x in ('arr', 'str', 'en')
    if (f, g) == ('main', 'dbg'):
        return False
    # moves count from the input which was given to the object
    if f in ('exec',) and x == 'adv':
        return g == 'dirb' and y in ('move', 'back', 'abs') or g == 'third' and y == 'abs'
    if (f, g) == ('dirb', 'fexec'):
        return x in ('move', 'back', 'abs') and y == 'adv'
    if (f, g) == ('fexec', 'third'):
        return x == 'adv' and y == 'abs'
    return False


def allowed(part):
    """part: {factor index: level index}"""
    it = sorted(part.items())
    for (a, x), (b, y) in itertools.combinations(it, 2):
        if bad(NAMES[a], LEV[a][x], NAMES[b], LEV[b][y]) or bad(NAMES[b], LEV[b][y], NAMES[a], LEV[a][x]):
            return False
    return True


def triples():
    """all combinations of three levels to cover"""
    for fs in itertools.combinations(range(len(FACTORS)), 3):
        for ls in itertools.product(*[range(len(LEV[f])) for f in fs]):
            if allowed(dict(zip(fs, ls))):
                yield tuple(zip(fs, ls))


def rows():
    """[{factor: level}]"""
    return [dict(zip(NAMES, [LEV[k][int(x)] for k, x in enumerate(l.split())])) for l in open(ROWS)]


def missing():
    """combinations of three levels which no row has (none, unless the files are out of step)"""
    have = set()
    for l in open(ROWS):
        r = list(enumerate(map(int, l.split())))
        have.update(itertools.combinations(r, 3))
    n = m = 0
    for t in triples():
        n += 1
        m += t not in have
    return n, m


def generate():
    import numpy as np
    rnd = random.Random(1)
    n = len(FACTORS)
    U = {}
    for fs in itertools.combinations(range(n), 3):
        U[fs] = np.zeros([len(LEV[f]) for f in fs], dtype=np.int32)
    left = list(triples())
    rnd.shuffle(left)
    for t in left:
        U[tuple(f for f, _ in t)][tuple(l for _, l in t)] = 1
    out, drop = [], 0
    ptr = 0
    while ptr < len(left):
        t = left[ptr]
        if not U[tuple(f for f, _ in t)][tuple(l for _, l in t)]:
            ptr += 1
            continue
        best = None
        for _ in range(6):
            part = dict(t)
            order = [f for f in range(n) if f not in part]
            rnd.shuffle(order)
            gain = 1
            ok = True
            for f in order:
                sc = np.zeros(len(LEV[f]))
                for a, b in itertools.combinations(sorted(part), 2):
                    fs = tuple(sorted((a, b, f)))
                    sc += U[fs][tuple(slice(None) if x == f else part[x] for x in fs)]
                cand = sorted(range(len(LEV[f])), key=lambda l: (-sc[l], rnd.random()))
                for l in cand:
                    part[f] = l
                    if allowed(part):
                        gain += sc[l]
                        break
                else:
                    ok = False
                    break
            if ok and (best is None or gain > best[0]):
                best = (gain, dict(part))
        if best is None:
            raise SystemExit('cannot cover %r' % (t,))
        r = best[1]
        for fs in U:
            U[fs][tuple(r[f] for f in fs)] = 0
        out.append([r[f] for f in range(n)])
    with open(ROWS, 'w') as f:
        for r in out:
            f.write(' '.join(map(str, r)) + '\n')
    print(len(out), 'rows', len(left), 'triples')


if __name__ == '__main__':
    generate()
    print(missing())
