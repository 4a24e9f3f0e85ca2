"""Combinations of features: programs made of the rows of a covering array (see cover.py), so that every allowed
combination of three features occurs in one program, with a check of each property whose features it has."""
from dsl import *
from families import *
import cover

ADV = 'adv'
S = [b'\0\0\0\1\x41\0\2\0\1\0\0\3', b'\1\0\2\1\1\0\0\0\2\xc3\xa9\1', b'\0\1\1\4\0\0\0\0\1\5\1\0', b'\2\0\1\0\0\0\3\2\0\0\1\1', bytes(12)]
CONTENT = alt(*S)


def mains(errt):
    g = dict(generr=True) if errt else {}
    N = Struct('N', [F('n0', 'u8'), F('n1', 'u16')], **g)
    NC = Struct('N', [F('n0', 'u8'), F('n1', 'u16')], complete=True, **g)
    FL = Fieldless('FL', 'u16', [('A', None, 0), ('B', None, 1), ('C', '256', 256)], **g)
    EN = Enum('EN', [Var('A', 1, [F('x', 'u16')]), Var('D', '_', [F('y', 'u8', SKIPB(1))], kind='tuple'), Var('C', 2, None)])
    V8, V16 = ('vec', 'u8'), ('vec', 'u16')
    return {
        'u16': ('u16', [], []), 'i64': ('i64', [], []), 'f32': ('f32', [], []), 'arr': (('arr', 'u16', 2), [], []), 'nest': (('obj', 'N'), [], [N]),
        'opt': (('opt', 'u16'), [], []), 'vec': (V16, [], []), 'tup': (('tup', 'u8', 'u16'), [], []), 'str': ('str', [], []), 'which': ('which', [], []),
        'only': (('only', 'u16', 'be'), [], []), 'cnt': (V16, [COUNT('fa')], []), 'cntn': (('vec', ('obj', 'N')), [COUNT('fa')], [N]), 'lc': (V16, [LCOUNT(cnt8())], []),
        'cond': (('opt', 'u16'), [COND('fa == 1')], []), 'condcnt': (('opt', V16), [COND('fa != 1'), COUNT(2)], []), 'cntcond': (('vec', ('opt', 'u16')), [COUNT(2), COND('fa == 1')], []),
        'take': ('slice', [TAKE('fa')], []), 'tag': ('slice', [TAG(b'\0\1')], []), 'map': ('u16', [MAP('v ^ 1', 'v', 'u16')], []), 'into': ('u32', [INTO, PARSE(p_int('u16', 'le'))], []),
        'val': ('u16', [VALUE('fa + 7', 'u16')], []), 'parse': ('u16', [PARSE(p_int('u16', 'le'))], []), 'ign': ('u16', [IGNORE], []), 'ph': ('phantom', [], []),
        'ld': (('ld', 'u16'), [PARSE(p_ty(('ld', 'u16'), 'le'))], []), 'fl': (('obj', 'FL'), [], [FL]), 'en': (('obj', 'EN'), [PARSE(p_obj('EN', 'be', 'fa'))], [EN]),
        'mapcnt': (V8, [MTWIST(V8), COUNT(2)], []), 'optnest': (('opt', ('obj', 'N')), [], [NC]),
    }


TERM = ('Tag', 'Take', 'Value', 'Parse', 'Ignore')


def program(n, r, look, tier):
    ty, comb, objs = mains(r['errt'])[r['main']]
    comb = list(comb)
    # the parser of the field
    if r['fcomp'] == 'outer':
        comb = [COMPLETE] + comb
    elif r['fcomp'] == 'inner':
        k = next((k for k, a in enumerate(comb) if a.name in TERM), len(comb))
        comb.insert(k, COMPLETE)
    if r['guard'] == 'verify':
        comb = [VCHK('fb', ty)] + comb
    if r['dbg'] == 'field':
        comb = comb[:1] + [DEBUG] + comb[1:] if comb and comb[0].name not in TERM else [DEBUG] + comb
    # the rest
    end = {'': [], 'be': [BE], 'le': [LE], 'set': [SETENDIAN('fa == 1')]}[r['fend']]
    dirs = {'': [], 'skip': [SKIPB(1)], 'skipfa': [SKIPB('fa')], 'align': [ALIGNB(4)], 'move': [MOVE(1)], 'back': [MOVE(-1)], 'abs': [MOVEABS(2)]}[r['dirb']]
    dirs = dirs + {'': [], 'skip': [SKIPA(1)], 'align': [ALIGNA(2)]}[r['dira']]
    gu = [ERRIF('fa == 2')] if r['guard'] == 'errif' else []
    ex = {'': [], 'pre': [PRE(s_ev(3, look))], 'post': [POST(s_ev(4, look))], 'adv': [PRE(s_advance(1)), POST(s_ev(4, look))]}[r['fexec']]
    ats = end + gu + ex + dirs + comb
    if r['order'] in ('rev', 'reveach'):
        ats = comb + dirs + ex + gu + end
    split = [1] * len(ats) if r['order'] in ('each', 'reveach') else None
    if r['style'] == 'l':
        ats = [a if a.arg is None else a.st('l') for a in ats]
    fc = {'u16': F('fc', 'u16'), 'opt': F('fc', ('opt', 'u8')), 'abs': F('fc', 'u8', MOVEABS(0)), 'le': F('fc', 'u16', LE), 'skip': F('fc', 'u16', SKIPB(1)), 'eif': F('fc', 'u8', ERRIF('fa == 1')), 'compl': F('fc', 'u16', COMPLETE)}[r['third']]
    fields = [F('fa', 'u8'), F('fb', ty, *ats, split=split), fc]
    # the object
    top = []
    kw = {}
    knobs = []
    args = [('xa', 'u8'), ('xb', 'u32')][:int(r['args'])]
    if r['end'] in ('NomBE', 'NomLE'):
        kw['derive'] = r['end']
    elif r['end'] in ('be', 'le'):
        kw['end'] = r['end']
    elif r['end'] == 'set':
        if args:
            top.append(SETENDIAN('xa == 1'))
        else:
            top.append(SETENDIAN('k0 == 1'))
        knobs = [(0, 1)]
    if r['exec'] in ('pre', 'both'):
        top.append(PRE(s_ev(1, look)))
    if r['exec'] in ('post', 'both'):
        top.append(POST(s_ev(2, look)))
    if r['exec'] == 'adv':
        top += [PRE(s_advance(1)), PRE(s_ev(1, look))]
    if 'exact' in r['top']:
        top.append(EXACT)
    if r['order'] in ('rev', 'reveach'):
        # (statements in their order)
        top = [a for a in top if a.name not in ('PreExec', 'PostExec')][::-1] + [a for a in top if a.name in ('PreExec', 'PostExec')]
    if r['style'] == 'l':
        top = [a if a.arg is None else a.st('l') for a in top]
    kw['complete'] = 'comp' in r['top']
    kw['debug'] = r['dbg'] == 'obj'
    kw['generr'] = bool(r['errt'])
    if r['inp']:
        kw['input'], kw['inputstyle'] = 'aaa', r['inp']
    kw['args'] = args
    kw['argstyle'] = r['style']
    kw['top'] = top
    if r['order'] in ('each', 'reveach'):
        kw['topsplit'] = 'each'
    vals = (['k0', 4] if knobs else [3, 4])[:len(args)]
    if r['kind'] in ('named', 'tuple'):
        objs = objs + [Struct('T', fields, kind=r['kind'], **kw)]
    else:
        sel = 2
        objs = objs + [Enum('T', [Var('A', 0, [F('a', 'u8')]), Var('D', '_', [F('d', 'u64')]), Var('B', 2, fields, kind='named' if r['kind'] == 'evar' else 'tuple'), Var('C', 2, [F('c', 'u8')])], **kw)]
        vals = [sel] + vals
    err = MYERR if r['errt'] else None
    cargs = [E('engine::kn(0) as u8', '(k 0)') if v == 'k0' else X(v) for v in vals]
    inp = [rng(0, 2), CONTENT]
    if r['exec'] == 'adv':
        inp = [fill(1)] + inp
    call = 'T'
    ot = ('obj', 'T', "T<'a>") if has_lt(ty) else ('obj', 'T')
    gk = {}
    if r['nest']:
        # (it has a fixed error type)
        call, err = 'O', None
        par = lambda e: [PARSE(p_obj('T', e, *vals_(vals)))] if vals else []
        # (what an object with Exact is given has an end)
        lim = 'exact' in r['top']
        if lim:
            knobs = [(0, 1) if knobs else (0,), (4, 5, 6, 7, 8, 10) if tier == THOROUGH else (5, 7, 8)]
        nar = [PRE(s_narrow('k1')), POST(s_widen())] if lim else []
        if r['nest'] == 'odd':
            objs = objs + [Struct('O', [F('o0', 'u16'), F('o1', 'u8'), F('o2', ot, *nar, *par('be')), F('o3', 'u8')])]
            inp = [fill(3)] + inp + [fill(1)]
        elif r['nest'] == 'le':
            objs = objs + [Struct('O', [F('o1', 'u8'), F('o2', ot, *nar, *(par('le') or [LE])), F('o3', 'u16')])]
            inp = [fill(1)] + inp + [fill(2)]
        elif r['nest'] == 'vec':
            objs = objs + [Struct('O', [F('o0', ('vec', ot), *nar, COUNT(1 if lim else 2), *par('be')), F('o1', 'u8')])]
            inp = inp + ([fill(1)] if r['exec'] == 'adv' else []) + ([] if lim else [alt(b'\1\0\0\0\1\x41\0\2\0\1\0\0')]) + [fill(2)]
        else:
            objs = objs + [Struct('O', [F('o0', ('opt', ot), *nar, *([A('Cond', 'true', '(cond 1)')] + par('be') if vals else [])), F('o1', 'u16')])]
            inp = inp + [fill(1)]
        cargs = []
    return Prog('w%d' % n, objs, call=('obj', call), inp=inp + [fill(1)], args=cargs, knobs=knobs, reach=[], err=err, flags=['dbg'] if r['dbg'] else [])


def vals_(vals):
    return [E('engine::kn(0) as u8', '(k 0)') if v == 'k0' else v for v in vals]


def plain(r):
    """the row without what ends a message"""
    r = dict(r)
    for f, m in (('top', {'complete': '', 'exact': '', 'complexact': ''}), ('fcomp', {'outer': '', 'inner': ''}), ('third', {'opt': 'u16', 'compl': 'le'}), ('exec', {'adv': 'both'}), ('fexec', {'adv': 'post'}),
                 ('nest', {'opt': 'odd'}), ('main', {'opt': 'u16', 'vec': 'lc', 'arr': 'cnt', 'optnest': 'nest', 'cntcond': 'condcnt'})):
        r[f] = m.get(r[f], r[f])
    return r


#: which rows have features of the property
WHO = {
    'C01': lambda r: True,
    'C02': lambda r: r['fend'] in ('be', 'le') or r['end'] not in ('set', 'Nom') or r['nest'] == 'le',
    'C03': lambda r: r['end'] == 'set' or r['fend'] == 'set',
    'C04': lambda r: True,
    'C05': lambda r: 'compl' in r['top'] or r['fcomp'] or r['third'] == 'compl',
    'C06': lambda r: r['main'] in ('opt', 'vec', 'optnest', 'cntcond') or r['third'] == 'opt' or r['nest'] == 'opt',
    'C07': lambda r: r['main'] in ('cnt', 'cntn', 'lc', 'condcnt', 'cntcond', 'take', 'mapcnt', 'arr') or r['nest'] == 'vec',
    'C08': lambda r: (r['fcomp'] != '') + (r['guard'] == 'verify') + (r['dbg'] == 'field') + (r['main'] in ('cnt', 'cntn', 'lc', 'cond', 'map', 'into')) + 2 * (r['main'] in ('condcnt', 'cntcond', 'mapcnt')) > 1,
    'C09': lambda r: r['dirb'] or r['dira'] or r['third'] in ('abs', 'skip'),
    'C10': lambda r: r['kind'] in ('evar', 'etup') or r['main'] == 'en',
    'C11': lambda r: r['main'] == 'fl',
    'C12': lambda r: r['guard'] or 'exact' in r['top'] or r['main'] in ('cond', 'condcnt', 'cntcond') or r['third'] == 'eif',
    'C13': lambda r: r['exec'] or r['fexec'] or r['main'] in ('val', 'ign', 'ph'),
    'C14': lambda r: r['dbg'] or r['inp'] or r['errt'],
    'C20': lambda r: r['args'] != '0' or r['kind'] in ('evar', 'etup'),
    'C22': lambda r: r['order'] != 'one' or r['style'] == 'l' or r['inp'] == 'l',
    'C23': lambda r: r['main'] in ('take', 'tag', 'parse', 'map', 'into', 'mapcnt'),
    'C26': lambda r: True,
}


def combos(prop, tier):
    out, seen = [], set()
    for n, r in enumerate(cover.rows()):
        if not WHO[prop](r):
            continue
        if prop == 'C04':
            r = plain(r)
        if tuple(r.values()) in seen:
            continue
        seen.add(tuple(r.values()))
        if prop == 'C26' and r['dbg']:
            # (messages are looked at by C14)
            r = dict(r, dbg='')
        p = program(n, r, 'ilen' if prop != 'C04' else '0', tier)
        if prop == 'C04':
            p.flags.append('stream')
        elif prop == 'C05' and 'compl' in r['top'] and not r['nest']:
            p.flags.append('neverinc')
        out.append(p)
    return out
