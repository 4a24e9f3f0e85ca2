"""Program families: C18 (feature sets)."""
import itertools, re
from dsl import *
from families import *
import families, families2, families3, families4

FAMS = {p: getattr(m, p) for m in (families, families2, families3, families4) for p in dir(m) if p[0] == 'C' and p[1:].isdigit()}

#: crate root of programs which must not need std: neither generated code nor its users can name it
NOSTD = '''#![no_std]
extern crate std as vstd;
extern crate alloc as valloc;
#[allow(unused_imports)] use vstd::{vec, vec::Vec, format, string::String, string::ToString, borrow::ToOwned, boxed::Box, println, eprintln};
'''
#: the same without names of things which need an allocator; rt.rs and the Enc implementations use the renamed ones
NOALLOC = '''#![no_std]
extern crate std as vstd;
'''


class Sub:
    """a program of another family, built with another feature set"""
    def __init__(self, prog, pre, conf, flags=()):
        self.p, self.conf = prog, conf
        prog.name = pre + prog.name
        prog.flags = list(prog.flags) + list(flags)
        self.name, self.note = prog.name, prog.note

    def rs(self):
        s = self.p.rs()
        if self.conf != 'std':
            s = re.sub(r'\bstd::', 'vstd::', s)
            s = s.replace('::vstd::', 'vstd::')
        if self.conf == 'none':
            s = s.replace('&mut Vec<u128>', '&mut vstd::vec::Vec<u128>')
        return s

    def sx(self):
        return self.p.sx()


def uses(p):
    s = p.rs()
    s = s.replace('&mut Vec<u128>', '')
    s = re.sub(r'#\[derive\([^)]*\)\]', '', s)
    s = re.sub(r'fmt::Debug', '', s)
    return s


def fits(p, conf):
    """can this program be written with this feature set?"""
    s = uses(p)
    if conf == 'std':
        return True
    # (messages of Debug need std)
    if re.search(r'\bDebug\b', re.sub(r'derive\([^)]*\)', '', s)) or 'dbg' in p.flags or 'dbg_dmp' in s:
        return False
    if conf == 'alloc':
        return True
    if re.search(r'\b(Vec|String|Box|vec!|format!|many0|many1|many_m_n|fold_many0|many_till|separated_list0|Count|LengthCount|to_vec|to_owned|to_string|collect|length_count|multi::count)\b|vec!|format!|count\(', s):
        return False
    # arrays of objects would need Copy and Default
    if re.search(r'\[[^\[\]]*(LengthData|LD8|\bL\b)[^\[\]]*(\[[^\[\]]*\][^\[\]]*)?;\s*\d+\s*\]', s):
        return False
    for t in re.findall(r'\[([^\[\];]*);\s*\w+\s*\]', s):
        if re.match(r'\s*[A-Z]', t) and not re.match(r'\s*(Option<[uif]\d+>|Which|Only\w+|Tup<\w+, \w+>)\s*$', t):
            return False
    return True


def sample(conf, n, pick=None):
    """n programs of every family"""
    out = []
    flags = ['noalloc'] if conf == 'none' else []
    for fam, f in FAMS.items():
        l = [p for p in f(QUICK) if fits(p, conf)]
        if n and len(l) > n:
            l = [l[(k * len(l)) // n] for k in range(n)]
        out += [Sub(p, fam.lower() + '_', conf, flags) for p in l]
    return out


def own(conf):
    """arrays: the only implementation which depends on the feature set"""
    out = []
    items = ['u8', 'u16', 'i32', 'f32', 'u128', ('tup', 'u8', 'u16'), ('arr', 'u16', 2), ('arr', ('arr', 'u8', 2), 2), ('only', 'u16', 'le'), 'which', ('obj', 'C'), ('obj', 'D'), ('tup', ('arr', 'u8', 2), 'u16')]
    wraps = [('plain', lambda t: t, []), ('opt', lambda t: ('opt', t), []), ('tup', lambda t: ('tup', t, 'u8'), []), ('put', lambda t: ('tup', 'u8', t), []), ('comp', lambda t: t, [COMPLETE]), ('cond', lambda t: ('opt', t), [COND('z == 1')]), ('dirs', lambda t: t, [SKIPB(1), ALIGNB(4), SKIPA(1)])]
    cp = dict(attrs_text='#[derive(Clone, Copy, Default)]\n')
    for t in items:
        for n in (0, 1, 2, 3, 5, 17):
            for wl, wf, ats in wraps:
                if n > 5 and wl not in ('plain', 'comp'):
                    continue
                for kind in ('named', 'tuple'):
                    for kw in (dict(), dict(derive='NomLE'), dict(complete=True)):
                        if kind == 'tuple' and (kw or n > 2):
                            continue
                        objs = [Struct('C', [F('c0', 'u8'), F('c1', 'u16', LE)], **cp), Struct('D', [F('d0', 'u16', A('Verify', '*d0 != 0x9191', '(verify (!= d0 37265))')), F('d1', ('arr', 'u8', 2))], **cp)]
                        need = [o for o in objs if str(t).find("'%s'" % o.name) >= 0]
                        top = Struct('T', [F('z', 'u8'), F('a', wf(('arr', t, n)), *ats), F('y', 'u16')], kind=kind, **kw)
                        nm = 'own_%s_%d_%s_%s_%s' % (re.sub(r'\W+', '', str(t)), n, wl, kind, '_'.join(map(str, kw.values())))
                        sz = 6 if wl != 'plain' else 4
                        out.append(Prog(nm, need + [top], inp=[rng(0, 2), fill(min(n, 6) * 4 + sz)] if n < 6 else [rng(0, 2), fill(10), blob(n * 16 - 10 if t == 'u128' else n * 8), fill(3)], reach=[],
                                        flags=['noalloc'] if conf == 'none' else []))
    return out


def C18(tier, conf):
    n = 40 if conf == 'std' else 100
    if tier == THOROUGH:
        n = 250 if conf == 'std' else 700
    l = sample(conf, n)
    o = [Sub(p, '', conf) for p in own(conf)]
    return l + o
