"""Program families: C23 (the basic forms of field parsers: Tag, Take, Parse, Map, Into)."""
import itertools
from dsl import *
from families import *


def esc(b):
    return 'b"%s"' % ''.join('\\x%02x' % x for x in b)


def near(b, every=True):
    """byte strings which differ from b in one byte (all 255, or the ones nearby), or in the case of letters"""
    out = [bytes(b)]
    for k in range(len(b)):
        for x in (range(256) if every else sorted({b[k] ^ (1 << n) for n in range(8)} | {0, 255, (b[k] + 1) % 256})):
            if x != b[k]:
                out.append(b[:k] + bytes([x]) + b[k + 1:])
    if len(b) <= 6:
        for m in range(1, 1 << len(b)):
            c = bytes(x ^ 0x20 if m >> k & 1 else x for k, x in enumerate(b))
            out.append(c)
        for p in itertools.permutations(b):
            out.append(bytes(p))
    out.append(bytes(x ^ 0x80 for x in b))
    return sorted(set(out))


# contents of tags: letters of both cases, digits, the signs next to the letters, bytes which are not ASCII (UTF-8 or not), NUL
TAGS = [b'', b'A', b'a', b'Z', b'@', b'[', b'`', b'{', b'0', b'\0', b'\xff', b'\x80', b'\xc3', b'\xe9', b'"', b'\\', b"'", b'\n', b'AB', b'aB', b'zZ', b'GI', b'\x89P', b'\0\0', b'\xff\xd8',
        b'\xc3\xa9', b'\xc3\x89', b'11', b'\r\n', b'Ab1', b'RIF', b'\x7fEL', b'IDx', b'a\0b', b'\xe2\x84\xaa', b'kK\xe2', b'PNG\r', b'IHDR', b'\xca\xfe\xba\xbe', b'aaaa', b'abab', b'AbcDe', b'\0\1\2\3\4\5', b'GIF89a']
KIN = ['named', 'tuple', 'evar', 'etup', 'nested', 'complete', 'generr', 'opt', 'third', 'args', 'input', 'debug', 'nested3']
LONG = [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000]


def TAGE(rs, sx, style='s'):
    return A('Tag', rs, '(tage %s)' % sx, style)


def tags(T):
    out = []
    for n, b in enumerate(TAGS):
        kk = KIN if T or n % 4 == 0 or b in (b'GIF89a', b'AB', b'\xca\xfe\xba\xbe') else [KIN[n % len(KIN)], 'named']
        for k in dict.fromkeys(kk):
            every = len(b) <= (2 if not T else 4)
            out.append(wrap('t%d_%s' % (n, k), [F('t', 'slice', TAG(b)), F('z', 'u8')], [alt(*near(b, every))] if b else [], k, tail=1, reach=[] if k == 'opt' else None))
        i = [alt(*near(b, False))] if b else []
        # below other attributes
        o, v = ('opt', 'slice'), ('vec', 'slice')
        # (an empty slice for these: repetition of parsers which consume nothing)
        out.append(wrap('tc%d' % n, [F('t', o, COND('k0 == 1'), TAG(b)), F('z', 'u8')], i, KIN[n % 9], tail=1, knobs=[(0, 1)], reach=[]))
        out.append(wrap('tp%d' % n, [F('t', 'slice', COMPLETE, TAG(b)), F('z', 'u8')], i, KIN[(n + 3) % 9], tail=1, reach=[]))
        out.append(wrap('tm%d' % n, [F('t', 'slice', MTWIST('slice'), TAG(b)), F('z', 'u8')], i, KIN[(n + 5) % 9], tail=1, reach=[]))
        out.append(wrap('td%d' % n, [F('t', 'slice', DEBUG, TAG(b)), F('z', 'u8')], i, ('named', 'evar', 'nested', 'complete')[n % 4], tail=1, reach=[]))
        if 1 <= len(b) <= 3:
            out.append(wrap('tn%d' % n, [F('t', v, COUNT(2), TAG(b)), F('z', 'u8')], [alt(b), i[0]], KIN[(n + 1) % 9], tail=1, reach=[]))
            out.append(wrap('tl%d' % n, [F('t', v, LCOUNT(cnt8()), TAG(b)), F('z', 'u8')], [rng(0, 2)] + i * 2 if len(b) == 1 else [rng(0, 2), alt(b)] + i, KIN[(n + 2) % 9], tail=1, reach=[]))
        if len(b) >= 1:
            out.append(wrap('tv%d' % n, [F('t', 'slice', VCHK('t', 'slice'), TAG(b)), F('z', 'u8')], i, 'evar' if n % 2 else 'named', tail=1, reach=[]))
    for n in LONG:
        b = bytes((k * 37 + 65) % 256 for k in range(n))
        bad = [bytes(x if j != k else x ^ m for j, x in enumerate(b)) for k in sorted({0, 1, n // 2, n - 2, n - 1} | {p for p in (7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256) if p < n}) for m in (1, 0x20, 0x80)]
        for k in ('named', 'etup', 'nested3'):
            out.append(wrap('tlong%d_%s' % (n, k), [F('t', 'slice', TAG(b)), F('z', 'u8')], [alt(b, *bad)], k, tail=1, entries=['parse'] if n > 65 else None))
    # several tags, some of which match the same inputs
    for a, b in itertools.product([b'A', b'a', b'AB', b'BA', b'AA', b''], repeat=2):
        out.append(wrap('two_%s_%s' % (a.decode(), b.decode()), [F('t', 'slice', TAG(a)), F('u', 'slice', TAG(b)), F('z', 'u8')], [rep(tuple(b'ABab'), len(a) + len(b))] if a + b else [], 'named' if a != b else 'evar', tail=1))
    # forms of the argument
    b = b'Ab\xff'
    AL = [alt(*near(b, True))]
    forms = [
        ('str', A('Tag', esc(b), TAG(b).sx)), ('list', A('Tag', esc(b), TAG(b).sx, 'l')), ('raw', A('Tag', esc(b), TAG(b).sx, 'raw')), ('uni', A('Tag', esc(b), TAG(b).sx, 'uni')),
        ('constref', A('Tag', 'K1', TAG(b).sx)), ('constsl', A('Tag', 'K2', TAG(b).sx)), ('statsl', A('Tag', 'K3', TAG(b).sx)), ('path', A('Tag', 'consts::K4', TAG(b).sx, 'l')),
        ('arrref', A('Tag', '&[65, 98, 255][..]', TAG(b).sx)), ('arrref2', A('Tag', '&[65u8, 0x62, !0]', TAG(b).sx, 'l')), ('arr', A('Tag', '[65u8, 98, 255]', TAG(b).sx)), ('block', A('Tag', '{ let x = b"Ab\\xff"; &x[..] }', TAG(b).sx)),
        ('idx', A('Tag', '&K1[..]', TAG(b).sx)), ('concat', A('Tag', 'if K1.len() == 3 { K2 } else { b"" }', TAG(b).sx)), ('call', A('Tag', 'kf(K1)', TAG(b).sx)), ('rawb', A('Tag', 'br##"Ab""##', TAG(b'Ab"').sx, 'l')),
        ('paren', A('Tag', '(K1)', TAG(b).sx)), ('asc', A('Tag', '"Ab!".as_bytes()', TAG(b'Ab!').sx, 'l')), ('text', A('Tag', '"Ab\u00e9"', TAG('Ab\u00e9'.encode()).sx, 'l')),
        ('mac', A('Tag', 'km!(65, 98, 255)', TAG(b).sx)),
    ]
    extra = ('pub const K1: &[u8; 3] = b"Ab\\xff"; pub const K2: &[u8] = b"Ab\\xff"; pub static K3: &[u8] = &[65, 98, 255]; pub mod consts { pub const K4: &[u8] = &[65, 98, 0xff]; }\n'
             'pub fn kf(x: &[u8; 3]) -> &[u8] { &x[..] }\n#[allow(unused_macros)] macro_rules! km { ($($x:expr),*) => { &[$($x as u8),*][..] } }')
    for (n, a), k in itertools.product(forms, KIN[:9] if T else ('named', 'etup', 'generr', 'complete')):
        al = AL
        if n in ('rawb', 'asc', 'text'):
            al = [alt(*near({'rawb': b'Ab"', 'asc': b'Ab!', 'text': 'Ab\u00e9'.encode()}[n], False))]
        out.append(wrap('fm_%s_%s' % (n, k), [F('t', 'slice', a), F('z', 'u8')], al, k, tail=1, extra=extra, reach=[] if k == 'opt' else None))
    # tags which depend on what was read, and on arguments
    for k in ('named', 'tuple', 'evar', 'etup', 'nested', 'complete', 'generr', 'args', 'input'):
        three = [rep((65, 97, 255), 4)]
        out.append(wrap('e_ab_%s' % k, [F('a', 'u8'), F('b', 'u8'), F('t', 'slice', TAGE('[a, b]', '(tuple a b)')), F('z', 'u8')], three, k, tail=1))
        out.append(wrap('e_ba_%s' % k, [F('a', 'u8'), F('b', 'u8'), F('t', 'slice', TAGE('&[b, a][..]', '(tuple b a)')), F('z', 'u8')], three, k, tail=1))
        out.append(wrap('e_sl_%s' % k, [F('m', 'slice', TAKE(2)), F('t', 'slice', TAGE('m', 'm')), F('z', 'u8')], three, k, tail=1))
        out.append(wrap('e_kn_%s' % k, [F('m', 'slice', TAKE('k0')), F('t', 'slice', TAGE('m', 'm')), F('z', 'u8')], three, k, tail=1, knobs=[(0, 1, 2)]))
        out.append(wrap('e_arr_%s' % k, [F('m', ('arr', 'u8', 2)), F('t', 'slice', TAGE('m', 'm')), F('z', 'u8')] if k != 'generr' else [F('m', 'slice', TAKE(2)), F('t', 'slice', TAGE('m', 'm')), F('z', 'u8')], three, k, tail=1))
        out.append(wrap('e_vec_%s' % k, [F('m', ('vec', 'u8'), COUNT('k0')), F('t', 'slice', TAGE('&m[..]', 'm')), F('z', 'u8')], three, k, tail=1, knobs=[(0, 1, 2)]))
        out.append(wrap('e_sel_%s' % k, [F('a', 'u8'), F('t', 'slice', TAGE('if a == 65 { b"xX" } else { b"Xx" }', '(if (== a 65) (bytes 120 88) (bytes 88 120))')), F('z', 'u8')], [alt(b'A', b'a'), rep(tuple(b'xX'), 2)], k, tail=1))
        out.append(wrap('e_len_%s' % k, [F('a', 'u8'), F('t', 'slice', TAGE('&b"ABCD"[..(a % 5) as usize]', '(if (== (% a 5) 0) (bytes) (if (== (% a 5) 1) (bytes 65) (if (== (% a 5) 2) (bytes 65 66) (if (== (% a 5) 3) (bytes 65 66 67) (bytes 65 66 67 68)))))')), F('z', 'u8')],
                        [rng(0, 4), alt(b'ABCD', b'aBCD', b'AbCD', b'ABcD', b'ABCd')], k, tail=1))
        out.append(wrap('e_rep_%s' % k, [F('m', 'slice', TAKE(1)), F('t', ('vec', 'slice'), COUNT(2), TAGE('m', 'm')), F('u', ('opt', 'slice'), COND('k0 == 1'), TAGE('m', 'm')), F('z', 'u8')], [rep((65, 97), 4)], k, tail=1, knobs=[(0, 1)]))
    return out


def takes(T):
    out = []
    N = tuple(range(0, 18)) + (-1, 31, 32, 33)
    for k in KIN + (['vec', 'exact'] if T else []):
        r = [] if k in ('opt', 'exact', 'vec') else None
        out.append(wrap('k_%s' % k, [F('s', 'slice', TAKE('k0')), F('z', 'u8')], [fill(34)], k, tail=0, knobs=[N], reach=r))
        out.append(wrap('kk_%s' % k, [F('s', 'slice', TAKE('k0')), F('t', 'slice', TAKE('k1')), F('z', 'u8')], [fill(12)], k, tail=0, knobs=[tuple(range(0, 6)), tuple(range(0, 6))], reach=r))
        out.append(wrap('klast_%s' % k, [F('a', 'u8'), F('s', 'slice', TAKE('k0'))], [fill(9)], k, tail=1, knobs=[tuple(range(0, 10))], reach=r))
        out.append(wrap('kpre_%s' % k, [F('a', ('vec', 'u8'), COUNT('k1')), F('s', 'slice', TAKE('k0')), F('z', 'u8')], [fill(12)], k, tail=0, knobs=[tuple(range(0, 7)), tuple(range(0, 6))], reach=r))
        out.append(wrap('kil_%s' % k, [F('a', 'u8'), F('s', 'slice', TAKE('ilen - k0'))], [fill(6)], k, tail=1, knobs=[(0, 1, 2)], reach=[]))
        out.append(wrap('kexp_%s' % k, [F('a', 'u8'), F('b', 'u8'), F('s', 'slice', TAKE('(a + 1) * b - b')), F('z', 'u8')], [rng(0, 3), rng(0, 3), fill(11)], k, tail=0, reach=r))
        if k != 'vec':
            out.append(wrap('kev_%s' % k, [F('a', 'u8'), F('s', ('vec', 'slice'), COUNT(2), TAKE('a')), F('t', ('opt', 'slice'), COND('ev(3, a) == 1'), TAKE(2)), F('u', 'slice', TAKE('ev(4, a + 1)'))], [rng(0, 3), fill(9)], k, tail=0, reach=r))
            # one slice gives the next size
            out.append(wrap('ktlv_%s' % k, [F('s', 'slice', TAKE(2)), F('t', 'slice', TAKE('fld(s, 0)')), F('u', 'slice', TAKE('fld(s, 1) + len(t)')), F('z', 'u8')], [rng(0, 3), rng(0, 3), fill(11)], k, tail=0, reach=r))
    # the type of the size
    for t in INTS:
        w = width(t)
        a = alt(*[x.to_bytes(w, 'big') for x in (0, 1, 2, 5)], b'\xff' * w, b'\x7f' + b'\xff' * (w - 1))
        for k in ('named', 'evar', 'complete', 'nested3'):
            out.append(wrap('kt_%s_%s' % (t, k), [F('n', t, BE), F('s', 'slice', TAKE('n')), F('z', 'u8')], [a, fill(7)], k, tail=0))
            out.append(wrap('kts_%s_%s' % (t, k), [F('n', t, LE), F('s', 'slice', TAKE('n - 1 + k0')), F('z', 'u8')], [alt(*[x.to_bytes(w, 'little') for x in (1, 2, 5)]), fill(7)], k, tail=0, knobs=[(0, 1, 2)]))
    # types to which `as usize` converts: letters, booleans, small enums
    W = [('bool', 'a == 3', '(== a 3)'), ('char', "(a as char)", 'a'), ('lit', '3u8', '3'), ('lit2', '0x2', '2'), ('lit3', "b'\\x03'", '3'), ('cst', 'SZ', '4'), ('fn', 'sz(a)', '(+ a 1)'), ('sizeof', 'core::mem::size_of::<u32>()', '4'),
         ('blk', '{ let q = a; q }', 'a'), ('match', 'match a { 1 => 2, 2 => 0, _ => 1 }', '(if (== a 1) 2 (if (== a 2) 0 1))'), ('f32', '(a as f32 + 0.5)', 'a'), ('en', 'Sz::B', '2'), ('neg', '(a as i8 - 1)', '(- a 1)'), ('shift', '1u32 << a', '(<< 1 a)'), ('cast', 'a as u64', 'a'),
         ('min', 'core::cmp::min(a, 2)', '(if (< a 2) a 2)'), ('closure', '(|q: u8| q + 1)(a)', '(+ a 1)'), ('ref', '*&a', 'a'), ('ret', 'if a > 9 { return Err(nom::Err::Error(nom::error::make_error(i, nom::error::ErrorKind::Alpha))) } else { a }', 'a')]
    ex = '#[derive(Clone, Copy)] pub enum Sz { A, B = 2 } pub const SZ: u16 = 4; pub fn sz(x: u8) -> u8 { x + 1 }'
    for n, rs, sx in W:
        for k in ('named', 'tuple', 'evar', 'complete'):
            out.append(wrap('kw_%s_%s' % (n, k), [F('a', 'u8'), F('s', 'slice', A('Take', rs, '(take %s)' % sx)), F('v', ('vec', 'u8'), A('Count', rs, '(count %s)' % sx)), F('z', 'u8')], [rng(0, 4), fill(40 if n == 'shift' else 12)], k, tail=0, extra=ex))
    for n in (64, 100, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 100000, 1 << 17):
        for k in ('named', 'evar', 'complete'):
            out.append(wrap('kbig_%d_%s' % (n, k), [F('s', 'slice', TAKE('k0')), F('z', 'u8')], [blob(n - 2), fill(4)], k, tail=0, knobs=[(n - 1, n, n + 1)], entries=['parse']))
            out.append(wrap('kbigc_%d_%s' % (n, k), [F('a', 'u8'), F('s', 'slice', TAKE(n)), F('z', 'u8')], [blob(n - 2), fill(5)], k, tail=0, entries=['parse']))
    return out


UF = '''
pub fn two<'i, E: nom::error::ParseError<&'i [u8]>>(i: &'i [u8]) -> nom::IResult<&'i [u8], u16, E> { engine::ev(1, i.len()); nom::number::streaming::be_u16(i) }
pub fn plus<'i, E: nom::error::ParseError<&'i [u8]>>(n: u8) -> impl Fn(&'i [u8]) -> nom::IResult<&'i [u8], u8, E> { move |i: &'i [u8]| { engine::ev(2, n); let (i, x) = nom::number::streaming::be_u8(i)?; Ok((i, x.wrapping_add(n))) } }
pub fn fails<'i, E: nom::error::ParseError<&'i [u8]>>(i: &'i [u8]) -> nom::IResult<&'i [u8], u16, E> { engine::ev(3, i.len()); let (r, x) = nom::number::streaming::be_u8(i)?; match x { 1 => Err(nom::Err::Error(E::from_error_kind(r, nom::error::ErrorKind::Alpha))), 2 => Err(nom::Err::Failure(E::from_error_kind(r, nom::error::ErrorKind::Alpha))), 3 => Err(nom::Err::Incomplete(nom::Needed::Unknown)), _ => Ok((r, x as u16)) } }
pub fn nothing<'i, E: nom::error::ParseError<&'i [u8]>>(i: &'i [u8]) -> nom::IResult<&'i [u8], u16, E> { engine::ev(4, i.len()); Ok((i, 5)) }
pub fn all<'i, E: nom::error::ParseError<&'i [u8]>>(i: &'i [u8]) -> nom::IResult<&'i [u8], &'i [u8], E> { engine::ev(5, i.len()); Ok((&i[i.len()..], i)) }
pub mod inner { pub use super::two as deux; }
pub struct St; impl St { pub fn get<'i, E: nom::error::ParseError<&'i [u8]>>(i: &'i [u8]) -> nom::IResult<&'i [u8], u16, E> { super::two_(i, 6) } }
pub fn two_<'i, E: nom::error::ParseError<&'i [u8]>>(i: &'i [u8], n: u32) -> nom::IResult<&'i [u8], u16, E> { engine::ev(n, i.len()); nom::number::streaming::le_u16(i) }
'''.replace('super::two_', 'two_')


def parses(T):
    out = []
    B2 = '(int 2 be)'
    forms = [
        # (name, type, parser, input)
        ('fn', 'u16', P('two', '(ev 1 %s)' % B2), [fill(2)]),
        ('path', 'u16', P('inner::deux', '(ev 1 %s)' % B2), [fill(2)]),
        ('assoc', 'u16', P('St::get', '(ev 6 (int 2 le))'), [fill(2)]),
        ('clos', 'u16', P('{ |x| two(x) }', '(ev 1 %s)' % B2), [fill(2)]),
        ('clos2', 'u16', P("{ |x: &'nom [u8]| { let y = x; two_(y, 7) } }", '(ev 7 (int 2 le))'), [fill(2)]),
        ('nothing', 'u16', P('nothing', '(ev 4 (ret 5))'), []),
        ('rest', 'slice', P('all', '(ev 5 rest)'), [fill(2)]),
        ('verify', 'u8', P('nom::combinator::verify(nom::number::streaming::be_u8, |x: &u8| *x != 3)', '(verify (int 1 be) v (!= v 3))'), [rng(1, 4)]),
        ('map', 'u16', P('nom::combinator::map(nom::number::streaming::be_u8, |x| x as u16 * 256)', '(map (int 1 be) v (* v 256))'), [fill(1)]),
        ('opt', ('opt', 'u16'), P('nom::combinator::opt(nom::combinator::complete(two))', '(opt (complete (ev 1 %s)))' % B2), [fill(2)]),
        ('many', ('vec', 'u16'), P('nom::multi::many0(nom::combinator::complete(nom::number::streaming::be_u16))', '(many (complete %s))' % B2), [fill(2), fill(2)]),
        ('pair', ('tup', 'u8', 'u16'), P('nom::sequence::pair(nom::number::streaming::be_u8, two)', '(pair (int 1 be) (ev 1 %s))' % B2), [fill(3)]),
        ('tupp', ('tup', 'u8', 'u16'), P('(nom::number::streaming::be_u8, two)', '(pair (int 1 be) (ev 1 %s))' % B2), [fill(3)]),
        ('ldata', 'slice', P('nom::multi::length_data(nom::number::streaming::be_u8)', '(ldata (int 1 be))'), [rng(0, 3), fill(3)]),
        ('lcount', ('vec', 'u16'), P('nom::multi::length_count(nom::number::streaming::be_u8, two)', '(lcount (int 1 be) (ev 1 %s))' % B2), [rng(0, 2), fill(4)]),
        ('block', 'u16', P('{ two }', '(ev 1 %s)' % B2), [fill(2)]),
        ('paren', 'u16', P('(two)', '(ev 1 %s)' % B2), [fill(2)]),
        ('err', 'u16', P_ERR, []), ('failure', 'u16', P_FAIL, []),
        ('inc', 'u16', P('{ |_| Err(nom::Err::Incomplete(nom::Needed::Unknown)) }', 'inc'), []),
        ('method', 'u16', P('nom::number::streaming::be_u8.map(|x| x as u16 + 1)', '(map (int 1 be) v (+ v 1))'), [fill(1)]),
        ('tyother', 'u16', P('{ |x| u8::parse_be(x).map(|(i, v)| (i, v as u16)) }', '(int 1 be)'), [fill(1)]),
        ('match', 'u16', P("match 1 + 1 { 2 => two, _ => nothing }", '(ev 1 %s)' % B2), [fill(2)]),
    ]
    for (n, t, p, i), k in itertools.product(forms, KIN + ['vec', 'exact']):
        if not T and k in ('vec', 'exact', 'input', 'debug', 'args') and n not in ('fn', 'clos', 'rest'):
            continue
        # (nom::dbg_dmp takes an Fn, which a tuple is not)
        if k == 'generr' and has_ld(t) or k == 'debug' and n == 'tupp':
            continue
        r = []
        out.append(wrap('p_%s_%s' % (n, k), [F('a', 'u8'), F('x', t, PARSE(p)), F('z', 'u8')], [fill(1)] + i, k, tail=1, extra=UF, reach=r))
    # failing user parsers: each way, below each attribute and at each item
    pf = P('fails', '(ev 3 (bind (int 1 be) v (if (== v 1) err (if (== v 2) fail (if (== v 3) inc (ret v))))))')
    I = rng(1, 4)
    for k in KIN:
        for n, f, i, kn in (
                ('one', F('x', 'u16', PARSE(pf)), [I], []), ('compl', F('x', 'u16', COMPLETE, PARSE(pf)), [I], []), ('cond', F('x', ('opt', 'u16'), COND('k0 == 1'), PARSE(pf)), [I], [(0, 1)]),
                ('count', F('x', ('vec', 'u16'), COUNT('k0'), PARSE(pf)), [I] * 3, [(0, 1, 2, 3)]), ('lcount', F('x', ('vec', 'u16'), LCOUNT(cnt8()), PARSE(pf)), [rng(0, 2), I, I], []),
                ('map', F('x', 'u16', MTWIST('u16'), PARSE(pf)), [I], []), ('into', F('x', 'u32', INTO, PARSE(pf)), [I], []), ('debug', F('x', 'u16', DEBUG, PARSE(pf)), [I], []),
                ('opt', F('x', ('opt', 'u16'), PARSE(p_opt(pf))), [I], []), ('many', F('x', ('vec', 'u16'), PARSE(p_many(pf))), [I, I], []), ('comp', F('x', 'u16', PARSE(p_complete(pf))), [I], []),
                ('lcp', F('x', ('vec', 'u8'), A('LengthCount', 'fails', '(lcount %s)' % pf.sx)), [rng(0, 4), fill(4)], []),
                ('ld', F('x', 'slice', PARSE(p_ldata(pf))), [rng(0, 4), fill(4)], [])):
            if n == 'into' and k == 'generr' or n == 'debug' and k in ('tuple', 'etup'):
                continue
            out.append(wrap('pf_%s_%s' % (n, k), [F('a', 'u8'), f, F('z', 'u8')], [fill(1)] + i, k, tail=1, extra=UF, knobs=kn, reach=[]))
        if k not in ('tuple', 'etup'):
            out.append(wrap('pf_ver_%s' % k, [F('a', 'u8'), F('x', 'u16', VCHK('x', 'u16'), PARSE(pf)), F('z', 'u8')], [fill(1)] + [I], k, tail=1, extra=UF, reach=[]))
        # arguments of the parser: expressions of earlier fields, evaluated for each call
        plus = P('plus(a)', '(pev 2 a (map (int 1 be) v (& (+ v a) 255)))')
        for n, f, i, kn in (('one', F('x', 'u8', PARSE(plus)), [fill(1)], []), ('count', F('x', ('vec', 'u8'), COUNT('k0'), PARSE(plus)), [fill(3)], [(0, 1, 2, 3)]), ('cond', F('x', ('opt', 'u8'), COND('k0 == 1'), PARSE(plus)), [fill(1)], [(0, 1)]),
                            ('map', F('x', 'u8', MTWIST('u8'), PARSE(plus)), [fill(1)], [])):
            out.append(wrap('pa_%s_%s' % (n, k), [F('a', 'u8'), f, F('y', 'u8', PARSE(P('plus(x)', '(pev 2 x (map (int 1 be) v (& (+ v x) 255)))'))) if n in ('one', 'map') else F('y', 'u8'), F('z', 'u8')], [rep((0, 1, 255), 1)] + i + [fill(1)], k, tail=1, extra=UF, knobs=kn, reach=[]))
    return out


MX = '''
pub fn half(x: u16) -> u8 { engine::ev(1, x); (x / 2) as u8 }
pub fn wide(x: u8) -> u32 { x as u32 * 3 }
#[derive(Debug, Clone, Copy, PartialEq)] pub struct W(pub u8); impl engine::Enc for W { fn enc(&self, o: &mut Vec<u128>) { o.push(self.0 as u128) } }
#[derive(Debug, Clone, Copy, PartialEq)] pub enum Wv { U(u8), V { x: u8 } } impl engine::Enc for Wv { fn enc(&self, o: &mut Vec<u128>) { o.push(match self { Wv::U(x) => *x as u128, Wv::V { x } => *x as u128 + 1000 }) } }
impl W { pub fn new(x: u8) -> Self { W(x ^ 0xff) } }
'''
EVM = lambda body, sx, ty='u8': A('Map', '|v: %s| { engine::ev(1, v); %s }' % (ty, body), '(map v %s)' % sx)


def maps(T):
    out = []
    # (name, type of the field, other attributes, Map, input)
    U16 = [PARSE(p_int('u16', 'be'))]
    U8 = [PARSE(p_int('u8', 'be'))]
    W_ = ('raw', 'W', 'u8')
    forms = [
        ('fn', 'u8', U16, A('Map', 'half', '(map v (& (/ (ev 1 v) 2) 255))'), [rng(0, 1), fill(1)]),
        ('path', 'u32', U8, A('Map', 'self::wide', '(map v (* v 3))'), [fill(1)]),
        ('ctor', W_, U8, A('Map', 'W', '(map v v)'), [fill(1)]), ('new', W_, U8, A('Map', 'W::new', '(map v (^ v 255))'), [fill(1)]),
        ('variant', ('raw', 'Wv', 'u8'), U8, A('Map', 'Wv::U', '(map v v)'), [fill(1)]), ('variant2', ('raw', 'Wv', 'u8'), U8, A('Map', '|q| Wv::V { x: q }', '(map v (+ v 1000))'), [fill(1)]),
        ('some', ('opt', 'u8'), U8, A('Map', 'Some', '(map v (some v))'), [fill(1)]), ('vec', ('vec', 'u8'), U8, A('Map', '|v| Vec::from([v, v])', '(map v (list v v))'), [fill(1)]),
        ('arr', ('arr', 'u8', 3), U8, A('Map', '|v: u8| [v, v ^ 1, 0]', '(map v (tuple v (^ v 1) 0))'), [fill(1)]), ('tup', ('tup', 'u8', 'u16'), U8, A('Map', '|v| (v, v as u16 + 1)', '(map v (tuple v (+ v 1)))'), [fill(1)]),
        ('typed', 'u32', U16, A('Map', '|v: u16| -> u32 { v as u32 }', '(map v v)'), [fill(2)]), ('move', 'u16', U8, A('Map', 'move |v| v as u16', '(map v v)'), [fill(1)]),
        ('ign', 'u8', U16, A('Map', '|_| 7', '(map v 7)'), [fill(2)]), ('len', 'u8', [TAKE('k0')], A('Map', "|s: &[u8]| s.len() as u8", '(map v (len v))'), [fill(4)]),
        ('tovec', ('vec', 'u8'), [TAKE('k0')], A('Map', "|s: &[u8]| s.to_vec()", '(map v (aslist v))'), [fill(4)]), ('slice', 'slice', [TAKE('k0 + 1')], A('Map', "|s: &'nom [u8]| &s[1..]", '(map v (twist v))'), [fill(4)]),
        ('first', 'u8', [TAG(b'Ab')], A('Map', '|s: &[u8]| s[1]', '(map v (fld v 1))'), [alt(b'Ab', b'ab', b'AB', b'Aa')]),
        ('pat', 'u32', [PARSE(P('nom::sequence::pair(nom::number::streaming::be_u8, nom::number::streaming::be_u16)', '(pair (int 1 be) (int 2 be))'))], A('Map', '|(a1, b1)| a1 as u32 * 65536 + b1 as u32', '(map v (+ (* (fld v 0) 65536) (fld v 1)))'), [fill(3)]),
        ('once', 'u8', U8, EVM('v ^ 1', '(^ (ev 1 v) 1)'), [fill(1)]), ('cap', 'u16', U8, A('Map', '|v: u8| v as u16 + a as u16', '(map v (+ v a))'), [fill(1)]), ('capev', 'u16', U8, A('Map', '|v: u8| { engine::ev(1, a); (v as u16) << (a & 3) }', '(map v (<< v (& (ev 1 a) 3)))'), [fill(1)]),
        ('twice', 'u16', [A('Map', '|v: u8| v as u16 + 1', '(map v (+ v 1))')] + U8, A('Map', '|v: u16| v * 3', '(map v (* v 3))'), [fill(1)]),
        ('counti', ('vec', 'u16'), [], A('Map', '|v: u8| v as u16 * 2', '(map v (* v 2))'), [fill(4)]),
        ('shadow', 'u16', U8, A('Map', '|a: u8| a as u16 + 1', '(map v (+ v 1))'), [fill(1)]),
        ('blockf', 'u32', U8, A('Map', '{ let f = |v: u8| v as u32 + 5; f }', '(map v (+ v 5))'), [fill(1)]),
    ]
    for (n, t, ats, m, i), k in itertools.product(forms, KIN + (['vec', 'exact'] if T else [])):
        if n == 'counti':
            at = [COUNT('k0'), m] + U8
        elif n in ('shadow', 'variant2') and k in ('tuple', 'etup'):
            # (the DSL renames fields everywhere)
            continue
        else:
            at = [m] + ats
        uses = any('kn(' in (a.arg or '') for a in at)
        out.append(wrap('m_%s_%s' % (n, k), [F('a', 'u8'), F('x', t, *at), F('z', 'u8')], [rng(0, 3)] + i, k, tail=1, extra=MX, knobs=[(0, 1, 2, 3)] if uses else [], reach=[]))
        # conversions when there is a value, once for each item
        if not uses and n not in ('twice',):
            j = 0 if n in ('first', 'fn', 'pat', 'len') else 1
            out.append(wrap('mc_%s_%s' % (n, k), [F('a', 'u8'), F('x', ('opt', t), COND('a == 1'), *at), F('z', 'u8')], [rng(0, 2)] + i, k, tail=1, extra=MX, reach=[]))
            if k in KIN[:6] or T:
                out.append(wrap('mn_%s_%s' % (n, k), [F('a', 'u8'), F('x', ('vec', t), COUNT('a'), *at), F('z', 'u8')], [rng(0, 2)] + i * 2, k, tail=1, extra=MX, reach=[]))
                out.append(wrap('ml_%s_%s' % (n, k), [F('a', 'u8'), F('x', ('vec', t), LCOUNT(cnt8()), *at), F('z', 'u8')], [rng(0, 2), rng(0, 2)] + i * (2 if len(i) == 1 and j else 1), k, tail=1, extra=MX, reach=[]))
                out.append(wrap('mp_%s_%s' % (n, k), [F('a', 'u8'), F('x', t, COMPLETE, *at), F('z', 'u8')], [rng(0, 2)] + i, k, tail=1, extra=MX, reach=[]))
    # not called when there is nothing to convert
    for k in KIN:
        ev = A('Map', '|v: u8| { engine::ev(1, v); v ^ 1 }', '(map v (^ (ev 1 v) 1))')
        ev2 = A('Map', '|v: u8| { engine::ev(2, v); v ^ 3 }', '(map v (^ (ev 2 v) 3))')
        for n, at in (('fail', [ev, PARSE(P_FAIL)]), ('err', [ev, PARSE(P_ERR)]), ('two', [ev, ev2, PARSE(p_int('u8', 'be'))]), ('ty', [ev]), ('value', [ev, VALUE('a + 0', 'u8')]), ('ver', [ev, A('Verify', '*x != 2', '(verify (!= x 2))')]), ('ver2', [A('Verify', '*x != 2', '(verify (!= x 2))'), ev])):
            if n.startswith('ver') and k in ('tuple', 'etup'):
                continue
            out.append(wrap('e_%s_%s' % (n, k), [F('a', 'u8'), F('x', 'u8', *at), F('z', 'u8')], [rng(0, 3), rng(0, 4)], k, tail=1, reach=[]))
    return out


IX = '''
#[derive(Debug, Clone, Copy, PartialEq)] pub struct W(pub u32);
impl From<u8> for W { fn from(x: u8) -> Self { engine::ev(1, x); W(x as u32 + 1) } }
impl From<u16> for W { fn from(x: u16) -> Self { engine::ev(2, x); W(x as u32 + 2) } }
impl<'i> From<&'i [u8]> for W { fn from(x: &'i [u8]) -> Self { engine::ev(3, x.len()); W(x.len() as u32 + 100) } }
impl From<Vec<u8>> for W { fn from(x: Vec<u8>) -> Self { engine::ev(4, x.len()); W(x.len() as u32 + 200) } }
impl From<(u8, u16)> for W { fn from(x: (u8, u16)) -> Self { W(x.0 as u32 * 65536 + x.1 as u32) } }
impl engine::Enc for W { fn enc(&self, o: &mut Vec<u128>) { o.push(self.0 as u128) } }
impl Default for W { fn default() -> Self { W(0) } }
'''


def intos(T):
    out = []
    W_ = ('raw', 'W', 'u32')
    IN = lambda sx: A('Into', None, '(map v %s)' % sx)
    # widening of integers: every pair of types
    for s in INTS:
        for t in INTS:
            ws, wt = width(s), width(t)
            if not ((s[0] == t[0] and ws <= wt) or (s[0] == 'u' and ws < wt)):
                continue
            for e in ('be', 'le'):
                k = KIN[(ws + 3 * wt + len(out)) % 6]
                v = alt(*sorted({bytes(ws), b'\xff' * ws, b'\x80' + bytes(ws - 1), bytes(ws - 1) + b'\x80', bytes(range(1, ws + 1)), b'\x7f' + b'\xff' * (ws - 1), b'\xff' * (ws - 1) + b'\x7f'}))
                out.append(wrap('w_%s_%s_%s' % (s, t, e), [F('x', t, INTO, PARSE(p_int(s, e))), F('z', 'u8')], [v], k, tail=1, reach=[]))
    forms = [
        ('u8', W_, [IN('(+ (ev 1 v) 1)'), PARSE(p_int('u8', 'be'))], [fill(1)]), ('u16', W_, [IN('(+ (ev 2 v) 2)'), PARSE(p_int('u16', 'le'))], [fill(2)]),
        ('sl', W_, [IN('(+ (ev 3 (len v)) 100)'), TAKE('k0')], [fill(3)]), ('tag', W_, [IN('(+ (ev 3 (len v)) 100)'), A('Tag', '&b"Ab"[..]', TAG(b'Ab').sx)], [alt(b'Ab', b'ab')]),
        ('pair', W_, [IN('(+ (* (fld v 0) 65536) (fld v 1))'), PARSE(P('nom::sequence::pair(nom::number::streaming::be_u8, nom::number::streaming::be_u16)', '(pair (int 1 be) (int 2 be))'))], [fill(3)]),
        ('some', ('opt', 'u8'), [IN('(some v)'), PARSE(p_int('u8', 'be'))], [fill(1)]), ('box', ('raw', 'Box<u16>', 'u16'), [IN('v'), PARSE(p_int('u16', 'be'))], [fill(2)]),
        ('bool', 'u8', [IN('v'), PARSE(P('nom::combinator::map(nom::number::streaming::be_u8, |x| x == 3)', '(map (int 1 be) v (== v 3))'))], [rng(2, 4)]),
        ('vec', ('vec', 'u8'), [IN('(aslist v)'), TAKE('k0')], [fill(3)]), ('id', 'u16', [IN('v'), PARSE(p_int('u16', 'be'))], [fill(2)]),
        ('map', W_, [IN('(+ (ev 1 v) 1)'), A('Map', '|v: u8| v ^ 1', '(map v (^ v 1))'), PARSE(p_int('u8', 'be'))], [fill(1)]),
        ('ver', W_, [IN('(+ (ev 2 v) 2)'), PARSE(P('nom::combinator::verify(nom::number::streaming::be_u16, |x: &u16| *x & 1 == 0)', '(verify (int 2 be) v (== (& v 1) 0))'))], [fill(2)]),
        ('chr', 'u32', [IN('v'), PARSE(P('nom::combinator::map(nom::number::streaming::be_u8, |x| x as char)', '(int 1 be)'))], [fill(1)]),
    ]
    for (n, t, at, i), k in itertools.product(forms, KIN + (['vec', 'exact'] if T else [])):
        if k == 'generr':
            continue
        uses = any('kn(' in (a.arg or '') for a in at)
        kw = dict(tail=1, extra=IX, reach=[], knobs=[(0, 1, 2, 3)] if uses else [])
        out.append(wrap('i_%s_%s' % (n, k), [F('a', 'u8'), F('x', t, *at), F('z', 'u8')], [rng(0, 2)] + i, k, **kw))
        out.append(wrap('ip_%s_%s' % (n, k), [F('a', 'u8'), F('x', t, COMPLETE, *at), F('z', 'u8')], [rng(0, 2)] + i, k, **kw))
        out.append(wrap('ic_%s_%s' % (n, k), [F('a', 'u8'), F('x', ('opt', t), COND('a == 1'), *at), F('z', 'u8')], [rng(0, 2)] + i, k, **kw))
        if not uses and (k in KIN[:6] or T):
            out.append(wrap('in_%s_%s' % (n, k), [F('a', 'u8'), F('x', ('vec', t), COUNT('a'), *at), F('z', 'u8')], [rng(0, 2)] + i * 2, k, **kw))
    for k in KIN:
        if k == 'generr':
            continue
        # conversion of a whole list
        out.append(wrap('il_%s' % k, [F('a', 'u8'), F('x', W_, IN('(+ (ev 4 (len v)) 200)'), PARSE(p_count(p_int('u8', 'be'), 'a'))), F('z', 'u8')], [rng(0, 2), fill(2)], k, tail=1, extra=IX, reach=[]))
        for n, p in (('fail', P('fl8', 'fail')), ('err', P('er8', 'err'))):
            out.append(wrap('ie_%s_%s' % (n, k), [F('a', 'u8'), F('x', W_, IN('(+ (ev 1 v) 1)'), PARSE(p)), F('z', 'u8')], [rng(0, 2)], k, tail=1, reach=[],
                            extra=IX + "pub fn fl8(i: &[u8]) -> nom::IResult<&[u8], u8> { Err(nom::Err::Failure(nom::error::make_error(i, nom::error::ErrorKind::Alpha))) } pub fn er8(i: &[u8]) -> nom::IResult<&[u8], u8> { Err(nom::Err::Error(nom::error::make_error(i, nom::error::ErrorKind::Alpha))) }"))
    return out


def C23(tier):
    T = tier == THOROUGH
    return tags(T) + takes(T) + parses(T) + maps(T) + intos(T)
