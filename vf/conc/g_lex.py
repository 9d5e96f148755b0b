"""Reading literals, symbols and white space (L01, L02)."""
import re
from .core import Case
from . import lits
from .lits import Num, Rat, Bin, Hex, Str, Dec

BUF = 32768
LPRE = lits.PRELUDE + '''(declare-const U Type)
(declare-const a U)
(declare-const b U)
(declare-const f (-> U U U))
(declare-const w Bool)
(declare-rule id ((F Bool)) :premises (F) :conclusion F)
'''
ESC = re.compile(r'\\u(?:\{([0-9a-fA-F]{1,5})\}|([0-9a-fA-F]{4}))')
_c = [0]


def nm():
    _c[0] += 1
    return '@l%d' % _c[0]


def decode(t):
    """code points denoted by the text between the quotes (latin1 characters)"""
    t = t.replace('""', '"')
    o, i = [], 0
    while i < len(t):
        m = ESC.match(t, i)
        v = m and int(m.group(1) or m.group(2), 16)
        if m and v < 196608:
            o.append(v)
            i = m.end()
        else:
            o.append(ord(t[i]))
            i += 1
    return tuple(o)


def full(cs):
    return '"' + ''.join('\\u{%x}' % c for c in cs) + '"'


PIECES = ['a', 'b', 'u', 'x', 'n', 't', '0', '1', '9', 'F', 'f', '{', '}', '""', '\\', '\\', '\\u', '\\u{', '\\U', '\\u{}', '\\u{0}', '\\u{41}', '\\u{2FFFF}', '\\u{30000}', '\\u{fffff}', '\\u{000041}', '\\u{00041}', '\\u0041', '\\u004', '\\u00g1', '\\ud83d', '\\uFFFF',
          '\\u{4g}', '\\x41', '\\n', '\\\\', ' ', '\n', '\t', ';', '(', ')', '|', "'", '#', ':', '\\u{22}', '\\u0022', '\\u{5c}', '\\u005c', 'u0041', '\x01', '\x1f', '\x7f', '~', '\\u{1F600}', '\\u{a', '\\u{ab', '\\u{abcde', '\\u1', '\\u12', '\\u123', '\\u12345', '\r', '\\u1{23}', '\\u4{1}', '\\u00{41}', '\\u{4{1}', '\\u{41}}', '\\u{}41}']


def rtext(r):
    n = r.choice([0, 1, 1, 2, 2, 3, 4, 6, 10])
    return ''.join(r.choice(PIECES) for _ in range(n))


def val(src, want, what):
    return (what, '(step %s (P %s) :rule val :args (%s))' % (nm(), want, src))


def sshow(t):
    return '"' + t.encode('unicode_escape').decode() + '"'


def chars_are(t, cs, r):
    """checks that the literal with text t denotes cs"""
    lit = '"%s"' % t
    yield val(lit, full(cs), '%s denotes %s' % (sshow(t), list(cs)))
    yield val('(eo::len %s)' % lit, str(len(cs)), '%s has length %d' % (sshow(t), len(cs)))
    idx = list(range(len(cs)))
    if len(idx) > 6:
        idx = r.sample(idx, 6)
    for i in idx:
        yield val('(eo::to_z (eo::extract %s %d %d))' % (lit, i, i), str(cs[i]), 'character %d of %s is %d' % (i, sshow(t), cs[i]))


def printed(cs):
    """the literal printed in an error message reads back as cs"""
    def post(out):
        m = re.search(r'Proves: \(P "(.*)"\)\s*\n\s*Expected', out, re.S)
        if not m:
            return 'no printed conclusion found'
        t = m.group(1)
        if re.search(r'(?<!")"(?!")', t.replace('""', '')):
            return 'printed as %r, which has an undoubled quote' % t
        if decode(t) != tuple(cs):
            return 'printed as %r, which denotes %s' % (t, list(decode(t)))
        return None
    return post


def cases_L01(r, tier):
    N_ = 60 if tier == 'quick' else 1500
    # every short text over the characters that matter
    short = ['']
    al = ['\\', 'u', '{', '}', '4', '1', 'g', '""']
    lvl = ['']
    for _ in range(2):
        lvl = [x + c for x in lvl for c in al]
        short += lvl
    # everything after the start of an escape sequence
    for x in (['\\u', '\\u{', '\\u4', '\\u{4', '\\u41', '\\u004'] if tier == 'quick' else ['\\u', '\\u{', '\\u4', '\\u{4', '\\u41', '\\u{41', '\\u004', '\\u{004', '\\u{0004', '\\u{2fff']):
        short += [x + c + e for c in al + ['}4', '{4', '4{', '4}', '44'] for e in ('', '1', '}', '1}', '{', '1g')]
    for i in range(0, len(short), 40):
        yield Case('correct', 'short strings', prelude=LPRE, checks=[c for t in short[i:i + 40] for c in chars_are(t, decode(t), r)])
    for hx in (0, 1, 9, 0xa, 0xf, 0x10, 0x41, 0x7f, 0x80, 0xff, 0x100, 0xfff, 0x1000, 0xd800, 0xdfff, 0xffff, 0x10000, 0x2fffe, 0x2ffff, 0x30000, 0x7ffff, 0x80000, 0xfffff):
        ts = ['\\u{%x}' % hx, '\\u{%X}' % hx, '\\u{%05x}' % hx, '\\u{%06x}' % hx] + (['\\u%04x' % hx, '\\u%04X' % hx] if hx <= 0xffff else ['\\u%x' % hx])
        yield Case('correct', 'code point %x' % hx, prelude=LPRE, checks=[c for t in ts for c in chars_are(t, decode(t), r)])
    yield Case('correct', 'characters that stand for themselves', prelude=LPRE, checks=[c for k in range(1, 128) if k not in (34,) for c in chars_are(chr(k), (k,), r)])
    for _ in range(N_):
        ts = [rtext(r) for _ in range(25)]
        ch = [c for t in ts for c in chars_are(t, decode(t), r)]
        for t in ts[:10]:
            t2 = r.choice(ts)
            e = decode(t) == decode(t2)
            ch.append(val('(eo::eq "%s" "%s")' % (t, t2), 'true' if e else 'false', '%s %s %s' % (sshow(t), 'equals' if e else 'differs from', sshow(t2))))
            ch.append(val('(eo::concat "%s" "%s")' % (t, t2), full(decode(t) + decode(t2)), 'concatenation of %s and %s' % (sshow(t), sshow(t2))))
        yield Case('correct', 'strings', prelude=LPRE, checks=ch)
    # printing and reading back
    for _ in range(N_ * 2):
        cs = decode(rtext(r)) if r.random() < .5 else tuple(r.choice([0, 1, 9, 10, 13, 31, 32, 33, 34, 35, 47, 65, 92, 117, 123, 125, 126, 127, 128, 255, 256, 0xfff, 0x10000, 0x2ffff]) for _ in range(r.choice([1, 2, 3, 5])))
        yield Case('error', 'printing the string with code points %s' % list(cs), text=LPRE + '(step @1 (P false) :rule val :args (%s))\n' % full(cs), post=printed(cs))
    # long strings and strings at the end of the input buffer
    for off in (list(range(-3, 3)) if tier == 'quick' else list(range(-12, 12))):
        for t in ('ab""cd', '\\u{41}""', '""', '""""', 'x' * 40000, '\\u0041' * 7000):
            head = LPRE + '(step @1 (P %s) :rule val :args (' % full(decode(t)[:200] if len(t) < 100 else ()) if len(t) < 100 else LPRE + '(step @1 (P %d) :rule val :args ((eo::len ' % len(decode(t))
            pad = ';' * ((BUF + off - len(head) - 1) % BUF) + '\n'
            body = '"%s"' % t + ('))\n' if len(t) < 100 else ')))\n')
            yield Case('correct', 'a string at the end of the input buffer', text=pad + head + body)
    for st in (True, False):
        for t in ('ab""cd', '\\u{41}"" ', '', '""', 'a;b(c)|d', 'a\nb', ' '):
            tx = '(step @1 (P %s) :rule val :args ("%s"))\n' % (full(decode(t)), t)
            if st:
                yield Case('correct', 'strings on the standard input', files={'pre.eo': LPRE}, args=['--include=pre.eo'], stdin=tx)
            else:
                yield Case('correct', 'strings in a proof file', files={'pre.eo': LPRE, 'main.smt3': '(include "pre.eo")\n' + tx}, main='main.smt3')
    # rejected
    for t in ['"abc', '"', '"abc""', '"\\u{41}', '"a\xe9b"', '"\xff"', '"\x80"', '"a\x00b"', '"\x00"', '"abc" "def"', '"a"b"', '"a""" "b"']:
        yield Case('error', 'not a string literal: %r' % t, text=LPRE + '(step @1 :rule val :args (%s))\n' % t)
    yield Case('error', 'a string without end', text=LPRE + '(step @1 :rule val :args ("abc))')
    yield Case('error', 'a string without end', text=LPRE + '(step @1 :rule val :args ("abc))(step @2 :rule val :args ("def))')
    for t1, t2 in [('a', 'b'), ('', ' '), ('a', 'A'), ('\\u{41}', '\\u41'), ('""', ''), ('a\\u{0}', 'a'), ('\\u{0}', ''), ('\\', '\\\\'), ('\\u{30000}', '\\u{3}0000'), ('\n', 'n'), ('\\n', '\n'), ('\t', ' '), ('\x01', ''), ('\x7f', '')]:
        yield Case('error', '%s differs from %s' % (sshow(t1), sshow(t2)), text=LPRE + '(step @1 (P "%s") :rule val :args ("%s"))\n' % (t1, t2))


# ---------------------------------------------------------------- tokens
def horner(n, base=10 ** 9):
    """a term for n that uses only numerals of at most nine digits"""
    if n < 0:
        return '(eo::neg %s)' % horner(-n)
    ds = []
    while True:
        ds.append(n % base)
        n //= base
        if not n:
            break
    t = str(ds[-1])
    for d in ds[-2::-1]:
        t = '(eo::add (eo::mul %s %d) %d)' % (t, base, d)
    return t


CAT = {'num': 'is_z', 'rat': 'is_q', 'bin': 'is_bin', 'str': 'is_str'}


def cat_checks(src, cat, T, show):
    for c, o in CAT.items():
        yield val('(eo::%s %s)' % (o, src), 'true' if c == cat else 'false', '%s is %sof the category %s' % (show, '' if c == cat else 'not ', c))
    yield val('(eo::typeof %s)' % src, T, 'type of ' + show)


def rdigits(r, n=None):
    n = n or r.choice([1, 1, 2, 3, 5, 9, 10, 18, 19, 20, 40, 100])
    return ''.join(r.choice('0123456789') for _ in range(n))


def short(s):
    return s if len(s) < 60 else s[:25] + '...(%d characters)' % len(s)


def lit_checks(r, mode):
    """a random spelling of a literal; checks of its category and value"""
    k = r.choice(['num', 'num', 'rat', 'dec', 'bin', 'hex'])
    sg = r.choice(['', '', '-'])
    if k == 'num':
        t = sg + '0' * r.choice([0, 0, 1, 3]) + rdigits(r)
        v = int(t)
        yield val(t, horner(v), '%s is %s' % (short(t), short(str(v))))
        yield from cat_checks(t, 'num', 'Int', short(t))
        yield val('(eo::is_neg %s)' % t, 'true' if v < 0 else 'false', 'sign of ' + short(t))
    elif k == 'rat':
        d = '0' * r.choice([0, 0, 1, 3]) + rdigits(r)
        if not int(d):
            d += '1'
        n = sg + '0' * r.choice([0, 0, 1, 3]) + rdigits(r)
        if r.random() < .3:
            n = sg + str(int(d) * r.randint(0, 9))
        t = n + '/' + d
        yield val(t, '(eo::qdiv %s %s)' % (horner(int(n)), horner(int(d))), '%s is the quotient' % short(t))
        yield from cat_checks(t, 'rat', 'Real', short(t))
    elif k == 'dec':
        n, d = '0' * r.choice([0, 0, 1, 3]) + rdigits(r), rdigits(r)
        t = sg + n + '.' + d
        q = '(eo::qdiv %s %s)' % (horner(int(sg + n + d)), horner(10 ** len(d)))
        if mode == 'proof':
            yield val(t, q, '%s is the quotient' % short(t))
            yield from cat_checks(t, 'rat', 'Real', short(t))
        else:
            yield val('(eo::to_q %s)' % t, q, '%s is the quotient' % short(t))
            yield val('(eo::typeof %s)' % t, 'DecT', 'type of ' + short(t))
            yield val('(eo::eq %s %s%s)' % (t, t, '0' * r.randint(1, 3)), 'true', 'trailing zeros of ' + short(t))
    elif k == 'bin':
        b = ''.join(r.choice('01') for _ in range(r.choice([1, 2, 3, 8, 31, 32, 33, 63, 64, 65, 200])))
        if r.random() < .2:
            b = r.choice('01') * len(b)
        t = '#b' + b
        yield val(t, '(eo::to_bin %d %s)' % (len(b), horner(int(b, 2))), short(t))
        yield val('(eo::len %s)' % t, str(len(b)), 'length of ' + short(t))
        yield val('(eo::to_z %s)' % t, horner(int(b, 2)), 'value of ' + short(t))
        yield from cat_checks(t, 'bin', 'BV', short(t))
    else:
        h = ''.join(r.choice('0123456789abcdefABCDEF') for _ in range(r.choice([1, 2, 3, 7, 8, 9, 16, 17, 60])))
        if r.random() < .2:
            h = r.choice('0fF8') * len(h)
        t = '#x' + h
        if mode == 'proof':
            yield val(t, '(eo::to_bin %d %s)' % (4 * len(h), horner(int(h, 16))), short(t))
            yield val('(eo::len %s)' % t, str(4 * len(h)), 'length of ' + short(t))
            yield from cat_checks(t, 'bin', 'BV', short(t))
        else:
            # of its own category
            yield val('(eo::typeof %s)' % t, 'HX', 'type of ' + short(t))
            yield val('(eo::eq %s #x%s)' % (t, h.swapcase()), 'true', 'digits of either case ' + short(t))
            yield val('(eo::eq %s #x0%s)' % (t, h), 'false', 'width of ' + short(t))


RESERVED = {'par', 'let', 'Bool', 'Type', '!', '_', '->', 'as', 'eo', 'true', 'false', 'Int', 'Real', 'DecT', 'Strg', 'BV', 'HX', 'P', 'U', 'a', 'b', 'f', 'w', 'Proof', 'quote', 'Quote'}
START = 'abcxyzABZ' + '+-/*=%?!.$_~&^<>@'


def rsym(r):
    while True:
        s = r.choice(START) + ''.join(r.choice(START + '0123456789:') for _ in range(r.choice([0, 1, 2, 5, 12])))
        if s not in RESERVED and not re.fullmatch(r'-[0-9]+([./][0-9]+)?', s) and not s.startswith('eo::'):
            return s


def rquoted(r):
    return ''.join(r.choice('ab01 \n\t;()"#:{}[]\',`\\' + START + '\xe9\xff\x80') for _ in range(r.choice([0, 1, 2, 5, 12])))


WS = [' ', '\n', '\t', '\r', '  ', '\r\n', ';\n', '; a comment\n', ';"\n', ';|\n', ';(\n', ';)\n', '; ;; (" | #b2 \\ \n', '\t \n', ';\xe9\xff\n', ';\r\n', '\n;\n;x\n', '; old\r(junk\n', ';\r)\r(\n', ';\t\x0b(\x0c\x7f|\n']


def tokens(s):
    return re.findall(r'"(?:[^"]|"")*"|\|[^|]*\||[()]|[^\s()"|]+', s)


BASE = '''(declare-const |k 1| U) (declare-const k2 (-> U U Bool)) (declare-consts <numeral> Int)
(define @d ((x U)) (f x |k 1|)) (step @1 (P (f a |k 1|)) :rule val :args ((@d a)))
(step @2 (P "a;b""c (d)") :rule val :args ((eo::concat "a;b" """c (d)")))
(step @3 (P -12) :rule val :args ((eo::add -20 8))) (step @4 (P 1/2) :rule val :args ((eo::qdiv 1 2)))
(step @5 (P #b0101) :rule val :args ((eo::concat #b01 #b01))) (assume @a0 (k2 a b))
(step @6 (k2 a b) :rule id :premises (@a0)) (declare-const |quoted| U) (step @7 (P quoted) :rule val :args (|quoted|))
(program $p ((x U) (y U)) :signature (U) U ( (($p (f x y)) y) (($p x) x) ))
(step @8 (P b) :rule val :args (($p (f a b))))
'''


def spaced(r, toks, p):
    o = ''
    prev = None
    for t in toks:
        if prev is not None:
            need = not (prev in '()' or t in '()' or t[0] in '"|' and prev[-1] not in '"' or prev[-1] in '"|' and t[0] not in '"|')
            if prev[-1] == '|' and t[0] == '|':
                need = False
            o += r.choice(WS) if r.random() < p else ' ' if need else ''
        o += t
        prev = t
    return o


def in_mode(mode, what, body, expect='correct'):
    if mode == 'proof':
        return Case(expect, what, files={'pre.eo': LPRE, 'main.smt3': '(include "pre.eo")\n' + body}, main='main.smt3')
    if mode == 'stdin':
        return Case(expect, what, files={'pre.eo': LPRE}, args=['--include=pre.eo'], stdin=body)
    return Case(expect, what, text=LPRE + body)


def cases_L02(r, tier):
    N_ = 60 if tier == 'quick' else 1500
    for i in range(N_):
        mode = 'proof' if i % 3 == 2 else 'sig'
        ch = [c for _ in range(12) for c in lit_checks(r, mode)]
        if mode == 'sig':
            yield Case('correct', 'literals', prelude=LPRE, checks=ch)
        else:
            yield in_mode(r.choice(['proof', 'stdin']), 'literals in a proof: ' + '; '.join(c[0] for c in ch)[:300], '\n'.join(c[1] for c in ch) + '\n')
    # long literals
    for n in (1000, 20000) if tier == 'quick' else (1000, 5000, 33000, 70000):
        d = r.choice('123456789') + rdigits(r, n - 1)
        k = n // 2
        # value through two halves and the zero padded spelling
        yield Case('correct', 'a numeral of %d digits' % n, text=LPRE + '(step @1 (P (eo::add (eo::mul %s 1%s) %s)) :rule val :args (%s))\n' % (d[:k], '0' * (n - k), d[k:], d))
        yield Case('correct', 'a decimal of %d digits' % n, text=LPRE + '(step @1 (P (eo::qdiv %s 1%s)) :rule val :args ((eo::to_q %s.%s)))\n' % (d, '0' * (n - k), d[:k], d[k:]))
        yield Case('correct', 'a rational of %d digits' % n, text=LPRE + '(step @1 (P (eo::qdiv %s %s)) :rule val :args (%s/%s))\n' % (d[:k], '1' + d[k:], d[:k], '1' + d[k:]))
        b = ''.join(r.choice('01') for _ in range(n))
        yield Case('correct', 'a bit-vector of %d bits' % n, text=LPRE + '(step @1 (P (eo::concat #b%s #b%s)) :rule val :args (#b%s))(step @2 (P %d) :rule val :args ((eo::len #b%s)))\n' % (b[:k], b[k:], b, n, b))
        s = ''.join(r.choice(START + '019') for _ in range(n))
        yield Case('correct', 'a symbol of %d characters' % n, text=LPRE + '(declare-const x%s U)(step @1 (P x%s) :rule val :args (|x%s|))\n' % (s, s, s))
        yield Case('error', 'symbols of %d characters that differ at the end' % n, text=LPRE + '(declare-const x%s U)(step @1 :rule val :args (|x%s|))\n' % (s, s[:-1] + ('a' if s[-1] != 'a' else 'b')))
    # symbols
    for i in range(N_):
        mode = r.choice(['sig', 'sig', 'proof', 'stdin'])
        names = []
        while len(names) < 6:
            s = rsym(r) if r.random() < .6 else rquoted(r)
            if s not in names and s not in RESERVED and not s.startswith(('@l', 'eo::')):
                names.append(s)
        simple = lambda s: re.fullmatch(r'[A-Za-z+\-/*=%?!.$_~&^<>@][A-Za-z0-9+\-/*=%?!.$_~&^<>@:]*', s) and not re.fullmatch(r'-[0-9]+([./][0-9]+)?', s)
        sp = lambda s: s if simple(s) and r.random() < .5 else '|%s|' % s
        ty = ['U', 'Int', 'Bool', 'Real', 'Strg', 'BV']
        o = ''
        for s, t in zip(names, ty):
            o += '(declare-const %s %s)\n' % (sp(s), t)
        for s, t in zip(names, ty):
            o += '(step %s (P %s) :rule val :args ((eo::typeof %s)))\n(step %s (P %s) :rule val :args (%s))\n' % (nm(), t, sp(s), nm(), sp(s), sp(s))
            if ascii(s)[1:-1] == s and '"' not in s:
                o += '(step %s (P "%s") :rule val :args ((eo::nameof %s)))\n' % (nm(), s, sp(s))
        yield in_mode(mode, 'symbols', o)
        s = r.choice(names)
        o = s + r.choice('ab0 ') if r.random() < .5 or not s else s[:-1] + ('a' if s[-1] != 'a' else 'b') if r.random() < .5 else ''.join(c.swapcase() if ord(c) < 128 else c for c in s)
        if o not in names and o not in RESERVED:
            yield in_mode(mode, 'symbols %r and %r differ' % (s, o), '(declare-const |%s| U)\n(step @1 :rule val :args (|%s|))\n' % (s, o), 'error')
    # white space and comments
    toks = tokens(BASE)
    yield in_mode('sig', 'the base text', BASE)
    yield in_mode('sig', 'as little white space as possible', spaced(r, toks, 0))
    for i in range(N_ * 2):
        mode = r.choice(['sig', 'sig', 'proof', 'stdin'])
        yield in_mode(mode, 'white space and comments', r.choice(['', ' ', '\n', ';x\n', '\r\n']) + spaced(r, toks, r.choice([.1, .5, 1])) + r.choice(['', ' ', '\n', ';', '; end', ';"', ';|', ';\n\n']))
    for w in ['', ' ', '\n', ';', '; c', ';\n', ';(', ';)\n']:
        yield Case('correct', 'an empty file', text=w)
        yield Case('correct', 'the end of the file', text=LPRE + w)
    # what white space separates
    for t1, t2 in [('ab', 'a b'), ('12', '1 2'), ('#b01', '#b0 1'), ('"ab"', '"a" "b"'), ('|a b|', '|a| b'), ('-1', '- 1'), ('1/2', '1 /2'), ('1.5', '1 .5')]:
        yield Case('error', '%s is not %s' % (t2, t1), text=LPRE + '(declare-const ab U)(declare-const |a b| U)(step @1 :rule val :args (%s))\n' % t2)
    for t1, t2 in [('"a b"', '"a  b"'), ('"a;b"', '"a"'), ('"a\nb"', '"a b"'), ('"a;x\nb"', '"ab"'), ('|a b|', '|a  b|'), ('|a;b\nc|', '|ac|'), ('|a\nb|', '|a b|'), ('12', '120'), ('12', '-12'), ('1/2', '2/1'), ('1/2', '12'), ('#b01', '#b1'), ('#b01', '#b010'), ('#b01', '#b10'), ('#x01', '#x1'), ('#xa', '#xb'), ('1/1', '1'), ('#b1', '1'), ('#b1', '#x1'), ('"1"', '1'), ('a', '"a"'), ('1.5', '1.05'), ('1.5', '15/10'), ('-1.5', '1.5'), ('0.5', '0.05')]:
        yield Case('error', '%s differs from %s' % (t1, t2), text=LPRE + ''.join('(declare-const %s U)\n' % t for t in (t1, t2) if t[0] == '|') + '(step @1 (P %s) :rule val :args (%s))\n' % (t1, t2))
    # rejected
    for t in ['#', '#b', '#x', '#b2', '#bx', '#b01 2', '#b012', '#xg', '#xag', '#y01', '#d12', '# b01', '1.', '1/', '1.x', '1/x', '1. 5', '1 .5', '1/ 2', '1/-2', '1.-2', '1/0', '1/00', '-3/0', '0/0', '1.5.2', '1/2/3', '1.5/2', '12a', '1_000', '1e5', '+5', '-', '--1', '-1-', '-1a', '-1.5a', '-1.', '-1/', '-.5', '-/5', '.5', '/5', '-1.5.2', '-1/2/3',
              '|abc', '|', '{', '}', '[', ']', '\\', "'", '`', ',', '\x01', '\x0b', '\x0c', '\x00', '\x7f', '\xe9', '\xff', 'a\xe9', 'a\x00', '|a\x00b|', '1\x00', '1\xe9', '\u00a01', ': a', ':', ':1', '0x1F', '0b01', '1,5', 'a,b', 'a\\b', "a'", 'a{', 'a[0]']:
        for mode in ('sig', 'proof', 'stdin'):
            yield in_mode(mode, 'not a term: %r' % t, '(declare-const |a\x01b| U)(step @1 :rule val :args (%s))\n' % t, 'error')
    for t in ['(assume @1 w', '(assume @1 w))', ')', '(', '()', '(assume @1 w)) (assume @2 w', '((assume @1 w))', 'assume @1 w', '(assume @1 w)(', '(assume @1 w) x', '(Assume @1 w)', '(|assume @1 w)', '(assume @1 ;w)', '(assume @1 ;w)\n', '(assume @1 |w )', '("assume" @1 w)', '(assume 1 w)', '(assume "a" w)', '(assume :a w)', '(declare-const 1 U)', '(declare-const #b1 U)', '(declare-const -1 U)', '(declare-const "a" U)', '(declare-const :a U)', '(declare-const -1/2 U)', '(assume#b1 w)']:
        for mode in ('sig', 'proof', 'stdin'):
            yield in_mode(mode, 'not a command: %r' % t, t, 'error')
    # tokens at the end of the input buffer
    offs = [-2, -1, 0, 1] if tier == 'quick' else list(range(-8, 9))
    for t, h in [('12345678', '(eo::add 12345000 678)'), ('-12345678', '(eo::neg (eo::add 12345000 678))'), ('123/456', '(eo::qdiv 123 456)'), ('#b010011', '(eo::concat #b010 #b011)'), ('|a b|', '|a b|'), ('abcdef', '|abcdef|'), ('|abcdef|', 'abcdef'), ('(f a b)', '(_ (_ f a) b)'), ('; c\n 12', '12'), ('"a b"', '(eo::concat "a" " b")'), ('eo::List::nil', '|eo::List::nil|'), ('true', '|true|'), ('a', 'a')]:
        for off in offs:
            for at in range(0, len(t) + 1) if tier != 'quick' else sorted({0, 1, len(t) // 2, len(t) - 1, len(t)}):
                head = LPRE + '(declare-const |a b| U)(declare-const abcdef U)(step @1 (P %s) :rule val :args (' % h
                pad = ';' * ((BUF + off - at - len(head) - 1) % BUF) + '\n'
                if off in (0, 1) or tier != 'quick':
                    yield Case('correct', '%s across the end of the input buffer' % t.strip(), text=pad + head + t + '))\n')
    for pad in (BUF - 1, BUF, BUF + 1, 2 * BUF - 1, 2 * BUF):
        for tail in ('(assume @1 w)', '(assume @1 w) ', ';', '|', '"', '(assume @1 w', ')'):
            tx = LPRE
            tx = tx + ' ' * (pad - len(tx) - len(tail)) + tail
            yield Case('correct' if tail[0] == ';' or tail.strip()[-1] == ')' and len(tail) > 1 else 'error', 'the end of the file at the end of the input buffer: %r' % tail, text=tx)


def cases(prop, r, tier):
    yield from globals()['cases_' + prop](r, tier)
