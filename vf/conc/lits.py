"""Literals and the reference semantics of the operators on them."""
from fractions import Fraction


class Num:
    cat = 'num'

    def __init__(s, v): s.v = v
    def text(s): return str(s.v)


class Rat:
    cat = 'rat'

    def __init__(s, v): s.v = Fraction(v)
    def text(s): return '%d/%d' % (s.v.numerator, s.v.denominator)


class Dec:
    cat = 'dec'

    def __init__(s, v): s.v = Fraction(v)

    def text(s):
        v, neg = abs(s.v), s.v < 0
        d = 0
        x = v
        while x.denominator != 1:
            x *= 10
            d += 1
        t = str(int(x)).rjust(d + 1, '0')
        t = t[:len(t) - d] + '.' + (t[len(t) - d:] if d else '0')
        return ('-' if neg else '') + t


class Bin:
    cat = 'bin'

    def __init__(s, w, v): s.w, s.v = w, v % (2 ** w)
    def bits(s): return '#b' + (bin(s.v)[2:].rjust(s.w, '0') if s.w else '')
    # the lexer has no literal of width 0
    def text(s): return s.bits() if s.w else '(eo::to_bin 0 0)'


class Hex(Bin):
    cat = 'hex'
    def bits(s): return '#x' + (hex(s.v)[2:].rjust(s.w // 4, '0') if s.w else '')
    def text(s): return s.bits() if s.w else '(eo::extract #x0 1 0)'


class Str:
    cat = 'str'

    def __init__(s, c): s.c = tuple(ord(x) if isinstance(x, str) else x for x in c)

    def text(s):
        o = ''
        for c in s.c:
            if c == 34:
                o += '""'
            elif 32 <= c <= 126 and c != 92:
                o += chr(c)
            else:
                o += '\\u{%x}' % c
        return '"' + o + '"'


class Bool:
    cat = 'bool'

    def __init__(s, b): s.b = b
    def text(s): return 'true' if s.b else 'false'


def key(x):
    return (x.cat,) + tuple(sorted(x.__dict__.items()))


def ediv(a, b):
    r = a % abs(b)
    return (a - r) // b, r


def floor(q):
    return q.numerator // q.denominator


CODES = 196608
U = 2 ** 32


def fold(f, l):
    r = l[0]
    for x in l[1:]:
        r = f(r, x)
    return r


def evaluate(op, a):
    """value of (eo::op a...), None if it stays unevaluated"""
    cats = {x.cat for x in a}
    c = a[0].cat
    n = len(a)
    bv = c in ('bin', 'hex')
    ar = c in ('num', 'rat', 'dec')
    if op in ('and', 'or', 'xor', 'add', 'mul', 'concat'):
        if n < 2 or len(cats) != 1:
            return None
        if op in ('and', 'or', 'xor'):
            if c == 'bool':
                f = {'and': lambda x, y: x and y, 'or': lambda x, y: x or y, 'xor': lambda x, y: x != y}[op]
                return Bool(fold(f, [x.b for x in a]))
            if bv and len({x.w for x in a}) == 1:
                f = {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}[op]
                return type(a[0])(a[0].w, fold(f, [x.v for x in a]))
            return None
        if op in ('add', 'mul'):
            f = (lambda x, y: x + y) if op == 'add' else (lambda x, y: x * y)
            if ar:
                return type(a[0])(fold(f, [x.v for x in a]))
            if bv and len({x.w for x in a}) == 1:
                return type(a[0])(a[0].w, fold(f, [x.v for x in a]))
            return None
        if c == 'str':
            return Str(sum((x.c for x in a), ()))
        if bv:
            w = sum(x.w for x in a)
            v = 0
            for x in a:
                v = v * 2 ** x.w + x.v
            return type(a[0])(w, v) if w < U else None
        return None
    if op in ('not', 'neg', 'is_neg', 'len', 'to_z', 'to_q', 'to_str'):
        if n != 1:
            return None
        x = a[0]
        if op == 'not':
            return Bool(not x.b) if c == 'bool' else type(x)(x.w, ~x.v) if bv else None
        if op == 'neg':
            return type(x)(-x.v) if ar else type(x)(x.w, -x.v) if bv else None
        if op == 'is_neg':
            return Bool(x.v < 0) if ar else None
        if op == 'len':
            return Num(x.w) if c == 'bin' else Num(len(x.c)) if c == 'str' else None
        if op == 'to_z':
            if c == 'num':
                return x
            if c in ('rat', 'dec'):
                return Num(floor(x.v))
            if c == 'bin':
                return Num(x.v)
            if c == 'str' and len(x.c) == 1:
                return Num(x.c[0])
            return None
        if op == 'to_q':
            return Rat(x.v) if ar else None
        if op == 'to_str':
            if c == 'str':
                return x
            if c == 'num':
                return Str([x.v]) if 0 <= x.v < CODES else None
            if c == 'rat':
                return Str(x.text())
            if bv:
                return Str(x.bits())
            return None
    if op in ('zdiv', 'zmod', 'qdiv', 'gt', 'find', 'to_bin'):
        if n != 2:
            return None
        x, y = a
        if op == 'to_bin':
            if c == 'num' and 0 <= x.v < U and y.cat in ('num', 'bin', 'hex'):
                return Bin(x.v, y.v)
            return None
        if len(cats) != 1:
            return None
        if op in ('zdiv', 'zmod'):
            if c == 'num' and y.v != 0:
                q, r = ediv(x.v, y.v)
                return Num(q if op == 'zdiv' else r)
            if bv and x.w == y.w:
                if y.v == 0:
                    return type(x)(x.w, 2 ** x.w - 1 if op == 'zdiv' else x.v)
                return type(x)(x.w, x.v // y.v if op == 'zdiv' else x.v % y.v)
            return None
        if op == 'qdiv':
            return Rat(Fraction(x.v) / Fraction(y.v)) if ar and y.v != 0 else None
        if op == 'gt':
            return Bool(x.v > y.v) if ar or bv else None
        if op == 'find':
            if c != 'str':
                return None
            for i in range(len(x.c) - len(y.c) + 1):
                if x.c[i:i + len(y.c)] == y.c:
                    return Num(i)
            return Num(-1)
    if op == 'extract':
        if n != 3:
            return None
        x, i, j = a
        if i.cat != 'num' or j.cat != 'num':
            return None
        i, j = i.v, j.v
        if c == 'str':
            return Str(x.c[i:j + 1] if i >= 0 and j >= 0 else ())
        if bv:
            if i < 0 or j < 0 or i >= x.w or j < i:
                return type(x)(0, 0)
            j = min(j, x.w - 1)
            return type(x)(j - i + 1, x.v >> i)
        return None
    raise ValueError(op)


PRELUDE = '''(declare-const Int Type)
(declare-const Real Type)
(declare-const DecT Type)
(declare-const Strg Type)
(declare-const BV Type)
(declare-const HX Type)
(declare-consts <numeral> Int)
(declare-consts <rational> Real)
(declare-consts <decimal> DecT)
(declare-consts <string> Strg)
(declare-consts <binary> BV)
(declare-consts <hexadecimal> HX)
(declare-parameterized-const P ((T Type :implicit)) (-> T Bool))
(declare-rule val ((T Type) (x T)) :args (x) :conclusion (P x))
'''


def rules(op, n):
    vs = ['x%d' % i for i in range(n)]
    ps = ' '.join('(T%d Type) (%s T%d)' % (i, v, i) for i, v in enumerate(vs))
    app = '(eo::%s %s)' % (op, ' '.join(vs))
    return ('(declare-rule val-%s-%d (%s) :args (%s) :conclusion (P %s))\n' % (op, n, ps, ' '.join(vs), app) +
            '(declare-rule ok-%s-%d (%s) :args (%s) :conclusion (P (eo::is_ok %s)))' % (op, n, ps, ' '.join(vs), app))


_n = [0]


def checks_for(op, a, route):
    """lines asserting the value of (eo::op a...)"""
    v = evaluate(op, a)
    app = '(eo::%s %s)' % (op, ' '.join(x.text() for x in a))
    args = ' '.join(x.text() for x in a)
    _n[0] += 1
    nm = '@p%d' % _n[0]
    if v is None:
        if route == 0:
            return ('%s stays unevaluated' % app, '(step %s (P false) :rule val :args ((eo::is_ok %s)))' % (nm, app))
        return ('%s stays unevaluated' % app, '(step %s (P false) :rule ok-%s-%d :args (%s))' % (nm, op, len(a), args))
    if route == 0:
        return ('%s evaluates to %s' % (app, v.text()), '(step %s (P %s) :rule val :args (%s))' % (nm, v.text(), app))
    return ('%s evaluates to %s' % (app, v.text()), '(step %s (P %s) :rule val-%s-%d :args (%s))' % (nm, v.text(), op, len(a), args))
