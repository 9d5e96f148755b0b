"""Operators on literals: A01, A02, A03 and the Boolean part of A04."""
import random
from fractions import Fraction
from .core import Case
from .lits import *

ARITY = {'and': (2, 3, 4), 'or': (2, 3, 4), 'xor': (2, 3, 4), 'add': (2, 3, 4), 'mul': (2, 3, 4), 'concat': (2, 3, 4),
         'not': (1,), 'neg': (1,), 'is_neg': (1,), 'len': (1,), 'to_z': (1,), 'to_q': (1,), 'to_str': (1,),
         'zdiv': (2,), 'zmod': (2,), 'qdiv': (2,), 'gt': (2,), 'find': (2,), 'to_bin': (2,), 'extract': (3,)}
INTS = [0, 1, -1, 2, -2, 3, -3, 5, 7, -7, 10, 12, -12, 65, 255, 256, 2**31 - 1, 2**31, -2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, -2**63,
        2**64 - 1, 2**64, 10**30, -10**30, 196607, 196608, 36, 37, 100]


def rint(r):
    k = r.random()
    if k < 0.6:
        return r.choice(INTS)
    if k < 0.9:
        return r.randint(-30, 30)
    return r.randint(-2**r.randint(1, 140), 2**r.randint(1, 140))


def rfrac(r):
    k = r.random()
    if k < 0.3:
        return Fraction(rint(r))
    return Fraction(r.randint(-40, 40) if k < 0.8 else rint(r), r.choice([1, 2, 3, 4, 5, 6, 7, 10, 2**33, 10**20]))


def rdec(r):
    return Fraction(r.randint(-4000, 4000) if r.random() < .8 else rint(r), 10 ** r.randint(0, 5))


def rbv(r, w=None, cls=Bin):
    if w is None:
        w = r.choice([0, 1, 1, 2, 3, 4, 4, 5, 7, 8, 16, 31, 32, 33, 64, 65, 100])
    if cls is Hex:
        w = 4 * ((w + 3) // 4)
        if w == 0:
            w = 4
    v = r.choice([0, 1, 2**w - 1, 2**w >> 1, r.getrandbits(w) if w else 0, r.getrandbits(w) if w else 0])
    return cls(w, v)


def rstr(r, n=None, alpha=None):
    n = r.choice([0, 0, 1, 1, 2, 3, 4, 5, 8]) if n is None else n
    alpha = alpha or r.choice(['a', 'ab', 'ab', 'abc"\\ {}u', [0, 9, 10, 31, 32, 126, 127, 128, 255, 256, 0xfff, 0xffff, 0x10000, 0x2ffff, 97, 34, 92]])
    return Str([r.choice(alpha) for _ in range(n)])


def anylit(r, nodec=True):
    k = r.randint(0, 7)
    return [lambda: Num(rint(r)), lambda: Rat(rfrac(r)), lambda: rbv(r), lambda: rstr(r), lambda: Bool(r.random() < .5),
            lambda: Num(r.randint(0, 4)), lambda: Dec(rdec(r)), lambda: rbv(r, None, Hex)][k if not nodec else k % 6]()


def args_for(r, op, fam, n, raw):
    """arguments biased to the family of the property"""
    if r.random() < 0.08:
        return [anylit(r, not raw) for _ in range(n)]
    if fam == 'arith':
        g = r.choice([lambda: Num(rint(r)), lambda: Num(r.randint(-9, 9)), lambda: Rat(rfrac(r))] + ([lambda: Dec(rdec(r))] if raw else []))
        if op == 'zdiv' or op == 'zmod':
            g = r.choice([lambda: Num(rint(r)), lambda: Num(r.randint(-9, 9)), lambda: Num(r.randint(-9, 9))])
        return [g() for _ in range(n)]
    if fam == 'bv':
        cls = Hex if raw and r.random() < .4 else Bin
        if op == 'extract':
            x = rbv(r, None, cls)
            idx = lambda: Num(r.choice([0, 1, -1, x.w - 1, x.w, x.w + 1, r.randint(0, max(x.w, 1)), r.randint(0, max(x.w, 1)), 2**32, 2**32 + 1, 2**64]))
            return [x, idx(), idx()]
        if op == 'to_bin':
            w = Num(r.choice([0, 1, 2, 3, 4, 7, 8, 33, 64, -1, 2**32, 2**33 + 4]))
            return [w, r.choice([rbv(r, None, cls), Num(abs(rint(r)))])]
        if op == 'concat':
            return [rbv(r, None, cls) for _ in range(n)]
        w = r.choice([0, 1, 2, 3, 4, 8, 8, 31, 32, 33, 64])
        return [rbv(r, w if r.random() < .95 else None, cls) for _ in range(n)]
    if fam == 'str':
        if op == 'extract':
            x = rstr(r)
            L = len(x.c)
            idx = lambda: Num(r.choice([0, 1, -1, L - 1, L, L + 1, r.randint(0, L + 1), 2**32, 2**32 + 1, 2**64]))
            return [x, idx(), idx()]
        if op == 'find':
            h = rstr(r, r.randint(0, 9), 'ab')
            if r.random() < .5 and h.c:
                i = r.randint(0, len(h.c))
                j = r.randint(i, len(h.c))
                return [h, Str(h.c[i:j])]
            return [h, rstr(r, r.randint(0, 4), 'ab')]
        if op == 'to_str':
            return [r.choice([Num(rint(r)), Num(r.randint(0, 196607)), Rat(rfrac(r)), rbv(r), rstr(r), Num(r.choice([0, 196607, 196608, -1, 2**32, 2**32 + 65]))])]
        if op == 'to_z':
            return [rstr(r, r.choice([0, 1, 1, 1, 2]))]
        return [rstr(r) for _ in range(n)]
    return [Bool(r.random() < .5) for _ in range(n)]


FAM = {
    'A01': ('arith', ['add', 'mul', 'neg', 'zdiv', 'zmod', 'qdiv', 'is_neg', 'gt', 'to_z', 'to_q']),
    'A02': ('bv', ['and', 'or', 'xor', 'not', 'add', 'mul', 'neg', 'zdiv', 'zmod', 'concat', 'extract', 'len', 'to_z', 'to_bin']),
    'A03': ('str', ['concat', 'len', 'extract', 'find', 'to_z', 'to_str']),
    'A04': ('bool', ['and', 'or', 'not', 'xor']),
}


def exhaustive(fam, ops):
    """all small argument combinations"""
    import itertools
    if fam == 'arith':
        S = [Num(i) for i in range(-5, 6)] + [Rat(Fraction(a, b)) for a in range(-3, 4) for b in (1, 2, 3)]
        S = list({key(x): x for x in S}.values())
    elif fam == 'bv':
        S = [Bin(w, v) for w in range(0, 4) for v in range(2 ** w)] + [Num(i) for i in range(-1, 5)]
    elif fam == 'str':
        S = [Str(x) for n in range(0, 4) for x in itertools.product('ab', repeat=n)] + [Num(i) for i in range(-1, 5)]
    else:
        S = [Bool(True), Bool(False), Num(0), Bin(1, 1), Str('t')]
    for op in ops:
        n = ARITY[op][0]
        if n == 3:
            X = [s for s in S if s.cat != 'num']
            N = [s for s in S if s.cat == 'num']
            it = itertools.product(X, N, N)
        else:
            it = itertools.product(S, repeat=n)
        for a in it:
            yield op, list(a)


def cases(prop, r, tier):
    fam, ops = FAM[prop]
    # derived expression results are checked on both routes: literal arguments and instantiated parameters
    per = 200
    cur = {}

    def flush(k):
        raw = k
        l = cur.pop(k)
        pre = PRELUDE + '\n'.join(sorted({rules(op, n) for op, n in l[1]}))
        return Case('correct', 'operators', prelude=pre, checks=l[0], args=['--no-normalize-dec', '--no-normalize-hex'] if raw else [])

    def add(op, a, raw, route):
        l = cur.setdefault(raw, ([], set()))
        l[0].append(checks_for(op, a, route))
        l[1].add((op, len(a)))
        return len(l[0]) >= per
    m = 0
    for op, a in exhaustive(fam, ops):
        m += 1
        if add(op, a, False, m % 2):
            yield flush(False)
    N = 4000 if tier == 'quick' else 200000
    for i in range(N):
        op = r.choice(ops)
        raw = r.random() < .25
        n = r.choice(ARITY[op])
        a = args_for(r, op, fam, n, raw)
        if not raw and any(x.cat in ('dec', 'hex') for x in a):
            raw = True
        if op == 'to_str' and a[0].cat == 'dec':
            continue
        if op == 'gt' and len(a) == 2 and a[0].cat in ('bin', 'hex') and a[0].cat == a[1].cat:
            continue     # the manual leaves comparison of bit-vectors open
        if op == 'to_bin' and (a[1].cat == 'num' and a[1].v < 0 or a[0].cat == 'num' and 10000 < a[0].v < 2 ** 32):
            continue
        if op in ('len', 'to_z') and a[0].cat == 'hex':
            continue
        v = evaluate(op, a)
        if v is not None and v.cat == 'hex' and v.w % 4:
            continue     # has no spelling
        if add(op, a, raw, r.randint(0, 1)):
            yield flush(raw)
    for k in list(cur):
        yield flush(k)
