"""String literals: escape sequences, quotes and printing (L01).

Strings are sequences of char here (Domain(opaque_str=False))."""
import z3
from . import sorts as so
from .sorts import acc, mk, sort, vlen, I, B
from .c_state import Fn, S, Q, N
from .strs import CT, A, HEX, HEXAX, HV, HVAX, code, ln, arr, numText, numTextAxioms

CPS = ('vec', ('int', 32, False))      # code points
U32 = ('int', 32, False)
NCODES = 196608
BS, UU, LB, RB, QT = 92, 117, 123, 125, 34


def cps(v):
    return acc(CPS, 'arr', v)


def contracts(d):
    out = []
    a = z3.Const('a!t', A)
    n, i, j, k, m, p, c_ = z3.Ints('n!t i!t j!t k!t m!t p!t c!t')
    # ---- the meaning of a sequence of characters (SMT-LIB, as the manual defines it)
    ESC = d.ESC = z3.Function('escapeLength', A, I, I, I)        # length of the escape sequence at a position, 0 if there is none
    VAL = d.ESCV = z3.Function('escapeValue', A, I, I, I)
    POS = d.POS = z3.Function('position', A, I, I, I)            # where the k-th code point starts
    CODE = d.CODE = z3.Function('codePoint', A, I, I, I)         # the k-th code point
    PLAIN = z3.Function('noEscapeIn', A, I, I, I, B)
    W = z3.Function('consider', B, B)
    hexes = lambda o, cnt: z3.And([HEX(S(a, o + q)) >= 0 for q in range(cnt)])
    four = z3.And(i + 5 < n, hexes(i + 2, 4))
    brace = lambda q: z3.And(i + 3 + q < n, S(a, i + 2) == LB, hexes(i + 3, q), S(a, i + 3 + q) == RB, HV(a, i + 3, q) < NCODES)
    esc = z3.IntVal(0)
    for q in range(5, 0, -1):
        esc = z3.If(brace(q), z3.IntVal(q + 4), esc)
    esc = z3.If(z3.And(0 <= i, i + 1 < n, S(a, i) == BS, S(a, i + 1) == UU), z3.If(four, z3.IntVal(6), esc), z3.IntVal(0))
    step = lambda q: z3.If(ESC(a, n, q) > 0, ESC(a, n, q), 1)
    ax = [HEXAX] + HVAX + [
        Q([a, n, i], ESC(a, n, i) == esc, patterns=[ESC(a, n, i)]),
        Q([a, n, i], VAL(a, n, i) == z3.If(S(a, i + 2) == LB, HV(a, i + 3, ESC(a, n, i) - 4), HV(a, i + 2, 4)), patterns=[VAL(a, n, i)]),
        Q([a, n, k], z3.Implies(k == 0, POS(a, n, k) == 0), patterns=[POS(a, n, k)]),
        Q([a, n, k, m], z3.Implies(z3.And(k >= 0, m == k + 1), POS(a, n, m) == POS(a, n, k) + step(POS(a, n, k))), patterns=[so.MP(POS(a, n, k), POS(a, n, m))]),
        Q([a, n, k], CODE(a, n, k) == z3.If(ESC(a, n, POS(a, n, k)) > 0, VAL(a, n, POS(a, n, k)), code(S(a, POS(a, n, k)))), patterns=[CODE(a, n, k)]),
        Q([a, n, p, m], PLAIN(a, n, p, m) == Q([i], z3.Implies(z3.And(p <= i, i < p + m), ESC(a, n, i) == 0), patterns=[ESC(a, n, i)]), patterns=[PLAIN(a, n, p, m)]),
        Q([z3.Const('b!t', B)], W(z3.Const('b!t', B)), patterns=[W(z3.Const('b!t', B))])]
    PL = Q([a, n, p, m, k, j], z3.Implies(z3.And(PLAIN(a, n, p, m), POS(a, n, k) == p, 0 <= k, k <= j, j <= k + m), POS(a, n, j) == p + (j - k)), patterns=[so.MP(PLAIN(a, n, p, m), POS(a, n, k), POS(a, n, j))])
    base = d.axioms + d.qf_axioms + ax
    d.lemma_obs.append(('characters that start no escape are one position each (base)', [PLAIN(a, n, p, m), POS(a, n, k) == p, 0 <= k, j == k], POS(a, n, j) == p + (j - k), base))
    d.lemma_obs.append(('characters that start no escape are one position each (induction)', [PLAIN(a, n, p, m), POS(a, n, k) == p, 0 <= k, k <= j, j + 1 <= k + m, POS(a, n, j) == p + (j - k), i == p + (j - k), ESC(a, n, i) == ESC(a, n, i)],
                        POS(a, n, j + 1) == p + (j + 1 - k), base))

    q_ = 'ethos::String::'
    out.append(Fn(q_ + 'isDigit', lambda c: [('value', c.result() == z3.And(48 <= c.a(0), c.a(0) <= 57))]))
    out.append(Fn(q_ + 'isHexDigit', lambda c: [('value', c.result() == (HEX(c.a(0)) >= 0))], axioms=[HEXAX]))
    out.append(Fn(q_ + 'isPrintable', lambda c: [('value', c.result() == z3.And(32 <= c.a(0), c.a(0) <= 126))]))
    out.append(Fn(q_ + 'num_codes', lambda c: [('value', c.result() == NCODES)]))

    def added(c):
        v, w = c.a(1), c.new(1)
        yield 'one more character', vlen(CPS, w) == vlen(CPS, v) + 1
        yield 'the last is the character', S(cps(w), vlen(CPS, v)) == c.a(0)
        yield 'the others are kept', Q([j], z3.Implies(z3.And(0 <= j, j < vlen(CPS, v)), S(cps(w), j) == S(cps(v), j)), patterns=[S(cps(w), j)])
    # addCharToInternal is inlined

    def ti_post(c):
        s, r = N(c, c.a(0)), N(c, c.result())
        A_, L, R = arr(s), ln(s), cps(r)
        yield 'every character is read', z3.Implies(c.a(1), POS(A_, L, vlen(CPS, r)) == L)
        yield 'the code points', z3.Implies(c.a(1), Q([k], z3.Implies(z3.And(0 <= k, k < vlen(CPS, r)), S(R, k) == CODE(A_, L, k)), patterns=[S(R, k)]))
        yield 'code points are in range', Q([k], z3.Implies(z3.And(0 <= k, k < vlen(CPS, r)), z3.And(0 <= S(R, k), S(R, k) < NCODES)), patterns=[S(R, k)])
        yield 'one code point per character', z3.Implies(z3.Not(c.a(1)), vlen(CPS, r) == L)
        yield 'the characters', z3.Implies(z3.Not(c.a(1)), Q([k], z3.Implies(z3.And(0 <= k, k < L), S(R, k) == code(S(A_, k))), patterns=[S(R, k)]))

    d.ti_post = ti_post

    def outer(cx):
        c = cx.callctx()
        s, r = N(c, c.a(0)), N(cx, cx.v('str', CPS))
        A_, L, R, lr, ix = arr(s), ln(s), cps(r), vlen(CPS, r), cx.v('i', U32)
        b = cx.before('i', U32)
        w = (lambda g: z3.Implies(W(PLAIN(A_, L, b, ix - b)), g)) if b is not None else (lambda g: g)
        rb = cx.before('str', CPS)
        if b is not None:
            # terms for the instantiation of the axioms: the code points added in this iteration start at the old position
            w0 = w
            w = lambda g: z3.Implies(W(POS(A_, L, vlen(CPS, rb)) == b), w0(g))
        yield 'range', z3.And(0 <= ix, ix <= L)
        yield 'everything before the position is read', w(z3.Implies(c.a(1), POS(A_, L, lr) == ix))
        yield 'the code points so far', z3.Implies(c.a(1), Q([k], z3.Implies(z3.And(0 <= k, k < lr), w(S(R, k) == CODE(A_, L, k))), patterns=[S(R, k)]))
        yield 'code points are in range', Q([k], z3.Implies(z3.And(0 <= k, k < lr), z3.And(0 <= S(R, k), S(R, k) < NCODES)), patterns=[S(R, k)])
        yield 'the characters so far', z3.Implies(z3.Not(c.a(1)), z3.And(lr == ix, Q([k], z3.Implies(z3.And(0 <= k, k < lr), S(R, k) == code(S(A_, k))), patterns=[S(R, k)])))

    def inner(cx):
        c = cx.callctx()
        s = N(c, c.a(0))
        A_, L, ix = arr(s), ln(s), cx.v('i', U32)
        i0 = cx.at_entry('i', U32) - 2
        h = N(cx, cx.v('hexString', ('cls', 'SStr')))
        t = N(cx, acc(('cls', 'SStr'), 'd_text', h))
        ca = N(cx, cx.v('nonEscCache', CPS))
        br, stt = cx.v('hasBrace'), cx.v('isStart')
        off = z3.If(br, i0 + 3, i0 + 2)
        yield 'range', z3.And(i0 + 2 <= ix, ix <= L)
        yield 'no end so far', z3.And(z3.Not(cx.v('isEnd')), cx.v('isEscapeSequence'))
        yield 'the start', stt == (ix == i0 + 2)
        yield 'the brace', z3.If(br, z3.And(ix >= i0 + 3, S(A_, i0 + 2) == LB, ln(t) <= 5), ln(t) <= 3)
        yield 'the digits', z3.And(ln(t) == ix - off, ln(t) >= 0, acc(('cls', 'SStr'), 'd_base', h) == 10, Q([j], z3.Implies(z3.And(0 <= j, j < ln(t)), z3.And(S(arr(t), j) == S(A_, off + j), HEX(S(arr(t), j)) >= 0)), patterns=[S(arr(t), j)]))
        yield 'the characters read', z3.And(vlen(CPS, ca) == ix - i0, Q([j], z3.Implies(z3.And(0 <= j, j < ix - i0), z3.And(S(cps(ca), j) == code(S(A_, i0 + j)))), patterns=[S(cps(ca), j)]))
        yield 'no backslash in them', Q([p], z3.Implies(z3.And(i0 < p, p < ix), S(A_, p) != BS), patterns=[S(A_, p)])
        yield 'only digits after the start', Q([p], z3.Implies(z3.And(off <= p, p < ix), HEX(S(A_, p)) >= 0), patterns=[S(A_, p)])
    out.append(Fn(q_ + 'toInternal', ti_post, given=lambda c: [ln(c.a(0)) < 2 ** 31], loops={0: outer, 1: inner}, axioms=ax + [PL], assumes=['strings have less than 2^31 characters']))

    # ---- printing: every code point is written as itself or as an escape sequence, which reads back as the code point
    v = z3.Const('v!t', A)                                         # code points
    u = z3.Const('u!t', B)
    WID = z3.Function('printedWidth', I, B, I)
    OFF = z3.Function('printedOffset', A, B, I, I)
    WR = z3.Function('writtenAt', A, I, I, B, B)
    PR = z3.Function('printedAs', A, I, A, B, I, B)
    plain = z3.And(32 <= c_, c_ <= 126, c_ != BS, z3.Not(u))
    D = numText(z3.IntVal(16), c_)
    px = ax + numTextAxioms() + [
        Q([c_, u], WID(c_, u) == z3.If(plain, 1, 4 + ln(D)), patterns=[WID(c_, u)]),
        Q([v, u, k], z3.Implies(k == 0, OFF(v, u, k) == 0), patterns=[OFF(v, u, k)]),
        Q([v, u, k, m], z3.Implies(z3.And(k >= 0, m == k + 1), OFF(v, u, m) == OFF(v, u, k) + WID(S(v, k), u)), patterns=[so.MP(OFF(v, u, k), OFF(v, u, m))]),
        Q([a, i, c_, u], WR(a, i, c_, u) == z3.If(plain, S(a, i) == c_, z3.And(S(a, i) == BS, S(a, i + 1) == UU, S(a, i + 2) == LB, z3.And([z3.Implies(q < ln(D), z3.And(S(a, i + 3 + q) == S(arr(D), q), HEX(S(a, i + 3 + q)) >= 0)) for q in range(5)]),
                                                                               S(a, i + 3 + ln(D)) == RB)), patterns=[WR(a, i, c_, u)]),
        Q([a, n, v, u, m], PR(a, n, v, u, m) == Q([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(0 <= S(v, k), S(v, k) < NCODES, OFF(v, u, k) >= 0, OFF(v, u, k) + WID(S(v, k), u) <= n, WR(a, OFF(v, u, k), S(v, k), u))),
                                                  patterns=[OFF(v, u, k)]), patterns=[PR(a, n, v, u, m)])]
    PRL = Q([a, n, v, u, m, k], z3.Implies(z3.And(PR(a, n, v, u, m), 0 <= k, k <= m), POS(a, n, k) == OFF(v, u, k)), patterns=[so.MP(PR(a, n, v, u, m), POS(a, n, k))])
    PRC = Q([a, n, v, u, m, k], z3.Implies(z3.And(PR(a, n, v, u, m), 0 <= k, k < m), CODE(a, n, k) == S(v, k)), patterns=[so.MP(PR(a, n, v, u, m), CODE(a, n, k))])
    base = d.axioms + d.qf_axioms + px
    d.lemma_obs.append(('a printed string is read where it was written (base)', [PR(a, n, v, u, m), k == 0], POS(a, n, k) == OFF(v, u, k), base))
    d.lemma_obs.append(('a printed string is read where it was written (induction)', [PR(a, n, v, u, m), 0 <= k, k < m, POS(a, n, k) == OFF(v, u, k), j == k + 1, ESC(a, n, OFF(v, u, k)) == p], POS(a, n, j) == OFF(v, u, j), base))
    d.lemma_obs.append(('a printed string is read as it was', [PR(a, n, v, u, m), 0 <= k, k < m, POS(a, n, k) == OFF(v, u, k), ESC(a, n, OFF(v, u, k)) == p, VAL(a, n, OFF(v, u, k)) == c_], CODE(a, n, k) == S(v, k), base))

    def ts_post(c):
        x, r = N(c, c.selfv()), N(c, c.result())
        yield 'every character belongs to a code point', z3.Implies(W(PR(arr(r), ln(r), cps(x), c.a(0), vlen(CPS, x))), POS(arr(r), ln(r), vlen(CPS, x)) == ln(r))
        yield 'reading it yields the code points', Q([k], z3.Implies(z3.And(0 <= k, k < vlen(CPS, x)), z3.Implies(W(PR(arr(r), ln(r), cps(x), c.a(0), vlen(CPS, x))), CODE(arr(r), ln(r), k) == S(cps(x), k))), patterns=[S(cps(x), k)])
        yield 'no quote but as a code point', Q([p], z3.Implies(z3.And(0 <= p, p < ln(r)), z3.And(32 <= S(arr(r), p), S(arr(r), p) <= 126)), patterns=[S(arr(r), p)])

    def tsloop(cx):
        c = cx.callctx()
        x, ix = N(c, c.selfv()), cx.v('i', U32)
        h = cx.v('str', ('cls', 'SStr'))
        t = N(cx, acc(('cls', 'SStr'), 'd_text', h))
        X, L = cps(x), vlen(CPS, x)
        b = cx.before('i', U32)
        w = (lambda g: z3.Implies(W(z3.And(OFF(X, c.a(0), b) >= 0, WR(arr(t), OFF(X, c.a(0), b), S(X, b), c.a(0)))), g)) if b is not None else (lambda g: g)
        yield 'range', z3.And(0 <= ix, ix <= L)
        yield 'the length so far', z3.And(acc(('cls', 'SStr'), 'd_base', h) == 10, ln(t) >= 0, w(ln(t) == OFF(X, c.a(0), ix)))
        yield 'printed so far', Q([k], z3.Implies(z3.And(0 <= k, k < ix), z3.And(OFF(X, c.a(0), k) >= 0, w(OFF(X, c.a(0), k) + WID(S(X, k), c.a(0)) <= ln(t)), w(WR(arr(t), OFF(X, c.a(0), k), S(X, k), c.a(0))))), patterns=[OFF(X, c.a(0), k)])
        yield 'printable', Q([p], z3.Implies(z3.And(0 <= p, p < ln(t)), z3.And(32 <= S(arr(t), p), S(arr(t), p) <= 126)), patterns=[S(arr(t), p)])
    d.POSAX, d.W = px, W
    out.append(Fn(q_ + 'toString', ts_post, given=lambda c: [vlen(CPS, c.selfv()) < 2 ** 31, Q([k], z3.Implies(z3.And(0 <= k, k < vlen(CPS, c.selfv())), z3.And(0 <= S(cps(N(c, c.selfv())), k), S(cps(N(c, c.selfv())), k) < NCODES)), patterns=[S(cps(N(c, c.selfv())), k)])],
                  loops={0: tsloop}, axioms=px + [PRL, PRC], assumes=['strings have less than 2^31 characters', 'the code points of a string are below 196608 (asserted by String::String, established by toInternal)']))
    return out
