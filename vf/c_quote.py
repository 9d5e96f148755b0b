"""From tokens to texts: quotes, keywords and symbols (L01, L02)."""
import z3
from . import sorts as so
from .sorts import acc, mk, sort, vlen, I, B
from .c_state import Fn, S, Q
from .strs import CT, A, ln, arr
from .stdlib import powi
from .domain import kind as d_kind, NULLP
from . import c_lex

EP = 'ethos::ExprParser::'


def contracts(d):
    out = c_lex.contracts(d)
    L = d.lexspec
    tok, T = L['tok'], L['T']
    VS = sort(CT)
    t, v = z3.Consts('t!u v!u', VS)
    i, j, k = z3.Ints('i!u j!u k!u')
    # ---- "" between the quotes stands for one quote
    POS = z3.Function('sourceOf', VS, I, I)          # where the k-th character of the text was in the token
    at = lambda x: S(arr(t), x)
    pos = [Q([t], POS(t, 0) == 1, patterns=[POS(t, 0)]),
           Q([t, k, j], z3.Implies(z3.And(k >= 0, j == k + 1), POS(t, j) == POS(t, k) + z3.If(at(POS(t, k)) == 34, 2, 1)), patterns=[so.MP(POS(t, k), POS(t, j))])]
    UNQ = z3.Function('unquoted', VS, VS, B)
    W = z3.Function('always!u', I, B)
    ax = pos + [Q([j], W(j), patterns=[W(j)]),
                Q([t, v], UNQ(t, v) == z3.And(ln(v) >= 0, POS(t, ln(v)) >= ln(t) - 1, z3.Implies(ln(v) > 0, POS(t, ln(v) - 1) < ln(t) - 1),
                                              Q([k], z3.Implies(z3.And(0 <= k, k < ln(v)), z3.And(S(arr(v), k) == at(POS(t, k)), 0 <= S(arr(v), k))), patterns=[S(arr(v), k)])), patterns=[UNQ(t, v)])]
    d.unq = UNQ

    def old(c):
        s = c.old or c.st
        return c.ex.rv(c.args[0], s) if not z3.is_expr(c.args[0]) else c.args[0]

    def un(c):
        yield 'the text between the quotes', UNQ(c.a(0), c.new(0))
    EXT = z3.Function('unprintable', VS, B)
    wit = z3.Function('unprintableAt', VS, I)
    wi = wit(t)
    nonascii = lambda x: z3.Or(x < 0, x > 127)
    ax += [Q([t], z3.Implies(EXT(t), z3.And(1 <= wi, wi < ln(t) - 1, nonascii(at(wi)))), patterns=[EXT(t)]),
           Q([t, j], z3.Implies(z3.And(1 <= j, j < ln(t) - 1, nonascii(at(j))), EXT(t)), patterns=[so.MP(EXT(t), at(j))])]

    def l0(cx):
        x, ix, z = cx.v('s', CT), cx.v('i', ('int', 64, False)), cx.v('ssize', ('int', 64, False))
        yield 'range', z3.And(0 <= ix, ix <= ln(x), z == ln(x))
        yield 'all ASCII', Q([j], z3.Implies(z3.And(0 <= j, j < ix), z3.And(0 <= S(arr(x), j), S(arr(x), j) <= 127)), patterns=[S(arr(x), j)])

    def l1(cx):
        c = cx.callctx()
        x, src, dst = cx.v('s', CT), cx.v('src', ('int', 64, False)), cx.v('dst', ('int', 64, False))
        t0 = c.a(0)
        o = lambda y: S(arr(t0), y)
        yield 'range', z3.And(0 <= dst, dst <= src, ln(x) == ln(t0) - 2, src <= ln(x) + 1)
        yield 'position', z3.And(POS(t0, dst) == src + 1, z3.Implies(dst > 0, POS(t0, dst - 1) < ln(t0) - 1))
        yield 'text so far', Q([j], z3.Implies(z3.And(0 <= j, j < dst, j < ln(x)), S(arr(x), j) == o(POS(t0, j))), patterns=[S(arr(x), j)])
        yield 'the rest', Q([j], z3.Implies(z3.And(src <= j, j < ln(x)), S(arr(x), j) == o(j + 1)), patterns=[S(arr(x), j)])
        yield 'all ASCII', Q([j], z3.Implies(z3.And(0 <= j, j < ln(x)), z3.And(0 <= S(arr(x), j), S(arr(x), j) <= 127)), patterns=[S(arr(x), j)])
    us = Fn(EP + 'unescapeString', un, given=lambda c: [ln(c.a(0)) >= 2], mods=lambda c: [c.lv(0)], loops={0: l0, 1: l1}, axioms=ax, assumes=['isprint in the C locale: the characters from 32 to 126'])
    us.rejects = ('a character is not ASCII', lambda c: EXT(c.a(0)))
    out.append(us)

    # ---- the text of a token
    ip, inv, lp, inpc, SK, TXT0 = L['inpc'], L['inv'], L['lp'], L['inpc'], L['SK'], L['TXT0']
    m = z3.Int('m!u')
    tl = lambda c: [ln(tok(c)) >= 1, S(arr(tok(c)), ln(tok(c)) - 1) == 0, Q([j], z3.Implies(z3.And(0 <= j, j < ln(tok(c)) - 1), S(arr(tok(c)), j) != 0), patterns=[S(arr(tok(c)), j)])]
    # the token is the text without the first a and the last b characters
    PART = lambda r_, t_, a_, b_: z3.And(ln(r_) == ln(t_) - 1 - a_ - b_, Q([j], z3.Implies(z3.And(0 <= j, j < ln(r_)), S(arr(r_), j) == S(arr(t_), j + a_)), patterns=[S(arr(r_), j)]))

    def sym(c):
        yield 'its spelling', z3.Implies(c.a(0) == T['SYMBOL'], PART(c.result(), tok(c), 0, 0))
        yield 'its spelling between the bars', z3.Implies(c.a(0) == T['QUOTED_SYMBOL'], PART(c.result(), tok(c), 1, 1))
        yield 'nothing else is a symbol', z3.Or(c.a(0) == T['SYMBOL'], c.a(0) == T['QUOTED_SYMBOL'])
    ts = Fn(EP + 'tokenStrToSymbol', sym, given=lambda c: tl(c) + [z3.Implies(c.a(0) == T['QUOTED_SYMBOL'], ln(tok(c)) >= 3)], assumes=['a quoted symbol has two bars (computeNextToken)'])
    ts.rejects = ('not a symbol', lambda c: z3.And(c.a(0) != T['SYMBOL'], c.a(0) != T['QUOTED_SYMBOL']))
    out.append(ts)

    # ---- parsing a symbol, a keyword or a string: the next token has to be one
    class As:
        def __init__(self, c, r):
            self.__dict__.update(c=c, r=r)

        def __getattr__(self, n_):
            return getattr(self.c, n_)

        def result(self):
            return self.r

    def kw(c):
        yield from ((n_, q) for n_, q in L['nt'](As(c, z3.IntVal(T['KEYWORD']))))
        yield 'its spelling without the colon', z3.Implies(ended(c), PART(c.result(), tok(c, True), 1, 0))
    ended = lambda c: z3.And(ln(tok(c, True)) >= 2, S(arr(tok(c, True)), ln(tok(c, True)) - 1) == 0, Q([j], z3.Implies(z3.And(0 <= j, j < ln(tok(c, True)) - 1), S(arr(tok(c, True)), j) != 0), patterns=[S(arr(tok(c, True)), j)]))
    pk0 = lambda c: [vlen(('vec', ('enum', 'Token')), L['LF'](c, 'd_peeked')) == 0]
    common = dict(given=lambda c: L['chars'](c) + pk0(c), pre=L['P1'], mods=L['pmods'], axioms=L['axioms'] + ax, assumes=L['asm'] + ['no token was put back when a symbol, keyword or string is parsed'])
    out.append(Fn(EP + 'parseKeyword', kw, **common))

    def psym(c):
        nt = lambda k_: [q for _, q in L['nt'](As(c, z3.IntVal(T[k_])))]
        e3 = z3.Implies(ln(tok(c, True)) >= 3, PART(c.result(), tok(c, True), 1, 1))
        yield 'a symbol or a quoted symbol', z3.Or(z3.And(*nt('SYMBOL'), PART(c.result(), tok(c, True), 0, 0)), z3.And(*nt('QUOTED_SYMBOL'), e3))
    out.append(Fn(EP + 'parseSymbol', psym, **common))

    def pstr(c):
        yield from L['nt'](As(c, z3.IntVal(T['STRING_LITERAL'])))
        t0 = tok(c, True)
        tx = mk(CT, ln(t0) - 1, arr(t0))
        yield 'its spelling', z3.Implies(z3.Not(c.a(0)), PART(c.result(), t0, 0, 0))
        yield 'its text', z3.Implies(c.a(0), UNQ(tx, c.result()))
    out.append(Fn(EP + 'parseStr', pstr, **common))

    # ---- from text to value: what the library makes of the digits
    PZ = z3.Function('str2mpz', VS, I, I)
    PQ = z3.Function('str2mpq', VS, I, z3.RealSort())
    b = z3.Int('b!u')
    dif = z3.Function('difference', VS, VS, I)
    dd = dif(t, v)
    pax = [Q([t, v, b], z3.Or(f(t, b) == f(v, b), ln(t) != ln(v), z3.And(0 <= dd, dd < ln(t), S(arr(t), dd) != S(arr(v), dd))), patterns=[so.MP(f(t, b), f(v, b))]) for f in (PZ, PQ)]
    NOPT = z3.Function('withoutCharAt', VS, I, VS)
    w = NOPT(t, i)
    pax += [Q([t, i], ln(w) == ln(t) - 1, patterns=[w]), Q([t, i, j], z3.Implies(z3.And(0 <= j, j < ln(t) - 1), S(arr(w), j) == z3.If(j < i, S(arr(t), j), S(arr(t), j + 1))), patterns=[S(arr(w), j)])]
    FST = z3.Function('firstPoint', VS, I)
    fp = FST(t)
    pax += [Q([t], z3.Or(fp == -1, z3.And(0 <= fp, fp < ln(t), S(arr(t), fp) == ord('.'))), patterns=[fp]),
            Q([t, j], z3.Implies(z3.And(0 <= j, j < ln(t), z3.Or(fp == -1, j < fp)), S(arr(t), j) != ord('.')), patterns=[so.MP(fp, S(arr(t), j))])]

    POWPOS = Q([b, k], z3.Implies(z3.And(b > 0, k >= 0), powi(b, k) > 0), patterns=[powi(b, k)])

    def fd(c):
        t0, r = c.a(0), c.result()
        f = FST(t0)
        yield 'a decimal: its digits over a power of ten', z3.Implies(f != -1, r == z3.ToReal(PZ(NOPT(t0, f), 10)) / z3.ToReal(powi(z3.IntVal(10), ln(t0) - (f + 1))))
        yield 'no point: the library', z3.Implies(f == -1, r == PQ(t0, 10))
    out.append(Fn('ethos::Rational::fromDecimal', fd, given=lambda c: [ln(c.a(0)) < 2 ** 31], axioms=pax + [POWPOS], assumes=['mpz_class and mpq_class read numerals (uninterpreted: the value of a digit string)']))

    from .c_util import bval, bsize, BV
    from .c_str import contracts as strcontracts
    out += strcontracts(d)
    K = d.K

    lit = lambda e_, f: d.lit(e_, f)

    def mli(c):
        x, r = c.a(0), c.result()
        f_ = lambda n_: acc(d.LIT, n_, x)
        yield 'a term', r != NULLP
        yield 'kind', d_kind(r) == f_('d_kind')
        for f in ('d_bool', 'd_int', 'd_rat', 'd_bv', 'd_str'):
            yield f, lit(r, f) == f_(f)
    out.append(Fn('ethos::State::mkLiteralInternal', mli, trusted=True, why='the term of a literal (B01)'))

    def ml(c):
        k_, t0, r = c.a(0), c.a(1), c.result()
        f = FST(t0)
        yield 'numeral', z3.Implies(k_ == K['NUMERAL'], z3.And(d_kind(r) == k_, lit(r, 'd_int') == PZ(t0, 10)))
        yield 'rational', z3.Implies(k_ == K['RATIONAL'], z3.And(d_kind(r) == k_, lit(r, 'd_rat') == PQ(t0, 10)))
        yield 'decimal', z3.Implies(z3.And(k_ == K['DECIMAL'], f != -1), z3.And(d_kind(r) == k_, lit(r, 'd_rat') == z3.ToReal(PZ(NOPT(t0, f), 10)) / z3.ToReal(powi(z3.IntVal(10), ln(t0) - (f + 1)))))
        for kn, b_, w_ in (('HEXADECIMAL', 16, 4), ('BINARY', 2, 1)):
            yield kn.lower(), z3.Implies(k_ == K[kn], z3.And(d_kind(r) == k_, bval(lit(r, 'd_bv')) == PZ(t0, b_), bsize(lit(r, 'd_bv')) == w_ * ln(t0)))
        yield 'string', z3.Implies(k_ == K['STRING'], d_kind(r) == k_)

        class C2(As):
            def a(self, q):
                return (t0, z3.BoolVal(True))[q]
        for n_, q in d.ti_post(C2(c, lit(r, 'd_str'))):
            yield 'string: ' + n_, z3.Implies(k_ == K['STRING'], q)
    out.append(Fn('ethos::State::mkLiteral', ml, sig='const std::string &', given=lambda c: [ln(c.a(1)) < 2 ** 30, c.a(0) != K['BOOLEAN']], axioms=pax + [POWPOS]))
    return out
