"""The lexer: how the text of a file is split into tokens (L02).

The text is a ghost sequence of characters that the input stream hands out in
pieces of any size; the contracts speak about positions in that text."""
import re
import z3
from . import sorts as so
from .sorts import acc, mk, sort, vlen, I, B
from .symex import Obj
from .c_state import Fn, S, Q, N, name
from .strs import CT, A, code, ln, arr, ghost
from . import strs

V = ('vec', ('int', 8, True))
LX = 'ethos::Lexer::'
EXTRA = '+-/*=%?!.$_~&^<>@'


def LF(c, n, new=False):
    s = c.st if (new or c.old is None) else c.old
    v = c.ex.rv(c.ex.d.obj_member(c.ex, s, Obj('Lexer'), n, None), s)
    return name(c.ex, s, ('o', 'Lexer', n), v)


def GH(c, n, new=False, ct=('mpz',)):
    s = c.st if (new or c.old is None) else c.old
    return name(c.ex, s, ('h', n), ghost(c.ex, s, n, ct))


def lx(*ns):
    return [('o', 'Lexer', n) for n in ns]


# character classes of the manual
def cls(c):
    rng = lambda a, b: z3.And(ord(a) <= c, c <= ord(b))
    oneof = lambda s: z3.Or([c == ord(x) for x in s])
    dig, alpha = rng('0', '9'), z3.Or(rng('a', 'z'), rng('A', 'Z'))
    start = z3.Or(alpha, oneof(EXTRA))
    return {1: oneof(' \t\r\n'), 2: dig, 4: z3.Or(dig, rng('a', 'f'), rng('A', 'F')), 8: oneof('01'), 16: start, 32: z3.Or(start, dig, c == ord(':'))}


WS, DIG, HEXD, BIT, START, SYM = 1, 2, 4, 8, 16, 32


def contracts(d):
    out = []
    a = z3.Const('a!x', A)
    n, i, j, k, c_, m, cc = z3.Ints('n!x i!x j!x k!x c!x m!x cc!x')
    VS = sort(CT)
    t, inp = z3.Consts('t!x inp!x', VS)
    T = {x[len('ethos::Token::'):]: v for x, v in d.p.enums.items() if x.startswith('ethos::Token::')}
    AT = d.AT = z3.Function('charAt', VS, I, I)
    INCL = d.INCL = z3.Function('inClass', I, I, B)
    RUN = d.RUN = z3.Function('runEnd', VS, I, I, I)         # end of the run of characters of a class
    SK, CM = z3.Function('tokenStart', VS, I, I), z3.Function('commentEnd', VS, I, I)
    SC = z3.Function('stringIsClosed', VS, I, B)
    QS, SE = z3.Function('quotedEnd', VS, I, I), z3.Function('stringEnd', VS, I, I)
    TEXT = z3.Function('textOf', VS, VS, I, I, B)
    CHARS = z3.Function('charsOnly', VS, B)
    EXT = z3.Function('extendedBy', VS, VS, VS, I, I, B)
    INV = z3.Function('lexerState', I, I, VS, B, I, I, VS, B)
    LP = z3.Function('nextPosition', I, I, B, I, I, I)
    pos, end, chp, rd = z3.Ints('pos!x end!x chp!x rd!x')
    pk = z3.Const('pk!x', B)
    buf = z3.Const('buf!x', VS)
    L = ln(inp)
    m_ = re.search(r'\[(\d+)\]', dict(so.CLASSES.get('Lexer', ())).get('d_buffer', ''))
    BUFSIZE = int(m_.group(1)) if m_ else 0
    ax = [Q([inp, i], AT(inp, i) == z3.If(z3.And(0 <= i, i < L), z3.If(z3.And(-128 <= S(arr(inp), i), S(arr(inp), i) <= 127), code(S(arr(inp), i)), z3.IntVal(0)), z3.IntVal(-1)), patterns=[AT(inp, i)]),
          Q([inp, i], z3.And(AT(inp, i) >= -1, AT(inp, i) <= 255), patterns=[AT(inp, i)]),
          Q([c_, cc], z3.And([z3.Implies(cc == x, INCL(c_, cc) == f) for x, f in cls(c_).items()]), patterns=[INCL(c_, cc)])]

    def rec(f, pre, stop, nexts, extra=()):
        """f(.., i) = i where stop, and f'(.., i + 1) where the condition holds"""
        ax.append(Q(list(extra) + [inp, i], z3.Implies(stop, pre(f, i) == i), patterns=[pre(f, i)]))
        for cond, g in nexts:
            ax.append(Q(list(extra) + [inp, i, k], z3.Implies(z3.And(k == i + 1, cond), pre(f, i) == pre(g, k)), patterns=[so.MP(pre(f, i), pre(g, k))]))
    at = AT(inp, i)
    plain = lambda f, x: f(inp, x)
    rec(RUN, lambda f, x: f(inp, cc, x), z3.Not(INCL(at, cc)), [(INCL(at, cc), RUN)], [cc])
    ws = INCL(at, WS)
    rec(SK, plain, z3.Or(at == -1, z3.And(z3.Not(ws), at != ord(';'))), [(ws, SK), (at == ord(';'), CM)])
    rec(CM, plain, at == -1, [(at == 10, SK), (z3.And(at != 10, at != -1), CM)])
    rec(QS, plain, z3.Or(at == -1, at == ord('|')), [(z3.And(at != -1, at != ord('|')), QS)])
    # a string ends behind the first quote that is not doubled (at the end of the text if there is none)
    rec(SE, plain, at == -1, [(z3.And(at != -1, at != 34), SE)])
    ax.append(Q([inp, i], z3.Implies(z3.And(at == 34, AT(inp, i + 1) != 34), SE(inp, i) == i + 1), patterns=[SE(inp, i)]))
    ax += [Q([inp, i], z3.Implies(at == -1, z3.Not(SC(inp, i))), patterns=[SC(inp, i)]), Q([inp, i], z3.Implies(z3.And(at == 34, AT(inp, i + 1) != 34), SC(inp, i)), patterns=[SC(inp, i)]),
           Q([inp, i, k], z3.Implies(z3.And(k == i + 1, at != -1, at != 34), SC(inp, i) == SC(inp, k)), patterns=[so.MP(SC(inp, i), SC(inp, k))]),
           Q([inp, i, k], z3.Implies(z3.And(k == i + 2, at == 34, AT(inp, i + 1) == 34), SC(inp, i) == SC(inp, k)), patterns=[so.MP(SC(inp, i), SC(inp, k))])]
    ax.append(Q([inp, i, k], z3.Implies(z3.And(at == 34, k == i + 2, AT(inp, i + 1) == 34), SE(inp, i) == SE(inp, k)), patterns=[so.MP(SE(inp, i), SE(inp, k))]))
    ax.append(Q([t, inp, i, k], TEXT(t, inp, i, k) == z3.And(0 <= i, i <= k, k <= L, ln(t) == k - i, Q([j], z3.Implies(z3.And(0 <= j, j < k - i), S(arr(t), j) == S(arr(inp), i + j)), patterns=[S(arr(t), j)])), patterns=[TEXT(t, inp, i, k)]))
    t2 = z3.Const('t2!x', VS)
    ax.append(Q([t, t2, inp, i, k], EXT(t, t2, inp, i, k) == z3.And(0 <= i, i <= k, k <= L, ln(t2) == ln(t) + k - i, Q([j], z3.Implies(z3.And(0 <= j, j < ln(t2)), S(arr(t2), j) == z3.If(j < ln(t), S(arr(t), j), S(arr(inp), i + (j - ln(t))))), patterns=[S(arr(t2), j)])), patterns=[EXT(t, t2, inp, i, k)]))
    ax.append(Q([inp], CHARS(inp) == Q([j], z3.And(-128 <= S(arr(inp), j), S(arr(inp), j) <= 127), patterns=[S(arr(inp), j)]), patterns=[CHARS(inp)]))
    # the state of the lexer: the buffer holds the part of the text that was handed out but not consumed
    cp = rd - (end - pos)
    low = [Q([pos, end, buf, pk, chp, rd, inp], INV(pos, end, buf, pk, chp, rd, inp) == z3.And(
        0 <= pos, pos <= end, end <= BUFSIZE, ln(buf) == BUFSIZE, 0 <= rd, rd <= L, cp >= 0,
        Q([j], z3.Implies(z3.And(pos <= j, j < end), S(arr(buf), j) == S(arr(inp), cp + (j - pos))), patterns=[S(arr(buf), j)]),
        z3.Implies(pk, z3.Or(z3.And(chp == -1, cp == L), z3.And(cp >= 1, chp == AT(inp, cp - 1))))), patterns=[INV(pos, end, buf, pk, chp, rd, inp)]),
        Q([pos, end, pk, chp, rd], LP(pos, end, pk, chp, rd) == cp - z3.If(z3.And(pk, chp != -1), 1, 0), patterns=[LP(pos, end, pk, chp, rd)])]
    high = [Q([pos, end, buf, pk, chp, rd, inp], z3.Implies(INV(pos, end, buf, pk, chp, rd, inp), z3.And(0 <= LP(pos, end, pk, chp, rd), LP(pos, end, pk, chp, rd) <= L)), patterns=[INV(pos, end, buf, pk, chp, rd, inp)])]
    d.lemma_obs.append(('the next position is in the text', [INV(pos, end, buf, pk, chp, rd, inp)], z3.And(0 <= LP(pos, end, pk, chp, rd), LP(pos, end, pk, chp, rd) <= L), d.axioms + d.qf_axioms + ax + low))
    inpc = lambda c, new=False: GH(c, 'input', new, CT)
    f_ = lambda c, n, new: LF(c, n, new)
    lp = lambda c, new=False: LP(f_(c, 'd_bufferPos', new), f_(c, 'd_bufferEnd', new), f_(c, 'd_peekedChar', new), f_(c, 'd_chPeeked', new), GH(c, 'handed', new))
    inv = lambda c, new=False: INV(f_(c, 'd_bufferPos', new), f_(c, 'd_bufferEnd', new), f_(c, 'd_buffer', new), f_(c, 'd_peekedChar', new), f_(c, 'd_chPeeked', new), GH(c, 'handed', new), inpc(c))
    peeked = lambda c, new=False: LF(c, 'd_peekedChar', new)
    tok = lambda c, new=False: LF(c, 'd_token', new)
    REP = lx('d_bufferPos', 'd_bufferEnd', 'd_buffer', 'd_ch', 'd_peekedChar', 'd_chPeeked', 'd_span')

    def reps(c):
        GH(c, 'handed'), GH(c, 'count'), inpc(c)
        return REP + [('h', 'handed'), ('h', 'count')]
    big = [vlen(CT, inp) >= 0]
    chars = lambda c: [ln(inpc(c)) >= 0, CHARS(inpc(c))]     # its elements are of type char
    P0 = lambda c: [tok(c)] and [('state of the lexer', inv(c))]
    asm = ['the input stream hands out the characters of its file in order, in pieces of any size (std::istream::read, gcount, get)', 'termination is not proved (partial correctness)']

    def moved(c, p, q):
        return q == z3.If(p < ln(inpc(c)), p + 1, p)

    def rnc(c):
        cp0, cp1 = [LF(c, 'd_bufferPos', x) - LF(c, 'd_bufferEnd', x) + GH(c, 'handed', x) for x in (False, True)]
        yield 'the next character of the text', c.result() == AT(inpc(c), cp0)
        yield 'one step further', moved(c, cp0, cp1)
        yield 'state of the lexer', z3.Implies(z3.Not(peeked(c)), inv(c, True))
    out.append(Fn(LX + 'readNextChar', rnc, given=chars, pre=lambda c: P0(c) + [('no saved character', z3.Not(peeked(c)))], mods=lambda c: [r for r in reps(c) if r[-1] not in ('d_peekedChar', 'd_chPeeked', 'd_span')], axioms=ax + low, assumes=asm))

    def nc(c):
        yield 'the next character of the text', c.result() == AT(inpc(c), lp(c))
        yield 'one step further', moved(c, lp(c), lp(c, True))
        yield 'state of the lexer', inv(c, True)
        yield 'no saved character', z3.Not(peeked(c, True))
    out.append(Fn(LX + 'nextChar', nc, given=chars, pre=P0, mods=reps, axioms=ax + low, assumes=asm))

    def sc_pre(c):
        ch, p = c.a(0), lp(c)
        return P0(c) + [('no saved character', z3.Not(peeked(c))), ('the character is the last one read', z3.Or(z3.And(ch == -1, p == ln(inpc(c))), z3.And(ch != -1, p >= 1, ch == AT(inpc(c), p - 1))))]

    def sc(c):
        yield 'one step back', lp(c, True) == z3.If(c.a(0) == -1, lp(c), lp(c) - 1)
        yield 'state of the lexer', inv(c, True)
    out.append(Fn(LX + 'saveChar', sc, pre=sc_pre, mods=lambda c: lx('d_peekedChar', 'd_chPeeked'), axioms=ax + low))

    # ---- classes of characters
    CLV = lambda c: z3.Sum([z3.If(f, z3.IntVal(x), z3.IntVal(0)) for x, f in cls(c).items()])
    table = lambda v: z3.And(vlen(('vec', ('int', 8, False)), v) == 256, Q([c_], z3.Implies(z3.And(0 <= c_, c_ < 256), S(acc(('vec', ('int', 8, False)), 'arr', v), c_) == CLV(c_)), patterns=[S(acc(('vec', ('int', 8, False)), 'arr', v), c_)]))
    onecls = lambda x: z3.Or([x == v for v in cls(c_)])
    out.append(Fn(LX + 'isCharacterClass', lambda c: [('value', c.result() == INCL(c.a(0), c.a(1)))], given=lambda c: [table(LF(c, 'd_charClass'))],
                  pre=lambda c: [('a class', onecls(c.a(1))), ('a character', z3.And(-128 <= c.a(0), c.a(0) <= 255))], axioms=ax, assumes=['the table of character classes is the one the constructor fills in (its writers are enumerated)']))
    ctor = Fn(LX + 'Lexer', lambda c: [('the classes of characters', table(LF(c, 'd_charClass', True))), ('no saved character', z3.Not(peeked(c, True))), ('an empty buffer', z3.And(LF(c, 'd_bufferPos', True) == 0, LF(c, 'd_bufferEnd', True) == 0))])
    ctor.unroll = 64
    ctor.mods = lambda c: lx('d_charClass', 'd_lexLet', 'd_lexType', 'd_isInteractive', 'd_bufferPos', 'd_bufferEnd', 'd_peekedChar', 'd_chPeeked')
    out.append(ctor)

    # ---- runs of characters
    def text(c, q=None):
        tk0, tk1, ip = tok(c), tok(c, True), inpc(c)
        p, q = lp(c), lp(c, True)
        return 'the token is extended by what was read', EXT(tk0, tk1, ip, p, q)
    tmods = lambda c: reps(c) + lx('d_token')

    def pcl(c):
        yield 'to the end of the run', lp(c, True) == RUN(inpc(c), c.a(0), lp(c))
        yield 'state of the lexer', inv(c, True)
        yield text(c)

    def pcl_inv(cx):
        c = cx.callctx()
        b = cx.before
        yield 'state of the lexer', inv(c, True)
        yield 'in the run', z3.And(lp(c) <= lp(c, True), RUN(inpc(c), c.a(0), lp(c, True)) == RUN(inpc(c), c.a(0), lp(c)))
        yield text(c)
    onec = lambda c: [('a class', onecls(c.a(0)))]
    out.append(Fn(LX + 'parseCharList', pcl, given=chars, pre=lambda c: P0(c) + onec(c), mods=tmods, loops={0: pcl_inv}, axioms=ax + high, assumes=asm))

    def pne(c):
        ip = inpc(c)
        yield 'whether there is one', c.result() == INCL(AT(ip, lp(c)), c.a(0))
        yield 'to the end of the run', z3.Implies(c.result(), z3.And(lp(c, True) == RUN(ip, c.a(0), lp(c)), lp(c) < lp(c, True)))
        yield 'state of the lexer', inv(c, True)
        n_, q_ = text(c)
        yield n_, z3.Implies(c.result(), q_)
    RUNGE = Q([inp, cc, i], RUN(inp, cc, i) >= i, patterns=[RUN(inp, cc, i)])
    out.append(Fn(LX + 'parseNonEmptyCharList', pne, given=chars, pre=lambda c: P0(c) + onec(c), mods=tmods, axioms=ax + high + [RUNGE], assumes=asm))

    def pch(c):
        ip = inpc(c)
        yield 'whether it is in the class', c.result() == INCL(AT(ip, lp(c)), c.a(0))
        yield 'one step further', z3.Implies(c.result(), lp(c, True) == lp(c) + 1)
        yield 'state of the lexer', inv(c, True)
        n_, q_ = text(c)
        yield n_, z3.Implies(c.result(), q_)
    out.append(Fn(LX + 'parseChar', pch, given=chars, pre=lambda c: P0(c) + onec(c), mods=tmods, axioms=ax + high, assumes=asm))

    # ---- symbols with a meaning of their own
    RN = z3.Function('digitsEnd', VS, I, I)       # first position that is not a digit, in a token
    tc = lambda v, x: S(arr(v), x)
    rnax = [Q([t, i], z3.Implies(z3.Or(i >= ln(t), z3.Not(INCL(tc(t, i), DIG))), RN(t, i) == i), patterns=[RN(t, i)]),
            Q([t, i, k], z3.Implies(z3.And(k == i + 1, i < ln(t), INCL(tc(t, i), DIG)), RN(t, i) == RN(t, k)), patterns=[so.MP(RN(t, i), RN(t, k))])]

    def word(v, s):
        return z3.And(ln(v) == len(s), *[tc(v, q) == ord(x) for q, x in enumerate(s)])

    def symkind(c, n_, ch, dig):
        """the token of a text of n_ characters; ch(i): its characters, dig(i): end of the digits from i on"""
        w = lambda s_: z3.And(n_ == len(s_), *[ch(q) == ord(x) for q, x in enumerate(s_)])
        r_ = dig(1)
        neg = z3.And(n_ >= 2, ch(0) == ord('-'))
        frac = lambda sep: z3.And(neg, 1 < r_, r_ + 1 < n_, ch(r_) == ord(sep), dig(r_ + 1) == n_)
        let, typ = LF(c, 'd_lexLet'), LF(c, 'd_lexType')
        r = z3.IntVal(T['SYMBOL'])
        for cond, tk in ((z3.And(typ, w('Type')), 'TYPE'), (w('Bool'), 'BOOL_TYPE'), (z3.And(let, w('let')), 'LET'), (w('par'), 'PAR'),
                         (w('eo::define'), 'EVAL_DEFINE'), (frac('/'), 'RATIONAL_LITERAL'), (frac('.'), 'DECIMAL_LITERAL'), (z3.And(neg, r_ == n_), 'INTEGER_LITERAL'), (w('!'), 'ATTRIBUTE')):
            r = z3.If(cond, z3.IntVal(T[tk]), r)
        return r
    symtoken = lambda c, v: symkind(c, ln(v), lambda x: tc(v, x), lambda x: RN(v, x))
    RB = z3.Function('digitsEndBefore', VS, I, I, I)      # end of the digits from i on, at most k
    isd = INCL(AT(inp, i), DIG)
    rbax = [Q([inp, i, k], z3.Implies(z3.Or(i >= k, z3.Not(isd)), RB(inp, i, k) == i), patterns=[RB(inp, i, k)]),
            Q([inp, i, k, m], z3.Implies(z3.And(m == i + 1, i < k, isd), RB(inp, i, k) == RB(inp, m, k)), patterns=[so.MP(RB(inp, i, k), RB(inp, m, k))])]
    charsof = Q([j], z3.And(-128 <= S(arr(inp), j), S(arr(inp), j) <= 127), patterns=[S(arr(inp), j)])
    link = lambda m_: RN(t, m_) + i == RB(inp, i + m_, k)
    L0 = d.axioms + d.qf_axioms + ax + rnax + rbax
    d.lemma_obs.append(('the digits of a token, at its end', [charsof, TEXT(t, inp, i, k), m == k - i], link(m), L0))
    d.lemma_obs.append(('the digits of a token, one before', [charsof, TEXT(t, inp, i, k), 0 <= m, m < k - i, link(m + 1)], link(m), L0))
    LINK = Q([t, inp, i, k, m], z3.Implies(z3.And(CHARS(inp), TEXT(t, inp, i, k), 0 <= m, m <= k - i), link(m)), patterns=[so.MP(TEXT(t, inp, i, k), RN(t, m))])
    insym = lambda c, ip, q, e: symkind(c, e - q, lambda x: AT(ip, q + x), lambda x: RB(ip, q + x, e) - q)

    def tcs_inv(cx):
        c = cx.callctx()
        v, ix, ret = tok(c), cx.v('i', ('int', 64, False)), cx.v('ret', ('enum', 'Token'))
        r = RN(v, 1)
        yield 'range', z3.And(1 <= ix, ix <= ln(v))
        yield 'digits so far', z3.Implies(ret == T['INTEGER_LITERAL'], RN(v, ix) == r)
        yield 'one separator so far', z3.Implies(ret != T['INTEGER_LITERAL'], z3.And(1 < r, r < ix, r + 1 < ln(v), RN(v, ix) == RN(v, r + 1), tc(v, r) == z3.If(ret == T['DECIMAL_LITERAL'], z3.IntVal(ord('.')), z3.IntVal(ord('/')))))
        yield 'kind', z3.Or([ret == T[x] for x in ('INTEGER_LITERAL', 'DECIMAL_LITERAL', 'RATIONAL_LITERAL')])
    out.append(Fn(LX + 'tokenizeCurrentSymbol', lambda c: [('the token', c.result() == symtoken(c, tok(c)))], pre=lambda c: [('not empty', ln(tok(c)) >= 1)], given=lambda c: [ln(tok(c)) < 2 ** 62, RN(tok(c), RN(tok(c), 1) + 1) == RN(tok(c), RN(tok(c), 1) + 1)], loops={0: tcs_inv}, axioms=ax + rnax))

    # ---- the next token
    def spec(c, ip, p):
        """kind, start and end of the token at p, and whether there is none"""
        q = SK(ip, p)
        ch, nx = AT(ip, q), AT(ip, q + 1)
        C = lambda x, cl: INCL(x, z3.IntVal(cl))
        R = lambda cl, x: RUN(ip, z3.IntVal(cl), x)
        K = lambda n_: z3.IntVal(T[n_])
        qe, rd_ = QS(ip, q + 1), R(DIG, q + 1)
        x = AT(ip, rd_)
        isfrac = z3.Or(x == ord('.'), x == ord('/'))
        se = R(SYM, q + 1)
        none = K('NONE')
        cases = [(ch == -1, K('EOF_TOK'), q, None), (ch == ord('('), K('LPAREN'), q + 1, None), (ch == ord(')'), K('RPAREN'), q + 1, None),
                 (ch == ord('|'), z3.If(AT(ip, qe) == -1, K('UNTERMINATED_QUOTED_SYMBOL'), K('QUOTED_SYMBOL')), z3.If(AT(ip, qe) == -1, qe, qe + 1), None),
                 (ch == ord('#'), z3.If(nx == ord('b'), K('BINARY_LITERAL'), K('HEX_LITERAL')), z3.If(nx == ord('b'), R(BIT, q + 2), R(HEXD, q + 2)),
                  z3.Not(z3.Or(z3.And(nx == ord('b'), C(AT(ip, q + 2), BIT)), z3.And(nx == ord('x'), C(AT(ip, q + 2), HEXD))))),
                 (ch == 34, z3.If(SC(ip, q + 1), K('STRING_LITERAL'), K('UNTERMINATED_STRING_LITERAL')), SE(ip, q + 1), None),
                 (ch == ord(':'), K('KEYWORD'), R(SYM, q + 2), z3.Not(C(nx, START))),
                 (C(ch, DIG), z3.If(isfrac, z3.If(x == ord('.'), K('DECIMAL_LITERAL'), K('RATIONAL_LITERAL')), K('INTEGER_LITERAL')), z3.If(isfrac, R(DIG, rd_ + 1), rd_), z3.And(isfrac, z3.Not(C(AT(ip, rd_ + 1), DIG)))),
                 (C(ch, START), insym(c, ip, q, se), se, None)]
        return q, cases

    def cnt(c, end=None):
        r, ip, p, e = c.result(), inpc(c), lp(c), lp(c, True)
        q, cases = spec(c, ip, p)
        yield 'state of the lexer', inv(c, True)
        names = ['end of the text', '(', ')', 'quoted symbols', 'binary and hexadecimal literals', 'strings', 'keywords', 'numbers', 'symbols']
        for n_, (cond, kd, e_, rj) in zip(names, cases):
            yield 'the token: ' + n_, z3.Implies(cond, z3.And(r == kd, e == e_, z3.Not(rj) if rj is not None else True, TEXT(tok(c, True), ip, q, e) if n_ == 'symbols' and not end else True))
        yield 'nothing else is a token', z3.Or([cs[0] for cs in cases])
        yield 'the characters of the token', TEXT0(c, q, e) if end else TEXT(tok(c, True), ip, q, e)

    def cnt_rej(c):
        q, cases = spec(c, inpc(c), lp(c))
        return z3.Or(z3.Not(z3.Or([cs[0] for cs in cases])), *[z3.And(cs[0], cs[3]) for cs in cases if cs[3] is not None])

    def skip(cx, f):
        c = cx.callctx()
        yield 'state of the lexer', inv(c, True)
        yield 'the same token is next', z3.And(lp(c) <= lp(c, True), f(inpc(c), lp(c, True)) == SK(inpc(c), lp(c)))

    def body(cx, f, g):
        c = cx.callctx()
        q = SK(inpc(c), lp(c))
        yield 'state of the lexer', inv(c, True)
        yield 'the same end', z3.And(q + 1 <= lp(c, True), f(inpc(c), lp(c, True)) == f(inpc(c), q + 1), g(inpc(c), lp(c, True)) == g(inpc(c), q + 1) if g is not None else True)
        yield 'the characters of the token', TEXT(tok(c, True), inpc(c), q, lp(c, True))
    cn = Fn(LX + 'computeNextToken', cnt, given=chars, pre=lambda c: P0(c) + [('an empty token', ln(tok(c)) == 0)], mods=tmods, axioms=ax + high + [RUNGE, LINK] + rbax,
            loops={0: lambda cx: skip(cx, SK), 1: lambda cx: skip(cx, SK), 2: lambda cx: skip(cx, CM), 3: lambda cx: body(cx, QS, None), 4: lambda cx: body(cx, SE, SC)}, assumes=asm)
    cn.rejects = ('the text is not a token', cnt_rej)
    out.append(cn)
    # ---- a token ends with a null character and contains no other
    NUL = z3.Function('hasNull', VS, I, I, B)
    wit = z3.Function('nullAt', VS, I, I, I)
    wi = wit(inp, i, k)
    nulax = [Q([inp, i, k], z3.Implies(NUL(inp, i, k), z3.And(i <= wi, wi < k, AT(inp, wi) == 0)), patterns=[NUL(inp, i, k)]),
             Q([inp, i, k, j], z3.Implies(z3.And(i <= j, j < k, AT(inp, j) == 0), NUL(inp, i, k)), patterns=[so.MP(NUL(inp, i, k), AT(inp, j))])]
    nuls = z3.Implies(z3.And(TEXT(t, inp, i, k), CHARS(inp), 0 <= j, j < k - i, S(arr(t), j) == 0), NUL(inp, i, k))
    d.lemma_obs.append(('a null character of the token is one of the text', [AT(inp, i + j) == m], nuls, d.axioms + d.qf_axioms + ax + nulax))
    nulax.append(Q([t, inp, i, k, j], nuls, patterns=[so.MP(TEXT(t, inp, i, k), S(arr(t), j))]))
    TXT0 = z3.Function('nullTerminated', VS, VS, I, I, B)
    nulax.append(Q([t, inp, i, k], TXT0(t, inp, i, k) == z3.And(0 <= i, i <= k, k <= L, ln(t) == k - i + 1, S(arr(t), k - i) == 0, Q([j], z3.Implies(z3.And(0 <= j, j < k - i), z3.And(S(arr(t), j) == S(arr(inp), i + j), S(arr(t), j) != 0)), patterns=[S(arr(t), j)])), patterns=[TXT0(t, inp, i, k)]))

    def TEXT0(c, q, e):
        return TXT0(tok(c, True), inpc(c), q, e)
    nti = Fn(LX + 'nextTokenInternal', lambda c: cnt(c, True), given=chars, pre=P0, mods=tmods, axioms=ax + high + nulax, assumes=asm)
    nti.rejects = ('the token contains a null character', lambda c: NUL(inpc(c), SK(inpc(c), lp(c)), lp(c, True)))
    out.append(nti)
    out.append(Fn(LX + 'tokenStr', lambda c: [('the text of the token', c.result() == tok(c))]))

    # ---- one token of lookahead
    TV = ('vec', ('enum', 'Token'))
    pk_ = lambda c, new=False: LF(c, 'd_peeked', new)
    n0 = lambda v: vlen(TV, v)
    last = lambda v: S(acc(TV, 'arr', v), n0(v) - 1)
    P1 = lambda c: [pk_(c)] and P0(c)
    pmods = lambda c: tmods(c) + lx('d_peeked')

    def dropped(a_, b_, c):
        yield 'the others stay', z3.And(n0(b_) == n0(a_) - 1, Q([j], z3.Implies(z3.And(0 <= j, j < n0(b_)), S(acc(TV, 'arr', b_), j) == S(acc(TV, 'arr', a_), j)), patterns=[S(acc(TV, 'arr', b_), j)]))

    def same(c):
        yield 'nothing is read', z3.And(lp(c, True) == lp(c), inv(c, True), tok(c, True) == tok(c))

    def nt(c):
        p0, p1 = pk_(c), pk_(c, True)
        for n_, q in cnt(c, True):
            yield n_, z3.Implies(n0(p0) == 0, q)
        yield 'nothing is put back', z3.Implies(n0(p0) == 0, n0(p1) == 0)
        yield 'the token put back last', z3.Implies(n0(p0) > 0, c.result() == last(p0))
        for n_, q in list(dropped(p0, p1, c)) + list(same(c)):
            yield n_ + ' (a token was put back)', z3.Implies(n0(p0) > 0, q)
    out.append(Fn(LX + 'nextToken', nt, given=chars, pre=P1, mods=pmods, axioms=ax + high + nulax, assumes=asm))

    def rt(c):
        p0, p1 = pk_(c), pk_(c, True)
        yield 'it is the next one', z3.And(n0(p1) == n0(p0) + 1, last(p1) == c.a(0))
        yield 'the others stay', Q([j], z3.Implies(z3.And(0 <= j, j < n0(p0)), S(acc(TV, 'arr', p1), j) == S(acc(TV, 'arr', p0), j)), patterns=[S(acc(TV, 'arr', p1), j)])
    out.append(Fn(LX + 'reinsertToken', rt, mods=lambda c: [pk_(c)] and lx('d_peeked')))

    def pt(c):
        yield from cnt(c, True)
        p1 = pk_(c, True)
        yield 'it is the next one', z3.And(n0(p1) == 1, last(p1) == c.result())
    out.append(Fn(LX + 'peekToken', pt, given=lambda c: chars(c) + [n0(pk_(c)) == 0], pre=P1, mods=pmods, axioms=ax + high + nulax,
                  assumes=asm + ['at most one token is put back when the next one is looked at (asserted in the code)']))
    eat = lambda c, r_: [(n_, q) for n_, q in nt(At(c, r_))]

    class At:
        def __init__(self, c, r):
            self.__dict__.update(c=c, r=r)

        def __getattr__(self, n_):
            return getattr(self.c, n_)

        def result(self):
            return self.r
    out.append(Fn(LX + 'eatToken', lambda c: eat(c, c.a(0)), given=chars, pre=P1, mods=pmods, axioms=ax + high + nulax, assumes=asm))
    out.append(Fn(LX + 'eatTokenChoice', lambda c: eat(c, z3.If(c.result(), c.a(0), c.a(1))), given=chars, pre=P1, mods=pmods, axioms=ax + high + nulax, assumes=asm))
    for n_ in ('isInteractive',):
        out.append(Fn('ethos::Input::' + n_, lambda c: [], trusted=True, why='whether an input is interactive'))
    fresh0 = lambda c: [('no saved character', z3.Not(peeked(c, True))), ('an empty buffer', z3.And(LF(c, 'd_bufferPos', True) == 0, LF(c, 'd_bufferEnd', True) == 0))]
    out.append(Fn(LX + 'initialize', lambda c: fresh0(c) + [('no token put back', n0(pk_(c, True)) == 0)], mods=lambda c: lx('d_peeked', 'd_bufferPos', 'd_bufferEnd', 'd_peekedChar', 'd_chPeeked', 'd_span', 'd_isInteractive', 'd_inputName', 'd_istream')))
    d.lexspec = dict(T=T, TEXT=TEXT, TXT0=TXT0, tok=tok, inv=inv, lp=lp, inpc=inpc, SK=SK, cnt=cnt, nt=nt, chars=chars, P1=P1, pmods=pmods, axioms=ax + high + nulax, asm=asm, LF=LF)
    return out
