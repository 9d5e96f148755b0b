"""Lists built with n-ary operators: their elements, and the operators on them (A05)."""
import z3
from . import sorts as so
from .sorts import acc, sort, vlen, I, B, E, NULLP, SNULL
from .domain import kind, VE, EV
from .c_state import Fn, F, EX, S, Q, N
from .c_term import ME, bases

KD = ('enum', 'Kind')
SZ = ('int', 64, False)
U32 = ('int', 32, False)
CM = ('map', EV, U32)
SE = ('set', EV)
LIM = 2 ** 32


def A_(c, q):
    """an argument, as a constant (usable in patterns)"""
    v = c.a(q)
    if not z3.is_expr(v) or v.num_args() == 0:
        return v
    if not hasattr(c, 'named'):
        c.named = {}
    if q not in c.named:
        c.named[q] = N(c, v)
    return c.named[q]


def contracts(d):
    K = d.K
    out = []
    i, j, k_, m_, n_ = z3.Ints('i!l j!l k!l m!l n!l')
    e, f, x, y, t, op = z3.Consts('e!l f!l x!l y!l t!l op!l', E)
    l = z3.Const('left!l', B)
    AB = z3.ArraySort(E, B)
    s1, s2 = z3.Consts('s1!l s2!l', AB)
    ch, nch = d.ch, d.nch
    real = lambda v: z3.And(v != NULLP, v != SNULL)
    asm = ['applications have an operator and one argument (T02: they are curried), children of terms are terms', 'a list has less than 2^32 elements',
           'termination is not proved (partial correctness)']
    ax = [Q([e], z3.Implies(kind(e) == K['NONE'], e == SNULL), patterns=[kind(e)]),
          Q([e], z3.Implies(z3.And(e != NULLP, kind(e) == K['APPLY']), z3.And(nch(e) == 2, real(ch(e, 0)), real(ch(e, 1)))), patterns=[kind(e)])]

    # ---- the elements of a list
    CELL = d.CELL = z3.Function('listCell', E, E, B)             # e = (op a b)
    HD, TL = z3.Function('head', E, B, E), z3.Function('tail', E, B, E)
    NTL = d.NTL = z3.Function('nthTail', E, B, I, E)
    LEN = d.LLEN = z3.Function('listLength', E, E, B, I)
    EL = d.LEL = z3.Function('element', E, B, I, E)
    cell = lambda e, op: z3.And(kind(e) == K['APPLY'], kind(ch(e, 0)) == K['APPLY'], ch(ch(e, 0), 0) == op)
    END = lambda e, op, l: NTL(e, l, LEN(e, op, l))
    ax += [Q([e, op], CELL(e, op) == cell(e, op), patterns=[CELL(e, op)]),
           Q([e, l], HD(e, l) == z3.If(l, ch(e, 1), ch(ch(e, 0), 1)), patterns=[HD(e, l)]),
           Q([e, l], TL(e, l) == z3.If(l, ch(ch(e, 0), 1), ch(e, 1)), patterns=[TL(e, l)]),
           Q([e, l, i], EL(e, l, i) == HD(NTL(e, l, i), l), patterns=[EL(e, l, i)]),
           Q([e, l, i], z3.Implies(i == 0, NTL(e, l, i) == e), patterns=[NTL(e, l, i)]),
           Q([e, l, i, k_], z3.Implies(z3.And(i >= 0, k_ == i + 1), NTL(e, l, k_) == TL(NTL(e, l, i), l)), patterns=[so.MP(NTL(e, l, i), NTL(e, l, k_))]),
           # terms are finite: every chain of cells ends
           Q([e, op, l], z3.And(LEN(e, op, l) >= 0, LEN(e, op, l) < LIM, z3.Not(CELL(NTL(e, l, LEN(e, op, l)), op))), patterns=[LEN(e, op, l)]),
           Q([e, op, l], NTL(e, l, 0) == e, patterns=[LEN(e, op, l)]),
           Q([e, op, l, i], z3.Implies(z3.And(0 <= i, i < LEN(e, op, l)), CELL(NTL(e, l, i), op)), patterns=[so.MP(LEN(e, op, l), NTL(e, l, i))])]
    COMP = Q([e, l, i, j, k_, f], z3.Implies(z3.And(i >= 0, j >= 0, k_ == i + j, f == NTL(e, l, i)), NTL(f, l, j) == NTL(e, l, k_)), patterns=[so.MP(NTL(e, l, i), NTL(f, l, j), NTL(e, l, k_))])
    if not any(o[0].startswith('the tail of a tail') for o in d.lemma_obs):
        base = d.axioms + d.qf_axioms + ax
        d.lemma_obs.append(('the tail of a tail (base)', [i >= 0], NTL(NTL(e, l, i), l, 0) == NTL(e, l, i), base))
        d.lemma_obs.append(('the tail of a tail (induction)', [i >= 0, j >= 0, NTL(NTL(e, l, i), l, j) == NTL(e, l, i + j)], NTL(NTL(e, l, i), l, j + 1) == NTL(e, l, i + j + 1), base))
    # unfolding at the front (COMP with i = 1), where it is asked for
    UNF = z3.Function('unfold', E, B, B)
    UNFA = Q([e, l, i], z3.Implies(z3.And(UNF(e, l), i >= 1), NTL(e, l, i) == NTL(TL(e, l), l, i - 1)), patterns=[so.MP(UNF(e, l), NTL(e, l, i))])
    if not any(o[0].startswith('unfolding') for o in d.lemma_obs):
        d.lemma_obs.append(('unfolding of tails at the front', [i >= 1, NTL(e, l, 0) == e, NTL(e, l, 1) == TL(NTL(e, l, 0), l), NTL(TL(e, l), l, i - 1) == NTL(NTL(e, l, 1), l, i - 1)],
                            NTL(e, l, i) == NTL(TL(e, l), l, i - 1), d.axioms + d.qf_axioms + ax + [COMP]))
    lax = ax + [COMP, UNFA]

    def pre(c):
        v = N(c, A_(c, 3))
        va = acc(VE, 'arr', v)
        e, op, nil, l = A_(c, 0), A_(c, 1), A_(c, 2), A_(c, 4)
        w, r = N(c, c.new(3)), N(c, c.result())
        wa, n0, n = acc(VE, 'arr', w), vlen(VE, v), LEN(e, op, l)
        bad = z3.And(nil != NULLP, END(e, op, l) != nil)
        yield 'null iff the list does not end with the nil terminator', (r == NULLP) == bad
        yield 'the end of the list', z3.Implies(z3.Not(bad), r == END(e, op, l))
        yield 'one element per cell', vlen(VE, w) == n0 + n
        yield 'the vector so far', Q([j], z3.Implies(z3.And(0 <= j, j < n0), S(wa, j) == S(va, j)), patterns=[S(wa, j)])
        yield 'the elements of the list', Q([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(S(wa, n0 + j) == EL(e, l, j), real(EL(e, l, j)))), patterns=[EL(e, l, j)])
        yield 'the elements of the list (vector)', Q([j], z3.Implies(z3.And(n0 <= j, j < n0 + n), z3.And(S(wa, j) == EL(e, l, j - n0), real(S(wa, j)))), patterns=[S(wa, j)])

    def gloop(cx):
        c = cx.callctx()
        v, w = N(c, A_(c, 3)), N(cx, cx.v('children', VE))
        e0, op, l = A_(c, 0), A_(c, 1), A_(c, 4)
        cur = cx.v('e', EV)
        va, wa, n0 = acc(VE, 'arr', v), acc(VE, 'arr', w), vlen(VE, v)
        k = vlen(VE, w) - n0
        yield 'range', z3.And(0 <= k, k <= LEN(e0, op, l))
        yield 'the tail', z3.And(cur == NTL(e0, l, k), real(cur))
        yield 'the vector so far', Q([j], z3.Implies(z3.And(0 <= j, j < n0), S(wa, j) == S(va, j)), patterns=[S(b, j) for b in bases(wa)])
        yield 'the elements so far', Q([j], z3.Implies(z3.And(0 <= j, j < k), z3.And(S(wa, n0 + j) == EL(e0, l, j), real(EL(e0, l, j)))), patterns=[EL(e0, l, j)])
        yield 'the elements so far (vector)', Q([j], z3.Implies(z3.And(n0 <= j, j < n0 + k), z3.And(S(wa, j) == EL(e0, l, j - n0), real(S(wa, j)))), patterns=[S(b, j) for b in bases(wa)])
    out.append(Fn('ethos::getNAryChildren', pre, given=lambda c: [real(A_(c, 0)), real(A_(c, 1)), A_(c, 2) != SNULL, vlen(VE, A_(c, 3)) < LIM], axioms=lax, loops={0: gloop}, assumes=asm, mods=lambda c: [c.lv(3)]))

    def isloop(cx):
        c = cx.callctx()
        e0, op, l, k = A_(c, 0), A_(c, 1), A_(c, 3), z3.Int('k!w')
        cur = cx.v('e', EV)
        yield 'a tail', real(cur)
        yield 'the same end', z3.And(END(cur, op, l) == END(e0, op, l))
    SAMEEND = Q([e, op, l, f], z3.Implies(z3.And(CELL(e, op), f == TL(e, l)), END(e, op, l) == END(f, op, l)), patterns=[so.MP(CELL(e, op), LEN(e, op, l), LEN(f, op, l))])
    if not any(o[0].startswith('a list and its tail') for o in d.lemma_obs):
        n1 = LEN(TL(e, l), op, l)
        base = d.axioms + d.qf_axioms + lax
        d.lemma_obs.append(('a list and its tail have the same end (length)', [CELL(e, op), NTL(e, l, 1) == TL(e, l), n_ == LEN(e, op, l), NTL(e, l, n_) == NTL(NTL(e, l, 1), l, n_ - 1), NTL(e, l, 1 + n1) == NTL(TL(e, l), l, n1), NTL(e, l, 0) == e],
                            LEN(e, op, l) == 1 + n1, base))
        d.lemma_obs.append(('a list and its tail have the same end', [CELL(e, op), LEN(e, op, l) == 1 + n1, NTL(e, l, 1) == TL(e, l), NTL(e, l, 1 + n1) == NTL(NTL(e, l, 1), l, n1), NTL(e, l, 0) == e],
                            END(e, op, l) == END(TL(e, l), op, l), base))
    out.append(Fn('ethos::isNAryList', lambda c: [('ends with the nil terminator', c.result() == (END(A_(c, 0), A_(c, 1), A_(c, 3)) == A_(c, 2)))], given=lambda c: [real(A_(c, 0)), real(A_(c, 1)), END(A_(c, 0), A_(c, 1), A_(c, 3)) == END(A_(c, 0), A_(c, 1), A_(c, 3))],
                  axioms=lax + [SAMEEND], loops={0: isloop}, assumes=asm))

    def nthloop(cx):
        c = cx.callctx()
        k = cx.v('i', SZ)
        yield 'range', z3.And(0 <= k, k <= A_(c, 2))
        yield 'the tail', z3.And(cx.v('e', EV) == NTL(A_(c, 0), A_(c, 1), k), real(cx.v('e', EV)))
    shape = lambda e, l, n: Q([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(kind(NTL(e, l, i)) == K['APPLY'], kind(ch(NTL(e, l, i), 0)) == K['APPLY'])), patterns=[NTL(e, l, i)])
    out.append(Fn('ethos::getNAryNthTail', lambda c: [('the tail', z3.And(c.result() == NTL(A_(c, 0), A_(c, 1), A_(c, 2)), real(c.result()))), (
        'the tails of it', Q([i], z3.Implies(i >= 0, NTL(c.result(), A_(c, 1), i) == NTL(A_(c, 0), A_(c, 1), A_(c, 2) + i)), patterns=[NTL(c.result(), A_(c, 1), i)]))], given=lambda c: [real(A_(c, 0))], pre=lambda c: [('a list that is long enough', shape(A_(c, 0), A_(c, 1), A_(c, 2)))],
                  axioms=lax, loops={0: nthloop}, assumes=asm))

    def ipost(c):
        v, r = N(c, A_(c, 1)), N(c, c.result())
        a = acc(VE, 'arr', v)
        return [('term', z3.And(real(r), kind(r) == A_(c, 0), nch(r) == vlen(VE, v), Q([j], z3.Implies(z3.And(0 <= j, j < vlen(VE, v)), ch(r, j) == S(a, j)), patterns=[ch(r, j)])))]
    out.append(Fn('ethos::State::mkExprInternal', ipost, trusted=True, why='the term with this kind and these children (B01)'))

    def chain(r, op, l, a, m, n, tail):
        """r consists of cells for a[m], ..., a[n-1] before the given tail"""
        return z3.And(real(r), NTL(r, l, n - m) == tail, Q([i], z3.Implies(z3.And(0 <= i, i < n - m), z3.And(CELL(NTL(r, l, i), op), EL(r, l, i) == S(a, m + i))), patterns=[NTL(r, l, i)]))

    def ppost(c):
        op, ret, v, l = A_(c, 0), A_(c, 1), N(c, A_(c, 2)), A_(c, 3)
        yield 'the elements before the tail', chain(N(c, c.result()), op, l, acc(VE, 'arr', v), z3.IntVal(0), vlen(VE, v), ret)
        r, n = N(c, c.result()), vlen(VE, v)
        yield 'the tails of the tail', Q([i], z3.Implies(i >= n, NTL(r, l, i) == NTL(ret, l, i - n)), patterns=[NTL(r, l, i)])

    def ploop(cx):
        c = cx.callctx()
        op, ret0, v, l = A_(c, 0), A_(c, 1), N(c, A_(c, 2)), A_(c, 3)
        k = cx.v('rit').pos
        n = vlen(VE, v)
        yield 'range', z3.And(0 <= k, k <= n)
        cur = cx.v('ret', EV)
        cx.st.assume(z3.Or(UNF(cur, l), NTL(cur, l, 0) == cur))
        cx.st.assume(UNF(cur, l))
        yield 'the elements so far', chain(cur, op, l, acc(VE, 'arr', v), n - k, n, ret0)
    out.append(Fn('ethos::TypeChecker::prependNAryChildren', ppost, given=lambda c: [real(A_(c, 0)), real(A_(c, 1)), Q([i], z3.Implies(z3.And(0 <= i, i < vlen(VE, A_(c, 2))), real(S(acc(VE, 'arr', A_(c, 2)), i))), patterns=[S(acc(VE, 'arr', A_(c, 2)), i)])],
                  axioms=lax, loops={0: ploop, 1: ploop}, assumes=asm, mods=lambda c: [('o', 'State', 'd_typeCache')]))

    # ---- operators on lists, as relations between their arguments and results
    CNT = z3.Function('occurrences', E, B, E, I, I)              # of x among the first i elements of e
    cnt = CNT(e, l, x, i)
    cax = [Q([e, l, x, i], z3.Implies(i == 0, cnt == 0), patterns=[cnt]),
           Q([e, l, x, i, k_], z3.Implies(z3.And(i >= 0, k_ == i + 1), CNT(e, l, x, k_) == cnt + z3.If(EL(e, l, i) == x, 1, 0)), patterns=[so.MP(cnt, CNT(e, l, x, k_))])]
    TAGS = ['ERASE_ALL', 'SETOF', 'DIFF', 'INTER']
    tg = {t_: z3.IntVal(q) for q, t_ in enumerate(TAGS)}
    tag = z3.Int('tag!l')
    DROP, POS = z3.Function('dropped', I, E, E, E, B, I, B), z3.Function('position', I, E, E, E, B, I, I)
    RES = {t_: z3.Function('isList_' + t_, E, E, E, E, B, B) for t_ in TAGS + ['REV', 'ERASE']}
    PRED = {t_: z3.Function('holds_' + t_, E, E, E, B, B) for t_ in ('MINCLUDE', 'MEQ')}
    dr, ps = DROP(tag, e, f, op, l, i), POS(tag, e, f, op, l, i)
    h = EL(e, l, i)
    n1, n2 = LEN(e, op, l), LEN(f, op, l)
    more = CNT(e, l, h, i) < CNT(f, l, h, n2)                    # an occurrence of it in f is left
    cax += [Q([tag, e, f, op, l, i], dr == z3.If(tag == tg['ERASE_ALL'], h == f, z3.If(tag == tg['SETOF'], CNT(e, l, h, i) > 0, z3.If(tag == tg['DIFF'], more, z3.Not(more)))), patterns=[dr]),
            Q([tag, e, f, op, l, i], z3.Implies(i == 0, ps == 0), patterns=[ps]),
            Q([tag, e, f, op, l, i, k_], z3.Implies(z3.And(i >= 0, k_ == i + 1), POS(tag, e, f, op, l, k_) == ps + z3.If(dr, 0, 1)), patterns=[so.MP(ps, POS(tag, e, f, op, l, k_))])]

    rng = [(q, Q([v for v in vs], z3.Implies(i >= 0, z3.And(0 <= q, q <= i)), patterns=[q])) for q, vs in ((cnt, [e, l, x, i]), (ps, [tag, e, f, op, l, i]))]
    if not any(o[0].startswith('numbers of elements') for o in d.lemma_obs):
        base = d.axioms + d.qf_axioms + ax + cax
        for q, _ in rng:
            at = lambda v: z3.substitute(q, (i, v))
            d.lemma_obs.append(('numbers of elements (base): %s' % q.decl(), [], at(z3.IntVal(0)) == 0, base))
            d.lemma_obs.append(('numbers of elements (induction): %s' % q.decl(), [i >= 0, k_ == i + 1, q >= 0, q <= i], z3.And(0 <= at(k_), at(k_) <= k_), base))
    cax += [a for _, a in rng]
    # a list and itself
    hj = EL(e, l, j)
    lat = Q([e, l, j, n_], z3.Implies(z3.And(0 <= j, j < n_), CNT(e, l, hj, j) < CNT(e, l, hj, n_)), patterns=[so.MP(CNT(e, l, hj, j), CNT(e, l, hj, n_))])
    self_ = [(t_, POS(tg[t_], e, e, op, l, i), v) for t_, v in (('DIFF', z3.IntVal(0)), ('INTER', i))]
    slf = [Q([e, op, l, i], z3.Implies(z3.And(0 <= i, i <= n1), p == v), patterns=[p]) for _, p, v in self_]
    if not any(o[0].startswith('an element occurs') for o in d.lemma_obs):
        base = d.axioms + d.qf_axioms + ax + cax
        c_ = lambda v: CNT(e, l, hj, v)
        d.lemma_obs.append(('an element occurs again (base)', [0 <= j, k_ == j + 1], c_(j) < c_(k_), base))
        d.lemma_obs.append(('an element occurs again (induction)', [0 <= j, j < n_, k_ == n_ + 1, c_(j) < c_(n_)], c_(j) < c_(k_), base))
        for t_, p, v in self_:
            at = lambda p, q: z3.substitute(p, (i, q))
            d.lemma_obs.append(('a list and itself (base): ' + t_, [], at(p, z3.IntVal(0)) == 0, base + [lat]))
            d.lemma_obs.append(('a list and itself (induction): ' + t_, [0 <= i, i < n1, k_ == i + 1, p == v, DROP(tg[t_], e, e, op, l, i) == DROP(tg[t_], e, e, op, l, i), z3.Or(DROP(tg[t_], e, e, op, l, i), z3.Not(DROP(tg[t_], e, e, op, l, i)))],
                                at(p, k_) == at(v, k_), base + [lat]))
    cax += [lat] + slf

    def filtered(tag, r, e, f, op, l):
        """r is the list of the elements of e that are not dropped, in their order"""
        n = LEN(e, op, l)
        at = lambda q: POS(tag, e, f, op, l, q)
        return [('a list', z3.And(real(r), Q([i], z3.Implies(z3.And(0 <= i, i < at(n)), CELL(NTL(r, l, i), op)), patterns=[NTL(r, l, i)]))), ('end', NTL(r, l, at(n)) == END(e, op, l)),
                ('elements', Q([j], z3.Implies(z3.And(0 <= j, j < n, z3.Not(DROP(tag, e, f, op, l, j))), z3.And(0 <= at(j), at(j) < at(n), EL(r, l, at(j)) == EL(e, l, j))), patterns=[DROP(tag, e, f, op, l, j)]))]

    def flt(c, name, t_, r, e, f, op, l, on=None):
        w = (lambda p: z3.Implies(on, p)) if on is not None else (lambda p: p)
        if c.verifying:
            return [('%s (%s)' % (name, n), w(p)) for n, p in filtered(tg[t_], r, e, f, op, l)]
        return [(name, w(RES[t_](r, e, f, op, l)))]
    for t_ in TAGS:
        p_ = RES[t_](t, e, f, op, l)
        cax.append(Q([t, e, f, op, l], p_ == z3.And([p for _, p in filtered(tg[t_], t, e, f, op, l)]), patterns=[p_]))
    p_ = RES['REV'](t, e, f, op, l)
    cax.append(Q([t, e, f, op, l], p_ == z3.And(real(t), NTL(t, l, n1) == END(e, op, l), Q([i], z3.Implies(z3.And(0 <= i, i < n1), z3.And(CELL(NTL(t, l, i), op), EL(t, l, i) == EL(e, l, n1 - 1 - i))), patterns=[NTL(t, l, i)])),
                 patterns=[p_]))
    p_ = RES['ERASE'](t, e, f, op, l)
    before = lambda k: Q([j], z3.Implies(z3.And(0 <= j, j < k), EL(e, l, j) != f), patterns=[EL(e, l, j)])
    cax.append(Q([t, e, f, op, l], p_ == z3.And(real(t), z3.Implies(before(n1), t == e), Q([m_], z3.Implies(z3.And(0 <= m_, m_ < n1, EL(e, l, m_) == f, before(m_)), z3.And(
        NTL(t, l, m_) == NTL(e, l, m_ + 1), Q([i], z3.Implies(z3.And(0 <= i, i < m_), z3.And(CELL(NTL(t, l, i), op), EL(t, l, i) == EL(e, l, i))), patterns=[NTL(t, l, i)]))), patterns=[EL(e, l, m_)])),
        patterns=[p_]))
    c1, c2 = CNT(e, l, x, n1), CNT(f, l, x, n2)
    for t_, rel in (('MINCLUDE', c1 <= c2), ('MEQ', c1 == c2)):
        p_ = PRED[t_](e, f, op, l)
        cax.append(Q([e, f, op, l], p_ == Q([x], rel, patterns=[c1, c2]), patterns=[p_]))
    TAGOF = z3.Function('listTag', I, I)
    cax += [TAGOF(K['EVAL_LIST_' + t_]) == v for t_, v in tg.items() if t_ != 'SETOF']
    # finite sets
    CARD, FIN = z3.Function('cardinality', AB, I), z3.Function('finite', AB, B)
    wit = z3.Function('differ', AB, AB, E)
    emp, ins = z3.K(E, z3.BoolVal(False)), z3.Store(s1, x, True)
    sax = [FIN(emp), CARD(emp) == 0, Q([s1, x], z3.Implies(FIN(s1), z3.And(FIN(ins), CARD(ins) == CARD(s1) + z3.If(S(s1, x), 0, 1))), patterns=[so.MP(CARD(s1), ins)]),
           Q([s1, s2], z3.Or(s1 == s2, S(s1, wit(s1, s2)) != S(s2, wit(s1, s2))), patterns=[so.MP(CARD(s1), CARD(s2))]),
           Q([s1, s2], z3.Implies(z3.And(FIN(s1), FIN(s2), CARD(s1) == CARD(s2), Q([x], z3.Implies(S(s1, x), S(s2, x)), patterns=[S(s1, x), S(s2, x)])), s1 == s2), patterns=[so.MP(CARD(s1), CARD(s2))])]

    lit = lambda c, q: acc(VE, 'arr', N(c, A_(c, q)))
    lists = lambda c, q: (S(lit(c, q), 1), S(lit(c, q), 2))
    tc = lambda c: [('o', 'State', 'd_typeCache')]

    def lgiven(o, q, n):
        """arguments: operator at o, nil, isLeft, the vector at q with n terms"""
        def g(c):
            v = N(c, A_(c, q))
            op, l = A_(c, o), A_(c, o + 2)
            return [real(A_(c, o)), real(A_(c, o + 1)), vlen(VE, v) >= n, Q([i], z3.Implies(z3.And(0 <= i, i < vlen(VE, v)), real(S(acc(VE, 'arr', v), i))), patterns=[S(acc(VE, 'arr', v), i)]),
                    c.objfield(c.this, 'd_null') == SNULL]
        return g

    def isl(c, o, t):
        return END(t, A_(c, o), A_(c, o + 2)) == A_(c, o + 1)

    def lpost(o, q, rel, two=False):
        def post(c):
            r = N(c, c.result())
            e, f = lists(c, q)
            ok = z3.And(isl(c, o, e), isl(c, o, f)) if two else isl(c, o, e)
            yield 'not evaluated iff an argument is no list', (r == SNULL) == z3.Not(ok)
            yield 'no null pointer', r != NULLP
            yield from ((n, z3.Implies(ok, p)) for n, p in rel(c, r, e, f, A_(c, o), A_(c, o + 2)))
        return post

    out.append(Fn('ethos::TypeChecker::evaluateListRevInternal', lpost(0, 3, lambda c, r, e, f, op, l: [('the elements in reverse order', RES['REV'](r, e, e, op, l))]), given=lgiven(0, 3, 2), axioms=ax + cax, assumes=asm, mods=tc))

    kk = lambda c, n: A_(c, 0) == K['EVAL_LIST_' + n]

    def eraseloop(cx):
        c = cx.callctx()
        op, l = A_(c, 1), A_(c, 3)
        e, y = lists(c, 4)
        n = LEN(e, op, l)
        p, ci, cs = cx.v('i', SZ), cx.v('changeIndex', SZ), cx.v('changeSize', SZ)
        hv, rs = N(cx, cx.v('hargs', VE)), N(cx, cx.v('result', VE))
        ra = acc(VE, 'arr', rs)
        al = kk(c, 'ERASE_ALL')
        yield from finv(cx, al, tg['ERASE_ALL'], e, y, op, l)
        yield 'erase: only elements that are kept so far', z3.Implies(z3.Not(al), z3.And(ci == 0, vlen(VE, rs) == p, Q([j], z3.Implies(z3.And(0 <= j, j < p), z3.And(S(ra, j) == EL(e, l, j), EL(e, l, j) != y)), patterns=[S(b, j) for b in bases(ra)] + [EL(e, l, j)])))

    def finv(cx, on, tag, e, f, op, l):
        n = LEN(e, op, l)
        p, ci, cs = cx.v('i', SZ), cx.v('changeIndex', SZ), cx.v('changeSize', SZ)
        rs = N(cx, cx.v('result', VE))
        ra = acc(VE, 'arr', rs)
        at = lambda q: POS(tag, e, f, op, l, q)
        dr = lambda q: DROP(tag, e, f, op, l, q)
        kept = lambda hi: z3.And(0 <= j, j < hi, z3.Not(dr(j)))
        yield 'range', z3.And(0 <= p, p <= n, 0 <= ci, ci <= p)
        yield 'elements are terms', Q([j], z3.Implies(z3.And(0 <= j, j < vlen(VE, rs)), real(S(ra, j))), patterns=[S(b, j) for b in bases(ra)])
        yield 'number of elements so far', z3.Implies(on, z3.And(vlen(VE, rs) == at(p), 0 <= at(p), at(p) <= p))
        yield 'number of elements at the last change', z3.Implies(on, z3.And(cs == at(ci), 0 <= at(ci), at(ci) <= at(p)))
        yield 'the elements so far', z3.Implies(on, Q([j], z3.Implies(kept(p), z3.And(0 <= at(j), at(j) < at(p), S(ra, at(j)) == EL(e, l, j))), patterns=[dr(j)]))
        yield 'the elements up to the last change', z3.Implies(on, Q([j], z3.Implies(kept(ci), at(j) < at(ci)), patterns=[dr(j)]))
        yield 'nothing is dropped since', z3.Implies(on, Q([j], z3.Implies(z3.And(ci <= j, j <= p), z3.And(at(j) == at(ci) + j - ci, z3.Implies(j < p, z3.Not(dr(j))))), patterns=[at(j), dr(j)]))
    out.append(Fn('ethos::TypeChecker::evaluateListEraseInternal', lpost(1, 4, lambda c, r, e, f, op, l: [
        ('erase: without the first occurrence', z3.Implies(z3.Not(kk(c, 'ERASE_ALL')), RES['ERASE'](r, e, f, op, l))), *flt(c, 'erase_all: without all occurrences', 'ERASE_ALL', r, e, f, op, l, kk(c, 'ERASE_ALL'))]),
        given=lgiven(1, 4, 3), axioms=ax + cax, assumes=asm, loops={0: eraseloop}, mods=tc))

    def setofloop(cx):
        c = cx.callctx()
        op, l = A_(c, 0), A_(c, 2)
        e, _ = lists(c, 3)
        p = cx.v('i', SZ)
        D = acc(SE, 'dom', N(cx, cx.v('seen', SE)))
        yield from finv(cx, z3.BoolVal(True), tg['SETOF'], e, e, op, l)
        yield 'the elements seen', Q([x], z3.And(S(D, x) == (CNT(e, l, x, p) > 0), CNT(e, l, x, p) >= 0), patterns=[S(D, x), CNT(e, l, x, p)])
    out.append(Fn('ethos::TypeChecker::evaluateListSetOfInternal', lpost(0, 3, lambda c, r, e, f, op, l: flt(c, 'the first occurrences', 'SETOF', r, e, e, op, l)), given=lgiven(0, 3, 2), axioms=ax + cax, assumes=asm, loops={0: setofloop}, mods=tc))

    cdv = lambda m: (acc(CM, 'dom', m), acc(CM, 'val', m))

    def counts(m, e, l, n):
        """the map counts the first n elements of e"""
        D, V = cdv(m)
        q = CNT(e, l, x, n)
        yield 'the elements that occur', Q([x], S(D, x) == (q > 0), patterns=[S(D, x), q])
        yield 'the occurrences', Q([x], z3.Implies(S(D, x), S(V, x) == q), patterns=[S(V, x), q])

    def countloop(q, var, card):
        def lp(cx):
            c = cx.callctx()
            e = lists(c, 4)[q]
            m = N(cx, cx.v(var, CM))
            yield from counts(m, e, A_(c, 3), cx.idx)
            if card:
                D = acc(CM, 'dom', m)
                yield 'number of different elements', z3.And(FIN(D), acc(CM, 'size', m) == CARD(D), acc(CM, 'size', m) >= 0)
        return lp

    def cmploop(cx):
        c = cx.callctx()
        op, l = A_(c, 1), A_(c, 3)
        e, f = lists(c, 4)
        n, m = LEN(e, op, l), LEN(f, op, l)
        eq = kk(c, 'MEQ')
        yield from counts(N(cx, cx.v('count2', CM)), f, l, m)
        yield 'the elements so far', Q([x], z3.Implies(S(cx.done, x), z3.If(eq, CNT(f, l, x, m) == CNT(e, l, x, n), CNT(f, l, x, m) >= CNT(e, l, x, n))), patterns=[S(cx.done, x)])

    def mpost(c):
        r = N(c, c.result())
        e, f = lists(c, 4)
        op, l = A_(c, 1), A_(c, 3)
        ok = z3.And(isl(c, 1, e), isl(c, 1, f))
        tr, fa = F(c, 'd_true'), F(c, 'd_false')
        yield 'not evaluated iff an argument is no list', (r == SNULL) == z3.Not(ok)
        yield 'no null pointer', r != NULLP
        p = z3.If(kk(c, 'MEQ'), PRED['MEQ'](e, f, op, l), PRED['MINCLUDE'](e, f, op, l))
        yield 'a Boolean', z3.Implies(ok, r == z3.If(p, tr, fa))
    bools = lambda c: [real(F(c, 'd_true')), real(F(c, 'd_false'))]
    out.append(Fn('ethos::TypeChecker::evaluateListMPredInternal', mpost, given=lambda c: lgiven(1, 4, 3)(c) + bools(c), axioms=ax + cax + sax, assumes=asm,
                  loops={0: countloop(0, 'count1', True), 1: countloop(1, 'count2', True), 2: cmploop}, mods=tc))

    def diffloop(cx):
        c = cx.callctx()
        op, l = A_(c, 1), A_(c, 3)
        e, f = lists(c, 4)
        m, p = LEN(f, op, l), cx.v('i', SZ)
        D, V = cdv(N(cx, cx.v('count2', CM)))
        a, b = CNT(f, l, x, m), CNT(e, l, x, p)
        yield from finv(cx, z3.BoolVal(True), TAGOF(A_(c, 0)), e, f, op, l)
        yield 'the elements that are left', Q([x], z3.Implies(S(D, x), a > b), patterns=[S(D, x), b])
        yield 'all of them', Q([x], z3.Implies(a > b, S(D, x)), patterns=[S(D, x), b])
        yield 'the occurrences that are left', Q([x], z3.Implies(S(D, x), S(V, x) == a - b), patterns=[S(V, x), b])
    out.append(Fn('ethos::TypeChecker::evaluateListDiffInterInternal', lpost(1, 4, lambda c, r, e, f, op, l: [
        *flt(c, 'diff: without one occurrence for each occurrence in the second list', 'DIFF', r, e, f, op, l, kk(c, 'DIFF')),
        *flt(c, 'inter: one occurrence for each occurrence in the second list', 'INTER', r, e, f, op, l, kk(c, 'INTER'))], two=True),
        given=lambda c: lgiven(1, 4, 3)(c) + [z3.Or(kk(c, 'DIFF'), kk(c, 'INTER'))], axioms=ax + cax, assumes=asm, loops={0: countloop(1, 'count2', False), 1: diffloop}, mods=tc))
    d.lax, d.LRES, d.LPRED = lax, RES, PRED
    return out
