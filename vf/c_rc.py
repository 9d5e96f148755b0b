"""Reference counts (M01): a term is released only when nothing refers to it, once, and leaves the tables before.

Ghost state: for every term, whether it was handed back (freed).  The count of a
term is the ghost array rc.  What the destructors of erased table entries drop is
not modelled (see `assumes`).
"""
import z3
from . import sorts as so
from . import trie as tr
from .sorts import acc, mk, sort, vlen, I, B, E, NULLP, SNULL
from .domain import kind, VE, EV
from .c_state import Fn, stf, st, EX, VX, S, Q, N, dom, val


def F(c, n, new=False):
    return stf(c.ex, c.st if (new or getattr(c, 'old', None) is None) else c.old, n)


def contracts(d):
    K = d.K
    d.IGNORED = d.IGNORED - {'inc', 'dec'}
    d.newborn_this = True
    out = []
    e, x, y = z3.Consts('e!rc x!rc y!rc', E)
    j, i = z3.Ints('j!rc i!rc')
    arr = lambda c, nm, rng, new=False: d.garr(c.ex, c.st if (new or getattr(c, 'old', None) is None) else c.old, nm, rng, name_it=True)
    rc = lambda c, new=False: arr(c, 'rc', I, new)
    fr = lambda c, new=False: arr(c, 'freed', B, new)
    RC, FR, TD, GC = ('g', 'rc'), ('g', 'freed'), ('o', 'State', 'd_toDelete'), ('o', 'State', 'd_inGarbageCollection')

    def touch(c):
        arr(c, 'rc', I), arr(c, 'freed', B)
        for t in d.ident['TAB']:
            d.ident['table'](c, t)

    def delta(c, x, n):
        """the count of x changes by n, other counts do not change"""
        a, b = rc(c), rc(c, True)
        return z3.And(S(b, x) == S(a, x) + n, Q([e], z3.Implies(e != x, S(b, e) == S(a, e)), patterns=[S(b, e), S(a, e)]))

    same = lambda c: Q([e], S(rc(c, True), e) == S(rc(c), e), patterns=[S(rc(c, True), e)])
    me = lambda c: d.term_of(c.ex, c.thislv(), c.st if c.old is None else c.old)
    word = lambda c: [Q([e], z3.And(0 <= S(rc(c), e), S(rc(c), e) < 2 ** 32 - 1), patterns=[S(rc(c), e)])]
    WORD = 'reference counts do not overflow'
    qv = lambda c, new=False: F(c, 'd_toDelete', new)

    def queued(c, x, new=False):
        q = N(c, qv(c, new))
        return z3.Exists([j], z3.And(0 <= j, j < vlen(VE, q), S(acc(VE, 'arr', q), j) == x))
    TBL = st('d_typeCache', 'd_appData', 'd_pfrSorry', 'd_litIntMap', 'd_litRatMap[0]', 'd_litRatMap[1]', 'd_litBvMap[0]', 'd_litBvMap[1]', 'd_litStrMap')
    GCM = lambda c: [FR, TD, GC] + TBL + I_['tmods'](c) + [('o', 'Stats', 'd_deleteExprCount')]
    I_ = d.ident

    def domof(c, f, x, new=False):
        ct = d.field_type('State', f)
        return S(acc(ct, 'dom', F(c, f, new)), x)

    def incpost(c):
        yield 'one more reference', delta(c, me(c), 1)
    out.append(Fn('ethos::ExprValue::inc', incpost, given=word, mods=lambda c: (touch(c), [RC])[1], assumes=[WORD]))

    known = z3.Function('isAllocated', E, B)
    # ---- the invariant of the tables and of the queue
    def tinv(c, new=False):
        D, P = I_['arr'](c, I_['D'], new), I_['arr'](c, I_['P'], new)
        n = z3.Const('n!rc', tr.TN)
        f = fr(c, new)
        r = I_['triewf'](D, P)
        r.append(('terms are stored at their node', Q([n], z3.Implies(z3.And(n != tr.TNULL, S(D, n) != NULLP), n == I_['node'](S(D, n))), patterns=[S(D, n)])))
        r.append(('the term database has no freed term', Q([n], z3.Implies(z3.And(n != tr.TNULL, S(D, n) != NULLP), z3.Not(S(f, S(D, n)))), patterns=[S(D, n)])))
        for fl in ('d_typeCache', 'd_appData', 'd_pfrSorry'):
            # (the data of other terms than symbols is the name they overload, which State::getOverloads compares)
            x_ = domof(c, fl, e, new)
            sy = z3.BoolVal(True) if fl == 'd_typeCache' else d.isk(e, 'PARAM', 'CONST', 'PROGRAM_CONST', 'PROOF_RULE', 'VARIABLE')
            r.append(('no freed %s in %s' % ('term' if fl == 'd_typeCache' else 'symbol', fl), Q([e], z3.Implies(z3.And(x_, sy), z3.Not(S(f, e))), patterns=[x_])))
        for t, (kt, k, fd) in d.ident['TAB'].items():
            ct, v = d.ident['table'](c, t, new) if hasattr(c, 'old') else (None, None)
            if ct is None:
                from .c_state import name
                ct, v = ('map', ('cls', kt), EX), name(c.ex, c.st, ('o', 'State', t), c.st.store[('o', 'State', t)])
            key = acc(d.LIT, fd, d.litval(e))
            r.append(('literals are in ' + t, Q([e], z3.Implies(z3.And(known(e), kind(e) == K[k], z3.Not(S(f, e))), z3.And(S(dom(ct, v), key), S(val(ct, v), key) == e)), patterns=[d.litval(e), known(e)])))
        return r

    def qinv(c, new=False):
        q, f = qv(c, new), fr(c, new)
        a, n = acc(VE, 'arr', q), vlen(VE, q)
        return [('queued terms are not freed', Q([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(S(a, j) != SNULL, S(a, j) != NULLP, known(S(a, j)), z3.Not(S(f, S(a, j))))), patterns=[S(a, j)])),
                ('terms are queued once', Q([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), S(a, i) != S(a, j)), patterns=[so.MP(S(a, i), S(a, j))])),
                ('terms are queued during a collection', z3.Or(F(c, 'd_inGarbageCollection', new), n == 0))]

    def notq(c, x):
        q = qv(c)
        return Q([j], z3.Implies(z3.And(0 <= j, j < vlen(VE, q)), S(acc(VE, 'arr', q), j) != x), patterns=[S(acc(VE, 'arr', q), j)])

    def term(c):
        v = c.a(0)
        return v if z3.is_expr(v) else d.term_of(c.ex, v.lv, c.st if c.old is None else c.old)

    def mdpre(c):
        x = N(c, term(c))
        return [('a term', z3.And(x != SNULL, x != NULLP, known(x))), ('the term has not been freed', z3.Not(S(fr(c), x))), ('the term is not queued', notq(c, x))]

    def mdpost(c):
        x = N(c, term(c))
        f0, f1 = fr(c), fr(c, True)
        gc0 = F(c, 'd_inGarbageCollection')
        q0, q1 = qv(c), qv(c, True)
        a0, a1 = acc(VE, 'arr', q0), acc(VE, 'arr', q1)
        # (proved for every queue found at entry, because erasing table entries may queue terms)
        yield 'during a collection the term is queued', z3.Implies(gc0, z3.And(vlen(VE, q1) == vlen(VE, q0) + 1, S(a1, vlen(VE, q0)) == x,
                        Q([j], z3.Implies(z3.And(0 <= j, j < vlen(VE, q0)), S(a1, j) == S(a0, j)), patterns=[S(a1, j), S(a0, j)]), Q([e], S(f1, e) == S(f0, e), patterns=[S(f1, e)])))
        yield 'otherwise it is freed', z3.Implies(z3.Not(gc0), z3.And(S(f1, x), vlen(VE, q1) == 0))
        yield 'freed terms stay freed', Q([e], z3.Implies(S(f0, e), S(f1, e)), patterns=[S(f1, e), S(f0, e)])
        yield 'the collection ends as it was found', F(c, 'd_inGarbageCollection', True) == gc0
        for nm, g in tinv(c, True) + qinv(c, True):
            yield 'data invariant: ' + nm, g

    def mdloop(cx):
        x = cx.v('e', EV)
        yield 'a term is released', z3.And(x != SNULL, x != NULLP, known(x), z3.Not(S(fr(cx), x)))
        yield 'no queued term', notq(cx, x)
        first = cx.at_entry('e', EV)
        yield 'the first term or freed', z3.Or(x == first, S(fr(cx), first))
        yield 'collecting', F(cx, 'd_inGarbageCollection')
        f0 = d.garr(cx.ex, cx.entry, 'freed', B)
        yield 'freed terms stay freed', Q([e], z3.Implies(S(f0, e), S(fr(cx), e)), patterns=[S(fr(cx), e)])
        for nm, g in tinv(cx) + qinv(cx)[:2]:
            yield 'data invariant: ' + nm, g
    axs = I_['AX']
    out.append(Fn('ethos::State::markDeleted', mdpost, pre=mdpre, given=lambda c: (touch(c), [g for _, g in tinv(c) + qinv(c)[:2]] + I_['lib0'](c))[1], axioms=axs, mods=GCM, loops={0: mdloop},
                  assumes=['the destructors of the table entries of a released term only queue terms that have just lost their last handle (they call markDeleted during a collection; the pushes are not modelled)',
                           'free() is the release of a term; its children are not released with it (they leak)']))

    # ---- handles
    GI = lambda c: (touch(c), word(c) + [g for _, g in tinv(c) + qinv(c)] + I_['lib0'](c) + [kind(SNULL) == K['NONE']])[1]
    GIN = 'the count of a term is at least the number of its handles (each constructor and assignment adds one, each destructor and assignment takes one: the contracts of this module)'
    same = lambda c: Q([e], S(rc(c, True), e) == S(rc(c), e), patterns=[S(rc(c, True), e)])
    nul = Q([e], z3.Implies(kind(e) == K['NONE'], e == SNULL), patterns=[kind(e)])
    alive = lambda c, x: z3.And(x != SNULL, x != NULLP, known(x), z3.Not(S(fr(c), x)), notq(c, x), S(rc(c), x) >= 1)

    def released(c, x, when):
        f0, f1 = fr(c), fr(c, True)
        q0, q1 = qv(c), qv(c, True)
        yield 'a term nothing refers to any more is released', z3.Implies(when, z3.Or(S(f1, x), z3.And(vlen(VE, q1) == vlen(VE, q0) + 1, S(acc(VE, 'arr', q1), vlen(VE, q0)) == x)))
        yield 'a term something refers to is not released', z3.Implies(z3.Not(when), z3.And(f1 == f0, q0 == q1))
        for nm, g in tinv(c, True) + qinv(c, True):
            yield 'data invariant: ' + nm, g

    def decpost(c):
        x = N(c, me(c))
        yield 'one reference less', delta(c, x, -1)
        yield from released(c, x, S(rc(c), x) == 1)
    out.append(Fn('ethos::ExprValue::dec', decpost, pre=lambda c: [('a live term', alive(c, N(c, me(c))))], given=GI, axioms=axs, mods=lambda c: [RC] + GCM(c), assumes=[WORD]))

    old = lambda c: N(c, c.selfv())
    new = lambda c: N(c, c.selfnew())
    out.append(Fn('ethos::Expr::Expr', lambda c: [('the null term', new(c) == SNULL), ('no count changes', same(c))], nparams=0, given=GI, axioms=axs, mods=lambda c: [RC]))

    def cpost(ptr):
        def post(c):
            x = N(c, c.a(0))
            nl = z3.Or(x == NULLP, x == SNULL) if ptr else x == SNULL
            yield 'refers to the term', new(c) == z3.If(x == NULLP, SNULL, x)
            yield 'one more reference', z3.Implies(z3.Not(nl), delta(c, x, 1))
            yield 'the null term is not counted', z3.Implies(nl, Q([e], z3.Implies(e != SNULL, S(rc(c, True), e) == S(rc(c), e)), patterns=[S(rc(c, True), e)]))
            yield 'nothing is released', z3.And(fr(c, True) == fr(c), qv(c, True) == qv(c))
        return post
    out.append(Fn('ethos::Expr::Expr', cpost(True), sig='ExprValue *', given=GI, axioms=axs + [nul], mods=lambda c: [RC]))
    out.append(Fn('ethos::Expr::Expr', cpost(False), sig='Expr &', given=lambda c: GI(c) + [c.a(0) != NULLP], axioms=axs + [nul], mods=lambda c: [RC]))

    def dpost(c):
        x = old(c)
        yield 'one reference less', z3.Implies(x != SNULL, delta(c, x, -1))
        yield 'the null term is not counted', z3.Implies(x == SNULL, same(c))
        yield from released(c, x, z3.And(x != SNULL, S(rc(c), x) == 1))
    out.append(Fn('ethos::Expr::~Expr', dpost, given=lambda c: GI(c) + [z3.Or(old(c) == SNULL, alive(c, old(c)))], axioms=axs + [nul], mods=lambda c: [RC] + GCM(c), free=[('p', 'this')], assumes=[GIN]))

    def apost(c):
        x, y = old(c), N(c, c.a(0))
        a, b = rc(c), rc(c, True)
        yield 'refers to the term', new(c) == y
        yield 'the counts of the two terms change by one', z3.If(x == y, same(c), Q([e], z3.Implies(e != SNULL, S(b, e) == S(a, e) + z3.If(e == y, z3.IntVal(1), z3.IntVal(0)) - z3.If(e == x, z3.IntVal(1), z3.IntVal(0))), patterns=[S(b, e), S(a, e)]))
        yield from released(c, x, z3.And(x != SNULL, x != y, S(rc(c), x) == 1))
    out.append(Fn('ethos::Expr::operator=', apost, given=lambda c: GI(c) + [z3.Or(old(c) == SNULL, alive(c, old(c))), z3.Or(c.a(0) == SNULL, alive(c, N(c, c.a(0))))], axioms=axs + [nul],
                  mods=lambda c: [RC] + GCM(c), free=[('p', 'this')], assumes=[GIN]))

    # ---- the children of a term are counted
    cnt = z3.Function('occurrences', z3.ArraySort(I, E), I, E, I)
    a_ = z3.Const('a!rc', z3.ArraySort(I, E))
    cax = [Q([a_, e], cnt(a_, 0, e) == 0, patterns=[cnt(a_, 0, e)]),
           Q([a_, i, e], z3.Implies(i >= 0, cnt(a_, i + 1, e) == cnt(a_, i, e) + z3.If(S(a_, i) == e, z3.IntVal(1), z3.IntVal(0))), patterns=[cnt(a_, i + 1, e)])]

    def xloop(cx):
        v = cx.at_entry('children', VE)
        a0 = d.garr(cx.ex, cx.entry, 'rc', I, name_it=True)
        t = cnt(acc(VE, 'arr', v), cx.idx, e)
        n = z3.Const('this', E)
        yield 'nothing refers to the new term', S(rc(cx), n) == 0
        yield 'the children so far are counted', Q([e], S(rc(cx), e) == S(a0, e) + t, patterns=[S(rc(cx), e), t])

    def xpost(c):
        x, v = N(c, d.term_of(c.ex, c.thislv(), c.st)), N(c, c.a(1))
        a, b = rc(c), rc(c, True)
        t = cnt(acc(VE, 'arr', v), vlen(VE, v), e)
        yield 'nothing refers to the new term', S(b, x) == 0
        yield 'the term refers to its children', Q([e], z3.Implies(e != x, S(b, e) == S(a, e) + t), patterns=[S(b, e), t])
        yield 'the children', z3.And(vlen(VE, d.chs(x)) == vlen(VE, v), Q([j], z3.Implies(z3.And(0 <= j, j < vlen(VE, v)), S(acc(VE, 'arr', d.chs(x)), j) == S(acc(VE, 'arr', v), j)), patterns=[S(acc(VE, 'arr', d.chs(x)), j)]))

    def xgiven(c):
        v = N(c, c.a(1))
        x = d.term_of(c.ex, c.thislv(), c.st)
        touch(c)
        return [Q([e], z3.And(0 <= S(rc(c), e), S(rc(c), e) < 2 ** 31), patterns=[S(rc(c), e)]), vlen(VE, v) < 2 ** 31,
                Q([e, i], z3.Implies(i >= 0, z3.And(0 <= cnt(acc(VE, 'arr', v), i, e), cnt(acc(VE, 'arr', v), i, e) <= i)), patterns=[cnt(acc(VE, 'arr', v), i, e)]),
                Q([j], z3.Implies(z3.And(0 <= j, j < vlen(VE, v)), S(acc(VE, 'arr', v), j) != x), patterns=[S(acc(VE, 'arr', v), j)])]
    L = lambda n: z3.And(0 <= cnt(a_, n, e), cnt(a_, n, e) <= n)
    d.lemma_obs.append(('occurrences (base)', [], L(z3.IntVal(0)), cax))
    d.lemma_obs.append(('occurrences (step)', [i >= 0, L(i)], L(i + 1), cax))
    out.append(Fn('ethos::ExprValue::ExprValue', xpost, nparams=2, given=xgiven, axioms=cax, mods=lambda c: [RC], free=[('g', 'flag%d' % q) for q in range(3)], loops={0: xloop}, assumes=[WORD]))
    return out
