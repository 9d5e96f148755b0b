"""Programs: TypeChecker::evaluateProgramInternal and evaluateProgramApp."""
import z3
from . import sorts as so, trie as tr
from .sorts import acc, mk, sort, vlen, I, B, E, NULLP, SNULL
from .domain import kind, VE, EV
from .c_state import Fn, F, st, EX, VX, S, Q, N, AI, APP, val, dom, ghost, G, GT, touch
from .c_term import ME, nonground, evaluable, expand, height

CTX = ME
AB, AE = z3.ArraySort(E, B), z3.ArraySort(E, E)
GT.update(ev_t=EV, ev_ctx=CTX, ev_res=EX)
dv = lambda m: (acc(ME, 'dom', m), acc(ME, 'val', m))


def evaluate(d, out):
    """TypeChecker::evaluate (B04): the call is logged in ghost state"""
    def post(c):
        return [('not null', z3.And(c.result() != SNULL, c.result() != NULLP))]

    def ghosts(c):
        g = dict(ev_t=c.a(0), ev_ctx=c.a(1), ev_res=c.result())
        return list(zip(touch(c, *g), g.values()))
    out.append(Fn('ethos::TypeChecker::evaluate', post, mods=lambda c: touch(c, 'ev_t', 'ev_ctx', 'ev_res'), ghosts=ghosts, trusted=True,
                  why='evaluation is proved in B04; here only that it is called with the right term and bindings'))


def contracts(d):
    K = d.K
    T = d.termspec
    out = []
    i, j = z3.Ints('i!g j!g')
    e = z3.Const('e!g', E)
    D, V = z3.Const('D!g', AB), z3.Const('V!g', AE)
    A = lambda m, x, f: acc(AI, f, S(val(APP, m), x))
    ATTR = {k.split('::')[-1]: v for k, v in d.p.enums.items() if k.startswith('ethos::Attr::')}
    ax = T.axioms + [T.mono, T.trans, Q([e], z3.Implies(kind(e) == K['NONE'], e == SNULL), patterns=[kind(e)])]
    asm = ['only the null term has kind NONE', 'the cases of a program are pairs of a pattern and a result, with as many patterns as the program has arguments (T01)',
           'terms are finite and acyclic', 'termination is not proved (partial correctness)']

    # ---- groundness of arguments
    def igpost(c):
        v = N(c, c.a(0))
        a, n = acc(VE, 'arr', v), vlen(VE, v)
        allg = Q([i], z3.Implies(z3.And(0 <= i, i < n), z3.Not(nonground(S(a, i)))), patterns=[S(a, i)])
        return [('all terms are ground', c.result() == allg)]

    def igloop(cx):
        v = cx.at_entry('args', VE)
        yield 'ground so far', Q([i], z3.Implies(z3.And(0 <= i, i < cx.idx), z3.Not(nonground(S(acc(VE, 'arr', v), i)))), patterns=[S(acc(VE, 'arr', v), i)])
    nn = lambda v: Q([i], z3.Implies(z3.And(0 <= i, i < vlen(VE, v)), z3.And(S(acc(VE, 'arr', v), i) != NULLP, S(acc(VE, 'arr', v), i) != SNULL)), patterns=[S(acc(VE, 'arr', v), i)])
    FL = [('g', 'flag%d' % i) for i in range(3)]
    out.append(Fn('ethos::TypeChecker::isGround', igpost, given=lambda c: [nn(c.a(0))], loops={0: igloop}, axioms=ax, free=FL))

    # ---- evaluateProgramInternal
    STEP = z3.Function('programStep', tr.TN, E, AB, AE, B)
    path = z3.Function('pathNode', tr.TN, z3.ArraySort(I, E), I, tr.TN)
    CM = z3.Function('caseMatches', I, AB, AE, B)
    NM = z3.Function('caseNeverMatches', I, B)
    XC = z3.Function('expandCase', I, AB, AE, B)
    wD, wV = z3.Function('caseD', I, AB), z3.Function('caseV', I, AE)
    fm = z3.Int('firstMatch')
    cx0 = lambda x, k: z3.If(d.ch(x, k) == NULLP, SNULL, d.ch(x, k))

    def parts(c):
        ch = N(c, c.a(0))
        arr, n = acc(VE, 'arr', ch), vlen(VE, ch)
        hd = S(arr, 0)
        m = F(c, 'd_appData')
        P = A(m, hd, 'd_attrConsTerm')
        has = z3.And(S(dom(APP, m), hd), A(m, hd, 'd_attrCons') == ATTR['PROGRAM'], P != SNULL, P != NULLP)
        return ch, arr, n, hd, P, has

    def defs(c):
        """what it means that a case matches, and which is the first to match"""
        ch, arr, n, hd, P, has = parts(c)
        head = d.ch(d.ch(P, i), 0)
        pat = d.ch(head, j)
        cm = z3.And(d.nch(head) == n, Q([j], z3.Implies(z3.And(1 <= j, j < n), T.M(pat, S(arr, j), D, V)), patterns=[pat, S(arr, j)]))
        np = d.nch(P)
        return [Q([i, D, V], CM(i, D, V) == cm, patterns=[CM(i, D, V), XC(i, D, V)]),
                Q([i, D, V], z3.Implies(NM(i), z3.Not(CM(i, D, V))), patterns=[so.MP(NM(i), CM(i, D, V))]),
                Q([i], z3.Implies(z3.Not(NM(i)), CM(i, wD(i), wV(i))), patterns=[NM(i)]),
                z3.And(0 <= fm, fm <= np), Q([i], z3.Implies(z3.And(0 <= i, i < fm), NM(i)), patterns=[NM(i)]), z3.Implies(fm < np, z3.Not(NM(fm))),
                Q([i, D, V], z3.Implies(z3.And(0 <= i, i < fm), NM(i)), patterns=[XC(i, D, V)])]

    def given(c):
        ch, arr, n, hd, P, has = parts(c)
        case = d.ch(P, i)
        return defs(c) + [nn(ch), n >= 1, F(c, 'd_appData') == F(c, 'd_appData'), Q([e], z3.Implies(S(dom(APP, F(c, 'd_appData')), e), A(F(c, 'd_appData'), e, 'd_attrConsTerm') != NULLP), patterns=[S(dom(APP, F(c, 'd_appData')), e)]),
                c.objfield(c.this, 'd_null') == SNULL,  F(c, 'd_null') == SNULL,
                z3.Implies(has, Q([i], z3.Implies(z3.And(0 <= i, i < d.nch(P)), z3.And(case != NULLP, case != SNULL, d.nch(case) == 2, d.ch(case, 0) != NULLP, d.ch(case, 1) != NULLP,
                    d.ch(case, 1) != SNULL, d.ch(case, 0) != SNULL, d.nch(d.ch(case, 0)) == d.nch(d.ch(d.ch(P, 0), 0)))), patterns=[case])),
                z3.Implies(has, Q([i, j], z3.Implies(z3.And(0 <= i, i < d.nch(P), 0 <= j, j < d.nch(d.ch(case, 0))), d.ch(d.ch(case, 0), j) != NULLP), patterns=[d.ch(d.ch(case, 0), j)]))]

    def guard(c):
        ch, arr, n, hd, P, has = parts(c)
        allg = Q([i], z3.Implies(z3.And(0 <= i, i < n), z3.Not(nonground(S(arr, i)))), patterns=[S(arr, i)])
        alle = Q([i], z3.Implies(z3.And(1 <= i, i < n), z3.Not(evaluable(S(arr, i)))), patterns=[S(arr, i)])
        return z3.And(allg, alle, has)

    def post(c):
        ch, arr, n, hd, P, has = parts(c)
        r = c.result()
        g = c.ex.fresh(B, 'guard')
        c.st.assume(g == guard(c))
        m1 = dv(N(c, c.new(1)))
        np = d.nch(P)
        yield 'stuck unless all arguments are values', z3.Implies(z3.Not(g), r == SNULL)
        yield 'stuck if no case matches', z3.Implies(z3.And(g, fm == np), r == SNULL)
        M_ = z3.And(g, fm < np)
        yield 'the result of the first case that matches', z3.Implies(M_, r == d.ch(d.ch(P, fm), 1))
        yield 'the bindings match the patterns of the case', z3.Implies(M_, CM(fm, *m1))
        least = Q([D, V], z3.Implies(CM(fm, D, V), T.ext(*m1, D, V)), patterns=[CM(fm, D, V)])
        yield 'and bind no more than necessary', z3.Implies(M_, least)
        yield 'the result is a term or none', r != NULLP
        yield 'bindings are terms', z3.Implies(r != SNULL, Q([e], z3.Implies(S(m1[0], e), z3.And(S(m1[1], e) != NULLP, S(m1[1], e) != SNULL)), patterns=[S(m1[0], e), S(m1[1], e)]))
        # the name under which evaluate (c_eval) refers to all of this
        sq = STEP(path(tr.root(-7), arr, n), r, *m1)
        if c.verifying:
            c.st.assume(sq == z3.If(M_, z3.And(r == d.ch(d.ch(P, fm), 1), CM(fm, *m1), least), r == SNULL))
        yield 'a step of the program', sq

    def argloop(cx):
        ch = cx.at_entry('children', VE)
        a = acc(VE, 'arr', ch)
        n = cx.v('j', ('int', 64, False))
        yield 'range', z3.And(1 <= n, n <= vlen(VE, ch))
        yield 'values so far', Q([i], z3.Implies(z3.And(1 <= i, i < n), z3.Not(evaluable(S(a, i)))), patterns=[S(a, i)])

    def outer(cx):
        n = cx.v('i', ('int', 64, False))
        yield 'range', z3.And(0 <= n, n <= d.nch(cx.v('prog', EX)))
        yield 'no case so far matches', Q([i], z3.Implies(z3.And(0 <= i, i < n), NM(i)), patterns=[NM(i)])

    def inner(cx):
        k = cx.v('j', ('int', 64, False))
        ci = cx.v('i', ('int', 64, False))
        ch, P = cx.v('children', VE), cx.v('prog', EX)
        a = acc(VE, 'arr', ch)
        head = d.ch(d.ch(P, ci), 0)
        pat = d.ch(head, j)
        m = cx.v('newCtx', ME)
        mm = dv(m)
        for x in (k - 1, k):
            cx.st.assume(expand(d.ch(head, x)))
        cx.st.assume(XC(ci, *mm))
        yield 'range', z3.And(1 <= k, k <= vlen(VE, ch))
        md, mv = cx.ex.fresh(AB, 'dom'), cx.ex.fresh(AE, 'val')
        cx.st.assume(z3.And(md == mm[0], mv == mm[1]))
        yield 'bindings are terms', Q([e], z3.Implies(S(md, e), z3.And(S(mv, e) != NULLP, S(mv, e) != SNULL)), patterns=[S(md, e), S(mv, e)])
        yield 'the patterns so far match', Q([j], z3.Implies(z3.And(1 <= j, j < k), T.M(pat, S(a, j), *mm)), patterns=[pat])
        yield 'every match of the case extends the bindings', Q([D, V], z3.Implies(CM(ci, D, V), T.ext(*mm, D, V)), patterns=[CM(ci, D, V)])
    out.append(Fn('ethos::TypeChecker::evaluateProgramInternal', post, given=given, axioms=ax, assumes=asm, free=FL + [('o', 'Stats', 'd_pstats')], mods=lambda c: [c.lv(1), ('o', 'Stats', 'd_pstats')],
                  loops={'nchildren matchSuccess': outer, 'isEvaluatable': argloop, 'matchSuccess': inner}))

    # ---- evaluateProgramApp
    evaluate(d, out)

    def ipost(c):
        v, r = N(c, c.a(1)), N(c, c.result())
        a = acc(VE, 'arr', v)
        return [('term', z3.And(r != NULLP, r != SNULL, kind(r) == c.a(0), d.nch(r) == vlen(VE, v),
                                Q([j], z3.Implies(z3.And(0 <= j, j < vlen(VE, v)), d.ch(r, j) == S(a, j)), patterns=[d.ch(r, j)])))]
    out.append(Fn('ethos::State::mkExprInternal', ipost, trusted=True, why='the term with this kind and these children (B01)'))

    def aparts(c):
        v = N(c, c.a(0))
        m = F(c, 'd_appData')
        hd = S(acc(VX, 'arr', v), 0)
        P = A(m, hd, 'd_attrConsTerm')
        has = z3.And(S(dom(APP, m), hd), A(m, hd, 'd_attrCons') == ATTR['PROGRAM'], P != SNULL, P != NULLP)
        return v, acc(VX, 'arr', v), vlen(VX, v), P, has

    def apost(c):
        v, arr, n, P, has = aparts(c)
        r = N(c, c.result())
        ok = z3.And(Q([i], z3.Implies(z3.And(0 <= i, i < n), z3.Not(nonground(S(arr, i)))), patterns=[S(arr, i)]),
                    Q([i], z3.Implies(z3.And(1 <= i, i < n), z3.Not(evaluable(S(arr, i)))), patterns=[S(arr, i)]), has)
        g = c.ex.fresh(B, 'guard')
        c.st.assume(g == ok)
        stuck = z3.And(kind(r) == K['APPLY'], d.nch(r) == n, Q([i], z3.Implies(z3.And(0 <= i, i < n), d.ch(r, i) == S(arr, i)), patterns=[d.ch(r, i)]))
        yield 'the application itself unless all arguments are values', z3.Implies(z3.Not(g), stuck)
        yield 'the application itself if no case matches', z3.Implies(z3.And(g, fm == d.nch(P)), stuck)
        M_ = z3.And(g, fm < d.nch(P))
        yield 'the value of the result of the first case that matches', z3.Implies(M_, z3.And(r == G(c, 'ev_res', True), G(c, 'ev_t', True) == d.ch(d.ch(P, fm), 1)))
        yield 'under bindings that match its patterns', z3.Implies(M_, CM(fm, *dv(G(c, 'ev_ctx', True))))

    def acloop(cx):
        va, v = cx.v('vargs', VE), cx.at_entry('args', VX)
        yield 'copied so far', z3.And(vlen(VE, va) == cx.idx, Q([i], z3.Implies(z3.And(0 <= i, i < cx.idx), S(acc(VE, 'arr', va), i) == S(acc(VX, 'arr', v), i)),
                                                               patterns=[S(acc(VE, 'arr', va), i), S(acc(VX, 'arr', v), i)]))

    def agiven(c):
        v, arr, n, P, has = aparts(c)
        head, pat = d.ch(d.ch(P, i), 0), d.ch(d.ch(d.ch(P, i), 0), j)
        return [0 <= fm, fm <= d.nch(P), n > 1, Q([i], z3.Implies(z3.And(0 <= i, i < n), S(arr, i) != NULLP), patterns=[S(arr, i)]), c.objfield(c.this, 'd_null') == SNULL,  F(c, 'd_null') == SNULL,
                z3.Implies(has, Q([i], z3.Implies(z3.And(0 <= i, i < d.nch(P)), z3.And(d.ch(d.ch(P, i), 1) != NULLP, d.ch(d.ch(P, i), 1) != SNULL)), patterns=[d.ch(P, i)]))]
    out.append(Fn('ethos::TypeChecker::evaluateProgramApp', apost, given=agiven, axioms=ax, assumes=asm, free=FL,
                  mods=lambda c: touch(c, 'ev_t', 'ev_ctx', 'ev_res') + [('o', 'Stats', 'd_pstats')], loops={0: acloop}))
    return out
