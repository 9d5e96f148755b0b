"""TypeChecker::evaluate: simultaneous substitution, bottom-up evaluation (B04).

evalsTo(t, D, V, r): r is a value of t when the parameters in D are replaced by V.
The relation is any one closed under the rules below (so in particular the least one):
  param   a parameter in D evaluates to its binding as it is, any other to itself
  leaf    a term without children evaluates to itself
  ite     an if-then-else whose condition evaluates to true/false is its first/second branch,
          otherwise the if-then-else of the evaluated parts
  program the application of a program to the values of the children is what a step of the
          program (STEP, B03) evaluates to under its bindings, the application itself if there is no step
  op      likewise for the operators (LOP, A01-A05)
  other   the term built from the values of the children"""
import z3
from . import sorts as so, trie as tr
from .sorts import acc, mk, sort, vlen, I, B, E, NULLP, SNULL
from .domain import kind, VE, EV
from .c_state import Fn, F, EX, S, Q, N, touch
from .c_term import ME, nonground, evaluable, expand, height, bases
from .trie import TN

AB, AE, AW = z3.ArraySort(E, B), z3.ArraySort(E, E), z3.ArraySort(I, E)
FRT = ('cls', 'EvFrame')
VFR = ('vec', FRT)
SEQ = -7        # the root of the trie used as sequences of terms
dv = lambda m: (acc(ME, 'dom', m), acc(ME, 'val', m))
nn = lambda x: z3.And(x != NULLP, x != SNULL)


class EvalSpec:
    def __init__(s, d):
        K, T = d.K, d.termspec
        t, r, v, x = [z3.Const(n + '!v', E) for n in 'trvx']
        D, V, D2, V2 = z3.Const('D!v', AB), z3.Const('V!v', AE), z3.Const('D2!v', AB), z3.Const('V2!v', AE)
        W = z3.Const('W!v', AW)
        i, k, n = z3.Ints('i!v k!v n!v')
        q = z3.Const('q!v', TN)
        EVS = s.EVS = z3.Function('evalsTo', E, AB, AE, E, B)
        APPV = s.APPV = z3.Function('programValue', TN, E, B)
        STEP = s.STEP = z3.Function('programStep', TN, E, AB, AE, B)
        LOP = s.LOP = z3.Function('operatorValue', I, TN, E, B)
        path = s.path = z3.Function('pathNode', TN, AW, I, TN)
        s.rootk = z3.Function('rootOf', TN, I)
        s.seq = lambda W, n: path(tr.root(SEQ), W, n)
        s.MK = z3.Function('isTerm', E, I, AW, I, B)
        s.KIDS = z3.Function('childrenValues', E, AB, AE, AW, B)
        s.trig = z3.Function('trigW', AW, B)
        s.empty = z3.Function('noBindings', AB, B)
        wit = z3.Function('bindingWitness', AB, E)
        ch, nch = d.ch, d.nch
        s.axioms = ax = []
        ax += [Q([r, k, W, n], s.MK(r, k, W, n) == z3.And(nn(r), kind(r) == k, nch(r) == n, Q([i], z3.Implies(z3.And(0 <= i, i < n), ch(r, i) == S(W, i)), patterns=[S(W, i), ch(r, i)])), patterns=[s.MK(r, k, W, n)]),
               Q([t, D, V, W], s.KIDS(t, D, V, W) == Q([i], z3.Implies(z3.And(0 <= i, i < nch(t)), EVS(ch(t, i), D, V, S(W, i))), patterns=[S(W, i), ch(t, i)]), patterns=[s.KIDS(t, D, V, W)]),
               Q([D], z3.Or(s.empty(D), S(D, wit(D))), patterns=[s.empty(D)]), Q([D, x], z3.Implies(s.empty(D), z3.Not(S(D, x))), patterns=[so.MP(s.empty(D), S(D, x))]),
               Q([q, D, V], z3.Implies(STEP(q, SNULL, D, V), APPV(q, SNULL)), patterns=[STEP(q, SNULL, D, V)]),
               Q([q, t, D, V, r], z3.Implies(z3.And(STEP(q, t, D, V), t != SNULL, EVS(t, D, V, r)), APPV(q, r)), patterns=[so.MP(STEP(q, t, D, V), EVS(t, D, V, r))])]
        s.ite = K['EVAL_IF_THEN_ELSE']
        s.lbool = lambda b: acc(d.LIT, 'd_bool', d.litval(b))

        def rule(t, D, V, W, r, full=True):
            """the rules for a term that has children, with values W of the children"""
            n, k = nch(t), kind(t)
            seq = s.seq(W, n)
            kids = s.KIDS(t, D, V, W)
            mkr = s.MK(r, k, W, n)
            w0 = S(W, 0)
            app = z3.Or(k == K['APPLY'], k == K['APPLY_OPAQUE'])
            prog = z3.And(app, kind(w0) == K['PROGRAM_CONST'])
            op = z3.And(T.isop(k), k != s.ite)
            con = lambda R, v: z3.And(R(v), z3.If(v == SNULL, mkr, r == v))
            by = lambda R: z3.Or(con(R, r), z3.And(R(SNULL), mkr))
            c = [ch(t, j) for j in range(3)]
            e = lambda j: EVS(c[j], D, V, S(W, j))
            b = z3.And(kind(w0) == K['BOOLEAN'], e(0))
            out = [z3.Implies(z3.And(k == s.ite, n == 3, b, s.lbool(w0), EVS(c[1], D, V, r)), EVS(t, D, V, r)),
                   z3.Implies(z3.And(k == s.ite, n == 3, b, z3.Not(s.lbool(w0)), EVS(c[2], D, V, r)), EVS(t, D, V, r)),
                   z3.Implies(z3.And(k == s.ite, n == 3, kind(w0) != K['BOOLEAN'], kids, mkr), EVS(t, D, V, r)),
                   z3.Implies(z3.And(n > 0, kids, prog, by(lambda v: APPV(seq, v))), EVS(t, D, V, r)),
                   z3.Implies(z3.And(n > 0, kids, op, by(lambda v: LOP(k, seq, v))), EVS(t, D, V, r)),
                   z3.Implies(z3.And(n > 0, kids, z3.Not(prog), z3.Not(op), k != s.ite, mkr), EVS(t, D, V, r))]
            return z3.And([z3.Implies(z3.And(n > 0, k != K['PARAM']), o) for o in out])
        s.rule = rule

        def leaf(t, D, V):
            """the rules without premises"""
            k, n = kind(t), nch(t)
            return z3.And(z3.Implies(k == K['PARAM'], EVS(t, D, V, z3.If(S(D, t), S(V, t), t))),
                          z3.Implies(z3.And(k != K['PARAM'], n == 0), EVS(t, D, V, t)),
                          z3.Implies(z3.And(k == s.ite, n != 3), EVS(t, D, V, t)))
        s.leaf = leaf
        # a term without operators, and without parameters (or without bindings), is its own value: by induction on the height
        plain = lambda t, D: z3.And(nn(t), z3.Not(evaluable(t)), z3.Or(z3.Not(nonground(t)), s.empty(D)))
        s.skip = lambda t, D, V: z3.Implies(plain(t, D), EVS(t, D, V, t))
        ax0 = list(ax)
        ax.append(Q([q, t, D, V], z3.And(z3.Or(s.empty(D), z3.Not(s.empty(D))), s.skip(t, D, V)), patterns=[STEP(q, t, D, V)]))
        ih = Q([x], z3.Implies(z3.And(height(x) < height(t), plain(x, D)), EVS(x, D, V, x)), patterns=[EVS(x, D, V, x)])
        W0 = z3.Const('children!v', AW)
        eqc = Q([i], z3.Implies(z3.And(0 <= i, i < nch(t)), z3.And(S(W0, i) == ch(t, i), nn(ch(t, i)), height(ch(t, i)) < height(t))), patterns=[S(W0, i), ch(t, i)])
        d.lemma_obs.append(('plain terms evaluate to themselves (induction on the term)',
                            [plain(t, D), ih, eqc, expand(t), expand(ch(t, 0)), nch(t) >= 0, s.rule(t, D, V, W0, t), s.leaf(t, D, V), kind(S(W0, 0)) == kind(ch(t, 0)), nch(ch(t, 0)) >= 0,
                             z3.Implies(kind(ch(t, 0)) == K['PROGRAM_CONST'], nch(ch(t, 0)) == 0), z3.Implies(kind(t) == K['PARAM'], nch(t) == 0),
                             z3.Or(T.opk(kind(t)), z3.Not(T.opk(kind(t)))), z3.Or(evaluable(ch(t, 0)), z3.Not(evaluable(ch(t, 0)))), z3.Or(S(D, t), z3.Not(S(D, t)))],
                            EVS(t, D, V, t), d.axioms + d.qf_axioms + T.axioms + ax0))


def contracts(d):
    K, T = d.K, d.termspec
    s = EvalSpec(d)
    EVS = s.EVS
    out = []
    x, r, e = [z3.Const(n + '!e', E) for n in 'xre']
    i, j, q, k = z3.Ints('i!e j!e q!e k!e')
    n_ = z3.Const('n!e', TN)
    W, D, V = z3.Const('W!e', AW), z3.Const('D!e', AB), z3.Const('V!e', AE)
    ch, nch = d.ch, d.nch
    rng = lambda x: z3.And(0 <= i, i < nch(x))
    terms = [Q([x, i], z3.Implies(rng(x), nn(ch(x, i))), patterns=[ch(x, i)])]
    PATH = [Q([n_, W, i], s.rootk(s.path(n_, W, i)) == s.rootk(n_), patterns=[s.path(n_, W, i)]), s.rootk(tr.root(SEQ)) == SEQ]

    # ---- callees
    def sgiven(c):
        v = N(c, c.a(0))
        return v, acc(VE, 'arr', v), vlen(VE, v)

    out.append(Fn('ethos::TypeChecker::evaluateLiteralOpInternal', lambda c: [('the value of the operator', s.LOP(c.a(0), s.seq(acc(VE, 'arr', N(c, c.a(1))), vlen(VE, c.a(1))), c.result())),
                                                                        ('not null', c.result() != NULLP)], trusted=True, why='operators (A01-A05)'))
    out.append(Fn('ethos::State::mkExprInternal', lambda c: [('term', s.MK(c.result(), c.a(0), acc(VE, 'arr', N(c, c.a(1))), vlen(VE, c.a(1))))], trusted=True, why='the term with this kind and these children (B01)'))

    def gpost(c):
        v, a, n = sgiven(c)
        t = c.thislv()
        t = t if z3.is_expr(t) else t.root[1]
        yield 'the node of the sequence', z3.And(c.result() == s.path(t, a, n), c.result() != tr.TNULL)
    out.append(Fn('ethos::ExprTrie::get', gpost, trusted=True, why='the node at the end of the path, data is kept (B01)'))

    # ---- frames
    f = lambda fr, n: acc(FRT, n, fr)

    def frame(fr, full=True):
        D, V = dv(f(fr, 'd_ctx'))
        vm = f(fr, 'd_visited')
        X, Y = dv(vm)
        W = f(fr, 'd_visit')
        a, n = acc(VE, 'arr', W), vlen(VE, W)
        init = f(fr, 'd_init')
        l = T.last(a, n, x)
        inprog = z3.And(l >= 0, kind(x) != K['PARAM'], Q([q], z3.Implies(z3.And(l < q, q < n), height(S(a, q)) < height(x)), patterns=[S(b, q) for b in bases(a)]),
                        z3.Implies(kind(x) == s.ite, nch(x) == 3),
                        Q([i], z3.Implies(z3.And(rng(x), z3.Or(kind(x) != s.ite, i == 0)), z3.Or(S(X, ch(x, i)), T.last(a, n, ch(x, i)) > l)), patterns=[ch(x, i)]))
        pats = [S(b, x) for b in bases(X)] + [S(b, x) for b in bases(Y)]
        yield 'values found so far are correct', Q([x], z3.Implies(z3.And(S(X, x), S(Y, x) != SNULL), z3.And(S(Y, x) != NULLP, EVS(x, D, V, S(Y, x)))), patterns=pats)
        yield 'unfinished terms are on the stack', Q([x], z3.Implies(z3.And(S(X, x), S(Y, x) == SNULL), inprog), patterns=pats)
        yield 'terms on the stack', z3.And(n >= 0, Q([q], z3.Implies(z3.And(0 <= q, q < n), nn(S(a, q))), patterns=[S(b, q) for b in bases(a)]))
        yield 'the term of the frame is finished or on the stack', z3.And(nn(init), z3.Or(S(X, init), T.last(a, n, init) >= 0))
        yield 'bindings are terms', Q([x], z3.Implies(S(D, x), nn(S(V, x))), patterns=[S(D, x), S(V, x)])
    FS = None

    def getFI():
        fr = z3.Const('fr!e', sort(FRT))
        FI = z3.Function('frameInv', sort(FRT), B)
        return FI, Q([fr], FI(fr) == z3.And([g for _, g in frame(fr)]), patterns=[FI(fr)])

    def common(cx):
        nonlocal FS
        if FS is None:
            FS = getFI()
        FI = FS[0]
        es = cx.v('estack', VFR)
        c = cx.callctx()
        L = vlen(VFR, es)
        arr = acc(VFR, 'arr', es)
        a = cx.ex.fresh(arr.sort(), 'frames')
        cx.st.assume(a == arr)
        return es, a, L, FI, c

    def lower(cx, a, L, FI, c, top):
        """the frames below the last one, and what each waits for"""
        e0, m0 = N(c, c.a(0)), dv(N(c, c.a(1)))
        yield 'frames', L >= 0
        yield 'waiting frames', Q([k], z3.Implies(z3.And(0 <= k, k < L - 1), z3.And(FI(S(a, k)), vlen(VE, f(S(a, k), 'd_visit')) >= 1)), patterns=[S(a, k)])
        fk, fp = S(a, k), S(a, k - 1)
        vis = f(fp, 'd_visit')
        tp = S(acc(VE, 'arr', vis), vlen(VE, vis) - 1)
        ek = EVS(f(fk, 'd_init'), *dv(f(fk, 'd_ctx')), r)
        yield 'a frame waits for the value of the next', Q([k, r], z3.Implies(z3.And(1 <= k, k < L, nn(r), ek), EVS(tp, *dv(f(fp, 'd_ctx')), r)), patterns=[ek])
        yield 'the value of a frame is that of the program', Q([k, r], z3.Implies(z3.And(1 <= k, k < L, nn(r), ek), s.APPV(f(fk, 'd_result'), r)), patterns=[ek])
        yield 'results go to the cache', Q([k], z3.Implies(z3.And(0 <= k, k < L), z3.If(k == 0, f(fk, 'd_result') == tr.TNULL, z3.And(f(fk, 'd_result') != tr.TNULL, s.rootk(f(fk, 'd_result')) == SEQ))), patterns=[S(a, k)])
        f0 = S(a, z3.IntVal(0))
        yield 'the first frame evaluates the term', z3.Implies(L > 0, z3.And(f(f0, 'd_init') == e0, dv(f(f0, 'd_ctx'))[0] == m0[0], dv(f(f0, 'd_ctx'))[1] == m0[1]))
        D_ = tr.arr(d, cx.ex, cx.st, 'tdata')
        yield 'the cache is correct', Q([n_], z3.Implies(z3.And(s.rootk(n_) == SEQ, S(D_, n_) != NULLP), s.APPV(n_, S(D_, n_))), patterns=[S(D_, n_)])

    def flags(cx):
        return z3.And(z3.Not(cx.v('newContext', ('bool',))), cx.v('canEvaluate', ('bool',)))

    def outer(cx):
        es, a, L, FI, c = common(cx)
        cx.st.assume(FS[1])
        e0, m0 = N(c, c.a(0)), dv(N(c, c.a(1)))
        yield 'flags', flags(cx)
        yield 'frame', z3.Implies(L > 0, FI(S(a, L - 1)))
        yield from lower(cx, a, L, FI, c, False)
        ev = cx.v('evaluated', EX)
        yield 'the result', z3.Implies(L == 0, z3.And(nn(ev), EVS(e0, *m0, ev)))

    def inner(cx):
        es, a, L, FI, c = common(cx)
        es0 = cx.at_entry('estack', VFR)
        a0 = acc(VFR, 'arr', es0)
        ti = z3.simplify(vlen(VFR, es0) - 1)
        top, top0 = S(a, ti), S(a0, ti)
        W = f(top, 'd_visit')
        va, n = acc(VE, 'arr', W), vlen(VE, W)
        cur = z3.Const('cur!%d' % next(cx.ex.n), E)
        cx.st.assume(cur == S(va, n - 1))
        D_, V_ = dv(f(top0, 'd_ctx'))
        cx.st.assume(z3.And(z3.Or(s.empty(D_), z3.Not(s.empty(D_))), s.skip(cur, D_, V_), s.leaf(cur, D_, V_), expand(cur)))
        cx.st.assume(Q([W_, r], s.rule(cur, D_, V_, W_, r), patterns=[so.MP(s.trig(W_), EVS(cur, D_, V_, r))]))
        yield 'flags', flags(cx)
        yield 'same frames', z3.And(L == vlen(VFR, es0), L >= 1, Q([k], z3.Implies(z3.And(0 <= k, k < ti), S(a, k) == S(a0, k)), patterns=[S(a, k)]),
                                    f(top, 'd_init') == f(top0, 'd_init'), f(top, 'd_ctx') == f(top0, 'd_ctx'), f(top, 'd_result') == f(top0, 'd_result'))
        yield from frame(top)
        yield from [(nm, g) for nm, g in lower(cx, a, L, FI, c, True) if nm == 'the cache is correct']
    W_ = z3.Const('W!r', AW)

    def kids(cx):
        cc = cx.v('cchildren', VE)
        a, n = acc(VE, 'arr', cc), vlen(VE, cc)
        aa = cx.ex.fresh(a.sort(), 'W')
        cx.st.assume(aa == a)
        cx.st.assume(s.trig(aa))
        cur = cx.v('cur', EV)
        X, Y = dv(cx.v('visited', ME))
        yield 'values of the children so far', z3.And(n == cx.idx, Q([i], z3.Implies(z3.And(0 <= i, i < n), S(aa, i) == z3.If(S(X, ch(cur, i)), S(Y, ch(cur, i)), NULLP)), patterns=[S(aa, i), ch(cur, i)]))
        yield 'changed only by children', z3.Implies(cx.v('cchanged', ('bool',)), n > 0)
        yield 'unchanged so far', z3.Implies(z3.Not(cx.v('cchanged', ('bool',))), Q([i], z3.Implies(z3.And(0 <= i, i < n, S(X, ch(cur, i))), S(aa, i) == ch(cur, i)), patterns=[S(aa, i), ch(cur, i)]))

    def post(c):
        m = dv(N(c, c.a(1)))
        return [('not null', nn(c.result())), ('the result is the value of the term under the bindings', EVS(N(c, c.a(0)), *m, c.result()))]

    def given(c):
        D, V = dv(N(c, c.a(1)))
        return [nn(c.a(0)), Q([x], z3.Implies(S(D, x), nn(S(V, x))), patterns=[S(D, x), S(V, x)]),
                c.objfield(c.this, 'd_null') == SNULL, F(c, 'd_null') == SNULL]
    ax = T.axioms + s.axioms + terms + PATH + [Q([x], z3.Implies(kind(x) == K['NONE'], x == SNULL), patterns=[kind(x)])]
    FL = [('g', 'flag%d' % i) for i in range(3)]
    out.append(Fn('ethos::TypeChecker::evaluate', post, given=given, axioms=ax, free=FL + [('g', y) for y in tr.ARR] + [('o', 'Stats', 'd_pstats')], assumes=['only the null term has kind NONE', 'terms are finite and acyclic', 'termination is not proved (partial correctness)', 'no plugin is loaded'],
                  loops={0: outer, 1: inner, 'range children': kids, 'range cchildren': lambda cx: []}))
    return out
