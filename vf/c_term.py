"""Terms: flags (ground, evaluatable), pattern matching."""
import z3
from . import sorts as so
from .sorts import acc, mk, sort, vlen, I, B, E, NULLP, SNULL
from .symex import Contract
from .c_util import Def, Rel, Trusted
from .domain import kind, VE, EV

PE = ('pair', EV, EV)
VP = ('vec', PE)
SP = ('set', PE)
ME = ('map', EV, EV)

nonground = z3.Function('nonground', E, B)
evaluable = z3.Function('evaluable', E, B)
height = z3.Function('height', E, I)
expand = z3.Function('expand', E, B)      # trigger only: constantly true


class Flag(Contract):
    """the cached flags are correct afterwards"""
    def __init__(self, fn, post, given=None, mods=None, loops=(), pre=None, axioms=(), nparams=None, sig=None, free=(), res=None, lemmas=None):
        self.lemmas = lemmas or (lambda c: [])
        self.fn, self._post, self._given, self._mods, self.loops, self._pre = fn, post, given, mods, loops, pre
        self.axioms = list(axioms)
        self.nparams, self.sig = nparams, sig
        self.free_frame = free
        self._res = res

    def pre(self, c):
        return self._pre(c) if self._pre else []

    def given(self, c):
        return self._given(c) if self._given else []

    def mods(self, c):
        return self._mods(c) if self._mods else []

    def post(self, c):
        return self._post(c)


class TermSpec:
    def __init__(self, d):
        self.d = d
        K = d.K
        x, y = z3.Consts('x!t y!t', E)
        i, j = z3.Ints('i!t j!t')
        ops = [K[n] for n in K if n.startswith('EVAL_')]
        self.isop = lambda k: z3.Or([k == o for o in ops])
        ch, nch = d.ch, d.nch
        Q = z3.ForAll
        w1, w2 = z3.Function('ngWitness', E, I), z3.Function('evWitness', E, I)
        ax = self.axioms = []
        c = ch(x, i)
        rng = z3.And(0 <= i, i < nch(x))
        # terms are finite: a term is built from terms that exist already
        ax.append(Q([x], height(x) >= 0, patterns=[height(x)]))
        ax.append(Q([x, i], z3.Implies(rng, height(c) < height(x)), patterns=[c]))
        # a term is not ground iff a parameter occurs in it
        leaf = z3.Or(kind(x) == K['PARAM'], kind(x) == K['ANY'])
        ax.append(Q([x], z3.Implies(nch(x) == 0, nonground(x) == leaf), patterns=[so.MP(nonground(x), expand(x))]))
        ax.append(Q([x], expand(x), patterns=[expand(x)]))
        ax.append(Q([x, i], z3.Implies(z3.And(rng, nonground(c)), nonground(x)), patterns=[nonground(c)]))
        ax.append(Q([x], z3.Implies(z3.And(nch(x) > 0, nonground(x)), z3.And(0 <= w1(x), w1(x) < nch(x), nonground(ch(x, w1(x))))),
                    patterns=[so.MP(nonground(x), expand(x))]))
        # a term is evaluatable iff an operator, program or oracle occurs in it
        leaf = z3.Or(kind(x) == K['PROGRAM_CONST'], kind(x) == K['ANY'])
        self.opk = z3.Function('operatorKind', I, B)
        k = z3.Int('k!t')
        ax.append(Q([k], self.opk(k) == self.isop(k), patterns=[self.opk(k)]))
        ax.append(Q([x], z3.Implies(nch(x) == 0, evaluable(x) == leaf), patterns=[so.MP(evaluable(x), expand(x))]))
        ax.append(Q([x, i], z3.Implies(z3.And(rng, evaluable(c)), evaluable(x)), patterns=[evaluable(c)]))
        ax.append(Q([x], z3.Implies(z3.And(nch(x) > 0, self.opk(kind(x))), evaluable(x)), patterns=[so.MP(evaluable(x), expand(x))]))
        ax.append(Q([x], z3.Implies(z3.And(nch(x) > 0, evaluable(x)), z3.Or(self.opk(kind(x)), z3.And(
            0 <= w2(x), w2(x) < nch(x), evaluable(ch(x, w2(x)))))), patterns=[so.MP(evaluable(x), expand(x))]))
        # last position of an element in the first n entries of an array
        def last(srt, nm):
            A = z3.ArraySort(I, srt)
            f = z3.Function('lastPos_' + nm, A, I, srt, I)
            a, n, e, q = z3.Const('a!p', A), z3.Int('n!p'), z3.Const('e!p', srt), z3.Int('q!p')
            ax.append(Q([a, n, e], z3.And(f(a, n, e) >= -1, z3.Implies(f(a, n, e) >= 0, z3.And(f(a, n, e) < n, z3.Select(a, f(a, n, e)) == e))),
                        patterns=[f(a, n, e)]))
            ax.append(Q([a, n, e, q], z3.Implies(z3.And(0 <= q, q < n, z3.Select(a, q) == e), q <= f(a, n, e)),
                        patterns=[so.MP(f(a, n, e), z3.Select(a, q))]))
            v, m = z3.Const('v!p', srt), z3.Int('m!p')
            st = z3.Store(a, m, v)
            ax.append(Q([a, m, v, n, e], z3.Implies(z3.And(m == n - 1, m >= 0), f(st, n, e) == z3.If(v == e, m, f(a, m, e))), patterns=[f(st, n, e)]))
            return f
        # pattern p matches term t under the substitution with domain D and values V
        AB, AE = z3.ArraySort(E, B), z3.ArraySort(E, E)
        M = self.M = z3.Function('matches', E, E, AB, AE, B)
        wm = z3.Function('matchWitness', E, E, AB, AE, I)
        p, t, D, V, D2, V2 = z3.Const('p!m', E), z3.Const('t!m', E), z3.Const('D!m', AB), z3.Const('V!m', AE), z3.Const('D2!m', AB), z3.Const('V2!m', AE)
        tr = lambda: so.MP(M(p, t, D, V), expand(p))
        mv = [p, t, D, V]
        ng = nonground(p)
        ax.append(Q(mv, z3.Implies(z3.Not(ng), M(p, t, D, V) == (p == t)), patterns=[tr()]))
        ax.append(Q(mv, z3.Implies(z3.And(ng, nch(p) == 0), M(p, t, D, V) == z3.And(kind(p) == K['PARAM'], z3.Select(D, p), z3.Select(V, p) == t)), patterns=[tr()]))
        same = z3.And(kind(p) == kind(t), nch(p) == nch(t))
        ax.append(Q(mv + [i], z3.Implies(z3.And(ng, nch(p) > 0, M(p, t, D, V), 0 <= i, i < nch(p)), M(ch(p, i), ch(t, i), D, V)),
                    patterns=[so.MP(M(p, t, D, V), expand(p), ch(p, i))]))
        ax.append(Q(mv, z3.Implies(z3.And(ng, nch(p) > 0, M(p, t, D, V)), same), patterns=[tr()]))
        w = wm(p, t, D, V)
        ax.append(Q(mv, z3.Implies(z3.And(ng, nch(p) > 0, same, z3.Not(M(p, t, D, V))), z3.And(0 <= w, w < nch(p), z3.Not(M(ch(p, w), ch(t, w), D, V)))),
                    patterns=[tr()]))
        # the substitution (D2,V2) extends (D,V)
        X = self.ext = z3.Function('extends', AB, AE, AB, AE, B)
        we = z3.Function('extWitness', AB, AE, AB, AE, E)
        ev = [D, V, D2, V2]
        ok = lambda k: z3.And(z3.Select(D2, k), z3.Select(V2, k) == z3.Select(V, k))
        ax.append(Q(ev + [x], z3.Implies(z3.And(X(*ev), z3.Select(D, x)), ok(x)), patterns=[so.MP(X(*ev), z3.Select(D, x)),
                    so.MP(X(*ev), z3.Select(V, x)), so.MP(X(*ev), z3.Select(D2, x)), so.MP(X(*ev), z3.Select(V2, x))]))
        ax.append(Q(ev, z3.Implies(z3.Not(X(*ev)), z3.And(z3.Select(D, we(*ev)), z3.Not(ok(we(*ev))))), patterns=[X(*ev)]))
        # a set of pairs is closed under the matching steps with respect to (D,V)
        P = sort(PE)
        AP = z3.ArraySort(P, B)
        C = self.closed = z3.Function('closed', AP, AB, AE, B)
        w1, w2 = z3.Function('closedWitness1', AP, AB, AE, E), z3.Function('closedWitness2', AP, AB, AE, E)
        G = z3.Const('G!m', AP)
        pr = lambda a, b: mk(PE, a, b)
        self.pr = pr
        ax.append(Q([G, D, V, p, t], z3.Implies(z3.And(C(G, D, V), z3.Select(G, pr(p, t))), self.local(p, t, D, V, lambda a, b: z3.Select(G, pr(a, b)))),
                    patterns=[so.MP(C(G, D, V), z3.Select(G, pr(p, t)))]))
        cw = [w1(G, D, V), w2(G, D, V)]
        ax.append(Q([G, D, V], z3.Implies(z3.Not(C(G, D, V)), z3.And(z3.Select(G, pr(*cw)), z3.Not(self.local(cw[0], cw[1], D, V, lambda a, b: z3.Select(G, pr(a, b)))))),
                    patterns=[C(G, D, V)]))
        # by induction on the height of the pattern (see induction())
        self.sound = Q([G, D, V, p, t], z3.Implies(z3.And(C(G, D, V), z3.Select(G, pr(p, t))), M(p, t, D, V)),
                       patterns=[so.MP(C(G, D, V), z3.Select(G, pr(p, t)))])
        # by induction on the height of the pattern
        self.mono = Q([p, t, D, V, D2, V2], z3.Implies(z3.And(M(p, t, D, V), X(D, V, D2, V2)), M(p, t, D2, V2)), patterns=[so.MP(M(p, t, D, V), X(D, V, D2, V2))])
        self.trans = Q([D, V, D2, V2] + [z3.Const('D3!m', AB), z3.Const('V3!m', AE)], z3.Implies(z3.And(X(D, V, D2, V2), X(D2, V2, z3.Const('D3!m', AB), z3.Const('V3!m', AE))),
                       X(D, V, z3.Const('D3!m', AB), z3.Const('V3!m', AE))), patterns=[so.MP(X(D, V, D2, V2), X(D2, V2, z3.Const('D3!m', AB), z3.Const('V3!m', AE)))])
        self.last = last(E, 'E')
        self.lastp = last(sort(PE), 'P')


    def local(self, p, t, D, V, inn):
        """one step of matching p against t: the children are taken care of (inn)"""
        d, K = self.d, self.d.K
        i = z3.Int('i!c')
        a, b = d.ch(p, i), d.ch(t, i)
        return z3.And(nonground(p),
                      z3.Implies(d.nch(p) == 0, z3.And(kind(p) == K['PARAM'], z3.Select(D, p), z3.Select(V, p) == t)),
                      z3.Implies(d.nch(p) > 0, z3.And(kind(p) == kind(t), d.nch(p) == d.nch(t), z3.ForAll(
                          [i], z3.Implies(z3.And(0 <= i, i < d.nch(p)), z3.Or(z3.And(z3.Not(nonground(a)), a == b), inn(a, b))), patterns=[a, b]))))

    def induction(self):
        d = self.d
        P = sort(PE)
        p, t, x, y = [z3.Const(n, E) for n in ('p!i', 't!i', 'x!i', 'y!i')]
        D, V, G = z3.Const('D!i', z3.ArraySort(E, B)), z3.Const('V!i', z3.ArraySort(E, E)), z3.Const('G!i', z3.ArraySort(P, B))
        ih = z3.ForAll([x, y], z3.Implies(z3.And(height(x) < height(p), z3.Select(G, self.pr(x, y))), self.M(x, y, D, V)), patterns=[z3.Select(G, self.pr(x, y)), self.M(x, y, D, V)])
        # ground children that are equal match
        g = z3.ForAll([x, y], z3.Implies(z3.And(z3.Not(nonground(x)), x == y), self.M(x, y, D, V)), patterns=[self.M(x, y, D, V)])
        D2, V2, D3, V3 = [z3.Const(n, z3.ArraySort(E, r)) for n, r in (('D2!i', B), ('V2!i', E), ('D3!i', B), ('V3!i', E))]
        mh = z3.ForAll([x, y], z3.Implies(z3.And(height(x) < height(p), self.M(x, y, D, V)), self.M(x, y, D2, V2)), patterns=[self.M(x, y, D2, V2)])
        return [('matching is monotone in the bindings (induction on the pattern)', [expand(p), self.M(p, t, D, V), self.ext(D, V, D2, V2), mh], self.M(p, t, D2, V2)),
                ('extension of bindings is transitive', [self.ext(D, V, D2, V2), self.ext(D2, V2, D3, V3)], self.ext(D, V, D3, V3)),
                ('equal ground terms match', [expand(p), z3.Not(nonground(p)), p == t], self.M(p, t, D, V)),
                ('a closed set of pairs matches (induction on the pattern)', [expand(p), self.closed(G, D, V), z3.Select(G, self.pr(p, t)), ih, g], self.M(p, t, D, V))]


def bases(a):
    """the arrays along a chain of updates"""
    out = [a]
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        a = a.arg(0)
        out.append(a)
    return out


def contracts(d):
    T = getattr(d, 'termspec', None)
    if T is None:
        T = d.termspec = TermSpec(d)
        d.lemma_obs += [(n, h, g, d.axioms + d.qf_axioms + T.axioms) for n, h, g in T.induction()]
    K = d.K
    out = []
    x, y = z3.Consts('x!q y!q', E)
    i, j, q = z3.Ints('i!q j!q q!q')
    Q = z3.ForAll
    S = z3.Select
    ch, nch = d.ch, d.nch
    out.append(Def('ethos::isLiteralOp', lambda c: T.isop(c.a(0))))
    # ---- flags
    FL = [('g', 'flag%d' % i) for i in range(3)]
    fnv = {'NONE': 0, 'IS_FLAGS_COMPUTED': 1, 'IS_EVAL': 2, 'IS_NON_GROUND': 4}

    def flarr(ex, s):
        return [d.garr(ex, s, 'flag%d' % i, B, True) for i in range(3)]

    def bit(f, k):
        return f[k]

    def fs(F, e):
        return [z3.Select(f, e) for f in F]

    def flags(c, new=False):
        s = c.st if (new or c.old is None) else c.old
        return flarr(c.ex, s)

    def this(c):
        return d.term_of(c.ex, c.thislv(), c.st)

    def sound(F, strict=True):
        """data invariant of the cached flags"""
        f = fs(F, x)
        return Q([x], z3.And(z3.Implies(bit(f, 1), evaluable(x)), z3.Implies(bit(f, 2), nonground(x)),
                             z3.Implies(z3.And(bit(f, 0)), z3.And(bit(f, 1) == evaluable(x), bit(f, 2) == nonground(x))) if strict else z3.BoolVal(True)),
                 patterns=f)

    def cfpost(c):
        F = flags(c, True)
        t = this(c)
        return [('flags are correct', sound(F)), ('flags of the term are computed', bit(fs(F, t), 0))]

    def okf(F, e):
        f = fs(F, e)
        return z3.And(bit(f, 0), bit(f, 1) == evaluable(e), bit(f, 2) == nonground(e))

    def inprog(F, V, a, n, e):
        l = T.last(a, n, e)
        return z3.And(S(V, e), l >= 0,
                      Q([q], z3.Implies(z3.And(l < q, q < n), height(S(a, q)) < height(e)), patterns=[S(b, q) for b in bases(a)]),
                      Q([i], z3.Implies(z3.And(0 <= i, i < nch(e)), z3.Or(okf(F, ch(e, i)), T.last(a, n, ch(e, i)) > l)), patterns=[ch(e, i)]))

    def outer(cx):
        F = flarr(cx.ex, cx.st)
        V = cx.v('visited', ('set', EV))
        W = cx.v('visit', ('vec', EV))
        a, n, V = acc(VE, 'arr', W), vlen(VE, W), acc(('set', EV), 'dom', V)
        t = this_of(cx)
        cx.st.assume(expand(S(a, n - 1)))
        yield 'something to visit', n >= 1
        yield 'flags are sound', sound(F, False)
        yield 'visited terms are computed', Q([x], z3.Implies(S(V, x), bit(fs(F, x), 0)), patterns=[S(V, x)])
        f = fs(F, x)
        yield 'unfinished terms are on the stack', Q([x], z3.Implies(z3.And(bit(f, 0), z3.Not(okf(F, x))), inprog(F, V, a, n, x)), patterns=f)
        yield 'the term is finished or on the stack', z3.Or(bit(fs(F, t), 0), T.last(a, n, t) >= 0)

    def this_of(cx):
        fr = [f for f in cx.ex.frames if f[0] == cx.frame][0]
        t = fr[2]
        return d.term_of(cx.ex, t.lv if hasattr(t, 'lv') else t, cx.st)

    def push(cx):
        F = flarr(cx.ex, cx.st)
        W, W0 = cx.v('visit', ('vec', EV)), cx.at_entry('visit', ('vec', EV))
        cur = cx.v('cur', EV)
        a, n, a0, n0 = acc(VE, 'arr', W), vlen(VE, W), acc(VE, 'arr', W0), vlen(VE, W0)
        yield 'the stack grows', n >= n0
        yield 'the stack below is kept', Q([q], z3.Implies(z3.And(0 <= q, q < n0), S(a, q) == S(a0, q)), patterns=[S(b, q) for b in bases(a)] + [S(b, q) for b in bases(a0)])
        yield 'pushed terms are uncomputed subterms', Q([q], z3.Implies(z3.And(n0 <= q, q < n), z3.And(z3.Not(bit(fs(F, S(a, q)), 0)), height(S(a, q)) < height(cur))), patterns=[S(b, q) for b in bases(a)])
        yield 'uncomputed children are pushed', Q([j], z3.Implies(z3.And(0 <= j, j < cx.idx), z3.Or(bit(fs(F, ch(cur, j)), 0), T.last(a, n, ch(cur, j)) >= n0)), patterns=[ch(cur, j)])

    def union(cx):
        F = flarr(cx.ex, cx.st)
        F0 = flarr(cx.ex, cx.entry)
        cur = cx.v('cur', EV)
        f, f0 = fs(F, cur), fs(F0, cur)
        yield 'other terms are unchanged', Q([x], z3.Implies(x != cur, z3.And([a == b for a, b in zip(fs(F, x), fs(F0, x))])), patterns=fs(F, x))
        yield 'flags are sound', z3.And(z3.Implies(bit(f, 1), evaluable(cur)), z3.Implies(bit(f, 2), nonground(cur)))
        yield 'flags grow', z3.And(bit(f, 0), z3.Implies(bit(f0, 1), bit(f, 1)), z3.Implies(bit(f0, 2), bit(f, 2)))
        yield 'flags of the children are included', Q([j], z3.Implies(z3.And(0 <= j, j < cx.idx), z3.And(
            z3.Implies(evaluable(ch(cur, j)), bit(f, 1)), z3.Implies(nonground(ch(cur, j)), bit(f, 2)))), patterns=[ch(cur, j)])

    out.append(Flag('ethos::ExprValue::computeFlags', cfpost, given=lambda c: [sound(flags(c))], mods=lambda c: FL,
                    loops={0: outer, 1: push, 2: union}, axioms=T.axioms))
    iq = dict(given=lambda c: [sound(flags(c))], free=FL, axioms=T.axioms)
    out.append(Flag('ethos::ExprValue::isGround', lambda c: [('ground', c.result() == z3.Not(nonground(this(c))))], **iq))
    out.append(Flag('ethos::ExprValue::isEvaluatable', lambda c: [('evaluatable', c.result() == evaluable(this(c)))], **iq))
    # ---- matching
    AB, AE = z3.ArraySort(E, B), z3.ArraySort(E, E)
    D, V = z3.Const('D!q', AB), z3.Const('V!q', AE)
    dv = lambda m: (acc(ME, 'dom', m), acc(ME, 'val', m))
    sd = lambda v: acc(SP, 'dom', v)

    def name(c, v):
        """a constant equal to v, so that v can occur in patterns"""
        n = c.ex.fresh(v.sort(), 'n')
        c.st.assume(n == v)
        return n

    nnul = lambda v: z3.And(v != NULLP, v != SNULL)
    anyterm = [Q([x, i], z3.Implies(z3.And(0 <= i, i < nch(x), nnul(x)), nnul(ch(x, i))), patterns=[ch(x, i)])]

    def mpost(c, hasv):
        p, t = name(c, c.a(0)), name(c, c.a(1))
        m0, m1 = dv(name(c, c.a(2))), dv(name(c, c.new(2)))
        r = c.result()
        posts = [('a match succeeds only with a substitution under which they match', z3.Implies(r, T.M(p, t, *m1))),
                 ('earlier bindings are kept', z3.Implies(r, T.ext(*m0, *m1))),
                 ('a match is found if there is one, and binds no more than necessary', Q([D, V], z3.Implies(
                     z3.And(T.ext(*m0, D, V), T.M(p, t, D, V)), z3.And(r, T.ext(*m1, D, V))), patterns=[T.M(p, t, D, V)]))]
        posts.append(('new bindings are terms', z3.Implies(nnul(t), Q([x], z3.Implies(z3.And(S(m1[0], x), z3.Not(S(m0[0], x))), nnul(S(m1[1], x))), patterns=[S(m1[1], x), S(m1[0], x)]))))
        if hasv:
            posts.append(('visited pairs are settled', z3.Implies(r, T.closed(sd(c.new(3)), *m1))))
        return posts

    def matchinv(cx):
        stk = cx.v('stack', VP)
        a, n = acc(VP, 'arr', stk), vlen(VP, stk)
        vis = sd(cx.v('visited', SP))
        m, m0 = dv(cx.v('ctx', ME)), dv(cx.at_entry('ctx', ME))
        p0, t0 = cx.at_entry('a'), cx.at_entry('b')
        cur = S(a, n - 1)
        cx.st.assume(z3.And(expand(acc(PE, 'first', cur)), expand(p0)))
        pr = T.pr
        # named, to be usable in patterns
        aa = cx.ex.fresh(a.sort(), 'stk')
        cx.st.assume(aa == a)
        inn = lambda u, w: z3.Or(S(vis, pr(u, w)), T.lastp(a, n, pr(u, w)) >= 0)
        yield 'bindings are only added', T.ext(*m0, *m)
        md, mv = cx.ex.fresh(AB, 'dom'), cx.ex.fresh(AE, 'val')
        cx.st.assume(z3.And(md == m[0], mv == m[1]))
        yield 'new bindings are terms', z3.Implies(nnul(t0), z3.And(Q([x], z3.Implies(z3.And(S(md, x), z3.Not(S(m0[0], x))), nnul(S(mv, x))), patterns=[S(md, x), S(mv, x)]),
                                                                  Q([q], z3.Implies(z3.And(0 <= q, q < n), nnul(acc(PE, 'second', S(a, q)))), patterns=[S(b, q) for b in bases(a)])))
        yield 'visited pairs are consistent so far', Q([x, y], z3.Implies(S(vis, pr(x, y)), T.local(x, y, *m, inn)), patterns=[S(b, pr(x, y)) for b in bases(vis)])
        yield 'the problem is pending or visited or trivial', z3.Or(inn(p0, t0), z3.And(z3.Not(nonground(p0)), p0 == t0))
        fst, snd = acc(PE, 'first', S(a, q)), acc(PE, 'second', S(a, q))
        yield 'every match extends the bindings and solves the stack', Q([D, V], z3.Implies(z3.And(T.ext(*m0, D, V), T.M(p0, t0, D, V)), z3.And(
            T.ext(*m, D, V), Q([q], z3.Implies(z3.And(0 <= q, q < n), T.M(fst, snd, D, V)), patterns=[S(b, q) for b in bases(a)]))),
            patterns=[T.M(p0, t0, D, V)])

    def pushinv(cx):
        stk, stk0 = cx.v('stack', VP), cx.at_entry('stack', VP)
        a, n, a0, n0 = acc(VP, 'arr', stk), vlen(VP, stk), acc(VP, 'arr', stk0), vlen(VP, stk0)
        cur = cx.v('curr', PE)
        f, s = acc(PE, 'first', cur), acc(PE, 'second', cur)
        i = cx.v('i', ('int', 64, False))
        yield 'range', z3.And(0 <= i, i <= nch(f))
        yield 'the children are pushed', n == n0 + i
        yield 'the stack below is kept', Q([q], z3.Implies(z3.And(0 <= q, q < n0), S(a, q) == S(a0, q)), patterns=[S(b, q) for b in bases(a)] + [S(b, q) for b in bases(a0)])
        yield 'pushed pairs are children', Q([q], z3.Implies(z3.And(n0 <= q, q < n), S(a, q) == T.pr(ch(f, q - n0), ch(s, q - n0))), patterns=[S(b, q) for b in bases(a)])
        yield 'pushed children are on the stack', Q([j], z3.Implies(z3.And(0 <= j, j < i), T.lastp(a, n, T.pr(ch(f, j), ch(s, j))) >= 0), patterns=[ch(f, j), ch(s, j)])
        yield 'pending pairs stay on the stack', Q([x, y], z3.Implies(T.lastp(a0, n0, T.pr(x, y)) >= 0, T.lastp(a, n, T.pr(x, y)) >= 0), patterns=[T.lastp(a0, n0, T.pr(x, y)), T.lastp(a, n, T.pr(x, y))])

    vc = lambda c: [('visited pairs are settled', T.closed(sd(c.a(3)), *dv(c.a(2))))]
    inst = lambda c: [z3.And(expand(c.a(0)), z3.Implies(z3.And(T.closed(sd(c.new(3)), *dv(c.new(2))), S(sd(c.new(3)), T.pr(c.a(0), c.a(1)))),
                                                        T.M(c.a(0), c.a(1), *dv(c.new(2)))))]
    out.append(Flag('ethos::TypeChecker::match', lambda c: mpost(c, True), nparams=4, pre=vc, lemmas=inst, mods=lambda c: [c.lv(2), c.lv(3)],
                    loops={0: matchinv, 1: pushinv}, axioms=T.axioms + anyterm))
    out.append(Flag('ethos::TypeChecker::match', lambda c: mpost(c, False), nparams=3, mods=lambda c: [c.lv(2)], axioms=T.axioms))
    return out
