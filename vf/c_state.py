"""The tables of State: symbols and scopes, overloads, assumptions, reference
assertions, verdict flags."""
import z3
from . import sorts as so
from .sorts import acc, mk, sort, vlen, I, B, E, NULLP, SNULL
from .symex import Contract, Obj
from .domain import kind, VE, EV

EX = ('cls', 'Expr')
STR = ('str',)
SYM = ('map', STR, EX)
VX = ('vec', EX)
VS = ('vec', STR)
OV = ('map', STR, VX)
SZ = ('int', 64, False)
VN = ('vec', SZ)
ES = ('set', EV)
AI = ('cls', 'AppInfo')
APP = ('map', EV, AI)
S = z3.Select
Q = z3.ForAll


class Fn(Contract):
    """a contract given by its parts"""
    def __init__(self, fn, post, pre=None, given=None, mods=None, loops=(), axioms=(), lemmas=None, nparams=None, sig=None, free=(), result=None,
                 assumes=(), trusted=False, why='', inline=False, noreturn=None, ghosts=None, focus=None):
        self.fn, self._post, self._pre, self._given, self._mods, self.loops = fn, post, pre, given, mods, loops
        self.axioms, self.nparams, self.sig, self.free_frame = list(axioms), nparams, sig, free
        self.lemmas = lemmas or (lambda c: [])
        self._result = result
        self.assumes = list(assumes)
        self.trusted, self.why = trusted, why
        self._noreturn = noreturn
        self._ghosts = ghosts
        self.focus = focus

    def pre(self, c):
        return self._pre(c) if self._pre else []

    def given(self, c):
        return self._given(c) if self._given else []

    def ghosts(self, c):
        return self._ghosts(c) if self._ghosts else []

    def mods(self, c):
        return self._mods(c) if self._mods else []

    def post(self, c):
        return list(self._post(c))

    def result(self, c, rct):
        return self._result(c) if self._result else None

    def noreturn(self, c):
        return self._noreturn(c) if self._noreturn else False


def st(*names):
    return [('o', 'State', n) for n in names]


def eqvec(ct, a, b, nm='j!v'):
    j = z3.Int(nm)
    x, y = acc(ct, 'arr', a), acc(ct, 'arr', b)
    return z3.And(vlen(ct, a) == vlen(ct, b), Q([j], z3.Implies(z3.And(0 <= j, j < vlen(ct, a)), S(x, j) == S(y, j)), patterns=[S(x, j), S(y, j)]))


def dom(ct, m):
    return acc(ct, 'dom', m)


def val(ct, m):
    return acc(ct, 'val', m)


def back(ct, v, i=1):
    return S(acc(ct, 'arr', v), vlen(ct, v) - i)


def name(ex, st, root, v):
    """the value of a root as a constant (usable in patterns)"""
    if z3.is_expr(v) and v.num_args() > 0:
        c = ex.fresh(v.sort(), 'n_' + str(root[-1]))
        st.assume(c == v)
        if root in st.store:
            st.store[root] = c
        return c
    return v


def stf(ex, s, n):
    """field of State in state s, named"""
    v = ex.rv(ex.d.obj_member(ex, s, Obj('State'), n, None), s)
    return name(ex, s, ('o', 'State', n), v)


def F(c, n, new=False):
    return stf(c.ex, c.st if (new or c.old is None) else c.old, n)


# ---- ghost state: what the trusted functions returned, in order
def ghost(ex, s, nm, ct):
    r = ('h', nm)
    if r not in s.store:
        ex.vct[r] = ct
        if r not in ex.init_vals:
            ex.init_vals[r] = z3.Const('ghost_' + nm, sort(ct))
        ex.type_facts(ct, ex.init_vals[r], s)
        s.store[r] = ex.init_vals[r]
    return name(ex, s, r, s.store[r])


GT = {'keys': VS, 'bind_n': STR, 'bind_x': EX, 'syms': VS, 'forms': VX, 'lists': ('vec', VX), 'types': VX, 'app': VX, 'res': EX, 'ns_rule': EX, 'ns_proven': EX, 'ns_premises': VX, 'ns_args': VX,
      'ns_pop': ('bool',), 'mk': VX, 'mkres': EX, 'ns_ok': ('bool',), 'ns_res': EX, 'nums': VN}


def G(c, nm, new=False):
    return ghost(c.ex, c.st if (new or c.old is None) else c.old, nm, GT[nm])


def N(c, v):
    """a constant for a value (usable in patterns)"""
    if v.num_args() == 0:
        return v
    x = c.ex.fresh(v.sort(), 'n')
    c.st.assume(x == v)
    return x


def touch(c, *ns):
    for n in ns:
        ghost(c.ex, c.st, n, GT[n])
    return [('h', n) for n in ns]


def contracts(d):
    K = d.K
    out = []
    k = z3.Const('k!s', so.Str)
    j, i = z3.Ints('j!s i!s')
    e = z3.Const('e!s', E)

    # ---- scopes
    # a state of the symbol tables: symbols, overloads, names that were bound over
    def fl(c, new=False):
        g = lambda n: F(c, n, new)
        return g('d_symTable'), g('d_overloads'), g('d_overloadedDecls'), g('d_decls'), g('d_declsSizeCtx')

    def eqsym(a, b):
        return z3.And(Q([k], S(dom(SYM, a), k) == S(dom(SYM, b), k), patterns=[S(dom(SYM, a), k), S(dom(SYM, b), k)]),
                      Q([k], z3.Implies(S(dom(SYM, a), k), S(val(SYM, a), k) == S(val(SYM, b), k)), patterns=[S(val(SYM, a), k), S(val(SYM, b), k)]))

    def eqov(a, b):
        va, vb = S(val(OV, a), k), S(val(OV, b), k)
        x, y = acc(VX, 'arr', va), acc(VX, 'arr', vb)
        return z3.And(Q([k], S(dom(OV, a), k) == S(dom(OV, b), k), patterns=[S(dom(OV, a), k), S(dom(OV, b), k)]),
                      Q([k], z3.Implies(S(dom(OV, a), k), vlen(VX, va) == vlen(VX, vb)), patterns=[va, vb]),
                      Q([k, j], z3.Implies(z3.And(S(dom(OV, a), k), 0 <= j, j < vlen(VX, va)), S(x, j) == S(y, j)), patterns=[S(x, j), S(y, j)]))

    def wf(sym, ov, od):
        """data invariant of the symbol tables"""
        o = S(val(OV, ov), k)
        return [('an overloaded name is bound to its last overload', Q([k], z3.Implies(S(dom(OV, ov), k), z3.And(
                    vlen(VX, o) >= 2, S(dom(SYM, sym), k), back(VX, o) == S(val(SYM, sym), k))), patterns=[S(dom(OV, ov), k), o])),
                ('names bound over are bound', Q([j], z3.Implies(z3.And(0 <= j, j < vlen(VS, od)), S(dom(SYM, sym), S(acc(VS, 'arr', od), j))),
                                                 patterns=[S(acc(VS, 'arr', od), j)]))]

    def bindrel(s0, s1, n, x, scoped=True):
        """s1 results from s0 by binding name n to x (inside a scope)"""
        sym0, ov0, od0 = s0[:3]
        sym1, ov1, od1 = s1[:3]
        was = S(dom(SYM, sym0), n)
        o0, o1 = S(val(OV, ov0), n), S(val(OV, ov1), n)
        a0, a1 = acc(VX, 'arr', o0), acc(VX, 'arr', o1)
        had = S(dom(OV, ov0), n)
        oth = lambda ct, a, b: z3.And(Q([k], z3.Implies(k != n, S(dom(ct, a), k) == S(dom(ct, b), k)), patterns=[S(dom(ct, a), k), S(dom(ct, b), k)]),
                                      Q([k], z3.Implies(z3.And(k != n, S(dom(ct, a), k)), S(val(ct, a), k) == S(val(ct, b), k)),
                                        patterns=[S(val(ct, a), k), S(val(ct, b), k)]))
        ln = z3.If(had, vlen(VX, o0), z3.IntVal(1))
        return [('the name is bound to the term', z3.And(S(dom(SYM, sym1), n), S(val(SYM, sym1), n) == x)),
                ('other names keep their binding', oth(SYM, sym0, sym1)),
                ('other names keep their overloads', oth(OV, ov0, ov1)),
                ('a fresh name has no overloads', z3.Implies(z3.Not(was), S(dom(OV, ov1), n) == had)),
                ('a name bound before has overloads', z3.Implies(was, S(dom(OV, ov1), n))),
                ('the term becomes the last overload', z3.Implies(was, z3.And(vlen(VX, o1) == ln + 1, S(a1, ln) == x))),
                ('earlier overloads are kept', z3.Implies(was, z3.If(had, Q([j], z3.Implies(z3.And(0 <= j, j < ln), S(a1, j) == S(a0, j)),
                                                                            patterns=[S(a1, j), S(a0, j)]), S(a1, 0) == S(val(SYM, sym0), n)))),
                ('names bound over are recorded', z3.If(z3.And(was, z3.BoolVal(scoped) if isinstance(scoped, bool) else scoped), z3.And(
                    vlen(VS, od1) == vlen(VS, od0) + 1, S(acc(VS, 'arr', od1), vlen(VS, od0)) == n,
                    Q([j], z3.Implies(z3.And(0 <= j, j < vlen(VS, od0)), S(acc(VS, 'arr', od1), j) == S(acc(VS, 'arr', od0), j)),
                      patterns=[S(acc(VS, 'arr', od1), j), S(acc(VS, 'arr', od0), j)])), eqvec(VS, od0, od1)))]

    def wfctx(dc, cx):
        a = acc(VN, 'arr', cx)
        return [('nothing is recorded outside scopes', z3.Implies(vlen(VN, cx) == 0, vlen(VS, dc) == 0)),
                ('scopes are nested', z3.And(z3.Implies(vlen(VN, cx) > 0, z3.And(S(a, 0) == 0, back(VN, cx) <= vlen(VS, dc))),
                                             Q([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < vlen(VN, cx)), z3.And(0 <= S(a, i), S(a, i) <= S(a, j))), patterns=[so.MP(S(a, i), S(a, j))])))]

    def inv(c, new=False):
        s = fl(c, new)
        return wf(*s[:3]) + wfctx(s[3], s[4])

    rules = lambda c, new=False: F(c, 'd_ruleSymTable', new)

    def isrule(c):
        o = c.objfield(c.field('d_opts'), 'd_ruleSymTable')
        return z3.And(o, kind(c.a(1)) == K['PROOF_RULE'])

    def bindpost(c):
        s0, s1 = fl(c), fl(c, True)
        n, x = c.a(0), c.a(1)
        r0, r1 = rules(c), rules(c, True)
        ru = isrule(c)
        yield 'binding fails for a rule that exists already only', c.result() == z3.Not(z3.And(ru, S(dom(SYM, r0), n)))
        ok = z3.And(ru, z3.Not(S(dom(SYM, r0), n)))
        yield 'a new rule is bound', z3.Implies(ok, z3.And(S(dom(SYM, r1), n), S(val(SYM, r1), n) == x))
        yield 'other rules are kept', Q([k], z3.Implies(z3.Or(k != n, z3.Not(ok)), z3.And(S(dom(SYM, r1), k) == S(dom(SYM, r0), k),
                                                                                         z3.Implies(S(dom(SYM, r0), k), S(val(SYM, r1), k) == S(val(SYM, r0), k)))), patterns=[S(dom(SYM, r1), k)])
        yield 'rules do not change symbols', z3.Implies(ru, z3.And([a == b for a, b in zip(s0, s1)]))
        sc = vlen(VN, s0[4]) > 0
        for nm, f in bindrel(s0, s1, n, x, sc):
            yield nm, z3.Implies(z3.Not(ru), f)
        yield 'the declaration is recorded', z3.Implies(z3.And(z3.Not(ru), sc), z3.And(vlen(VS, s1[3]) == vlen(VS, s0[3]) + 1, S(acc(VS, 'arr', s1[3]), vlen(VS, s0[3])) == n,
                  Q([j], z3.Implies(z3.And(0 <= j, j < vlen(VS, s0[3])), S(acc(VS, 'arr', s1[3]), j) == S(acc(VS, 'arr', s0[3]), j)), patterns=[S(acc(VS, 'arr', s1[3]), j)])))
        yield 'global declarations are not recorded', z3.Implies(z3.Not(sc), s1[3] == s0[3])
        a0, a1 = F(c, 'd_appData'), F(c, 'd_appData', True)
        was = S(dom(SYM, s0[0]), n)
        A = lambda f, a, t: acc(AI, f, S(val(APP, a), t))
        mark = z3.And(z3.Not(ru), was, z3.Or(z3.Not(issym(kind(x))), symname(x) == n))
        yield 'an overload is marked with its name', z3.Implies(mark, z3.And(S(dom(APP, a1), x), A('d_isOverloaded', a1, x), A('d_overloadName', a1, x) == n))
        yield 'the attributes of terms are kept', Q([e], z3.Implies(S(dom(APP, a0), e), z3.And(S(dom(APP, a1), e), A('d_attrCons', a0, e) == A('d_attrCons', a1, e),
                    A('d_attrConsTerm', a0, e) == A('d_attrConsTerm', a1, e), A('d_kind', a0, e) == A('d_kind', a1, e))), patterns=[S(val(APP, a1), e)])
        yield 'no other term is marked', Q([e], z3.Implies(z3.Or(e != x, z3.Not(mark)), z3.And(S(dom(APP, a0), e) == S(dom(APP, a1), e),
                    z3.Implies(S(dom(APP, a0), e), S(val(APP, a0), e) == S(val(APP, a1), e)))), patterns=[S(val(APP, a1), e), S(dom(APP, a1), e)])
        for nm, f in inv(c, True):
            yield 'data invariant: ' + nm, f

    def issym(kk):
        return z3.Or([kk == K[n] for n in ('PARAM', 'CONST', 'PROGRAM_CONST', 'PROOF_RULE', 'VARIABLE')])
    symname = lambda x: d.lit(x, 'd_str') if False else symf(x)
    symf = z3.Function('symbolName', E, so.Str)
    d.symf = symf
    out.append(Fn('ethos::Expr::getSymbol', lambda c: [], result=lambda c: symf(d.term_of(c.ex, c.thislv(), c.st)), trusted=True,
                  why='the name of a symbol is a function of the term'))
    out.append(Fn('ethos::State::bind', bindpost, given=lambda c: [f for _, f in inv(c)], mods=lambda c: st('d_symTable', 'd_ruleSymTable', 'd_overloads', 'd_overloadedDecls', 'd_decls', 'd_appData')))
    out.append(Fn('ethos::State::getVar', lambda c: [('the term bound to the name, or nothing', c.result() == z3.If(
        S(dom(SYM, c.field('d_symTable')), c.a(0)), S(val(SYM, c.field('d_symTable')), c.a(0)), SNULL))], given=lambda c: [c.field('d_null') == SNULL]))
    rt = lambda c: z3.If(c.objfield(c.field('d_opts'), 'd_ruleSymTable'), rules(c), c.field('d_symTable'))
    out.append(Fn('ethos::State::getProofRule', lambda c: [('the rule bound to the name, or nothing', c.result() == z3.If(
        S(dom(SYM, rt(c)), c.a(0)), S(val(SYM, rt(c)), c.a(0)), SNULL))], given=lambda c: [c.field('d_null') == SNULL]))

    def pushpost(c):
        s0, s1 = fl(c), fl(c, True)
        yield 'the number of declarations is recorded', z3.And(vlen(VN, s1[4]) == vlen(VN, s0[4]) + 1, back(VN, s1[4]) == vlen(VS, s0[3]))
        yield 'outer scopes are kept', Q([j], z3.Implies(z3.And(0 <= j, j < vlen(VN, s0[4])), S(acc(VN, 'arr', s1[4]), j) == S(acc(VN, 'arr', s0[4]), j)), patterns=[S(acc(VN, 'arr', s1[4]), j)])
        for nm, f in inv(c, True):
            yield 'data invariant: ' + nm, f
    out.append(Fn('ethos::State::pushScope', pushpost, given=lambda c: [f for _, f in inv(c)], mods=lambda c: st('d_declsSizeCtx')))

    # the history: the state before the i-th recorded declaration
    hs, ho, hd = z3.Function('histSym', I, sort(SYM)), z3.Function('histOverloads', I, sort(OV)), z3.Function('histOver', I, sort(VS))
    hx = z3.Function('histTerm', I, E)
    H = lambda n: (hs(n), ho(n), hd(n))
    hist = z3.Function('histAt', I, B)

    def same(s, n):
        return [('symbols', eqsym(s[0], hs(n))), ('overloads', eqov(s[1], ho(n))), ('names bound over', eqvec(VS, s[2], hd(n)))]

    def history(c):
        s = fl(c) if c.old is not None else fl(c, True)
        n, a = vlen(VS, s[3]), acc(VS, 'arr', s[3])
        return [f for _, f in wfctx(s[3], s[4])] + [f for _, f in same(s, n)] + [
            Q([i], hist(i), patterns=[hist(i)]),
            Q([i], z3.Implies(z3.And(hist(i), 1 <= i, i <= n), z3.And([f for _, f in bindrel(H(i - 1), H(i), S(a, i - 1), hx(i))])), patterns=[hist(i)]),
            Q([i], z3.Implies(z3.And(hist(i), 0 <= i, i <= n), z3.And([f for _, f in wf(*H(i))] + [vlen(VS, hd(i)) >= 0])), patterns=[hist(i)])]

    def poploop(cx):
        n = cx.v('i', SZ)
        last = cx.v('lastSize', SZ)
        s = [stf(cx.ex, cx.st, x) for x in ('d_symTable', 'd_overloads', 'd_overloadedDecls', 'd_decls')]
        cx.st.assume(z3.And(hist(n), hist(n - 1)))
        yield 'range', z3.And(last <= n, n <= vlen(VS, s[3]))
        for nm, f in same(s, n):
            yield 'as before declaration i: ' + nm, f

    def poppost(c):
        s0, s1 = fl(c), fl(c, True)
        last = back(VN, s0[4])
        for nm, f in same(s1, last):
            yield 'as at the matching push: ' + nm, f
        yield 'declarations of the scope are dropped', z3.And(vlen(VS, s1[3]) == last, Q([j], z3.Implies(z3.And(0 <= j, j < last), S(acc(VS, 'arr', s1[3]), j) == S(acc(VS, 'arr', s0[3]), j)), patterns=[S(acc(VS, 'arr', s1[3]), j)]))
        yield 'the scope is closed', z3.And(vlen(VN, s1[4]) == vlen(VN, s0[4]) - 1, Q([j], z3.Implies(z3.And(0 <= j, j < vlen(VN, s1[4])), S(acc(VN, 'arr', s1[4]), j) == S(acc(VN, 'arr', s0[4]), j)), patterns=[S(acc(VN, 'arr', s1[4]), j)]))
        c.st.assume(hist(last))
        for nm, f in wf(*s1[:3]) + wfctx(s1[3], s1[4]):
            yield 'data invariant: ' + nm, f

    def histpre(c):
        # a scope is open (otherwise the function does not return)
        return [('history of the symbol tables %d' % n, f) for n, f in enumerate(history(c))]
    out.append(Fn('ethos::State::popScope', poppost, pre=histpre, loops={0: poploop},
                  mods=lambda c: st('d_symTable', 'd_overloads', 'd_overloadedDecls', 'd_decls', 'd_declsSizeCtx'),
                  assumes=['the history of the symbol tables is the one described by the contracts of bind, pushScope and popScope (only they write these tables, apart from reset)']))
    d.sx = X = dict(bindrel=bindrel, inv=inv, nf=None)
    X.update(dict(fl=fl, inv=inv, history=history, same=same, wfctx=wfctx, hist=hist, wf=wf))
    scopes(d, out, X)
    assumptions(d, out)
    return out


def prefix(ct, a, b, n, nm='j!x'):
    """a consists of the first n elements of b"""
    j = z3.Int(nm)
    x, y = acc(ct, 'arr', a), acc(ct, 'arr', b)
    return z3.And(vlen(ct, a) == n, Q([j], z3.Implies(z3.And(0 <= j, j < n), S(x, j) == S(y, j)), patterns=[S(x, j), S(y, j)]))


def pushed(ct, new, old, x):
    n = vlen(ct, old)
    j = z3.Int('j!y')
    a, b = acc(ct, 'arr', new), acc(ct, 'arr', old)
    return z3.And(vlen(ct, new) == n + 1, S(a, n) == x, Q([j], z3.Implies(z3.And(0 <= j, j < n), S(a, j) == S(b, j)), patterns=[S(a, j), S(b, j)]))


def scopes(d, out, X):
    fl, inv, history, same = X['fl'], X['inv'], X['history'], X['same']
    j, i = z3.Ints('j!s i!s')

    def ainv(c, new=False):
        sz, dc, a, cx = [F(c, n, new) for n in ('d_assumptionsSizeCtx', 'd_assumptionsDeclsCtx', 'd_assumptions', 'd_declsSizeCtx')]
        s, t = acc(VN, 'arr', sz), acc(VN, 'arr', dc)
        return [('assumption scopes are recorded together', vlen(VN, sz) == vlen(VN, dc)),
                ('assumptions nest', z3.And(z3.Implies(vlen(VN, sz) > 0, z3.And(0 <= S(s, 0), back(VN, sz) <= vlen(VX, a))),
                                            Q([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < vlen(VN, sz)), z3.And(0 <= S(s, i), S(s, i) <= S(s, j))), patterns=[so.MP(S(s, i), S(s, j))]))),
                ('assumption scopes are scopes', z3.And(z3.Implies(vlen(VN, dc) > 0, z3.And(0 <= S(t, 0), back(VN, dc) < vlen(VN, cx))),
                                                        Q([i, j], z3.Implies(z3.And(0 <= i, i < j, j < vlen(VN, dc)), z3.And(0 <= S(t, i), S(t, i) < S(t, j))), patterns=[so.MP(S(t, i), S(t, j))])))]

    X['ainv'] = ainv

    def pushpost(c):
        yield 'the assumptions made so far are recorded', pushed(VN, F(c, 'd_assumptionsSizeCtx', True), F(c, 'd_assumptionsSizeCtx'), vlen(VX, F(c, 'd_assumptions')))
        yield 'the open scopes are recorded', pushed(VN, F(c, 'd_assumptionsDeclsCtx', True), F(c, 'd_assumptionsDeclsCtx'), vlen(VN, F(c, 'd_declsSizeCtx')))
        yield 'a scope is opened', pushed(VN, F(c, 'd_declsSizeCtx', True), F(c, 'd_declsSizeCtx'), vlen(VS, F(c, 'd_decls')))
        for nm, f in ainv(c, True) + inv(c, True):
            yield 'data invariant: ' + nm, f
    gi = lambda c: [f for _, f in ainv(c) + inv(c)]
    out.append(Fn('ethos::State::pushAssumptionScope', pushpost, given=gi, mods=lambda c: st('d_assumptionsSizeCtx', 'd_assumptionsDeclsCtx', 'd_declsSizeCtx')))

    def poploop(cx):
        g = lambda n: stf(cx.ex, cx.st, n)
        g0 = lambda n: stf(cx.ex, cx.entry, n)
        s = [g(x) for x in ('d_symTable', 'd_overloads', 'd_overloadedDecls', 'd_decls')]
        for nm, f in same(s, vlen(VS, s[3])):
            yield 'history of the tables: ' + nm, f
        for nm, f in X['wfctx'](s[3], g('d_declsSizeCtx')):
            yield 'data invariant: ' + nm, f
        last = cx.v('lastScope', SZ)
        c1, c0 = g('d_declsSizeCtx'), g0('d_declsSizeCtx')
        yield 'outer scopes are kept', z3.And(last <= vlen(VN, c1), prefix(VN, c1, c0, vlen(VN, c1)), vlen(VN, c1) <= vlen(VN, c0))
        d1, d0 = g('d_decls'), g0('d_decls')
        yield 'declarations of closed scopes are dropped', z3.And(prefix(VS, d1, d0, vlen(VS, d1)), vlen(VS, d1) == z3.If(
            vlen(VN, c1) == vlen(VN, c0), vlen(VS, d0), S(acc(VN, 'arr', c0), vlen(VN, c1))))

    def poppre(c):
        return [('an assumption scope is open', vlen(VN, F(c, 'd_assumptionsSizeCtx')) > 0)] + [('history %d' % n, f) for n, f in enumerate(history(c))] + ainv(c, True)

    def poppost(c):
        sz0, sz1 = F(c, 'd_assumptionsSizeCtx'), F(c, 'd_assumptionsSizeCtx', True)
        dc0, dc1 = F(c, 'd_assumptionsDeclsCtx'), F(c, 'd_assumptionsDeclsCtx', True)
        cx0, cx1 = F(c, 'd_declsSizeCtx'), F(c, 'd_declsSizeCtx', True)
        yield 'the assumptions of the scope are dropped', prefix(VX, F(c, 'd_assumptions', True), F(c, 'd_assumptions'), back(VN, sz0))
        yield 'the assumption scope is closed', z3.And(prefix(VN, sz1, sz0, vlen(VN, sz0) - 1), prefix(VN, dc1, dc0, vlen(VN, dc0) - 1))
        yield 'all scopes opened in it are closed', prefix(VN, cx1, cx0, back(VN, dc0))
        s1 = fl(c, True)
        for nm, f in same(s1, S(acc(VN, 'arr', cx0), back(VN, dc0))):
            yield 'as when the scope was opened: ' + nm, f
        c.st.assume(X['hist'](S(acc(VN, 'arr', cx0), back(VN, dc0))))
        for nm, f in ainv(c, True) + inv(c, True):
            yield 'data invariant: ' + nm, f
    out.append(Fn('ethos::State::popAssumptionScope', poppost, pre=poppre, loops={0: poploop}, mods=lambda c: st(
        'd_assumptionsSizeCtx', 'd_assumptionsDeclsCtx', 'd_declsSizeCtx', 'd_assumptions', 'd_symTable', 'd_overloads', 'd_overloadedDecls', 'd_decls')))
    dcl = lambda c: F(c, 'd_assumptionsDeclsCtx')
    out.append(Fn('ethos::State::isAssumptionScope', lambda c: [('the innermost scope is an assumption scope', c.result() == z3.And(
        vlen(VN, dcl(c)) > 0, vlen(VN, F(c, 'd_declsSizeCtx')) == back(VN, dcl(c)) + 1))], given=gi))
    out.append(Fn('ethos::State::getAssumptionLevel', lambda c: [('number of open assumption scopes', c.result() == vlen(VN, F(c, 'd_assumptionsSizeCtx')))]))

    def curpost(c):
        sz, a, r = F(c, 'd_assumptionsSizeCtx'), F(c, 'd_assumptions'), c.result()
        s = z3.If(vlen(VN, sz) == 0, z3.IntVal(0), back(VN, sz))
        yield 'the assumptions of the innermost scope, in order', z3.And(vlen(VX, r) == vlen(VX, a) - s, Q([j], z3.Implies(
            z3.And(0 <= j, j < vlen(VX, r)), S(acc(VX, 'arr', r), j) == S(acc(VX, 'arr', a), s + j)), patterns=[S(acc(VX, 'arr', r), j)]))
    out.append(Fn('ethos::State::getCurrentAssumptions', curpost, given=gi))


def assumptions(d, out):
    K = d.K
    e = z3.Const('e!s', E)
    nul = [Q([e], z3.Implies(kind(e) == K['NONE'], e == SNULL), patterns=[kind(e)])]
    asm = ['only the null term has kind NONE']
    # the term State::mkExpr builds from two terms
    mk2 = z3.Function('mkExpr2', I, E, E, E)

    def mkpost(c):
        v = c.a(1)
        a = acc(VX, 'arr', v)
        r = c.result()
        return [('value', z3.Implies(vlen(VX, v) == 2, r == mk2(c.a(0), S(a, 0), S(a, 1)))), ('not null', z3.And(r != SNULL, r != NULLP)),
                ('logged', z3.And(G(c, 'mkres', True) == r, eqvec(VX, G(c, 'mk', True), N(c, v), 'j!mk')))]
    out.append(Fn('ethos::State::mkExpr', mkpost, mods=lambda c: touch(c, 'mk', 'mkres'), trusted=True, why='the term built from a kind and children is a function of these (see B01, B04)'))
    d.sx['nf'] = nf = lambda c, x: z3.If(F(c, 'd_referenceNf') == SNULL, x, mk2(K['APPLY'], F(c, 'd_referenceNf'), x))

    def apost(c):
        a0, a1, ra = F(c, 'd_assumptions'), F(c, 'd_assumptions', True), F(c, 'd_referenceAsserts')
        sz = F(c, 'd_assumptionsSizeCtx')
        yield 'the assumption is recorded', pushed(VX, a1, a0, c.a(0))
        local = z3.And(vlen(VN, sz) > 0, vlen(VX, a0) == back(VN, sz))
        yield 'accepted iff local, or there is no reference, or it is in the reference', c.result() == z3.Or(
            z3.Not(F(c, 'd_hasReference')), local, S(acc(ES, 'dom', ra), nf(c, c.a(0))))
    out.append(Fn('ethos::State::addAssumption', apost, axioms=nul, assumes=asm, mods=lambda c: st('d_assumptions') + touch(c, 'mk', 'mkres'),
                  given=lambda c: [z3.Implies(vlen(VN, F(c, 'd_assumptionsSizeCtx')) > 0, z3.And(0 <= back(VN, F(c, 'd_assumptionsSizeCtx')), back(VN, F(c, 'd_assumptionsSizeCtx')) <= vlen(VX, F(c, 'd_assumptions'))))]))

    def rpost(c):
        ra0, ra1 = acc(ES, 'dom', F(c, 'd_referenceAsserts')), acc(ES, 'dom', F(c, 'd_referenceAsserts', True))
        yield 'exactly the normalised formula is added', Q([e], S(ra1, e) == z3.Or(S(ra0, e), e == nf(c, c.a(0))), patterns=[S(ra1, e), S(ra0, e)])
        yield 'the formula is kept alive', pushed(VX, F(c, 'd_referenceAssertList', True), F(c, 'd_referenceAssertList'), nf(c, c.a(0)))
    out.append(Fn('ethos::State::addReferenceAssert', rpost, axioms=nul, assumes=asm, mods=lambda c: st('d_referenceAsserts', 'd_referenceAssertList') + touch(c, 'mk', 'mkres')))
    out.append(Fn('ethos::State::hasReference', lambda c: [('a reference was given', c.result() == F(c, 'd_hasReference'))]))
    ps = lambda c, new=False: acc(ES, 'dom', F(c, 'd_pfrSorry', new))
    out.append(Fn('ethos::State::markProofRuleSorry', lambda c: [('exactly this rule is marked', Q([e], S(ps(c, True), e) == z3.Or(S(ps(c), e), e == c.a(0)), patterns=[S(ps(c, True), e), S(ps(c), e)]))],
                  mods=lambda c: st('d_pfrSorry')))
    out.append(Fn('ethos::State::isProofRuleSorry', lambda c: [('marked', c.result() == S(ps(c), c.a(0)))]))
    out.append(Fn('ethos::State::markIncomplete', lambda c: [('marked', F(c, 'd_isIncomplete', True))], mods=lambda c: st('d_isIncomplete')))
    out.append(Fn('ethos::State::isIncomplete', lambda c: [('marked', c.result() == F(c, 'd_isIncomplete'))]))
