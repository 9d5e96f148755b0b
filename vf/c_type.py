"""Types of terms: TypeChecker::getType and what it is made of."""
import z3
from . import sorts as so
from .sorts import acc, mk, sort, vlen, I, B, E, NULLP, SNULL
from .domain import kind, VE, EV
from .c_state import Fn, F, st, stf, EX, VX, S, Q, N, val, dom, G, GT, touch, name
from .c_reset import TYPES, RULES
from .c_term import ME, PE, SP, nonground, evaluable, expand, height, bases
from .c_util import Def
from .symex import Obj

AB, AE = z3.ArraySort(E, B), z3.ArraySort(E, E)
dv = lambda m: (acc(ME, 'dom', m), acc(ME, 'val', m))
FL = [('g', 'flag%d' % i) for i in range(3)]
GT.update(gti_e=EV, gti_r=EX)

# the manual: number of arguments of each operator (n-ary operators are binary here, see T02)
ARITY = {
    1: 'IS_OK TYPE_OF NAME_OF HASH NOT NEG IS_NEG LENGTH TO_INT TO_RAT TO_STRING IS_Z IS_Q IS_BIN IS_STR IS_BOOL IS_VAR DT_CONSTRUCTORS DT_SELECTORS',
    2: 'IS_EQ VAR EQ INT_DIV INT_MOD RAT_DIV TO_BIN FIND COMPARE GT LIST_LENGTH LIST_REV LIST_SETOF LIST_SINGLETON_ELIM NIL ADD MUL AND OR XOR CONCAT',
    3: 'REQUIRES IF_THEN_ELSE CONS EXTRACT LIST_CONCAT LIST_FIND LIST_ERASE LIST_ERASE_ALL LIST_NTH LIST_MINCLUDE LIST_MEQ LIST_DIFF LIST_INTER',
}
NARY = 'ADD MUL AND OR XOR CONCAT'
# the type of an application of an operator
TYPE = {
    'type': 'TYPE_OF', 'arg1': 'VAR NIL', 'type of 0': 'ADD MUL NEG AND OR XOR NOT CONCAT EXTRACT',
    'type of 1': 'IF_THEN_ELSE CONS LIST_CONCAT LIST_NTH LIST_ERASE LIST_ERASE_ALL LIST_REV LIST_SETOF LIST_DIFF LIST_INTER LIST_SINGLETON_ELIM',
    'type of 2': 'REQUIRES',
    'Bool': 'IS_OK IS_EQ EQ IS_NEG COMPARE IS_Z IS_Q IS_BIN IS_STR IS_BOOL IS_VAR GT LIST_MINCLUDE LIST_MEQ',
    'NUMERAL': 'HASH INT_DIV INT_MOD TO_INT LENGTH FIND LIST_LENGTH LIST_FIND', 'RATIONAL': 'RAT_DIV TO_RAT', 'STRING': 'NAME_OF TO_STRING', 'BINARY': 'TO_BIN',
    'list type': 'DT_CONSTRUCTORS DT_SELECTORS',
}


def arity(K, k, n):
    return z3.Or([z3.And(n == a, z3.Or([k == K['EVAL_' + o] for o in ops.split()])) for a, ops in ARITY.items()] + [z3.And(n == 1, k == K['PROOF'])])


def contracts(d):
    K = d.K
    T = d.termspec
    out = []
    i, j = z3.Ints('i!y j!y')
    e, x, t, r_ = z3.Consts('e!y x!y t!y r!y', E)
    D, V = z3.Const('D!y', AB), z3.Const('V!y', AE)
    nul = Q([e], z3.Implies(kind(e) == K['NONE'], e == SNULL), patterns=[kind(e)])
    ax = T.axioms + [T.mono, T.trans, nul]
    asm = ['only the null term has kind NONE', 'terms are finite and acyclic', 'termination is not proved (partial correctness)']
    TC = 'TypeChecker'
    types = lambda c, new=False: F(c, 'd_typeCache', new)
    sd = lambda v: acc(SP, 'dom', v)
    nn = lambda ct, v: Q([i], z3.Implies(z3.And(0 <= i, i < vlen(ct, v)), S(acc(ct, 'arr', v), i) != NULLP), patterns=[S(acc(ct, 'arr', v), i)])

    out.append(Def('ethos::isNaryLiteralOp', lambda c: z3.Or([c.a(0) == K['EVAL_' + o] for o in NARY.split()])))
    out.append(Fn('ethos::TypeChecker::checkArity', lambda c: [('the number of arguments is the one of the operator', c.result() == arity(K, c.a(0), c.a(1)))]))
    out.append(Fn('ethos::State::lookupType', lambda c: [('the type in the cache, if any', c.result() == z3.If(
        S(dom(TYPES, types(c)), c.a(0)), S(val(TYPES, types(c)), c.a(0)), NULLP))]))

    # ---- function types
    FT = z3.Function('functionType', z3.ArraySort(I, E), I, I, E, E, B)
    a_, n_ = z3.Const('a!y', z3.ArraySort(I, E)), z3.Int('n!y')
    ft = FT(a_, i, n_, r_, t)
    ftax = [Q([a_, i, n_, r_, t], z3.Implies(i >= n_, ft == (t == r_)), patterns=[ft]),
            Q([a_, i, n_, r_, t], z3.Implies(z3.And(0 <= i, i < n_), ft == z3.And(kind(t) == K['FUNCTION_TYPE'], d.nch(t) == 2, d.ch(t, 0) == S(a_, i), FT(a_, i + 1, n_, r_, d.ch(t, 1)))), patterns=[ft])]

    def ftpost(c):
        v = N(c, c.a(0))
        return [('the curried function type', FT(acc(VX, 'arr', v), 0, vlen(VX, v), N(c, c.a(1)), N(c, c.result()))), ('not null', z3.And(c.result() != SNULL, c.result() != NULLP))]

    def ftloop(cx):
        v, k = cx.at_entry('args', VX), cx.v('i', ('int', 64, False))
        n = vlen(VX, v)
        yield 'range', z3.And(0 <= k, k <= n)
        yield 'the last arguments', FT(acc(VX, 'arr', v), n - k, n, cx.at_entry('ret', EX), cx.v('curr', EX))
        yield 'not null', z3.And(cx.v('curr', EX) != SNULL, cx.v('curr', EX) != NULLP)
    out.append(Fn('ethos::State::mkFunctionType', ftpost, given=lambda c: [nn(VX, c.a(0)), c.a(1) != SNULL, c.a(1) != NULLP], axioms=ftax, loops={0: ftloop}, assumes=asm))

    # ---- applications
    AO = z3.Function('argumentsFit', AB, AE, B)      # the arguments fit the argument types under a substitution
    EVR = z3.Function('evaluatesTo', E, AB, AE, E, B)
    cat = lambda a, b: z3.Or(a, b)

    def epost(c):
        a, b = types(c), types(c, True)
        return [('not null', z3.And(c.result() != SNULL, c.result() != NULLP)), ('result', EVR(c.a(0), *dv(c.a(1)), c.result())), ('cache', grows(a, b)), ('new types', news(a, b)),
                ('data invariant', z3.Implies(cacheinv(a), cacheinv(b)))]

    def grows(a, b):
        return Q([e], z3.Implies(S(dom(TYPES, a), e), z3.And(S(dom(TYPES, b), e), S(val(TYPES, b), e) == S(val(TYPES, a), e))), patterns=[S(dom(TYPES, b), e), S(val(TYPES, b), e)])

    COMP = z3.Function('computedType', E, E, B)      # getTypeInternal computed this type for the term

    def cacheinv(m):
        """the types in the cache are terms, and the children of a term that has a type have types"""
        v = S(val(TYPES, m), e)
        return z3.And(Q([e], z3.Implies(S(dom(TYPES, m), e), z3.And(v != SNULL, v != NULLP)), patterns=[v]),
                      Q([e, i], z3.Implies(z3.And(S(dom(TYPES, m), e), 0 <= i, i < d.nch(e)), S(dom(TYPES, m), d.ch(e, i))), patterns=[so.MP(S(dom(TYPES, m), e), d.ch(e, i))]))

    def news(a, b):
        """types added to the cache were computed, and are no ground terms that can be evaluated further"""
        v = S(val(TYPES, b), e)
        return Q([e], z3.Implies(z3.And(S(dom(TYPES, b), e), z3.Not(S(dom(TYPES, a), e))), z3.And(COMP(e, v), z3.Or(nonground(v), z3.Not(evaluable(v))))), patterns=[v, S(dom(TYPES, b), e)])

    def kept(c):
        a, b = types(c), types(c, True)
        yield 'types are kept', grows(a, b)
        yield 'new types were computed', news(a, b)
        yield 'data invariant of the types', cacheinv(b)

    out.append(Fn('ethos::TypeChecker::evaluate', epost, mods=lambda c: [types(c) is None or ('o', 'State', 'd_typeCache')] + touch(c, 'ev_t', 'ev_ctx', 'ev_res'), trusted=True,
                  ghosts=lambda c: list(zip(touch(c, 'ev_t', 'ev_ctx', 'ev_res'), (c.a(0), c.a(1), c.result()))),
                  why='evaluation is checked by B04; here that it is called with the right term and bindings, and that it keeps the types computed so far'))

    def parts(c):
        ch = N(c, c.a(0))
        arr, n = acc(VE, 'arr', ch), vlen(VE, ch)
        tc = types(c)
        ty = lambda x: S(val(TYPES, tc), x)
        Ty = c.ex.fresh(E, 'headType')
        c.st.assume(Ty == ty(S(arr, 0)))
        return ch, arr, n, tc, ty, Ty

    def arg(ty, arr, Ty, k):
        """pattern, what it is matched with, side condition of argument k"""
        p = d.ch(Ty, k - 1)
        q = kind(p) == K['QUOTE_TYPE']
        return z3.If(q, d.ch(p, 0), p), z3.If(q, S(arr, k), ty(S(arr, k))), z3.Implies(q, ty(S(arr, k)) == ty(d.ch(p, 0)))

    PAT, TRG, SIDE = z3.Function('argPattern', I, E), z3.Function('argTarget', I, E), z3.Function('argSide', I, B)

    def defs(c):
        ch, arr, n, tc, ty, Ty = parts(c)
        p, g, s = arg(ty, arr, Ty, i)
        inr = z3.And(1 <= i, i < n)
        return [Q([i], z3.And(PAT(i) == p, TRG(i) == g, SIDE(i) == s), patterns=[PAT(i)]), Q([i], z3.And(PAT(i) == p, TRG(i) == g, SIDE(i) == s), patterns=[d.ch(Ty, i - 1)]),
                Q([D, V], AO(D, V) == Q([i], z3.Implies(inr, z3.And(SIDE(i), T.M(PAT(i), TRG(i), D, V))), patterns=[PAT(i)]), patterns=[AO(D, V)])]

    def agiven(c):
        ch, arr, n, tc, ty, Ty = parts(c)
        return defs(c) + [cacheinv(tc), nn(VE, ch), n >= 1, c.objfield(c.this, 'd_null') == SNULL, F(c, 'd_null') == SNULL, Ty != SNULL, Ty != NULLP,
                Q([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(S(dom(TYPES, tc), S(arr, i)), ty(S(arr, i)) != NULLP, ty(S(arr, i)) != SNULL)), patterns=[S(arr, i)]),
                Q([i], z3.Implies(z3.And(0 <= i, i < d.nch(Ty)), z3.And(d.ch(Ty, i) != NULLP, d.ch(Ty, i) != SNULL)), patterns=[d.ch(Ty, i)]),
                Q([i], z3.Implies(z3.And(0 <= i, i < d.nch(Ty) - 1, kind(d.ch(Ty, i)) == K['QUOTE_TYPE']), z3.And(
                    d.nch(d.ch(Ty, i)) == 1, d.ch(d.ch(Ty, i), 0) != NULLP, d.ch(d.ch(Ty, i), 0) != SNULL,
                    S(dom(TYPES, tc), d.ch(d.ch(Ty, i), 0)), ty(d.ch(d.ch(Ty, i), 0)) != NULLP)), patterns=[d.ch(Ty, i)])]

    def fits(c):
        ch, arr, n, tc, ty, Ty = parts(c)
        return z3.And(cat(kind(Ty) == K['FUNCTION_TYPE'], kind(Ty) == K['PROGRAM_TYPE']), d.nch(Ty) == n)

    def apost(c):
        ch, arr, n, tc, ty, Ty = parts(c)
        r = c.result()
        m0, m1 = dv(N(c, c.a(1))), dv(N(c, c.new(1)))
        ok = r != SNULL
        yield 'only functions and programs are applied, to the right number of arguments', z3.Implies(ok, fits(c))
        yield 'the arguments fit the argument types', z3.Implies(ok, AO(*m1))
        yield 'bindings are only added', z3.Implies(ok, T.ext(*m0, *m1))
        yield 'not a null pointer', r != NULLP
        yield 'the type is the value of the result type under these bindings', z3.Implies(ok, z3.And(
            r == G(c, 'ev_res', True), G(c, 'ev_t', True) == d.ch(Ty, n - 1), G(c, 'ev_ctx', True) == c.new(1)))
        yield 'accepted if the arguments fit, with no more bindings than necessary', Q([D, V], z3.Implies(
            z3.And(fits(c), T.ext(*m0, D, V), AO(D, V)), z3.And(ok, T.ext(*m1, D, V))), patterns=[AO(D, V)])
        yield from kept(c)

    def aloop(cx):
        k = cx.v('i', ('int', 64, False))
        hd = cx.v('hdtypes', VE)
        n = vlen(VE, hd)
        m, m0 = cx.v('ctx', ME), cx.at_entry('ctx', ME)
        mm, mm0 = dv(m), dv(m0)
        cx.st.assume(z3.And(PAT(k) == PAT(k), PAT(k - 1) == PAT(k - 1)))
        yield 'range', z3.And(1 <= k, k <= n)
        yield 'the arguments so far fit', Q([i], z3.Implies(z3.And(1 <= i, i < k), z3.And(SIDE(i), T.M(PAT(i), TRG(i), *mm))), patterns=[PAT(i)])
        yield 'bindings are only added', T.ext(*mm0, *mm)
        yield 'every substitution under which the arguments fit extends the bindings', Q([D, V], z3.Implies(z3.And(T.ext(*mm0, D, V), AO(D, V)), T.ext(*mm, D, V)), patterns=[AO(D, V)])
        yield 'visited pairs are settled', T.closed(sd(cx.v('visited', SP)), *mm)
    out.append(Fn('ethos::TypeChecker::getTypeAppInternal', apost, given=agiven, axioms=ax, assumes=asm + ['a quoted argument type has one child, whose type is known'], free=FL,
                  mods=lambda c: [c.lv(1), types(c) is None or ('o', 'State', 'd_typeCache')] + touch(c, 'ev_t', 'ev_ctx', 'ev_res'), loops={'hdtypes typeSuccess': aloop}))

    # ---- types of literals
    bt = z3.Function('builtinType', I, E)
    out.append(Fn('ethos::State::mkBuiltinType', lambda c: [('type', z3.And(c.result() == bt(c.a(0)), c.result() != SNULL, c.result() != NULLP))], trusted=True, why='the builtin type of a kind of literals is determined by the kind'))
    out.append(Fn('ethos::Expr::isGround', lambda c: [('ground', c.result() == z3.Not(nonground(d.term_of(c.ex, c.thislv(), c.st))))], trusted=True, why='the flag of the term (ExprValue::isGround, B02)'))
    out.append(Fn('ethos::Expr::isEvaluatable', lambda c: [('evaluatable', c.result() == evaluable(d.term_of(c.ex, c.thislv(), c.st)))], trusted=True, why='the flag of the term (ExprValue::isEvaluatable, B02)'))

    def rules(c, new=False):
        s = c.st if (new or c.old is None) else c.old
        return name(c.ex, s, ('o', TC, 'd_literalTypeRules'), c.ex.rv(c.ex.d.obj_member(c.ex, s, Obj(TC), 'd_literalTypeRules', None), s))
    EVRL = ('ev_t', 'ev_ctx', 'ev_res')
    samerules = lambda c, kk: z3.And(Q([i], z3.Implies(i != kk, z3.And(S(dom(RULES, rules(c, True)), i) == S(dom(RULES, rules(c)), i), S(val(RULES, rules(c, True)), i) == S(val(RULES, rules(c)), i))),
                                       patterns=[S(val(RULES, rules(c, True)), i)]))
    LIT = z3.Function('literalType', I, E, E, B)     # kind, literal, type

    def ltdef(c, kk, self_):
        """the type of literals of a kind: the one declared, or the builtin one, for this literal"""
        rule = z3.If(S(val(RULES, rules(c)), kk) == SNULL, bt(kk), S(val(RULES, rules(c)), kk))
        sf = z3.If(self_ == NULLP, c.objfield(Obj('State'), 'd_any'), self_)
        me = c.objfield(Obj('State'), 'd_self')
        return rule, sf, me

    def lpost(c):
        kk, r = c.a(0), N(c, c.result())
        rule, sf, me = ltdef(c, kk, c.a(1))
        cx = N(c, G(c, 'ev_ctx', True))
        yield 'literals of the kind have types', S(dom(RULES, rules(c)), kk)
        yield 'the type declared for the kind, or the builtin one', z3.Implies(z3.Not(nonground(rule)), r == rule)
        yield 'instantiated with the literal', z3.Implies(nonground(rule), z3.And(r == G(c, 'ev_res', True), G(c, 'ev_t', True) == rule,
                   Q([e], S(acc(ME, 'dom', cx), e) == (e == me), patterns=[S(acc(ME, 'dom', cx), e)]), S(acc(ME, 'val', cx), me) == sf))
        yield 'the type is remembered', z3.And(S(dom(RULES, rules(c, True)), kk), S(val(RULES, rules(c, True)), kk) == rule)
        yield 'other kinds are kept', samerules(c, kk)
        yield 'not null', z3.And(r != SNULL, r != NULLP)
        yield from kept(c)
    ci = lambda c: [cacheinv(types(c))]
    lmods = lambda c: [rules(c) is None or ('o', TC, 'd_literalTypeRules'), types(c) is None or ('o', 'State', 'd_typeCache')] + touch(c, *EVRL)
    allr = lambda c: Q([i], S(val(RULES, rules(c)), i) != NULLP, patterns=[S(val(RULES, rules(c)), i)])
    out.append(Fn('ethos::TypeChecker::getOrSetLiteralTypeRule', lpost, axioms=ax, mods=lmods, given=lambda c: [allr(c)] + ci(c), assumes=asm))

    # ---- types of operators
    NEWR = z3.Function('operatorType', I, I, B)

    def opis(k, key):
        return z3.Or([k == K['EVAL_' + o] for o in TYPE[key].split()])

    def optype(c, k, arr, tys, r):
        S = lambda f, i: f(i) if callable(f) else z3.Select(f, i)
        ops = z3.BoolVal(False)
        S_ = lambda key, f: z3.Implies(opis(k, key), f)
        ob = lambda f: c.objfield(Obj('State'), f)
        out_ = [S_('type', r == ob('d_type')), S_('arg1', r == S(arr, 1)), S_('type of 0', r == S(tys, 0)), S_('type of 1', r == S(tys, 1)), S_('type of 2', r == S(tys, 2)),
                S_('Bool', r == ob('d_boolType')), S_('list type', r == ob('d_listType'))]
        for kk in ('NUMERAL', 'RATIONAL', 'STRING', 'BINARY'):
            rule, sf, me = ltdef(c, K[kk], NULLP)
            out_.append(S_(kk, z3.If(nonground(rule), r == G(c, 'ev_res', True), r == rule)))
        return z3.And(out_)

    anyop = lambda k: z3.Or([opis(k, key) for key in TYPE])

    def gpost(c):
        k = c.a(0)
        ch, ty = N(c, c.a(1)), N(c, c.a(2))
        r = N(c, c.result())
        yield 'operators take the right number of arguments', (r != SNULL) == z3.And(arity(K, k, vlen(VE, ty)), anyop(k))
        yield 'the type of the operator', z3.Implies(r != SNULL, optype(c, k, acc(VE, 'arr', ch), acc(VE, 'arr', ty), r))
        yield from kept(c)
        yield 'not a null pointer', r != NULLP

    def ggiven(c):
        ob = lambda f: c.objfield(Obj('State'), f)
        ch, ty = c.a(1), c.a(2)
        nz = lambda v: Q([i], z3.Implies(z3.And(0 <= i, i < vlen(VE, v)), z3.And(S(acc(VE, 'arr', v), i) != SNULL, S(acc(VE, 'arr', v), i) != NULLP)), patterns=[S(acc(VE, 'arr', v), i)])
        return [nz(ch), nz(ty), vlen(VE, ch) == vlen(VE, ty), c.objfield(c.this, 'd_null') == SNULL, allr(c)] + ci(c) + [z3.And(ob(f) != SNULL, ob(f) != NULLP) for f in ('d_type', 'd_boolType', 'd_listType')]
    out.append(Fn('ethos::TypeChecker::getLiteralOpType', gpost, given=ggiven, axioms=ax, mods=lmods, assumes=asm))

    # ---- the type of a term, given the types of its children
    LT = z3.Const('lambdaTypes', z3.ArraySort(I, E))
    b_ = z3.Const('b!y', z3.ArraySort(I, E))
    agree = lambda a, b: Q([j], z3.Implies(z3.And(0 <= j, j < n_), S(a, j) == S(b, j)), patterns=[S(a, j), S(b, j)])
    FTL = Q([a_, b_, n_, r_, t], z3.Implies(z3.And(FT(a_, 0, n_, r_, t), agree(a_, b_)), FT(b_, 0, n_, r_, t)), patterns=[so.MP(FT(a_, 0, n_, r_, t), FT(b_, 0, n_, r_, t))])
    if not any(l[0].startswith('a function type') for l in d.lemma_obs):
        ih = Q([t], z3.Implies(FT(a_, i + 1, n_, r_, t), FT(b_, i + 1, n_, r_, t)), patterns=[FT(a_, i + 1, n_, r_, t)])
        d.lemma_obs.append(('a function type depends on its argument types only (induction)', [0 <= i, i < n_, agree(a_, b_), ih, FT(a_, i, n_, r_, t)], FT(b_, i, n_, r_, t), d.axioms + d.qf_axioms + ftax))
        d.lemma_obs.append(('a function type depends on its argument types only (base)', [i >= n_, FT(a_, i, n_, r_, t)], FT(b_, i, n_, r_, t), d.axioms + d.qf_axioms + ftax))
    LITK = ('NUMERAL', 'DECIMAL', 'RATIONAL', 'HEXADECIMAL', 'BINARY', 'STRING')
    kin = lambda k, *ns: z3.Or([k == K[n] for n in ns])
    ob = lambda c, f: c.objfield(Obj('State'), f)

    def tparts(c):
        x = N(c, c.a(0))
        ch = d.chs(x)
        return x, kind(x), ch, (lambda y: S(val(TYPES, types(c)), y))

    class App:
        """a view of the application as the argument list of getTypeAppInternal"""
        def __init__(self, c):
            self.c = c

        def __getattr__(self, n):
            return getattr(self.c, n)

        def a(self, i):
            return d.chs(N(self.c, self.c.a(0))) if i == 0 else None

    def tgiven(c):
        x, k, ch, ty = tparts(c)
        return [z3.Implies(kin(k, 'APPLY', 'APPLY_OPAQUE'), f) for f in agiven(App(c))[:]] + [cacheinv(types(c)), allr(c), c.objfield(c.this, 'd_null') == SNULL] + \
               [z3.And(ob(c, f) != SNULL, ob(c, f) != NULLP) for f in ('d_type', 'd_boolType', 'd_listType', 'd_any', 'd_proofType')] + \
               [Q([i], z3.Implies(z3.And(0 <= i, i < d.nch(x)), z3.And(d.ch(x, i) != NULLP, d.ch(x, i) != SNULL)), patterns=[d.ch(x, i)]),
                z3.Implies(kin(k, 'LAMBDA', 'PARAMETERIZED'), d.nch(x) == 2), z3.Implies(k == K['PROOF'], d.nch(x) == 1),
                z3.Implies(k == K['LAMBDA'], Q([i], z3.And(S(LT, i) == ty(d.ch(d.ch(x, 0), i))), patterns=[S(LT, i), d.ch(d.ch(x, 0), i)])), z3.Implies(kin(k, 'APPLY', 'APPLY_OPAQUE'), d.nch(x) >= 1)]

    def tpre(c):
        x = N(c, c.a(0))
        return [('the children have types', Q([i], z3.Implies(z3.And(0 <= i, i < d.nch(x)), S(dom(TYPES, types(c)), d.ch(x, i))), patterns=[d.ch(x, i)]))]

    def tpost(c):
        x, k, ch, ty = tparts(c)
        r = N(c, c.result())
        ok = r != SNULL
        app = kin(k, 'APPLY', 'APPLY_OPAQUE')
        c0 = lambda q: d.ch(x, q)
        v = App(c)
        _, arr, n, tc, _, Ty = parts(v)
        m1 = dv(N(c, G(c, 'ev_ctx', True)))
        is_ = lambda ks, f: z3.Implies(kin(k, *ks), f)
        yield 'applications: a function or program and the right number of arguments', z3.Implies(z3.And(app, ok), fits(v))
        yield 'applications: the arguments fit', z3.Implies(z3.And(app, ok), AO(*m1))
        yield 'applications: the value of the result type', z3.Implies(z3.And(app, ok), z3.And(r == G(c, 'ev_res', True), G(c, 'ev_t', True) == d.ch(Ty, n - 1)))
        yield 'applications: accepted if the arguments fit', z3.Implies(app, Q([D, V], z3.Implies(z3.And(fits(v), AO(D, V)), z3.And(ok, T.ext(*m1, D, V))), patterns=[AO(D, V)]))
        yield 'functions', is_(['LAMBDA'], FT(LT, 0, d.nch(c0(0)), ty(c0(1)), r))
        yield 'types are of type Type', is_(['TYPE', 'BOOL_TYPE', 'FUNCTION_TYPE', 'PROGRAM_TYPE', 'ANY'], r == ob(c, 'd_type'))
        yield 'proofs are of formulas', is_(['PROOF'], r == z3.If(kind(ty(c0(0))) == K['BOOL_TYPE'], ob(c, 'd_proofType'), SNULL))
        yield 'quoted terms and tuples', is_(['QUOTE_TYPE', 'TUPLE'], r == ob(c, 'd_any'))
        yield 'Booleans', is_(['BOOLEAN'], r == ob(c, 'd_boolType'))
        for kk in LITK:
            rule, sf, me = ltdef(c, K[kk], x)
            cx = N(c, G(c, 'ev_ctx', True))
            yield 'literals: ' + kk, is_([kk], z3.And(S(dom(RULES, rules(c)), K[kk]), z3.Implies(z3.Not(nonground(rule)), r == rule), z3.Implies(nonground(rule), z3.And(
                r == G(c, 'ev_res', True), G(c, 'ev_t', True) == rule, Q([e], S(acc(ME, 'dom', cx), e) == (e == me), patterns=[S(acc(ME, 'dom', cx), e)]), S(acc(ME, 'val', cx), me) == sf))))
        yield 'unresolved ascriptions', is_(['AS', 'AS_RETURN'], r == SNULL)
        yield 'parameterized terms', is_(['PARAMETERIZED'], r == ty(c0(1)))
        yield 'operators take the right number of arguments', z3.Implies(z3.And(T.isop(k), k != K['PROOF']), ok == z3.And(arity(K, k, d.nch(x)), anyop(k)))
        yield 'the type of the operator', z3.Implies(z3.And(T.isop(k), ok), optype(c, k, c0, lambda q: ty(c0(q)), r))
        known = ['APPLY', 'APPLY_OPAQUE', 'LAMBDA', 'TYPE', 'BOOL_TYPE', 'FUNCTION_TYPE', 'PROGRAM_TYPE', 'ANY', 'PROOF', 'QUOTE_TYPE', 'TUPLE', 'BOOLEAN', 'PARAMETERIZED', *LITK]
        yield 'nothing else has a type', z3.Implies(ok, z3.Or(kin(k, *known), T.isop(k)))
        yield 'not a null pointer', r != NULLP
        yield from kept(c)

    def varloop(cx):
        x = cx.at_entry('e', EV)
        v = cx.v('args', VX)
        a = acc(VX, 'arr', v)
        yield 'the types of the variables', z3.And(vlen(VX, v) == cx.idx, Q([i], z3.Implies(z3.And(0 <= i, i < cx.idx), z3.And(S(a, i) == S(LT, i), S(a, i) != NULLP)), patterns=[S(b, i) for b in bases(a)] + [S(LT, i)]))
        cx.st.assume(d.ch(d.ch(x, 0), cx.idx) == d.ch(d.ch(x, 0), cx.idx))

    def chloop(cx):
        x = cx.at_entry('e', EV)
        v = cx.v('ctypes', VE)
        a = acc(VE, 'arr', v)
        ty = lambda y: S(val(TYPES, stf(cx.ex, cx.st, 'd_typeCache')), y)
        yield 'the types of the children', z3.And(vlen(VE, v) == cx.idx, Q([i], z3.Implies(z3.And(0 <= i, i < cx.idx), z3.And(S(a, i) == ty(d.ch(x, i)), S(a, i) != NULLP, S(a, i) != SNULL)), patterns=[S(b, i) for b in bases(a)] + [d.ch(x, i)]))

    def tghost(c):
        g = touch(c, 'gti_e', 'gti_r')
        r = c.result()
        c.st.assume(z3.Implies(r != SNULL, COMP(c.a(0), r)))
        return list(zip(g, (c.a(0), r)))
    out.append(Fn('ethos::TypeChecker::getTypeInternal', tpost, pre=tpre, given=tgiven, axioms=ax + ftax + [FTL], assumes=asm, free=FL, mods=lambda c: lmods(c) + touch(c, 'gti_e', 'gti_r'), ghosts=tghost,
                  loops={'range vars': varloop, 'range children': chloop}))

    # ---- TypeChecker::getType
    SUB = z3.Function('subterm', E, E, B)
    subax = [Q([e], SUB(e, e), patterns=[SUB(e, e)]), Q([e, x, i], z3.Implies(z3.And(SUB(x, e), 0 <= i, i < d.nch(x)), SUB(d.ch(x, i), e)), patterns=[so.MP(SUB(x, e), d.ch(x, i))])]
    okt = lambda v: z3.Or(nonground(v), z3.Not(evaluable(v)))

    def gtpost(c):
        x, r = N(c, c.a(0)), N(c, c.result())
        a, b = types(c), types(c, True)
        yield 'the type is the one in the cache', z3.Implies(r != SNULL, z3.And(S(dom(TYPES, b), x), S(val(TYPES, b), x) == r))
        ge, gr = G(c, 'gti_e', True), G(c, 'gti_r', True)
        yield 'a term has no type only if a subterm has none, or one that cannot be evaluated further', z3.Implies(r == SNULL, z3.And(SUB(ge, x), z3.Or(gr == SNULL, z3.Not(okt(gr)))))
        yield from kept(c)

    def gtgiven(c):
        x = c.a(0)
        return [cacheinv(types(c)), x != NULLP, x != SNULL, c.objfield(c.this, 'd_null') == SNULL,
                Q([e, i], z3.Implies(z3.And(0 <= i, i < d.nch(e)), z3.And(d.ch(e, i) != NULLP, d.ch(e, i) != SNULL)), patterns=[d.ch(e, i)])]

    def gtloop(cx):
        tc0, tc = stf(cx.ex, cx.entry, 'd_typeCache'), stf(cx.ex, cx.st, 'd_typeCache')
        TD = dom(TYPES, tc)
        W, Vs = cx.v('toVisit', VE), cx.v('visited', ('set', EV))
        a, n, Vd = acc(VE, 'arr', W), vlen(VE, W), acc(('set', EV), 'dom', Vs)
        x0 = cx.at_entry('e', EX)
        q = z3.Int('q!y')
        cx.st.assume(expand(S(a, n - 1)))
        W0 = cx.before('toVisit', VE)
        if W0 is not None:      # terms to instantiate with
            a0, n0 = acc(VE, 'arr', W0), vlen(VE, W0)
            cx.st.assume(Q([e], expand(S(a, T.last(a0, n0, e))), patterns=[T.last(a0, n0, e)]))
            cx.st.assume(Q([e, i], expand(S(a, n0 + i)), patterns=[d.ch(e, i)]))
            cx.st.assume(Q([e], expand(S(a, T.last(a, n, e))), patterns=[T.last(a, n, e)]))
            cx.st.assume(Q([e], T.last(a0, n0, e) >= -1, patterns=[T.last(a, n, e)]))
            cx.st.assume(expand(S(a, n0 - 1)))
        yield 'something to visit', z3.And(n >= 1, S(a, 0) == x0)
        yield 'types are kept', grows(tc0, tc)
        yield 'new types were computed', news(tc0, tc)
        yield 'data invariant of the types', cacheinv(tc)
        yield 'only subterms are visited', Q([q], z3.Implies(z3.And(0 <= q, q < n), z3.And(SUB(S(a, q), x0), S(a, q) != NULLP)), patterns=[S(b, q) for b in bases(a)])
        l = T.last(a, n, e)
        yield 'unfinished terms are on the stack below their unfinished children', Q([e], z3.Implies(z3.And(S(Vd, e), z3.Not(S(TD, e))), z3.And(
            l >= 0, Q([q], z3.Implies(z3.And(l < q, q < n), height(S(a, q)) < height(e)), patterns=[S(b, q) for b in bases(a)]),
            Q([i], z3.Implies(z3.And(0 <= i, i < d.nch(e)), z3.Or(S(TD, d.ch(e, i)), T.last(a, n, d.ch(e, i)) > l)), patterns=[d.ch(e, i)]))), patterns=[S(b, e) for b in bases(Vd)] + [S(TD, e)])
    out.append(Fn('ethos::TypeChecker::getType', gtpost, given=gtgiven, axioms=ax + subax, assumes=asm, free=FL, mods=lambda c: lmods(c) + touch(c, 'gti_e', 'gti_r'), loops={0: gtloop}))

    # ---- ExprParser::typeCheck
    def tcpost(c):
        x, r = N(c, c.a(0)), N(c, c.result())
        b = types(c, True)
        yield 'the term has this type', z3.And(r != SNULL, S(dom(TYPES, b), x), S(val(TYPES, b), x) == r)
        if len(c.args) > 1:
            yield 'it is the expected type', r == c.a(1)
        yield from kept(c)
    for n in (1, 2):
        out.append(Fn('ethos::ExprParser::typeCheck', tcpost, nparams=n, given=lambda c: [cacheinv(types(c)), c.a(0) != NULLP, c.a(0) != SNULL], axioms=ax, mods=lambda c: lmods(c) + touch(c, 'gti_e', 'gti_r'), assumes=asm, free=FL))
    return out
