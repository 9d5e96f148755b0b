"""(reset): State::reset and the type rules of literals."""
import z3
from . import sorts as so
from .sorts import acc, mk, sort, vlen, I, B, E, NULLP, SNULL
from .symex import Obj
from .domain import kind, EV
from .c_state import Fn, F, st, stf, EX, STR, SYM, VX, VS, OV, VN, S, Q, dom, val, name

RULES = ('map', ('enum', 'Kind'), EX)
TYPES = ('map', EV, EX)
MAPS = {'d_litIntMap': 'Integer', 'd_litRatMap[0]': 'Rational', 'd_litRatMap[1]': 'Rational', 'd_litBvMap[0]': 'BitVector', 'd_litBvMap[1]': 'BitVector', 'd_litStrMap': 'String'}
EMPTY = {'d_ruleSymTable': SYM, 'd_overloads': OV}
NONE = {'d_overloadedDecls': VS, 'd_decls': VS, 'd_assumptions': VX, 'd_assumptionsSizeCtx': VN, 'd_assumptionsDeclsCtx': VN, 'd_declsSizeCtx': VN}


def contracts(d):
    K = d.K
    out = []
    i = z3.Int('i!r')
    k = z3.Const('k!r', so.Str)
    e = z3.Const('e!r', E)
    TC = 'TypeChecker'

    def rules(c, new=False):
        s = c.st if (new or c.old is None) else c.old
        return name(c.ex, s, ('o', TC, 'd_literalTypeRules'), c.ex.rv(c.ex.d.obj_member(c.ex, s, Obj(TC), 'd_literalTypeRules', None), s))

    def root(ex, s, nm):
        b = nm.split('[')[0]
        r = ('o', 'State', nm)
        ct = ('map', ('cls', MAPS[nm]), EX)
        if r not in s.store:
            ex.vct[r] = ct
            v = z3.Const('State.%s' % nm, sort(ct))
            ex.init_vals.setdefault(r, v)
            s.store[r] = ex.init_vals[r]
        return ct, name(ex, s, r, s.store[r])

    def types(ex, s):
        return stf(ex, s, 'd_typeCache')

    allnull = lambda m: Q([i], z3.Implies(S(dom(RULES, m), i), S(val(RULES, m), i) == SNULL), patterns=[S(val(RULES, m), i)])
    samedom = lambda a, b: Q([i], S(dom(RULES, a), i) == S(dom(RULES, b), i), patterns=[S(dom(RULES, a), i), S(dom(RULES, b), i)])

    def clrpost(c):
        yield 'no kind of literal has a type', allnull(rules(c, True))
        yield 'the kinds of literals are kept', samedom(rules(c), rules(c, True))

    def clrloop(cx):
        s = lambda s_: cx.ex.rv(cx.ex.d.obj_member(cx.ex, s_, Obj(TC), 'd_literalTypeRules', None), s_)
        a, b = name(cx.ex, cx.entry, ('o', TC, 'd_literalTypeRules'), s(cx.entry)), name(cx.ex, cx.st, ('o', TC, 'd_literalTypeRules'), s(cx.st))
        done = cx.done
        yield 'cleared so far', Q([i], z3.Implies(S(done, i), S(val(RULES, b), i) == SNULL), patterns=[S(val(RULES, b), i)])
        yield 'the kinds are kept', samedom(a, b)
    out.append(Fn('ethos::TypeChecker::clearLiteralTypeRules', clrpost, mods=lambda c: [('o', TC, 'd_literalTypeRules')], loops={0: clrloop},
                  given=lambda c: [c.objfield(Obj(TC), 'd_null') == SNULL]))

    def setpost(c):
        a, b = rules(c), rules(c, True)
        kk, t = c.a(0), c.a(1)
        yield 'the kind is one that literals may be given a type for', S(dom(RULES, a), kk)
        yield 'a type is not changed', z3.Or(S(val(RULES, a), kk) == SNULL, S(val(RULES, a), kk) == t)
        yield 'the type of the kind is set', z3.And(S(dom(RULES, b), kk), S(val(RULES, b), kk) == t)
        yield 'other kinds are kept', z3.And(samedom(a, b), Q([i], z3.Implies(z3.And(i != kk, S(dom(RULES, a), i)), S(val(RULES, b), i) == S(val(RULES, a), i)), patterns=[S(val(RULES, b), i)]))
    nul = Q([e], z3.Implies(kind(e) == K['NONE'], e == SNULL), patterns=[kind(e)])
    out.append(Fn('ethos::TypeChecker::setLiteralTypeRule', setpost, axioms=[nul], assumes=['only the null term has kind NONE'], mods=lambda c: [('o', TC, 'd_literalTypeRules')]))
    # the builtin type of a kind of literals; evaluation of a type that mentions the literal
    bt = z3.Function('builtinType', I, E)
    out.append(Fn('ethos::State::mkBuiltinType', lambda c: [('type', z3.And(c.result() == bt(c.a(0)), c.result() != SNULL, c.result() != NULLP))], trusted=True, why='the builtin type of a kind of literals is determined by the kind'))
    gnd = z3.Function('groundFlag', E, B)
    out.append(Fn('ethos::ExprValue::isGround', lambda c: [('flag', c.result() == gnd(d.term_of(c.ex, c.thislv(), c.st)))], trusted=True, why='flag of the term (B02)'))
    out.append(Fn('ethos::Expr::isGround', lambda c: [('flag', c.result() == gnd(d.term_of(c.ex, c.thislv(), c.st)))], trusted=True, why='flag of the term (B02)'))
    ev = z3.Function('evaluated', E, E, E)
    out.append(Fn('ethos::TypeChecker::evaluate', lambda c: [('not null', c.result() != NULLP)], trusted=True, why='the type with the literal put for eo::self (B04)'))

    def getpost(c):
        a, b, kk = rules(c), rules(c, True), c.a(0)
        r = c.result()
        rule = z3.If(S(val(RULES, a), kk) == SNULL, bt(kk), S(val(RULES, a), kk))
        yield 'literals of the kind have types', S(dom(RULES, a), kk)
        yield 'the type declared for the kind, or the builtin one', z3.Implies(gnd(rule), r == rule)
        yield 'the type is remembered', S(val(RULES, b), kk) == rule
        yield 'other kinds are kept', z3.And(samedom(a, b), Q([i], z3.Implies(z3.And(i != kk, S(dom(RULES, a), i)), S(val(RULES, b), i) == S(val(RULES, a), i)), patterns=[S(val(RULES, b), i)]))
    out.append(Fn('ethos::TypeChecker::getOrSetLiteralTypeRule', getpost, axioms=[nul], mods=lambda c: [('o', TC, 'd_literalTypeRules')],
                  assumes=['only the null term has kind NONE']))

    def respost(c):
        b, s1 = F(c, 'd_builtinSymTable'), F(c, 'd_symTable', True)
        yield 'exactly the builtin symbols are bound', Q([k], z3.And(S(dom(SYM, b), k) == S(dom(SYM, s1), k), z3.Implies(S(dom(SYM, b), k), S(val(SYM, b), k) == S(val(SYM, s1), k))),
                                                         patterns=[S(dom(SYM, s1), k), S(val(SYM, s1), k)])
        for n, ct in EMPTY.items():
            yield 'empty: ' + n, Q([k], z3.Not(S(dom(ct, F(c, n, True)), k)), patterns=[S(dom(ct, F(c, n, True)), k)])
        for n, ct in NONE.items():
            yield 'empty: ' + n, vlen(ct, F(c, n, True)) == 0
        yield 'no kind of literal has a type', allnull(rules(c, True))
        t0, t1 = types(c.ex, c.old), types(c.ex, c.st)
        yield 'no new types', Q([e], z3.Implies(S(dom(TYPES, t1), e), z3.And(S(dom(TYPES, t0), e), S(val(TYPES, t1), e) == S(val(TYPES, t0), e))), patterns=[S(dom(TYPES, t1), e)])
        for n in MAPS:
            ct, m = root(c.ex, c.old, n)
            q = z3.Const('q!r', sort(ct[1]))
            x = S(val(ct, m), q)
            yield 'the types of literals are forgotten: ' + n, Q([q], z3.Implies(S(dom(ct, m), q), z3.Not(S(dom(TYPES, t1), x))), patterns=[x])

    def erloop(nms):
        def inv(cx):
            t0, t1 = types(cx.ex, cx.entry), types(cx.ex, cx.st)
            yield 'no new types', Q([e], z3.Implies(S(dom(TYPES, t1), e), z3.And(S(dom(TYPES, t0), e), S(val(TYPES, t1), e) == S(val(TYPES, t0), e))), patterns=[S(dom(TYPES, t1), e)])
            ct, lv = cx.seq
            m = cx.ex.load(lv, cx.st)
            q = z3.Const('q!r', sort(ct[1]))
            x = S(val(ct, m), q)
            yield 'the types of the literals seen are forgotten', Q([q], z3.Implies(z3.And(S(cx.done, q), S(dom(ct, m), q)), z3.Not(S(dom(TYPES, t1), x))), patterns=[x])
        return inv
    out.append(Fn('ethos::State::reset', respost, loops={'range %s' % n: erloop(n) for n in ('d_litIntMap', 'd_litRatMap', 'd_litBvMap', 'd_litStrMap')},
                  mods=lambda c: st('d_symTable', 'd_typeCache', *EMPTY, *NONE) + [('o', TC, 'd_literalTypeRules')],
                  given=lambda c: [x == x for x in d.resetmaps(c)]))
    d.resetpost, d.resetmaps = respost, lambda c: [S(val(x[0], x[1]), z3.Const('q!g%d' % n, sort(x[0][1]))) for n, x in enumerate(root(c.ex, c.st, m) for m in MAPS)]
    return out
