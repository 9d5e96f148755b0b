"""Commands that build and check proofs: CmdParser::parseNextCommand (the proof
commands), State::notifyStep, State::notifyAssume, and the entry points."""
import z3
from . import sorts as so
from .sorts import acc, mk, sort, vlen, I, B, E, NULLP, SNULL
from .symex import Obj, Contract
from .domain import kind, VE, EV
from .c_state import (Fn, st, F, stf, eqvec, prefix, pushed, back, name, dom, val, EX, STR, SYM, VX, VS, OV, SZ, VN, ES, AI, APP, S, Q, ghost, GT, G, N, touch)


def contracts(d):
    K = d.K
    out = []
    j = z3.Int('j!c')
    e = z3.Const('e!c', E)
    T = {k[len('ethos::Token::'):]: v for k, v in d.p.enums.items() if k.startswith('ethos::Token::')}
    isground = z3.Function('groundFlag', E, B)
    isev = z3.Function('evaluatableFlag', E, B)
    typeof = z3.Function('typeOf', E, E)
    LX = 'ethos::Lexer::'
    EP = 'ethos::ExprParser::'

    def tr(fn, post=lambda c: [], mods=None, why='', **kw):
        out.append(Fn(fn, post, mods=mods, trusted=True, why=why, **kw))
    # ---- terms
    def ipost(c):
        v, r = N(c, c.a(1)), N(c, c.result())
        a = acc(VE, 'arr', v)
        return [('term', z3.And(r != NULLP, r != SNULL, kind(r) == c.a(0), d.nch(r) == vlen(VE, v),
                                Q([j], z3.Implies(z3.And(0 <= j, j < vlen(VE, v)), d.ch(r, j) == S(a, j)), patterns=[d.ch(r, j)])))]
    tr('ethos::State::mkExprInternal', ipost, why='the term with this kind and these children (B01)')
    tr('ethos::ExprValue::isEvaluatable', lambda c: [('flag', c.result() == isev(d.term_of(c.ex, c.thislv(), c.st)))], why='flag of the term (B02)')
    tr('ethos::ExprValue::isGround', lambda c: [('flag', c.result() == isground(d.term_of(c.ex, c.thislv(), c.st)))], why='flag of the term (B02)')

    # ---- lexer and term parser: results are arbitrary, and recorded in ghost state
    for f in ('eatTokenChoice', 'peekToken', 'nextToken', 'eatToken', 'reinsertToken'):
        tr(LX + f, why='the token read is arbitrary')
    tr(LX + 'tokenStr', why='the text of the token is arbitrary')
    log = 'the result of the term parser is arbitrary; parsing leaves scopes, assumptions and reference unchanged'

    def parsed(fn, g, ct, sel=None):
        tr(EP + fn, lambda c: [('logged', pushed(GT[g], G(c, g, True), G(c, g), N(c, c.result())))] + ([('not null', z3.And(c.result() != SNULL, c.result() != NULLP))] if ct == EX else []), mods=lambda c: touch(c, g), why=log)
    parsed('parseSymbol', 'syms', STR)
    parsed('parseFormula', 'forms', EX)
    parsed('parseExprList', 'lists', VX)
    parsed('parseIntegerNumeral', 'nums', SZ)
    tr(EP + 'parseKeyword', why=log)
    tr(EP + 'typeCheck', lambda c: [('type', c.result() == typeof(c.a(0)))], nparams=1, why='the type of the term, or an error (T01)')
    tr('ethos::TypeChecker::evaluateProgramApp', lambda c: [('logged', z3.And(G(c, 'res', True) == c.result(), c.result() != SNULL, c.result() != NULLP, eqvec(VX, G(c, 'app', True), N(c, c.a(0)), 'j!ap')))],
       pre=lambda c: [('application of a program', z3.And(vlen(VX, c.a(0)) > 1, kind(S(acc(VX, 'arr', c.a(0)), 0)) == K['PROGRAM_CONST']))],
       mods=lambda c: touch(c, 'app', 'res'), why='the value of the program application (B03)')
    tr('ethos::CmdParser::nextCommandToken', lambda c: [('token', c.result() == z3.Int('theToken'))], why='the command is arbitrary')

    tr('ethos::RuleStat::start', why='statistics')
    tr('ethos::RuleStat::increment', why='statistics')

    # ---- notifyStep
    PRO = K['PROOF']
    A = lambda m, x, f: acc(AI, f, S(val(APP, m), x))
    ATTR = {k.split('::')[-1]: v for k, v in d.p.enums.items() if k.startswith('ethos::Attr::')}

    cx = lambda x, i: z3.If(d.ch(x, i) == NULLP, SNULL, d.ch(x, i))

    def tup(c, i):
        return cx(A(F(c, 'd_appData'), c.a(1), 'd_attrConsTerm'), i)

    wfpro = Q([e], z3.Implies(kind(e) == PRO, d.nch(e) == 1), patterns=[kind(e)])

    wfapp = Q([e], z3.Implies(kind(e) == K['APPLY'], d.nch(e) >= 2), patterns=[kind(e)])

    nul = Q([e], z3.Implies(kind(e) == K['NONE'], e == SNULL), patterns=[kind(e)])
    oneCase = lambda x: z3.And(d.nch(x) == 1, d.nch(cx(x, 0)) == 2)

    def nsgiven(c):
        m, r = F(c, 'd_appData'), c.a(1)
        return [z3.Implies(S(dom(APP, m), r), z3.And(A(m, r, 'd_attrCons') == ATTR['PROOF_RULE'], d.nch(A(m, r, 'd_attrConsTerm')) == 4,
                                                     A(m, r, 'd_attrConsTerm') != NULLP, tup(c, 3) != NULLP, tup(c, 0) != SNULL)),
                z3.Implies(z3.And(S(dom(APP, m), r), kind(tup(c, 3)) == K['PROGRAM_CONST']), z3.And(S(dom(APP, m), tup(c, 3)), A(m, tup(c, 3), 'd_attrCons') == ATTR['PROGRAM'], oneCase(A(m, tup(c, 3), 'd_attrConsTerm')))),
                Q([e], A(m, e, 'd_attrConsTerm') != NULLP, patterns=[S(val(APP, m), e)]),
                F(c, 'd_null') == SNULL, F(c, 'd_true') != SNULL, F(c, 'd_any') != SNULL]

    def nspre(c):
        sz, a = F(c, 'd_assumptionsSizeCtx'), F(c, 'd_assumptions')
        n = vlen(VN, sz)
        return [('an assumption was made in the scope', z3.Implies(c.a(5), z3.And(n > 0, 0 <= back(VN, sz), back(VN, sz) < vlen(VX, a))))]

    def nspost(c):
        ok = c.result()
        args, prem = N(c, c.a(4)), N(c, c.a(3))
        app, res = G(c, 'app', True), G(c, 'res', True)
        m = F(c, 'd_appData')
        r1 = c.new(6)
        assume, expl, pl = tup(c, 1) == F(c, 'd_true'), tup(c, 2) == F(c, 'd_true'), tup(c, 0) != F(c, 'd_any')
        n0 = 1 + vlen(VX, args)
        n1 = n0 + z3.If(expl, 1, 0)
        n2 = n1 + z3.If(c.a(5), 1, 0)
        arr = acc(VX, 'arr', app)
        parr = acc(VX, 'arr', prem)
        total = n2 + z3.If(pl, 1, vlen(VX, prem))
        yield 'only proof rules have steps', z3.Implies(ok, S(dom(APP, m), c.a(1)))
        yield 'step-pop exactly for rules with :assumption', z3.Implies(ok, c.a(5) == assume)
        yield 'an explicit conclusion is given', z3.Implies(z3.And(ok, expl), c.a(2) != SNULL)
        P = z3.And(ok, total > 1)
        yield 'the result is the value of the program of the rule', z3.Implies(P, z3.And(r1 == res, z3.Not(isev(r1)), S(arr, 0) == tup(c, 3)))
        yield 'a rule without arguments proves its conclusion', z3.Implies(z3.And(ok, total == 1), r1 == tup(c, 3))
        yield 'not null', z3.Implies(ok, r1 != NULLP)
        yield 'only rules with a program have arguments', z3.Implies(P, kind(tup(c, 3)) == K['PROGRAM_CONST'])
        yield 'the number of arguments', z3.Implies(P, vlen(VX, app) == total)
        yield 'arguments first', z3.Implies(P, Q([j], z3.Implies(z3.And(1 <= j, j < n0), S(arr, j) == S(acc(VX, 'arr', args), j - 1)), patterns=[S(arr, j)]))
        yield 'then the conclusion', z3.Implies(z3.And(P, expl), S(arr, n0) == c.a(2))
        sz = F(c, 'd_assumptionsSizeCtx')
        yield 'then the first assumption of the scope', z3.Implies(z3.And(P, c.a(5)), S(arr, n1) == S(acc(VX, 'arr', F(c, 'd_assumptions')), back(VN, sz)))
        yield 'then the premises', z3.Implies(z3.And(P, z3.Not(pl)), Q([j], z3.Implies(z3.And(n2 <= j, j < total), S(arr, j) == S(parr, j - n2)), patterns=[S(arr, j)]))
        yield 'collected premises are a proof', z3.Implies(z3.And(P, pl), kind(S(arr, n2)) == PRO)
        yield 'collected premises are proofs', z3.Implies(z3.And(ok, pl), Q([j], z3.Implies(z3.And(0 <= j, j < vlen(VX, prem)), kind(S(parr, j)) == PRO), patterns=[S(parr, j)]))
        m1, np = G(c, 'mk', True), vlen(VX, prem)
        ma = acc(VX, 'arr', m1)
        C = z3.And(P, pl, np > 0)
        pfs = cx(S(arr, n2), 0)
        yield 'the formulas of the premises are collected', z3.Implies(C, z3.And(pfs == G(c, 'mkres', True), vlen(VX, m1) == np + 1, S(ma, 0) == tup(c, 0),
                    Q([j], z3.Implies(z3.And(1 <= j, j <= np), S(ma, j) == cx(S(parr, j - 1), 0)), patterns=[S(ma, j)])))
        nilk = [ATTR[n] for n in ('RIGHT_ASSOC_NIL', 'LEFT_ASSOC_NIL', 'RIGHT_ASSOC_NS_NIL', 'LEFT_ASSOC_NS_NIL')]
        yield 'no premises are collected to the nil element', z3.Implies(z3.And(P, pl, np == 0), z3.And(
            S(dom(APP, m), tup(c, 0)), z3.Or([A(m, tup(c, 0), 'd_attrCons') == n for n in nilk]), pfs == A(m, tup(c, 0), 'd_attrConsTerm')))

    def nsloop(lc):
        prem = lc.at_entry('premises', VX)
        ac = lc.v('achildren', VX)
        n = lc.idx
        a, p = acc(VX, 'arr', ac), acc(VX, 'arr', prem)
        yield 'collected so far', z3.And(vlen(VX, ac) == n + 1, S(a, 0) == lc.v('plCons', EX))
        yield 'all proofs', Q([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(kind(S(p, j)) == PRO, S(a, j + 1) == cx(S(p, j), 0))), patterns=[S(p, j)])
    def nsghosts(c):
        g = dict(ns_rule=c.a(1), ns_proven=c.a(2), ns_premises=c.a(3), ns_args=c.a(4), ns_pop=c.a(5), ns_ok=c.result(), ns_res=c.new(6))
        return list(zip(touch(c, *g), g.values()))
    out.append(Fn('ethos::State::notifyStep', nspost, pre=nspre, given=nsgiven, loops={0: nsloop, 1: lambda cx: []}, axioms=[wfpro, wfapp, nul],
                  mods=lambda c: touch(c, 'app', 'res', 'mk', 'mkres') + [c.lv(6)], ghosts=nsghosts,
                  assumes=['only the null term has kind NONE', 'proof terms have one child, applications at least two',
                           'attributes of proof rules are the tuples made by declare-rule (four components), their programs have one case']))
    commands(d, out, dict(T=T, cx=cx, nul=nul, typeof=typeof, isev=isev))
    return out


NS = ('ns_rule', 'ns_proven', 'ns_premises', 'ns_args', 'ns_pop', 'ns_ok', 'ns_res', 'app', 'res', 'mk', 'mkres')


def commands(d, out, X):
    """CmdParser::parseNextCommand for the commands that make, use or scope proofs"""
    K, T, cx, sx = d.K, X['T'], X['cx'], d.sx
    j = z3.Int('j!d')
    k = z3.Const('k!d', so.Str)
    e = z3.Const('e!d', E)
    tok = z3.Int('theToken')
    TK = ('STEP', 'STEP_POP', 'ASSUME', 'ASSUME_PUSH', 'PUSH', 'POP', 'ASSERT', 'EXIT', 'CHECK_SAT', 'CHECK_SAT_ASSUMING', 'RESET')
    isk = lambda *n: z3.Or([tok == T[x] for x in n])
    FOC = {'P01': ('STEP', 'STEP_POP'), 'P02': TK, 'P03': ('ASSUME', 'ASSUME_PUSH', 'ASSERT'), 'P04': ('STEP', 'STEP_POP'), 'S01': ('PUSH', 'POP'), 'S03': ('RESET',)}

    def focus(c, p):
        return isk(*FOC.get(p, TK))

    def some(c):
        sz, a = F(c, 'd_assumptionsSizeCtx'), F(c, 'd_assumptions')
        s = acc(VN, 'arr', sz)
        return sz, a, s

    def nonempty(c, new=False):
        sz, a = F(c, 'd_assumptionsSizeCtx', new), F(c, 'd_assumptions', new)
        s = acc(VN, 'arr', sz)
        return [('every assumption scope has an assumption', z3.And(z3.Implies(vlen(VN, sz) > 0, back(VN, sz) < vlen(VX, a)),
                 Q([j], z3.Implies(z3.And(0 <= j, j + 1 < vlen(VN, sz)), S(s, j) < S(s, j + 1)), patterns=[S(s, j)])))]

    def given(c):
        opt = z3.Const('x', so.Str)
        return [isk(*TK)] + [f for _, f in sx['inv'](c) + sx['ainv'](c) + nonempty(c)] + sx['history'](c) + [F(c, 'd_null') == SNULL] + [x == x for x in d.resetmaps(c)]

    def post(c):
        r = c.result()
        f = lambda n, new=False: F(c, n, new)
        sy0, sy1 = G(c, 'syms'), G(c, 'syms', True)
        fo0, fo1 = G(c, 'forms'), G(c, 'forms', True)
        li0, li1 = G(c, 'lists'), G(c, 'lists', True)
        at = lambda ct, v, i: S(acc(ct, 'arr', v), i)
        nm = at(VS, sy1, vlen(VS, sy0))
        F1 = at(VX, fo1, vlen(VX, fo0))
        VL = ('vec', VX)
        step = z3.And(r, isk('STEP', 'STEP_POP'))
        conc = G(c, 'ns_res', True)
        rule = G(c, 'ns_rule', True)
        opts = c.objfield(c.objfield(Obj('State'), 'd_opts'), 'd_ruleSymTable')
        tab = z3.If(opts, f('d_ruleSymTable'), f('d_symTable'))
        rn = at(VS, sy1, vlen(VS, sy0) + 1)
        s1 = f('d_symTable', True)
        yield 'step: the rule is the one with the name given', z3.Implies(step, z3.And(S(dom(SYM, tab), rn), S(val(SYM, tab), rn) == rule, kind(rule) == K['PROOF_RULE']))
        yield 'step: the rule was applied successfully', z3.Implies(step, z3.And(G(c, 'ns_ok', True), G(c, 'ns_pop', True) == isk('STEP_POP')))
        yield 'step: the conclusion given is passed to the rule', z3.Implies(step, G(c, 'ns_proven', True) == z3.If(vlen(VX, fo1) > vlen(VX, fo0), F1, SNULL))
        yield 'step: the conclusion is a formula', z3.Implies(step, kind(X['typeof'](conc)) == K['BOOL_TYPE'])
        yield 'step: the conclusion is the one given', z3.Implies(z3.And(step, vlen(VX, fo1) > vlen(VX, fo0)), conc == F1)
        two = vlen(VL, li1) == vlen(VL, li0) + 2
        yield 'step: premises and arguments are passed to the rule', z3.Implies(z3.And(step, two), z3.And(
            G(c, 'ns_premises', True) == at(VL, li1, vlen(VL, li0)), G(c, 'ns_args', True) == at(VL, li1, vlen(VL, li0) + 1)))
        one = vlen(VL, li1) == vlen(VL, li0) + 1
        l1 = at(VL, li1, vlen(VL, li0))
        yield 'step: a single list is premises or arguments', z3.Implies(z3.And(step, one), z3.Or(
            z3.And(G(c, 'ns_premises', True) == l1, vlen(VX, G(c, 'ns_args', True)) == 0), z3.And(G(c, 'ns_args', True) == l1, vlen(VX, G(c, 'ns_premises', True)) == 0)))
        yield 'step: without lists there are no premises and arguments', z3.Implies(z3.And(step, vlen(VL, li1) == vlen(VL, li0)), z3.And(
            vlen(VX, G(c, 'ns_args', True)) == 0, vlen(VX, G(c, 'ns_premises', True)) == 0))
        asm = z3.And(r, isk('ASSUME', 'ASSUME_PUSH'))
        b = S(val(SYM, s1), nm)
        yield 'step: the name is bound to a proof of the conclusion', z3.Implies(step, z3.And(S(dom(SYM, s1), nm), kind(b) == K['PROOF'], d.nch(b) == 1, cx(b, 0) == conc))
        yield 'assume: the name is bound to a proof of the formula', z3.Implies(asm, z3.And(S(dom(SYM, s1), nm), kind(b) == K['PROOF'], d.nch(b) == 1, cx(b, 0) == F1))
        s0 = f('d_symTable')
        yield 'other symbols keep their binding', z3.Implies(z3.And(r, isk('STEP', 'ASSUME', 'ASSUME_PUSH')), Q([k], z3.Implies(
            k != nm, z3.And(S(dom(SYM, s0), k) == S(dom(SYM, s1), k), z3.Implies(S(dom(SYM, s0), k), S(val(SYM, s0), k) == S(val(SYM, s1), k)))), patterns=[S(dom(SYM, s1), k), S(val(SYM, s1), k)]))
        # scopes and assumptions
        sz0, sz1, a0, a1 = f('d_assumptionsSizeCtx'), f('d_assumptionsSizeCtx', True), f('d_assumptions'), f('d_assumptions', True)
        dc0, dc1, c0, c1 = f('d_assumptionsDeclsCtx'), f('d_assumptionsDeclsCtx', True), f('d_declsSizeCtx'), f('d_declsSizeCtx', True)
        yield 'assume: the assumption is recorded', z3.Implies(asm, pushed(VX, a1, a0, F1))
        ref = S(acc(ES, 'dom', f('d_referenceAsserts')), sx['nf'](c, F1))
        local = z3.And(vlen(VN, sz0) > 0, vlen(VX, a0) == back(VN, sz0))
        yield 'assume: it is in the reference, if there is one', z3.Implies(z3.And(r, tok == T['ASSUME']), z3.Or(z3.Not(f('d_hasReference')), local, ref))
        yield 'assume-push: a scope is opened', z3.Implies(z3.And(r, tok == T['ASSUME_PUSH']), z3.And(
            pushed(VN, sz1, sz0, vlen(VX, a0)), pushed(VN, dc1, dc0, vlen(VN, c0)), pushed(VN, c1, c0, vlen(VS, f('d_decls')))))
        yield 'assume, step: no scope is opened or closed', z3.Implies(z3.And(r, isk('ASSUME', 'STEP')), z3.And(eqvec(VN, sz1, sz0), eqvec(VN, dc1, dc0), eqvec(VN, c1, c0)))
        yield 'step: the assumptions are kept', z3.Implies(z3.And(r, tok == T['STEP']), eqvec(VX, a1, a0))
        pop = z3.And(r, tok == T['STEP_POP'])
        yield 'step-pop: needs an assumption scope', z3.Implies(pop, vlen(VN, sz0) > 0)
        yield 'step-pop: the assumption scope is closed', z3.Implies(pop, z3.And(prefix(VN, sz1, sz0, vlen(VN, sz0) - 1), prefix(VN, dc1, dc0, vlen(VN, dc0) - 1),
                                                                         prefix(VX, a1, a0, back(VN, sz0)), prefix(VN, c1, c0, back(VN, dc0))))
        hs = z3.Function('histSym', I, sort(SYM))(at(VN, c0, back(VN, dc0)))
        yield 'step-pop: other symbols are bound as before the assumption', z3.Implies(pop, Q([k], z3.Implies(
            k != nm, z3.And(S(dom(SYM, hs), k) == S(dom(SYM, s1), k), z3.Implies(S(dom(SYM, hs), k), S(val(SYM, hs), k) == S(val(SYM, s1), k)))), patterns=[S(dom(SYM, s1), k), S(val(SYM, s1), k)]))
        nu0, nu1 = G(c, 'nums'), G(c, 'nums', True)
        num = z3.If(vlen(VN, nu1) == vlen(VN, nu0), z3.IntVal(1), at(VN, nu1, vlen(VN, nu0)))
        pu, po = z3.And(r, tok == T['PUSH']), z3.And(r, tok == T['POP'])
        yield 'push: that many scopes are opened', z3.Implies(pu, z3.And(vlen(VN, c1) == vlen(VN, c0) + num, Q([j], z3.Implies(z3.And(0 <= j, j < vlen(VN, c1)), at(VN, c1, j) == z3.If(
            j < vlen(VN, c0), at(VN, c0, j), vlen(VS, f('d_decls')))), patterns=[at(VN, c1, j)])))
        yield 'pop: that many scopes are closed', z3.Implies(po, prefix(VN, c1, c0, vlen(VN, c0) - num))
        hp = z3.Function('histSym', I, sort(SYM))(at(VN, c0, vlen(VN, c0) - num))
        yield 'pop: symbols are bound as before the scope', z3.Implies(z3.And(po, num > 0), Q([k], z3.And(
            S(dom(SYM, hp), k) == S(dom(SYM, s1), k), z3.Implies(S(dom(SYM, hp), k), S(val(SYM, hp), k) == S(val(SYM, s1), k))), patterns=[S(dom(SYM, s1), k), S(val(SYM, s1), k)]))
        yield 'pop: an assumption scope is not closed', z3.Implies(z3.And(po, vlen(VN, dc0) > 0), vlen(VN, c1) > back(VN, dc0))
        yield 'push, pop: symbols and assumptions are kept', z3.Implies(z3.Or(pu, po), z3.And(eqvec(VN, sz1, sz0), eqvec(VN, dc1, dc0), eqvec(VX, a1, a0)))
        # reference and verdict
        ra0, ra1 = acc(ES, 'dom', f('d_referenceAsserts')), acc(ES, 'dom', f('d_referenceAsserts', True))
        yield 'assert: the formula is added to the reference', z3.Implies(z3.And(r, tok == T['ASSERT']), Q([e], S(ra1, e) == z3.Or(S(ra0, e), e == sx['nf'](c, F1)), patterns=[S(ra1, e), S(ra0, e)]))
        yield 'only assert adds to the reference', z3.Implies(tok != T['ASSERT'], ra0 == ra1)
        inc0, inc1 = f('d_isIncomplete'), f('d_isIncomplete', True)
        yield 'incomplete: remembered, or this rule is :sorry', z3.Implies(r, inc1 == z3.Or(inc0, z3.And(step, S(acc(ES, 'dom', f('d_pfrSorry')), rule))))
        yield 'exit: nothing is read afterwards', z3.Implies(z3.And(r, tok == T['EXIT']), c.objfield(Obj('CmdParser'), 'd_isFinished', True))
        for n, g in d.resetpost(c):
            yield 'reset: ' + n, z3.Implies(z3.And(r, tok == T['RESET']), g)
        for n, g in sx['inv'](c, True) + sx['ainv'](c, True) + nonempty(c, True):
            yield 'data invariant: ' + n, z3.Implies(r, g)

    def cur(c, nm):
        return stf(c.ex, c.st, nm)

    def numloop(lc):
        n = lc.v('i', SZ)
        num = lc.v('num', SZ)
        c0, c1 = stf(lc.ex, lc.entry, 'd_declsSizeCtx'), cur(lc, 'd_declsSizeCtx')
        dc, d0, d1 = cur(lc, 'd_decls'), stf(lc.ex, lc.entry, 'd_decls'), cur(lc, 'd_decls')
        at = lambda v, i: S(acc(VN, 'arr', v), i)
        push = tok == T['PUSH']
        yield 'range', z3.And(0 <= n, n <= num)
        yield 'push: scopes opened', z3.Implies(push, z3.And(vlen(VN, c1) == vlen(VN, c0) + n, Q([j], z3.Implies(z3.And(0 <= j, j < vlen(VN, c1)), at(c1, j) == z3.If(
            j < vlen(VN, c0), at(c0, j), vlen(VS, d0))), patterns=[at(c1, j)])))
        yield 'push: declarations are kept', z3.Implies(push, dc == d0)
        yield 'pop: scopes closed', z3.Implies(z3.Not(push), z3.And(vlen(VN, c1) == vlen(VN, c0) - n, prefix(VN, c1, c0, vlen(VN, c0) - n)))
        yield 'pop: declarations', z3.Implies(z3.Not(push), z3.And(prefix(VS, d1, d0, vlen(VS, d1)), vlen(VS, d1) == z3.If(n == 0, vlen(VS, d0), at(c0, vlen(VN, c0) - n))))
        dcx = cur(lc, 'd_assumptionsDeclsCtx')
        yield 'pop: below the assumption scope', z3.Implies(z3.And(z3.Not(push), vlen(VN, dcx) > 0), vlen(VN, c1) > back(VN, dcx))
        s = [stf(lc.ex, lc.st, x) for x in ('d_symTable', 'd_overloads', 'd_overloadedDecls', 'd_decls', 'd_declsSizeCtx')]
        for nm, f in sx['same'](s, vlen(VS, s[3])):
            yield 'history of the tables: ' + nm, f
        for nm, f in sx['wf'](*s[:3]) + sx['wfctx'](s[3], s[4]):
            yield 'data invariant: ' + nm, f

    def loops():
        return {'pushScope popScope': numloop}
    fields = ('d_symTable', 'd_ruleSymTable', 'd_overloads', 'd_overloadedDecls', 'd_decls', 'd_declsSizeCtx', 'd_appData', 'd_assumptionsSizeCtx', 'd_assumptionsDeclsCtx',
              'd_assumptions', 'd_referenceAsserts', 'd_referenceAssertList', 'd_isIncomplete', 'd_typeCache')
    out.append(Fn('ethos::CmdParser::parseNextCommand', post, given=given, axioms=[X['nul']], loops=loops(), focus=focus,
                  mods=lambda c: st(*fields) + [('o', 'CmdParser', 'd_isFinished'), ('o', 'Stats', 'd_rstats'), ('o', 'TypeChecker', 'd_literalTypeRules')] + touch(c, 'syms', 'forms', 'lists', 'nums', *NS),
                  assumes=['the data invariants hold before the command (each command is proved to keep them; the initial and the reset state satisfy them)']))
