"""Builtin operators: TypeChecker::evaluateLiteralOp and what it dispatches to (A04, A05)."""
import z3
from . import sorts as so
from .sorts import acc, mk, sort, vlen, I, B, E, NULLP, SNULL
from .domain import kind, VE, EV
from .c_state import Fn, F, st, EX, VX, STR, S, Q, N, val, dom, G, GT, touch, eqvec, AI, APP
from .c_term import nonground, evaluable, bases
from .c_type import arity
from .c_make import logs, rec, NIL, LEFT
from .c_util import strparse
from .symex import Ptr

LITT = ('cls', 'Literal')
SZ = ('int', 64, False)
HM = ('map', EV, SZ)
BKEY = ('pair', STR, EV)
BV_ = ('map', BKEY, EX)
GT.update(le_k=('enum', 'Kind'), le_ch=VE, le_r=LITT, ml_ch=VX, ml_r=EX, el_k=('enum', 'Kind'), el_ch=VE, el_r=EX)
SPECIAL = 'IF_THEN_ELSE REQUIRES IS_OK IS_EQ EQ HASH COMPARE IS_Z IS_Q IS_BIN IS_STR IS_BOOL IS_VAR DT_SELECTORS DT_CONSTRUCTORS'.split()
VALUE = 'TYPE_OF NAME_OF VAR'.split()
LISTS = 'NIL CONS LIST_LENGTH LIST_CONCAT LIST_NTH LIST_FIND LIST_ERASE LIST_ERASE_ALL LIST_REV LIST_SETOF LIST_MINCLUDE LIST_MEQ LIST_DIFF LIST_INTER LIST_SINGLETON_ELIM'.split()
LIT = 'NOT AND OR XOR ADD MUL CONCAT NEG INT_DIV INT_MOD RAT_DIV IS_NEG LENGTH EXTRACT TO_INT TO_RAT TO_BIN TO_STRING GT FIND'.split()
IS = dict(Z='NUMERAL', Q='RATIONAL', BIN='BINARY', STR='STRING', BOOL='BOOLEAN', VAR='VARIABLE')
UN = ['NOT', 'NEG', 'IS_NEG', 'LENGTH', 'TO_INT', 'TO_RAT', 'TO_STRING']
BI = ['INT_DIV', 'INT_MOD', 'RAT_DIV', 'TO_BIN', 'GT', 'FIND']


def contracts(d):
    K = d.K
    out = []
    i, j, k_, m_ = z3.Ints('i!o j!o k!o m!o')
    e, x, y, t, op = z3.Consts('e!o x!o y!o t!o op!o', E)
    l = z3.Const('left!o', B)
    ATTR = {k.split('::')[-1]: v for k, v in d.p.enums.items() if k.startswith('ethos::Attr::')}
    ch, nch = d.ch, d.nch
    CELL, NTL, LEN, EL = d.CELL, d.NTL, d.LLEN, d.LEL
    RES, PRED = d.LRES, d.LPRED
    ax = d.lax + [Q([e], z3.Implies(z3.Or(kind(e) == K['APPLY_OPAQUE'], kind(e) == K['PARAMETERIZED']), z3.And(nch(e) >= 2, *[z3.And(ch(e, q) != NULLP, ch(e, q) != SNULL) for q in (0, 1)])), patterns=[kind(e)])]
    real = lambda v: z3.And(v != NULLP, v != SNULL)
    one = lambda v, names: z3.Or([v == ATTR[n] for n in names])
    END = lambda e, op, l: NTL(e, l, LEN(e, op, l))
    tc = [('o', 'State', 'd_typeCache')]
    symf = d.symf
    allreal = lambda ct, v: Q([i], z3.Implies(z3.And(0 <= i, i < vlen(ct, v)), real(S(acc(ct, 'arr', v), i))), patterns=[S(acc(ct, 'arr', v), i)])
    asm = ['terms with several parts (applications, opaque applications, parameterized symbols) have them', 'a list has less than 2^32 elements, less than 2^32 terms are hashed',
           'termination is not proved (partial correctness)']

    # ---- history
    TMP = z3.Function('newConstant', E, I, E, B)
    MK2 = z3.Function('applied', I, E, E, E, B)

    # ---- terms for values
    def value(r, v):
        """r is the literal with the value v"""
        f = lambda n: acc(d.LIT, n, v)
        k = f('d_kind')
        g = lambda n: d.lit(r, n) == f(n)
        return z3.And(real(r), kind(r) == k, z3.If(k == K['BOOLEAN'], g('d_bool'), z3.If(k == K['NUMERAL'], g('d_int'), z3.If(z3.Or(k == K['RATIONAL'], k == K['DECIMAL']), g('d_rat'), z3.If(
            z3.Or(k == K['BINARY'], k == K['HEXADECIMAL']), g('d_bv'), g('d_str'))))))
    LK = ['BOOLEAN', 'NUMERAL', 'RATIONAL', 'DECIMAL', 'BINARY', 'HEXADECIMAL', 'STRING']
    tf = lambda c, p: z3.If(p, F(c, 'd_true'), F(c, 'd_false'))

    def mlpost(c):
        v, r = N(c, c.a(0)), N(c, c.result())
        return [('the literal', value(r, v)), ('Boolean', z3.Implies(acc(d.LIT, 'd_kind', v) == K['BOOLEAN'], r == tf(c, acc(d.LIT, 'd_bool', v))))]
    out.append(Fn('ethos::State::mkLiteralInternal', mlpost, trusted=True, why='the term of a literal (B01)'))
    out.append(Fn('ethos::String::toString', lambda c: [], result=lambda c: z3.Function('textOf', sort(('cls', 'String')), so.Str)(c.selfv()), trusted=True, why='text of a string (L01)'))

    def levpost(c):
        k = c.a(0)
        rk = acc(d.LIT, 'd_kind', N(c, c.result()))
        return [('a literal or nothing', z3.Or([rk == K[n] for n in LK + ['NONE']])), ('no other operator evaluates', z3.Implies(z3.Not(z3.Or([k == K['EVAL_' + o] for o in LIT])), rk == K['NONE']))]

    def levpre(c):
        k, v = c.a(0), N(c, c.a(1))
        n, a = vlen(VE, v), acc(VE, 'arr', v)
        isin = lambda l: z3.Or([k == K['EVAL_' + o] for o in l])
        return [('some argument', n >= 1), ('arity', z3.And(z3.Implies(isin(BI), n == 2), z3.Implies(isin(['AND', 'OR', 'XOR', 'ADD', 'MUL', 'CONCAT']), n >= 2), z3.Implies(isin(UN), n == 1), z3.Implies(k == K['EVAL_EXTRACT'], n == 3))),
                ('arguments are literals', Q([i], z3.Implies(z3.And(0 <= i, i < n), z3.Or([kind(S(a, i)) == q for q in d.litkinds])), patterns=[S(a, i)]))]
    out.append(Fn('ethos::Literal::evaluate', levpost, pre=levpre, trusted=True, why='operators on literals (A01 to A04)', mods=lambda c: [], ghosts=lambda c: logs(c, le_k=c.a(0), le_ch=c.a(1), le_r=c.result())))

    # ---- hashes
    dv = lambda ct, m: (acc(ct, 'dom', m), acc(ct, 'val', m))

    def hashinv(c, new=False):
        D, V = dv(HM, F(c, 'd_hashMap', new))
        n = F(c, 'd_hashCounter', new)
        return [('hashes are numbers up to the counter', Q([e], z3.Implies(S(D, e), z3.And(1 <= S(V, e), S(V, e) <= n)), patterns=[S(V, e)])),
                ('different terms have different hashes', Q([x, y], z3.Implies(z3.And(S(D, x), S(D, y), x != y), S(V, x) != S(V, y)), patterns=[so.MP(S(V, x), S(V, y))]))]

    def kept(c):
        D, V = dv(HM, F(c, 'd_hashMap'))
        D1, V1 = dv(HM, F(c, 'd_hashMap', True))
        return Q([e], z3.Implies(S(D, e), z3.And(S(D1, e), S(V1, e) == S(V, e))), patterns=[S(V1, e), S(D, e)])

    def hpost(c):
        D, V = dv(HM, F(c, 'd_hashMap', True))
        D0, _ = dv(HM, F(c, 'd_hashMap'))
        yield 'the hash of the term', z3.And(S(D, c.a(0)), S(V, c.a(0)) == c.result())
        yield 'a hash does not change', kept(c)
        yield 'no other term is hashed', Q([e], z3.Implies(e != c.a(0), S(D, e) == S(D0, e)), patterns=[S(D, e)])
        yield from hashinv(c, True)
        yield 'the counter', z3.And(F(c, 'd_hashCounter', True) <= F(c, 'd_hashCounter') + 1)
    HF = st('d_hashMap', 'd_hashCounter', 'd_hashTerms')
    hgiven = lambda c: [p for _, p in hashinv(c)] + [F(c, 'd_hashCounter') >= 0, F(c, 'd_hashCounter') < 2 ** 32 + 2]
    out.append(Fn('ethos::State::getHash', hpost, given=hgiven, mods=lambda c: HF, assumes=asm))

    # ---- variables
    def bvinv(c, new=False):
        D, V = dv(BV_, F(c, 'd_boundVars', new))
        q = z3.Const('q!o', sort(BKEY))
        return [('variables have their name', Q([q], z3.Implies(S(D, q), z3.And(real(S(V, q)), kind(S(V, q)) == K['VARIABLE'], symf(S(V, q)) == acc(BKEY, 'first', q), TMP(S(V, q), K['VARIABLE'], acc(BKEY, 'second', q)))), patterns=[S(V, q)]))]

    def bvpost(c):
        D, V = dv(BV_, F(c, 'd_boundVars', True))
        D0, V0 = dv(BV_, F(c, 'd_boundVars'))
        r, ty = N(c, c.result()), c.a(1)
        key = mk(BKEY, c.a(0), ty)
        q = z3.Const('q!o', sort(BKEY))
        g = z3.Not(nonground(ty))
        yield 'the variable with this name and type', z3.Implies(g, z3.And(S(D, key), S(V, key) == r, kind(r) == K['VARIABLE'], symf(r) == c.a(0), TMP(r, K['VARIABLE'], ty), real(r)))
        yield 'variables are kept', Q([q], z3.Implies(S(D0, q), z3.And(S(D, q), S(V, q) == S(V0, q))), patterns=[S(V, q)])
        yield 'a term', real(r)
        yield from bvinv(c, True)
    out.append(Fn('ethos::State::mkSymbol', lambda c: [('a symbol with this name', z3.And(real(c.result()), kind(c.result()) == c.a(0), symf(c.result()) == c.a(1)))], trusted=True, why='a new symbol with the given type (B01)',
                  ghosts=lambda c: c.st.assume(TMP(N(c, c.result()), c.a(0), N(c, c.a(2)))) or []))
    out.append(Fn('ethos::State::mkLiteral', lambda c: [('a literal', real(c.result()))], trusted=True, why='literals from text (L01)'))
    out.append(Fn('ethos::State::getBoundVar', bvpost, given=lambda c: [p for _, p in bvinv(c)] + [c.a(1) != NULLP], mods=lambda c: st('d_boundVars') + tc + (touch(c, 'mk_k', 'mk_ch', 'mk_r') if c.verifying else []), assumes=asm))

    # ---- lists of constructors
    def mkgh(c):
        v = N(c, c.a(1))
        va = acc(VX, 'arr', v)
        c.st.assume(z3.Implies(vlen(VX, v) == 2, MK2(c.a(0), S(va, 0), S(va, 1), N(c, c.result()))))
        return logs(c, mk_k=c.a(0), mk_ch=c.a(1), mk_r=c.result())
    out.append(Fn('ethos::State::mkExpr', lambda c: [('not null', real(c.result()))], trusted=True, why='applications (T02)', mods=lambda c: tc, ghosts=mkgh))

    def mlistpost(c):
        v, r = N(c, c.a(0)), c.result()
        if not c.verifying:
            yield 'not null', real(r)
            return
        w = N(c, G(c, 'mk_ch', True))
        n = vlen(VX, v)
        yield 'no terms', z3.Implies(n == 0, r == F(c, 'd_listNil'))
        yield 'an application of the list constructor', z3.Implies(n > 0, z3.And(r == G(c, 'mk_r', True), G(c, 'mk_k', True) == K['APPLY'], vlen(VX, w) == n + 1, S(acc(VX, 'arr', w), 0) == F(c, 'd_listCons'),
                                                                          Q([i], z3.Implies(z3.And(1 <= i, i < n + 1), S(acc(VX, 'arr', w), i) == S(acc(VX, 'arr', v), i - 1)), patterns=[S(acc(VX, 'arr', w), i)])))
        yield 'not null', real(r)
    out.append(Fn('ethos::State::mkList', mlistpost, given=lambda c: [allreal(VX, c.a(0)), real(F(c, 'd_listNil')), real(F(c, 'd_listCons'))], mods=lambda c: tc + (touch(c, 'mk_k', 'mk_ch', 'mk_r') if c.verifying else []),
                  ghosts=lambda c: logs(c, ml_ch=c.a(0), ml_r=c.result())))
    HEAD = z3.Function('headOfApplication', E, E)
    hax = [Q([e], HEAD(e) == z3.If(kind(e) == K['APPLY'], HEAD(ch(e, 0)), e), patterns=[HEAD(e)])]

    # ---- the dispatch
    A = lambda m, x, f: acc(AI, f, S(val(APP, m), x))

    def parts(c):
        v = N(c, c.a(1))
        a = acc(VE, 'arr', v)
        return c.a(0), v, a, vlen(VE, v), [S(a, q) for q in range(3)]

    def inrange(a, n, p):
        return Q([i], z3.Implies(z3.And(0 <= i, i < n), p(S(a, i))), patterns=[S(a, i)])

    def post(c):
        k, v, a, n, (a0, a1, a2) = parts(c)
        r = N(c, c.result())
        if not c.verifying:
            yield 'no null pointer', r != NULLP
            return
        g = lambda nm: G(c, nm, True)
        m = F(c, 'd_appData')
        K_ = lambda *ops: z3.Or([k == K['EVAL_' + o] for o in ops])
        none = r == SNULL
        ar = arity(K, k, n)
        ground = inrange(a, n, lambda y: z3.Not(nonground(y)))
        alllit = inrange(a, n, lambda y: z3.Or([kind(y) == q for q in d.litkinds]))
        vals = inrange(a, n, lambda y: z3.Not(evaluable(y)))
        lit0 = lambda f: d.lit(a0, f)
        D1, V1 = dv(HM, F(c, 'd_hashMap', True))
        isnum = lambda r, p: z3.And(kind(r) == K['NUMERAL'], d.lit(r, 'd_int') == p, real(r))
        yield 'stuck with the wrong number of arguments', z3.Implies(z3.Not(ar), none)
        w = lambda o, p: z3.Implies(z3.And(ar, K_(*o.split())), p)
        yield 'ite', w('IF_THEN_ELSE', r == z3.If(kind(a0) == K['BOOLEAN'], z3.If(lit0('d_bool'), a1, a2), SNULL))
        yield 'requires', w('REQUIRES', r == z3.If(z3.And(a0 == a1, z3.Not(nonground(a0)), z3.Not(evaluable(a0))), a2, SNULL))
        yield 'other operators need ground arguments', z3.Implies(z3.And(z3.Not(K_('IF_THEN_ELSE', 'REQUIRES')), z3.Not(ground)), none)
        ok = z3.And(ar, ground)
        w = lambda o, p: z3.Implies(z3.And(ok, K_(*o.split())), p)
        e0, e1 = evaluable(a0), evaluable(a1)
        yield 'is_ok', w('IS_OK', r == tf(c, z3.Not(e0)))
        yield 'is_eq', w('IS_EQ', r == tf(c, z3.And(z3.Not(e0), z3.Not(e1), a0 == a1)))
        yield 'eq', w('EQ', r == z3.If(z3.Or(e0, e1), SNULL, tf(c, a0 == a1)))
        yield 'hash', w('HASH', z3.If(e0, none, z3.And(S(D1, a0), isnum(r, S(V1, a0)))))
        yield 'cmp', w('COMPARE', z3.If(z3.Or(e0, e1), none, z3.And(S(D1, a0), S(D1, a1), r == tf(c, S(V1, a0) > S(V1, a1)))))
        for o, q in IS.items():
            yield 'is_' + o.lower(), w('IS_' + o, r == tf(c, kind(a0) == K[q]))
        to = z3.And(z3.Not(e0), z3.Not(nonground(g('gt_r'))))
        yield 'typeof', w('TYPE_OF', z3.And(z3.Implies(z3.Not(e0), g('gt_e') == a0), r == z3.If(to, g('gt_r'), SNULL)))
        nm = strparse(symf(a0), z3.BoolVal(False))
        named = z3.Or(kind(a0) == K['CONST'], kind(a0) == K['VARIABLE'])
        yield 'nameof', w('NAME_OF', z3.If(named, z3.And(real(r), kind(r) == K['STRING'], d.lit(r, 'd_str') == nm), none))
        va = z3.And(kind(a0) == K['STRING'], z3.Not(e1))
        vt = z3.And(va, g('gt_r') != SNULL, kind(g('gt_r')) == K['TYPE'])
        BD, BVv = dv(BV_, F(c, 'd_boundVars', True))
        key = mk(BKEY, z3.Function('textOf', sort(('cls', 'String')), so.Str)(lit0('d_str')), a1)
        yield 'var', w('VAR', z3.And(z3.Implies(va, g('gt_e') == a1), z3.If(vt, z3.And(S(BD, key), S(BVv, key) == r, kind(r) == K['VARIABLE'], TMP(r, K['VARIABLE'], a1)), none)))
        sy = N(c, z3.If(kind(a0) == K['APPLY_OPAQUE'], ch(a0, 0), a0))
        yield 'dt_selectors', w('DT_SELECTORS', r == z3.If(z3.And(S(dom(APP, m), sy), one(A(m, sy, 'd_attrCons'), ['DATATYPE_CONSTRUCTOR', 'AMB_DATATYPE_CONSTRUCTOR'])), A(m, sy, 'd_attrConsTerm'), SNULL))
        par = z3.And(kind(a0) == K['APPLY'], g('gt_r') == F(c, 'd_type'))
        sy = N(c, z3.If(par, HEAD(a0), a0))
        isdt = z3.And(S(dom(APP, m), sy), A(m, sy, 'd_attrCons') == ATTR['DATATYPE'])
        ct = N(c, A(m, sy, 'd_attrConsTerm'))
        yield 'dt_constructors: of datatypes', w('DT_CONSTRUCTORS', z3.And(z3.Implies(kind(a0) == K['APPLY'], g('gt_e') == a0), z3.Implies(z3.Not(isdt), none), z3.Implies(z3.And(isdt, z3.Not(par)), r == ct)))
        mc = N(c, g('ml_ch'))
        cons = F(c, 'd_listCons')
        ln = LEN(ct, cons, z3.BoolVal(False))
        amb = lambda x: z3.And(S(dom(APP, m), x), A(m, x, 'd_attrCons') == ATTR['AMB_DATATYPE_CONSTRUCTOR'])
        inst = lambda x, y: z3.If(amb(x), MK2(K['APPLY_OPAQUE'], x, a0, y), y == x)
        yield 'dt_constructors: of instances of datatypes', w('DT_CONSTRUCTORS', z3.Implies(z3.And(isdt, par), z3.And(
            r == g('ml_r'), vlen(VX, mc) == ln, Q([j], z3.Implies(z3.And(0 <= j, j < ln), inst(EL(ct, z3.BoolVal(False), j), S(acc(VX, 'arr', mc), j))), patterns=[EL(ct, z3.BoolVal(False), j), S(acc(VX, 'arr', mc), j)]))))
        # literals
        other = z3.And(ok, z3.Not(K_(*SPECIAL, *VALUE)))
        ev = z3.And(other, alllit)
        lr = N(c, g('le_r'))
        yield 'literals: the operator is evaluated on the arguments', z3.Implies(ev, z3.And(g('le_k') == k, eqvec(VE, N(c, g('le_ch')), v)))
        nothing = acc(d.LIT, 'd_kind', lr) == K['NONE']
        yield 'literals: the value', z3.Implies(ev, z3.If(nothing, none, value(r, lr)))
        yield 'other operators are stuck on terms that are no literals', z3.Implies(z3.And(other, z3.Not(alllit), z3.Not(K_(*LISTS))), none)
        yield 'operators on lists are stuck on literals', z3.Implies(z3.And(ev, K_(*LISTS)), none)
        # lists
        op = N(c, z3.If(kind(a0) == K['PARAMETERIZED'], ch(a0, 1), a0))
        at = A(m, op, 'd_attrCons')
        left = N(c, z3.Or(at == ATTR['LEFT_ASSOC_NIL'], at == ATTR['LEFT_ASSOC_NS_NIL']))
        ap = z3.And(ok, z3.Not(alllit), S(dom(APP, m), op), one(at, NIL), vals)
        ls = z3.And(ok, K_(*LISTS))
        yield 'operators on lists need an operator with a nil terminator and values', z3.Implies(z3.And(ls, z3.Not(ap)), none)
        cch = N(c, g('cct_ch'))
        ca = acc(VX, 'arr', cch)
        info = S(val(APP, m), op)
        lst = z3.And(ls, ap)
        yield 'the nil terminator of the operator', z3.Implies(lst, z3.And(g('cct_ai') == info, vlen(VX, cch) == 2, S(ca, 0) == a0, z3.If(k == K['EVAL_NIL'], TMP(S(ca, 1), K['CONST'], a1), S(ca, 1) == a1)))
        yield 'nil', z3.Implies(z3.And(lst, K_('NIL')), r == g('cct_r'))
        nil = N(c, g('cct_r'))
        ls = z3.And(lst, z3.Not(K_('NIL')))
        yield 'operators on lists are stuck without a nil terminator', z3.Implies(z3.And(ls, nil == SNULL), none)
        ls = z3.And(ls, nil != SNULL)
        w = lambda o, p: z3.Implies(z3.And(ls, K_(*o.split())), p)
        isl = lambda t: END(t, op, left) == nil
        l1, l2 = isl(a1), isl(a2)
        n1, n2 = LEN(a1, op, left), LEN(a2, op, left)
        yield 'cons', w('CONS', z3.If(l2, z3.And(real(r), CELL(r, op), EL(r, left, 0) == a1, NTL(r, left, 1) == a2), none))
        h, tl = N(c, z3.If(left, a2, a1)), N(c, z3.If(left, a1, a2))
        nh = LEN(h, op, left)
        yield 'concat: of lists', w('LIST_CONCAT', z3.Implies(z3.Not(z3.And(l1, l2)), none))
        yield 'concat: the elements of one list before the other', w('LIST_CONCAT', z3.Implies(z3.And(l1, l2), z3.And(
            real(r), NTL(r, left, nh) == tl, Q([j], z3.Implies(z3.And(0 <= j, j < nh), z3.And(CELL(NTL(r, left, j), op), EL(r, left, j) == EL(h, left, j))), patterns=[NTL(r, left, j)]))))
        yield 'length', w('LIST_LENGTH', z3.If(l1, isnum(r, n1), none))
        ix = d.lit(a2, 'd_int')
        yield 'nth', w('LIST_NTH', z3.If(z3.And(l1, kind(a2) == K['NUMERAL'], 0 <= ix, ix < n1), r == EL(a1, left, ix), none))
        ri = d.lit(r, 'd_int')
        yield 'find: a number', w('LIST_FIND', z3.If(l1, z3.And(real(r), kind(r) == K['NUMERAL']), none))
        yield 'find: the element, if any', w('LIST_FIND', z3.Implies(z3.And(l1, ri != -1), z3.And(0 <= ri, ri < n1, EL(a1, left, ri) == a2)))
        yield 'find: the first occurrence', w('LIST_FIND', z3.Implies(l1, Q([j], z3.Implies(z3.And(0 <= j, j < n1, z3.Or(ri == -1, j < ri)), EL(a1, left, j) != a2), patterns=[EL(a1, left, j)])))
        for o, rn, f in (('LIST_ERASE', 'ERASE', a2), ('LIST_ERASE_ALL', 'ERASE_ALL', a2), ('LIST_REV', 'REV', a1), ('LIST_SETOF', 'SETOF', a1)):
            yield o[5:].lower(), w(o, z3.If(l1, RES[rn](r, a1, f, op, left), none))
        for o in ('DIFF', 'INTER'):
            yield o.lower(), w('LIST_' + o, z3.If(z3.And(l1, l2), RES[o](r, a1, a2, op, left), none))
        for o in ('MINCLUDE', 'MEQ'):
            yield o.lower(), w('LIST_' + o, z3.If(z3.And(l1, l2), r == tf(c, PRED[o](a1, a2, op, left)), none))
        yield 'singleton_elim', w('LIST_SINGLETON_ELIM', z3.If(l1, r == z3.If(n1 == 1, EL(a1, left, 0), a1), none))
        # state
        yield 'hashes do not change', kept(c)
        yield from hashinv(c, True)
        yield 'no null pointer', r != NULLP
        n1_ = N(c, c.objfield(c.this, 'd_negOne', True))
        yield 'the cached numeral', negone(n1_)

    negone = lambda t: z3.Or(t == SNULL, z3.And(real(t), kind(t) == K['NUMERAL'], d.lit(t, 'd_int') == -1))

    def given(c):
        k, v, a, n, _ = parts(c)
        m = F(c, 'd_appData')
        return [n >= 1, n < 2 ** 32, allreal(VE, v), F(c, 'd_null') == SNULL, c.objfield(c.this, 'd_null') == SNULL, negone(c.objfield(c.this, 'd_negOne')), real(F(c, 'd_true')), real(F(c, 'd_false')),
                kind(F(c, 'd_true')) == K['BOOLEAN'], kind(F(c, 'd_false')) == K['BOOLEAN'], d.lit(F(c, 'd_true'), 'd_bool'), z3.Not(d.lit(F(c, 'd_false'), 'd_bool')),
                Q([e], z3.Implies(S(dom(APP, m), e), A(m, e, 'd_attrConsTerm') != NULLP), patterns=[S(dom(APP, m), e)]),
                Q([e], z3.Implies(z3.And(S(dom(APP, m), e), one(A(m, e, 'd_attrCons'), ['DATATYPE'])), real(A(m, e, 'd_attrConsTerm'))), patterns=[S(dom(APP, m), e)]),
                real(F(c, 'd_listNil')), real(F(c, 'd_listCons')), real(F(c, 'd_type')), F(c, 'd_hashCounter') < 2 ** 32 - 2, *hgiven(c), *[p for _, p in bvinv(c)]]

    def focus(c, prop):
        ls = z3.Or([c.a(0) == K['EVAL_' + o] for o in LISTS])
        return ls if prop == 'A05' else z3.Not(ls) if prop == 'A04' else z3.BoolVal(True)

    def stripl(cx):
        c = cx.callctx()
        cur = cx.v('sym', EX)
        yield 'the same head', z3.And(HEAD(cur) == HEAD(S(acc(VE, 'arr', N(c, c.a(1))), 0)), real(cur), kind(cur) == K['APPLY'])

    def consl(cx):
        c = cx.callctx()
        k, v, a, n, (a0, a1, a2) = parts(c)
        m = F(c, 'd_appData')
        w, src = N(cx, cx.v('cargsp', VX)), N(cx, cx.v('cargs', VE))
        wa, sa = acc(VX, 'arr', w), acc(VE, 'arr', src)
        amb = lambda x: z3.And(S(dom(APP, m), x), A(m, x, 'd_attrCons') == ATTR['AMB_DATATYPE_CONSTRUCTOR'])
        yield 'one term for each constructor', vlen(VX, w) == cx.idx
        yield 'terms', Q([j], z3.Implies(z3.And(0 <= j, j < cx.idx), real(S(wa, j))), patterns=[S(b, j) for b in bases(wa)])
        yield 'the constructors so far', Q([j], z3.Implies(z3.And(0 <= j, j < cx.idx), z3.If(amb(S(sa, j)), MK2(K['APPLY_OPAQUE'], S(sa, j), a0, S(wa, j)), S(wa, j) == S(sa, j))), patterns=[S(b, j) for b in bases(wa)] + [S(sa, j)])

    def litl(cx):
        c = cx.callctx()
        k, v, a, n, _ = parts(c)
        w = N(cx, cx.v('lits', VE))
        wa = acc(VE, 'arr', w)
        yield 'literals so far', z3.And(vlen(VE, w) == cx.idx, Q([j], z3.Implies(z3.And(0 <= j, j < cx.idx), z3.And(S(wa, j) == S(a, j), z3.Or([kind(S(a, j)) == q for q in d.litkinds]))), patterns=[S(b, j) for b in bases(wa)] + [S(a, j)]))
        yield 'all of them', cx.v('allValues')

    def vall(cx):
        c = cx.callctx()
        k, v, a, n, _ = parts(c)
        yield 'values so far', Q([j], z3.Implies(z3.And(0 <= j, j < cx.idx), z3.Not(evaluable(S(a, j)))), patterns=[S(a, j)])
    LG = 'gt_e gt_r cct_ai cct_ch cct_r le_k le_ch le_r ml_ch ml_r mk_k mk_ch mk_r'.split()
    FL = [('g', 'flag%d' % q) for q in range(3)]
    own = lambda c: tc + HF + st('d_boundVars') + [('o', 'TypeChecker', 'd_negOne')]
    out.append(Fn('ethos::TypeChecker::evaluateLiteralOpInternal', post, given=given, focus=focus, axioms=ax + hax, assumes=asm, free=FL, loops={0: stripl, 1: consl, 2: litl, 3: vall},
                  mods=lambda c: own(c) + (touch(c, *LG) if c.verifying else []), ghosts=lambda c: logs(c, el_k=c.a(0), el_ch=c.a(1), el_r=c.result())))

    def opost(c):
        k, v, a, n, _ = parts(c)
        r, ir = N(c, c.result()), G(c, 'el_r', True)
        yield 'the operator is evaluated on the arguments', z3.And(G(c, 'el_k', True) == k, eqvec(VE, N(c, G(c, 'el_ch', True)), v))
        yield 'its value', z3.Implies(ir != SNULL, r == ir)
        yield 'or the term as it is', z3.Implies(ir == SNULL, z3.And(real(r), kind(r) == k, nch(r) == n, Q([i], z3.Implies(z3.And(0 <= i, i < n), ch(r, i) == S(a, i)), patterns=[ch(r, i)])))
    out.append(Fn('ethos::TypeChecker::evaluateLiteralOp', opost, given=given, focus=focus, axioms=ax, assumes=asm, free=FL, mods=lambda c: own(c) + touch(c, 'el_k', 'el_ch', 'el_r')))
    return out
