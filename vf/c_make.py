"""Building applications: State::mkExpr, State::mkApplyAttr (desugaring),
State::getOverloadInternal (overload resolution), mkApplyInternal (currying)."""
import z3
from . import sorts as so
from .sorts import acc, mk, sort, vlen, I, B, E, NULLP, SNULL
from .domain import kind, islit, VE, EV
from .c_state import Fn, F, st, stf, EX, VX, S, Q, N, val, dom, G, GT, touch, name, eqvec, AI, APP, OV, STR
from .c_term import ME, nonground, evaluable, bases
from .c_type import NARY, arity
from .symex import Obj, Ptr

KD = ('enum', 'Kind')
AT = ('enum', 'Attr')
ARR = z3.ArraySort(I, E)
SZ = ('int', 64, False)
dv = lambda m: (acc(ME, 'dom', m), acc(ME, 'val', m))
# the last direct call of each function: arguments and result
GT.update(mk_k=KD, mk_ch=VX, mk_r=EX, maa_ai=AI, maa_ch=VE, maa_ct=EX, maa_r=EX, cct_ai=AI, cct_ch=VX, cct_r=EX, gt_e=EX, gt_r=EX, goi_ov=VX, goi_ch=VX, goi_ret=EV, goi_app=('bool',), goi_r=EX,
          epi_ch=VE, epi_in=ME, epi_out=ME, epi_r=EX, elo_k=KD, elo_ch=VE, elo_r=EX, mft_args=VX, mft_ret=EX, mft_r=EX, gta_ch=VE, gta_in=ME, gta_out=ME, ev_t=EV, ev_ctx=ME, ev_res=EX)
LOGS = 'mk_k mk_ch mk_r maa_ai maa_ch maa_ct maa_r cct_ai cct_ch cct_r gt_e gt_r goi_ov goi_ch goi_ret goi_app goi_r epi_ch epi_in epi_out epi_r elo_k elo_ch elo_r mft_args mft_ret mft_r ev_t ev_ctx ev_res'.split()
LEFT = ['LEFT_ASSOC', 'LEFT_ASSOC_NIL', 'LEFT_ASSOC_NS_NIL']
NSNIL = ['RIGHT_ASSOC_NS_NIL', 'LEFT_ASSOC_NS_NIL']
NIL = ['RIGHT_ASSOC_NIL', 'LEFT_ASSOC_NIL'] + NSNIL
ASSOC = ['LEFT_ASSOC', 'RIGHT_ASSOC', 'LEFT_ASSOC_NIL', 'RIGHT_ASSOC_NIL', 'RIGHT_ASSOC_NS_NIL', 'LEFT_ASSOC_NS_NIL']


def logs(c, **kv):
    """ghost state: the arguments and the result of this call"""
    return list(zip(touch(c, *kv), kv.values()))


def rec(c, i):
    """the record a pointer argument points to, at entry"""
    v = c.a(i)
    return c.ex.rv(v.lv, c.old if c.old is not None else c.st) if isinstance(v, Ptr) else v


def contracts(d):
    K = d.K
    out = []
    i, j, k_, m_, n_, k0 = z3.Ints('i!k j!k k!k m!k n!k k0!k')
    e, x, y, t, b = z3.Consts('e!k x!k y!k t!k b!k', E)
    a_, a2 = z3.Const('a!k', ARR), z3.Const('a2!k', ARR)
    ATTR = {k.split('::')[-1]: v for k, v in d.p.enums.items() if k.startswith('ethos::Attr::')}
    A = lambda m, x, f: acc(AI, f, S(val(APP, m), x))
    real = lambda v: z3.And(v != NULLP, v != SNULL)
    ch, nch = d.ch, d.nch
    ax = [Q([e], z3.Implies(kind(e) == K['NONE'], e == SNULL), patterns=[kind(e)])]
    asm = ['only the null term has kind NONE', 'termination is not proved (partial correctness)']
    allreal = lambda ct, v: Q([i], z3.Implies(z3.And(0 <= i, i < vlen(ct, v)), real(S(acc(ct, 'arr', v), i))), patterns=[S(acc(ct, 'arr', v), i)])

    # ---- curried applications: t is b applied to a[lo], ..., a[n-1] with applications of kind k
    CUR = d.CUR = z3.Function('curried', I, E, E, ARR, I, I, B)
    cur = CUR(k_, t, b, a_, m_, n_)
    curax = [Q([k_, t, b, a_, m_, n_], z3.Implies(n_ <= m_, cur == (t == b)), patterns=[cur]),
             Q([k_, t, b, a_, m_, n_], z3.Implies(n_ > m_, cur == z3.And(kind(t) == k_, nch(t) == 2, ch(t, 1) == S(a_, n_ - 1), CUR(k_, ch(t, 0), b, a_, m_, n_ - 1))), patterns=[cur])]
    # induction on n: the chain depends on the elements in the range only (also when they are moved)
    moved = lambda m, n, a, m2, b: Q([i], z3.Implies(z3.And(m <= i, i < n), S(a, i) == S(b, i + m2 - m)), patterns=[S(a, i)])
    CURL = Q([k_, t, b, a_, m_, n_, a2, j, k0], z3.Implies(z3.And(cur, n_ >= m_, j >= m_, k0 == n_ + j - m_, moved(m_, n_, a_, j, a2)), CUR(k_, t, b, a2, j, k0)),
             patterns=[so.MP(cur, CUR(k_, t, b, a2, j, k0))])
    if not any(l[0].startswith('a curried') for l in d.lemma_obs):
        s_ = z3.Int('s!k')
        ih = Q([t], z3.Implies(CUR(k_, t, b, a_, m_, n_), CUR(k_, t, b, a2, m_ + s_, n_ + s_)), patterns=[CUR(k_, t, b, a_, m_, n_)])
        mv = Q([j], z3.Implies(z3.And(m_ <= j, j < n_ + 1), S(a_, j) == S(a2, j + s_)), patterns=[S(a_, j), S(a2, j + s_)])
        base = d.axioms + d.qf_axioms + curax
        d.lemma_obs.append(('a curried application depends on its arguments only (base)', [CUR(k_, t, b, a_, m_, m_)], CUR(k_, t, b, a2, m_ + s_, m_ + s_), base))
        d.lemma_obs.append(('a curried application depends on its arguments only (induction)', [n_ >= m_, mv, ih, CUR(k_, t, b, a_, m_, n_ + 1)],
                            z3.And(S(a_, n_) == S(a2, n_ + s_), CUR(k_, t, b, a2, m_ + s_, n_ + s_ + 1)), base))
    app2 = lambda t, f, x, y: z3.And(kind(t) == K['APPLY'], nch(t) == 2, ch(t, 1) == y, kind(ch(t, 0)) == K['APPLY'], nch(ch(t, 0)) == 2, ch(ch(t, 0), 0) == f, ch(ch(t, 0), 1) == x)

    def ipost(c):
        v, r = N(c, c.a(1)), N(c, c.result())
        a = acc(VE, 'arr', v)
        return [('term', z3.And(real(r), kind(r) == c.a(0), nch(r) == vlen(VE, v), Q([j], z3.Implies(z3.And(0 <= j, j < vlen(VE, v)), ch(r, j) == S(a, j)), patterns=[ch(r, j)])))]
    out.append(Fn('ethos::State::mkExprInternal', ipost, trusted=True, why='the term with this kind and these children (B01)'))

    def curpost(c):
        v, r = N(c, c.a(0)), N(c, c.result())
        a = acc(VE, 'arr', v)
        yield 'the curried application', CUR(K['APPLY'], r, S(a, 0), a, 1, vlen(VE, v))
        yield 'not null', real(r)

    def curloop(cx):
        v, n = cx.at_entry('children', VE), cx.v('i', SZ)
        a = acc(VE, 'arr', v)
        cr = cx.v('curr', EV)
        yield 'range', z3.And(1 <= n, n <= vlen(VE, v))
        yield 'the arguments so far', CUR(K['APPLY'], cr, S(a, 0), a, 1, n)
        yield 'not null', real(cr)
    out.append(Fn('ethos::State::mkApplyInternal', curpost, given=lambda c: [allreal(VE, c.a(0)), vlen(VE, c.a(0)) >= 1], axioms=ax + curax, loops={0: curloop}, assumes=asm))

    # ---- what calls returned (history of this call)
    GTR = z3.Function('typeWas', E, E, B)
    MAA = z3.Function('attributeApplicationWas', sort(AI), sort(VE), E, E, B)
    CCT = z3.Function('constructorTermWas', sort(AI), sort(VX), E, B)
    TMP = z3.Function('newConstant', E, I, E, B)
    MK2 = z3.Function('applied', I, E, E, E, B)

    # ---- mkApplyAttr
    LST = z3.Function('isList', E, B)               # marked :list
    LAST = z3.Function('nthArg', I, E)
    L = z3.Function('desugared', E, I, B)
    CNT = z3.Function('nonListCount', I, I)
    PAIR = z3.Function('pair', I, I, B)             # any two positions
    OFF = z3.Function('pairOffset', I, I)
    # t is a[0] applied to a[1], ..., a[n-1], the first m of them as opaque arguments
    OPQ = z3.Function('opaqueApp', E, ARR, I, I, B)
    opq = OPQ(t, a_, m_, n_)
    opqax = [Q([t, a_, m_, n_], z3.Implies(n_ <= 1, opq == (t == S(a_, 0))), patterns=[opq]), Q([t, a_, m_, n_], z3.Implies(n_ > 1, opq == z3.And(
        kind(t) == z3.If(n_ <= m_ + 1, K['APPLY_OPAQUE'], K['APPLY']), nch(t) == 2, ch(t, 1) == S(a_, n_ - 1), OPQ(ch(t, 0), a_, m_, n_ - 1))), patterns=[opq])]
    same = lambda n: Q([j], z3.Implies(z3.And(1 <= j, j < n), S(a2, j) == S(a_, m_ + j)), patterns=[S(a2, j)])
    OPQL = Q([t, b, a_, a2, m_, n_, k0], z3.Implies(z3.And(m_ >= 0, n_ >= 1, k0 == m_ + 1, OPQ(b, a_, m_, k0), CUR(K['APPLY'], t, b, a2, 1, n_), same(n_)), OPQ(t, a_, m_, m_ + n_)),
             patterns=[so.MP(OPQ(b, a_, m_, k0), CUR(K['APPLY'], t, b, a2, 1, n_))])
    if not any(l[0].startswith('an opaque') for l in d.lemma_obs):
        base = d.axioms + d.qf_axioms + curax + opqax
        ih = Q([t], z3.Implies(CUR(K['APPLY'], t, b, a2, 1, n_), OPQ(t, a_, m_, m_ + n_)), patterns=[CUR(K['APPLY'], t, b, a2, 1, n_)])
        d.lemma_obs.append(('an opaque operator applied to arguments (base)', [m_ >= 0, OPQ(b, a_, m_, m_ + 1), CUR(K['APPLY'], t, b, a2, 1, 1)], OPQ(t, a_, m_, m_ + 1), base))
        d.lemma_obs.append(('an opaque operator applied to arguments (induction)', [m_ >= 0, n_ >= 1, ih, same(n_ + 1), CUR(K['APPLY'], t, b, a2, 1, n_ + 1)], OPQ(t, a_, m_, m_ + n_ + 1), base))
    fI = lambda f: F(f, 'd_appData')

    no = lambda ai: d.lit(acc(AI, 'd_attrConsTerm', ai), 'd_int')     # number of opaque arguments

    def one(v, names):
        return z3.Or([v == ATTR[n] for n in names])

    def parts(c):
        ai, v, ct = rec(c, 0), N(c, c.a(1)), N(c, c.a(2))
        return ai, acc(AI, 'd_attrCons', ai), acc(VE, 'arr', v), vlen(VE, v), ct

    def nary(c):
        ai, at, a, n, ct = parts(c)
        left, nil, ns = one(at, LEFT), one(at, NIL), one(at, NSNIL)
        first = z3.If(left, S(a, 1), S(a, n - 1))
        addnil = z3.And(nil, z3.Not(LST(first)))
        istart = z3.If(addnil, z3.IntVal(1), z3.IntVal(2))
        return left, nil, ns, first, addnil, istart

    def defs(c):
        """the nested application after the arguments up to (excluding) position i"""
        ai, at, a, n, ct = parts(c)
        left, nil, ns, first, addnil, istart = nary(c)
        hd = S(a, 0)
        m = fI(c)
        y = S(a, z3.If(left, i - 1, n - (i - 1)))
        lst = z3.And(nil, LST(y))
        nilt = z3.If(ct != SNULL, t == ct, z3.And(kind(t) == K['EVAL_NIL'], nch(t) == 2, ch(t, 0) == hd, kind(ch(t, 1)) == K['EVAL_TYPE_OF'], nch(ch(t, 1)) == 1, ch(ch(t, 1), 0) == S(a, 1)))
        start = z3.If(addnil, nilt, t == first)
        step = z3.If(lst, z3.And(kind(t) == K['EVAL_LIST_CONCAT'], nch(t) == 3, ch(t, 0) == hd, ch(t, z3.If(left, 2, 1)) == y, L(ch(t, z3.If(left, 1, 2)), i - 1)),
                     z3.If(left, z3.And(app2(t, hd, ch(ch(t, 0), 1), y), L(ch(ch(t, 0), 1), i - 1)), z3.And(app2(t, hd, y, ch(t, 1)), L(ch(t, 1), i - 1))))
        return [Q([e], LST(e) == z3.And(S(dom(APP, m), e), A(m, e, 'd_attrCons') == ATTR['LIST']), patterns=[LST(e)]),
                Q([t, i], z3.Implies(i <= istart, L(t, i) == start), patterns=[L(t, i)]), Q([t, i], z3.Implies(i > istart, L(t, i) == step), patterns=[L(t, i)]),
                Q([i], z3.Implies(i <= istart, CNT(i) == 0), patterns=[CNT(i)]), Q([i], z3.Implies(i > istart, CNT(i) == CNT(i - 1) + z3.If(lst, 0, 1)), patterns=[CNT(i)]),
                OFF(1) == 1, OFF(2) == n - 1, PAIR(1, 2), Q([i], z3.Implies(i >= 1, OFF(i + 1) == OFF(i) + (n - 1 - i)), patterns=[OFF(i + 1)])]

    def apost(c):
        ai, at, a, n, ct = parts(c)
        left, nil, ns, first, addnil, istart = nary(c)
        r = N(c, c.result())
        hd = S(a, 0)
        yield 'not a null pointer', r != NULLP
        if not c.verifying:
            return
        mk_k, mk_ch, mk_r = G(c, 'mk_k', True), N(c, G(c, 'mk_ch', True)), G(c, 'mk_r', True)
        ma, mn = acc(VX, 'arr', mk_ch), vlen(VX, mk_ch)
        made = lambda k: z3.And(r == mk_r, mk_k == K[k])
        asc = one(at, ASSOC)
        yield 'n-ary: the nested application of the arguments', z3.Implies(z3.And(asc, n >= 2, z3.Not(z3.And(ns, CNT(n) < 2))), L(r, n))
        yield 'non-singleton lists: singletons are eliminated', z3.Implies(z3.And(asc, n >= 2, ns, CNT(n) < 2), z3.And(
            made('EVAL_LIST_SINGLETON_ELIM'), mn == 2, S(ma, 0) == hd, L(S(ma, 1), n)))
        yield 'n-ary: no arguments', z3.Implies(z3.And(asc, n < 2), r == ct)
        yield 'chainable: one application', z3.Implies(z3.And(at == ATTR['CHAINABLE'], n == 3), app2(r, hd, S(a, 1), S(a, 2)))
        yield 'chainable: the conjunction of neighbours', z3.Implies(z3.And(at == ATTR['CHAINABLE'], n != 3), z3.And(
            made('APPLY'), mn == z3.If(n <= 2, z3.IntVal(1), n - 1), S(ma, 0) == ct, Q([i], z3.Implies(z3.And(1 <= i, i < mn), app2(S(ma, i), hd, S(a, i), S(a, i + 1))), patterns=[S(ma, i)])))
        yield 'pairwise: one application', z3.Implies(z3.And(at == ATTR['PAIRWISE'], n == 3), app2(r, hd, S(a, 1), S(a, 2)))
        yield 'pairwise: the conjunction of all pairs', z3.Implies(z3.And(at == ATTR['PAIRWISE'], n != 3), z3.And(
            made('APPLY'), mn == z3.If(n <= 2, z3.IntVal(1), OFF(n - 1)), S(ma, 0) == ct,
            Q([i, j], z3.Implies(z3.And(PAIR(i, j), 1 <= i, i < j, j < n), app2(S(ma, OFF(i) + j - i - 1), hd, S(a, i), S(a, j))), patterns=[PAIR(i, j)])))
        al = z3.And(at == ATTR['ARG_LIST'])
        whole = z3.And(n == 2, LST(S(a, 1)))
        yield 'argument lists: applied to one list', z3.Implies(al, z3.And(kind(r) == K['APPLY'], nch(r) == 2, ch(r, 0) == hd))
        yield 'argument lists: a list variable is the list', z3.Implies(z3.And(al, whole), ch(r, 1) == S(a, 1))
        yield 'argument lists: the list of the arguments', z3.Implies(z3.And(al, z3.Not(whole)), z3.And(ch(r, 1) == mk_r, mk_k == K['APPLY'], mn == n, S(ma, 0) == ct, Q(
            [i], z3.Implies(z3.And(1 <= i, i < n), S(ma, i) == S(a, i)), patterns=[S(ma, i), S(a, i)])))
        op = at == ATTR['OPAQUE']
        yield 'opaque: too few arguments', z3.Implies(z3.And(op, no(ai) >= n), r == SNULL)
        yield 'opaque: the first arguments are opaque, the operator is applied to the rest', z3.Implies(z3.And(op, no(ai) < n), OPQ(r, a, no(ai), n))
        yield 'other attributes do not change applications', z3.Implies(z3.Not(z3.Or(asc, one(at, ['CHAINABLE', 'PAIRWISE', 'ARG_LIST', 'OPAQUE']))), r == SNULL)

    def naryloop(cx):
        c = cx.callctx()
        ai, at, a, n, ct = parts(c)
        left, nil, ns, first, addnil, istart = nary(c)
        p, cr = cx.v('i', SZ), cx.v('curr', EV)
        cc = cx.v('cc', VE)
        yield 'range', z3.And(istart <= p, p <= n)
        yield 'the arguments so far', L(cr, p)
        yield 'not null', real(cr)
        yield 'number of arguments that are no lists', z3.And(cx.v('nlistTerms', SZ) == CNT(p), 0 <= CNT(p), CNT(p) <= p)
        yield 'operator', z3.And(vlen(VE, cc) == 3, S(acc(VE, 'arr', cc), 0) == S(a, 0))

    def chainloop(cx):
        c = cx.callctx()
        ai, at, a, n, ct = parts(c)
        p, cc, cs = cx.v('i', SZ), cx.v('cc', VE), cx.v('cchildren', VX)
        ca = acc(VX, 'arr', cs)
        yield 'range', z3.And(1 <= p, z3.Or(p <= n - 1, p == 1))
        yield 'operator', z3.And(vlen(VE, cc) == 3, S(acc(VE, 'arr', cc), 0) == S(a, 0))
        yield 'the neighbours so far', z3.And(vlen(VX, cs) == p, S(ca, 0) == ct, Q([i], z3.Implies(z3.And(1 <= i, i < p), z3.And(real(S(ca, i)), app2(S(ca, i), S(a, 0), S(a, i), S(a, i + 1)))),
                                                                                 patterns=[S(b_, i) for b_ in bases(ca)]))

    def pairs(cx, p, q):
        c = cx.callctx()
        ai, at, a, n, ct = parts(c)
        cc, cs = cx.v('cc', VE), cx.v('cchildren', VX)
        ca = acc(VX, 'arr', cs)
        yield 'operator', z3.And(vlen(VE, cc) == 3, S(acc(VE, 'arr', cc), 0) == S(a, 0))
        yield 'the constructor comes first', S(ca, 0) == ct
        yield 'no null terms', Q([i], z3.Implies(z3.And(1 <= i, i < vlen(VX, cs)), real(S(ca, i))), patterns=[S(b_, i) for b_ in bases(ca)])
        yield 'number of pairs so far', z3.And(vlen(VX, cs) == OFF(p) + (q - p - 1), OFF(p) >= 1, z3.Or(p == 1, OFF(p) >= n - 1))
        yield 'the pairs so far', Q([i, j], z3.Implies(z3.And(PAIR(i, j), 1 <= i, i < j, j < n, z3.Or(i < p, z3.And(i == p, j < q))), z3.And(
            1 <= OFF(i) + j - i - 1, OFF(i) + j - i - 1 < vlen(VX, cs), app2(S(ca, OFF(i) + j - i - 1), S(a, 0), S(a, i), S(a, j)))), patterns=[PAIR(i, j)])

    def pairouter(cx):
        n = vlen(VE, cx.callctx().a(1))
        p = cx.v('i', SZ)
        yield 'range', z3.And(1 <= p, z3.Or(p <= n - 1, p == 1))
        cx.st.assume(z3.And(OFF(p + 1) == OFF(p + 1), OFF(p) == OFF(p)))
        yield from pairs(cx, p, p + 1)

    def pairinner(cx):
        n = vlen(VE, cx.callctx().a(1))
        p, q = cx.v('i', SZ), cx.v('j', SZ)
        yield 'range', z3.And(1 <= p, p < n - 1, p + 1 <= q, q <= n)
        yield from pairs(cx, p, q)

    def agiven(c):
        ai, at, a, n, ct = parts(c)
        return defs(c) + [allreal(VE, c.a(1)), n >= 1, c.a(2) != NULLP, F(c, 'd_null') == SNULL, vlen(VE, c.a(1)) < 2 ** 32,
                          z3.Implies(at == ATTR['OPAQUE'], z3.And(islit(acc(AI, 'd_attrConsTerm', ai)), 0 <= no(ai), no(ai) < 2 ** 32)), z3.Implies(z3.And(one(at, ASSOC + ['CHAINABLE', 'PAIRWISE', 'ARG_LIST']), z3.Not(z3.And(one(at, NIL), n >= 2))), ct != SNULL)]

    def opaqueloop(cx):
        c = cx.callctx()
        p, cr, n = cx.v('i', SZ), cx.v('curr', EV), cx.v('nargs', SZ)
        yield 'range', z3.And(1 <= p, p <= n + 1)
        yield 'the opaque arguments so far', OPQ(cr, parts(c)[2], n, p)
        yield 'not null', real(cr)

    def arglistloop(cx):
        c = cx.callctx()
        ai, at, a, n, ct = parts(c)
        p, cs = cx.v('i', SZ), cx.v('cchildren', VX)
        ca = acc(VX, 'arr', cs)
        yield 'range', z3.And(1 <= p, p <= n)
        yield 'the arguments so far', z3.And(vlen(VX, cs) == p, S(ca, 0) == ct, Q([i], z3.Implies(z3.And(1 <= i, i < p), S(ca, i) == S(a, i)), patterns=[S(b_, i) for b_ in bases(ca)] + [S(a, i)]))

    out.append(Fn('ethos::State::mkApplyAttr', apost, given=agiven, axioms=ax + curax + opqax + [CURL, OPQL, Q([i, j], PAIR(i, j), patterns=[PAIR(i, j)])], assumes=asm, mods=lambda c: [('o', 'State', 'd_typeCache')] + (touch(c, 'mk_k', 'mk_ch', 'mk_r', 'gt_e', 'gt_r') if c.verifying else []),
                  ghosts=lambda c: (c.st.assume(MAA(rec(c, 0), N(c, c.a(1)), N(c, c.a(2)), N(c, c.result()))), logs(c, maa_ai=rec(c, 0), maa_ch=c.a(1), maa_ct=c.a(2), maa_r=c.result()))[1],
                  loops={0: naryloop, 1: chainloop, 2: pairouter, 3: pairinner, 4: arglistloop, 5: opaqueloop}))
    # ---- functions seen through their calls
    def gtaextra(c):
        D, V = dv(N(c, c.new(1)))
        return [('bindings are terms', Q([e], z3.Implies(S(D, e), real(S(V, e))), patterns=[S(D, e)]))]
    tc = [('o', 'State', 'd_typeCache')]
    out.append(Fn('ethos::Integer::toUnsignedInt', lambda c: [('value', z3.Implies(z3.And(0 <= c.selfv(), c.selfv() < 2 ** 32), c.result() == c.selfv()))], trusted=True, why='conversion of integers (A01)'))
    out.append(Fn('ethos::TypeChecker::getType', lambda c: [('not a null pointer', c.result() != NULLP), ('programs have a type', z3.Implies(kind(c.a(0)) == K['PROGRAM_CONST'], real(c.result())))], trusted=True,
                  why='type checking (T01); a program is declared with its type', mods=lambda c: tc, ghosts=lambda c: tgh(c)))

    def tgh(c):
        c.st.assume(GTR(N(c, c.a(0)), N(c, c.result())))
        return logs(c, gt_e=c.a(0), gt_r=c.result())

    def anyterm(fn, why, lg, what=('not a null pointer', lambda r: r != NULLP), mods=None, hist=None, extra=None):
        def gh(c):
            if hist:
                c.st.assume(hist(c))
            return logs(c, **lg(c))
        out.append(Fn(fn, lambda c: [(what[0], what[1](c.result()))] + (extra(c) if extra else []), trusted=True, why=why, mods=mods or (lambda c: tc), ghosts=gh))
    anyterm('ethos::TypeChecker::evaluate', 'evaluation (B04)', lambda c: dict(ev_t=c.a(0), ev_ctx=c.a(1), ev_res=c.result()), ('not null', real))
    anyterm('ethos::TypeChecker::evaluateLiteralOp', 'evaluation of builtin operators (A01 to A05)', lambda c: dict(elo_k=c.a(0), elo_ch=c.a(1), elo_r=c.result()), ('not null', real))
    anyterm('ethos::TypeChecker::evaluateProgramInternal', 'the first matching case of a program (B03)', lambda c: dict(epi_ch=c.a(0), epi_in=c.a(1), epi_out=c.new(1), epi_r=c.result()), mods=lambda c: tc + [c.lv(1)])
    anyterm('ethos::State::mkFunctionType', 'function types (T01)', lambda c: dict(mft_args=c.a(0), mft_ret=c.a(1), mft_r=c.result()), ('not null', real))
    anyterm('ethos::TypeChecker::getTypeAppInternal', 'matching of argument types (T01)', lambda c: dict(gta_ch=c.a(0), gta_in=c.a(1), gta_out=c.new(1)), mods=lambda c: tc + [c.lv(0), c.lv(1)], extra=gtaextra)
    anyterm('ethos::State::mkSymbol', 'a new constant of the given type (B01)', lambda c: {}, ('not null', real), mods=lambda c: [], hist=lambda c: TMP(N(c, c.result()), c.a(0), N(c, c.a(2))))

    # ---- getFunctionType
    FTN, FTR, FTA, SR = z3.Function('functionArity', E, I), z3.Function('functionResult', E, E), z3.Function('functionArg', E, I, E), z3.Function('withoutRequires', E, E)
    isf = kind(e) == K['FUNCTION_TYPE']
    nx = SR(d.cx(e, nch(e) - 1)) if hasattr(d, 'cx') else SR(z3.If(ch(e, nch(e) - 1) == NULLP, SNULL, ch(e, nch(e) - 1)))
    chx = lambda x, k: z3.If(ch(x, k) == NULLP, SNULL, ch(x, k))
    fnax = [Q([e], SR(e) == z3.If(kind(e) == K['EVAL_REQUIRES'], SR(chx(e, 2)), e), patterns=[SR(e)]),
            Q([e], FTN(e) == z3.If(isf, nch(e) - 1 + FTN(nx), 0), patterns=[FTN(e)]), Q([e], FTR(e) == z3.If(isf, FTR(nx), e), patterns=[FTR(e)]),
            Q([e, i], FTA(e, i) == z3.If(i < nch(e) - 1, chx(e, i), FTA(nx, i - (nch(e) - 1))), patterns=[FTA(e, i)])]

    def pr(c):
        r = N(c, c.result())
        return r.sort().accessor(0, 0)(r), r.sort().accessor(0, 1)(r)

    def ftpost(c):
        v, r = pr(c)
        me = N(c, c.selfv())
        yield 'the arguments of nested function types', z3.And(vlen(VX, v) == FTN(me), Q([i], z3.Implies(z3.And(0 <= i, i < vlen(VX, v)), S(acc(VX, 'arr', v), i) == FTA(me, i)), patterns=[S(acc(VX, 'arr', v), i)]))
        yield 'the final result type', r == FTR(me)

    def ftinv(cx, k):
        me = N(cx, cx.callctx().selfv())
        et, v = N(cx, cx.v('et', EX)), N(cx, cx.v('args', VX))
        va, n = acc(VX, 'arr', v), vlen(VX, v)
        yield 'result', FTR(me) == FTR(et)
        yield 'number of arguments', z3.And(FTN(me) == n - k + FTN(et), n >= k)
        yield 'the arguments so far', Q([i], z3.Implies(z3.And(0 <= i, i < n), S(va, i) == FTA(me, i)), patterns=[S(b_, i) for b_ in bases(va)] + [FTA(me, i)])
        yield 'the other arguments', Q([i], z3.Implies(i >= n - k, FTA(me, i) == FTA(et, i - (n - k))), patterns=[FTA(me, i)])
        yield 'not a null pointer', et != NULLP

    def ftloop1(cx):
        k = cx.v('i', SZ)
        et = cx.v('et', EX)
        yield 'range', z3.And(0 <= k, k <= nch(et) - 1)
        yield 'a function type', kind(et) == K['FUNCTION_TYPE']
        yield from ftinv(cx, k)

    def ftloop2(cx):
        me = N(cx, cx.callctx().selfv())
        et, v = N(cx, cx.v('et', EX)), N(cx, cx.v('args', VX))
        va, n = acc(VX, 'arr', v), vlen(VX, v)
        s_ = SR(et)
        yield 'result', FTR(me) == FTR(s_)
        yield 'number of arguments', FTN(me) == n + FTN(s_)
        yield 'the arguments so far', Q([i], z3.Implies(z3.And(0 <= i, i < n), S(va, i) == FTA(me, i)), patterns=[S(b_, i) for b_ in bases(va)] + [FTA(me, i)])
        yield 'the other arguments', Q([i], z3.Implies(i >= n, FTA(me, i) == FTA(s_, i - n)), patterns=[FTA(me, i)])
        yield 'not a null pointer', et != NULLP
    wf = [Q([e], z3.Implies(isf, nch(e) >= 2), patterns=[kind(e)]), Q([e], z3.Implies(kind(e) == K['EVAL_REQUIRES'], nch(e) == 3), patterns=[kind(e)])]
    out.append(Fn('ethos::Expr::getFunctionType', ftpost, given=lambda c: [c.selfv() != NULLP] + wf, axioms=ax + fnax, loops={0: lambda cx: ftinv(cx, 0), 1: ftloop1, 2: ftloop2},
                  assumes=asm + ['function types have an argument and a result, eo::requires has three arguments (well-typed)']))

    # ---- computeConstructorTermInternal
    def cctpost(c):
        r = c.result()
        yield 'not a null pointer', r != NULLP
        if not c.verifying:
            return
        ai, v = rec(c, 0), N(c, c.a(1))
        ct, at, n = acc(AI, 'd_attrConsTerm', ai), acc(AI, 'd_attrCons', ai), vlen(VX, v)
        par = z3.And(ct != SNULL, kind(ct) == K['PARAMETERIZED'])
        yield 'the declared constructor term', z3.Implies(z3.Not(par), r == ct)
        out_, a = N(c, G(c, 'gta_out', True)), acc(VX, 'arr', v)
        D, V = dv(out_)
        ps = N(c, chx(ct, 0))
        bound = lambda k: z3.And(S(D, ch(ps, k)), real(S(V, ch(ps, k))), z3.Not(nonground(S(V, ch(ps, k)))))
        allb = Q([j], z3.Implies(z3.And(0 <= j, j < nch(ps)), bound(j)), patterns=[ch(ps, j)])
        g_in, g_ch = N(c, G(c, 'gta_in', True)), N(c, G(c, 'gta_ch', True))
        yield 'parameters: unknown without arguments or for other attributes', z3.Implies(z3.And(par, z3.Or(n == 1, z3.Not(one(at, ASSOC + ['CHAINABLE', 'PAIRWISE', 'ARG_LIST'])))), r == SNULL)
        yield 'parameters: instantiated only if all of them are known', z3.Implies(z3.And(par, r != SNULL), allb)
        yield 'parameters: the constructor term under the inferred parameters', z3.Implies(z3.And(par, r != SNULL), z3.And(
            r == G(c, 'ev_res', True), G(c, 'ev_t', True) == ch(ct, 1), Q([e], z3.And(z3.Implies(S(D, e), S(dv(N(c, G(c, 'ev_ctx', True)))[1], e) == S(V, e))), patterns=[S(D, e)])))
        yield 'parameters: inferred from the first argument', z3.Implies(z3.And(par, r != SNULL), z3.And(
            vlen(VE, g_ch) == 2, S(acc(VE, 'arr', g_ch), 0) == S(a, 0), S(acc(VE, 'arr', g_ch), 1) == S(a, 1), Q([e], z3.Not(S(dv(g_in)[0], e)), patterns=[S(dv(g_in)[0], e)])))

    def cctgiven(c):
        ct = acc(AI, 'd_attrConsTerm', rec(c, 0))
        ps = N(c, chx(ct, 0))
        return [allreal(VX, c.a(1)), vlen(VX, c.a(1)) >= 1, c.objfield(c.this, 'd_null') == SNULL, ct != NULLP, z3.Implies(kind(ct) == K['PARAMETERIZED'], z3.And(
            nch(ct) == 2, real(ps), real(ch(ct, 1)), Q([j], z3.Implies(z3.And(0 <= j, j < nch(ps)), real(ch(ps, j))), patterns=[ch(ps, j)])))]

    def cctloop1(cx):
        yield 'nothing yet', z3.BoolVal(True)

    def cctloop2(cx):
        c = cx.callctx()
        ai = rec(c, 0)
        ct = acc(AI, 'd_attrConsTerm', ai)
        ps = N(cx, chx(ct, 0))
        k = cx.v('i', SZ)
        D, V = dv(N(c, G(c, 'gta_out', True)))
        D1, V1 = dv(N(cx, cx.v('tctx', ME)))
        yield 'range', z3.And(0 <= k, k <= nch(ps))
        yield 'the parameters so far are known', Q([j], z3.Implies(z3.And(0 <= j, j < k), z3.And(S(D, ch(ps, j)), real(S(V, ch(ps, j))), z3.Not(nonground(S(V, ch(ps, j)))))), patterns=[ch(ps, j)])
        yield 'the bindings', Q([e], z3.And(S(D1, e) == S(D, e), z3.Implies(S(D, e), S(V1, e) == S(V, e))), patterns=[S(D, e), S(D1, e)])
    FL = [('g', 'flag%d' % q) for q in range(3)]
    out.append(Fn('ethos::TypeChecker::computeConstructorTermInternal', cctpost, axioms=ax, assumes=asm, free=FL, loops={0: cctloop1, 1: cctloop2},
                  given=cctgiven,
                  mods=lambda c: tc + (touch(c, 'gt_e', 'gt_r', 'ev_t', 'ev_ctx', 'ev_res', 'gta_ch', 'gta_in', 'gta_out') if c.verifying else []),
                  ghosts=lambda c: (c.st.assume(CCT(rec(c, 0), N(c, c.a(1)), N(c, c.result()))), logs(c, cct_ai=rec(c, 0), cct_ch=c.a(1), cct_r=c.result()))[1]))

    # ---- getOverloadInternal
    NOFIT, FITS, TRY = z3.Function('doesNotFit', I, B), z3.Function('fits', I, E, B), z3.Function('tried', I, B)
    v_ = z3.Const('v!k', sort(VE))
    w_ = z3.Const('w!k', sort(VX))
    ai_ = z3.Const('ai!k', sort(AI))

    def odefs(c):
        """the candidate for overload i: the application of it to the arguments; it fits if it has a type, the one that is asked for"""
        ov, cs, ret = N(c, c.a(0)), N(c, c.a(1)), c.a(2)
        oa, ca, n = acc(VX, 'arr', ov), acc(VX, 'arr', cs), vlen(VX, cs)
        m = fI(c)
        hd = S(oa, i)
        args = z3.And(vlen(VE, v_) == n, S(acc(VE, 'arr', v_), 0) == hd, Q([j], z3.Implies(z3.And(1 <= j, j < n), S(acc(VE, 'arr', v_), j) == S(ca, j)), patterns=[S(acc(VE, 'arr', v_), j)]))
        info = z3.And(S(dom(APP, m), hd), ai_ == S(val(APP, m), hd))
        special = z3.And(info, CCT(ai_, cs, b), MAA(ai_, v_, b, x), args)
        plain = z3.And(z3.If(n > 2, CUR(K['APPLY'], x, hd, ca, 1, n), z3.And(kind(x) == K['APPLY'], nch(x) == n, ch(x, 0) == hd, z3.Implies(n == 2, ch(x, 1) == S(ca, 1)))))
        good = z3.And(t != SNULL, z3.Or(ret == NULLP, ret == t))
        rng = z3.And(0 <= i, i < vlen(VX, ov))
        res = []
        for goal, cond in ((NOFIT(i), z3.Not(good)), (FITS(i, x), good)):
            res.append(Q([i, x, t, b, v_, ai_], z3.Implies(z3.And(rng, special, x != SNULL, GTR(x, t), cond), goal), patterns=[so.MP(MAA(ai_, v_, b, x), GTR(x, t), TRY(i))]))
            res.append(Q([i, y, x, t, b, v_, ai_], z3.Implies(z3.And(rng, special, x == SNULL, plainof(y, n, hd, ca), GTR(y, t), cond), z3.substitute(goal, (x, y))), patterns=[so.MP(MAA(ai_, v_, b, x), GTR(y, t), TRY(i))]))
            res.append(Q([i, x, t], z3.Implies(z3.And(rng, z3.Not(S(dom(APP, m), hd)), plain, GTR(x, t), cond), goal), patterns=[so.MP(GTR(x, t), TRY(i))]))
        return res

    def plainof(x, n, hd, ca):
        return z3.If(n > 2, CUR(K['APPLY'], x, hd, ca, 1, n), z3.And(kind(x) == K['APPLY'], nch(x) == n, ch(x, 0) == hd, z3.Implies(n == 2, ch(x, 1) == S(ca, 1))))

    def opost(c):
        r = N(c, c.result())
        yield 'not a null pointer', r != NULLP
        if not c.verifying:
            return
        ov = N(c, c.a(0))
        n = vlen(VX, ov)
        later = lambda k: Q([i], z3.Implies(z3.And(k < i, i < n), NOFIT(i)), patterns=[NOFIT(i)])
        yield 'null if no overload fits', z3.Or(r != SNULL, later(z3.IntVal(-1)))
        yield 'the last overload that fits', z3.Or(r == SNULL, z3.Exists([i, x], z3.And(TRY(i), 0 <= i, i < n, FITS(i, x), z3.substitute(later(k0), (k0, i)) if False else Q([j], z3.Implies(z3.And(i < j, j < n), NOFIT(j)), patterns=[NOFIT(j)]),
                                                                                                  r == z3.If(c.a(3), x, S(acc(VX, 'arr', ov), i))), patterns=[so.MP(TRY(i), FITS(i, x))]))

    def copyloop(cx):
        cs = N(cx.callctx(), cx.callctx().a(1))
        v = cx.v('vchildren', VE)
        va, ca = acc(VE, 'arr', v), acc(VX, 'arr', cs)
        yield 'the terms so far', z3.And(vlen(VE, v) == cx.idx, Q([i], z3.Implies(z3.And(0 <= i, i < cx.idx), S(va, i) == S(ca, i)), patterns=[S(b_, i) for b_ in bases(va)] + [S(ca, i)]))

    def ovloop(cx):
        c = cx.callctx()
        ov, cs = N(c, c.a(0)), N(c, c.a(1))
        n = vlen(VX, ov)
        k = cx.v('i', SZ)
        v = cx.v('vchildren', VE)
        va, ca = acc(VE, 'arr', v), acc(VX, 'arr', cs)
        cx.st.assume(TRY(n - 1 - k))
        yield 'range', z3.And(0 <= k, k <= n)
        yield 'the overloads so far do not fit', Q([i], z3.Implies(z3.And(n - 1 - k < i, i < n), NOFIT(i)), patterns=[NOFIT(i)])
        yield 'the arguments', z3.And(vlen(VE, v) == vlen(VX, cs), Q([i], z3.Implies(z3.And(1 <= i, i < vlen(VX, cs)), S(va, i) == S(ca, i)), patterns=[S(b_, i) for b_ in bases(va)] + [S(ca, i)]))

    out.append(Fn('ethos::State::getOverloadInternal', opost, axioms=ax + curax + [CURL], assumes=asm, loops={0: copyloop, 1: ovloop},
                  given=lambda c: [allreal(VX, c.a(1)), allreal(VX, c.a(0)), vlen(VX, c.a(1)) >= 1, F(c, 'd_null') == SNULL, vlen(VX, c.a(0)) < 2 ** 32] + odefs(c),
                  mods=lambda c: tc + (touch(c, 'gt_e', 'gt_r', 'cct_ai', 'cct_ch', 'cct_r', 'maa_ai', 'maa_ch', 'maa_ct', 'maa_r') if c.verifying else []),
                  ghosts=lambda c: logs(c, goi_ov=c.a(0), goi_ch=c.a(1), goi_ret=c.a(2), goi_app=c.a(3), goi_r=c.result())))
    # ---- mkExpr
    FOLD = z3.Function('leftFold', I, z3.ArraySort(I, E), E, I, B)
    foldax = [Q([k_, x, y, t, a_, n_], z3.Implies(z3.And(MK2(k_, x, y, t), n_ == 2, x == S(a_, 0), y == S(a_, 1)), FOLD(k_, a_, t, n_)), patterns=[so.MP(MK2(k_, x, y, t), FOLD(k_, a_, t, n_))]),
              Q([k_, x, y, t, a_, n_, m_], z3.Implies(z3.And(FOLD(k_, a_, x, m_), MK2(k_, x, y, t), n_ == m_ + 1, m_ >= 2, y == S(a_, m_)), FOLD(k_, a_, t, n_)),
                patterns=[so.MP(FOLD(k_, a_, x, m_), MK2(k_, x, y, t), FOLD(k_, a_, t, n_))])]
    LITOPS = [v for k, v in K.items() if k.startswith('EVAL_')]
    litop = lambda k: z3.Or([k == v for v in LITOPS])
    nop = lambda k: z3.Or([k == K['EVAL_' + o] for o in NARY.split()])
    T = d.termspec

    def bare(c):
        """overload resolution, for an operator whose name was declared several times"""
        v = N(c, c.a(1))
        a, n = acc(VX, 'arr', v), vlen(VX, v)
        return c.a(0), v, a, n, S(a, 0), fI(c)

    def shifted(v, w, n, a, hi):
        """w is the vector of the terms a[1], ..., a[hi - 1]"""
        return z3.And(vlen(VX, w) == hi - 1, Q([i], z3.Implies(z3.And(0 <= i, i < hi - 1), S(acc(VX, 'arr', w), i) == S(a, i + 1)), patterns=[S(acc(VX, 'arr', w), i)]))

    def overloaded(c, x):
        m, o = fI(c), F(c, 'd_overloads')
        nm = A(m, x, 'd_overloadName')
        v = S(val(OV, o), nm)
        return z3.And(S(dom(APP, m), x), A(m, x, 'd_isOverloaded'), S(dom(OV, o), nm), S(acc(VX, 'arr', v), vlen(VX, v) - 1) == x), v

    def mpost(c):
        r = N(c, c.result())
        yield 'not null', real(r)
        if not c.verifying:
            return
        k, v, a, n, hd, m = bare(c)
        g = lambda nm: G(c, nm, True)
        same = lambda w: z3.And(vlen(VE, w) == n, Q([i], z3.Implies(z3.And(0 <= i, i < n), S(acc(VE, 'arr', w), i) == S(a, i)), patterns=[S(acc(VE, 'arr', w), i)]))
        asis = z3.And(kind(r) == k, nch(r) == n, Q([i], z3.Implies(z3.And(0 <= i, i < n), ch(r, i) == S(a, i)), patterns=[ch(r, i)]))
        info = S(dom(APP, m), hd)
        ai = S(val(APP, m), hd)
        bk = z3.If(info, acc(AI, 'd_kind', ai), K['NONE'])
        app = k == K['APPLY']
        blt = z3.And(app, bk != K['NONE'])
        mk = lambda: z3.And(r == g('mk_r'), g('mk_k') == bk)
        empty = z3.And(n == 1, z3.Or(bk == K['FUNCTION_TYPE'], bk == K['APPLY']))
        yield 'function types: the arguments and the result', z3.Implies(z3.And(blt, bk == K['FUNCTION_TYPE'], n >= 2), z3.And(r == g('mft_r'), g('mft_ret') == S(a, n - 1), shifted(v, N(c, g('mft_args')), n, a, n - 1)))
        yield '_: curried application of the arguments', z3.Implies(z3.And(blt, bk == K['APPLY'], n > 3), CUR(K['APPLY'], r, S(a, 1), a, 2, n))
        yield '_: application of at most one argument', z3.Implies(z3.And(blt, bk == K['APPLY'], n > 1, n <= 3), z3.And(kind(r) == K['APPLY'], nch(r) == n - 1, Q([i], z3.Implies(z3.And(0 <= i, i < n - 1), ch(r, i) == S(a, i + 1)), patterns=[ch(r, i)])))
        yield 'other builtin operators: a term of their kind', z3.Implies(z3.And(blt, bk != K['FUNCTION_TYPE'], bk != K['APPLY']), z3.And(mk(), shifted(v, N(c, g('mk_ch')), n, a, n)))
        yield 'no arguments', z3.Implies(z3.And(blt, empty), asis)
        plain = z3.And(app, bk == K['NONE'])
        isov, ov = overloaded(c, hd)
        yield 'overloaded symbols are resolved', z3.Implies(z3.And(plain, isov), z3.And(
            eqvec(VX, N(c, g('goi_ov')), N(c, ov)), eqvec(VX, N(c, g('goi_ch')), v), g('goi_ret') == NULLP, g('goi_app'), z3.Implies(g('goi_r') != SNULL, r == g('goi_r'))))
        rest = z3.And(plain, z3.Not(z3.And(isov, g('goi_r') != SNULL)))
        yield 'attributes: desugaring', z3.Implies(z3.And(rest, info), z3.And(
            g('cct_ai') == ai, eqvec(VX, N(c, g('cct_ch')), v), g('maa_ai') == ai, same(N(c, g('maa_ch'))), g('maa_ct') == g('cct_r'), z3.Implies(g('maa_r') != SNULL, r == g('maa_r'))))
        rest = z3.And(rest, z3.Not(z3.And(info, g('maa_r') != SNULL)))
        # lambda
        vs = N(c, chx(hd, 0))
        vch, nv = N(c, acc(VE, 'arr', d.chs(vs))), nch(vs)
        beta = z3.And(rest, kind(hd) == K['LAMBDA'], nv == n - 1)
        ed, ev = dv(N(c, g('ev_ctx')))
        li = T.last(vch, nv, e)
        yield 'lambdas are applied', z3.Implies(beta, z3.And(r == g('ev_res'), g('ev_t') == ch(hd, 1)))
        yield 'lambdas: each variable is bound to its argument', z3.Implies(beta, Q([e], z3.And(S(ed, e) == (li >= 0), z3.Implies(li >= 0, S(ev, e) == S(a, li + 1))), patterns=[S(ed, e), li]))
        # programs
        at = z3.If(info, acc(AI, 'd_attrCons', ai), ATTR['NONE'])
        prog = z3.And(rest, kind(hd) == K['PROGRAM_CONST'], at != ATTR['NONE'])
        called = z3.And(prog, nch(g('gt_r')) == n)
        yield 'programs: the type gives the number of arguments', z3.Implies(prog, g('gt_e') == hd)
        run = z3.And(called, g('epi_r') != SNULL)
        yield 'programs are applied to the arguments', z3.Implies(called, z3.And(same(N(c, g('epi_ch'))), Q([e], z3.Not(S(dv(N(c, g('epi_in')))[0], e)), patterns=[S(dv(N(c, g('epi_in')))[0], e)])))
        yield 'programs: the value of the matching case', z3.Implies(run, z3.And(r == g('ev_res'), g('ev_t') == g('epi_r'), g('ev_ctx') == g('epi_out')))
        left = z3.And(rest, z3.Not(z3.And(kind(hd) == K['LAMBDA'], nv == n - 1)), z3.Not(run))
        cu = z3.And(left, n > 2, kind(hd) != K['PROGRAM_CONST'], kind(hd) != K['PROOF_RULE'])
        yield 'other applications are curried', z3.Implies(cu, CUR(K['APPLY'], r, hd, a, 1, n))
        yield 'the application as it is', z3.Implies(z3.And(left, z3.Not(cu)), asis)
        # operators
        op = z3.And(k != K['APPLY'], litop(k))
        yield 'n-ary operators associate to the left', z3.Implies(z3.And(op, nop(k), n > 2), FOLD(k, a, r, n))
        one_ = z3.And(op, z3.Not(z3.And(nop(k), n > 2)))
        yield 'operators are evaluated', z3.Implies(z3.And(one_, arity(K, k, n)), z3.And(r == g('elo_r'), g('elo_k') == k, same(N(c, g('elo_ch')))))
        yield 'operators with the wrong number of arguments are not', z3.Implies(z3.And(one_, z3.Not(arity(K, k, n))), asis)
        # as
        amb = z3.And(k == K['AS_RETURN'], n == 2, info, one(acc(AI, 'd_attrCons', ai), ['AMB', 'AMB_DATATYPE_CONSTRUCTOR']))
        mch = N(c, g('mk_ch'))
        yield 'as: the type argument of an ambiguous constructor', z3.Implies(amb, z3.And(r == g('mk_r'), g('mk_k') == K['APPLY_OPAQUE'], vlen(VX, mch) == 2, S(acc(VX, 'arr', mch), 0) == hd, S(acc(VX, 'arr', mch), 1) == S(a, 1)))
        as_ = z3.And(k == K['AS'], n == 2)
        ty = S(a, 1)
        gov, gch = N(c, g('goi_ov')), N(c, g('goi_ch'))
        ga = acc(VX, 'arr', gch)
        yield 'as: among the declarations of the symbol', z3.Implies(as_, z3.And(g('goi_ret') == FTR(ty), z3.Not(g('goi_app')), z3.If(isov, eqvec(VX, gov, N(c, ov)), z3.And(vlen(VX, gov) == 1, S(acc(VX, 'arr', gov), 0) == hd))))
        yield 'as: applied to arguments of the types that are asked for', z3.Implies(as_, z3.And(vlen(VX, gch) == 1 + FTN(ty), Q([i], z3.Implies(z3.And(1 <= i, i < vlen(VX, gch)), TMP(S(ga, i), K['CONST'], FTA(ty, i - 1))), patterns=[S(ga, i)])))
        yield 'as: the declaration that fits', z3.Implies(z3.And(as_, g('goi_r') != SNULL), r == g('goi_r'))
        yield 'otherwise the term as it is', z3.Implies(z3.Or(z3.And(as_, g('goi_r') == SNULL), z3.And(k != K['APPLY'], z3.Not(litop(k)), z3.Not(amb), z3.Not(as_))), asis)

    def betaloop(cx):
        c = cx.callctx()
        k, v, a, n, hd, m = bare(c)
        vs = N(cx, chx(hd, 0))
        vch = N(cx, acc(VE, 'arr', d.chs(vs)))
        p = cx.v('i', SZ)
        D, V = dv(N(cx, cx.v('ctx', ME)))
        li = T.last(vch, p, e)
        yield 'range', z3.And(0 <= p, p <= nch(vs))
        yield 'the variables so far', Q([e], z3.And(S(D, e) == (li >= 0), z3.Implies(li >= 0, S(V, e) == S(a, li + 1))), patterns=[S(D, e), li])

    def foldloop(cx):
        c = cx.callctx()
        k, v, a, n, hd, m = bare(c)
        p, cr, cc = cx.v('i', SZ), cx.v('curr', EX), cx.v('cc', VX)
        cx.st.assume(z3.Or(FOLD(k, a, cr, p + 1), True))
        yield 'range', z3.And(2 <= p, p <= n)
        yield 'two terms', vlen(VX, cc) == 2
        yield 'not null', real(cr)
        yield 'the arguments so far', FOLD(k, a, cr, p)

    def asloop(cx):
        c = cx.callctx()
        k, v, a, n, hd, m = bare(c)
        w = cx.v('dummyChildren', VX)
        wa = acc(VX, 'arr', w)
        yield 'the arguments so far', z3.And(vlen(VX, w) == 1 + cx.idx, Q([i], z3.Implies(z3.And(1 <= i, i < 1 + cx.idx), z3.And(real(S(wa, i)), TMP(S(wa, i), K['CONST'], FTA(S(a, 1), i - 1)))), patterns=[S(b_, i) for b_ in bases(wa)]))

    def mgiven(c):
        k, v, a, n, hd, m = bare(c)
        o = F(c, 'd_overloads')
        nm = z3.Const('nm!k', sort(STR))
        return [allreal(VX, v), z3.Implies(k == K['APPLY'], n >= 1), F(c, 'd_null') == SNULL, n < 2 ** 32, Q([nm], z3.Implies(S(dom(OV, o), nm), vlen(VX, S(val(OV, o), nm)) >= 1), patterns=[S(dom(OV, o), nm)]),
                z3.Implies(kind(hd) == K['LAMBDA'], z3.And(nch(hd) == 2, real(ch(hd, 0)), real(ch(hd, 1))))] + wf

    out.append(Fn('ethos::State::mkExpr', mpost, given=mgiven, axioms=ax + curax + T.axioms + [CURL] + foldax, assumes=asm, loops={0: copyloop, 1: betaloop, 2: foldloop, 3: asloop},
                  mods=lambda c: tc + (touch(c, *[g_ for g_ in LOGS]) if c.verifying else []),
                  ghosts=lambda c: mkgh(c)))

    def mkgh(c):
        v = N(c, c.a(1))
        va = acc(VX, 'arr', v)
        c.st.assume(z3.Implies(vlen(VX, v) == 2, MK2(c.a(0), S(va, 0), S(va, 1), N(c, c.result()))))
        return logs(c, mk_k=c.a(0), mk_ch=c.a(1), mk_r=c.result())
    return out
