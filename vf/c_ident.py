"""Term identity (B01): hash consing of terms and literals."""
import z3
from . import sorts as so
from . import trie as tr
from .sorts import acc, mk, sort, vlen, I, B, E, NULLP, SNULL
from .domain import kind, VE, EV, birth
from .c_state import Fn, F, st, EX, VX, S, Q, N, dom, val, GT, touch, ghost

GT.update(now=('mpz',))
# table -> type of the keys, kind of the terms, field of the literal
TAB = {'d_litIntMap': ('Integer', 'NUMERAL', 'd_int'), 'd_litRatMap[0]': ('Rational', 'DECIMAL', 'd_rat'), 'd_litRatMap[1]': ('Rational', 'RATIONAL', 'd_rat'),
       'd_litBvMap[0]': ('BitVector', 'HEXADECIMAL', 'd_bv'), 'd_litBvMap[1]': ('BitVector', 'BINARY', 'd_bv'), 'd_litStrMap': ('String', 'STRING', 'd_str')}
TN, sub, par, below = tr.TN, tr.sub, tr.par, tr.below


def contracts(d):
    K = d.K
    out = []
    LIT = d.LIT
    fld = lambda f, v: acc(LIT, f, v)
    i, j = z3.Ints('i!i j!i')
    n, m = z3.Consts('n!i m!i', TN)
    e = z3.Const('e!i', E)
    nul = Q([e], z3.Implies(kind(e) == K['NONE'], e == SNULL), patterns=[kind(e)])

    def table(c, nm, new=False):
        s = c.st if (new or c.old is None) else c.old
        r, ct = ('o', 'State', nm), ('map', ('cls', TAB[nm][0]), EX)
        if r not in s.store:
            c.ex.vct[r] = ct
            v = z3.Const('State.%s' % nm, sort(ct))
            c.ex.init_vals.setdefault(r, v)
            s.store[r] = c.ex.init_vals[r]
        from .c_state import name
        return ct, name(c.ex, s, r, s.store[r])

    def now(c, new=False):
        return ghost(c.ex, c.st if (new or c.old is None) else c.old, 'now', ('mpz',))

    def tabinv(c, new=False):
        for nm, (_, k, f) in TAB.items():
            ct, t = table(c, nm, new)
            q = z3.Const('q!i' + nm, sort(ct[1]))
            x = S(val(ct, t), q)
            yield nm, Q([q], z3.Implies(S(dom(ct, t), q), z3.And(x != NULLP, x != SNULL, kind(x) == K[k], fld(f, d.litval(x)) == q, birth(x) < now(c, new))), patterns=[x])

    def consts(c):
        t, f = F(c, 'd_true'), F(c, 'd_false')
        return [kind(t) == K['BOOLEAN'], kind(f) == K['BOOLEAN'], fld('d_bool', d.litval(t)), z3.Not(fld('d_bool', d.litval(f))), *[z3.And(x != NULLP, x != SNULL) for x in (t, f)]]

    def lpost(c):
        l, r = c.a(0), c.result()
        kd = fld('d_kind', l)
        yield 'a term', z3.And(r != NULLP, r != SNULL, kind(r) == kd)
        yield 'Boolean', z3.Implies(kd == K['BOOLEAN'], z3.And(fld('d_bool', d.litval(r)) == fld('d_bool', l), r == z3.If(fld('d_bool', l), F(c, 'd_true'), F(c, 'd_false'))))
        for nm, (_, k, f) in TAB.items():
            ct, t0 = table(c, nm)
            _, t1 = table(c, nm, True)
            mine = kd == K[k]
            key = fld(f, l)
            q = z3.Const('q!i' + nm, sort(ct[1]))
            yield nm + ': the term has the value', z3.Implies(mine, fld(f, d.litval(r)) == key)
            yield nm + ': the term is the one with this value', z3.Implies(mine, z3.And(S(dom(ct, t1), key), S(val(ct, t1), key) == r))
            yield nm + ': an existing term is reused', z3.Implies(z3.And(mine, S(dom(ct, t0), key)), r == S(val(ct, t0), key))
            yield nm + ': a new term is new', z3.Implies(z3.And(mine, z3.Not(S(dom(ct, t0), key))), birth(r) >= now(c))
            yield nm + ': other literals are kept', Q([q], z3.Implies(z3.Or(z3.Not(mine), q != key), z3.And(S(dom(ct, t1), q) == S(dom(ct, t0), q), z3.Implies(S(dom(ct, t0), q), S(val(ct, t1), q) == S(val(ct, t0), q)))),
                                                      patterns=[S(dom(ct, t1), q), S(val(ct, t1), q)])
        for nm, g in tabinv(c, True):
            yield 'data invariant: ' + nm, g
    FL = [('g', 'flag%d' % x) for x in range(3)] + [('g', 'rc')]
    STATS = [('o', 'Stats', x) for x in ('d_mkExprCount', 'd_exprCount', 'd_litCount', 'd_symCount')]
    for f in ('ethos::Expr::Expr',):
        pass
    out.append(Fn('ethos::State::mkLiteralInternal', lpost, given=lambda c: [g for _, g in tabinv(c)] + consts(c), free=FL, axioms=[nul],
                  mods=lambda c: [('o', 'State', x) for x in TAB] + STATS + touch(c, 'now'),
                  assumes=['hash tables compare keys with operator==, which is equality of the values', 'only the null term has kind NONE']))

    # ---- the trie
    D_, P_, Z_ = 'tdata', 'tpres', 'tsize'
    path = z3.Function('pathNode', TN, z3.ArraySort(I, E), I, TN)
    depth, rootk, elem = z3.Function('depthOf', TN, I), z3.Function('rootOf', TN, I), z3.Function('elemAt', TN, I, E)
    AIE = z3.ArraySort(I, E)
    r0, a0 = z3.Const('r!i', TN), z3.Const('a!i', AIE)
    k, x = z3.Ints('k!i x!i')
    pax = [Q([r0, a0], path(r0, a0, 0) == r0, patterns=[path(r0, a0, 0)]),
           Q([r0, a0, i], z3.Implies(i > 0, path(r0, a0, i) == sub(path(r0, a0, i - 1), S(a0, i - 1))), patterns=[path(r0, a0, i)]),
           Q([n, e], z3.And(depth(sub(n, e)) == depth(n) + 1, rootk(sub(n, e)) == rootk(n)), patterns=[sub(n, e)]),
           Q([n, e, x], elem(sub(n, e), x) == z3.If(x == depth(n), e, elem(n, x)), patterns=[elem(sub(n, e), x)]),
           Q([k], z3.And(depth(tr.root(k)) == 0, rootk(tr.root(k)) == k), patterns=[tr.root(k)]),
           Q([n], z3.Implies(tr.isroot(n), n == tr.root(rootk(n))), patterns=[tr.isroot(n)])]
    base = tr.axioms() + pax
    # lemmas, by induction on the length
    L1 = lambda i: depth(path(r0, a0, i)) == depth(r0) + i
    L2 = lambda i: rootk(path(r0, a0, i)) == rootk(r0)
    L3 = lambda i: z3.Implies(depth(r0) == 0, Q([x], z3.Implies(z3.And(0 <= x, x < i), elem(path(r0, a0, i), x) == S(a0, x)), patterns=[elem(path(r0, a0, i), x)]))
    lem = []
    for nm, L, kw in (('depth of a path', L1, []), ('root of a path', L2, []), ('elements of a path', L3, [Q([r0, a0, i], z3.Implies(i >= 0, L1(i)), patterns=[path(r0, a0, i)])])):
        d.lemma_obs.append((nm + ' (base)', [], L(z3.IntVal(0)), base + kw))
        d.lemma_obs.append((nm + ' (step)', [i >= 0, L(i)], L(i + 1), base + kw))
    lem = [Q([r0, a0, i], z3.Implies(i >= 0, z3.And(L1(i), L2(i))), patterns=[path(r0, a0, i)]),
           Q([r0, a0, i, x], z3.Implies(z3.And(depth(r0) == 0, 0 <= x, x < i), elem(path(r0, a0, i), x) == S(a0, x)), patterns=[elem(path(r0, a0, i), x)])]
    # below implies deeper, by induction on the descendant
    LB = lambda m: Q([n], z3.Implies(below(n, m), depth(m) >= depth(n)), patterns=[below(n, m)])
    d.lemma_obs.append(('below is deeper (root)', [], LB(tr.root(k)), base))
    d.lemma_obs.append(('below is deeper (child)', [LB(m)], LB(sub(m, e)), base))
    lem.append(Q([n, m], z3.Implies(below(n, m), depth(m) >= depth(n)), patterns=[below(n, m)]))
    TA = base + lem
    arr = lambda c, nm, new=False: tr.arr(d, c.ex, c.st if (new or getattr(c, 'old', None) is None) else c.old, nm)
    TM = [('g', y) for y in (D_, P_, Z_)]
    f_ = z3.Const('f!i', E)

    def lib(P, Z):
        """std::map: size() is the number of members"""
        return [Q([n, e], z3.Implies(S(P, sub(n, e)), S(Z, n) >= 1), patterns=[S(P, sub(n, e))]),
                Q([n, e, f_], z3.Implies(z3.And(S(Z, n) == 1, S(P, sub(n, e)), S(P, sub(n, f_))), e == f_), patterns=[z3.MultiPattern(S(P, sub(n, e)), S(P, sub(n, f_)))])]

    def triewf(D, P):
        c1 = sub(n, e)
        return [('nodes hang below present nodes', Q([n, e], z3.Implies(S(P, c1), z3.Or(S(P, n), tr.isroot(n))), patterns=[S(P, c1)])),
                ('no data at absent nodes', Q([n, e], z3.Implies(z3.Not(S(P, c1)), S(D, c1) == NULLP), patterns=[S(D, c1), S(P, c1)]))]

    def self_(c):
        t = c.thislv()
        return t if z3.is_expr(t) else t.root[1]

    def tmods(c):
        for y in (D_, P_, Z_):
            tr.arr(d, c.ex, c.st, y)
        return TM
    wfpre = lambda c: triewf(arr(c, D_), arr(c, P_)) + [('the node is present', z3.Or(tr.isroot(self_(c)), S(arr(c, P_), self_(c))))]
    lib0 = lambda c: lib(arr(c, P_), arr(c, Z_))

    def gpost(c):
        v = N(c, c.a(0))
        a, ln = acc(VE, 'arr', v), vlen(VE, v)
        D0, D1, P1 = arr(c, D_), arr(c, D_, True), arr(c, P_, True)
        yield 'the node at the end of the path', c.result() == path(self_(c), a, ln)
        yield 'the node is present', z3.Implies(ln > 0, S(P1, path(self_(c), a, ln)))
        yield 'the data is kept', Q([n], S(D1, n) == S(D0, n), patterns=[S(D1, n), S(D0, n)])
        yield from triewf(D1, P1)

    def gloop(cx):
        t = cx.v('et', tr.PT)
        v = cx.at_entry('children', VE)
        D0, D1, P1 = tr.arr(d, cx.ex, cx.entry, D_), *(tr.arr(d, cx.ex, cx.st, y) for y in (D_, P_))
        th = cx.at_entry('et', tr.PT)
        yield 'the node so far', t == path(th, acc(VE, 'arr', v), cx.idx)
        yield 'present so far', z3.Or(z3.And(cx.idx == 0, tr.isroot(t)), S(P1, t))
        yield 'the data is kept', Q([n], S(D1, n) == S(D0, n), patterns=[S(D1, n), S(D0, n)])
        yield from triewf(D1, P1)
    out.append(Fn('ethos::ExprTrie::get', gpost, given=lib0, pre=wfpre, axioms=TA, mods=tmods, loops={'range children': gloop}))

    # ---- removal
    seen = z3.Function('seenNode', TN, B)
    Phi = z3.Function('onThePath', TN, B)

    def rgiven(c):
        v = N(c, c.a(0))
        p = path(self_(c), acc(VE, 'arr', v), j)
        return lib0(c) + [Q([j], z3.Implies(z3.And(0 < j, j <= vlen(VE, v)), S(arr(c, P_), p)), patterns=[p])]

    def rpost(c):
        v = N(c, c.a(0))
        t = path(self_(c), acc(VE, 'arr', v), vlen(VE, v))
        D0, D1, P1 = arr(c, D_), arr(c, D_, True), arr(c, P_, True)
        yield 'the data of the node is removed', S(D1, t) == NULLP
        for w, vs, x_ in (('', [n, e], sub(n, e)), (' (roots)', [k], tr.root(k))):
            yield 'all other data is kept' + w, Q(vs, z3.Implies(x_ != t, S(D1, x_) == S(D0, x_)), patterns=[S(D1, x_), S(D0, x_)])
        # nodes are finite paths
        c.st.assume(Q([n], z3.Or(n == tr.TNULL, n == tr.root(rootk(n)), n == sub(par(n), tr.el(n))), patterns=[S(D1, n)]))
        yield 'all other data is kept (all nodes)', Q([n], z3.Implies(z3.And(n != t, n != tr.TNULL), S(D1, n) == S(D0, n)), patterns=[S(D1, n), S(D0, n)])
        yield from triewf(D1, P1)

    def rloop(cx):
        t, td, it = cx.v('et', tr.PT), cx.v('etd', tr.PT), cx.v('itetd', tr.PT)
        v = cx.at_entry('children', VE)
        a, ln = acc(VE, 'arr', v), vlen(VE, v)
        th = cx.at_entry('et', tr.PT)
        D, P, Z = (tr.arr(d, cx.ex, cx.st, y) for y in (D_, P_, Z_))
        dd = depth(td) - depth(th)
        cx.st.assume(z3.And(lib(P, Z)))
        onp = z3.Implies(z3.And(below(it, m), S(P, m)), z3.And(m == path(th, a, depth(m) - depth(th)), depth(m) - depth(th) <= ln))
        cx.st.assume(Q([m], Phi(m) == onp, patterns=[Phi(m), below(it, m)]))
        cx.st.assume(Q([m], z3.And(seen(path(th, a, depth(m) - depth(th) + 1)), seen(path(th, a, depth(m) - depth(th)))), patterns=[Phi(m)]))
        # nodes are finite paths
        cx.st.assume(z3.Implies(z3.And(Q([m, e], z3.Implies(Phi(m), Phi(sub(m, e))), patterns=[Phi(sub(m, e))]), Q([k], Phi(tr.root(k)), patterns=[tr.root(k)])), Q([m], Phi(m), patterns=[Phi(m)])))
        p = path(th, a, j)
        yield 'the node so far', t == path(th, a, cx.idx)
        yield 'a candidate is found at once', z3.Implies(td == tr.TNULL, cx.idx == 0)
        yield 'the candidate is on the path', z3.Implies(td != tr.TNULL, z3.And(0 <= dd, dd < cx.idx, td == path(th, a, dd), it == path(th, a, dd + 1)))
        yield 'nothing else below the candidate', z3.Implies(td != tr.TNULL, Q([j], z3.Implies(z3.And(dd < j, j < cx.idx), z3.And(S(D, p) == NULLP, S(Z, p) <= 1)), patterns=[p]))
    out.append(Fn('ethos::ExprTrie::remove', rpost, given=rgiven, pre=wfpre, axioms=TA, mods=tmods, loops={'range children': rloop}))

    # ---- hash consing of terms
    xroot = lambda kd: tr.root(kd)
    node = lambda x: path(xroot(kind(x)), acc(VE, 'arr', d.chs(x)), vlen(VE, d.chs(x)))

    def reg(D, nw):
        """what is stored at a node is the term with this kind and these children"""
        y = S(D, n)
        return [('terms are stored at their node', Q([n], z3.Implies(y != NULLP, z3.And(n == node(y), y != SNULL, birth(y) < nw, vlen(VE, d.chs(y)) >= 0)), patterns=[y]))]

    d.ident = dict(table=table, TAB=TAB, arr=arr, path=path, node=node, xroot=xroot, reg=reg, triewf=triewf, lib0=lib0, TA=TA, now=now, tmods=tmods, D=D_, P=P_)

    def mgiven(c):
        return lib0(c) + [g for _, g in triewf(arr(c, D_), arr(c, P_)) + reg(arr(c, D_), now(c))]

    def mpost(c):
        v, r = N(c, c.a(1)), N(c, c.result())
        a, ln = acc(VE, 'arr', v), vlen(VE, v)
        D0, D1, P1 = arr(c, D_), arr(c, D_, True), arr(c, P_, True)
        t = path(xroot(c.a(0)), a, ln)
        cr = acc(VE, 'arr', d.chs(r))
        c.st.assume(z3.Or(t == node(r), t != node(r)))
        yield 'a term', z3.And(r != NULLP, r != SNULL)
        yield 'of this kind', kind(r) == c.a(0)
        yield 'with these children', z3.And(vlen(VE, d.chs(r)) == ln, Q([j], z3.Implies(z3.And(0 <= j, j < ln), S(cr, j) == S(a, j)), patterns=[S(cr, j), S(a, j)]))
        yield 'an existing term is reused', z3.Implies(S(D0, t) != NULLP, r == S(D0, t))
        yield 'the term is the one with this kind and these children', S(D1, t) == r
        yield 'a new term is new', z3.Implies(S(D0, t) == NULLP, birth(r) >= now(c))
        yield 'other terms are kept', Q([n], z3.Implies(n != t, S(D1, n) == S(D0, n)), patterns=[S(D1, n), S(D0, n)])
        for nm, g in triewf(D1, P1) + reg(D1, now(c, True)):
            yield 'data invariant: ' + nm, g
    el_ = z3.Const('q!m', E)
    axm = [Q([el_, x], z3.Implies(z3.And(0 <= x, x < vlen(VE, d.chs(el_))), elem(node(el_), x) == S(acc(VE, 'arr', d.chs(el_)), x)), patterns=[S(acc(VE, 'arr', d.chs(el_)), x)])]
    d.lemma_obs.append(('children are the elements of the path', [], axm[0], TA))
    d.ident['AX'] = TA + axm
    out.append(Fn('ethos::State::mkExprInternal', mpost, given=mgiven, axioms=TA + axm, free=FL, loops={'in ethos::ExprValue::ExprValue': lambda cx: []},
                  mods=lambda c: tmods(c) + STATS + touch(c, 'now'),
                  assumes=['std::map::size is the number of members', 'the trie is written by mkExprInternal and markDeleted only (checked syntactically)']))
    return out
