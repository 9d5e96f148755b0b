"""Literal::evaluate: the semantics of the operators on literals."""
import z3
from . import sorts as so
from .sorts import acc, mk, sort, vlen, I, B, R, E
from .symex import Contract
from .c_util import (Def, Rel, Trusted, bv, bsize, bval, wf_bv, BV, ST, ARITH, lemma, strparse, ediv, emod)
from .stdlib import pow2, iand, ior, ixor
from .domain import kind, VE

U = 2 ** 32


class LitSpec:
    """specification functions over the argument vector of a literal operator"""
    def __init__(self, d):
        self.d = d
        K = self.K = d.K
        V = sort(VE)
        self.V = V
        F = z3.Function
        self.fb = F('foldBool', I, V, I, B)
        self.fi = F('foldInt', I, V, I, I)
        self.fr = F('foldRat', I, V, I, R)
        self.fv = F('foldBv', I, V, I, I)
        self.fw = F('sumWidth', V, I, I)
        self.fo = F('sumLength', V, I, I)
        k, i, j = z3.Ints('k!l i!l j!l')
        a = z3.Const('a!l', V)
        A = lambda i: z3.Select(acc(VE, 'arr', a), i)
        self.at = lambda v, i: z3.Select(acc(VE, 'arr', v), i)
        b, n, r, v, s = [lambda e, f=f: d.lit(e, f) for f in ('d_bool', 'd_int', 'd_rat', 'd_bv', 'd_str')]
        self.b, self.n, self.r, self.v, self.s = b, n, r, v, s
        fb, fi, fr, fv, fw, fo = self.fb, self.fi, self.fr, self.fv, self.fw, self.fo
        Q = z3.ForAll
        ax = []
        ax.append(Q([k, a], fb(k, a, 1) == b(A(0)), patterns=[fb(k, a, 1)]))
        ax.append(Q([k, a], fi(k, a, 1) == n(A(0)), patterns=[fi(k, a, 1)]))
        ax.append(Q([k, a], fr(k, a, 1) == r(A(0)), patterns=[fr(k, a, 1)]))
        ax.append(Q([k, a], fv(k, a, 1) == bval(v(A(0))), patterns=[fv(k, a, 1)]))
        ax.append(Q([a], fw(a, 1) == bsize(v(A(0))), patterns=[fw(a, 1)]))
        ax.append(Q([a], fo(a, 0) == 0, patterns=[fo(a, 0)]))
        ax.append(Q([a], fo(a, 1) == vlen(ST, s(A(0))), patterns=[fo(a, 1)]))
        AND, OR, XOR, ADD, MUL, CONCAT = [K['EVAL_' + x] for x in ('AND', 'OR', 'XOR', 'ADD', 'MUL', 'CONCAT')]

        def step(f, body):
            ax.append(Q([k, a, i], z3.Implies(i >= 1, f(k, a, i + 1) == body), patterns=[f(k, a, i + 1)]))
        x, y = fb(k, a, i), b(A(i))
        step(fb, z3.If(k == AND, z3.And(x, y), z3.If(k == OR, z3.Or(x, y), z3.Xor(x, y))))
        step(fi, z3.If(k == ADD, fi(k, a, i) + n(A(i)), fi(k, a, i) * n(A(i))))
        step(fr, z3.If(k == ADD, fr(k, a, i) + r(A(i)), fr(k, a, i) * r(A(i))))
        x, y, w = fv(k, a, i), bval(v(A(i))), pow2(bsize(v(A(0))))
        step(fv, z3.If(k == AND, iand(x, y) % w, z3.If(k == OR, ior(x, y) % w, z3.If(k == XOR, ixor(x, y) % w, z3.If(
            k == ADD, (x + y) % w, z3.If(k == MUL, (x * y) % w, (x * pow2(bsize(v(A(i)))) + y) % pow2(fw(a, i + 1))))))))
        ax.append(Q([a, i], z3.Implies(i >= 1, fw(a, i + 1) == fw(a, i) + bsize(v(A(i)))), patterns=[fw(a, i + 1)]))
        ax.append(Q([a, i], z3.Implies(i >= 0, fo(a, i + 1) == fo(a, i) + vlen(ST, s(A(i)))), patterns=[fo(a, i + 1)]))
        self.axioms = ax
        # sums of non-negative numbers are monotone (by induction; see induction())
        W = self.wfall = F('allWellFormed', V, B)
        ax.append(Q([a, i], z3.Implies(W(a), z3.And(wf_bv(v(A(i))), vlen(ST, s(A(i))) >= 0, vlen(ST, s(A(i))) < U)),
                    patterns=[so.MP(W(a), A(i))]))
        self.mono = [
            Q([a, i, j], z3.Implies(z3.And(W(a), 1 <= i, i < j), fw(a, i) + bsize(v(A(i))) <= fw(a, j)),
              patterns=[so.MP(fw(a, i), fw(a, j))]),
            Q([a, i, j], z3.Implies(z3.And(W(a), 0 <= i, i < j), fo(a, i) + vlen(ST, s(A(i))) <= fo(a, j)),
              patterns=[so.MP(fo(a, i), fo(a, j))]),
        ]

    def induction(self):
        """(name, hypotheses, goal): base and step of the inductive lemmas"""
        a = z3.Const('a!c', self.V)
        i, j = z3.Ints('i!c j!c')
        fw, fo, at, W = self.fw, self.fo, self.at, self.wfall
        wi, wj = bsize(self.v(at(a, i))), bsize(self.v(at(a, j)))
        si, sj = vlen(ST, self.s(at(a, i))), vlen(ST, self.s(at(a, j)))
        h = [W(a)]
        return [('sumWidth is monotone, base', h + [1 <= i, j == i + 1], fw(a, i) + wi <= fw(a, i + 1)),
                ('sumWidth is monotone, step', h + [1 <= i, i < j, fw(a, i) + wi <= fw(a, j), wf_bv(self.v(at(a, j)))], fw(a, i) + wi <= fw(a, j + 1)),
                ('sumLength is monotone, base', h + [0 <= i, j == i + 1], fo(a, i) + si <= fo(a, i + 1)),
                ('sumLength is monotone, step', h + [0 <= i, i < j, fo(a, i) + si <= fo(a, j), sj >= 0], fo(a, i) + si <= fo(a, j + 1))]


def contracts(d):
    S = LitSpec(d)
    d.litspec = S
    d.lemma_obs += [(n, h, g, d.axioms + d.qf_axioms + ARITH + S.axioms) for n, h, g in S.induction()]
    K = d.K
    V = S.V
    out = []
    j, p, i = z3.Ints('j!q p!q i!q')
    LIT = d.LIT
    rf = lambda r, f: acc(LIT, f, r)

    def samekind(a, upto=None):
        n = vlen(VE, a) if upto is None else upto
        return z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n), kind(S.at(a, p)) == kind(S.at(a, 0))), patterns=[S.at(a, p)])

    def samewidth(a, upto=None):
        n = vlen(VE, a) if upto is None else upto
        return z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n), bsize(S.v(S.at(a, p))) == bsize(S.v(S.at(a, 0)))), patterns=[S.at(a, p)])

    def lits(a):
        return z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < vlen(VE, a)), z3.And(
            z3.Or([kind(S.at(a, p)) == c for c in d.litkinds]))), patterns=[S.at(a, p)])

    def wf(a):
        return z3.ForAll([p], z3.And(wf_bv(S.v(S.at(a, p))), 0 <= vlen(ST, S.s(S.at(a, p))), vlen(ST, S.s(S.at(a, p))) < U),
                         patterns=[S.at(a, p)])

    def ask_inv(cx):
        i, a = cx.v('i'), cx.v('args')
        yield 'same kind so far', samekind(a, i)
    out.append(Rel('ethos::allSameKind', lambda c: [
        ('kind', z3.Or(z3.And(samekind(c.a(0)), c.result() == kind(S.at(c.a(0), 0))),
                       z3.And(z3.Not(samekind(c.a(0))), c.result() == K['NONE'])))],
        pre=lambda c: [('some argument', vlen(VE, c.a(0)) >= 1)], loops={0: ask_inv}))

    def asb_inv(cx):
        i, a = cx.v('i'), cx.v('args')
        yield 'same width so far', samewidth(a, i)
    out.append(Rel('ethos::allSameBitWidth', lambda c: [
        ('widths', c.result() == samewidth(c.a(0)))],
        pre=lambda c: [('some argument', vlen(VE, c.a(0)) >= 1)], loops={0: asb_inv}))

    EV = 'EVAL_'
    UN = ['NOT', 'NEG', 'IS_NEG', 'LENGTH', 'TO_INT', 'TO_RAT', 'TO_STRING']
    BI = ['INT_DIV', 'INT_MOD', 'RAT_DIV', 'TO_BIN', 'GT', 'FIND']
    NA = ['AND', 'OR', 'XOR', 'ADD', 'MUL', 'CONCAT']

    def pre(c):
        k, a = c.a(0), c.a(1)
        n = vlen(VE, a)
        isin = lambda l: z3.Or([k == K[EV + x] for x in l])
        return [('some argument', n >= 1),
                ('arity', z3.And(z3.Implies(isin(BI), n == 2), z3.Implies(isin(NA), n >= 2), z3.Implies(isin(UN), n == 1),
                                 z3.Implies(k == K['EVAL_EXTRACT'], n == 3))),
                ('arguments are literals', lits(a))]

    def given(c):
        a = c.a(1)
        return [S.wfall(a)]

    def post(c):
        k, a, r = c.a(0), c.a(1), c.result()
        n = vlen(VE, a)
        a0, a1, a2 = S.at(a, 0), S.at(a, 1), S.at(a, 2)
        k0, k1, k2 = kind(a0), kind(a1), kind(a2)
        same = samekind(a)
        none = rf(r, 'd_kind') == K['NONE']
        kk = lambda *x: z3.Or([k0 == K[y] for y in x])
        op = lambda *x: z3.Or([k == K[EV + y] for y in x])
        rk = lambda x: rf(r, 'd_kind') == (K[x] if isinstance(x, str) else x)
        isb = lambda t: z3.And(rk('BOOLEAN'), rf(r, 'd_bool') == t)
        isn = lambda t: z3.And(rk('NUMERAL'), rf(r, 'd_int') == t)
        isr = lambda kd, t: z3.And(rk(kd), rf(r, 'd_rat') == t)
        isv = lambda kd, t: z3.And(rk(kd), rf(r, 'd_bv') == t)
        Z, BVK, RT = 'NUMERAL', ('BINARY', 'HEXADECIMAL'), ('RATIONAL', 'DECIMAL')
        res = []

        def case(name, guard, goal):
            res.append((name, z3.Implies(guard, goal)))
        mixed = z3.And(z3.Not(op('EXTRACT', 'TO_BIN')), z3.Not(same))
        case('stuck on arguments of different kinds', mixed, none)
        s_ = lambda g: z3.And(same, g)
        w0 = bsize(S.v(a0))
        v0, v1 = bval(S.v(a0)), bval(S.v(a1))
        # Booleans
        case('not (Boolean)', s_(z3.And(op('NOT'), kk('BOOLEAN'))), isb(z3.Not(S.b(a0))))
        case('not (bit-vector)', s_(z3.And(op('NOT'), kk(*BVK))), isv(k0, bv(w0, -v0 - 1)))
        case('not (other)', s_(z3.And(op('NOT'), z3.Not(kk('BOOLEAN', *BVK)))), none)
        bo = op('AND', 'OR', 'XOR')
        case('and/or/xor (Boolean)', s_(z3.And(bo, kk('BOOLEAN'))), isb(S.fb(k, a, n)))
        case('add/mul/concat (Boolean)', s_(z3.And(op('ADD', 'MUL', 'CONCAT'), kk('BOOLEAN'))), none)
        case('add/mul (numeral)', s_(z3.And(op('ADD', 'MUL'), kk(Z))), isn(S.fi(k, a, n)))
        case('and/or/xor/concat (numeral)', s_(z3.And(op('AND', 'OR', 'XOR', 'CONCAT'), kk(Z))), none)
        case('add/mul (rational)', s_(z3.And(op('ADD', 'MUL'), kk(*RT))), isr(k0, S.fr(k, a, n)))
        case('and/or/xor/concat (rational)', s_(z3.And(op('AND', 'OR', 'XOR', 'CONCAT'), kk(*RT))), none)
        bvo = op('AND', 'OR', 'XOR', 'ADD', 'MUL')
        case('bit-vector operator, same widths', s_(z3.And(bvo, kk(*BVK), samewidth(a))), isv(k0, mk(BV, w0, S.fv(k, a, n))))
        case('bit-vector operator, different widths', s_(z3.And(bvo, kk(*BVK), z3.Not(samewidth(a)))), none)
        case('concat (bit-vector)', s_(z3.And(op('CONCAT'), kk(*BVK), S.fw(a, n) < U)),
             isv(k0, mk(BV, S.fw(a, n), S.fv(k, a, n))))
        case('concat (bit-vector, width not representable)', s_(z3.And(op('CONCAT'), kk(*BVK), S.fw(a, n) >= U)), none)
        rs = rf(r, 'd_str')
        rat = lambda x: z3.Select(acc(ST, 'arr', rs), x)
        sat = lambda e, x: z3.Select(acc(ST, 'arr', S.s(e)), x)
        case('concat (string): length', s_(z3.And(op('CONCAT'), kk('STRING'))), z3.And(rk('STRING'), vlen(ST, rs) == S.fo(a, n)))
        case('concat (string): characters', s_(z3.And(op('CONCAT'), kk('STRING'))), z3.ForAll([p, j], z3.Implies(
            z3.And(0 <= p, p < n, 0 <= j, j < vlen(ST, S.s(S.at(a, p)))), rat(S.fo(a, p) + j) == sat(S.at(a, p), j)),
            patterns=[sat(S.at(a, p), j)]))
        case('and/or/xor/add/mul (string)', s_(z3.And(bvo, kk('STRING'))), none)
        # arithmetic
        case('neg (numeral)', s_(z3.And(op('NEG'), kk(Z))), isn(-S.n(a0)))
        case('neg (rational)', s_(z3.And(op('NEG'), kk(*RT))), isr(k0, -S.r(a0)))
        case('neg (bit-vector)', s_(z3.And(op('NEG'), kk(*BVK))), isv(k0, bv(w0, -v0)))
        case('neg (other)', s_(z3.And(op('NEG'), kk('BOOLEAN', 'STRING'))), none)
        dv = op('INT_DIV', 'INT_MOD')
        case('zdiv', s_(z3.And(op('INT_DIV'), kk(Z), S.n(a1) != 0)), isn(ediv(S.n(a0), S.n(a1))))
        case('zmod', s_(z3.And(op('INT_MOD'), kk(Z), S.n(a1) != 0)), isn(emod(S.n(a0), S.n(a1))))
        case('zdiv/zmod by zero', s_(z3.And(dv, kk(Z), S.n(a1) == 0)), none)
        case('zdiv (bit-vector)', s_(z3.And(op('INT_DIV'), kk(*BVK), samewidth(a))), isv(k0, mk(BV, w0, z3.If(v1 == 0, pow2(w0) - 1, v0 / v1))))
        case('zmod (bit-vector)', s_(z3.And(op('INT_MOD'), kk(*BVK), samewidth(a))), isv(k0, mk(BV, w0, z3.If(v1 == 0, v0, v0 % v1))))
        case('zdiv/zmod (bit-vector, different widths)', s_(z3.And(dv, kk(*BVK), z3.Not(samewidth(a)))), none)
        case('zdiv/zmod (other)', s_(z3.And(dv, kk('BOOLEAN', 'STRING', *RT))), none)
        case('qdiv (numeral)', s_(z3.And(op('RAT_DIV'), kk(Z), S.n(a1) != 0)), isr('RATIONAL', z3.ToReal(S.n(a0)) / z3.ToReal(S.n(a1))))
        case('qdiv (rational)', s_(z3.And(op('RAT_DIV'), kk(*RT), S.r(a1) != 0)), isr('RATIONAL', S.r(a0) / S.r(a1)))
        case('qdiv by zero', s_(z3.And(op('RAT_DIV'), z3.Or(z3.And(kk(Z), S.n(a1) == 0), z3.And(kk(*RT), S.r(a1) == 0)))), none)
        case('qdiv (other)', s_(z3.And(op('RAT_DIV'), kk('BOOLEAN', 'STRING', *BVK))), none)
        case('is_neg (numeral)', s_(z3.And(op('IS_NEG'), kk(Z))), isb(S.n(a0) < 0))
        case('is_neg (rational)', s_(z3.And(op('IS_NEG'), kk(*RT))), isb(S.r(a0) < 0))
        case('is_neg (other)', s_(z3.And(op('IS_NEG'), kk('BOOLEAN', 'STRING', *BVK))), none)
        case('gt (numeral)', s_(z3.And(op('GT'), kk(Z))), isb(S.n(a0) > S.n(a1)))
        case('gt (rational)', s_(z3.And(op('GT'), kk(*RT))), isb(S.r(a0) > S.r(a1)))
        case('gt (bit-vector, unsigned)', s_(z3.And(op('GT'), kk(*BVK))), isb(v0 > v1))
        case('gt (other)', s_(z3.And(op('GT'), kk('BOOLEAN', 'STRING'))), none)
        # strings
        case('len (bit-vector)', s_(z3.And(op('LENGTH'), kk('BINARY'))), isn(w0))
        case('len (string)', s_(z3.And(op('LENGTH'), kk('STRING'))), isn(vlen(ST, S.s(a0))))
        case('len (other)', s_(z3.And(op('LENGTH'), kk('BOOLEAN', Z, *RT))), none)
        ex = op('EXTRACT')
        zz = z3.And(k1 == K[Z], k2 == K[Z])
        n1, n2 = S.n(a1), S.n(a2)
        case('extract (indices are not numerals)', z3.And(ex, z3.Not(zz)), none)
        case('extract (not a string or bit-vector)', z3.And(ex, z3.Not(kk('STRING', *BVK))), none)
        hi = z3.If(n2 >= w0, w0 - 1, n2)
        inr = z3.And(0 <= n1, 0 <= n2, n1 < w0, n1 <= hi)
        case('extract (bit-vector)', z3.And(ex, zz, kk(*BVK), inr), isv(k0, bv(hi - n1 + 1, v0 / pow2(n1))))
        case('extract (bit-vector, empty range)', z3.And(ex, zz, kk(*BVK), z3.Not(inr)), z3.And(rk(k0), bsize(rf(r, 'd_bv')) == 0, bval(rf(r, 'd_bv')) == 0))
        L = vlen(ST, S.s(a0))
        shi = z3.If(n2 >= L, L - 1, n2)
        sin_ = z3.And(0 <= n1, 0 <= n2, n1 < L, n1 <= shi)
        case('extract (string): length', z3.And(ex, zz, kk('STRING'), sin_), z3.And(rk('STRING'), vlen(ST, rs) == shi - n1 + 1))
        case('extract (string): characters', z3.And(ex, zz, kk('STRING'), sin_), z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < vlen(ST, rs)), rat(j) == sat(a0, n1 + j)), patterns=[rat(j)]))
        case('extract (string, empty range)', z3.And(ex, zz, kk('STRING'), z3.Not(sin_)), z3.And(rk('STRING'), vlen(ST, rs) == 0))
        fi_ = op('FIND')
        occ = d.occurs(None)
        H, N = acc(ST, 'arr', S.s(a0)), acc(ST, 'arr', S.s(a1))
        lh, ln = vlen(ST, S.s(a0)), vlen(ST, S.s(a1))
        o = lambda x: occ(H, x, N, 0, ln)
        ri = rf(r, 'd_int')
        case('find (string): result', s_(z3.And(fi_, kk('STRING'))), z3.And(rk(Z), z3.Or(ri == -1, z3.And(0 <= ri, ri + ln <= lh, o(ri)))))
        case('find (string): first occurrence', s_(z3.And(fi_, kk('STRING'))), z3.ForAll([p], z3.Implies(
            z3.And(0 <= p, p + ln <= lh, o(p)), z3.And(ri >= 0, ri <= p)), patterns=[o(p)]))
        case('find (other)', s_(z3.And(fi_, z3.Not(kk('STRING')))), none)
        # conversions
        ti = op('TO_INT')
        case('to_z (rational)', s_(z3.And(ti, kk(*RT))), isn(z3.ToInt(S.r(a0))))
        case('to_z (numeral)', s_(z3.And(ti, kk(Z))), isn(S.n(a0)))
        case('to_z (bit-vector)', s_(z3.And(ti, kk('BINARY'))), isn(v0))
        case('to_z (one character)', s_(z3.And(ti, kk('STRING'), L == 1)), isn(sat(a0, z3.IntVal(0))))
        case('to_z (other)', s_(z3.And(ti, z3.Or(kk('BOOLEAN'), z3.And(kk('STRING'), L != 1)))), none)
        tr = op('TO_RAT')
        case('to_q (rational)', s_(z3.And(tr, kk(*RT))), isr('RATIONAL', S.r(a0)))
        case('to_q (numeral)', s_(z3.And(tr, kk(Z))), isr('RATIONAL', z3.ToReal(S.n(a0))))
        case('to_q (other)', s_(z3.And(tr, kk('BOOLEAN', 'STRING', *BVK))), none)
        tb = op('TO_BIN')
        okw = z3.And(k0 == K[Z], 0 <= S.n(a0), S.n(a0) < U)
        case('to_bin (numeral)', z3.And(tb, okw, k1 == K[Z]), isv('BINARY', bv(S.n(a0), S.n(a1))))
        case('to_bin (bit-vector)', z3.And(tb, okw, z3.Or([k1 == K[x] for x in BVK])), isv('BINARY', bv(S.n(a0), v1)))
        case('to_bin (other)', z3.And(tb, z3.Or(z3.Not(okw), z3.Not(z3.Or([k1 == K[x] for x in (Z,) + BVK])))), none)
        ts = op('TO_STRING')
        code = z3.And(0 <= S.n(a0), S.n(a0) < 196608)
        case('to_str (code point)', s_(z3.And(ts, kk(Z), code)), z3.And(rk('STRING'), vlen(ST, rs) == 1, rat(z3.IntVal(0)) == S.n(a0)))
        case('to_str (numeral, not a code point)', s_(z3.And(ts, kk(Z), z3.Not(code))), none)
        case('to_str (string)', s_(z3.And(ts, kk('STRING'))), z3.And(rk('STRING'), rs == S.s(a0)))
        case('to_str (Boolean)', s_(z3.And(ts, kk('BOOLEAN'))), none)
        case('to_str (text of a literal)', s_(z3.And(ts, kk(*(RT + BVK)))), rk('STRING'))
        known = op('NOT', 'AND', 'OR', 'XOR', 'ADD', 'MUL', 'CONCAT', 'NEG', 'INT_DIV', 'INT_MOD', 'RAT_DIV', 'IS_NEG', 'LENGTH',
                   'EXTRACT', 'TO_INT', 'TO_RAT', 'TO_BIN', 'TO_STRING', 'GT', 'FIND')
        case('no other operator evaluates', z3.Not(known), none)
        return res

    # loops: Boolean, numeral, rational, bit-vector, string
    def fold_inv(tag):
        def inv(cx):
            i, a = cx.v('i'), cx.v('args')
            k = cx.v('k')
            if tag == 'b':
                res = cx.v('res', ('bool',))
                ok = z3.Or([k == K['EVAL_' + x] for x in ('AND', 'OR', 'XOR')])
                yield 'partial result', z3.And(1 <= i, res == S.fb(k, a, i))
                yield 'operator', z3.Implies(i > 1, ok)
            elif tag == 'i':
                res = cx.v('res', ('cls', 'Integer'))
                yield 'partial result', z3.And(1 <= i, res == S.fi(k, a, i))
                yield 'operator', z3.Implies(i > 1, z3.Or(k == K['EVAL_ADD'], k == K['EVAL_MUL']))
            elif tag == 'r':
                res = cx.v('res', ('cls', 'Rational'))
                yield 'partial result', z3.And(1 <= i, res == S.fr(k, a, i))
                yield 'operator', z3.Implies(i > 1, z3.Or(k == K['EVAL_ADD'], k == K['EVAL_MUL']))
            elif tag == 'v':
                res = cx.v('res', BV)
                yield 'partial value', z3.And(1 <= i, bval(res) == S.fv(k, a, i))
                yield 'partial width', bsize(res) == z3.If(k == K['EVAL_CONCAT'], S.fw(a, i), bsize(S.v(S.at(a, 0))))
                yield 'well-formed', wf_bv(res)
            else:
                res = cx.v('res', ('cls', 'String'))
                rat = lambda x: z3.Select(acc(ST, 'arr', res), x)
                sat = lambda e, x: z3.Select(acc(ST, 'arr', S.s(e)), x)
                yield 'length so far', z3.And(1 <= i, vlen(ST, res) == S.fo(a, i))
                yield 'characters so far', z3.ForAll([p, j], z3.Implies(
                    z3.And(0 <= p, p < i, 0 <= j, j < vlen(ST, S.s(S.at(a, p)))), rat(S.fo(a, p) + j) == sat(S.at(a, p), j)),
                    patterns=[sat(S.at(a, p), j)])
        return inv
    def focus(c, prop):
        k, k0 = c.a(0), kind(S.at(c.a(1), 0))
        op = lambda *x: z3.Or([k == K[EV + y] for y in x])
        kk = lambda *x: z3.Or([k0 == K[y] for y in x])
        BVK = ('BINARY', 'HEXADECIMAL')
        if prop == 'A01':
            return z3.And(op('ADD', 'MUL', 'NEG', 'INT_DIV', 'INT_MOD', 'RAT_DIV', 'IS_NEG', 'GT', 'TO_INT', 'TO_RAT'), z3.Not(kk(*BVK)),
                          z3.Not(z3.And(op('TO_INT'), kk('STRING'))))
        if prop == 'A02':
            return z3.Or(z3.And(op('AND', 'OR', 'XOR', 'NOT', 'ADD', 'MUL', 'NEG', 'INT_DIV', 'INT_MOD', 'CONCAT', 'EXTRACT', 'LENGTH', 'TO_INT'), kk(*BVK)),
                         op('TO_BIN'))
        if prop == 'A03':
            return z3.And(z3.Or(op('CONCAT', 'EXTRACT', 'LENGTH', 'FIND', 'TO_STRING'), z3.And(op('TO_INT'), kk('STRING'))),
                          z3.Not(z3.And(kk(*BVK), z3.Not(op('TO_STRING', 'FIND')))))
        if prop == 'A04':
            return z3.And(op('AND', 'OR', 'XOR', 'NOT'), z3.Not(kk(*BVK)))
        return z3.BoolVal(True)
    out.append(Rel('ethos::Literal::evaluate', post, pre=pre, focus=focus, given=given, axioms=ARITH + S.axioms + S.mono,
                   loops={0: fold_inv('b'), 1: fold_inv('i'), 2: fold_inv('r'), 3: fold_inv('v'), 4: fold_inv('s')}))
    ts = z3.Function('literalText', sort(LIT), so.Str)
    out.append(Trusted('ethos::Literal::toString', lambda c: ts(d.lit_of(c.selfv())), why='text of a literal'))
    rts = z3.Function('rationalText', R, so.Str)
    out.append(Trusted('ethos::Rational::toStringDecimal', lambda c: rts(c.selfv()), why='text of a rational'))
    return out
