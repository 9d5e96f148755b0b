"""Contracts of the value classes (Integer, Rational, BitVector, String)."""
import z3
from . import sorts as so
from .sorts import acc, mk, sort, vlen, I, B, ctype
from .symex import Contract, LV
from .stdlib import pow2, powi, iand, ior, ixor, fdiv, sizeinbase2

BV = ('cls', 'BitVector')
ST = ('vec', ('int', 32, False))


class Def(Contract):
    """the result is a term over the arguments"""
    def __init__(self, fn, value, sig=None, nparams=None, pre=None, loops=(), lemmas=None, given=None, axioms=()):
        self.lemmas = lemmas or (lambda c: [])
        self.fn, self.value, self.sig, self.nparams, self._pre, self.loops = fn, value, sig, nparams, pre, loops
        self._given = given
        self.axioms = list(axioms)

    def pre(self, c):
        return self._pre(c) if self._pre else []

    def given(self, c):
        return self._given(c) if self._given else []

    def result(self, c, rct):
        v = self.value(c)
        return z3.simplify(v) if v.num_args() == 0 else v

    def post(self, c):
        r = c.result()
        v = self.value(c)
        if r is v or r.eq(v):
            return [] if c.old is None else [('value', r == v)]
        return [('value', r == v)]


class Rel(Contract):
    """the result is described by a relation"""
    def __init__(self, fn, post, sig=None, nparams=None, pre=None, loops=(), mods=None, given=None, axioms=(), lemmas=None, focus=None):
        self.focus = focus
        self.lemmas = lemmas or (lambda c: [])
        self.fn, self._post, self.sig, self.nparams, self._pre, self.loops = fn, post, sig, nparams, pre, loops
        self._mods = mods
        self._given = given
        self.axioms = list(axioms)

    def pre(self, c):
        return self._pre(c) if self._pre else []

    def given(self, c):
        return self._given(c) if self._given else []

    def mods(self, c):
        return self._mods(c) if self._mods else []

    def post(self, c):
        return self._post(c)


class Trusted(Def):
    trusted = True

    def __init__(self, fn, value, why, **kw):
        Def.__init__(self, fn, value, **kw)
        self.why = why


# ---- mathematical specification functions -------------------------------------
ediv = z3.Function('ediv', I, I, I)      # Euclidean division (SMT-LIB div)
emod = z3.Function('emod', I, I, I)      # Euclidean remainder (SMT-LIB mod)
strparse = z3.Function('strparse', so.Str, B, sort(ST))

x, y, q, r, n, m, k = z3.Ints('x!l y!l q!l r!l n!l m!l k!l')

# Lemmas (each is proved by Lean, lemmas/Arith.lean; here they are only used)
LEMMAS = {}


def lemma(name, f):
    LEMMAS[name] = f
    return f


lemma('pow2_pos', z3.ForAll([n], z3.Implies(n >= 0, pow2(n) >= 1), patterns=[pow2(n)]))
lemma('pow2_zero', pow2(z3.IntVal(0)) == 1)
lemma('pow2_one', pow2(z3.IntVal(1)) == 2)
lemma('pow2_succ', z3.ForAll([n], z3.Implies(n >= 0, pow2(n + 1) == 2 * pow2(n)), patterns=[pow2(n + 1)]))


def euclid(x, y, q, r):
    """Euclidean division is unique (Lean: euclid_unique); used as instances"""
    return z3.Implies(z3.And(y != 0, x == q * y + r, 0 <= r, r < z3.If(y >= 0, y, -y)),
                      z3.And(q == ediv(x, y), r == emod(x, y)))


# (x mod m + y mod m) mod m etc. for a symbolic modulus
lemma('mod_range', z3.ForAll([x, m], z3.Implies(m >= 1, z3.And(0 <= x % m, x % m < m)), patterns=[x % m]))
lemma('mod_small', z3.ForAll([x, m], z3.Implies(z3.And(0 <= x, x < m), x % m == x), patterns=[x % m]))
pown = z3.Function('pown', I, I)
ARITH = list(LEMMAS.values())


def bv(size, v):
    """the bit-vector of the given width: the value modulo 2^width"""
    return mk(BV, size, v % pow2(size))


def bsize(b):
    return acc(BV, 'd_size', b)


def bval(b):
    return acc(BV, 'd_value', b)


def wf_bv(b):
    return z3.And(0 <= bsize(b), bsize(b) <= 2 ** 32 - 1, 0 <= bval(b), bval(b) < pow2(bsize(b)))


def contracts(d):
    U = 2 ** 32
    Iq = 'ethos::Integer::'
    out = []
    A = out.append
    A(Def(Iq + 'operator==', lambda c: c.selfv() == c.a(0)))
    A(Def(Iq + 'operator>', lambda c: c.selfv() > c.a(0)))
    A(Def(Iq + 'operator>=', lambda c: c.selfv() >= c.a(0)))
    A(Def(Iq + 'operator-', lambda c: -c.selfv(), nparams=0))
    A(Def(Iq + 'operator+', lambda c: c.selfv() + c.a(0)))
    A(Def(Iq + 'operator*', lambda c: c.selfv() * c.a(0)))
    A(Def(Iq + 'bitwiseOr', lambda c: ior(c.selfv(), c.a(0))))
    A(Def(Iq + 'bitwiseAnd', lambda c: iand(c.selfv(), c.a(0))))
    A(Def(Iq + 'bitwiseXor', lambda c: ixor(c.selfv(), c.a(0))))
    A(Def(Iq + 'bitwiseNot', lambda c: -c.selfv() - 1))
    A(Def(Iq + 'multiplyByPow2', lambda c: c.selfv() * pow2(c.a(0))))
    A(Def(Iq + 'fitsUnsignedInt', lambda c: z3.And(0 <= c.selfv(), c.selfv() < U)))
    A(Rel(Iq + 'toUnsignedInt', lambda c: [('value', z3.Implies(z3.And(0 <= c.selfv(), c.selfv() < U), c.result() == c.selfv()))]))
    A(Def(Iq + 'modByPow2', lambda c: c.selfv() % pow2(c.a(0))))
    A(Def(Iq + 'sgn', lambda c: z3.If(c.selfv() > 0, z3.IntVal(1), z3.If(c.selfv() < 0, z3.IntVal(-1), z3.IntVal(0)))))
    A(Def(Iq + 'pow', lambda c: powi(c.selfv(), c.a(0))))
    A(Def(Iq + 'floorDivideQuotient', lambda c: fdiv(c.selfv(), c.a(0)), pre=lambda c: [('non-zero divisor', c.a(0) != 0)]))
    A(Def(Iq + 'floorDivideRemainder', lambda c: c.selfv() - fdiv(c.selfv(), c.a(0)) * c.a(0),
          pre=lambda c: [('non-zero divisor', c.a(0) != 0)]))
    A(Rel(Iq + 'euclidianQR', lambda c: [
        ('quotient and remainder', c.a(2) == c.new(0) * c.a(3) + c.new(1)),
        ('remainder range', z3.And(0 <= c.new(1), c.new(1) < z3.If(c.a(3) >= 0, c.a(3), -c.a(3)))),
        ('Euclidean quotient', c.new(0) == ediv(c.a(2), c.a(3))), ('Euclidean remainder', c.new(1) == emod(c.a(2), c.a(3)))],
        lemmas=lambda c: [euclid(c.a(2), c.a(3), c.new(0), c.new(1))],
        pre=lambda c: [('non-zero divisor', c.a(3) != 0)], mods=lambda c: [c.lv(0), c.lv(1)]))
    A(Def(Iq + 'euclidianDivideQuotient', lambda c: ediv(c.selfv(), c.a(0)),
          pre=lambda c: [('non-zero divisor', c.a(0) != 0)], axioms=ARITH))
    A(Def(Iq + 'euclidianDivideRemainder', lambda c: emod(c.selfv(), c.a(0)),
          pre=lambda c: [('non-zero divisor', c.a(0) != 0)], axioms=ARITH))
    A(Def(Iq + 'extractBitRange', lambda c: (c.selfv() % pow2(c.a(1) + c.a(0))) / pow2(c.a(1)),
          pre=lambda c: [('range representable', z3.And(c.a(0) >= 1, c.a(0) + c.a(1) <= U - 1))]))

    def one_ext(c):
        v, s, a = c.selfv(), c.a(0), c.a(1)
        return z3.If(s + a < U, v + pow2(s + a) - pow2(s), v)

    def one_inv(cx):
        i, res = cx.v('i', ('int', 32, False)), cx.v('res', ('mpz',))
        v, s = cx.at_entry('res', ('mpz',)), cx.v('size')
        a = cx.v('amount')
        yield 'index range', z3.And(s <= i, z3.Or(i == s, i <= (s + a) % U))
        yield 'low bits kept and ones added', res == v + pow2(i) - pow2(s)
        yield 'result fits', z3.And(0 <= res, res < pow2(i))
    A(Def(Iq + 'oneExtend', one_ext, pre=lambda c: [('value fits', z3.And(0 <= c.selfv(), c.selfv() < pow2(c.a(0)))),
                                                      ('positive size', c.a(0) >= 1)],
          loops={0: one_inv}, axioms=ARITH))
    # Rational
    Rq = 'ethos::Rational::'
    A(Def(Rq + 'sgn', lambda c: z3.If(c.selfv() > 0, z3.IntVal(1), z3.If(c.selfv() < 0, z3.IntVal(-1), z3.IntVal(0)))))
    A(Def(Rq + 'floor', lambda c: z3.ToInt(c.selfv())))
    A(Def(Rq + 'operator-', lambda c: -c.selfv(), nparams=0))
    A(Def(Rq + 'operator+', lambda c: c.selfv() + c.a(0)))
    A(Def(Rq + 'operator*', lambda c: c.selfv() * c.a(0)))
    A(Def(Rq + 'operator/', lambda c: c.selfv() / c.a(0), pre=lambda c: [('non-zero divisor', c.a(0) != 0)]))
    A(Def(Rq + 'operator==', lambda c: c.selfv() == c.a(0)))
    A(Def(Rq + 'operator>', lambda c: c.selfv() > c.a(0)))
    A(Def(Rq + 'isIntegral', lambda c: z3.IsInt(c.selfv())))
    # BitVector
    Bq = 'ethos::BitVector::'
    same = lambda c: [('same width', bsize(c.a(0)) == bsize(c.a(1)))]
    A(Def(Bq + 'BitVector', lambda c: bv(c.a(0), c.a(1)), sig='const Integer &'))
    A(Def(Bq + 'getSize', lambda c: bsize(c.selfv())))
    A(Def(Bq + 'toInteger', lambda c: bval(c.selfv())))
    A(Def(Bq + 'concat', lambda c: bv(bsize(c.selfv()) + bsize(c.a(0)), bval(c.selfv()) * pow2(bsize(c.a(0))) + bval(c.a(0))),
          pre=lambda c: [('width representable', bsize(c.selfv()) + bsize(c.a(0)) < U)]))
    A(Def(Bq + 'extract', lambda c: bv(c.a(0) - c.a(1) + 1, bval(c.selfv()) / pow2(c.a(1))), axioms=ARITH,
          lemmas=lambda c: [extract_inst(bval(c.selfv()), c.a(0), c.a(1))],
          pre=lambda c: [('range', z3.And(c.a(1) <= c.a(0), c.a(0) < bsize(c.selfv())))]))
    A(Def('ethos::operator^', lambda c: bv(bsize(c.a(0)), ixor(bval(c.a(0)), bval(c.a(1)))), sig='BitVector', pre=same))
    A(Def('ethos::operator|', lambda c: bv(bsize(c.a(0)), ior(bval(c.a(0)), bval(c.a(1)))), sig='BitVector', pre=same))
    A(Def('ethos::operator&', lambda c: bv(bsize(c.a(0)), iand(bval(c.a(0)), bval(c.a(1)))), sig='BitVector', pre=same))
    A(Def('ethos::operator~', lambda c: bv(bsize(c.a(0)), -bval(c.a(0)) - 1), sig='BitVector'))
    A(Def('ethos::operator+', lambda c: bv(bsize(c.a(0)), bval(c.a(0)) + bval(c.a(1))), sig='BitVector', nparams=2, pre=same))
    A(Def('ethos::operator*', lambda c: bv(bsize(c.a(0)), bval(c.a(0)) * bval(c.a(1))), sig='BitVector', nparams=2, pre=same))
    A(Def('ethos::operator-', lambda c: bv(bsize(c.a(0)), -bval(c.a(0))), sig='BitVector', nparams=1, lemmas=lambda c: [neg_inst(bval(c.a(0)), pow2(bsize(c.a(0))))], axioms=ARITH))
    A(Def('ethos::operator==', lambda c: c.a(0) == c.a(1), sig='BitVector'))
    wf2 = lambda c: [('valid operands', z3.And(wf_bv(c.selfv()), wf_bv(c.a(0)))), ('same width', bsize(c.selfv()) == bsize(c.a(0)))]
    A(Def(Bq + 'unsignedDivTotal', lambda c: mk(BV, bsize(c.selfv()), z3.If(
        bval(c.a(0)) == 0, pow2(bsize(c.selfv())) - 1, bval(c.selfv()) / bval(c.a(0)))), pre=wf2, axioms=ARITH + DIV))
    A(Def(Bq + 'unsignedRemTotal', lambda c: mk(BV, bsize(c.selfv()), z3.If(
        bval(c.a(0)) == 0, bval(c.selfv()), bval(c.selfv()) % bval(c.a(0)))), pre=wf2, axioms=ARITH + DIV))
    # String
    Sq = 'ethos::String::'
    s_ = lambda i: z3.Select
    A(Def(Sq + 'size', lambda c: vlen(ST, c.selfv())))
    at = lambda v, i: z3.Select(acc(ST, 'arr', v), i)
    j = z3.Int('j!q')

    def cat(c):
        a, b, rr = c.selfv(), c.a(0), c.result()
        return [('length', vlen(ST, rr) == vlen(ST, a) + vlen(ST, b)),
                ('characters', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < vlen(ST, rr)),
                                                         at(rr, j) == z3.If(j < vlen(ST, a), at(a, j), at(b, j - vlen(ST, a)))),
                                         patterns=[at(rr, j)]))]
    A(Rel(Sq + 'concat', cat))

    def sub(c):
        a, i, n_, rr = c.selfv(), c.a(0), c.a(1), c.result()
        return [('length', vlen(ST, rr) == n_),
                ('characters', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n_), at(rr, j) == at(a, i + j)), patterns=[at(rr, j)]))]
    A(Rel(Sq + 'substr', sub, pre=lambda c: [('range', c.a(0) + c.a(1) <= vlen(ST, c.selfv()))]))
    occ = d.occurs(None)
    p = z3.Int('p!q')

    def fnd(c):
        h, nd, s0, rr = c.selfv(), c.a(0), c.a(1), c.result()
        H, N = acc(ST, 'arr', h), acc(ST, 'arr', nd)
        lh, ln = vlen(ST, h), vlen(ST, nd)
        o = lambda i: occ(H, i, N, 0, ln)
        NP = 2 ** 64 - 1
        return [('a found position is an occurrence', z3.Implies(rr != NP, z3.And(s0 <= rr, rr + ln <= lh, o(rr)))),
                ('the first occurrence is found', z3.ForAll([p], z3.Implies(
                    z3.And(s0 <= p, p + ln <= lh, o(p)), z3.And(rr != NP, rr <= p)), patterns=[o(p)]))]
    A(Rel(Sq + 'find', fnd, pre=lambda c: [('lengths', z3.And(vlen(ST, c.selfv()) < 2 ** 62, vlen(ST, c.a(0)) < 2 ** 62, c.a(1) < 2 ** 62))]))
    df = z3.Int('df!q')

    def cmp_(c):
        a, b, rr = c.selfv(), c.a(0), c.result()
        return [('zero iff equal', (rr == 0) == z3.And(vlen(ST, a) == vlen(ST, b), z3.ForAll(
            [j], z3.Implies(z3.And(0 <= j, j < vlen(ST, a)), at(a, j) == at(b, j)), patterns=[at(a, j)])))]

    def cmp_inv(cx):
        i = cx.v('i', ('int', 32, False))
        a, b = cx.ex.rv(cx.ex.frame[2].lv, cx.st), cx.v('y')
        yield 'equal so far', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), at(a, j) == at(b, j)), patterns=[at(a, j)])
    A(Rel(Sq + 'cmp', cmp_, loops={0: cmp_inv}, pre=lambda c: [('length', vlen(ST, c.selfv()) < U)]))
    A(Trusted(Sq + 'String', lambda c: strparse(c.a(0), c.a(1)), sig='string &', why='text to characters (verified by the literal-syntax group)'))
    d.qf_axioms.append(vlen(ST, strparse(d.cstr(None, ''), False)) == 0)
    return out



def extract_inst(v, h, l):
    """instance of extract_mod (Lean): the upper bits dropped first do not matter"""
    return z3.Implies(z3.And(0 <= l, l <= h),
                      ((v % pow2(h + 1)) / pow2(l)) % pow2(h - l + 1) == (v / pow2(l)) % pow2(h - l + 1))


def neg_inst(v, m):
    """instance of mod_add (Lean)"""
    return z3.Implies(m >= 1, ((-v - 1) % m + 1 % m) % m == (-v) % m)


NEG = [
    lemma('mod_add_left', z3.ForAll([x, y, m], z3.Implies(m >= 1, (x % m + y) % m == (x + y) % m), patterns=[(x % m + y) % m])),
    lemma('mod_add_right', z3.ForAll([x, y, m], z3.Implies(m >= 1, (x + y % m) % m == (x + y) % m), patterns=[(x + y % m) % m])),
]
DIV = [
    lemma('div_le', z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, y >= 1), z3.And(0 <= x / y, x / y <= x)), patterns=[x / y])),
    lemma('mod_le', z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, y >= 1), z3.And(0 <= x % y, x % y <= x)), patterns=[x % y])),
    lemma('div_mul_mod', z3.ForAll([x, y], z3.Implies(y != 0, x - (x / y) * y == x % y), patterns=[(x / y) * y])),
]
