"""Typing of applications (T01) and desugaring of n-ary attributes (T02)."""
from .core import Case
from . import lits
from .lits import Num, Rat, Bin, Str, Bool
from .lang import *

U, I, BO, TY = K('U'), K('Int'), K('Bool'), K('Type')


def BV(n): return ap(K('BitVec'), n if isinstance(n, tuple) else N(n))
def AR(*x): return ('arrow',) + x


# name -> list of ('t', pattern) | ('q', parameter, type) ..., result
x = X
SIG = {
    'f': ([('t', U), ('t', U)], U), 'g': ([('t', U)], U), 'p': ([('t', U)], BO), 's': ([('t', I)], I), 'q': ([('t', BO), ('t', BO)], BO),
    'apf': ([('t', AR(U, U)), ('t', U)], U),
    'comp': ([('t', AR(x('T'), x('S'))), ('t', AR(x('S'), x('R')))], AR(x('T'), x('R'))),
    'eqt': ([('t', x('T')), ('t', x('T'))], BO),
    'itt': ([('t', BO), ('t', x('T')), ('t', x('T'))], x('T')),
    'pair': ([('t', x('T')), ('t', x('S'))], ap(K('Pair'), x('T'), x('S'))),
    'pfst': ([('t', ap(K('Pair'), x('T'), x('S')))], x('T')),
    'psame': ([('t', ap(K('Pair'), x('T'), x('T')))], x('T')),
    'select': ([('t', ap(K('Array'), x('T'), x('S'))), ('t', x('T'))], x('S')),
    'store': ([('t', ap(K('Array'), x('T'), x('S'))), ('t', x('T')), ('t', x('S'))], ap(K('Array'), x('T'), x('S'))),
    'eqx': ([('q', 'T', TY), ('t', x('T')), ('t', x('T'))], BO),
    'cnst': ([('q', 'T', TY), ('q', 'S', TY), ('t', x('S'))], ap(K('Array'), x('T'), x('S'))),
    'bvadd': ([('t', BV(x('n'))), ('t', BV(x('n')))], BV(x('n'))),
    'bvconcat': ([('t', BV(x('n'))), ('t', BV(x('m')))], BV(op('add', x('n'), x('m')))),
    'bvext': ([('q', 'h', I), ('q', 'l', I), ('t', BV(x('n')))], BV(op('add', op('add', x('h'), op('neg', x('l'))), N(1)))),
    'bvrep': ([('q', 'i', I), ('t', BV(x('n')))], BV(op('mul', x('i'), x('n')))),
    'bvzext': ([('q', 'i', I), ('t', BV(x('n')))], op('requires', op('is_neg', x('i')), FALSE, BV(op('add', x('i'), x('n'))))),
    'bvtop': ([('t', BV(x('n')))], op('requires', op('gt', x('n'), N(3)), TRUE, BO)),
    'bvsucc': ([('t', BV(x('n'))), ('t', BV(op('add', x('n'), N(1))))], BO),
    'bvit': ([('q', 'n', I), ('t', BV(x('n')))], BV(x('n'))),
    'halve': ([('t', x('T'))], BV(op('zdiv', call('$w', x('T')), N(2)))),
    'same3': ([('t', x('T')), ('t', x('S')), ('t', ap(K('Pair'), x('T'), x('S')))], op('ite', op('eq', x('T'), x('S')), BO, x('T'))),
}
OPQ = {'pf': ([('t', AR(U, U))], ([('t', U)], U)), 'dif': ([('t', ap(K('Array'), x('T'), x('S'))), ('t', ap(K('Array'), x('T'), x('S')))], ([], x('T')))}
PROGS = {'$w': [([BV(x('n'))], x('n'))]}

TPRE = '''(declare-const Int Type)
(declare-const Strg Type)
(declare-const Real Type)
(declare-consts <numeral> Int)
(declare-consts <string> Strg)
(declare-consts <rational> Real)
(declare-const BitVec (-> Int Type))
(declare-consts <binary> (BitVec (eo::len eo::self)))
(declare-const U Type)
(declare-const a U)
(declare-const b U)
(declare-const m Bool)
(declare-const i Int)
(declare-const f (-> U U U))
(declare-const g (-> U U))
(declare-const p (-> U Bool))
(declare-const s (-> Int Int))
(declare-const q (-> Bool Bool Bool))
(declare-const apf (-> (-> U U) U U))
(declare-const Pair (-> Type Type Type))
(declare-const Array (-> Type Type Type))
(declare-const Set (-> Type Type))
(declare-const A1 (Array U Int))
(declare-const A2 (Array Int U))
(declare-const A3 (Array (BitVec 2) Bool))
(declare-const v1 (BitVec 1))
(declare-const v2 (BitVec 2))
(declare-const v4 (BitVec 4))
(program $w ((n Int)) :signature (Type) Int ((($w (BitVec n)) n)))
(declare-parameterized-const comp ((T Type :implicit) (S Type :implicit) (R Type :implicit)) (-> (-> T S) (-> S R) (-> T R)))
(declare-parameterized-const eqt ((T Type :implicit)) (-> T T Bool))
(declare-parameterized-const itt ((T Type :implicit)) (-> Bool T T T))
(declare-parameterized-const pair ((T Type :implicit) (S Type :implicit)) (-> T S (Pair T S)))
(declare-parameterized-const pfst ((T Type :implicit) (S Type :implicit)) (-> (Pair T S) T))
(declare-parameterized-const psame ((T Type :implicit)) (-> (Pair T T) T))
(declare-parameterized-const select ((T Type :implicit) (S Type :implicit)) (-> (Array T S) T S))
(declare-parameterized-const store ((T Type :implicit) (S Type :implicit)) (-> (Array T S) T S (Array T S)))
(declare-parameterized-const eqx ((T Type)) (-> T T Bool))
(declare-parameterized-const cnst ((T Type) (S Type) (y S)) (Array T S))
(declare-parameterized-const bvadd ((n Int :implicit)) (-> (BitVec n) (BitVec n) (BitVec n)))
(declare-parameterized-const bvconcat ((n Int :implicit) (m Int :implicit)) (-> (BitVec n) (BitVec m) (BitVec (eo::add n m))))
(declare-parameterized-const bvext ((n Int :implicit) (h Int) (l Int)) (-> (BitVec n) (BitVec (eo::add (eo::add h (eo::neg l)) 1))))
(declare-parameterized-const bvrep ((n Int :implicit) (i Int)) (-> (BitVec n) (BitVec (eo::mul i n))))
(declare-parameterized-const bvzext ((n Int :implicit) (i Int) (w (BitVec n))) (eo::requires (eo::is_neg i) false (BitVec (eo::add i n))))
(declare-parameterized-const bvtop ((n Int :implicit)) (-> (BitVec n) (eo::requires (eo::gt n 3) true Bool)))
(declare-parameterized-const bvsucc ((n Int :implicit)) (-> (BitVec n) (BitVec (eo::add n 1)) Bool))
(declare-parameterized-const bvit ((n Int)) (-> (BitVec n) (BitVec n)))
(declare-parameterized-const halve ((T Type :implicit)) (-> T (BitVec (eo::zdiv ($w T) 2))))
(declare-parameterized-const same3 ((T Type :implicit) (S Type :implicit)) (-> T S (Pair T S) (eo::ite (eo::eq T S) Bool T)))
(declare-parameterized-const pf ((h (-> U U) :opaque)) (-> U U))
(declare-parameterized-const dif ((T Type :implicit) (S Type :implicit) (c (Array T S) :opaque) (d (Array T S) :opaque)) T)
(declare-parameterized-const sempty ((T Type :implicit)) (Set T))
(declare-parameterized-const P ((T Type :implicit)) (-> T Bool))
(declare-rule val ((T Type) (x T)) :args (x) :conclusion (P x))
'''
CT = {'a': U, 'b': U, 'm': BO, 'i': I, 'A1': ap(K('Array'), U, I), 'A2': ap(K('Array'), I, U), 'A3': ap(K('Array'), BV(2), BO),
      'v1': BV(1), 'v2': BV(2), 'v4': BV(4), 'U': TY, 'Int': TY, 'Bool': TY, 'Strg': TY, 'Real': TY, 'Pair': AR(TY, TY, TY), 'Array': AR(TY, TY, TY), 'Set': AR(TY, TY), 'BitVec': AR(I, TY)}


def gnd(t):
    return t[0] != 'x' and all(gnd(y) for y in t[1:] if isinstance(y, tuple) and y and t[0] != 'l')


def stuckg(t):
    """contains an operator"""
    return t[0] in ('op', 'call') or t[0] in ('@', 'arrow') and any(stuckg(y) for y in t[1:])


def pev(t):
    """evaluate what can be evaluated"""
    if t[0] in ('k', 'l', 'x', 'v', 'opq', 'as'):
        return t
    if t[0] == '@':
        return ('@', pev(t[1]), pev(t[2]))
    if t[0] == 'arrow':
        return fl(('arrow',) + tuple(pev(y) for y in t[1:]))
    a = tuple(pev(y) for y in t[2:])
    t2 = t[:2] + a
    if t[0] == 'op' and t[1] == 'requires':
        return a[2] if gnd(a[0]) and gnd(a[1]) and not stuckg(a[0]) and not stuckg(a[1]) and a[0] == a[1] else t2
    if not all(gnd(y) for y in a) and not (t[1] == 'ite' and a[0] in (TRUE, FALSE)):
        return t2
    r = Interp(programs=PROGS).ev(t2)
    return t2 if r == STUCK else r


def fl(t):
    return t[:-1] + t[-1][1:] if t[0] == 'arrow' and t[-1][0] == 'arrow' else t


def fty(args, res):
    """declared type as a term; quoted arguments are ('quo', x, type)"""
    return fl(('arrow',) + tuple(a[1] if a[0] == 't' else ('quo', a[1], a[2]) for a in args) + (res,)) if args else res


def sub(t, s):
    if t[0] == 'quo':
        return t
    if t[0] == 'arrow':
        return fl(('arrow',) + tuple(sub(y, s) for y in t[1:]))
    return subst(t, s)


def tmatch(p, t, s):
    if p[0] == 'x':
        return match(p, t, s)
    if p[0] == 'arrow':
        if t[0] != 'arrow':
            return None
        # -> is binary and right associative
        h, rest = p[1], p[2] if len(p) == 3 else ('arrow',) + p[2:]
        th, trest = t[1], t[2] if len(t) == 3 else ('arrow',) + t[2:]
        s = tmatch(h, th, s)
        return None if s is None else tmatch(rest, trest, s)
    if p[0] == '@':
        if t[0] != '@':
            return None
        s = tmatch(p[1], t[1], s)
        return None if s is None else tmatch(p[2], t[2], s)
    return s if p == t and gnd(p) and not stuckg(p) else None


_n = [0]


def fresh(t, mp):
    if t[0] == 'x':
        if t[1] not in mp:
            _n[0] += 1
            mp[t[1]] = X('%s_%d' % (t[1], _n[0]))
        return mp[t[1]]
    if t[0] == 'quo':
        return ('quo', fresh(X(t[1]), mp)[1], t[2])
    if t[0] == 'l':
        return t
    return tuple(fresh(y, mp) if isinstance(y, tuple) and y else y for y in t)


def appty(ft, at, arg):
    """type of the application of a function of type ft to arg of type at"""
    if ft[0] != 'arrow':
        return None
    d, rest = ft[1], ft[2] if len(ft) == 3 else ('arrow',) + ft[2:]
    if d[0] == 'quo':
        if at != d[2]:
            return None
        s = {d[1]: arg}
    else:
        s = tmatch(d, at, {})
        if s is None:
            return None
    r = pevt(sub(rest, s))
    if r is None or tg(r) and stuckg(r):
        return None
    return r


def tg(t):
    return t[0] != 'quo' and t[0] != 'x' and all(tg(y) for y in t[1:] if isinstance(y, tuple) and y and t[0] != 'l')


def pevt(t):
    if t[0] == 'arrow':
        return fl(('arrow',) + tuple(y if y[0] == 'quo' else pev(y) for y in t[1:]))
    return pev(t)


def typ(t):
    k = t[0]
    if k == 'k':
        if t[1] in SIG:
            return fresh(fty(*SIG[t[1]]), {})
        return CT.get(t[1])
    if k == 'l':
        return {'num': I, 'rat': K('Real'), 'str': K('Strg'), 'bool': BO}.get(t.o.cat) or BV(t.o.w)
    if k == 'v':
        return t[2]
    if k == 'arrow':
        return TY if all(typ(y) == TY for y in t[1:]) else None
    if k == 'as':
        return t[2] if t[2][0] == '@' and t[2][1] == K('Set') and typ(t[2]) == TY else None
    if k == 'opq':
        o, (a_, r_) = OPQ[t[1]]
        if len(t) - 2 != len(o):
            return None
        ft = fresh(fty(o + a_, r_), {})
        for y in t[2:]:
            yt = typ(y)
            if yt is None:
                return None
            ft = appty(ft, yt, y)
            if ft is None:
                return None
        return ft
    if k == '@':
        ft = typ(t[1])
        xt = typ(t[2])
        if ft is None or xt is None or not tg_arg(xt):
            return None
        return appty(ft, xt, t[2])
    raise ValueError(t)


def tg_arg(t):
    return True


def atoms():
    return [K(n_) for n_ in ('a', 'b', 'm', 'i', 'A1', 'A2', 'A3', 'v1', 'v2', 'v4')] + [N(0), N(1), N(2), N(3), N(-1), L(Bin(1, 1)), L(Bin(3, 5)), L(Bin(4, 0)), L(Bin(5, 9)), TRUE, L(Str('q')),
            L(Rat(1)), ('v', 'z', U), ('v', 'z', BV(3)), K('f'), K('g'), K('p'), K('s'), ('as', 'sempty', ap(K('Set'), U)), ('as', 'sempty', ap(K('Set'), I)), U, I, BO, BV(2), AR(U, U)]


def cases_T01(r, tier):
    N_ = 160 if tier == 'quick' else 4000
    for _ in range(N_):
        pool = [(t, typ(t)) for t in atoms()]
        checks, neg = [], []
        for _ in range(80):
            nm = r.choice(list(SIG) * 4 + list(OPQ) + ['?'])
            if nm == '?':
                t = r.choice(pool)[0]
                h, want = t, 1
                ft = typ(t)
            elif nm in OPQ:
                o, (a_, r_) = OPQ[nm]
                full = o + a_
                ft = fresh(fty(full, r_), {})
                want = len(full) if r.random() < .7 else len(o)
                h = None
            else:
                h = K(nm)
                ft = typ(h)
                n_ = len(SIG[nm][0])
                want = n_ if r.random() < .85 else r.randint(1, n_ + 1)
            args = []
            cur = ft
            for j in range(want):
                # usually an argument of the right type
                c_ = None
                if r.random() < .86 and cur is not None and cur[0] == 'arrow':
                    sh = r.sample(pool, len(pool))
                    for t, tt in sh:
                        z = appty(cur, tt, t)
                        if z is not None:
                            c_ = t
                            break
                if c_ is None:
                    c_ = r.choice(pool)[0]
                args.append(c_)
                if cur is not None and cur[0] == 'arrow':
                    cur = appty(cur, typ(c_), c_)
                else:
                    cur = None
            if nm in OPQ:
                no = len(OPQ[nm][0])
                if len(args) < no:
                    continue
                t = ap(('opq', nm) + tuple(args[:no]), *args[no:])
            else:
                t = ap(h, *args)
            T = typ(t)
            if T is None:
                if len(text(t)) < 300:
                    neg.append(t)
                continue
            if not tg(T):
                continue
            if len(text(t)) < 250:
                pool.append((t, T))
            k = r.random()
            src = text(t)
            if h is not None and h[0] == 'k' and r.random() < .6 and nm != '?':
                src = '(%s %s)' % (h[1], ' '.join(text(y) for y in args))
            if k < .4:
                checks.append(('%s has type %s' % (src, text(T)), '(define d%s () %s :type %s)' % (name()[1:], src, text(T))))
            elif k < .7:
                checks.append(chk('(eo::typeof %s)' % src, T))
            else:
                checks.append(('%s is well-typed' % src, '(assume %s (P %s))' % (name(), src)))
            if r.random() < .1:
                W = r.choice([U, I, BO, BV(1), BV(4), AR(U, U), ap(K('Array'), U, I)])
                if W != T:
                    yield Case('error', '%s of type %s does not have type %s' % (src, text(T), text(W)), text=TPRE + '(define d () %s :type %s)\n' % (src, text(W)))
        yield Case('correct', 'well-typed terms', prelude=TPRE, checks=checks)
        r.shuffle(neg)
        for t in neg[:8 if tier == 'quick' else 20]:
            h, n_ = t, []
            while h[0] == '@':
                n_.insert(0, h[2])
                h = h[1]
            src = text(t)
            if h[0] == 'k' and r.random() < .6:
                src = '(%s %s)' % (h[1], ' '.join(text(y) for y in n_))
            k = r.random()
            if k < .6:
                ln = '(assume @a (P %s))' % src
            elif k < .8:
                ln = '(step @a (P %s) :rule val :args (%s))' % (src, src)
            else:
                ln = '(define dd () (P %s) :type Bool)' % src
            yield Case('error', '%s is not well-typed' % src, text=TPRE + ln + '\n')
    # literals need a declared type, formulas are Boolean, types are types
    for ln, what in [('(assume @a (P 1.5e))', 'bad literal'), ('(assume @a a)', 'a formula that is not Boolean'), ('(declare-const k a)', 'a type that is not a type'),
                     ('(declare-const k 1)', 'a type that is not a type'), ('(assume @a (P #x1g))', 'bad literal'), ('(assume @a U)', 'a type as formula'),
                     ('(assume @a P)', 'a function as formula'), ('(assume @a (eo::add 1 1))', 'a number as formula'), ('(declare-const k (Array U))', 'a partially applied type'), ('(declare-const k (BitVec U))', 'an ill-kinded type'),
                     ('(assume @a (P undeclared))', 'an unknown symbol'), ('(assume @a (a b))', 'a constant applied'), ('(assume @a (m))', 'an application without arguments'), ('(declare-const k (->))', 'a function type without types'),
                     ('(assume @a (_))', 'an application of nothing'), ('(assume @a (as))', 'as without arguments'),
                     ('(assume @a (P (as sempty U)))', 'as with a type that does not fit')]:
        yield Case('error', what, text=TPRE + ln + '\n')


# ---------------------------------------------------------------- desugaring
DPRE = '''(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const BitVec (-> Int Type))
(declare-consts <binary> (BitVec (eo::len eo::self)))
(declare-const U Type)
(declare-const L Type)
(declare-const a U)
(declare-const b U)
(declare-const c U)
(declare-const d U)
(declare-const nl U)
(declare-const lnil L)
(declare-const lcons (-> U L L) :right-assoc-nil lnil)
(declare-const ra (-> U U U) :right-assoc)
(declare-const la (-> U U U) :left-assoc)
(declare-const rn (-> U U U) :right-assoc-nil nl)
(declare-const ln (-> U U U) :left-assoc-nil nl)
(declare-const rns (-> U U U) :right-assoc-nil-non-singleton-nil nl)
(declare-const lns (-> U U U) :left-assoc-nil-non-singleton-nil nl)
(declare-const bop (-> U U U))
(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-const land (-> Bool Bool Bool) :left-assoc-nil true)
(declare-const ands (-> Bool Bool Bool) :right-assoc-nil-non-singleton-nil true)
(declare-const rimp (-> Bool Bool Bool) :right-assoc)
(declare-const lt (-> U U Bool) :chainable and)
(declare-const ltl (-> U U Bool) :chainable land)
(declare-const lts (-> U U Bool) :chainable ands)
(declare-const ltr (-> U U Bool) :chainable rimp)
(declare-const dist (-> U U Bool) :pairwise and)
(declare-const distl (-> U U Bool) :pairwise land)
(declare-const dists (-> U U Bool) :pairwise ands)
(declare-const lst (-> L Bool) :arg-list lcons)
(declare-const lstr (-> U Bool) :arg-list rn)
(declare-const all (-> L Bool Bool) :binder lcons)
(declare-const rel3 (-> U U U U))
(declare-parameterized-const opq ((x U :opaque) (y U :opaque)) (-> U U U))
(declare-const p (-> U Bool))
(declare-const m Bool)
(declare-const n Bool)
(declare-const k Bool)
(declare-const v U)
(declare-parameterized-const bvor ((w Int :implicit)) (-> (BitVec w) (BitVec w) (BitVec w)) :right-assoc-nil (eo::to_bin w 0))
(declare-parameterized-const bvandl ((w Int :implicit)) (-> (BitVec w) (BitVec w) (BitVec w)) :left-assoc-nil (eo::to_bin w (eo::add (eo::to_z (eo::not (eo::to_bin w 0))))))
(declare-parameterized-const P ((T Type :implicit)) (-> T Bool))
(declare-rule val ((T Type) (x T)) :args (x) :conclusion (P x))
'''
DPRE = DPRE.replace('-assoc-nil-non-singleton-nil', '-assoc-non-singleton-nil')
DPRE = DPRE.replace('(eo::to_bin w (eo::add (eo::to_z (eo::not (eo::to_bin w 0)))))', '(eo::not (eo::to_bin w 0))')
# name -> kind, side, nil
DA = {'ra': ('assoc', 'r', None), 'la': ('assoc', 'l', None), 'rimp': ('assoc', 'r', None),
      'rn': ('nil', 'r', K('nl')), 'ln': ('nil', 'l', K('nl')), 'rns': ('ns', 'r', K('nl')), 'lns': ('ns', 'l', K('nl')),
      'or': ('nil', 'r', FALSE), 'and': ('nil', 'r', TRUE), 'land': ('nil', 'l', TRUE), 'ands': ('ns', 'r', TRUE), 'lcons': ('nil', 'r', K('lnil')),
      'bvor': ('nil', 'r', lambda w: L(Bin(w, 0))), 'bvandl': ('nil', 'l', lambda w: L(Bin(w, 2 ** w - 1))),
      'lt': ('chain', 'and', None), 'ltl': ('chain', 'land', None), 'lts': ('chain', 'ands', None), 'ltr': ('chain', 'rimp', None),
      'dist': ('pair', 'and', None), 'distl': ('pair', 'land', None), 'dists': ('pair', 'ands', None),
      'lst': ('args', 'lcons', None), 'lstr': ('args', 'rn', None)}
DL = {f: (z, s == 'l') for f, (k_, s, z) in DA.items() if k_ in ('nil', 'ns') and not callable(z)}


def desug(f, xs, lst=(), w=None):
    """the term the application (f xs...) denotes; positions in lst are :list
    parameters; may contain list operators (then evaluate with Interp)"""
    kd, side, nil = DA[f]
    h = K(f)
    n_ = len(xs)
    if kd == 'assoc':
        r = xs[0] if side == 'l' else xs[-1]
        for x_ in (xs[1:] if side == 'l' else xs[-2::-1]):
            r = ap(h, r, x_) if side == 'l' else ap(h, x_, r)
        return r
    if kd in ('nil', 'ns'):
        z = nil(w) if callable(nil) else nil
        idx = list(range(n_)) if side == 'l' else list(range(n_ - 1, -1, -1))
        if idx[0] in lst:
            r = xs[idx[0]]
            idx = idx[1:]
        else:
            r = z
        cnt = 0
        for i_ in idx:
            a_ = (r, xs[i_]) if side == 'l' else (xs[i_], r)
            if i_ in lst:
                r = op('list_concat', h, *a_)
            else:
                r = ap(h, *a_)
                cnt += 1
        if kd == 'ns' and cnt < 2:
            r = op('list_singleton_elim', h, r)
        return r
    if kd in ('chain', 'pair'):
        ps = [(i_, i_ + 1) for i_ in range(n_ - 1)] if kd == 'chain' else [(i_, j_) for i_ in range(n_) for j_ in range(i_ + 1, n_)]
        cs = [ap(h, xs[i_], xs[j_]) for i_, j_ in ps]
        if len(cs) == 1:
            return cs[0]
        if not cs:
            return DA[side][2]
        return desug(side, cs)
    if kd == 'args':
        if n_ == 1 and 0 in lst:
            return ap(h, xs[0])
        return ap(h, desug(side, xs, lst))
    raise ValueError(kd)


def dargs(r, f, n_):
    """arguments for f"""
    kd = DA[f][0]
    if f in ('or', 'and', 'land', 'ands', 'rimp'):
        return [r.choice([K('m'), K('n'), K('k'), TRUE, FALSE, ap(K('p'), K('a'))]) for _ in range(n_)], 'Bool', None
    if f in ('bvor', 'bvandl'):
        w = r.choice([1, 2, 5, 33])
        return [L(Bin(w, r.randrange(2 ** w))) for _ in range(n_)], '(BitVec %d)' % w, w
    if f == 'lcons':
        xs = [r.choice([K('a'), K('b'), K('c'), K('nl')]) for _ in range(n_)]
        return xs, 'U', None
    return [r.choice([K('a'), K('b'), K('c'), K('d'), K('nl'), ap(K('bop'), K('a'), K('b'))]) for _ in range(n_)], 'U', None


def listof(r, f, w=None):
    """an f-list (or the neutral element)"""
    nil, left = (DA[f][2], DA[f][1] == 'l')
    z = nil(w) if callable(nil) else nil
    n_ = r.choice([0, 0, 1, 2, 3])
    xs = dargs(r, f, n_)[0] if w is None else [L(Bin(w, r.randrange(2 ** w))) for _ in range(n_)]
    for x_ in xs[::-1]:
        z = ap(K(f), z, x_) if left else ap(K(f), x_, z)
    return z


def cases_T02(r, tier):
    N_ = 120 if tier == 'quick' else 800
    class IN:
        @staticmethod
        def ev(t):
            return Interp(lists=DL, fuel=40000).ev(t)
    for _ in range(N_):
        checks, neg = [], []
        # applications to ground arguments
        for f in DA:
            for _ in range(4):
                n_ = r.choice([1, 2, 2, 3, 3, 4, 5, 7])
                kd = DA[f][0]
                if DA[f][0] == 'chain' and n_ == 1 and DA[DA[f][1]][2] is None or f == 'lstr' and False:
                    continue
                xs, ty, w = dargs(r, f, n_)
                want = IN.ev(desug(f, xs, w=w)) if not callable(DA[f][2]) else desug(f, xs, w=w)
                src = '(%s %s)' % (f, ' '.join(text(x_) for x_ in xs))
                checks.append(chk(src, want))
                if f == 'lcons':
                    checks.append(chk('(lcons %s lnil)' % ' '.join(text(x_) for x_ in xs), desug('lcons', xs + [K('lnil')])) if False else
                                  chk('(eo::cons lcons %s lnil)' % text(xs[0]), desug('lcons', xs[:1])))
                # a different nesting is a different term
                if n_ >= 3 and r.random() < .3:
                    ys = list(xs)
                    r.shuffle(ys)
                    other = desug(f, ys, w=w) if callable(DA[f][2]) else IN.ev(desug(f, ys, w=w))
                    if other != want:
                        checks.append(chk_ne(src, text(other)))
                # higher-order application: no desugaring
                if n_ <= 2 and kd not in ('args',) and (f != 'lcons' or n_ == 1):
                    checks.append(chk('(_ %s %s)' % (f, ' '.join(text(x_) for x_ in xs)), ap(K(f), *xs)))
                # nested as an argument
                if f in ('rn', 'ln', 'ra', 'la', 'rns', 'lns') and r.random() < .5:
                    f2 = r.choice(['rn', 'ln', 'ra', 'la', 'rns', f, f])
                    n2 = r.choice([1, 2, 3, 4])
                    ys, _, _ = dargs(r, f2, n2)
                    k_ = r.randrange(n2)
                    zs = list(ys)
                    zs[k_] = want
                    src2 = '(%s %s)' % (f2, ' '.join(src if j_ == k_ else text(ys[j_]) for j_ in range(n2)))
                    checks.append(chk(src2, IN.ev(desug(f2, zs))))
        # lists of arguments through :list parameters
        for f in [f_ for f_ in DA if DA[f_][0] in ('nil', 'ns', 'args', 'assoc')]:
            for _ in range(3):
                n_ = r.choice([1, 2, 2, 3, 3, 4])
                kd = DA[f][0]
                base = DA[f][1] if kd == 'args' else f
                xs, ty, w = dargs(r, base, n_)
                lst = set(j_ for j_ in range(n_) if r.random() < .5)
                if kd == 'assoc' and n_ == 1:
                    continue
                if kd == 'args' and base == 'lcons' and lst and lst != {n_ - 1}:
                    lst = {n_ - 1}
                for j_ in lst:
                    if kd != 'assoc':
                        xs[j_] = listof(r, base, w)
                if base == 'lcons' and kd != 'args':
                    lst = {j_ for j_ in lst if j_ == n_ - 1}
                    xs = [K('a') if (j_ not in lst and x_ not in (K('a'), K('b'), K('c'), K('nl'))) else x_ for j_, x_ in enumerate(xs)]
                tl = (lambda j_: 'L' if base == 'lcons' and j_ in lst else ty)
                eff = set() if kd == 'assoc' else lst
                t = desug(f, xs, eff, w)
                if callable(DA[base][2]):
                    IN2 = Interp(lists={base: (DA[base][2](w), DA[base][1] == 'l')})
                    want = IN2.ev(t)
                    wty = ty
                else:
                    want = IN.ev(t)
                nm = name()[1:]
                ps = ' '.join('(x%d %s%s)' % (j_, tl(j_), ' :list' if j_ in lst else '') for j_ in range(n_))
                body = '(%s %s)' % (f, ' '.join('x%d' % j_ for j_ in range(n_)))
                argt = ' '.join(text(x_) for x_ in xs)
                kk = r.random()
                if want == STUCK:
                    continue
                if kk < .45:
                    checks.append(('(%s) with %s = %s' % (body, ps, argt), '(define m%s (%s) %s)\n%s' % (nm, ps, body, chk('(m%s %s)' % (nm, argt), want)[1])))
                elif kk < .75:
                    st = name()
                    checks.append(('a rule concluding (P %s) with %s = %s' % (body, ps, argt),
                                   '(declare-rule r%s (%s) :args (%s) :conclusion (P %s))\n(step %s (P %s) :rule r%s :args (%s))' % (
                                       nm, ps, ' '.join('x%d' % j_ for j_ in range(n_)), body, st, text(want), nm, argt)))
                else:
                    tys = ' '.join(tl(j_) for j_ in range(n_))
                    rt = {'lst': 'Bool', 'lstr': 'Bool', 'lcons': 'L'}.get(f, ty)
                    checks.append(('a program returning %s with %s = %s' % (body, ps, argt),
                                   '(program $g%s (%s) :signature (%s) %s ((($g%s %s) %s)))\n%s' % (
                                       nm, ps, tys, rt, nm, ' '.join('x%d' % j_ for j_ in range(n_)), body, chk('($g%s %s)' % (nm, argt), want)[1])))
        # matching against a pattern with a :list tail
        for f in ('rn', 'ln', 'or', 'land'):
            z, left = DL[f]
            xs, ty, _ = dargs(r, f, r.choice([1, 2, 3, 4]))
            t = desug(f, xs)
            nm = name()[1:]
            rest = desug(f, xs[:-1] if left else xs[1:]) if len(xs) > 1 else z
            hd_ = xs[-1] if left else xs[0]
            pat = '(%s ys y)' % f if left else '(%s y ys)' % f
            checks.append(('the tail of %s' % text(t), '(program $t%s ((y %s) (ys %s :list)) :signature (%s) %s ((($t%s %s) ys)))\n%s' % (
                nm, ty, ty, ty, ty, nm, pat, chk('($t%s %s)' % (nm, text(t)), rest)[1])))
            checks.append(('the first element of %s' % text(t), '(program $h%s ((y %s) (ys %s :list)) :signature (%s) %s ((($h%s %s) y)))\n%s' % (
                nm, ty, ty, ty, ty, nm, pat, chk('($h%s %s)' % (nm, text(t)), hd_)[1])))
            # without :list the pattern is an application with exactly two elements
            t2 = desug(f, xs)
            want = xs[1 if not left else 1] if len(xs) == 2 else STUCK
            checks.append(('two elements of %s' % text(t), '(program $n%s ((y %s) (ys %s)) :signature (%s) %s ((($n%s (%s y ys)) ys)))\n%s' % (
                nm, ty, ty, ty, ty, nm, f, chk('($n%s %s)' % (nm, text(t)), want)[1])))
        # a parametric nil in a generic rule
        w = r.choice([1, 3, 8])
        for f in ('bvor', 'bvandl'):
            xs = [L(Bin(w, r.randrange(2 ** w))) for _ in range(2)]
            nm = name()[1:]
            checks.append(('(%s x y) at an abstract width' % f, '(declare-rule r%s ((w Int) (x (BitVec w)) (y (BitVec w))) :args (x y) :conclusion (P (%s x y)))\n(step %s (P %s) :rule r%s :args (%s %s))' % (
                nm, f, name(), text(desug(f, xs, w=w)), nm, text(xs[0]), text(xs[1]))))
        # binders
        for _ in range(4):
            vs = [('%s%d' % (r.choice('xyz'), j_)) for j_ in range(r.choice([1, 2, 3]))]
            src = '(all (%s) (p %s))' % (' '.join('(%s U)' % v_ for v_ in vs), vs[0])
            want = ap(K('all'), desug('lcons', [('v', v_, U) for v_ in vs]), ap(K('p'), ('v', vs[0], U)))
            checks.append(chk(src, want))
        # opaque arguments
        xs = [r.choice([K('a'), K('b'), K('c')]) for _ in range(3)]
        checks.append(chk('(opq %s)' % ' '.join(text(x_) for x_ in xs), ap(('opq', 'opq', xs[0], xs[1]), xs[2])))
        nm = name()[1:]
        checks.append(('the parts of an opaque application cannot be taken apart',
                       '(program $o%s ((x U) (y U) (z U)) :signature (U) U ((($o%s (opq x y z)) y)))\n%s' % (nm, nm, chk('($o%s (opq %s))' % (nm, ' '.join(text(x_) for x_ in xs)), xs[1])[1])))
        yield Case('correct', 'desugaring', prelude=DPRE, checks=checks)
    for ln, what in [('(assume @a (P (lcons a b)))', 'a list of a non-list tail is still nil-terminated, b is an element'),]:
        yield Case('correct', what, text=DPRE + ln + '\n')
    for ln, what in [('(assume @a (P (rel3 a b c d)))', 'too many arguments'), ('(assume @a (P (bop a b c)))', 'no attribute: three arguments'),
                     ('(assume @a (P (lt a)))\n(assume @b (P (ltr a)))', 'a chain of one argument with a combinator without neutral element')]:
        yield Case('error', what, text=DPRE + ln + '\n')


def cases(prop, r, tier):
    yield from globals()['cases_' + prop](r, tier)
