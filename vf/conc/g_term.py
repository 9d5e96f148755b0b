"""Identity of terms (B01), matching (B02), programs (B03), substitution (B04)."""
from .core import Case
from . import lits
from .lits import Num, Rat, Bin, Str, Bool
from .lang import *
from .g_core import value, uterm, typeof, a, b, c, d, m, n

U = K('U')

TPRE = PRE + '''(declare-const h5 (-> U U U U U U))
(declare-parameterized-const pr ((T Type :implicit) (S Type :implicit)) (-> T S U))
(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)
(declare-parameterized-const pf ((x (-> U U) :opaque)) (-> U U))
(define mk_f ((x U) (y U)) (f x y))
(define sw_f ((x U) (y U)) (f y x))
(define mk_g ((x U)) (g x))
(define mk_h ((x U) (y U) (z U)) (h x y z))
(define ro_h ((x U) (y U) (z U)) (h y z x))
(program idp ((T Type) (x T)) :signature (T) T (((idp x) x)))
(program fst ((T Type) (S Type) (x T) (y S)) :signature (T S) T (((fst x y) x)))
(program flp ((x U) (y U)) :signature (U) U (((flp (f x y)) (f y x)) ((flp x) x)))
'''


def lit_route(r, o):
    """source text that denotes the literal o"""
    k = r.random()
    t = o.text()
    if k < .4:
        return t
    if o.cat == 'num':
        x = r.choice([r.randint(-5, 5), r.randint(-2 ** 70, 2 ** 70)])
        return r.choice(['(eo::add %d %d)' % (o.v - x, x), '(eo::neg %d)' % -o.v, '(eo::to_z %d/1)' % o.v,
                         '(eo::add (eo::mul %d %d) %d)' % ((x or 1), o.v // (x or 1), o.v - (x or 1) * (o.v // (x or 1)))])
    if o.cat == 'rat':
        v = o.v
        q = r.choice([1, 2, 3, 10])
        l = ['%d/%d' % (v.numerator * q, v.denominator * q), '(eo::qdiv %d %d)' % (v.numerator * q, v.denominator * q),
             '(eo::neg (eo::neg %s))' % t]
        if v.denominator == 1:
            l += ['(eo::to_q %d)' % v.numerator]
        return r.choice(l)
    if o.cat == 'bin':
        l = ['(eo::to_bin %d %d)' % (o.w, o.v), '(eo::not (eo::not %s))' % t]
        if o.w > 1:
            s = r.randint(1, o.w - 1)
            l.append('(eo::concat %s %s)' % (Bin(o.w - s, o.v >> s).text(), Bin(s, o.v & ((1 << s) - 1)).text()))
        return r.choice(l)
    if o.cat == 'str':
        cs = list(o.c)
        s = r.randint(0, len(cs))
        l = ['(eo::concat %s %s)' % (Str(cs[:s]).text(), Str(cs[s:]).text())]
        if len(cs) == 1:
            l.append('(eo::to_str %d)' % cs[0])
        if cs:
            l.append('(eo::extract %s 1 %d)' % (Str([97] + cs).text(), len(cs)))
        return r.choice(l)
    return r.choice([t, '(eo::eq a %s)' % ('a' if o.b else 'b'), '(eo::not %s)' % ('false' if o.b else 'true')])


def route(r, t, dep=3, bound=()):
    """a source text that denotes t"""
    if dep <= 0:
        return text(t)
    if r.random() < .12:
        x = route(r, t, dep - 1)
        return r.choice(['(eo::requires 0 0 %s)', '(eo::ite true %s c)', '(eo::ite false (eo::neg "q") %s)', '(idp %s)', '(fst %s 0)',
                         '(eo::define ((zz %s)) zz)', '(eo::requires (eo::add 1 1) 2 %s)']) % x
    k = t[0]
    if k == 'k':
        return r.choice([t[1], t[1], '|%s|' % t[1]]) if t[1] not in ('Bool', 'Type') else t[1]
    if k == 'l':
        return lit_route(r, t.o)
    if k == 'v':
        return r.choice([text(t), '(eo::var %s %s)' % (lit_route(r, Str(t[1])), route(r, t[2], dep - 1))])
    if k == 'arrow':
        if len(t) > 3 and r.random() < .4:
            s = r.randint(2, len(t) - 2)
            return '(-> %s %s)' % (' '.join(route(r, x, dep - 1) for x in t[1:s]), route(r, ('arrow',) + t[s:], dep - 1))
        return '(-> %s)' % ' '.join(route(r, x, dep - 1) for x in t[1:])
    hs, xs = t, []
    while hs[0] == '@':
        xs.insert(0, hs[2])
        hs = hs[1]
    X = [route(r, x, dep - 1) for x in xs]
    H = route(r, hs, dep - 1) if hs[0] != 'k' else hs[1]
    k = r.random()
    if hs == K('f') and len(X) == 2 and k < .4:
        return r.choice(['(mk_f %s %s)' % tuple(X), '(sw_f %s %s)' % (X[1], X[0]), '(flp (f %s %s))' % (X[1], X[0]),
                         '(eo::define ((u1 %s) (u2 %s)) (f u1 u2))' % tuple(X), '(eo::define ((b %s)) (f %s b))' % (X[1], text(xs[0])) if 'b' not in text(xs[0]) else '(mk_f %s %s)' % tuple(X)])
    if hs == K('g') and len(X) == 1 and k < .3:
        return '(mk_g %s)' % X[0]
    if hs == K('h') and len(X) == 3 and k < .4:
        return r.choice(['(mk_h %s %s %s)' % tuple(X), '(ro_h %s %s %s)' % (X[2], X[0], X[1])])
    if hs[0] == 'k' and k < .7 and hs[1] not in ('or',):
        return '(%s %s)' % (H, ' '.join(X))
    if len(X) > 1 and k < .9:
        s = r.randint(1, len(X) - 1)
        return '(_ (_ %s %s) %s)' % (H, ' '.join(X[:s]), ' '.join(X[s:]))
    return '(_ %s %s)' % (H, ' '.join(X))


def mutate(r, t):
    """a term close to t and usually different"""
    k = t[0]
    if k == '@' and r.random() < .8:
        i = r.choice([1, 2, 2])
        if r.random() < .25 and t[1][0] == '@':
            # swap the last two arguments
            return ('@', ('@', t[1][1], t[2]), t[1][2])
        return t[:i] + (mutate(r, t[i]),) + t[i + 1:]
    if k == 'l':
        o = t.o
        if o.cat == 'num':
            return r.choice([N(o.v + 1), N(-o.v), L(Rat(o.v)), L(Str(str(o.v))), N(o.v + 2 ** 32), N(o.v + 2 ** 64), L(Bin(4, o.v % 16)), K('c')])
        if o.cat == 'bin':
            return r.choice([L(Bin(o.w + 1, o.v)), L(Bin(o.w, (o.v + 1) % 2 ** o.w)), N(o.v), L(Bin(o.w + 4, o.v))])
        if o.cat == 'rat':
            return r.choice([L(Rat(o.v + 1)), L(Rat(-o.v)), N(int(o.v)), L(Rat(o.v / 2))])
        if o.cat == 'str':
            cs = list(o.c)
            return r.choice([L(Str(cs + [97])), L(Str(cs[1:])), L(Str(cs[::-1])), L(Str(cs + [0]))])
        return r.choice([TRUE, FALSE, m, L(Str('true')), L(Str('false'))])
    if k == 'v':
        return r.choice([('v', t[1], r.choice([U, K('Int'), K('Bool')])), ('v', t[1] + 'x', t[2]), K('a'), L(Str(t[1]))])
    if k == 'arrow':
        i = r.randint(1, len(t) - 1)
        return r.choice([t[:i] + (r.choice([U, K('Int'), K('Bool')]),) + t[i + 1:], t + (U,), ('arrow', t)+(U,)])
    if k == 'k' and t in (a, b, c, d):
        return r.choice([a, b, c, d, ap(K('g'), t), ('v', t[1], U)])
    return t


def gterm(r, dep):
    """values in which everything occurs"""
    k = r.random()
    if dep == 0 or k < .2:
        return value(r, 1) if r.random() < .4 else r.choice([a, b, c, d])
    if k < .5:
        return uterm(r, dep)
    if k < .75:
        return ap(K('pr'), gterm(r, dep - 1), gterm(r, dep - 1))
    if k < .8:
        return ('@', K('pr'), gterm(r, dep - 1))
    if k < .85:
        return ap(K('h5'), *[uterm(r, dep - 1) for _ in range(r.randint(1, 5))])
    if k < .92:
        t = ('arrow',) + tuple(r.choice([U, K('Int'), K('Bool'), ('arrow', U, U)]) for _ in range(r.randint(2, 5)))
        return t
    return L(r.choice([Num(r.randint(-2 ** 80, 2 ** 80)), Rat(lits.Fraction(r.randint(-9, 9), r.randint(1, 9))), Bin(8, r.randint(0, 255)), Bin(70, r.randint(0, 2 ** 70 - 1)),
                       Str([r.choice([97, 98, 34, 92, 0, 196607, 0x1f600]) for _ in range(r.randint(0, 5))])]))


def norm(t):
    """-> is right associative"""
    if t[0] == 'arrow':
        x = [norm(y) for y in t[1:]]
        while x[-1][0] == 'arrow':
            x = x[:-1] + list(x[-1][1:])
        return ('arrow',) + tuple(x)
    if t[0] == '@':
        return ('@', norm(t[1]), norm(t[2]))
    if t[0] == 'v':
        return ('v', t[1], norm(t[2]))
    return t


def cases_B01(r, tier):
    N_ = 300 if tier == 'quick' else 4000
    for _ in range(N_):
        checks = []
        pre = TPRE
        kept = []
        for j in range(r.randint(2, 30)):
            t = norm(gterm(r, r.randint(0, 4)))
            if r.random() < .3:
                pre += '(define d%d () %s)\n' % (j, route(r, t))
                kept.append((t, 'd%d' % j))
            elif r.random() < .3:
                # short-lived terms, released again when the scope ends
                pre += '(assume-push @h%d_%d (P %s))\n(define dd () %s)\n(step-pop @i%d_%d (P 0) :rule drp)\n' % (
                    j, len(pre), route(r, t), route(r, mutate(r, t)), j, len(pre))
        pre = TPRE + '(declare-rule drp ((F Bool)) :assumption F :conclusion (P 0))\n' + pre[len(TPRE):]
        for _ in range(60):
            if kept and r.random() < .4:
                t, s1 = r.choice(kept)
            else:
                t = norm(gterm(r, r.randint(0, 4)))
                s1 = route(r, t)
            k = r.random()
            u = t if k < .45 else mutate(r, t) if k < .8 else norm(gterm(r, 2))
            u = norm(u)
            s2 = route(r, u)
            if kept and r.random() < .2:
                u, s2 = r.choice(kept)
            if r.random() < .3:
                # structure around
                f = r.choice(['(pr c %s)', '(pr %s c)', '(pr (pr %s b) a)', '(pr (pr a %s) 0)'])
                s1, s2 = f % s1, f % s2
            checks.append(('%s and %s are %s' % (s1, s2, 'the same term' if t == u else 'different terms'),
                           '(step %s (P %s) :rule val :args ((eo::eq %s %s)))' % (name(), 'true' if t == u else 'false', s1, s2)))
            if r.random() < .3:
                checks.append(('the conclusion %s is %s' % (s1, text(t)), '(step %s (P %s) :rule val :args (%s))' % (name(), s1, route(r, t)))
                              if '(pr' not in s1[:4] else checks[-1])
                if checks[-1] is checks[-2]:
                    checks.pop()
            if r.random() < .04:
                pre_line = '(define e%s () %s)' % (name()[1:], route(r, t))
                checks.append(('definition', pre_line))
        yield Case('correct', 'identity of terms', prelude=pre, checks=checks)
    # literals of all categories, none of them normalized
    PRE_NOLIT = ''.join(l for l in PRE.splitlines(True) if not l.startswith('(declare-consts'))
    cats = '(declare-const LH Type)\n(declare-const LB Type)\n(declare-const LD Type)\n(declare-const LR Type)\n(declare-const LN Type)\n' \
           '(declare-consts <hexadecimal> LH)\n(declare-consts <binary> LB)\n(declare-consts <decimal> LD)\n(declare-consts <rational> LR)\n(declare-consts <numeral> LN)\n'
    for i in range(N_ // 15):
        checks = []

        def lit():
            k, v = r.choice('hbdrn'), r.choice([0, 1, 2, 5, 10, 15, 16, 165])
            if k in 'hb':
                w = r.choice([4, 8, 12])
                v %= 1 << w
                if k == 'h':
                    t = '%0*x' % (w // 4, v)
                    return (k, w, v), '#x' + ''.join(r.choice([c, c.upper()]) for c in t)
                return (k, w, v), '#b' + format(v, '0%db' % w)
            if k == 'd':
                return (k, v), '%d.%s' % (v, '0' * r.randint(1, 3))
            if k == 'r':
                q = r.choice([1, 2, 3])
                return (k, v), '%d/%d' % (v * q, q)
            return (k, v), str(v)
        for _ in range(60):
            x, s1 = lit()
            y, s2 = lit()
            if r.random() < .5:
                z = [l for l in (lit() for _ in range(60)) if l[0] == x or (l[0][0] != x[0] and l[0][1:] == x[1:])]
                y, s2 = r.choice(z) if z else (y, s2)
            checks.append(('%s and %s are %s' % (s1, s2, 'the same term' if x == y else 'different terms'),
                           '(step %s (P %s) :rule val :args ((eo::eq %s %s)))' % (name(), 'true' if x == y else 'false', s1, s2)))
        yield Case('correct', 'identity of literals', prelude=cats + PRE_NOLIT, checks=checks, args=['--no-normalize-hex', '--no-normalize-dec'])


# ---------------------------------------------------------------- matching
GP = '''(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)
(declare-parameterized-const pr ((T Type :implicit) (S Type :implicit)) (-> T S U))
(declare-parameterized-const tup ((T Type :implicit)) (-> T Tup Tup) :right-assoc-nil tnil)
(declare-parameterized-const pf ((x (-> U U) :opaque)) (-> U U))
'''
MPRE = PRE + '(declare-const Tup Type)\n(declare-const tnil Tup)\n' + GP


def pattern(r, t, names, dep=0):
    """a pattern obtained from the term t by abstraction (matches t, unless names repeat)"""
    k = r.random()
    if t[0] == '@' and k < .75:
        if r.random() < .1:
            return pvar(r, names)
        return ('@', pattern(r, t[1], names, dep + 1), pattern(r, t[2], names, dep + 1))
    if k < .55:
        return pvar(r, names)
    return t


def pvar(r, names):
    if names and r.random() < .3:
        return X(r.choice(names))
    x = 'x%d' % len(names)
    names.append(x)
    return X(x)


def pvars(p, out=None):
    out = [] if out is None else out
    if p[0] == 'x':
        if p[1] not in out:
            out.append(p[1])
    elif p[0] in ('@', 'arrow', 'op', 'call'):
        for x in p[1:]:
            if isinstance(x, tuple):
                pvars(x, out)
    return out


def tup(l, tail=None):
    t = tail if tail is not None else K('tnil')
    for x in reversed(l):
        t = ap(K('tup'), x, t)
    return t


def bterm(r, dep):
    """terms in which subterms repeat"""
    if dep == 0 or r.random() < .2:
        return r.choice([a, b, a, b, c, N(0), N(1), TRUE, L(Str('a')), L(Bin(2, 1))])
    k = r.random()
    if k < .35:
        return ap(K('pr'), bterm(r, dep - 1), bterm(r, dep - 1))
    if k < .5:
        x = bterm(r, dep - 1)
        return ap(K('pr'), x, x)
    if k < .65:
        return ap(K('f'), r.choice([a, b, ap(K('g'), a)]), r.choice([a, b, ap(K('g'), a)]))
    if k < .75:
        return ap(K('g'), r.choice([a, b, ap(K('g'), a)]))
    if k < .9:
        return tup([bterm(r, dep - 1) for _ in range(r.randint(0, 3))])
    if k < .95:
        return ('v', r.choice(['x', 'y']), r.choice([U, K('Int')]))
    return ap(K('h'), *[r.choice([a, b, c]) for _ in range(r.randint(1, 3))])


def decl(vs, pre='T'):
    return ' '.join('(%s_%s Type) (%s %s_%s)' % (pre, v, v, pre, v) for v in vs)


def cases_B02(r, tier):
    N_ = 4000 if tier == 'quick' else 80000
    checks = []
    for k in range(N_):
        t = bterm(r, r.randint(1, 4))
        names = []
        p = pattern(r, t, names)
        z = r.random()
        if z < .3:
            t = mutate(r, t)
        elif z < .4:
            t = bterm(r, 3)
        elif z < .55 and p[0] == '@':
            # an instance of the pattern
            t = subst(p, {v: r.choice([a, b, N(0), ap(K('g'), a)]) for v in names})
            if t[0] != '@' or not welltyped(t):
                continue
        if not welltyped(t) or not welltyped_pat(p):
            continue
        s = match(p, t, {})
        vs = pvars(p)
        res = tup([X(v) for v in vs])
        nm = 'q%d' % k
        want = subst(res, s) if s is not None else L(Str('no'))
        route_ = r.random()
        if route_ < .45:
            # as the pattern of a program, next to further arguments
            extra = r.choice(['', '', ' y', ' 0'])
            arg = {'': '', ' y': ' (g b)', ' 0': ' 0'}[extra]
            src = '(program %s ((PT Type) (PS Type) (PR Type) (yy PT) (zz PS) %s (Ty Type) (y Ty)) :signature (PT%s) PR (((%s %s%s) %s) ((%s yy%s) "no")))' % (
                nm, decl(vs), ' PS' if extra else '', nm, text(p), extra, text(res), nm, ' zz' if extra else '')
            ln = src + '\n(step %s (P %s) :rule val :args ((%s %s%s)))' % (name(), text(want), nm, text(t), arg)
        elif route_ < .7:
            # as the argument pattern of a rule
            src = '(declare-rule %s (%s) :args (%s) :conclusion (P %s))' % (nm, decl(vs), text(p), text(res))
            st = '(step %s (P %s) :rule %s :args (%s))' % (name(), text(want), nm, text(t))
            ln = src + '\n' + st
            if s is None:
                yield Case('error', '%s is not an instance of the argument pattern %s' % (text(t), text(p)), text=MPRE + src + '\n' + st.replace('(P "no") ', '') + '\n')
                continue
        else:
            # as a premise pattern, possibly together with an argument
            src = '(declare-rule %s (%s) :premises ((P %s)) :conclusion (P %s))' % (nm, decl(vs), text(p), text(res))
            an = name()
            st = '(assume %s (P %s))\n(step %s (P %s) :rule %s :premises (%s))' % (an, text(t), name(), text(want), nm, an)
            ln = src + '\n' + st
            if s is None:
                yield Case('error', '(P %s) is not an instance of the premise pattern (P %s)' % (text(t), text(p)), text=MPRE + src + '\n' + st.replace('(P "no") ', '') + '\n')
                continue
        checks.append(('matching %s with %s gives %s' % (text(p), text(t), text(want)), ln))
        if len(checks) >= 100:
            yield Case('correct', 'matching', prelude=MPRE, checks=checks)
            checks = []
    yield Case('correct', 'matching', prelude=MPRE, checks=checks)


def ty(t):
    """type of a term over the constants of the prelude, or None"""
    k = t[0]
    A = lambda *x: ('arrow',) + x
    if k == 'k':
        n_ = t[1]
        B_, I = K('Bool'), K('Int')
        return {'f': A(U, U, U), 'g': A(U, U), 'h': A(U, U, U, U), 'p': A(U, B_), 's': A(I, I), 'h5': A(U, U, U, U, U, U), 'm': B_, 'n': B_, 'i': I,
                'q': A(B_, B_, B_), 'or': A(B_, B_, B_), 'pr': A('*', '*', U), 'tup': A('*', K('Tup'), K('Tup')), 'P': A('*', B_), 'tnil': K('Tup'), 'a': U, 'b': U, 'c': U, 'd': U,
                'U': K('Type'), 'Int': K('Type'), 'Bool': K('Type')}.get(n_)
    if k == 'l':
        return {'num': K('Int'), 'rat': K('Real'), 'bin': K('BV'), 'str': K('Strg'), 'bool': K('Bool')}[t.o.cat]
    if k == 'v':
        return t[2]
    if k == 'arrow':
        return K('Type') if all(ty(x) == K('Type') for x in t[1:]) else None
    if k == '@':
        ft, xt = ty(t[1]), ty(t[2])
        if ft is None or xt is None or ft[0] != 'arrow':
            return None
        if ft[1] != '*' and ft[1] != xt:
            return None
        return ft[2] if len(ft) == 3 else ('arrow',) + ft[2:]
    return None


def welltyped(t):
    return ty(t) is not None


def welltyped_pat(p):
    """patterns are type checked loosely; keep those whose ground parts are well-typed"""
    if p[0] == '@':
        return welltyped_pat(p[1]) and welltyped_pat(p[2]) and head(p)[0] != 'l' and (not ground_(p) or welltyped(p)) and count_ok(p)
    return True


def head(t):
    while t[0] == '@':
        t = t[1]
    return t


def nargs(t):
    n_ = 0
    while t[0] == '@':
        t = t[1]
        n_ += 1
    return n_


ARITY = {'f': 2, 'g': 1, 'h': 3, 'p': 1, 's': 1, 'h5': 5, 'pr': 2, 'tup': 2, 'P': 1, 'or': 2}


def count_ok(p):
    h = head(p)
    return h[0] == 'x' or h[0] == 'k' and nargs(p) <= ARITY.get(h[1], 0)


def ground_(t):
    return not pvars(t)


# ---------------------------------------------------------------- programs
def result(r, vs, sub, calls, dep):
    """right-hand side over the variables vs; `sub`: variables bound to proper subterms of the first argument"""
    k = r.random()
    e = lambda: result(r, vs, sub, calls, dep - 1)
    if dep == 0 or k < .25:
        return X(r.choice(vs)) if vs and r.random() < .75 else r.choice([a, b, N(0), N(1), TRUE, FALSE, L(Str('z'))])
    if k < .45:
        return ap(K('pr'), e(), e())
    if k < .7 and calls:
        g, n_, rec = r.choice(calls)
        if rec:
            if not sub:
                return e()
            if r.random() < .25:
                # a ground call; the case has an application as first pattern, so this terminates
                return call(g, r.choice([a, b, N(0), TRUE]), *[r.choice([a, b, N(1)]) if r.random() < .7 else e() for _ in range(n_ - 1)])
            return call(g, X(r.choice(sub)), *[e() for _ in range(n_ - 1)])
        return call(g, *[e() for _ in range(n_)])
    if k < .78:
        return op('ite', cond(r, vs, dep), e(), e())
    if k < .84:
        return op('requires', e(), e() if r.random() < .5 else X(r.choice(vs)) if vs else a, e())
    if k < .9:
        return op('add', op('ite', op('is_z', e()), N(1), N(2)), N(r.randint(0, 2)))
    return cond(r, vs, dep)


def cond(r, vs, dep):
    v = lambda: X(r.choice(vs)) if vs and r.random() < .8 else r.choice([a, b, N(0)])
    return op(r.choice(['eq', 'is_eq', 'eq']), v(), v()) if r.random() < .7 else op(r.choice(['is_z', 'is_str', 'is_ok', 'is_bool']), v())


def prog(r, name_, arity, calls, recursive=True):
    cases_ = []
    for _ in range(r.randint(1, 5)):
        names = []
        pats = [pattern(r, bterm(r, r.randint(0, 3)), names) for _ in range(arity)]
        pats = [p if welltyped_pat(p) else pvar(r, names) for p in pats]
        vs = []
        for p in pats:
            pvars(p, vs)
        sub = pvars(pats[0]) if pats[0][0] == '@' else []
        cs = calls + ([(name_, arity, True)] * 2 if recursive and sub else [])
        cases_.append((pats, result(r, vs, sub, cs, r.randint(0, 3))))
    if r.random() < .4:
        names = []
        pats = [X('x%d' % j) for j in range(arity)]
        cases_.append((pats, result(r, ['x%d' % j for j in range(arity)], [], calls, 1)))
    return cases_


def progtext(name_, arity, cases_, fwd=False, mono=False):
    vs = []
    for pats, res in cases_:
        for p in pats:
            pvars(p, vs)
    sig = ' '.join('S%d' % j for j in range(arity))
    head_ = '(program %s (%s %s (SR Type))\n  :signature (%s) SR' % (name_, ' '.join('(S%d Type)' % j for j in range(arity)), decl(vs), sig)
    if mono:
        head_ = '(program %s (%s)\n  :signature (%s) U' % (name_, decl(vs), ' '.join(['U'] * arity))
    if fwd:
        return '(program %s () :signature (%s) U)' % (name_, ' '.join(['U'] * arity))
    return head_ + '\n  (%s))\n' % '\n   '.join('((%s %s) %s)' % (name_, ' '.join(text(p) for p in pats), text(res)) for pats, res in cases_)


def cases_B03(r, tier):
    N_ = 250 if tier == 'quick' else 6000
    for _ in range(N_):
        progs, src, info = {}, MPRE, []
        mutual = r.random() < .3
        if mutual:
            # two programs that call each other (on proper subterms)
            ar = [r.randint(1, 2), r.randint(1, 2)]
            nm = ['ma', 'mb']
            src += progtext('ma', ar[0], [], True) + '\n' + progtext('mb', ar[1], [], True) + '\n'
            for j in (0, 1):
                cs = []
                for _ in range(r.randint(2, 4)):
                    names = []
                    pats = [pattern(r, bterm(r, 3), names) for _ in range(ar[j])]
                    pats = [p if welltyped_pat(p) else pvar(r, names) for p in pats]
                    vs = []
                    for p in pats:
                        pvars(p, vs)
                    sub = pvars(pats[0]) if pats[0][0] == '@' else []
                    cs.append((pats, result(r, vs, sub, [('ma', ar[0], True), ('mb', ar[1], True)] if sub else [], r.randint(1, 3))))
                cs.append(([X('x%d' % i) for i in range(ar[j])], r.choice([a, N(j), X('x0')])))
                progs[nm[j]] = cs
                src += progtext(nm[j], ar[j], cs, mono=True)
                info.append((nm[j], ar[j], False))
        for j in range(r.randint(1, 3)):
            ar = r.randint(1, 3)
            nm_ = 'w%d' % j
            cs = prog(r, nm_, ar, list(info))
            progs[nm_] = cs
            src += progtext(nm_, ar, cs)
            info.append((nm_, ar, False))
        checks = []
        for _ in range(25):
            g, ar, _x = r.choice(info)
            cs = progs[g]
            args = [bterm(r, r.randint(0, 3)) for _ in range(ar)]
            if r.random() < .6:
                pats, _y = r.choice(cs)
                s = {}
                for p in pats:
                    for v in pvars(p):
                        s.setdefault(v, r.choice([a, b, N(0), bterm(r, 2)]))
                args = [subst(p, s) for p in pats]
            if r.random() < .08:
                args[r.randrange(ar)] = r.choice([op('add', N(1), a), op('zdiv', N(1), N(0)), op('requires', a, b, a), ap(K('s'), op('zdiv', N(1), N(0))),
                                                  ('@', ('@', K('pr'), a), op('neg', L(Str('x'))))])
            if g in ('ma', 'mb') and any(ty(x) != U for x in args):
                continue
            if any(x[0] != 'op' and not has_op(x) and not welltyped(x) for x in args):
                continue
            t = call(g, *args)
            it = Interp(programs=progs, fuel=1500)
            try:
                w = it.ev(t)
            except Fuel:
                continue
            except RecursionError:
                continue
            if w != STUCK and not welltyped(w):
                continue
            if has_op(t) or r.random() < .5:
                checks.append(chk(text(t), w))
            else:
                nm_ = name()[1:]
                rec_ = '(declare-rule %s (%s) :args (%s) %s)' % (
                    nm_, decl(['z%d' % i for i in range(ar)]), ' '.join('z%d' % i for i in range(ar)),
                    (':conclusion (P %s)' % text(call(g, *[X('z%d' % i) for i in range(ar)]))) if w != STUCK else
                    ':conclusion (P (eo::is_ok %s))' % text(call(g, *[X('z%d' % i) for i in range(ar)])))
                checks.append(('%s through a rule is %s' % (text(t), text(w) if w != STUCK else 'stuck'),
                               rec_ + '\n(step %s (P %s) :rule %s :args (%s))' % (name(), text(w) if w != STUCK else 'false', nm_, ' '.join(text(x) for x in args))))
        if checks:
            yield Case('correct', 'programs', prelude=src, checks=checks)
    # an unevaluated application is not equal to anything and proves nothing
    yield from ()


def has_op(t):
    return t[0] in ('op', 'call') or any(has_op(x) for x in t if isinstance(x, tuple) and x and t[0] in ('@', 'arrow'))


# ---------------------------------------------------------------- substitution
def loops(r, tier):
    """programs whose results are calls without parameters, evaluated in turn"""
    cs = [K(x) for x in 'abcd']
    for _ in range(25 if tier == 'quick' else 500):
        progs, src, n = {}, MPRE, r.randint(1, 3)
        nms = ['lp%d' % j for j in range(n)]
        src += ''.join(progtext(x, 1, [], True) + '\n' for x in nms)
        for i, x in enumerate(nms):
            rows = []
            for j, c_ in enumerate(cs):
                # calls go to smaller constants only
                t = cs[r.randrange(j)] if j else a
                if j and r.random() < .8:
                    t = call(r.choice(nms), t)
                    if r.random() < .3:
                        t = ap(K('pr'), t, r.choice(cs))
                rows.append(([c_], t))
            if r.random() < .5:
                rows = rows[:3]
            progs[x] = rows
            src += progtext(x, 1, rows, mono=True)
        checks = []
        for x in nms:
            for c_ in cs:
                w = Interp(programs=progs, fuel=1000).ev(call(x, c_))
                if w == STUCK or welltyped(w):
                    checks.append(chk(text(call(x, c_)), w))
        yield Case('correct', 'programs without parameters', prelude=src, checks=checks)


def shared(r, tier):
    """several programs of each arity, called on the same arguments within one evaluation"""
    cs = [K(x) for x in 'abcd']
    for _ in range(12 if tier == 'quick' else 300):
        progs, src, sig = {}, MPRE, {}
        for ar in range(1, 7):
            for j in range(2):
                x, vs = 'sh%d%d' % (ar, j), [X('v%d' % q) for q in range(ar)]
                rows = []
                if r.random() < .4:
                    pt = list(vs)
                    q = r.randrange(ar)
                    pt[q] = r.choice(cs)
                    rows.append((pt, ap(K('pr'), r.choice([v for v in pt]), K('d'))))
                k = r.randrange(ar)
                low = [y for y in sig if sig[y] <= ar]
                k2 = r.random()
                rows.append((vs, vs[k] if k2 < .5 or not low else call(*(lambda y: [y] + [r.choice(vs) for _ in range(sig[y])])(r.choice(low)))))
                progs[x], sig[x] = rows, ar
                src += '(program %s (%s) :signature (%s) U (%s))\n' % (
                    x, ' '.join('(v%d U)' % q for q in range(ar)), ' '.join(['U'] * ar), ' '.join('((%s %s) %s)' % (x, ' '.join(text(t) for t in l), text(u)) for l, u in rows))
        checks = []
        for _ in range(10):
            n = r.randint(1, 3)
            vs = [X('v%d' % q) for q in range(n)]
            ar = r.randint(1, 6)
            as_ = [r.choice(vs) for _ in range(ar)]
            parts = [call('sh%d%d' % (ar, j), *as_) for j in (0, 1)]
            for _ in range(r.randint(0, 3)):
                as2 = list(as_)
                k = r.random()
                if k < .5:
                    r.shuffle(as2)
                elif k < .8:
                    as2[r.randrange(ar)] = r.choice(cs)
                parts.append(call('sh%d%d' % (ar, r.randrange(2)), *as2))
            r.shuffle(parts)
            body = parts[0]
            for t in parts[1:]:
                body = ap(K('pr'), body, t)
            rn = name()[1:]
            vals = [r.choice(cs) for _ in vs]
            w = Interp(programs=progs, fuel=3000).ev(subst(body, dict(zip(['v%d' % q for q in range(n)], vals))))
            if w == STUCK:
                continue
            how = r.choice(['program', 'macro'])
            ps = ' '.join('(v%d U)' % q for q in range(n))
            if how == 'program':
                ln = '(program %s (%s) :signature (%s) U (((%s %s) %s)))' % (rn, ps, ' '.join(['U'] * n), rn, ' '.join(text(v) for v in vs), text(body))
            else:
                ln = '(define %s (%s) %s)' % (rn, ps, text(body))
            ck = chk('(%s %s)' % (rn, ' '.join(text(v) for v in vals)), w)
            checks.append((ck[0], ln + '\n' + ck[1]))
        yield Case('correct', 'programs called on the same arguments', prelude=src, checks=checks)


def cases_B04(r, tier):
    from .g_core import expr, params, instances
    yield from loops(r, tier)
    yield from shared(r, tier)
    yield from instances(r, 600 if tier == 'quick' else 20000)
    N_ = 200 if tier == 'quick' else 4000
    base = TPRE + """(program dup ((T Type) (x T)) :signature (T) U (((dup x) (pr x x))))
(program sel ((T Type) (S Type) (x T) (y S)) :signature (Bool T S) U (((sel true x y) (pr x y)) ((sel false x y) (pr y x))))
"""
    progs = {'dup': [([X('x')], ap(K('pr'), X('x'), X('x')))],
             'sel': [([TRUE, X('x'), X('y')], ap(K('pr'), X('x'), X('y'))), ([FALSE, X('x'), X('y')], ap(K('pr'), X('y'), X('x')))]}

    def body(vs, macs, dep):
        """(text, meaning as a function of the substitution)"""
        e = lambda: body(vs, macs, dep - 1)
        k = r.random()
        if dep == 0 or k < .25:
            t = X(r.choice(vs)) if r.random() < .85 else r.choice([a, N(1), TRUE])
            return text(t), t
        if k < .45:
            (x, u), (y, v) = e(), e()
            return '(pr %s %s)' % (x, y), ap(K('pr'), u, v)
        if k < .7 and macs:
            nm_, ps, (bt, bm) = r.choice(macs)
            as_ = [e() for _ in ps]
            return '(%s %s)' % (nm_, ' '.join(x for x, _ in as_)), ren(bm, {p_: v for p_, (_, v) in zip(ps, as_)})
        o = r.choice(['eq', 'is_eq', 'is_ok', 'is_z', 'ite', 'requires', 'dup', 'sel', 'add'])
        if o in ('eq', 'is_eq', 'add'):
            (x, u), (y, v) = e(), e()
            return '(eo::%s %s %s)' % (o, x, y), op(o, u, v)
        if o in ('is_ok', 'is_z'):
            x, u = e()
            return '(eo::%s %s)' % (o, x), op(o, u)
        if o == 'dup':
            x, u = e()
            return '(dup %s)' % x, call('dup', u)
        (x, u), (y, v) = e(), e()
        z, w = r.choice([('true', TRUE), ('false', FALSE), ('(eo::eq %s %s)' % (x, y), op('eq', u, v)), ('(eo::is_z %s)' % x, op('is_z', u))])
        if o == 'sel':
            return '(sel %s %s %s)' % (z, x, y), call('sel', w, u, v)
        if o == 'ite':
            return '(eo::ite %s %s %s)' % (z, x, y), op('ite', w, u, v)
        (q, p_) = e()
        return '(eo::requires %s %s %s)' % (x, q, y), op('requires', u, p_, v)
    for _ in range(N_):
        pre, macs, checks = base, [], []
        for j in range(r.randint(1, 4)):
            ps = r.choice([['x', 'y'], ['y', 'x'], ['x', 'y', 'z'], ['x'], ['z', 'x']])
            bt = body(ps, macs, r.randint(1, 3))
            pre += '(define mac%d (%s) %s)\n' % (j, ' '.join('(T_%s Type :implicit) (%s T_%s)' % (v, v, v) for v in ps), bt[0])
            macs.append(('mac%d' % j, ps, bt))
        for _ in range(15):
            nm_, ps, (bt, bm) = r.choice(macs)
            vals = [r.choice([a, b, ap(K('g'), a), N(0), N(1), TRUE, ap(K('pr'), a, b), L(Str('x'))]) for _ in ps]
            s = dict(zip(ps, vals))
            k = r.random()
            it = Interp(programs=progs, fuel=3000)
            try:
                w = it.ev(subst(bm, s))
            except Fuel:
                continue
            if w != STUCK and not welltyped(w):
                continue
            if k < .3:
                checks.append(chk('(%s %s)' % (nm_, ' '.join(text(v) for v in vals)), w))
            elif k < .7:
                # the macro applied to the parameters of a rule, in a different order
                rn = name()[1:]
                q = list(ps)
                r.shuffle(q)
                other = dict(zip(ps, r.sample(['x', 'y', 'z', 'u', 'v'], len(ps))))     # parameter names clash with those of the macro
                app = '(%s %s)' % (nm_, ' '.join(other[v] for v in ps))
                pd = ' '.join('(R_%s Type) (%s R_%s)' % (other[v], other[v], other[v]) for v in q)
                where = r.random()
                if w == STUCK:
                    ln = '(declare-rule %s (%s) :args (%s) :conclusion (P (eo::is_ok %s)))\n(step %s (P false) :rule %s :args (%s))' % (
                        rn, pd, ' '.join(other[v] for v in q), app, name(), rn, ' '.join(text(s[v]) for v in q))
                elif where < .6:
                    ln = '(declare-rule %s (%s) :args (%s) :conclusion (P %s))\n(step %s (P %s) :rule %s :args (%s))' % (
                        rn, pd, ' '.join(other[v] for v in q), app, name(), text(w), rn, ' '.join(text(s[v]) for v in q))
                else:
                    ln = '(declare-rule %s (%s) :args (%s) :requires ((%s %s)) :conclusion (P %s))\n(step %s (P %s) :rule %s :args (%s))' % (
                        rn, pd, ' '.join(other[v] for v in q), app, text(w), other[q[0]], name(), text(s[q[0]]), rn, ' '.join(text(s[v]) for v in q))
                checks.append(('%s with %s is %s' % (nm_, s, w), ln))
            else:
                # through a program whose pattern variables carry the names of the macro
                rn = name()[1:]
                q = list(ps)
                r.shuffle(q)
                ln = '(program %s (%s (RR Type)) :signature (U) RR (((%s %s) (%s %s))))' % (
                    rn, ' '.join('(R_%s Type) (%s R_%s)' % (v, v, v) for v in q), rn, text(tree([X(v) for v in q])), nm_, ' '.join(ps))
                ck = chk('(%s %s)' % (rn, text(tree([s[v] for v in q]))), w)
                checks.append((ck[0], ln + '\n' + ck[1]))
        if checks:
            yield Case('correct', 'substitution', prelude=pre, checks=checks)
    # random operator expressions with abstracted leaves
    checks = []
    for k in range(600 if tier == 'quick' else 20000):
        e = expr(r, r.randint(1, 3))
        pb = params(r, e)
        if pb is None:
            continue
        body_, vals = pb
        w = Interp(typeof=typeof, fuel=4000).ev(e)
        nm_ = name()[1:]
        ps = ' '.join('(T%d Type :implicit) (x%d T%d)' % (j, j, j) for j in range(len(vals)))
        ck = chk('(%s %s)' % (nm_, ' '.join(text(v) for v in vals)), w)
        checks.append((ck[0], '(define %s (%s) %s)\n%s' % (nm_, ps, text(body_), ck[1])))
        if len(checks) >= 100:
            yield Case('correct', 'instances of macros', prelude=PRE, checks=checks)
            checks = []


def tree(l):
    t = l[0]
    for x in l[1:]:
        t = ap(K('pr'), t, x)
    return ap(K('pr'), t, N(0)) if len(l) == 1 else t


def ren(t, s):
    return subst(t, s)


def cases(prop, r, tier):
    yield from globals()['cases_' + prop](r, tier)
