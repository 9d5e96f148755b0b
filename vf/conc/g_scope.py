"""Scopes (S01), overloading (S02) and reset (S03)."""
from .core import Case
from . import lits
from .lits import Num, Rat, Bin, Str, Bool
from .lang import *

SPRE = '''(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const Strg Type)
(declare-consts <string> Strg)
(declare-const U Type)
(declare-const V Type)
(declare-const L Type)
(declare-const lnil L)
(declare-parameterized-const lcons ((T Type :implicit)) (-> T L L) :right-assoc-nil lnil)
(declare-const all (-> L Bool Bool) :binder lcons)
(declare-const ex (-> L U U) :binder lcons)
(declare-const x U)
(declare-const y U)
(declare-const a U)
(declare-const b U)
(declare-const w Bool)
(declare-const f (-> U U U))
(declare-const g (-> U U))
(declare-const p (-> U Bool))
(declare-const q (-> Bool Bool Bool))
(declare-const mk (-> Bool U))
(declare-parameterized-const P ((T Type :implicit)) (-> T Bool))
(declare-rule val ((T Type) (x T)) :args (x) :conclusion (P x))
(declare-rule taut ((F Bool)) :assumption F :conclusion (P F))
(declare-rule id ((F Bool)) :premises (F) :conclusion F)
'''
GLOB = {n: (K(n), 'U') for n in 'xyab'}
GLOB['w'] = (K('w'), 'B')
NAMES = ['x', 'y', 'a', 'b', 'z', 'w', 'u1', 'u2']


def gen(r, d, t, env):
    """(surface text, meaning) of a random term of type t"""
    cand = [n for n, (m, s) in env.items() if s == t]
    if cand and (d <= 0 or r.random() < .3):
        n = r.choice(cand)
        return n, env[n][0]
    k = r.random()
    if d <= 0 or k < .1:
        return ('a', env['a'][0]) if t == 'U' and env['a'][1] == 'U' else ('true', TRUE) if t == 'B' else ('(g (mk true))', ap(K('g'), ap(K('mk'), TRUE)))
    if k < .45:
        # let: bindings are evaluated outside
        n = r.choice([1, 1, 2, 3])
        ns = r.sample(NAMES, n)
        bs, e2 = [], dict(env)
        for x_ in ns:
            s = r.choice('UB')
            st, m = gen(r, d - 2, s, env)
            bs.append('(%s %s)' % (x_, st))
            e2[x_] = (m, s)
        st, m = gen(r, d - 1, t, e2)
        return '(let (%s) %s)' % (' '.join(bs), st), m
    if k < .65:
        n = r.choice([1, 1, 2])
        vs, e2, l = [], dict(env), []
        for x_ in r.sample(NAMES, n):
            s = r.choice('UB')
            vs.append('(%s %s)' % (x_, {'U': 'U', 'B': 'Bool'}[s]))
            v = ('v', x_, K({'U': 'U', 'B': 'Bool'}[s]))
            e2[x_] = (v, s)
            l.append(v)
        h = 'all' if t == 'B' else 'ex'
        st, m = gen(r, d - 1, t, e2)
        lst = K('lnil')
        for v in l[::-1]:
            lst = ap(K('lcons'), v, lst)
        return '(%s (%s) %s)' % (h, ' '.join(vs), st), ap(K(h), lst, m)
    if t == 'U':
        if k < .85:
            s1, m1 = gen(r, d - 1, 'U', env)
            s2, m2 = gen(r, d - 1, 'U', env)
            return '(f %s %s)' % (s1, s2), ap(K('f'), m1, m2)
        s1, m1 = gen(r, d - 1, 'B', env)
        return '(mk %s)' % s1, ap(K('mk'), m1)
    if k < .8:
        s1, m1 = gen(r, d - 1, 'U', env)
        return '(p %s)' % s1, ap(K('p'), m1)
    s1, m1 = gen(r, d - 1, 'B', env)
    s2, m2 = gen(r, d - 1, 'B', env)
    return '(q %s %s)' % (s1, s2), ap(K('q'), m1, m2)


class Env:
    """global script with scopes; every declaration gets an alias"""
    def __init__(s, r):
        s.r, s.lines, s.scopes, s.kinds, s.n = r, [], [{}], [], 0
        s.gone = []

    def vis(s):
        d = {}
        for x_ in s.scopes:
            d.update(x_)
        return d

    def decl(s):
        r = s.r
        n = r.choice(['k1', 'k2', 'k3', 'k4', 'k5'])
        s.n += 1
        al = '@al%d' % s.n
        v = s.vis()
        k = r.random()
        if k < .6 or not v:
            s.lines.append('(declare-const %s U)\n(define %s () %s)' % (n, al, n))
            s.scopes[-1][n] = al
        elif k < .8:
            o = r.choice(sorted(v))
            s.lines.append('(define %s () %s)' % (n, o))
            s.scopes[-1][n] = v[o]
        else:
            s.lines.append('(declare-const %s U)\n(define %s () %s)\n(define %s () (g %s))' % (n + 'h', al, n + 'h', n, n + 'h'))
            s.scopes[-1][n] = '(g %s)' % al
            s.scopes[-1][n + 'h'] = al

    def push(s):
        if s.r.random() < .5:
            s.lines.append('(push)')
            s.kinds.append('p')
        else:
            s.n += 1
            s.lines.append('(assume-push @s%d (p a))' % s.n)
            s.kinds.append('a')
        s.scopes.append({})

    def pop(s):
        k = s.kinds.pop()
        s.n += 1
        s.lines.append('(pop)' if k == 'p' else '(step-pop @t%d :rule taut)' % s.n)
        s.gone += list(s.scopes.pop().items())

    def shadow(s):
        """a binder of a command, which disappears with the command"""
        r = s.r
        v = s.vis()
        n = r.choice(sorted(v) + ['k1', 'k2', 'k3'])
        s.n += 1
        m = '$m%d' % s.n
        k = r.random()
        if k < .35:
            s.lines.append('(define %s ((%s U)) (f %s b))\n(step @u%d (P (f a b)) :rule val :args ((%s a)))' % (m, n, n, s.n, m))
        elif k < .7:
            s.lines.append('(program %s ((%s U)) :signature (U) U (((%s %s) (f %s b))))\n(step @u%d (P (f a b)) :rule val :args ((%s a)))' % (m, n, m, n, n, s.n, m))
        elif k < .85 and 'a' not in s.kinds:
            s.lines.append('(declare-rule %s ((%s U)) :args (%s) :conclusion (P (f %s b)))\n(step @u%d (P (f a b)) :rule %s :args (a))' % (m, n, n, n, s.n, m))
        else:
            s.lines.append('(declare-parameterized-const %s ((%s Int)) Bool)' % (m, n))

    def checks(s):
        v = s.vis()
        for n, e in s.r.sample(sorted(v.items()), min(3, len(v))):
            s.n += 1
            s.lines.append('(step @u%d (P %s) :rule val :args (%s))' % (s.n, e, n))


def cases_S01(r, tier):
    N_ = 60 if tier == 'quick' else 1500
    pro = dict(main='main.p', files={'pre.eo': SPRE})
    inc = '(include "pre.eo")\n'
    for _ in range(N_):
        checks = []
        for _ in range(30):
            t = r.choice('UUB')
            s, m = gen(r, r.choice([2, 3, 4, 5]), t, GLOB)
            if len(s) > 600 or len(text(m)) > 20000:
                continue
            checks.append(chk(s, m))
        yield Case('correct', 'let and binders', prelude=inc, checks=checks, **pro)
        # outside of its scope a name is unknown
        for _ in range(3):
            s, m = gen(r, 3, 'U', GLOB)
            k = r.random()
            n = r.choice(['u1', 'u2', 'z'])
            bad = '(f (let ((%s a)) %s) %s)' % (n, s, n) if k < .25 else '(f (ex ((%s U)) %s) %s)' % (n, s, n) if k < .5 else \
                '(let ((%s a) (x %s)) x)' % (n, n) if k < .6 else '(let ((x %s) (%s a)) x)' % (n, n) if k < .7 else '(let ((%s (g %s))) %s)' % (n, n, n) if k < .85 else '(f %s (let ((%s a)) %s))' % (n, n, s)
            if k < .5 or k >= .85 or True:
                yield Case('error', '%s is not visible in %s' % (n, bad), text=inc + '(step @1 :rule val :args (%s))\n' % bad, **pro)
        # declarations in scopes
        e = Env(r)
        for _ in range(r.choice([6, 12, 25])):
            k = r.random()
            if k < .35:
                e.decl()
            elif k < .55 and len(e.scopes) < 6:
                e.push()
            elif k < .75 and len(e.scopes) > 1:
                e.pop()
            elif k < .88:
                e.shadow()
            else:
                e.checks()
        e.checks()
        v = e.vis()
        base = '\n'.join(e.lines) + '\n'
        tail = ''.join('(pop)\n' if k == 'p' else '(step-pop @zz%d :rule taut)\n' % i for i, k in list(enumerate(e.kinds))[::-1])
        yield Case('correct', 'declarations in scopes', text=SPRE + base + tail)
        gone = sorted(set(n for n, _ in e.gone if n not in v))
        for n in gone[:2]:
            yield Case('error', '%s was declared in a scope that is closed' % n, text=SPRE + base + '(step @z1 :rule val :args (%s))\n' % n + tail)
        for n, al in [x_ for x_ in e.gone if x_[0] in v and v[x_[0]].startswith('@')][:1]:
            other = [y for y in v.values() if y != v[n] and y.startswith('@')]
            if other:
                yield Case('error', '%s has its outer meaning' % n, text=SPRE + base + '(step @z1 (P %s) :rule val :args (%s))\n' % (other[0], n) + tail)
    S = SPRE
    for t, e, w in [
            ('(define m ((z U)) z)\n(step @1 :rule val :args (z))', 'error', 'a parameter of a definition'), ('(program $m ((z U)) :signature (U) U ((($m z) z)))\n(step @1 :rule val :args (z))', 'error', 'a parameter of a program'),
            ('(declare-rule m ((z U)) :args (z) :conclusion (P z))\n(step @1 :rule val :args (z))', 'error', 'a parameter of a rule'), ('(declare-parameterized-const m ((z Int)) Bool)\n(step @1 :rule val :args (z))', 'error', 'a parameter of a constant'),
            ('(define m ((z U) (v (P z))) z)', 'error', 'a type that is not a type'), ('(define m ((v T) (T Type)) v)', 'error', 'a parameter used before it is declared'), ('(define m ((T Type :implicit) (v T)) T)', 'error', 'an implicit parameter in a body'),
            ('(define m ((T Type) (v T)) v)\n(step @1 (P a) :rule val :args ((m U a)))', 'correct', 'a parameter in a later type'), ('(define m ((T Type :implicit) (v T)) v)\n(step @1 (P a) :rule val :args ((m a)))', 'correct', 'an implicit parameter'),
            ('(define m ((x U)) (f x y))\n(step @1 (P (f a y)) :rule val :args ((m a)))\n(step @2 (P x) :rule val :args (x))', 'correct', 'a parameter shadows a constant'), ('(define m ((x U)) (f x y))\n(step @1 (P (f x y)) :rule val :args ((m a)))', 'error', 'a parameter shadows a constant'),
            ('(define m ((x Bool)) (q x x))\n(step @1 (P (f x x)) :rule val :args ((f x x)))', 'correct', 'a parameter of another type shadows a constant'),
            ('(define m ((x U)) (g x))\n(define n ((x U) (y U)) (f (m y) x))\n(step @1 (P (f (g b) a)) :rule val :args ((n a b)))', 'correct', 'definitions use their own parameters'),
            ('(define c () x)\n(declare-const x U)\n(step @1 (P c) :rule val :args (x))', 'error', 'a definition keeps the meaning of its symbols'), ('(define m ((z U)) (f z x))\n(define c () x)\n(declare-const x U)\n(step @1 (P (f a c)) :rule val :args ((m a)))', 'correct', 'a definition keeps the meaning of its symbols'),
            ('(define m ((z U)) (f z x))\n(declare-const x U)\n(step @1 (P (f a x)) :rule val :args ((m a)))', 'error', 'a definition keeps the meaning of its symbols'),
            ('(program $m ((z U)) :signature (U) U ((($m z) (f z x))))\n(declare-const x U)\n(step @1 (P (f a x)) :rule val :args (($m a)))', 'error', 'a program keeps the meaning of its symbols'),
            ('(push)\n(declare-const k U)\n(pop)\n(step @1 :rule val :args (k))', 'error', 'a popped constant'), ('(push)\n(define k () a)\n(pop)\n(step @1 :rule val :args (k))', 'error', 'a popped definition'),
            ('(push)\n(program $k ((z U)) :signature (U) U ((($k z) z)))\n(pop)\n(step @1 :rule val :args (($k a)))', 'error', 'a popped program'), ('(push)\n(program $k ((z U)) :signature (U) U ((($k z) z)))\n(pop)\n(program $k ((z U)) :signature (U) U ((($k z) (g z))))\n(step @1 (P (g a)) :rule val :args (($k a)))', 'correct', 'a popped program declared again'),
            ('(push)\n(declare-sort k 0)\n(pop)\n(declare-const l k)', 'error', 'a popped type'), ('(assume-push @1 w)\n(declare-const k U)\n(step-pop @2 :rule taut)\n(step @3 :rule val :args (k))', 'error', 'a constant of a closed proof scope'),
            ('(push)\n(declare-datatype k ((c1) (c2 (s1 U))))\n(pop)\n(step @3 :rule val :args (c1))', 'error', 'a popped constructor'), ('(push)\n(declare-datatype k ((c1) (c2 (s1 U))))\n(pop)\n(step @3 :rule val :args (s1))', 'error', 'a popped selector'),
            ('(pop)', 'error', 'nothing to pop'), ('(push)\n(pop)\n(pop)', 'error', 'nothing to pop'), ('(push)\n(push)\n(declare-const k U)\n(pop)\n(pop)\n(step @1 :rule val :args (k))', 'error', 'nested pops'),
            ('(push)\n(declare-const k U)\n(push)\n(declare-const l U)\n(pop)\n(step @1 :rule val :args (k))\n(pop)', 'correct', 'nested pops'), ('(push 2)\n(declare-const k U)\n(pop 1)\n(step @1 :rule val :args (k))', 'error', 'push and pop by number'),
            ('(step @1 :rule val :args (k))\n(declare-const k U)', 'error', 'used before its declaration'), ('(define k () k)', 'error', 'used in its own definition'), ('(define k ((z U)) (k z))', 'error', 'used in its own definition'),
            ('(step @1 (P (all ((x U)) (p x))) :rule val :args ((all ((y U)) (p y))))', 'error', 'bound variables have names'), ('(step @1 (P (all ((x U)) (p x))) :rule val :args ((all ((x U)) (p x))))', 'correct', 'variables of the same name and type'),
            ('(step @1 (P (all ((x U)) (p x))) :rule val :args ((all ((x V)) (p x))))', 'error', 'variables of another type'), ('(step @1 (P (all ((z U)) (p a))) :rule val :args ((f z a)))', 'error', 'a bound variable after its scope'),
            ('(step @1 :rule val :args ((f (ex ((z U)) z) z)))', 'error', 'a bound variable after its scope'), ('(step @1 :rule val :args ((q (all ((z U)) (all ((v U)) (p z))) (p v))))', 'error', 'a bound variable after its scope'),
            ('(program $m ((z U)) :signature (U) U ((($m z) z) (($m (g z)) y2)))', 'error', 'an unknown name in a case'), ('(program $m ((z U)) :signature (U) U ((($m a) z)))', 'error', 'a parameter that is not bound by the pattern'),
            ('(program $m ((z U)) :signature (U) U ((($m (g z)) z)))\n(program $n ((x U)) :signature (U) U ((($n x) ($m (g (g x))))))\n(step @1 (P (g a)) :rule val :args (($n a)))', 'correct', 'a program that calls another one')]:
        yield Case(e, w + ': ' + t.replace('\n', ' '), text=S + t + '\n')
    # depth of let
    for n in (5, 60, 400):
        s = ''.join('(let ((x (g x))) ' for _ in range(n)) + 'x' + ')' * n
        m = K('x')
        for _ in range(n):
            m = ap(K('g'), m)
        yield Case('correct', 'let of depth %d' % n, text=inc + chk(s, m)[1] + '\n', **pro)
    for s, m in [('(f (let ((x a)) x) x)', ap(K('f'), K('a'), K('x'))), ('(let ((x y) (y x)) (f x y))', ap(K('f'), K('y'), K('x'))), ('(let ((x (let ((x a)) (g x)))) (f x (let ((x b)) x)))', ap(K('f'), ap(K('g'), K('a')), K('b'))),
                 ('(ex ((x U)) (let ((y x)) (ex ((x U)) (f x y))))', ap(K('ex'), ap(K('lcons'), ('v', 'x', K('U')), K('lnil')), ap(K('ex'), ap(K('lcons'), ('v', 'x', K('U')), K('lnil')), ap(K('f'), ('v', 'x', K('U')), ('v', 'x', K('U')))))),
                 ('(let ((f g)) (f a))', ap(K('g'), K('a')))]:
        yield Case('correct', s, text=inc + chk(s, m)[1] + '\n', **pro)


# ---------------------------------------------------------------- overloads
TY = ['U', 'V', 'Int', 'Bool', 'Strg']
ATOMS = {'U': ['a', 'b'], 'V': ['v1', 'v2'], 'Int': ['1', '7'], 'Bool': ['true', 'w'], 'Strg': ['"s"']}


class Ov:
    """one declaration"""
    def __init__(s, al, args, res, kind='plain'):
        s.al, s.args, s.res, s.kind = al, args, res, kind

    def app(s, ts, alias=None):
        """(explicit text, result type) of the application, or None"""
        al = alias or s.al
        tys = [t for _, t in ts]
        xs = [x_ for x_, _ in ts]
        if s.kind == 'plain':
            if len(tys) > len(s.args) or list(s.args[:len(tys)]) != tys:
                return None
            rest = list(s.args[len(tys):])
            return '(_ %s %s)' % (al, ' '.join(xs)), s.res if not rest else '(-> %s %s)' % (' '.join(rest), s.res)
        if s.kind == 'poly':       # (-> T T Bool)
            if len(tys) > 2 or len(set(tys)) != 1:
                return None
            return '(_ %s %s)' % (al, ' '.join(xs)), 'Bool' if len(tys) == 2 else '(-> %s Bool)' % tys[0]
        if s.kind == 'nary':       # (-> T T T) :left-assoc
            T = s.args[0]
            if any(t != T for t in tys):
                return None
            e = xs[0]
            for y in xs[1:]:
                e = '(_ %s %s %s)' % (al, e, y)
            return e, T
        if s.kind == 'nil':        # (-> T T T) :right-assoc-nil
            T = s.args[0]
            if any(t != T for t in tys):
                return None
            e = ATOMS[T][0]
            for y in xs[::-1]:
                e = '(_ %s %s %s)' % (al, y, e)
            return e, T

    def text(s, n):
        if s.kind == 'plain':
            ty = '(-> %s %s)' % (' '.join(s.args), s.res)
            return '(declare-const %s %s)' % (n, ty)
        if s.kind == 'poly':
            return '(declare-parameterized-const %s ((T Type :implicit)) (-> T T Bool))' % n
        T = s.args[0]
        return '(declare-const %s (-> %s %s %s) %s)' % (n, T, T, T, ':left-assoc' if s.kind == 'nary' else ':right-assoc-nil ' + ATOMS[T][0])


def cases_S02(r, tier):
    N_ = 150 if tier == 'quick' else 4000
    pre = SPRE + '(declare-const v1 V)\n(declare-const v2 V)\n'
    for _ in range(N_):
        names = ['k', '-', 'over']
        ov = {n: [] for n in names}          # in order of declaration
        scopes, kinds, lines, n_ = [], [], [], 0
        kept = []                             # aliases of global scope
        bad = []
        for _ in range(r.choice([8, 16, 30])):
            k = r.random()
            n_ += 1
            if k < .35:
                n = r.choice(names)
                kd = r.choice(['plain'] * 5 + ['poly', 'nary', 'nil'])
                T = r.choice(['U', 'V', 'Int', 'Bool'])
                d = Ov('@al%d' % n_, tuple(r.choice(TY[:4]) for _ in range(r.choice([1, 1, 2, 2, 3]))) if kd == 'plain' else (T, T), r.choice(TY[:4]) if kd == 'plain' else T, kd)
                lines.append(d.text(n) + '\n(define %s () %s)' % (d.al, n))
                ov[n].append(d)
                if scopes:
                    scopes[-1].append((n, d))
            elif k < .45 and len(scopes) < 4:
                scopes.append([])
                kinds.append(r.choice('pa'))
                lines.append('(push)' if kinds[-1] == 'p' else '(assume-push @s%d w)' % n_)
            elif k < .55 and scopes:
                for n, d in scopes.pop()[::-1]:
                    assert ov[n][-1] is d
                    ov[n].pop()
                lines.append('(pop)' if kinds.pop() == 'p' else '(step-pop @t%d :rule taut)' % n_)
            else:
                n = r.choice(names)
                if not ov[n]:
                    continue
                if r.random() < .6:
                    d = r.choice(ov[n])
                    tys = list(d.args[:r.choice([1, 2, len(d.args), len(d.args)])]) if d.kind == 'plain' else [r.choice(TY[:4])] * r.choice([1, 2]) if d.kind == 'poly' else [d.args[0]] * r.choice([1, 2, 3, 4])
                else:
                    tys = [r.choice(TY) for _ in range(r.choice([1, 2, 2, 3]))]
                if len(tys) == 1 and any(d2.kind == 'nary' for d2 in ov[n]):
                    continue      # (n a) of a left-assoc n is a, whatever the type
                ts = [(r.choice(ATOMS[t]), t) for t in tys]
                src = '(%s %s)' % (n, ' '.join(x_ for x_, _ in ts))
                res = None
                for d in ov[n][::-1]:
                    res = d.app(ts)
                    if res:
                        break
                if res is None:
                    bad.append((list(lines), src, list(kinds)))
                    continue
                lines.append('(step @u%d (P %s) :rule val :args (%s))' % (n_, res[0], src))
                if r.random() < .4:
                    lines.append('(step @v%d (P %s) :rule val :args ((eo::typeof %s)))' % (n_, res[1], src))
                # nested: as an argument
                if res[1] == 'U' and r.random() < .5:
                    lines.append('(step @w%d (P (g %s)) :rule val :args ((g %s)))' % (n_, res[0], src))
                # eo::as
                if d.kind == 'plain' or True:
                    want = None
                    full = [t for _, t in ts]
                    rt = r.choice([res[1]] * 4 + TY[:4])
                    for d2 in ov[n][::-1]:
                        z = d2.app(ts)
                        if z and z[1] == rt:
                            want = d2.al
                            break
                    if rt.startswith('(->'):
                        continue
                    asx = '(eo::as %s (-> %s %s))' % (n, ' '.join(full), rt)
                    if want:
                        lines.append('(step @x%d (P %s) :rule val :args (%s))' % (n_, want, asx))
                    else:
                        # stays as it is, and has no type
                        bad.append((list(lines), asx, list(kinds)))
        tail = lambda ks: ''.join('(pop)\n' if k == 'p' else '(step-pop @zz%d :rule taut)\n' % i for i, k in list(enumerate(ks))[::-1])
        yield Case('correct', 'overloaded symbols', text=pre + '\n'.join(lines) + '\n' + tail(kinds))
        for l, src, ks in r.sample(bad, min(2, len(bad))):
            yield Case('error', 'no declaration fits %s' % src, text=pre + '\n'.join(l) + '\n(step @z :rule val :args (%s))\n' % src + tail(ks))
    for t, e, w in [
            ('(declare-const k (-> U U))\n(declare-const k (-> V U))\n(step @1 (P (k a)) :rule val :args ((k a)))\n(step @2 (P (k v1)) :rule val :args ((k v1)))', 'correct', 'two declarations'),
            ('(declare-const k (-> U U))\n(declare-const k (-> V U))\n(step @2 :rule val :args ((k 1)))', 'error', 'neither fits'),
            ('(declare-const k (-> U U))\n(push)\n(declare-const k (-> V U))\n(pop)\n(step @2 :rule val :args ((k v1)))', 'error', 'a popped overload'), ('(declare-const k (-> U U))\n(push)\n(declare-const k (-> V U))\n(pop)\n(step @2 :rule val :args ((k a)))', 'correct', 'the remaining overload'),
            ('(declare-const k (-> U U))\n(push)\n(declare-const k (-> V U))\n(declare-const k (-> Int U))\n(pop)\n(step @2 :rule val :args ((k v1)))', 'error', 'two popped overloads'),
            ('(push)\n(declare-const k (-> U U))\n(declare-const k (-> V U))\n(pop)\n(declare-const k (-> Int U))\n(step @2 :rule val :args ((k v1)))', 'error', 'two popped overloads'),
            ('(push)\n(declare-const k (-> U U))\n(declare-const k (-> V U))\n(pop)\n(step @2 :rule val :args ((k v1)))', 'error', 'no declaration left'),
            ('(declare-const k (-> U U))\n(declare-const l (-> V Bool))\n(define k () l)\n(declare-const k (-> V Int))\n(define c () (l v1) :type Bool)', 'correct', 'an alias does not inherit overloads'),
            ('(declare-const k (-> U U))\n(declare-const l (-> V Bool))\n(push)\n(define k () l)\n(pop)\n(declare-const k (-> V Int))\n(define c () (l v1) :type Bool)', 'correct', 'an alias of a closed scope'),
            ('(declare-const k (-> U U))\n(declare-const l (-> V Bool))\n(define k () l)\n(step @1 :rule val :args ((l a)))', 'error', 'an alias does not inherit overloads'),
            ('(declare-const k (-> U U U))\n(define l () (k a))\n(define l () (k b))\n(step @1 (P (k b a)) :rule val :args ((l a)))', 'correct', 'the last definition'),
            ('(declare-const k (-> U U))\n(declare-const k (-> U V))\n(define c () (k a) :type V)', 'correct', 'the most recent declaration'), ('(declare-const k (-> U U))\n(declare-const k (-> U V))\n(define c () (k a) :type U)', 'error', 'the most recent declaration'),
            ('(declare-const k (-> U U))\n(declare-const k (-> U V))\n(define c () ((eo::as k (-> U U)) a))', 'error', 'eo::as as a head') if False else ('(declare-const k (-> U U))\n(declare-const k (-> U V))\n(define c () (_ (eo::as k (-> U U)) a) :type U)', 'correct', 'eo::as as a head'),
            ('(declare-const k U)\n(declare-const k Bool)\n(assume @1 k)', 'correct', 'the most recent declaration'), ('(declare-const k Bool)\n(declare-const k U)\n(assume @1 k)', 'error', 'the most recent declaration'),
            ('(define m ((k (-> U U))) (k a))\n(step @1 (P (g a)) :rule val :args ((m g)))', 'correct', 'a parameter as head'),
            ('(declare-const k (-> U U))\n(define m ((k (-> U U))) (k a))\n(step @1 (P (g a)) :rule val :args ((m g)))', 'correct', 'a parameter that shadows a function'),
            ('(declare-const k (-> U U))\n(define m ((k (-> U V))) (k a))\n(declare-const l (-> U V))\n(step @1 (P (l a)) :rule val :args ((m l)))', 'correct', 'a parameter that shadows a function'),
            ('(declare-const k (-> U U))\n(step @1 (P (all ((k (-> V Bool))) (_ (eo::var "k" (-> V Bool)) v1))) :rule val :args ((all ((k (-> V Bool))) (k v1))))', 'correct', 'a bound function'),
            ('(declare-const k (-> U Bool))\n(step @1 :rule val :args ((all ((k (-> V Bool))) (k v1))))\n(step @2 :rule val :args ((k v1)))', 'error', 'a bound function after its scope'),
            ('(declare-const k (-> U U))\n(program $k ((x U)) :signature (U) U ((($k x) (k x))))\n(declare-const k (-> U V))\n(step @1 (P (eo::typeof ($k a))) :rule val :args (U))', 'correct', 'a program keeps the overload it was written with')]:
        yield Case(e, w + ': ' + t.replace('\n', ' '), text=pre + t + '\n')


# ---------------------------------------------------------------- reset
def rdecl(r, n, i):
    """a random declaration of a name; returns text, kind"""
    k = r.choice(['U', 'Bool', 'fun', 'pred', 'def', 'mac', 'prog', 'type', 'rule', 'asm', 'ctr', 'ov', 'dt'])
    o = {'U': '(declare-const %s U)' % n, 'Bool': '(declare-const %s Bool)' % n, 'fun': '(declare-const %s (-> U U))' % n, 'pred': '(declare-const %s (-> U Bool))' % n,
         'def': '(define %s () (g a))' % n, 'mac': '(define %s ((x U)) (f x b))' % n, 'prog': '(program %s ((x U)) :signature (U) U (((%s (g x)) x)))' % (n, n), 'type': '(declare-const %s Type)' % n,
         'rule': '(declare-rule %s ((x U)) :args (x) :conclusion (p x))' % n, 'asm': '(assume %s (p a))' % n, 'ctr': '(declare-const %s (-> U U U) :right-assoc-nil a)' % n,
         'ov': '(declare-const %s (-> U U))\n(declare-const %s (-> V U))' % (n, n), 'dt': '(declare-datatype %s ((%s_c) (%s_d (%s_s U))))' % (n, n, n, n)}[k]
    use = {'U': '(step @u%d (P %s) :rule val :args (%s))' % (i, n, n), 'Bool': '(assume @u%d %s)' % (i, n), 'fun': '(step @u%d (P U) :rule val :args ((eo::typeof (%s a))))' % (i, n), 'pred': '(assume @u%d (%s a))' % (i, n),
           'def': '(step @u%d (P (g a)) :rule val :args (%s))' % (i, n), 'mac': '(step @u%d (P (f a b)) :rule val :args ((%s a)))' % (i, n), 'prog': '(step @u%d (P a) :rule val :args ((%s (g a))))' % (i, n),
           'type': '(declare-const @u%d %s)' % (i, n), 'rule': '(step @u%d (p b) :rule %s :args (b))' % (i, n), 'asm': '(step @u%d (p a) :rule id :premises (%s))' % (i, n),
           'ctr': '(step @u%d (P (_ %s b a)) :rule val :args ((%s b)))' % (i, n, n), 'ov': '(step @u%d (P (_ %s v1)) :rule val :args ((%s v1)))' % (i, n, n), 'dt': '(step @u%d (P %s) :rule val :args ((eo::typeof (%s_d a))))' % (i, n, n)}[k]
    return o, use, k


def cases_S03(r, tier):
    N_ = 250 if tier == 'quick' else 5000
    pre = SPRE + '(declare-const v1 V)\n'
    post = pre
    for _ in range(N_):
        names = ['n%d' % i for i in range(6)]

        def block(scoped=True):
            o, ks, kinds = [], {}, []
            for i, n in enumerate(r.sample(names, r.choice([2, 4, 6]))):
                d, u, k = rdecl(r, n, i)
                if k in ('rule',) and 'a' in kinds:
                    continue
                o.append(d)
                ks[n] = (d, u, k)
                if r.random() < .6:
                    o.append(u)
                if scoped and r.random() < .2:
                    kinds.append(r.choice('pa'))
                    o.append('(push)' if kinds[-1] == 'p' else '(assume-push @o%d w)' % i)
            return o, ks, kinds
        o1, k1, _ = block()
        o2, k2, _ = block(False)
        pre1 = pre if r.random() < .8 else ''
        if not pre1:
            o1, k1 = [], {}
        tail = [u for d, u, k in k2.values()]
        r.shuffle(tail)
        extra = []
        if r.random() < .3:
            o3, k3, _ = block()
            extra = o3 + ['(reset)', post]
        # the same names with other meanings
        yield Case('correct', 'declarations after a reset', text=pre1 + '\n'.join(o1) + '\n(reset)\n' + (post if pre1 else pre) + '\n'.join(extra + o2 + tail) + '\n')
        # what was declared before is forgotten
        for n, (d, u, k) in r.sample(sorted(k1.items()), min(3, len(k1))):
            if n in k2:
                continue
            yield Case('error', '%s was declared before the reset (%s)' % (n, k), text=pre + '\n'.join(o1) + '\n(reset)\n' + post + '\n'.join(o2) + '\n' + u + '\n')
        ov = [n for n in k1 if n in k2 and {k1[n][2], k2[n][2]} <= {'fun', 'pred'} and False]
        # the prelude is forgotten as well
        n = r.choice(['a', 'f', 'U', 'Int', 'P', 'p', 'lcons', 'w'])
        yield Case('error', '%s was declared before the reset' % n, text=pre + '(reset)\n' + '(define @k () %s)\n' % n)
        if r.random() < .3:
            yield Case('error', 'rule val was declared before the reset', text=pre + '(reset)\n(declare-const w Bool)\n(step @1 :rule val :args (w))\n')
    for t, e, w in [
            ('(declare-const k (-> U U))\n(reset)\n@PRE(declare-const k (-> V U))\n(step @1 :rule val :args ((k a)))', 'error', 'an overload of before'), ('(declare-const k (-> U U))\n(reset)\n@PRE(declare-const k (-> V U))\n(step @1 :rule val :args ((k v1)))', 'correct', 'declared with another type'),
            ('(declare-const k (-> U U))\n(declare-const k (-> V U))\n(reset)\n@PRE(declare-const k (-> Int U))\n(step @1 :rule val :args ((k v1)))', 'error', 'overloads of before'),
            ('(declare-const k (-> U U))\n(declare-const k (-> V U))\n(reset)\n@PRE(declare-const k (-> Int U))\n(push)\n(declare-const k (-> U U))\n(pop)\n(step @1 :rule val :args ((k 1)))', 'correct', 'overloads of before'),
            ('(assume @a w)\n(reset)\n@PRE(step @1 w :rule id :premises (@a))', 'error', 'an assumption of before'), ('(assume @a w)\n(step @s w :rule id :premises (@a))\n(reset)\n@PRE(step @1 w :rule id :premises (@s))', 'error', 'a step of before'),
            ('(assume-push @a w)\n(reset)\n@PRE', 'correct', 'a proof scope is closed'), ('(assume-push @a w)\n(reset)\n@PRE(step-pop @1 :rule taut)', 'error', 'a proof scope is closed'), ('(push)\n(reset)\n@PRE(pop)', 'error', 'a scope is closed'),
            ('(assume-push @a w)\n(reset)\n@PRE(declare-rule k ((x U)) :args (x) :conclusion (p x))', 'correct', 'a rule after a reset in a proof scope'),
            ('(assume-push @a w)\n(reset)\n@PRE(assume-push @b (p a))\n(step-pop @1 (P (p a)) :rule taut)', 'correct', 'a scope after a reset in a scope'),
            ('(assume-push @a w)\n(reset)\n@PRE(assume-push @b (p a))\n(step-pop @1 (P w) :rule taut)', 'error', 'a scope after a reset in a scope'),
            ('(push)\n(declare-const k U)\n(reset)\n@PRE(push)\n(declare-const k Bool)\n(pop)\n(assume @1 k)', 'error', 'a scope after a reset in a scope'), ('(push)\n(declare-const k U)\n(reset)\n@PRE(declare-const k Bool)\n(push)\n(declare-const k U)\n(pop)\n(assume @1 k)', 'correct', 'a scope after a reset in a scope'),
            ('(reset)\n@PRE(step @1 (P (eo::add 1 2)) :rule val :args (3))', 'correct', 'builtin operators'), ('(reset)\n@PRE(step @1 (P (-> U U)) :rule val :args ((eo::typeof g)))', 'correct', 'builtin types'), ('(reset)\n(reset)\n@PRE(step @1 (P true) :rule val :args ((eo::eq a a)))', 'correct', 'two resets'),
            ('(reset)\n@PRE(step @1 (P (_ f a b)) :rule val :args ((f a b)))', 'correct', 'builtin application'), ('(reset)\n@PRE(step @1 (P (eo::cons eo::List::cons a eo::List::nil)) :rule val :args ((eo::List::cons a)))', 'correct', 'builtin lists'),
            ('(program $k ((x U)) :signature (U) U ((($k x) x)))\n(reset)\n@PRE(program $k ((x U)) :signature (U) U ((($k x) (g x))))\n(step @1 (P (g a)) :rule val :args (($k a)))', 'correct', 'a program defined again'),
            ('(program $k ((x U)) :signature (U) U ((($k x) x)))\n(reset)\n@PRE(program $k ((x U)) :signature (U) U ((($k x) (g x))))\n(step @1 (P a) :rule val :args (($k a)))', 'error', 'a program defined again'),
            ('(program $k ((x U)) :signature (U) U)\n(reset)\n@PRE(program $k ((x V)) :signature (V) V ((($k x) x)))\n(step @1 (P v1) :rule val :args (($k v1)))', 'correct', 'a forward declaration of before'),
            ('(declare-rule k ((x U)) :args (x) :conclusion (p x))\n(reset)\n@PRE(declare-rule k ((x U)) :args (x) :conclusion (p (g x)))\n(step @1 (p (g a)) :rule k :args (a))', 'correct', 'a rule declared again'),
            ('(declare-rule k ((x U)) :args (x) :conclusion (p x))\n(reset)\n@PRE(declare-rule k ((x U)) :args (x) :conclusion (p (g x)))\n(step @1 (p a) :rule k :args (a))', 'error', 'a rule declared again'),
            ('(define k () a)\n(reset)\n@PRE(define k () b)\n(step @1 (P b) :rule val :args (k))', 'correct', 'a definition made again'), ('(define k () a)\n(reset)\n@PRE(define k () b)\n(step @1 (P a) :rule val :args (k))', 'error', 'a definition made again'),
            ('(reset)\n@PRE(step @1 (P U) :rule val :args ((eo::typeof a)))', 'correct', 'symbols declared again'), ('(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)\n(reset)\n@PRE(declare-const or (-> Bool Bool Bool))\n(step @1 (P (_ or w w)) :rule val :args ((or w w)))', 'correct', 'attributes of before'),
            ('(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)\n(reset)\n@PRE(declare-const or (-> Bool Bool Bool))\n(step @1 :rule val :args ((or w w w)))', 'error', 'attributes of before')]:
        yield Case(e, w + ': ' + t.replace('\n', ' '), text=pre + t.replace('@PRE', post) + '\n')


def cases(prop, r, tier):
    yield from globals()['cases_' + prop](r, tier)
