"""Memory errors (M01): runs of a checker built with AddressSanitizer.

The inputs are a sample of those of every other property, plus histories that
create, share and drop terms in scopes and build others in their place.
"""
import importlib, random
from .core import Case
from .lang import PRE

OTHERS = [('g_ops', 'A01'), ('g_ops', 'A02'), ('g_ops', 'A03'), ('g_core', 'A04'), ('g_core', 'A05'), ('g_lex', 'L01'), ('g_lex', 'L02'), ('g_proof', 'P01'), ('g_proof', 'P02'), ('g_proof', 'P03'),
          ('g_proof', 'P04'), ('g_err', 'P04'), ('g_scope', 'S01'), ('g_scope', 'S02'), ('g_scope', 'S03'), ('g_term', 'B01'), ('g_term', 'B02'), ('g_term', 'B03'), ('g_term', 'B04'),
          ('g_type', 'T01'), ('g_type', 'T02')]
REUSE = {'ASAN_OPTIONS': 'alloc_dealloc_mismatch=0:detect_leaks=0:quarantine_size_mb=0:thread_local_quarantine_size_kb=0'}

MPRE = PRE + '''(declare-const lst Type)
(declare-const nl lst)
(declare-parameterized-const cns ((T Type :implicit)) (-> T lst lst) :right-assoc-nil nl)
(program $dbl ((x U) (n Int)) :signature (U Int) U ((($dbl x 0) x) (($dbl x n) ($dbl (f x x) (eo::add n -1)))))
(program $len ((x U) (l lst :list)) :signature (lst) Int ((($len nl) 0) (($len (cns x l)) (eo::add 1 ($len l)))))
(program $swap ((x U) (y U)) :signature (U) U ((($swap (f x y)) (f ($swap y) ($swap x))) (($swap x) x)))
(program $rep ((x U) (n Int)) :signature (U Int) lst ((($rep x 0) nl) (($rep x n) (eo::cons cns x ($rep x (eo::add n -1))))))
(declare-const tn (-> Int U))
(program $val ((x U) (y U) (n Int)) :signature (U) Int ((($val (f x y)) (eo::add ($val x) ($val y))) (($val (g x)) (eo::mul 2 ($val x))) (($val (tn n)) n)))
(program $hh ((n Int)) :signature (Int) Int ((($hh n) ($val (f (tn n) (g (tn (eo::add n 1))))))))
(program $sum ((n Int)) :signature (Int) Int ((($sum 0) 0) (($sum n) (eo::add ($hh n) ($sum (eo::add n -1))))))
(program $mus ((n Int)) :signature (Int) Int ((($mus 0) 0) (($mus n) (eo::add ($mus (eo::add n -1)) ($hh n)))))
(program $val2 ((x U) (y U) (n Int) (m Int)) :signature (Int U) Int ((($val2 m (f x y)) (eo::add ($val2 m x) ($val2 m y))) (($val2 m (g x)) (eo::mul 2 ($val2 m x))) (($val2 m (tn n)) n)))
(program $hh2 ((n Int)) :signature (Int) Int ((($hh2 n) ($val2 1 (f (tn n) (g (tn (eo::add n 1))))))))
(program $sum2 ((n Int)) :signature (Int) Int ((($sum2 0) 0) (($sum2 n) (eo::add ($hh2 n) ($sum2 (eo::add n -1))))))
(program $val3 ((x U) (y U) (n Int) (m Int)) :signature (Int Bool U) Int ((($val3 m true (f x y)) (eo::add ($val3 m true x) ($val3 m true y))) (($val3 m true (g x)) (eo::mul 2 ($val3 m true x))) (($val3 m true (tn n)) n)))
(program $hh3 ((n Int)) :signature (Int) Int ((($hh3 n) ($val3 1 true (f (tn n) (g (tn (eo::add n 1))))))))
(program $sum3 ((n Int)) :signature (Int) Int ((($sum3 0) 0) (($sum3 n) (eo::add ($hh3 n) ($sum3 (eo::add n -1))))))
(program $bld ((n Int)) :signature (Int) U ((($bld n) (f (tn n) (g (tn n))))))
(program $h2 ((n Int) (k Int)) :signature (Int Int) Int ((($h2 n k) (eo::ite (eo::is_eq ($bld k) (f (tn 3) (g (tn n)))) 1 0))))
(program $cnt ((n Int)) :signature (Int) Int ((($cnt 0) 0) (($cnt n) (eo::add ($h2 n 3) ($cnt (eo::add n -1))))))
(declare-rule taut ((F Bool)) :assumption F :conclusion (P F))
(declare-rule id ((F Bool)) :premises (F) :conclusion F)
'''


def history(r, n):
    """commands that are all accepted"""
    out, depth, i = [], [], [0]
    TY = {'U': 'a', 'Int': '3', 'Bool': 'true'}

    def nm(p):
        i[0] += 1
        return '%s%d' % (p, i[0])

    def step(t, want):
        out.append('(step %s (P %s) :rule val :args (%s))' % (nm('@s'), want, t))
    scopes = [dict(a='U', b='U', c='U', i='Int', m='Bool', n='Bool')]

    def term(t, d=3):
        c = [k for s in scopes for k, v in s.items() if v == t]
        if d == 0 or r.random() < .2:
            return r.choice(c) if c and r.random() < .8 else TY[t]
        if t == 'U':
            return r.choice(['(f %s %s)' % (term('U', d - 1), term('U', d - 1)), '(g %s)' % term('U', d - 1), '(h %s %s %s)' % (term('U', 0), term('U', d - 1), term('U', 0))])
        if t == 'Int':
            return '(s %s)' % term('Int', d - 1)
        return r.choice(['(q %s %s)' % (term('Bool', d - 1), term('Bool', d - 1)), '(p %s)' % term('U', d - 1)])
    for _ in range(n):
        k = r.random()
        t = r.choice(list(TY))
        if k < .16 and len(scopes) < 7:
            if r.random() < .5:
                out.append('(push)')
                depth.append('p')
            else:
                out.append('(assume-push %s %s)' % (nm('@h'), term('Bool')))
                depth.append('a')
            scopes.append({})
        elif k < .36 and len(scopes) > 1:
            scopes.pop()
            out.append('(pop)' if depth.pop() == 'p' else '(step-pop %s :rule taut)' % nm('@t'))
        elif k < .5:
            x = nm('k')
            out.append('(declare-const %s %s)' % (x, t))
            scopes[-1][x] = t
            step('(eo::typeof %s)' % x, t)
        elif k < .56:
            # another meaning of a declared symbol, for the time of the scope
            if len(scopes) > 1:
                y = nm('ov')
                out.append('(declare-const %s U)\n(declare-const %s (-> Int U))' % (y, y))
                step('(eo::typeof (%s 1))' % y, 'U')
        elif k < .6:
            # types of types
            out.append('(push)')
            x, y = nm('ty'), r.choice(['%s U', 'U %s', '%s Bool', 'Int %s', 'U Bool %s', '(-> %s U) U'])
            if r.random() < .6:
                out.append('(declare-const %s Type)' % x)
            else:
                out.append('(declare-const %s0 (-> Type Type))\n(declare-const %s (-> Type Type Type))' % (x, x))
                x = '(%s (%s0 U) Int)' % (x, x)
            step('(eo::typeof (-> %s))' % (y % x), 'Type')
            out.append('(pop)')
            step('(eo::typeof (f %s))' % term('U', 1), '(-> U U)')
            step('(eo::typeof (p %s))' % term('U', 1), 'Bool')
        elif k < .64:
            x = term(t)
            step('(eo::typeof %s)' % x, t)
        elif k < .72:
            v = r.randrange(6)
            x = term('U', 2)
            w = x
            for _ in range(v):
                w = '(f %s %s)' % (w, w)
            step('($dbl %s %d)' % (x, v), w)
        elif k < .78:
            v = r.randrange(20)
            step('($len ($rep %s %d))' % (term('U', 2), v), str(v))
        elif k < .8:
            v = r.choice([0, 3, 8, 30])
            step('(%s %d)' % (r.choice(['$sum', '$mus', '$sum2', '$sum3']), v), str(3 * v * (v + 1) // 2 + 2 * v))
        elif k < .81:
            v = r.choice([2, 3, 9])
            step('($cnt %d)' % v, '1' if v >= 3 else '0')
        elif k < .84:
            # symbols with attributes, and later ones without
            # (a symbol that occurs in a term is never released)
            out.append('(push)')
            for _ in range(r.choice([1, 2, 4])):
                t_, at = r.choice([('U U U', ':right-assoc-nil a'), ('U U U', ':left-assoc-nil a'), ('U U U', ':right-assoc'), ('U U U', ':left-assoc'), ('U U Bool', ':chainable q'),
                                   ('U U Bool', ':pairwise q'), ('lst U U', ':binder cns'), ('U U U', ':right-assoc-non-singleton-nil a'), ('U U U', ':left-assoc-non-singleton-nil a')])
                out.append('(declare-const %s (-> %s) %s)' % (nm('un'), t_, at))
            out.append('(pop)')
            if r.random() < .5:
                x = nm('at')
                out.append('(push)\n(declare-const %s (-> U U U U))' % x)
                step('(eo::typeof (%s a))' % x, '(-> U U U)')
                step('(eo::typeof (%s a b))' % x, '(-> U U)')
                step('(eo::typeof (%s a b a))' % x, 'U')
                out.append('(pop)')
                continue
            x = nm('at')
            a = r.choice([' :right-assoc-nil a', ' :left-assoc-nil a', ' :chainable q', '', '', ''])
            if a[-1:] == 'q':
                out.append('(push)\n(declare-const %s (-> U U Bool) :chainable q)' % x)
                step('(%s a b c)' % x, '(q (%s a b) (%s b c))' % (x, x))
            else:
                out.append('(push)\n(declare-const %s (-> U U U)%s)' % (x, a))
                step('(eo::typeof (%s a))' % x, 'U' if a else '(-> U U)')
            out.append('(pop)')
        elif k < .86:
            x, y = 'g%d' % r.randrange(3), 0
            u, v = r.choice('abc'), r.choice('abc')
            step('($swap (f %s (g %s)))' % (u, v), '(f (g %s) %s)' % (v, u))
        elif k < .9:
            z = nm('d')
            x = term('U', 2)
            out.append('(define %s ((z U)) (f z (g %s)))' % (z, x))
            y = term('U', 2)
            step('(%s %s)' % (z, y), '(f %s (g %s))' % (y, x))
        elif k < .95:
            x, y = r.choice('abc'), term('U', 2)
            step('(eo::define ((x (g %s)) (y (f %s a))) (f x (f y x)))' % (x, y), '(f (g %s) (f (f %s a) (g %s)))' % (x, y, x))
        elif 'a' not in depth:
            z = nm('R')
            out.append('(declare-rule %s ((x U) (y U)) :args (x y) :requires (((f x y) (f x y))) :conclusion (P (f y x)))' % z)
            x, y = term('U', 2), term('U', 2)
            out.append('(step %s (P (f %s %s)) :rule %s :args (%s %s))' % (nm('@r'), y, x, z, x, y))
    while depth:
        out.append('(pop)' if depth.pop() == 'p' else '(step-pop %s :rule taut)' % nm('@t'))
    return '\n'.join(out) + '\n'


def cases(prop, r, tier):
    big = tier == 'thorough'
    for i in range(400 if big else 60):
        t = history(r, r.choice([15, 40, 120]))
        rs = '(reset)\n'
        if r.random() < .2:
            t = t + '(declare-rule zz ((F Bool)) :premises (F) :conclusion false :sorry)\n' + rs + MPRE + history(r, 20)
        for env in ({}, REUSE):
            c = Case('correct', 'a history of declarations, scopes and steps', text=MPRE + t)
            c.san, c.env = 'also', env
            yield c
    for m, p in OTHERS:
        M = importlib.import_module('vf.conc.' + m)
        step = 7 if big else 16
        k0 = r.randrange(step)
        for i, c in enumerate(M.cases(p, random.Random(r.random()), 'quick')):
            if i % step != k0 and i > 3:
                continue
            fs = c.files
            if c.checks is not None:
                fs = {**c.files, c.main: c.prelude + '\n' + '\n'.join(x[1] for x in c.checks) + '\n'}
            n = Case('no memory error', c.what, files=fs, args=c.args, stdin=c.stdin, main=c.main)
            n.san, n.env = 'only', {}
            yield n
