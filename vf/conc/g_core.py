"""Core operators (A04) and list operators (A05)."""
from .core import Case
from .lits import Num, Rat, Bin, Str, Bool
from .lang import *

a, b, c, d, m, n = [K(x) for x in 'abcdmn']


def uterm(r, dep=2):
    if dep == 0 or r.random() < .35:
        return r.choice([a, b, c, d])
    k = r.random()
    if k < .4:
        return ap(K('g'), uterm(r, dep - 1))
    if k < .85:
        return ap(K('f'), uterm(r, dep - 1), uterm(r, dep - 1))
    return ap(K('h'), *[uterm(r, dep - 1) for _ in range(3)])


def value(r, dep=2):
    """a value of any kind"""
    k = r.random()
    if k < .35:
        return uterm(r, dep)
    if k < .45:
        return ap(K('p'), uterm(r, dep - 1))
    if k < .55:
        return r.choice([TRUE, FALSE, m, n])
    if k < .65:
        return L(Num(r.choice([0, 1, 2, -1, 7])))
    if k < .7:
        return L(Rat(r.choice([0, 1, 2, -1])))
    if k < .75:
        return L(Bin(r.choice([1, 2, 3]), r.randint(0, 7)))
    if k < .8:
        return L(Str(r.choice(['', 'a', 'b', 'x', 'true', '0'])))
    if k < .86:
        return ('v', r.choice(['x', 'y', 'a']), r.choice([K('U'), K('Int'), K('Bool')]))
    if k < .9:
        return r.choice([K('U'), K('Bool'), K('Int'), ('arrow', K('U'), K('U'))])
    if k < .94:
        return r.choice([K('f'), K('g'), ap(K('f'), a)])
    return ap(K('s'), N(r.choice([0, 1])))


def stuck(r):
    return r.choice([op('neg', L(Str('abc'))), op('add', N(1), L(Str('a'))), op('zdiv', N(1), N(0)),
                     ap(K('s'), op('zdiv', N(1), N(0))), op('to_z', L(Str('ab'))), op('requires', N(0), N(1), N(2)),
                     op('ite', K('m'), N(1), N(2))])


def small(r):
    """operands that coincide often"""
    return r.choice([a, b, ap(K('g'), a), ap(K('f'), a, b), TRUE, FALSE, N(0), N(1), L(Rat(0)), L(Rat(1)), L(Bin(1, 0)), L(Bin(2, 0)), L(Str('a')), L(Str('')),
                     ('v', 'a', K('U')), ('v', 'a', K('Int')), K('U'), m])


def expr(r, dep):
    if dep == 0:
        k = r.random()
        return value(r) if k < .4 else small(r) if k < .85 else stuck(r)
    o = r.choice(['is_ok', 'ite', 'eq', 'is_eq', 'requires', 'and', 'or', 'not', 'xor', 'is_z', 'is_q', 'is_bin', 'is_str', 'is_bool', 'is_var',
                  'eq', 'is_eq', 'ite', 'is_ok', 'requires'])
    e = lambda: expr(r, r.choice([0, dep - 1]))
    bo = lambda: boolean(r, dep - 1)
    if o == 'ite':
        if r.random() < .5:
            return op('ite', bo(), boolean(r, dep - 1), boolean(r, dep - 1))
        if r.random() < .2:
            x = uterm(r, 1)
            return op('ite', r.choice([m, op('eq', op('zdiv', N(1), N(0)), N(1))]), x, uterm(r, 1))
        # the branch not taken may be stuck
        return op('ite', bo(), r.choice([N(1), op('zdiv', N(1), N(0)), N(2)]), r.choice([N(1), op('zdiv', N(1), N(0)), N(3)]))
    if o in ('and', 'or', 'xor'):
        return op(o, *[bo() for _ in range(r.choice([2, 2, 3, 4]))])
    if o == 'not':
        return op(o, bo())
    if o in ('eq', 'is_eq'):
        x = e()
        y = x if r.random() < .35 else e()
        return op(o, x, y)
    if o == 'requires':
        x = e()
        y = x if r.random() < .6 else e()
        return op(o, x, y, e())
    return op(o, e())


def boolean(r, dep):
    if dep <= 0:
        return r.choice([TRUE, FALSE, TRUE, FALSE, m])
    k = r.random()
    if k < .25:
        return op(r.choice(['and', 'or', 'xor']), boolean(r, dep - 1), boolean(r, dep - 1))
    if k < .35:
        return op('not', boolean(r, dep - 1))
    if k < .5:
        x = small(r)
        return op(r.choice(['eq', 'is_eq']), x, x if r.random() < .5 else small(r))
    if k < .75:
        return op(r.choice(['is_ok', 'is_z', 'is_q', 'is_bin', 'is_str', 'is_bool', 'is_var']), r.choice([small(r), stuck(r), value(r)]))
    return r.choice([TRUE, FALSE])


def typeof(t):
    k = t[0]
    if k == 'k':
        n = t[1]
        U = K('U')
        return {'f': ('arrow', U, U, U), 'g': ('arrow', U, U), 'h': ('arrow', U, U, U, U), 'p': ('arrow', U, K('Bool')), 's': ('arrow', K('Int'), K('Int')),
                'm': K('Bool'), 'n': K('Bool'), 'i': K('Int'), 'U': K('Type'), 'Int': K('Type'), 'Bool': K('Type')}.get(n, U)
    if k == 'l':
        return {'num': K('Int'), 'rat': K('Real'), 'bin': K('BV'), 'str': K('Strg'), 'bool': K('Bool')}[t.o.cat]
    if k == 'v':
        return t[2]
    if k == 'arrow':
        return K('Type')
    if k == '@':
        ft = typeof(t[1])
        return ft[2] if len(ft) == 3 else ('arrow',) + ft[2:]
    raise ValueError(t)


def params(r, e):
    """abstract some leaves of e into parameters: (macro body, arguments)"""
    leaves = []

    def walk(t, path):
        if t[0] in ('k', 'l', 'v', 'arrow') or t[0] == '@':
            leaves.append((path, t))
            if t[0] != '@':
                return
        for i, x in enumerate(t):
            if isinstance(x, tuple) and i >= (2 if t[0] in ('op', 'call') else 1):
                walk(x, path + (i,))
    walk(e, ())
    # rule arguments must be values
    leaves = [(p_, t) for p_, t in leaves if p_ and Interp(typeof=typeof).ev(t) == t]
    if not leaves:
        return None
    r.shuffle(leaves)
    pick, used = [], []
    for p_, t in leaves:
        if not any(p_[:len(u)] == u or u[:len(p_)] == p_ for u in used) and len(pick) < r.randint(1, 4):
            pick.append((p_, t))
            used.append(p_)
    vals = []
    body = e

    def setp(t, path, v):
        if not path:
            return v
        return t[:path[0]] + (setp(t[path[0]], path[1:], v),) + t[path[0] + 1:]
    for p_, t in pick:
        if t in vals and r.random() < .7:
            j = vals.index(t)
        else:
            vals.append(t)
            j = len(vals) - 1
        body = setp(body, p_, X('x%d' % j))
    return body, vals


def typed_ok(v):
    return v != K('Type')


def cases_A04(r, tier):
    N_ = 6000 if tier == 'quick' else 150000
    batch = []
    pre = []
    it = Interp(typeof=typeof)
    for k in range(N_):
        e = expr(r, r.randint(1, 3))
        w = it_eval(it, e)
        if r.random() < .5:
            batch.append(chk(text(e), w))
        else:
            # through a rule whose arguments are the leaves
            pb = params(r, e)
            if pb is None:
                continue
            body, vals = pb
            nm = 'r%d' % k
            ps = ' '.join('(T%d Type) (x%d T%d)' % (j, j, j) for j in range(len(vals)))
            as_ = ' '.join('x%d' % j for j in range(len(vals)))
            if w == STUCK:
                line = '(declare-rule %s (%s) :args (%s) :conclusion (P (eo::is_ok %s)))\n(step %s (P false) :rule %s :args (%s))' % (
                    nm, ps, as_, text(body), name(), nm, ' '.join(text(v) for v in vals))
            else:
                line = '(declare-rule %s (%s) :args (%s) :conclusion (P %s))\n(step %s (P %s) :rule %s :args (%s))' % (
                    nm, ps, as_, text(body), name(), text(w), nm, ' '.join(text(v) for v in vals))
            batch.append(('%s with parameters is %s' % (text(e), 'stuck' if w == STUCK else text(w)), line))
        if len(batch) >= 150:
            yield Case('correct', 'core operators', prelude=PRE, checks=batch)
            batch = []
    yield Case('correct', 'core operators', prelude=PRE, checks=batch)
    yield from instances(r, 1200 if tier == 'quick' else 40000)
    # hash, cmp, typeof, nameof
    batch = []
    V = [value(r) for _ in range(60)] + [a, b, c, TRUE, FALSE, N(0), N(1), L(Rat(0)), L(Rat(1)), L(Bin(1, 0)), L(Bin(2, 0)), L(Str('')), ('v', 'a', K('U'))]
    V = list(dict.fromkeys(V))
    for _ in range(700 if tier == 'quick' else 8000):
        x, y, z = r.choice(V), r.choice(V), r.choice(V)
        tx, ty, tz = text(x), text(y), text(z)
        batch.append(chk('(eo::eq (eo::hash %s) (eo::hash %s))' % (tx, ty), B(x == y)))
        if x == y:
            batch.append(chk('(eo::cmp %s %s)' % (tx, ty), FALSE))
        else:
            batch.append(chk('(eo::xor (eo::cmp %s %s) (eo::cmp %s %s))' % (tx, ty, ty, tx), TRUE))
        batch.append(chk('(eo::or (eo::not (eo::and (eo::cmp %s %s) (eo::cmp %s %s))) (eo::cmp %s %s))' % (tx, ty, ty, tz, tx, tz), TRUE))
        batch.append(chk('(eo::eq (eo::cmp %s %s) (eo::is_neg (eo::add (eo::neg (eo::hash %s)) (eo::hash %s))))' % (tx, ty, tx, ty), TRUE))
        batch.append(chk('(eo::is_z (eo::hash %s))' % tx, TRUE))
    for x in V:
        batch.append(chk('(eo::typeof %s)' % text(x), typeof(x)))
        if x[0] in ('k', 'v') and x[1] != 'Bool':
            batch.append(chk('(eo::nameof %s)' % text(x), L(Str(x[1]))))
        elif x[0] in ('l', '@'):
            batch.append(chk('(eo::nameof %s)' % text(x), STUCK))
        if x[0] == 'v':
            batch.append(chk('(eo::var (eo::nameof %s) (eo::typeof %s))' % (text(x), text(x)), x))
    for s in range(0, len(batch), 150):
        yield Case('correct', 'order and attributes of values', prelude=PRE, checks=batch[s:s + 150])


def instances(r, n):
    """macros over parameters, applied to values and to terms that do not evaluate"""
    it = Interp(typeof=typeof)
    batch = []
    for k in range(n):
        leaf = lambda: X(r.choice(['x0', 'x0', 'x1'])) if r.random() < .8 else small(r)

        def e(dep):
            if dep == 0 or r.random() < .15:
                return leaf()
            o = r.choice(['requires', 'requires', 'ite', 'eq', 'eq', 'is_eq', 'is_ok', 'is_z', 'is_str', 'not', 'and', 'or', 'xor', 'add', 'neg', 'len', 'concat'])
            if o == 'requires':
                x = e(dep - 1)
                return op(o, x, x if r.random() < .5 else e(dep - 1), e(dep - 1))
            if o == 'ite':
                return op(o, op(r.choice(['eq', 'is_eq']), leaf(), leaf()) if r.random() < .5 else op('is_ok', leaf()), e(dep - 1), e(dep - 1))
            if o in ('is_ok', 'is_z', 'is_str', 'not', 'neg', 'len'):
                return op(o, e(dep - 1))
            x = e(dep - 1)
            return op(o, x, x if r.random() < .4 else e(dep - 1))
        body = e(r.randint(1, 2))
        sub = {v: r.choice([small, value, stuck, stuck])(r) for v in ('x0', 'x1')}
        w = it_eval(it, subst(body, sub))
        nm = name()[1:]
        ps = ' '.join('(T%d Type :implicit) (x%d T%d)' % (j, j, j) for j in range(2))
        app = '(%s %s %s)' % (nm, text(sub['x0']), text(sub['x1']))
        ck = chk(app, w)
        batch.append(('%s with %s and %s is %s' % (text(body), text(sub['x0']), text(sub['x1']), 'stuck' if w == STUCK else text(w)), '(define %s (%s) %s)\n%s' % (nm, ps, text(body), ck[1])))
        if len(batch) >= 100:
            yield Case('correct', 'instances of macros', prelude=PRE, checks=batch)
            batch = []
    yield Case('correct', 'instances of macros', prelude=PRE, checks=batch)


def it_eval(it, e):
    it.fuel = 4000
    return it.ev(e)


def cases(prop, r, tier):
    if prop == 'A04':
        yield from cases_A04(r, tier)
    else:
        yield from cases_A05(r, tier)


LPRE = PRE + '''(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-const lor (-> Bool Bool Bool) :left-assoc-nil false)
(declare-const land (-> Bool Bool Bool) :left-assoc-nil true)
(declare-const nor (-> Bool Bool Bool) :right-assoc-non-singleton-nil false)
(declare-const lnor (-> Bool Bool Bool) :left-assoc-non-singleton-nil false)
(declare-const ra (-> Bool Bool Bool) :right-assoc)
(declare-const Lst Type)
(declare-const nil Lst)
(declare-parameterized-const cons ((T Type :implicit)) (-> T Lst Lst) :right-assoc-nil nil)
(declare-const lnil Lst)
(declare-parameterized-const snoc ((T Type :implicit)) (-> Lst T Lst) :left-assoc-nil lnil)
(declare-const e U)
(declare-const k (-> U U U) :right-assoc-nil (g e))
'''
LISTS = {'or': (FALSE, False), 'and': (TRUE, False), 'lor': (FALSE, True), 'land': (TRUE, True), 'nor': (FALSE, False), 'lnor': (FALSE, True),
         'cons': (K('nil'), False), 'snoc': (K('lnil'), True), 'k': (ap(K('g'), K('e')), False)}
LOPS = ['cons', 'list_len', 'list_concat', 'list_nth', 'list_find', 'list_rev', 'list_erase', 'list_erase_all', 'list_setof', 'list_minclude', 'list_meq',
        'list_diff', 'list_inter', 'list_singleton_elim', 'nil']


# operator -> number of arguments
ARITY = {1: 'is_ok typeof nameof hash not neg is_neg len to_z to_q to_str is_z is_q is_bin is_str is_bool is_var dt_constructors dt_selectors',
         2: 'is_eq var eq zdiv zmod qdiv to_bin find cmp gt list_len list_rev list_setof list_singleton_elim nil add mul and or xor concat',
         3: 'requires ite cons extract list_concat list_find list_erase list_erase_all list_nth list_minclude list_meq list_diff list_inter'}
FOLD = 'add mul and or xor concat'.split()


def arity_cases():
    """operators with the wrong number of arguments in a program do not evaluate"""
    batch = []
    for n, ops in ARITY.items():
        for o in ops.split():
            for k in range(1, 6):
                if k == n or (o == 'extract' and k == 2) or (o in FOLD and k > 2):
                    continue
                for first in (('or', 'lor', '""', '0', 'x') if o in ('list_concat', 'nil', 'cons') else ('or', 'x')):
                    nm = '$w' + name()[1:]
                    src = '(eo::%s %s)' % (o, ' '.join(([first] + ['y', 'x', 'y', 'x', 'y'])[:k]))
                    batch.append(('%s in a program is stuck' % src, '(program %s ((x Bool) (y Bool)) :signature (Bool Bool) Bool (((%s x y) %s)))\n%s' % (nm, nm, src, (
                        '(define %s () (%s true (or m n)))' if o == 'ite' else '(step %s (P false) :rule val :args ((eo::is_ok (%s true (or m n)))))') % (name(), nm))))
    for s in range(0, len(batch), 100):
        yield Case('correct', 'wrong number of arguments', prelude=LPRE, checks=batch[s:s + 100])


def cases_A05(r, tier):
    yield from arity_cases()
    it = Interp(lists=LISTS)
    N_ = 9000 if tier == 'quick' else 250000
    batch = []

    def elem(f, dep=1):
        if f in ('cons', 'snoc'):
            return r.choice([a, b, c, N(0), N(1), L(Str('a')), m, LISTS[f][0], ap(K('g'), a)])
        if f == 'k':
            return r.choice([a, b, c, ap(K('g'), a), ap(K('g'), K('e')), K('e')])
        x = [m, n, ap(K('p'), a), ap(K('p'), b), TRUE, FALSE]
        if dep and r.random() < .25:
            return lst(r.choice([f, f, 'or', 'and', 'lor']), 0)
        return r.choice(x)

    def lst(f, dep=1, ln=None):
        ln = r.choice([0, 1, 1, 2, 3, 4, 5, 7]) if ln is None else ln
        pool = [elem(f, dep) for _ in range(r.choice([1, 2, 3, 5]))]
        return it.mk(f, [r.choice(pool) for _ in range(ln)])

    def bad(f):
        """well-typed but not an f-list"""
        if f == 'cons':
            return r.choice([K('lnil'), ap(K('cons'), a, K('lnil')), ap(K('snoc'), K('nil'), a)])
        if f == 'snoc':
            return r.choice([K('nil'), ap(K('snoc'), K('nil'), a), ap(K('cons'), a, K('lnil'))])
        if f == 'k':
            return r.choice([a, K('e'), ap(K('k'), a, K('e')), ap(K('f'), a, ap(K('g'), K('e')))])
        o = r.choice(['or', 'and', 'lor', 'land', 'nor', 'ra'])
        x = ap(K(f), elem(f), elem(f))
        return r.choice([m, x, ap(K(f), x, n), ap(K(o), m, n), ap(K(o), m, LISTS.get(o, (TRUE,))[0]), ap(K(f), elem(f), x), ap(K('ra'), m, FALSE)])

    def L1(f):
        return lst(f) if r.random() < .88 else bad(f)
    for _ in range(N_):
        f = r.choice(list(LISTS))
        o = r.choice(LOPS)
        l1 = L1(f)
        els = it.elems(f, l1) or []
        if o == 'nil':
            t = op('nil', K(f), {'cons': K('Lst'), 'snoc': K('Lst'), 'k': K('U')}.get(f, K('Bool')))
        elif o == 'cons':
            t = op('cons', K(f), elem(f), l1)
        elif o in ('list_len', 'list_rev', 'list_setof', 'list_singleton_elim'):
            if o == 'list_singleton_elim' and r.random() < .4:
                l1 = lst(f, 1, 1)
            t = op(o, K(f), l1)
        elif o == 'list_nth':
            ln = len(els)
            t = op(o, K(f), l1, N(r.choice([0, 0, 1, ln - 1, ln, ln + 1, -1, 2 ** 32, 2 ** 32 + 1, 2 ** 64, r.randint(0, ln)])))
            if r.random() < .03:
                t = op(o, K(f), l1, L(Rat(0)))
        elif o in ('list_find', 'list_erase', 'list_erase_all'):
            x = r.choice(els) if els and r.random() < .75 else elem(f)
            if r.random() < .1:
                x = r.choice([l1, LISTS[f][0]])
            t = op(o, K(f), l1, x)
        else:
            k = r.random()
            if k < .15:
                l2 = l1
            elif k < .55 and els:
                # elements shared with the first list
                l2 = it.mk(f, [r.choice(els + [elem(f)]) for _ in range(r.randint(0, 6))])
                if k < .3:
                    x = list(els)
                    r.shuffle(x)
                    if r.random() < .4:
                        x = x[:-1]
                    elif r.random() < .4:
                        x.insert(0, r.choice(els))
                    l2 = it.mk(f, x)
            else:
                l2 = L1(f)
            t = op(o, K(f), l1, l2)
        if r.random() < .04 and o != 'nil':
            t = t[:2] + (K('ra'),) + t[3:]
            if f not in ('cons', 'snoc', 'k'):
                pass
            else:
                continue
        if r.random() < .03 and len(t) > 4 and f not in ('cons', 'snoc', 'k'):
            t = t[:-1] + (op('not', m),)
        if o != 'nil' and r.random() < .12:
            # nested operators
            t = op('list_len', K(f), t) if o in ('list_rev', 'list_setof', 'list_erase', 'list_concat', 'list_diff', 'list_inter', 'list_erase_all') else t
        w = it_eval(it, t)
        route = r.random()
        if route < .5:
            batch.append(chk(text(t), w))
        else:
            pb = (t[:3] + tuple(X('x%d' % j) for j in range(len(t) - 3)), list(t[3:])) if t[1] != 'nil' and t[3][0] != 'op' and all(
                it_eval(it, z) != STUCK for z in t[3:]) else None
            if pb is None:
                batch.append(chk(text(t), w))
                continue
            body, vals = pb
            nm = name()[1:]
            ps = ' '.join('(T%d Type) (x%d T%d)' % (j, j, j) for j in range(len(vals)))
            as_ = ' '.join('x%d' % j for j in range(len(vals)))
            batch.append(('%s through parameters is %s' % (text(t), 'stuck' if w == STUCK else text(w)),
                          '(declare-rule %s (%s) :args (%s) :conclusion (P %s))\n(step %s (P %s) :rule %s :args (%s))' % (
                nm, ps, as_, text(body) if w != STUCK else text(op('is_ok', body)), name(), text(w) if w != STUCK else 'false', nm, ' '.join(text(v) for v in vals))))
        if len(batch) >= 150:
            yield Case('correct', 'list operators', prelude=LPRE, checks=batch)
            batch = []
    yield Case('correct', 'list operators', prelude=LPRE, checks=batch)
