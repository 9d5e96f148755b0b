"""Proof scripts: steps (P01), local assumptions (P02), the reference (P03), the verdict (P04)."""
from .core import Case
from . import lits
from .lits import Num, Rat, Bin, Str, Bool
from .lang import *

BC = ['A', 'B', 'C', 'D', 'E']
UC = ['a', 'b', 'c']
LISTS = {'and': (TRUE, False), 'or': (FALSE, False)}
PPRE = '''(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const U Type)
(declare-const a U)
(declare-const b U)
(declare-const c U)
(declare-const A Bool)
(declare-const B Bool)
(declare-const C Bool)
(declare-const D Bool)
(declare-const E Bool)
(declare-const f (-> U U))
(declare-const p (-> U Bool))
(declare-const eqU (-> U U Bool))
(declare-const le (-> Int Int Bool))
(declare-const not (-> Bool Bool))
(declare-const imp (-> Bool Bool Bool))
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)
'''
HEADS = {'f': 'U', 'p': 'B', 'eqU': 'B', 'not': 'B', 'imp': 'B', 'and': 'B', 'or': 'B', 'le': 'B'}


def sx(t):
    """surface text"""
    if t[0] == '@':
        h, xs = t, []
        while h[0] == '@':
            xs.insert(0, h[2])
            h = h[1]
        if h[0] == 'k' and h[1] in LISTS and len(xs) == 2:
            l, r_ = [], t
            nil = LISTS[h[1]][0]
            while r_[0] == '@' and r_[1][0] == '@' and r_[1][1] == h:
                l.append(r_[1][2])
                r_ = r_[2]
            if r_ == nil:
                return '(%s %s)' % (h[1], ' '.join(sx(y) for y in l))
            return text(t)
        if h[0] == 'k' and h[1] not in LISTS:
            return '(%s %s)' % (h[1], ' '.join(sx(y) for y in xs))
        return '(_ %s %s)' % (sx(h), ' '.join(sx(y) for y in xs))
    if t[0] == 'op':
        return '(eo::%s %s)' % (t[1], ' '.join(sx(y) for y in t[2:]))
    if t[0] == 'call':
        return '(%s %s)' % (t[1], ' '.join(sx(y) for y in t[2:]))
    return text(t)


def fl(f, l):
    r_ = LISTS[f][0]
    for x_ in l[::-1]:
        r_ = ap(K(f), x_, r_)
    return r_


def uterm(r, d, pv=()):
    if pv and r.random() < .5:
        return X(r.choice(pv))
    if d > 0 and r.random() < .4:
        return ap(K('f'), uterm(r, d - 1, pv))
    return K(r.choice(UC))


def bterm(r, d, bv=(), uv=()):
    """a formula over the parameters"""
    if bv and r.random() < (.35 if d else .8):
        return X(r.choice(bv))
    k = r.random()
    if d <= 0 or k < .15:
        return K(r.choice(BC)) if r.random() < .9 else r.choice([TRUE, FALSE])
    if k < .3:
        return ap(K('p'), uterm(r, 1, uv))
    if k < .4:
        return ap(K('eqU'), uterm(r, 1, uv), uterm(r, 1, uv))
    if k < .55:
        return ap(K('not'), bterm(r, d - 1, bv, uv))
    if k < .8:
        return ap(K('imp'), bterm(r, d - 1, bv, uv), bterm(r, d - 1, bv, uv))
    return fl(r.choice(['and', 'or']), [bterm(r, d - 1, bv, uv) for _ in range(r.choice([1, 2, 2, 3]))])


def ty(t):
    """U, B, I or None"""
    if t[0] == 'k':
        return 'U' if t[1] in UC else 'B' if t[1] in BC else None
    if t[0] == 'l':
        return {'bool': 'B', 'num': 'I'}.get(t.o.cat)
    h, xs = t, []
    if t[0] != '@':
        return None
    while h[0] == '@':
        xs.insert(0, h[2])
        h = h[1]
    sg = {'f': ('U', 'U'), 'p': ('U', 'B'), 'eqU': ('U', 'U', 'B'), 'not': ('B', 'B'), 'imp': ('B', 'B', 'B'), 'and': ('B', 'B', 'B'), 'or': ('B', 'B', 'B'), 'le': ('I', 'I', 'B')}.get(h[1])
    if h[0] != 'k' or sg is None or len(xs) != len(sg) - 1 or [ty(y) for y in xs] != list(sg[:-1]):
        return None
    return sg[-1]


def streamed(expect, what, pre, text):
    """the signature in a file, the proof on the standard input"""
    return Case(expect, what, files={'pre.eo': pre}, args=['--include=pre.eo'], stdin=text)


class Rule:
    def __init__(s, name, pars, conc, prem=(), args=(), req=(), assum=None, plist=None, explicit=False, sorry=False):
        s.name, s.pars, s.conc, s.prem, s.args, s.req, s.assum, s.plist, s.explicit, s.sorry = name, pars, conc, list(prem), list(args), list(req), assum, plist, explicit, sorry

    def text(s):
        o = '(declare-rule %s (%s)' % (s.name, ' '.join('(%s %s)' % (n, {'B': 'Bool', 'U': 'U', 'I': 'Int'}[t]) for n, t in s.pars))
        if s.assum:
            o += ' :assumption ' + sx(s.assum)
        if s.plist:
            o += ' :premise-list %s %s' % (sx(s.prem[0]), s.plist)
        elif s.prem:
            o += ' :premises (%s)' % ' '.join(sx(y) for y in s.prem)
        if s.args:
            o += ' :args (%s)' % ' '.join(sx(y) for y in s.args)
        if s.req:
            o += ' :requires (%s)' % ' '.join('(%s %s)' % (sx(x), sx(y)) for x, y in s.req)
        o += ' :%s %s' % ('conclusion-explicit' if s.explicit else 'conclusion', sx(s.conc))
        return o + (' :sorry)' if s.sorry else ')')

    def apply(s, prem, args, assum=None, stated=None, programs=None):
        """the derived formula or None; raises nothing"""
        if (s.assum is not None) != (assum is not None):
            return None
        if s.explicit and stated is None:
            return None
        if s.plist:
            prem = [fl(s.plist, prem)]
        if len(prem) != len(s.prem) or len(args) != len(s.args):
            return None
        sub = {}
        for pt, t in list(zip(s.args, args)) + ([(s.conc, stated)] if s.explicit else []) + ([(s.assum, assum)] if s.assum is not None else []) + list(zip(s.prem, prem)):
            sub = match(pt, t, sub)
            if sub is None:
                return None
        I = Interp(programs=programs or {}, lists=LISTS)
        for x_, y_ in s.req:
            x1, y1 = I.ev(subst(x_, sub)), I.ev(subst(y_, sub))
            if STUCK in (x1, y1) or x1 != y1:
                return None
        c = I.ev(subst(s.conc, sub))
        if c == STUCK or ty(c) != 'B':
            return None
        if stated is not None and stated != c:
            return None
        return c


def pars_of(t, acc):
    if t[0] == 'x':
        acc.add(t[1])
    elif t[0] not in ('k', 'l', 'v'):
        for y in t[1:]:
            if isinstance(y, tuple):
                pars_of(y, acc)
    return acc


def rrule(r, i, kind=None):
    """a random rule"""
    bv, uv = ['F', 'G', 'H'][:r.choice([1, 2, 3])], ['x', 'y'][:r.choice([0, 1, 2])]
    np_, na = r.choice([0, 1, 1, 2, 2, 3]), r.choice([0, 0, 1, 2])
    prem = [bterm(r, r.choice([0, 1, 2, 2]), bv, uv) for _ in range(np_)]
    args = []
    for _ in range(na):
        if uv and r.random() < .4:
            args.append(uterm(r, 1, uv))
        else:
            args.append(bterm(r, r.choice([0, 0, 1]), bv, uv))
    if kind is None:
        kind = r.choice(['plain'] * 5 + ['req'] * 2 + ['plist', 'explicit', 'eval'])
    plist = None
    if kind == 'plist':
        plist = r.choice(['and', 'or'])
        prem = [r.choice([X('F'), X('F'), ap(K(plist), X('F'), X('G'))])]
        bv = ['F', 'G']
    assum = bterm(r, r.choice([0, 0, 1, 2]), bv, uv) if kind == 'assum' else None
    if not prem and not args and not plist:
        args = [X(bv[0])]
    # every parameter of the conclusion is bound
    bound = set()
    for t in prem + args + ([assum] if assum else []):
        pars_of(t, bound)
    b2, u2 = [v for v in bv if v in bound], [v for v in uv if v in bound]
    conc = bterm(r, 2, b2, u2)
    req = []
    if kind == 'req':
        for _ in range(r.choice([1, 1, 2])):
            k = r.random()
            if k < .3 and len(b2) >= 2:
                q_ = r.sample(b2, 2)
                req.append((op('eq', X(q_[0]), X(q_[1])), r.choice([TRUE, FALSE])))
            elif k < .5 and b2:
                req.append((X(r.choice(b2)), bterm(r, 1, b2, u2)))
            elif k < .6 and u2:
                req.append((X(r.choice(u2)), uterm(r, 1, u2)))
            elif k < .8 and b2:
                req.append((op('is_bool', X(r.choice(b2))), r.choice([TRUE, FALSE])))
            else:
                req.append((call('$neg', bterm(r, 1, b2, u2)), bterm(r, 1, b2, u2)))
    if kind == 'eval' and b2:
        conc = r.choice([call('$neg', X(b2[0])), op('ite', op('eq', X(b2[0]), X(b2[-1])), conc, X(b2[0])), op('cons', K('or'), X(b2[0]), fl('or', [K('A')])),
                         op('list_concat', K('and'), X(b2[0]), X(b2[-1])), ap(K('imp'), call('$neg', X(b2[-1])), conc)])
    explicit = kind == 'explicit'
    if explicit:
        conc = bterm(r, 2, bv, uv)
    used = set(bound)
    pars_of(conc, used)
    return Rule('r%d' % i, [(v, 'B' if v in bv else 'U') for v in sorted(used)], conc, prem, args, req, assum, plist, explicit)


NEG = '(program $neg ((F Bool)) :signature (Bool) Bool ((($neg (not F)) F) (($neg true) false) (($neg false) true)))\n'
NEGP = {'$neg': [([ap(K('not'), X('F'))], X('F')), ([TRUE], FALSE), ([FALSE], TRUE)]}


def inst(r, rule):
    """arguments for a rule: premises, args, assumption, stated (for explicit)"""
    s = {n: (bterm(r, r.choice([0, 1, 2])) if t == 'B' else uterm(r, 1)) for n, t in rule.pars}
    for x_, y_ in rule.req:
        # try to satisfy simple requirements
        if x_[0] == 'x' and r.random() < .8 and x_[1] not in pars_of(y_, set()):
            s[x_[1]] = subst(y_, s)
        if x_[0] == 'op' and x_[1] == 'eq' and y_ == TRUE and r.random() < .8:
            s[x_[2][1]] = s[x_[3][1]]
        if x_[0] == 'call' and y_[0] == 'x' and r.random() < .8:
            v = Interp(programs=NEGP, lists=LISTS).ev(subst(x_, s))
            if v != STUCK:
                s[y_[1]] = v
        if x_[0] == 'call' and x_[2][0] == 'x' and r.random() < .8:
            s[x_[2][1]] = ap(K('not'), subst(y_, s)) if x_[2][1] not in pars_of(y_, set()) else s[x_[2][1]]
    if rule.plist:
        n = r.choice([0, 1, 2, 3])
        prem = [bterm(r, 1) for _ in range(n)]
    else:
        prem = [subst(t, s) for t in rule.prem]
    return prem, [subst(t, s) for t in rule.args], subst(rule.assum, s) if rule.assum else None, subst(rule.conc, s) if rule.explicit else None


def stepline(nm, stated, rule, prem, args, pop=False):
    return '(step%s %s%s :rule %s%s%s)' % ('-pop' if pop else '', nm, '' if stated is None else ' ' + sx(stated), rule,
                                          ' :premises (%s)' % ' '.join(prem) if prem else '', ' :args (%s)' % ' '.join(sx(y) for y in args) if args else '')


def near(r, t):
    """a formula close to t"""
    if t[0] == '@' and r.random() < .6:
        k = r.random()
        if k < .5:
            return ('@', t[1], near(r, t[2]))
        if t[1][0] == '@' and k < .8:
            if t[1][2] != t[2] and ty(t[1][2]) == ty(t[2]) and r.random() < .4:
                return ('@', ('@', t[1][1], t[2]), t[1][2])
            return ('@', ('@', t[1][1], near(r, t[1][2])), t[2])
    if ty(t) == 'U':
        return r.choice([K(r.choice(UC)), ap(K('f'), t)])
    if t[0] == 'k':
        return K(r.choice(BC))
    return r.choice([ap(K('not'), t), K(r.choice(BC)), bterm(r, 1), fl('and', [t]), fl('or', [t])])


def cases_P01(r, tier):
    N_ = 60 if tier == 'quick' else 1500
    for _ in range(N_):
        rules = [rrule(r, i) for i in range(14)]
        pre = PPRE + NEG + ''.join(x_.text() + '\n' for x_ in rules) + '(declare-rule id ((F Bool)) :premises (F) :conclusion F)\n'
        idr = Rule('id', [('F', 'B')], X('F'), [X('F')])
        checks, negs = [], []
        for rule in rules:
            for _ in range(8):
                prem, args, _, st = inst(r, rule)
                if any(ty(t) != 'B' for t in prem):
                    continue
                c = rule.apply(prem, args, None, st, NEGP)
                nm = [name() for _ in prem]
                asm = ''.join('(assume %s %s)\n' % (n, sx(t)) for n, t in zip(nm, prem))
                if c is None:
                    negs.append((asm + stepline('@s', st, rule.name, nm, args), '%s does not apply to %s %s' % (rule.text(), [sx(t) for t in prem], [sx(t) for t in args])))
                    continue
                sn = name()
                stated = c if rule.explicit or r.random() < .7 else None
                ln = asm + stepline(sn, stated, rule.name, nm, args)
                # what was established is available under the name, and nothing else
                if r.random() < .5 or stated is None:
                    ln += '\n' + stepline(name(), c, 'id', [sn], [])
                    if r.random() < .3:
                        w = near(r, c)
                        if w != c and ty(w) == 'B':
                            negs.append((ln + '\n' + stepline('@t', w, 'id', [sn], []), 'a step proves %s, not %s' % (sx(c), sx(w))))
                checks.append(('%s from %s with %s by %s' % (sx(c), [sx(t) for t in prem], [sx(t) for t in args], rule.text()), ln))
                # mutations
                for _ in range(3):
                    p2, a2, s2, n2, a0 = list(prem), list(args), c, list(nm), asm
                    k = r.random()
                    what = None
                    if k < .3:
                        s2, what = near(r, c), 'the conclusion is changed'
                        if ty(s2) != 'B':
                            continue
                    elif k < .4 and len(p2) > 1:
                        i, j = r.sample(range(len(p2)), 2)
                        p2[i], p2[j], what = p2[j], p2[i], 'premises are swapped'
                    elif k < .5 and p2:
                        i = r.randrange(len(p2))
                        del p2[i]
                        what = 'a premise is missing'
                    elif k < .6:
                        p2.insert(r.randrange(len(p2) + 1), r.choice(p2) if p2 and r.random() < .5 else bterm(r, 1))
                        what = 'an extra premise'
                    elif k < .7 and p2:
                        i = r.randrange(len(p2))
                        p2[i], what = near(r, p2[i]), 'a premise is changed'
                        if ty(p2[i]) != 'B':
                            continue
                    elif k < .78 and a2:
                        del a2[r.randrange(len(a2))]
                        what = 'an argument is missing'
                    elif k < .85:
                        a2.insert(r.randrange(len(a2) + 1), r.choice(a2) if a2 and r.random() < .5 else bterm(r, 1))
                        what = 'an extra argument'
                    elif k < .95 and a2:
                        i = r.randrange(len(a2))
                        a2[i], what = near(r, a2[i]), 'an argument is changed'
                    elif len(a2) > 1:
                        i, j = r.sample(range(len(a2)), 2)
                        a2[i], a2[j], what = a2[j], a2[i], 'arguments are swapped'
                    else:
                        continue
                    if rule.apply(p2, a2, None, s2, NEGP) is not None:
                        continue
                    if len(p2) + len(a2) == len(prem) + len(args) and len(p2) != len(prem):
                        continue
                    nn = [name() for _ in p2]
                    negs.append((''.join('(assume %s %s)\n' % (n, sx(t)) for n, t in zip(nn, p2)) + stepline('@s', s2, rule.name, nn, a2),
                                 '%s: %s, premises %s, arguments %s, stated %s' % (what, rule.text(), [sx(t) for t in p2], [sx(t) for t in a2], sx(s2))))
                # a premise that is a formula, not a proof
                if prem and r.random() < .1:
                    n2 = list(nm)
                    i = r.randrange(len(n2))
                    n2[i] = sx(prem[i])
                    negs.append((asm + stepline('@s', c, rule.name, n2, args), 'premise %d is a formula, not a proof' % i))
                    n2[i] = '@undeclared'
                    negs.append((asm + stepline('@s', c, rule.name, n2, args), 'unknown premise'))
        yield Case('correct', 'steps', prelude=pre, checks=checks)
        r.shuffle(negs)
        for t, w in negs[:14 if tier == 'quick' else 60]:
            yield Case('error', w, text=pre + t + '\n')
    # dependencies between premises, arguments and the conclusion
    base = PPRE + NEG + '''(declare-rule mp ((F Bool) (G Bool)) :premises (F (imp F G)) :conclusion G)
(declare-rule id ((F Bool)) :premises (F) :conclusion F)
(declare-rule tr () :conclusion true)
(declare-rule any ((F Bool)) :args (F) :conclusion (or F (not F)))
(declare-rule exp ((F Bool) (G Bool)) :premises (F) :conclusion-explicit (or F G))
(declare-rule exq ((F Bool)) :requires (((eo::is_eq F A) true)) :conclusion-explicit (imp F F))
(declare-rule un ((T Type) (x T)) :args (x) :conclusion x)
(declare-rule br ((x U) (i Int)) :args (x i) :requires (((eo::gt i 3) true) ((eo::is_neg i) false)) :conclusion (p x))
(declare-rule stk ((i Int) (j Int)) :args (i j) :requires (((eo::zdiv i j) (eo::zdiv i j))) :conclusion (le i j))
(declare-rule stk2 ((i Int) (j Int)) :args (i j) :conclusion (le (eo::zdiv i j) j))
(declare-rule conj ((F Bool)) :premise-list F and :conclusion F)
(declare-rule disj ((F Bool) (G Bool)) :premise-list (or F G) or :args (G) :conclusion F)
(declare-rule lec ((i Int) (j Int)) :args (i j) :conclusion (le i (eo::add i j)))
(declare-rule asu ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (imp F G))
(declare-rule asa ((F Bool) (G Bool) (H Bool)) :assumption F :premises (G) :args (H) :conclusion (imp F (or G H)))
(declare-rule asb ((F Bool) (H Bool)) :assumption F :args (H) :requires (((eo::is_eq F H) false)) :conclusion (imp H F))
(declare-rule ase ((F Bool) (G Bool)) :assumption F :args (G) :conclusion-explicit (imp G F))
(assume @A A)
(assume @B B)
(assume @AB (imp A B))
(assume @BC (imp B C))
'''
    for t, w, e in [
            ('(step @1 B :rule mp :premises (@A @AB))', 'modus ponens', 'correct'), ('(step @1 :rule mp :premises (@A @AB))\n(step @2 C :rule mp :premises (@1 @BC))', 'a chain of modus ponens', 'correct'),
            ('(step @1 C :rule mp :premises (@A @BC))', 'one consistent instantiation', 'error'), ('(step @1 B :rule mp :premises (@AB @A))', 'premises in order', 'error'),
            ('(step @1 C :rule mp :premises (@A @AB))', 'stated conclusion is another formula', 'error'), ('(step @1 true :rule tr)', 'nullary rule', 'correct'),
            ('(step @1 false :rule tr)', 'nullary rule, wrong conclusion', 'error'), ('(step @1 true :rule tr :args (A))', 'nullary rule with an argument', 'error'),
            ('(step @1 true :rule tr :premises (@A))', 'nullary rule with a premise', 'error'), ('(step @1 (or A D) :rule exp :premises (@A))', 'explicit conclusion', 'correct'),
            ('(step @1 (_ or A D) :rule exp :premises (@A))', 'explicit conclusion', 'correct' if False else 'error'),
            ('(step @1 :rule exp :premises (@A))', 'explicit conclusion missing', 'error'), ('(step @1 (imp A A) :rule exq)', 'explicit conclusion meets its requirement', 'correct'),
            ('(step @1 (imp B B) :rule exq)', 'explicit conclusion fails its requirement', 'error'), ('(step @1 (imp A B) :rule exq)', 'explicit conclusion does not match', 'error'),
            ('(step @1 A :rule un :args (A))', 'formula argument', 'correct'), ('(step @1 :rule un :args (a))', 'the conclusion is not a formula', 'error'),
            ('(step @1 :rule un :args (1))', 'the conclusion is not a formula', 'error'), ('(step @1 :rule un :args (U))', 'the conclusion is not a formula', 'error'),
            ('(step @1 :rule un :args (p))', 'the conclusion is not a formula', 'error'), ('(step @1 :rule un :args (@A))', 'a proof is not a formula', 'error'),
            ('(step @1 (p a) :rule br :args (a 4))', 'requirements hold', 'correct'), ('(step @1 (p a) :rule br :args (a 3))', 'a requirement fails', 'error'),
            ('(step @1 (p a) :rule br :args (a b))', 'a requirement does not evaluate', 'error'), ('(step @1 (p A) :rule br :args (A 4))', 'an ill-typed conclusion', 'error'),
            ('(step @1 (le 7 2) :rule stk :args (7 2))', 'requirement on values', 'correct'), ('(step @1 (le 7 0) :rule stk :args (7 0))', 'a stuck requirement is not met', 'error'),
            ('(step @1 (le 3 2) :rule stk2 :args (7 2))', 'evaluated conclusion', 'correct'), ('(step @1 :rule stk2 :args (7 0))', 'a stuck conclusion', 'error'),
            ('(step @1 (and A B) :rule conj :premises (@A @B))', 'premise list', 'correct'), ('(step @1 (and B A) :rule conj :premises (@A @B))', 'premise list in order', 'error'),
            ('(step @1 (and A) :rule conj :premises (@A))', 'premise list of one', 'correct'), ('(step @1 A :rule conj :premises (@A))', 'premise list of one', 'error'),
            ('(step @1 true :rule conj)', 'empty premise list', 'correct'), ('(step @1 (and A B) :rule conj :premises (@A B))', 'premise list with a formula', 'error'),
            ('(step @1 (and A A) :rule conj :premises (@A @A))', 'premise list with repetition', 'correct'), ('(step @1 A :rule disj :premises (@A @B) :args ((or B)))', 'premise list with pattern', 'error'),
            ('(step @1 (le 2 5) :rule lec :args (2 3))', 'evaluated conclusion', 'correct'), ('(step @1 (le 2 (eo::add 2 3)) :rule lec :args (2 3))', 'evaluated stated conclusion', 'correct'),
            ('(step @1 (le 2 6) :rule lec :args (2 3))', 'wrong evaluated conclusion', 'error'), ('(step @1 (imp A B) :rule asu :premises (@B))', 'a rule with an assumption used by step', 'error'),
            ('(step @1 A :rule nosuch :premises (@A))', 'unknown rule', 'error'), ('(step @1 A :rule A :premises (@A))', 'not a rule', 'error'), ('(step @1 A :premises (@A))', 'no rule', 'error'),
            ('(step @1 A :rule id :premises (@1))', 'a step that uses itself', 'error'), ('(step @1 A :rule id :premises (@2))\n(step @2 A :rule id :premises (@1))', 'circular steps', 'error'),
            ('(step @1 A :rule id :premises ((eo::ite true @A @B)))', 'evaluated premise', 'correct'), ('(step @1 B :rule id :premises ((eo::ite true @A @B)))', 'evaluated premise', 'error'),
            ('(step @A B :rule id :premises (@B))\n(step @1 B :rule id :premises (@A))', 'a rebound name', 'correct'), ('(step @A B :rule id :premises (@B))\n(step @1 A :rule id :premises (@A))', 'a rebound name', 'error'),
            ('(declare-const @Z Bool)\n(step @1 @Z :rule id :premises (@Z))', 'a constant is not a proof', 'error'), ('(define @Z () A)\n(step @1 A :rule id :premises (@Z))', 'a defined formula is not a proof', 'error'),
            ('(define @Z () @A)\n(step @1 A :rule id :premises (@Z))', 'a name for a proof', 'correct'), ('(declare-const pf (-> Bool Bool))\n(step @1 C :rule id :premises ((pf C)))', 'a made up proof', 'error'),
            *[('(assume-push @s D)\n(step-pop @1 %s :rule %s%s%s)%s' % (c_, ru, ' :premises (%s)' % p_ if p_ else '', ' :args (%s)' % a_ if a_ else '', f_),
               'a step-pop with arguments', 'correct' if h_ else 'error')
              for e_, sfx in (('', 0), ('\n(step @2 %s :rule id :premises (@1))', 1))
              for c_, ru, p_, a_, g_, pr_ in [
                  ('(imp D (or A B))', 'asa', '@A', 'B', 1, '(imp D (or A B))'), ('(imp D (or B A))', 'asa', '@A', 'B', 0, '(imp D (or A B))'),
                  ('(imp A (or A B))', 'asa', '@A', 'B', 0, '(imp D (or A B))'), ('(imp D (or D C))', 'asa', '@s', 'C', 1, '(imp D (or D C))'),
                  ('(imp D (or C C))', 'asa', '@s', 'C', 0, '(imp D (or D C))'), ('(imp D D)', 'asa', '@s', 'D', 0, '(imp D (or D D))'),
                  ('false', 'asa', '@s', 'D', 0, 'false'), ('', 'asa', '@s', 'D', 1, '(imp D (or D D))'), ('', 'asa', '@s', 'D', 2, '(imp D D)'),
                  ('(imp D (or D D))', 'asa', '@s', 'D D', 0, 'true'), ('(imp D (or D D))', 'asa', '@s', '', 0, 'true'), ('(imp D (or D D))', 'asa', '', 'D', 0, 'true'),
                  ('(imp B D)', 'asb', '', 'B', 1, '(imp B D)'), ('(imp D B)', 'asb', '', 'B', 0, '(imp D B)'), ('(imp D D)', 'asb', '', 'D', 0, '(imp D D)'),
                  ('B', 'asb', '', 'B', 0, 'B'), ('(imp C D)', 'ase', '', 'C', 1, '(imp C D)'), ('(imp C A)', 'ase', '', 'C', 0, '(imp C A)'),
                  ('(imp A D)', 'ase', '', 'C', 0, '(imp A D)'), ('', 'ase', '', 'C', 0, '(imp C D)')]
              for f_ in [(e_ % pr_) if sfx else e_] for h_ in [g_ if g_ < 2 else (0 if sfx else 1)]],
            ('(assume @n (not A))\n(step @1 (not A) :rule id :premises (@n))', 'negation', 'correct'), ('(step @1 A :rule id :premises ())', 'no premises', 'error'), ('(step @1 a :rule id :premises (@A))', 'stated conclusion is no formula', 'error'),
            ('(step @1 A :rule id :premises (@A) :args (A))', 'an extra argument', 'error'), ('(step @1 (or A (not A)) :rule any :args (A) :premises (@A))', 'an extra premise', 'error'), ('(step @1 A :rule id :premises (@A @A))', 'an extra premise', 'error'),
            ('(declare-rule nlr () :conclusion p)\n(step @1 (p a) :rule nlr :args (a))', 'a nullary rule with an argument', 'error'),
            ('(declare-const nocon (-> Bool Bool Bool))\n(declare-rule nca ((F Bool)) :premise-list F nocon :conclusion F)\n(step @1 A :rule nca)', 'a premise list without neutral element, no premises', 'error'),
            ('(declare-rule bad ((F Bool) (G Bool)) :premises (F) :conclusion G)', 'a rule with an unbound conclusion', 'error'),
            ('(declare-rule bad ((F Bool) (G Bool)) :premises (F) :requires ((G A)) :conclusion F)', 'a rule with an unbound requirement', 'error'),
            ('(declare-rule bad ((F Bool)) :conclusion F)', 'a nullary rule with a parameter', 'error'), ('(declare-rule bad ((F Bool)) :premises (F))', 'a rule without conclusion', 'error')]:
        yield Case(e, w + ': ' + t.replace('\n', ' '), text=base + t + '\n')


# ---------------------------------------------------------------- scopes
class Script:
    """a random script with local assumptions; tracks what is visible"""
    def __init__(s, r, rules, sorry=False):
        s.r, s.rules, s.lines = r, rules, []
        s.scopes = [dict()]           # name -> formula, per open scope
        s.first = []                  # assumption of the open scopes
        s.dead = []                   # names of closed scopes
        s.n = 0
        s.asserts = []
        s.hist = []                   # (position, kind)
        s.loc = [[]]                  # constants declared per scope

    def vis(s):
        d = {}
        for x_ in s.scopes:
            d.update(x_)
        return d

    def nm(s):
        s.n += 1
        # names are reused and shadowed
        if s.r.random() < .25:
            return s.r.choice(['@p', '@q', '@r'])
        return '@n%d' % s.n

    def pick(s):
        d = s.vis()
        k = s.r.choice(sorted(d)) if d else None
        return (k, d[k]) if k else (None, None)

    def assume(s):
        n, t = s.nm(), bterm(s.r, 1)
        s.lines.append('(assume %s %s)' % (n, sx(t)))
        s.scopes[-1][n] = t
        s.asserts.append(t)

    def push(s):
        n, t = s.nm(), bterm(s.r, 1)
        s.lines.append('(assume-push %s %s)' % (n, sx(t)))
        s.scopes.append({n: t})
        s.loc.append([])
        s.first.append(t)

    def step(s, spoil=False):
        r = s.r
        k, t = s.pick()
        if k is None:
            return s.assume()
        n = s.nm()
        w = r.random()
        if w < .4:
            s.lines.append(stepline(n, t, 'id', [k], []))
            s.scopes[-1][n] = t
        elif w < .7:
            k2, t2 = s.pick()
            c = fl('and', [t, t2])
            s.lines.append(stepline(n, c if r.random() < .5 else None, 'conj', [k, k2], []))
            s.scopes[-1][n] = c
        else:
            x_ = bterm(r, 1)
            c = ap(K('or'), x_, fl('or', [t]))
            s.lines.append(stepline(n, c if r.random() < .5 else None, 'weak', [k], [x_]))
            s.scopes[-1][n] = c

    def pop(s):
        r = s.r
        k, t = s.pick()
        n = s.nm()
        A_ = s.first.pop()
        w = r.random()
        if w < .7:
            c = ap(K('imp'), A_, t)
            s.lines.append(stepline(n, c if r.random() < .7 else None, 'scope', [k], [], True))
        elif w < .85:
            c = ap(K('imp'), A_, A_)
            s.lines.append(stepline(n, c if r.random() < .5 else None, 'taut', [], [], True))
        else:
            k2, t2 = s.pick()
            c = ap(K('imp'), A_, fl('and', [t, t2]))
            s.lines.append(stepline(n, c if r.random() < .5 else None, 'scope2', [k, k2], [], True))
        d = s.scopes.pop()
        s.loc.pop()
        s.dead += [(x_, y) for x_, y in d.items()]
        s.scopes[-1][n] = c
        return n, c

    def run(s, k):
        for _ in range(k):
            w = s.r.random()
            d = len(s.scopes) - 1
            if w < .15:
                s.assume()
            elif w < .35 and d < 5:
                s.push()
            elif w < .6 and d > 0:
                s.pop()
            else:
                s.step()
        return s

    def close(s):
        while len(s.scopes) > 1:
            s.pop()
        return s


SRULES = '''(declare-rule id ((F Bool)) :premises (F) :conclusion F)
(declare-rule conj ((F Bool)) :premise-list F and :conclusion F)
(declare-rule weak ((F Bool) (G Bool)) :premises (F) :args (G) :conclusion (_ or G (or F)))
(declare-rule scope ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (imp F G))
(declare-rule scope2 ((F Bool) (G Bool) (H Bool)) :assumption F :premises (G H) :conclusion (imp F (and G H)))
(declare-rule scopeS ((F Bool)) :assumption F :premises (F) :conclusion (imp F F))
(declare-rule taut ((F Bool)) :assumption F :conclusion (imp F F))
(declare-rule ref ((F Bool)) :assumption (not F) :premises (false) :conclusion F)
(declare-rule scl ((F Bool) (G Bool)) :assumption F :premise-list G and :conclusion (imp F G))
(declare-rule sca ((F Bool) (G Bool)) :assumption F :args (G) :conclusion (imp F G))
(declare-rule sce ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion-explicit (imp F G))
'''


def cases_P02(r, tier):
    N_ = 250 if tier == 'quick' else 6000
    pre = PPRE + SRULES
    use = lambda n, t: stepline('@use', t, 'id', [n], [])
    for _ in range(N_):
        s = Script(r, None).run(r.choice([4, 8, 14, 30]))
        open_ = len(s.scopes) > 1
        if open_ and r.random() < .3:
            yield Case('error', 'the input ends with %d open scopes' % (len(s.scopes) - 1), text=pre + '\n'.join(s.lines) + '\n',
                       **({} if r.random() < .5 else {}))
        body = list(s.lines)
        # names of closed scopes are gone (and restore what they shadowed)
        vis = s.vis()
        dead = [(n, t) for n, t in s.dead if n not in vis]
        for n, t in r.sample(dead, min(2, len(dead))):
            yield Case('error', '%s was discharged' % n, text=pre + '\n'.join(body + [use(n, t)]) + '\n' + ''.join('\n'.join(closing(s)) for _ in [0]) + '\n')
        chk_ = [use(n, t) for n, t in r.sample(sorted(vis.items()), min(4, len(vis)))]
        for n, t in s.dead[-6:]:
            if n in vis and vis[n] != t and r.random() < .5:
                yield Case('error', '%s has its outer meaning again' % n, text=pre + '\n'.join(body + [use(n, t)] + closing(s)) + '\n')
        if len(s.scopes) > 1:
            # wrong assumption discharged
            k, t = s.pick()
            A_ = s.first[-1]
            for o in s.first[:-1] + [x_ for x_ in s.scopes[-1].values()]:
                if o != A_ and r.random() < .4:
                    c = ap(K('imp'), o, t)
                    yield Case('error', 'step-pop discharges %s, not %s' % (sx(A_), sx(o)), text=pre + '\n'.join(body + [stepline('@z', c, 'scope', [k], [], True)] + closing(s, 1)) + '\n')
            if r.random() < .2:
                yield Case('error', 'step-pop with a rule without assumption', text=pre + '\n'.join(body + [stepline('@z', None, 'id', [k], [], True)] + closing(s, 1)) + '\n')
            if r.random() < .2:
                yield Case('error', 'step with a rule with an assumption', text=pre + '\n'.join(body + [stepline('@z', None, 'scope', [k], [])] + closing(s)) + '\n')
        else:
            k, t = s.pick()
            if k and r.random() < .3:
                yield Case('error', 'step-pop without an open scope', text=pre + '\n'.join(body + [stepline('@z', None, r.choice(['scope', 'sce', 'scl']), [k], [], True)]) + '\n')
        cl = closing(s)
        yield Case('correct', 'nested scopes', text=pre + '\n'.join(body + chk_ + cl) + '\n')
        if r.random() < .15:
            yield streamed('correct', 'nested scopes read from the standard input', pre, '\n'.join(body + chk_ + cl) + '\n')
            if open_:
                yield streamed('error', 'the streamed input ends with %d open scopes' % (len(s.scopes) - 1), pre, '\n'.join(body) + '\n')
    b = pre + '(assume @A A)\n'
    for t, w, e in [
            ('(assume-push @b B)\n(step-pop @1 (imp B A) :rule scope :premises (@A))', 'an outer premise', 'correct'),
            ('(assume-push @b B)\n(step-pop @1 (imp B B) :rule scope :premises (@b))\n(step @2 B :rule id :premises (@b))', 'a discharged assumption', 'error'),
            ('(assume-push @b B)\n(step @c B :rule id :premises (@b))\n(step-pop @1 (imp B B) :rule scope :premises (@c))\n(step @2 B :rule id :premises (@c))', 'a step of a closed scope', 'error'),
            ('(assume-push @A B)\n(step-pop @1 (imp B B) :rule scope :premises (@A))\n(step @2 A :rule id :premises (@A))', 'a shadowed assumption is back', 'correct'),
            ('(assume-push @A B)\n(step-pop @1 (imp B B) :rule scope :premises (@A))\n(step @2 B :rule id :premises (@A))', 'a shadowed assumption is back', 'error'),
            ('(assume-push @b B)\n(assume-push @c C)\n(step-pop @1 (imp C B) :rule scope :premises (@b))\n(step-pop @2 (imp B (imp C B)) :rule scope :premises (@1))', 'two scopes', 'correct'),
            ('(assume-push @b B)\n(assume-push @c C)\n(step-pop @1 (imp B C) :rule scope :premises (@c))\n(step-pop @2 (imp C (imp B C)) :rule scope :premises (@1))', 'two scopes in the wrong order', 'error'),
            ('(assume-push @b B)\n(assume @c C)\n(step-pop @1 (imp C B) :rule scope :premises (@b))', 'the first assumption of a scope is discharged', 'error'),
            ('(assume-push @b B)\n(assume @c C)\n(step-pop @1 (imp B C) :rule scope :premises (@c))', 'the first assumption of a scope is discharged', 'correct'),
            ('(assume-push @b B)\n(assume @c C)\n(step-pop @1 (imp B C) :rule scope :premises (@c))\n(step @2 C :rule id :premises (@c))', 'a later assumption of a closed scope', 'error'),
            ('(assume-push @b B)\n(step-pop @1 (imp A B) :rule scope :premises (@b))', 'a global assumption is not discharged', 'error'),
            ('(assume-push @b B)', 'an open scope', 'error'), ('(assume-push @b B)\n(assume-push @c C)\n(step-pop @1 (imp C B) :rule scope :premises (@b))', 'one of two scopes open', 'error'),
            ('(step-pop @1 (imp A A) :rule scope :premises (@A))', 'no scope open', 'error'),
            ('(assume-push @b B)\n(step-pop @1 (imp B A) :rule scope :premises (@A))\n(step-pop @2 (imp B A) :rule scope :premises (@A))', 'popped twice', 'error'),
            ('(assume-push @b B)\n(declare-rule rr ((F Bool)) :premises (F) :conclusion F)\n(step-pop @1 (imp B A) :rule scope :premises (@A))', 'a rule declared in a scope', 'error'),
            ('(assume-push @b B)\n(declare-const k Bool)\n(step-pop @1 (imp B A) :rule scope :premises (@A))\n(assume @k k)', 'a constant of a closed scope', 'error'),
            ('(assume-push @b B)\n(define k () B)\n(step @k k :rule id :premises (@b))\n(step-pop @1 (imp B k) :rule scope :premises (@k))\n(step @2 (imp B B) :rule id :premises (@1))', 'a definition of a scope', 'correct'),
            ('(assume-push @b B)\n(define k () B)\n(step-pop @1 (imp B k) :rule scope :premises (@b))\n(assume @2 k)', 'a definition of a closed scope', 'error'),
            ('(define k () C)\n(assume-push @b B)\n(define k () B)\n(step-pop @1 (imp B k) :rule scope :premises (@b))\n(assume @2 k)\n(step @3 C :rule id :premises (@2))', 'a shadowed definition is back', 'correct'),
            ('(assume-push @b B)\n(define k () @b)\n(step-pop @1 (imp B A) :rule scope :premises (@A))\n(step @2 B :rule id :premises (k))', 'a name for a discharged proof', 'error'),
            ('(assume-push @b B)\n(push)\n(step-pop @1 (imp B A) :rule scope :premises (@A))\n(step @2 B :rule id :premises (@b))', 'a push does not keep an assumption', 'error'),
            ('(assume-push @b B)\n(pop)\n(step-pop @1 (imp B A) :rule scope :premises (@A))', 'pop does not close an assumption', 'error'),
            ('(push)\n(assume-push @b B)\n(step-pop @1 (imp B A) :rule scope :premises (@A))\n(pop)\n(step @2 (imp B A) :rule id :premises (@1))', 'a step of a popped scope', 'error'),
            ('(push)\n(assume-push @b B)\n(step-pop @1 (imp B A) :rule scope :premises (@A))\n(step @2 (imp B A) :rule id :premises (@1))\n(pop)', 'scopes nest', 'correct'),
            ('(assume-push @b (not B))\n(assume @f false)\n(step-pop @1 B :rule ref :premises (@f))\n(step @2 B :rule id :premises (@1))', 'refutation', 'correct'),
            ('(assume-push @b B)\n(assume @f false)\n(step-pop @1 B :rule ref :premises (@f))', 'the assumption does not match', 'error'),
            ('(assume-push @b (not (not B)))\n(assume @f false)\n(step-pop @1 B :rule ref :premises (@f))', 'the assumption does not match', 'error'),
            ('(assume-push @b B)\n(step-pop @1 (imp B (and A B)) :rule scl :premises (@A @b))', 'assumption and premise list', 'correct'),
            ('(assume-push @b B)\n(step-pop @1 (imp B (and B A)) :rule scl :premises (@A @b))', 'assumption and premise list', 'error'),
            ('(assume-push @b B)\n(step-pop @1 (imp B C) :rule sca :args (C))', 'assumption and arguments', 'correct'), ('(assume-push @b B)\n(step-pop @1 (imp C B) :rule sca :args (C))', 'assumption and arguments', 'error'),
            ('(assume-push @b B)\n(step-pop @1 (imp B A) :rule sce :premises (@A))', 'assumption and explicit conclusion', 'correct'),
            ('(assume-push @b B)\n(step-pop @1 (imp A B) :rule sce :premises (@b))', 'assumption and explicit conclusion', 'error'),
            ('(assume-push @b B)\n(step-pop @1 (imp B B) :rule scopeS :premises (@b))', 'assumption and premise agree', 'correct'), ('(assume-push @b B)\n(step-pop @1 (imp B B) :rule scopeS :premises (@A))', 'assumption and premise disagree', 'error'),
            ('(assume-push @b B)\n(step-pop @b (imp B B) :rule scope :premises (@b))\n(step @2 (imp B B) :rule id :premises (@b))', 'the name of the assumption is free again', 'correct'),
            ('(assume-push @b B)\n(step-pop @b (imp B B) :rule scope :premises (@b))\n(step @2 B :rule id :premises (@b))', 'the name of the assumption is free again', 'error')]:
        yield Case(e, w + ': ' + t.replace('\n', ' '), text=b + t + '\n')
        if 'declare-rule' not in t and 'include' not in t:
            yield streamed(e, w + ' (standard input): ' + t.replace('\n', ' '), pre, '(assume @A A)\n' + t + '\n')
    for t, w, e in [('(assume-push @b B)\n(include "i.eo")\n(step-pop @1 (imp B A) :rule scope :premises (@A))', 'an include in a scope', 'error'),
                    ('(include "o.eo")\n(step-pop @1 (imp C C) :rule scope :premises (@A))', 'an included file with an open scope', 'error'),
                    ('(include "o.eo")', 'an included file with an open scope', 'error'),
                    ('(include "i.eo")\n(step @1 C :rule id :premises (@i))', 'an assumption of an included file', 'correct')]:
        yield Case(e, w, text=b + t + '\n', files={'i.eo': '(assume @i C)\n', 'o.eo': '(assume-push @o C)\n'})


def closing(s, skip=0):
    """lines closing the open scopes"""
    return ['(step-pop @cl%d :rule taut)' % i for i in range(len(s.scopes) - 1 - skip)]


# ---------------------------------------------------------------- reference
def cases_P03(r, tier):
    N_ = 120 if tier == 'quick' else 2500
    rpre = '''(set-logic QF_UF)
(set-info :status unsat)
(declare-sort V 0)
(declare-fun v () V)
(declare-fun g (V V) Bool)
'''
    pre = PPRE + SRULES
    for _ in range(N_):
        fs = [bterm(r, r.choice([0, 1, 2, 2])) for _ in range(r.choice([0, 1, 2, 4, 8]))]
        ref = rpre
        for t in fs:
            k = r.random()
            if k < .12:
                ref += '(assert (let ((lx %s)) lx))\n' % sx(t)
            elif k < .2:
                ref += '(push 1)\n(assert %s)\n(pop 1)\n' % sx(t) if False else '(assert %s) ; a comment (assert false)\n' % sx(t)
            else:
                ref += '(assert %s)\n' % sx(t)
        ref += '(check-sat)\n' + ('(exit)\n(assert (p c))\n' if False else '')
        norm = r.random() < .35
        NRM = '''(program $n ((F Bool) (G Bool)) :signature (Bool) Bool ((($n (not (not F))) F) (($n (imp F G)) (_ or (not F) (or G))) (($n F) F)))
'''
        NRMP = {'$n': [([ap(K('not'), ap(K('not'), X('F')))], X('F')), ([ap(K('imp'), X('F'), X('G'))], ap(K('or'), ap(K('not'), X('F')), fl('or', [X('G')]))), ([X('F')], X('F'))]}
        nf = (lambda t: Interp(programs=NRMP, lists=LISTS).ev(call('$n', t))) if norm else (lambda t: t)
        ok = set(nf(t) for t in fs)
        how = r.choice(['cmd', 'cmd', 'opt', 'inc']) if not norm else 'cmd'
        files = {'in.smt2': ref}
        args = []
        head = pre + (NRM if norm else '')
        if how == 'opt':
            args = ['--include=pre.eo', '--reference=in.smt2']
            files['pre.eo'] = head
            head = ''
        elif how == 'inc':
            files['pre.eo'] = head + '(reference "in.smt2")\n'
            files['e.eo'] = '(declare-const zz Bool)\n'
            head = '(include "pre.eo")\n'
            if r.random() < .5:
                head += '(include "e.eo")\n'
        else:
            head += '(reference "in.smt2"%s)\n' % (' $n' if norm else '')
            if r.random() < .3:
                files['e.eo'] = '(declare-const zz Bool)\n'
                head += '(include "e.eo")\n'

        def mk(t):
            return [('(assume @x %s)' % sx(t), nf(t) in ok, 'assume'),
                    ('(assume-push @l (p a))\n(assume @x %s)\n(step-pop @y :rule taut)' % sx(t), nf(t) in ok, 'assume in a scope'),
                    ('(assume-push @l (p a))\n(assume-push @m (p b))\n(assume @x %s)\n(step-pop @y :rule taut)\n(step-pop @z :rule taut)' % sx(t), nf(t) in ok, 'assume in nested scopes'),
                    ('(assume-push @x %s)\n(step-pop @y :rule taut)' % sx(t), True, 'a local assumption'),
                    ('(assume-push @l (p a))\n(assume-push @x %s)\n(step-pop @y :rule taut)\n(step-pop @z :rule taut)' % sx(t), True, 'nested local assumptions'),
                    ('(assume-push @l (p a))\n(step-pop @y :rule taut)\n(assume @x %s)' % sx(t), nf(t) in ok, 'assume after a scope')]
        pos = []
        cands = fs + [near(r, t) for t in fs for _ in range(2)] + [bterm(r, 1) for _ in range(3)] + [ap(K('not'), ap(K('not'), t)) for t in fs[:2]] + [FALSE]
        if norm:
            cands += [nf(t) for t in fs]
        for t in cands:
            if ty(t) != 'B':
                continue
            for ln, good, w in mk(t):
                if good:
                    pos.append(ln)
                elif r.random() < .25:
                    yield Case('error', '%s of %s, which is not asserted%s' % (w, sx(t), ' up to normalisation' if norm else ''), text=head + '\n'.join(pos[-3:] + [ln]) + '\n', files=files, args=args)
        yield Case('correct', 'assumptions that are asserted', prelude=head, checks=[('asserted assumption ' + x_, x_) for x_ in pos], files=files, args=args)
    base = pre + '(declare-parameterized-const = ((T Type :implicit)) (-> T T Bool))\n'
    R = '(declare-fun w () Bool)\n(declare-fun z (Bool) Bool)\n(define-fun d () Bool (imp A B))\n(assert w)\n(assert (z (imp A w)))\n(assert (let ((x A) (y B)) (imp x y)))\n(check-sat)\n'
    for t, e, w in [('(declare-const w Bool)\n(assume @1 w)', 'error', 'another symbol with the same name'), ('(assume @1 w)', 'correct', 'a symbol of the reference'), ('(assume @1 (z (imp A w)))', 'correct', 'a symbol of the reference'),
                    ('(assume @1 (z (imp w A)))', 'error', 'arguments swapped'), ('(assume @1 (imp A B))', 'correct', 'a let in the reference'), ('(assume @1 (= d (imp A B)))', 'correct', 'a definition of the reference'),
                    ('(assume @1 (= (imp A B) d))', 'error', 'a definition of the reference turned around'), ('(assume @1 d)', 'error', 'a defined symbol is not asserted'), ('(assume @1 (z A))', 'error', 'not asserted'),
                    ('(assume @1 A)', 'error', 'not asserted'), ('(assume @1 (eo::ite true w A))', 'correct', 'evaluates to an assertion'), ('(assume @1 (eo::ite true A w))', 'error', 'evaluates to another formula'),
                    ('(assume @1 w)\n(assume @2 w)', 'correct', 'assumed twice'), ('(reference "in.smt2")', 'error', 'two references'), ('(include "e.eo")\n(assume @1 A)', 'error', 'an include after the reference'),
                    ('(include "bad.eo")', 'error', 'an included file assumes another formula'), ('(include "good.eo")', 'correct', 'an included file assumes an assertion'),
                    ('(step @1 A :rule triv :args (A))', 'correct', 'steps need not be asserted'),
                    ('(assume-push @0 A)\n(assume @1 B)\n(step-pop @2 :rule taut)', 'error', 'a second assumption in a scope'), ('(assume-push @0 A)\n(assume @1 w)\n(step-pop @2 :rule taut)', 'correct', 'a second assumption in a scope'),
                    ('(assume-push @0 A)\n(assume @1 A)\n(step-pop @2 :rule taut)', 'error', 'assume of the local assumption'), ('(assume-push @0 A)\n(step-pop @2 (imp A A) :rule taut)\n(assume @1 (imp A A))', 'error', 'a proved formula is not asserted'),
                    ('(assume-push @0 A)\n(step-pop @2 (imp A A) :rule taut)\n(assume @1 A)', 'error', 'a formula assumed locally before')]:
        yield Case(e, w + ': ' + t.replace('\n', ' '), text=base + '(declare-rule triv ((F Bool)) :args (F) :conclusion F)\n(reference "in.smt2")\n' + t + '\n',
                   files={'in.smt2': R, 'e.eo': '; nothing\n', 'bad.eo': '(assume @b A)\n', 'good.eo': '(assume @b w)\n'})
    # the normalisation is applied to both
    NB = pre + '(program $n ((F Bool)) :signature (Bool) Bool ((($n (not F)) F) (($n (imp true F)) F)))\n(reference "in.smt2" $n)\n'
    for t, e, w in [('(assume @1 (not A))', 'correct', 'the assertion'), ('(assume @1 (imp true A))', 'correct', 'the same normal form'), ('(assume @1 A)', 'error', 'the normal form itself, not in normal form'),
                    ('(assume @1 (not B))', 'error', 'another normal form'), ('(assume @1 (imp B C))', 'correct', 'stuck normalisation of an assertion'), ('(assume @1 (imp B D))', 'error', 'stuck normalisation of another formula')]:
        yield Case(e, w, text=NB + t + '\n', files={'in.smt2': '(assert (not A))\n(assert (imp B C))\n'})


# ---------------------------------------------------------------- verdict
BREAK = ['(step @bad E :rule nosuch)', '(assume @bad zzz)', ')', '(assume @bad', '(foo)', '(declare-const)', '(step @bad B :rule id :premises (@nope))', '(assume @bad a)', '(include "missing.eo")',
         '(assume @bad (p A))', '(step-pop @bad :rule taut)', '(assume-push @bad A)', '(assume @bad |x)', '(assume @bad #b2)', '(declare-rule bad ((F Bool)) :conclusion F)', '(assume 1 A)', '(program $bad () :signature () Bool)',
         '(assume @bad "x)', '"', '(', '(assume @bad 1/0)', '(declare-consts <foo> U)', '(declare-const bad U', '(declare-const bad U))', 'step', '(assume @bad true false)', '(assume)', '()', '(|assume| @bad zzz)', '(eo::add 1 1)',
         '(declare-datatype)', '(program $b2 ((x U)) :signature (U) U ((($b2 x) y)))', '(program $neg ((F Bool)) :signature (Bool) Bool ((($neg F) F)))\n(program $neg ((F Bool)) :signature (Bool) Bool ((($neg F) F)))',
         '(define k () A :type U)', '(assume @bad (let ((x A)) y))', '(assume @bad (imp A))', '(assume @bad (not A B))', '(assume @bad (_ not))', '(set-option)', '(reference "missing.smt2")', '(pop)', '(declare-const bad nosuch)']


def cases_P04(r, tier):
    N_ = 200 if tier == 'quick' else 4000
    pre = PPRE + SRULES + '(declare-rule trust ((F Bool)) :args (F) :conclusion F :sorry)\n(declare-rule trusts ((F Bool) (G Bool)) :assumption F :args (G) :conclusion (imp F G) :sorry)\n' + \
        '(declare-rule trust2 ((F Bool)) :premises (F) :conclusion (not F) :sorry)\n(declare-rule tru () :conclusion true :sorry)\n(declare-rule fine ((F Bool)) :args (F) :conclusion (or F (not F)))\n'
    SORRY = ['(step @so A :rule trust :args (A))', '(step @so :rule tru)', '(assume-push @so0 A)\n(step-pop @so (imp A B) :rule trusts :args (B))', '(assume @so0 B)\n(step @so (not B) :rule trust2 :premises (@so0))',
             '(assume-push @so0 A)\n(step @so1 B :rule trust :args (B))\n(step-pop @so :rule taut)', '(step @so (p a) :rule trust :args ((p a)))']

    def wrap(lines, expect, what):
        """present a script in one of several ways"""
        body = '\n'.join(lines) + '\n'
        k = r.random()
        if k < .4:
            return Case(expect, what, text=pre + body)
        if k < .55:
            return streamed(expect, what + ' (standard input)', pre, body)
        if k < .7:
            return Case(expect, what + ' (included file)', text='(include "s/i.eo")\n(assume @ok A)\n', files={'s/i.eo': pre + body})
        if k < .8:
            return Case(expect, what + ' (nested include)', text='(include "s/j.eo")\n(assume @ok A)\n', files={'s/j.eo': '(include "i.eo")\n(include "i.eo")\n', 's/i.eo': pre + body})
        if k < .9:
            return Case(expect, what + ' (--include)', text='(assume @ok A)\n', files={'i.eo': pre + body}, args=['--include=i.eo'])
        return Case(expect, what + ' (after an include)', text='(include "i.eo")\n' + body, files={'i.eo': pre})
    for _ in range(N_):
        s = Script(r, None).run(r.choice([2, 5, 10, 20]))
        lines = s.lines + closing(s)
        yield wrap(lines, 'correct', 'a valid script')
        # a :sorry step anywhere
        i = r.randint(0, len(lines))
        so = r.choice(SORRY).split('\n')
        yield wrap(lines[:i] + so + lines[i:], 'incomplete', 'a script with a :sorry step')
        if r.random() < .3:
            yield wrap(lines[:i] + so + lines[i:] + ['(step @fi :rule fine :args (A))'] * r.choice([0, 3]), 'incomplete', 'a script with a :sorry step')
        # an error anywhere
        for _ in range(2):
            b = r.choice(BREAK)
            i = r.randint(0, len(lines))
            l2 = lines[:i] + [b] + lines[i:]
            if b == '(assume-push @bad A)' or b == '(step-pop @bad :rule taut)':
                l2 = lines[:i] + [b]
                if b.startswith('(step-pop') and sum(x_.startswith('(assume-push') for x_ in lines[:i]) == sum(x_.startswith('(step-pop') for x_ in lines[:i]) + 1:
                    continue
            if b == '(pop)' and False:
                continue
            if r.random() < .2:
                l2 = l2 + ['(step @so A :rule trust :args (A))']
            yield wrap(l2, 'error', 'an error (%s) at line %d of %d' % (b, i, len(lines)))
        # a wrong step anywhere
        vis = [l for l in lines if l.startswith('(step ') and ' :rule id ' in l]
        if vis:
            l = r.choice(vis)
            i = lines.index(l)
            yield wrap(lines[:i] + ['(step @w false :rule id :premises (%s))' % l.rsplit('(', 1)[1].rstrip(')')] + lines[i:], 'error', 'a wrong step at line %d of %d' % (i, len(lines))) if not l.startswith('(step @w false') and ' false :rule' not in l else wrap(lines, 'correct', 'a valid script')
        # truncated inputs
        full = pre + '\n'.join(lines) + '\n'
        for _ in range(3):
            k = r.randint(len(pre), len(full)) if r.random() < .8 else r.randint(0, len(full))
            cut = full[:k]
            d = cut.count('(') - cut.count(')')
            op_ = sum(1 for x_ in cut.split('\n') if x_.startswith('(assume-push')) - sum(1 for x_ in cut.split('\n') if x_.startswith('(step-pop'))
            if d == 0 and op_ != 0 or d != 0:
                c = ('error', 'the input is cut off at byte %d' % k)
            else:
                c = ('correct', 'complete commands')
            yield Case(c[0], c[1], text=cut) if k < len(pre) or r.random() < .7 else streamed(c[0], c[1], pre, cut[len(pre):])
    T = '(step @so A :rule trust :args (A))\n'
    for t, e, w in [('', 'correct', 'rules marked :sorry that are not used'), (T + '(reset)\n', 'incomplete', 'a :sorry step before a reset'), ('(reset)\n(declare-const A Bool)\n(assume @a A)\n', 'correct', 'a reset'),
                    ('(reset)\n(declare-rule trust ((F Bool)) :args (F) :conclusion F)\n(declare-const A Bool)\n' + T, 'correct', 'a rule without :sorry after a reset'),
                    ('(reset)\n(declare-rule fine ((F Bool)) :args (F) :conclusion F :sorry)\n(declare-const A Bool)\n(step @s A :rule fine :args (A))\n', 'incomplete', 'a rule with :sorry after a reset'),
                    ('(step @s (or A (not A)) :rule fine :args (A))\n', 'correct', 'a rule without :sorry'), ('(step @so B :rule trust :args (A))\n', 'error', 'a wrong :sorry step'),
                    ('(echo "done")\n(step @x A :rule nosuch)\n', 'error', 'an error after an echo'), (T + '(step @x A :rule nosuch)\n', 'error', 'an error after a :sorry step'),
                    ('(echo "incomplete")\n', 'correct', 'an echo'), ('(echo "correct")\n' + T, 'incomplete', 'an echo'), ('(exit)\n', 'correct', 'exit'), (T + '(exit)\n', 'incomplete', 'exit'), ('(step @x A :rule nosuch)\n(exit)\n', 'error', 'exit after an error'),
                    (T * 3, 'incomplete', 'several :sorry steps'), ('(set-option :foo true)\n', 'correct', 'an unknown option')]:
        yield Case(e, w, text=pre + t)
        if 'declare-rule' not in t and 'reset' not in t:
            yield streamed(e, w + ' (standard input)', pre, t)
        for a in (['--stats'], ['--stats-compact'], ['--stats-all'], ['--no-print-dag'], ['--normalize-num'], ['--no-parse-let'], ['--no-rule-sym-table']):
            if 'stats' in a[0] and (e != 'error'):
                continue
            yield Case(e, w + ' ' + ' '.join(a), text=pre + t, args=a)
    # rules released and declared again
    for n in (40, 300):
        d1 = ''.join('(declare-rule id%d ((F Bool)) :args (F) :requires ((F true)) :conclusion F)\n(step @x%d true :rule id%d :args (true))\n' % (k, k, k) for k in range(n))
        d2 = ''.join('(declare-rule tr%d ((F Bool)) :args (F) :conclusion F :sorry)\n' % k for k in range(n))
        yield Case('correct', ':sorry rules declared after a reset', text=d1 + '(reset)\n' + d2)
        yield Case('correct', ':sorry rules forgotten by a reset', text=d2 + '(reset)\n' + d1)
        yield Case('incomplete', 'a :sorry step before a reset', text=d2 + '(step @so true :rule tr7 :args (true))\n(reset)\n' + d1)
        yield Case('incomplete', 'a :sorry step after a reset', text=d1 + '(reset)\n' + d2 + '(step @so true :rule tr7 :args (true))\n')
    for a, e in [(['--include=missing.eo'], 'error'), (['--reference=missing.smt2'], 'error'), (['--nosuchoption'], 'error'), (['other.eo'], 'error')]:
        yield Case(e, ' '.join(a), text=pre, args=a)
    yield Case('error', 'a file that does not exist', files={'x.eo': ''}, main='missing.eo')
    yield Case('correct', 'an empty file', text='')
    yield Case('correct', 'only comments', text='; (step @x A :rule nosuch)\n')
    yield Case('error', 'an error on the last line without newline', text=pre + '(assume @x')
    yield Case('error', 'an error in a reference', text=pre + '(reference "r.smt2")\n', files={'r.smt2': '(assert zzz)\n'})
    yield Case('error', 'a truncated reference', text=pre + '(reference "r.smt2")\n', files={'r.smt2': '(assert A)\n(assert (imp A'})
    yield Case('error', 'an error in a second file', text=pre + '(include "a.eo")\n(include "b.eo")\n', files={'a.eo': '(assume @a A)\n', 'b.eo': '(assume @b (p A))\n'})
    yield Case('incomplete', 'a :sorry step in a second file', text=pre + '(include "a.eo")\n(include "b.eo")\n(assume @d A)\n', files={'a.eo': '(assume @a A)\n', 'b.eo': T})


def cases(prop, r, tier):
    yield from globals()['cases_' + prop](r, tier)
