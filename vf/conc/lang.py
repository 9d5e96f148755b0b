"""A reference interpreter for the term language (independent of /repo)."""
from . import lits
from .lits import Num, Rat, Bin, Str, Bool

# terms: ('k', name)  constant | ('l', literal key, literal) | ('@', f, x) application
#        ('v', name, type)  variable | ('x', name) parameter
#        ('op', name, args...)  builtin operator | ('call', program, args...)
#        ('mac', text, args)
STUCK = ('stuck',)


def K(n): return ('k', n)
def X(n): return ('x', n)


class L(tuple):
    """literal"""
    def __new__(cls, o):
        s = tuple.__new__(cls, ('l', lits.key(o)))
        s.o = o
        return s


TRUE, FALSE = L(Bool(True)), L(Bool(False))


def B(b): return TRUE if b else FALSE
def N(n): return L(Num(n))


def ap(f, *xs):
    for x in xs:
        f = ('@', f, x)
    return f


def op(n, *a): return ('op', n) + tuple(a)
def call(p, *a): return ('call', p) + tuple(a)


def text(t):
    """fully explicit text"""
    k = t[0]
    if k in ('k', 'x'):
        return t[1]
    if k == 'l':
        return t.o.text()
    if k == '@':
        hs, xs = t, []
        while hs[0] == '@':
            xs.append(hs[2])
            hs = hs[1]
        return '(_ %s %s)' % (text(hs), ' '.join(text(x) for x in reversed(xs)))
    if k == 'v':
        return '(eo::var %s %s)' % (Str(t[1]).text(), text(t[2]))
    if k == 'op':
        return '(eo::%s %s)' % (t[1], ' '.join(text(x) for x in t[2:]))
    if k == 'call':
        return '(%s %s)' % (t[1], ' '.join(text(x) for x in t[2:]))
    if k == 'arrow':
        return '(-> %s)' % ' '.join(text(x) for x in t[1:])
    if k == 'opq':
        return '(%s %s)' % (t[1], ' '.join(text(x) for x in t[2:]))
    if k == 'as':
        return '(as %s %s)' % (t[1], text(t[2]))
    raise ValueError(t)


def ground(t):
    if t[0] == 'x':
        return False
    if t[0] in ('k', 'l', 'v'):
        return True
    return all(ground(x) for x in t[1:] if isinstance(x, tuple))


def subst(t, s):
    k = t[0]
    if k == 'x':
        return s.get(t[1], t)
    if k in ('k', 'l', 'v'):
        return t
    if k == '@':
        return ('@', subst(t[1], s), subst(t[2], s))
    if k == 'arrow':
        return ('arrow',) + tuple(subst(x, s) for x in t[1:])
    return t[:2] + tuple(subst(x, s) for x in t[2:])


def match(p, t, s):
    """extend s to a matcher of pattern p with t, or None"""
    if p[0] == 'x':
        if p[1] in s:
            return s if s[p[1]] == t else None
        s = dict(s)
        s[p[1]] = t
        return s
    if p[0] == '@':
        if t[0] != '@':
            return None
        s = match(p[1], t[1], s)
        return None if s is None else match(p[2], t[2], s)
    return s if p == t else None


LITOPS = ('add', 'mul', 'neg', 'zdiv', 'zmod', 'qdiv', 'is_neg', 'gt', 'to_z', 'to_q', 'to_bin', 'to_str', 'and', 'or', 'xor', 'not', 'len',
          'concat', 'extract', 'find')


class Fuel(Exception):
    pass


class Interp:
    """evaluation of closed terms; programs: name -> [(patterns, result)]; ops: f -> (nil, left?) for list operators"""
    def __init__(self, programs=None, lists=None, typeof=None, names=None, fuel=4000):
        self.programs, self.lists, self.typeof, self.names = programs or {}, lists or {}, typeof, names or {}
        self.fuel = fuel

    def ev(self, t):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        k = t[0]
        if k in ('k', 'l', 'v', 'x', 'opq', 'as'):
            return t
        if k == 'arrow':
            a = [self.ev(x) for x in t[1:]]
            return STUCK if STUCK in a else ('arrow',) + tuple(a)
        if k == '@':
            f, x = self.ev(t[1]), self.ev(t[2])
            return STUCK if f == STUCK or x == STUCK else ('@', f, x)
        if k == 'call':
            a = [self.ev(x) for x in t[2:]]
            if STUCK in a:
                return STUCK
            for pats, res in self.programs[t[1]]:
                s = {}
                for p, v in zip(pats, a):
                    s = match(p, v, s)
                    if s is None:
                        break
                if s is not None:
                    return self.ev(subst(res, s))
            return STUCK
        n, a = t[1], t[2:]
        if n == 'ite':
            c = self.ev(a[0])
            return self.ev(a[1]) if c == TRUE else self.ev(a[2]) if c == FALSE else STUCK
        a = [self.ev(x) for x in a]
        bad = STUCK in a
        if n == 'is_ok':
            return B(not bad)
        if n == 'is_eq':
            return B(not bad and a[0] == a[1])
        if n == 'requires':
            return a[2] if STUCK not in a[:2] and a[0] == a[1] else STUCK
        if n in ('is_z', 'is_q', 'is_bin', 'is_str', 'is_bool'):
            cat = {'is_z': 'num', 'is_q': 'rat', 'is_bin': 'bin', 'is_str': 'str', 'is_bool': 'bool'}[n]
            return B(not bad and a[0][0] == 'l' and a[0].o.cat == cat)
        if n == 'is_var':
            return B(not bad and a[0][0] == 'v')
        if bad:
            return STUCK
        if n == 'eq':
            return B(a[0] == a[1])
        if n == 'var':
            return ('v', ''.join(chr(c) for c in a[0].o.c), a[1]) if a[0][0] == 'l' and a[0].o.cat == 'str' else STUCK
        if n == 'nameof':
            return L(Str(a[0][1])) if a[0][0] in ('k', 'v') else STUCK
        if n == 'typeof':
            return self.typeof(a[0])
        if n in LITOPS:
            if all(x[0] == 'l' for x in a):
                r = lits.evaluate(n, [x.o for x in a])
                return STUCK if r is None else L(r)
            return STUCK
        return self.listop(n, a)

    # ---- lists
    def elems(self, f, t):
        """children of an f-list (of a left associative list: from the outermost application inwards), or None"""
        nil, left = self.lists[f]
        out = []
        while True:
            if t == nil(t) if callable(nil) else t == nil:
                return out
            if t[0] == '@' and t[1][0] == '@' and t[1][1] == K(f):
                if left:
                    out.append(t[2])
                    t = t[1][2]
                else:
                    out.append(t[1][2])
                    t = t[2]
            else:
                return None

    def mk(self, f, l, nilt=None):
        nil, left = self.lists[f]
        r = nilt if nilt is not None else nil
        for x in l[::-1]:
            r = ap(K(f), r, x) if left else ap(K(f), x, r)
        return r

    def listop(self, n, a):
        f = a[0][1] if a[0][0] == 'k' else None
        if f not in self.lists:
            return STUCK
        nil = self.lists[f][0]
        E = lambda t: self.elems(f, t)
        if n == 'nil':
            return nil(a[1]) if callable(nil) else nil
        if n == 'cons':
            l = E(a[2])
            return STUCK if l is None else self.mk(f, [a[1]] + l)
        l = E(a[1])
        if l is None:
            return STUCK
        if n == 'list_len':
            return N(len(l))
        if n == 'list_concat':
            m = E(a[2])
            return STUCK if m is None else self.mk(f, m + l if self.lists[f][1] else l + m)
        if n == 'list_nth':
            i = a[2]
            if i[0] != 'l' or i.o.cat != 'num' or not 0 <= i.o.v < len(l):
                return STUCK
            return l[i.o.v]
        if n == 'list_find':
            return N(l.index(a[2]) if a[2] in l else -1)
        if n == 'list_rev':
            return self.mk(f, l[::-1])
        if n == 'list_erase':
            if a[2] in l:
                l.remove(a[2])
            return self.mk(f, l)
        if n == 'list_erase_all':
            return self.mk(f, [x for x in l if x != a[2]])
        if n == 'list_setof':
            o = []
            for x in l:
                if x not in o:
                    o.append(x)
            return self.mk(f, o)
        if n == 'list_singleton_elim':
            return l[0] if len(l) == 1 else a[1]
        m = E(a[2])
        if m is None:
            return STUCK
        m = list(m)
        if n == 'list_minclude':
            return B(all(l.count(x) <= m.count(x) for x in l))
        if n == 'list_meq':
            return B(all(l.count(x) == m.count(x) for x in l + m))
        o, p = [], []
        for x in l:
            if x in m:
                m.remove(x)
                p.append(x)
            else:
                o.append(x)
        if n == 'list_diff':
            return self.mk(f, o)
        if n == 'list_inter':
            return self.mk(f, p)
        raise ValueError(n)


PRE = '''(declare-const Int Type)
(declare-const Real Type)
(declare-const Strg Type)
(declare-const BV Type)
(declare-consts <numeral> Int)
(declare-consts <rational> Real)
(declare-consts <string> Strg)
(declare-consts <binary> BV)
(declare-const U Type)
(declare-const a U)
(declare-const b U)
(declare-const c U)
(declare-const d U)
(declare-const f (-> U U U))
(declare-const g (-> U U))
(declare-const h (-> U U U U))
(declare-const p (-> U Bool))
(declare-const q (-> Bool Bool Bool))
(declare-const m Bool)
(declare-const n Bool)
(declare-const i Int)
(declare-const s (-> Int Int))
(declare-parameterized-const P ((T Type :implicit)) (-> T Bool))
(declare-rule val ((T Type) (x T)) :args (x) :conclusion (P x))
'''

_c = [0]


def name():
    _c[0] += 1
    return '@q%d' % _c[0]


def chk(src, want, what=None):
    """line asserting that src denotes the value `want` (or is stuck)"""
    if want == STUCK:
        return ('%s is not a value' % (what or src), '(step %s (P false) :rule val :args ((eo::is_ok %s)))' % (name(), src))
    w = text(want)
    return ('%s is %s' % (what or src, w), '(step %s (P %s) :rule val :args (%s))' % (name(), w, src))


def chk_ne(s1, s2):
    return ('%s differs from %s' % (s1, s2), '(step %s (P false) :rule val :args ((eo::eq %s %s)))' % (name(), s1, s2))
