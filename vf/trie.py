"""The trie of terms (ExprTrie): a node is identified with the path to it, the
contents of the nodes are arrays indexed by node.

std::map<const ExprValue*, ExprTrie> is modelled as the set of present children;
operator[] creates an empty node, erase removes the node with everything below."""
import z3
from . import sorts as so
from .sorts import I, B, E, NULLP

TN = z3.DeclareSort('TrieNode')
PT = ('ptr', ('cls', 'ExprTrie'))
so.PTRSORTS[PT] = TN
TNULL = z3.Const('nullnode', TN)
root = z3.Function('rootNode', I, TN)
sub = z3.Function('childNode', TN, E, TN)
par = z3.Function('parentNode', TN, TN)
el = z3.Function('lastOf', TN, E)
below = z3.Function('below', TN, TN, B)     # below(n, m): m is n or a descendant of n
isroot = z3.Function('isRoot', TN, B)
S = z3.Select
ARR = {'tdata': E, 'tpres': B, 'tsize': I}
n, m = z3.Const('n!t', TN), z3.Const('m!t', TN)
e, f = z3.Const('e!t', E), z3.Const('f!t', E)
k = z3.Int('k!t')


def axioms():
    Q = z3.ForAll
    return [
        Q([n, e], z3.And(par(sub(n, e)) == n, el(sub(n, e)) == e, sub(n, e) != TNULL, z3.Not(isroot(sub(n, e)))), patterns=[sub(n, e)]),
        Q([k], z3.And(isroot(root(k)), root(k) != TNULL), patterns=[root(k)]),
        Q([n], below(n, n), patterns=[below(n, n)]),
        Q([n, m, e], below(n, sub(m, e)) == z3.Or(n == sub(m, e), below(n, m)), patterns=[below(n, sub(m, e))]),
        Q([n, k], below(n, root(k)) == (n == root(k)), patterns=[below(n, root(k))]),
    ]


def arr(d, ex, st, nm):
    r = ('g', nm)
    if r not in st.store:
        srt = z3.ArraySort(TN, ARR[nm])
        ex.vct[r] = ('garr', srt)
        ex.init_vals.setdefault(r, z3.Const('g_' + nm, srt))
        st.store[r] = ex.init_vals[r]
    v = st.store[r]
    if v.num_args() > 0:
        c = ex.fresh(v.sort(), 'n_' + nm)
        st.assume(c == v)
        st.store[r] = v = c
    return v


def setarr(ex, st, nm, v):
    c = ex.fresh(v.sort(), 'n_' + nm)
    st.assume(c == v)
    st.store[('g', nm)] = c


def is_node(v):
    return z3.is_expr(v) and v.sort().eq(TN)


def is_children(LV, v):
    return isinstance(v, LV) and v.root[0] == 'e' and is_node(v.root[1]) and len(v.path) == 1 and v.path[0] == ('f', 'd_children')


def read(d, ex, st, t, path):
    if path and path[0] == ('f', 'd_data'):
        return S(arr(d, ex, st, 'tdata'), t), ('ptr', ('cls', 'ExprValue')), 1
    raise so.Unsupported('trie access %r' % (path,))


def write(d, ex, st, t, path, val):
    if path == (('f', 'd_data'),):
        if not z3.is_expr(val):
            val = NULLP
        setarr(ex, st, 'tdata', z3.Store(arr(d, ex, st, 'tdata'), t, val))
        return
    raise so.Unsupported('trie write %r' % (path,))


def touch(d, ex, st, t, p):
    """the child t exists from now on, empty if it did not"""
    D, P, Z = (arr(d, ex, st, x) for x in ARR)
    ex.used_lib.add('map::operator[] (creates an empty node)')
    facts(d, ex, st, p)
    c = ex.fresh(B, 'present')
    st.assume(c == S(P, t))
    setarr(ex, st, 'tdata', z3.Store(D, t, z3.If(c, S(D, t), NULLP)))
    setarr(ex, st, 'tpres', z3.Store(P, t, True))
    Z1 = z3.Store(Z, p, S(Z, p) + z3.If(c, 0, 1))
    setarr(ex, st, 'tsize', z3.Store(Z1, t, z3.If(c, S(Z, t), 0)))


def facts(d, ex, st, t):
    """the size of the map of children of t against its members"""
    P, Z = arr(d, ex, st, 'tpres'), arr(d, ex, st, 'tsize')
    st.assume(S(Z, t) >= 0)
    st.assume(S(Z, t) < 2 ** 62)
    a, b = z3.Const('a!t', E), z3.Const('b!t', E)
    st.assume(z3.ForAll([a], z3.Implies(S(P, sub(t, a)), S(Z, t) >= 1), patterns=[S(P, sub(t, a))]))
    st.assume(z3.ForAll([a, b], z3.Implies(z3.And(S(Z, t) == 1, S(P, sub(t, a)), S(P, sub(t, b))), a == b), patterns=[z3.MultiPattern(S(P, sub(t, a)), S(P, sub(t, b)))]))


def erase(d, ex, st, t):
    D, P, Z = (arr(d, ex, st, x) for x in ARR)
    ex.used_lib.add('map::erase (removes the node and everything below it)')
    p = par(t)
    facts(d, ex, st, p)
    D1, P1 = ex.fresh(D.sort(), 'n_tdata'), ex.fresh(P.sort(), 'n_tpres')
    st.assume(z3.ForAll([n], S(D1, n) == z3.If(below(t, n), NULLP, S(D, n)), patterns=[S(D1, n), S(D, n)]))
    st.assume(z3.ForAll([n], S(P1, n) == z3.And(z3.Not(below(t, n)), S(P, n)), patterns=[S(P1, n), S(P, n)]))
    st.store[('g', 'tdata')], st.store[('g', 'tpres')] = D1, P1
    setarr(ex, st, 'tsize', z3.Store(Z, p, S(Z, p) - 1))


def operator(d, ex, op, args, st):
    from .symex import LV, Ptr
    from .domain import PairV
    a = args[0]
    if op == 'operator[]' and is_children(LV, a):
        t = sub(a.root[1], ex.rv(args[1], st))
        touch(d, ex, st, t, a.root[1])
        return [(LV(('e', t), (), PT[1]), st)]
    if op == 'operator[]' and isinstance(a, LV) and a.root == ('o', 'State', 'd_trie') and not a.path:
        return [(LV(('e', root(ex.rv(args[1], st))), (), PT[1]), st)]
    v = ex.rv(a, st) if isinstance(a, LV) and a.root[0] != 'e' and a.ct == PT else a
    if is_node(v):
        if op == 'operator->':
            return [(Ptr(ex.tmp(PairV(el(v), LV(('e', v), (), PT[1])), ('pairv',), st)), st)]
        if op == 'operator=':
            b = ex.rv(args[1], st)
            if is_node(b):
                ex.write(a, b, st)
                return [(a, st)]
    return None


def method(d, ex, name, this, args, st):
    from .symex import LV
    if not is_children(LV, this):
        return None
    t = this.root[1]
    rv = lambda x: ex.rv(x, st)
    P, Z = arr(d, ex, st, 'tpres'), arr(d, ex, st, 'tsize')
    if name == 'find':
        return [(sub(t, rv(args[0])), st)]
    if name in ('size', 'empty'):
        facts(d, ex, st, t)
        return [(S(Z, t) if name == 'size' else S(Z, t) == 0, st)]
    if name == 'erase':
        v = rv(args[0])
        if not is_node(v):
            v = sub(t, v)
        ex.oblige(st, 'the erased node is a child of the node', z3.And(S(P, v), par(v) == t))
        erase(d, ex, st, v)
        return [(None, st)]
    raise so.Unsupported('trie %s' % name)


def local(d, ex, st):
    """a local trie, empty; the first one is the trie of sequences"""
    from .symex import LV
    ex.ntries = getattr(ex, 'ntries', 0) + 1
    r = -6 - ex.ntries
    rk = z3.Function('rootOf', TN, I)
    for nm in ARR:
        a = arr(d, ex, st, nm)
        b = ex.fresh(a.sort(), 'n_' + nm)
        none = {'tdata': NULLP, 'tpres': z3.BoolVal(False), 'tsize': z3.IntVal(0)}[nm]
        st.assume(z3.ForAll([n], S(b, n) == z3.If(rk(n) == r, none, S(a, n)), patterns=[S(b, n), S(a, n)]))
        st.store[('g', nm)] = b
    st.assume(rk(root(r)) == r)
    return LV(('e', root(r)), (), PT[1])
