"""Model of std::string and of string streams as sequences of characters.

Used when the domain is made with opaque_str=False: a string is a vector of
char (signed, as on this platform); a string stream is the text written to it
together with its number base.  The semantics of the library functions is
assumed (they are listed in the evidence); the code that calls them is not.
"""
import z3
from . import sorts as so
from .sorts import ctype, sort, acc, mk, Unsupported, strip_ref, I, B
from .cast import tstr
from .symex import LV, Stream, CStr

CT = ('vec', ('int', 8, True))
SS = ('cls', 'SStr')
NPOS = 2 ** 64 - 1
A = z3.ArraySort(I, I)
S = z3.Select
# value of a hexadecimal digit (given as a character code); -1 if it is none
_c = z3.Int('c!hx')
HEX = z3.Function('hexDigit', I, I)
HEXAX = z3.ForAll([_c], HEX(_c) == z3.If(z3.And(48 <= _c, _c <= 57), _c - 48, z3.If(z3.And(65 <= _c, _c <= 70), _c - 55, z3.If(z3.And(97 <= _c, _c <= 102), _c - 87, z3.IntVal(-1)))), patterns=[HEX(_c)])
# HV(a, o, n): the value of the n hexadecimal digits a[o], ..., a[o + n - 1]
HV = z3.Function('hexValue', A, I, I, I)
_a, _o, _n, _m = z3.Const('a!hx', A), z3.Int('o!hx'), z3.Int('n!hx'), z3.Int('m!hx')


def hv(a, o, n):
    """the value of up to five hexadecimal digits"""
    r, v = z3.IntVal(0), z3.IntVal(0)
    for k in range(1, 6):
        v = 16 * v + HEX(S(a, o + (k - 1)))
        r = z3.If(n == k, v, r)
    return r


HVAX = [z3.ForAll([_a, _o, _n], HV(_a, _o, _n) == hv(_a, _o, _n), patterns=[HV(_a, _o, _n)])]
# the text of a number in the given base
_t = []


def numText(base, v):
    if not _t:
        _t.append(z3.Function('numText', I, I, sort(CT)))
    return _t[0](base, v)


def numTextAxioms():
    v, j = z3.Int('v!nt'), z3.Int('j!nt')
    t = numText(z3.IntVal(16), v)
    return [z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < 2 ** 20), z3.And(ln(t) >= 1, ln(t) <= 5, HV(arr(t), 0, ln(t)) == v)), patterns=[t]),
            z3.ForAll([v, j], z3.Implies(z3.And(0 <= v, 0 <= j, j < ln(t)), HEX(S(arr(t), j)) >= 0), patterns=[S(arr(t), j)])]



def code(c):
    """the character code of a char"""
    return z3.If(c < 0, c + 256, c)


def ln(v):
    return so.vlen(CT, v)


def arr(v):
    return acc(CT, 'arr', v)


def nm(ex, st, v):
    """the value as a constant"""
    if z3.is_expr(v) and v.num_args() > 0:
        x = ex.fresh(v.sort(), 'n')
        st.assume(x == v)
        return x
    return v


def lib(ex, n):
    ex.used_lib.add(n)


def text(ex, v):
    return ex.d.cstr(ex, v.s) if isinstance(v, CStr) else v


def concat(ex, st, a, b):
    """a fresh string: a followed by b"""
    if z3.is_int_value(z3.simplify(ln(b))) and z3.simplify(ln(b)).as_long() <= 4:
        r, n = arr(a), ln(a)
        k = z3.simplify(ln(b)).as_long()
        for i in range(k):
            r = z3.Store(r, z3.simplify(n + i), z3.simplify(S(arr(b), i)))
        return mk(CT, z3.simplify(n + k), r)
    a, b = nm(ex, st, a), nm(ex, st, b)
    r = ex.fresh(sort(CT), 'cat')
    j = z3.Int('j!q')
    na, nb = ln(a), ln(b)
    st.assume(ln(r) == na + nb)
    st.assume(na >= 0)
    st.assume(nb >= 0)
    st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < na), S(arr(r), j) == S(arr(a), j)), patterns=[S(arr(r), j)]))
    st.assume(z3.ForAll([j], z3.Implies(z3.And(na <= j, j < na + nb), S(arr(r), j) == S(arr(b), j - na)), patterns=[S(arr(r), j)]))
    m = z3.Int('m!q')
    st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < nb), S(arr(r), j + na) == S(arr(b), j)), patterns=[S(arr(b), j)]))
    return r


def sub(ex, st, v, i, n):
    """a fresh string: the n characters from i on"""
    v, i, n = nm(ex, st, v), nm(ex, st, i), nm(ex, st, n)
    r = ex.fresh(sort(CT), 'sub')
    j = z3.Int('j!q')
    st.assume(ln(r) == n)
    st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), S(arr(r), j) == S(arr(v), i + j)), patterns=[S(arr(r), j)]))
    return r


def upto0(ex, st, v):
    """the string a pointer to characters stands for"""
    v = nm(ex, st, v)
    z, j = ex.fresh(I, 'end'), z3.Int('j!q')
    lib(ex, 'string(const char*): the characters before the first null character')
    ex.oblige(st, 'the characters end with a null character', z3.And(ln(v) >= 1, S(arr(v), ln(v) - 1) == 0))
    st.assume(z3.And(0 <= z, z < ln(v), S(arr(v), z) == 0))
    st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < z), S(arr(v), j) != 0), patterns=[S(arr(v), j)]))
    return mk(CT, z, arr(v))


def cut(ex, st, v, i, n):
    """a fresh string: v without the n characters from i on"""
    v, i, n = nm(ex, st, v), nm(ex, st, i), nm(ex, st, n)
    r = ex.fresh(sort(CT), 'cut')
    j = z3.Int('j!q')
    st.assume(ln(r) == ln(v) - n)
    st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln(r)), S(arr(r), j) == z3.If(j < i, S(arr(v), j), S(arr(v), j + n))), patterns=[S(arr(r), j)]))
    return r


def method(ex, name, this, v, args, e, st):
    rv = lambda x: text(ex, ex.rv(x, st))
    L = ln(v)
    if name == 'erase' and all(z3.is_expr(rv(a)) for a in args):
        i = rv(args[0]) if args else z3.IntVal(0)
        if len(args) > 1:
            # erase(position) takes an index; one argument of iterator type is an Iter, not a number
            n = rv(args[1])
        else:
            n = z3.IntVal(NPOS)
        lib(ex, 'str::erase')
        ex.oblige(st, 'erase in range', z3.And(0 <= i, i <= L))
        n = z3.simplify(z3.If(n > L - i, L - i, n))
        ex.write(this, cut(ex, st, v, i, n), st)
        return [(this, st)]
    if name == 'find' and len(args) == 1:
        x = rv(args[0])
        r = ex.fresh(I, 'fnd')
        j = z3.Int('j!q')
        one = None
        if z3.is_int(x):
            one = x
        elif z3.is_int_value(z3.simplify(ln(x))) and z3.simplify(ln(x)).as_long() == 1:
            one = z3.simplify(S(arr(x), 0))
        if one is None:
            return None
        lib(ex, 'str::find')
        va = arr(nm(ex, st, v))
        st.assume(z3.Or(r == NPOS, z3.And(0 <= r, r < L, S(va, r) == one)))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L, z3.Or(r == NPOS, j < r)), S(va, j) != one), patterns=[S(va, j)]))
        return [(r, st)]
    if name == 'c_str':
        return [(mk(CT, z3.simplify(ln(v) + 1), z3.Store(arr(v), ln(v), z3.IntVal(0))), st)]
    if name == 'substr' and len(args) >= 1:
        i = rv(args[0])
        n = rv(args[1]) if len(args) > 1 else z3.IntVal(NPOS)
        lib(ex, 'str::substr')
        ex.oblige(st, 'substr in range', z3.And(0 <= i, i <= L))
        return [(sub(ex, st, v, i, z3.simplify(z3.If(n > L - i, L - i, n))), st)]
    if name in ('assign', 'operator=') and len(args) == 1:
        x = rv(args[0])
        ex.write(this, x, st)
        return [(this, st)]
    if name == 'find_first_not_of' and len(args) == 2 and z3.is_int(rv(args[0])):
        one, f = rv(args[0]), rv(args[1])
        r = ex.fresh(I, 'fnd')
        j = z3.Int('j!q')
        lib(ex, 'str::find_first_not_of')
        va = arr(nm(ex, st, v))
        st.assume(z3.Or(r == NPOS, z3.And(f <= r, r < L, S(va, r) != one)))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(f <= j, j < L, z3.Or(r == NPOS, j < r)), S(va, j) == one), patterns=[S(va, j)]))
        return [(r, st)]
    return None


def equal(ex, st, a, b):
    a, b = nm(ex, st, a), nm(ex, st, b)
    r = ex.fresh(B, 'seq')
    j = z3.Int('j!q')
    d = ex.fresh(I, 'dif')
    st.assume(z3.Implies(r, z3.And(ln(a) == ln(b), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln(a)), S(arr(a), j) == S(arr(b), j)), patterns=[S(arr(a), j), S(arr(b), j)]))))
    st.assume(z3.Implies(z3.Not(r), z3.Or(ln(a) != ln(b), z3.And(0 <= d, d < ln(a), S(arr(a), d) != S(arr(b), d)))))
    return r


def operator(ex, op, args, at, e, st):
    a = text(ex, ex.rv(args[0], st))
    b = text(ex, ex.rv(args[1], st)) if len(args) > 1 else None
    V = sort(CT)
    if op in ('operator==', 'operator!=') and a.sort().eq(V) and b.sort().eq(V):
        lib(ex, 'str::==')
        for p, q in ((a, b), (b, a)):
            n = z3.simplify(ln(q))
            if z3.is_int_value(n) and n.as_long() <= 8:
                r = z3.And(ln(p) == n, *[S(arr(p), i) == z3.simplify(S(arr(q), i)) for i in range(n.as_long())])
                return [(z3.Not(r) if op == 'operator!=' else r, st)]
        r = equal(ex, st, a, b)
        return [(z3.Not(r) if op == 'operator!=' else r, st)]
    if op in ('operator+', 'operator+='):
        lib(ex, 'str::+')
        if z3.is_int(b):
            r = mk(CT, z3.simplify(ln(a) + 1), z3.Store(arr(a), ln(a), b))
        elif z3.is_int(a):
            raise Unsupported('char + string')
        else:
            r = concat(ex, st, a, b)
        if op == 'operator+=':
            ex.write(args[0], r, st)
            return [(args[0], st)]
        return [(r, st)]
    return None


# ---- string streams
def stream_operator(ex, op, e, st):
    """<< and >> on a string stream; None if the operand is another stream"""
    out = []
    hit = False
    for v, s in ex.ev(e['inner'][1], st):
        if not (isinstance(v, LV) and v.ct == SS):
            out.append((v if isinstance(v, Stream) else Stream(), s))
            continue
        hit = True
        n = e['inner'][2]
        while n['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'UnaryOperator') and n.get('inner'):
            n = n['inner'][0]
        if n['kind'] == 'DeclRefExpr' and n['referencedDecl'].get('name') in ('hex', 'dec', 'endl', 'flush'):
            nme = n['referencedDecl']['name']
            cur = ex.load(v, s)
            base, t = acc(SS, 'd_base', cur), acc(SS, 'd_text', cur)
            if nme in ('hex', 'dec'):
                base = z3.IntVal(16 if nme == 'hex' else 10)
            elif nme == 'endl':
                t = mk(CT, z3.simplify(ln(t) + 1), z3.Store(arr(t), ln(t), z3.IntVal(10)))
            ex.write(v, mk(SS, t, base), s)
            out.append((v, s))
            continue
        for x, s2 in ex.ev(e['inner'][2], s):
            cur = ex.load(v, s2)
            base, t = acc(SS, 'd_base', cur), acc(SS, 'd_text', cur)
            xt = strip_ref(ctype(tstr(e['inner'][2]['type'])))
            if op == 'operator>>':
                lib(ex, 'stream >> unsigned (reads a number in the base of the stream)')
                r = ex.fresh(I, 'rd')
                j = z3.Int('j!q')
                t = nm(ex, s2, t)
                ex.type_facts(xt, r, s2)
                ex.oblige(s2, 'the text read is a number in base 16 that fits', z3.And(base == 16, ln(t) >= 1, ln(t) <= 5, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln(t)), HEX(S(arr(t), j)) >= 0), patterns=[S(arr(t), j)])))
                s2.assume(r == HV(arr(t), 0, ln(t)))
                ex.write(x, r, s2)
                out.append((v, s2))
                continue
            y = text(ex, ex.rv(x, s2))
            if xt[0] == 'int' and xt[1] == 8:
                lib(ex, 'stream << char')
                t = mk(CT, z3.simplify(ln(t) + 1), z3.Store(arr(t), ln(t), y if xt[2] else z3.If(y > 127, y - 256, y)))
            elif z3.is_expr(y) and y.sort().eq(sort(CT)):
                lib(ex, 'stream << string')
                t = concat(ex, s2, t, y)
            elif xt[0] == 'int' and z3.is_expr(y) and z3.is_int(y):
                lib(ex, 'stream << number (writes it in the base of the stream)')
                t = concat(ex, s2, t, numText(base, y))
            else:
                t = ex.fresh(sort(CT), 'text')
            ex.write(v, mk(SS, t, base), s2)
            out.append((v, s2))
    return out if hit else out


# ---- the input: its whole text, and how much of it the stream has handed out
def ghost(ex, st, n, ct):
    r = ('h', n)
    if r not in st.store:
        ex.vct[r] = ct
        if r not in ex.init_vals:
            ex.init_vals[r] = z3.Const('ghost_' + n, sort(ct))
        ex.type_facts(ct, ex.init_vals[r], st)
        st.store[r] = ex.init_vals[r]
    return st.store[r]


def istream(ex, name, args, st):
    inp, rd = ghost(ex, st, 'input', CT), ghost(ex, st, 'handed', ('mpz',))
    L = ln(inp)
    lib(ex, 'istream::' + name)
    if name == 'gcount':
        return [(ghost(ex, st, 'count', ('mpz',)), st)]
    if name == 'get':
        st.assume(z3.And(-128 <= S(arr(inp), rd), S(arr(inp), rd) <= 127))
        r = z3.If(rd < L, code(S(arr(inp), rd)), z3.IntVal(-1))
        st.store[('h', 'handed')] = z3.simplify(z3.If(rd < L, rd + 1, rd))
        return [(r, st)]
    buf, n = args[0], ex.rv(args[1], st)
    old = ex.load(buf, st)
    new = ex.fresh(sort(CT), 'buf')
    k = nm(ex, st, z3.If(L - rd < n, L - rd, n))
    j = z3.Int('j!q')
    ex.oblige(st, 'the buffer is large enough', n <= ln(old))
    st.assume(ln(new) == ln(old))
    st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), S(arr(new), j) == S(arr(inp), rd + j)), patterns=[S(arr(new), j)]))
    ex.write(buf, new, st)
    ghost(ex, st, 'count', ('mpz',))
    st.store[('h', 'count')] = k
    st.store[('h', 'handed')] = z3.simplify(rd + k)
    return [(Stream(), st)]
