"""Assumed contracts of the C++ standard library containers and of GMP.

These are the trusted specifications of external code: containers are value
types (length + array, domain + array), GMP integers are mathematical
integers, GMP rationals are mathematical rationals.
"""
import z3
from . import sorts as so
from .sorts import ctype, sort, acc, upd, mk, Unsupported, strip_ref, I, B, is_e, NULLP

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

# ---- mathematical functions used by the contracts of GMP ---------------------
pow2 = z3.Function('pow2', I, I)
powi = z3.Function('powi', I, I, I)
iand = z3.Function('iand', I, I, I)
ior = z3.Function('ior', I, I, I)
ixor = z3.Function('ixor', I, I, I)
setbit = z3.Function('setbit', I, I, I)
sizeinbase2 = z3.Function('sizeinbase2', I, I)


def _sym():
    from .symex import LV, Ptr, NullPtr, Iter, Stream, ListV, CStr, Obj
    return LV, Ptr, NullPtr, Iter, Stream, ListV, CStr, Obj


def map_lookup(self, ct, m, k):
    return z3.Select(acc(ct, 'dom', m), k)


def iter_add(self, it, n, st):
    LV, Ptr, NullPtr, Iter, Stream, ListV, CStr, Obj = _sym()
    if it.kind != 'vec':
        raise Unsupported('arithmetic on a map iterator')
    return Iter('vec', it.cont, z3.simplify(it.pos + n), it.rev)


def vec_insert_range(self, this, ct, posn, a, b, st):
    """insert [a,b) at the end of the vector"""
    v = self.load(this, st)
    src = self.load(a.cont, st)
    n = z3.simplify(b.pos - a.pos)
    r = self.fresh_of(ct, 'ins', st)
    ln = so.vlen(ct, v)
    self.oblige(st, 'iterator range of the inserted elements is valid', z3.And(n >= 0, a.pos >= 0, b.pos <= so.vlen(a.cont.ct, src)))
    st.assume(so.vlen(ct, r) == ln + n)
    st.assume(n >= 0)
    j = z3.Int('j!q')
    ra = acc(ct, 'arr', r)
    va = acc(ct, 'arr', v)
    at = posn
    if not (z3.is_const(va) and va.decl().kind() == z3.Z3_OP_UNINTERPRETED):
        vn = self.fresh(va.sort(), 'arr')
        st.assume(vn == va)
        va = vn
    st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < at), z3.Select(ra, j) == z3.Select(va, j)),
                        patterns=[z3.Select(ra, j), z3.Select(va, j)]))
    self.copy_fact(ct, r, at, src, a, n, st)
    if not a.rev and z3.is_int_value(z3.simplify(a.pos)) and z3.simplify(a.pos).as_long() == 0:
        sa = acc(a.cont.ct, 'arr', src)
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(ra, at + j) == z3.Select(sa, j)), patterns=[z3.Select(sa, j)]))
    if not self.must(st, at == ln):
        st.assume(z3.ForAll([j], z3.Implies(z3.And(at + n <= j, j < ln + n), z3.Select(ra, j) == z3.Select(va, j - n)),
                            patterns=[z3.Select(ra, j)]))
    self.write(this, r, st)


def lib_method(self, bct, name, this, args, e, st):
    LV, Ptr, NullPtr, Iter, Stream, ListV, CStr, Obj = _sym()
    k = bct[0]
    self.used_lib.add('%s::%s' % (k, name))
    rv = lambda v: self.rv(v, st)
    if isinstance(this, Stream) or k == 'stream':
        return [(Stream(), st)]
    if k in ('mpz', 'mpq'):
        return gmp_method(self, bct, name, this, args, e, st)
    if not isinstance(this, LV):
        this = self.tmp(this, bct, st)
    v = self.load(this, st)
    ct = bct
    if k == 'iter':
        if name == 'base':
            return [(v, st)]
        raise Unsupported('iterator method %s' % name)
    if k == 'str':
        r = self.d.str_method(self, name, this, v, args, e, st)
        if r is not None:
            return r
        if so.OPAQUE_STR:
            raise Unsupported('string method %s' % name)
        ct = ('vec', ('int', 8, True))
        if name == 'length':
            name = 'size'
        if name == 'substr':
            i = rv(args[0])
            L = so.vlen(ct, v)
            self.oblige(st, 'substr start in range', z3.And(0 <= i, i <= L))
            n = rv(args[1]) if len(args) > 1 else L - i
            n = z3.If(i + n <= L, n, L - i)
            r = self.fresh_of(ct, 'sub', st)
            st.assume(so.vlen(ct, r) == n)
            j = z3.Int('j!q')
            ra = acc(ct, 'arr', r)
            st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(ra, j) == z3.Select(acc(ct, 'arr', v), i + j)),
                                patterns=[z3.Select(ra, j)]))
            return [(r, st)]
        k = 'vec'
    if k == 'vec':
        L = so.vlen(ct, v)
        et = ct[1]
        if name in ('size', 'length'):
            self.type_facts(ct, v, st)
            return [(z3.simplify(L), st)]
        if name == 'empty':
            self.type_facts(ct, v, st)
            return [(z3.simplify(L == 0), st)]
        if name in ('push_back', 'emplace_back'):
            if len(args) == 1:
                x = rv(args[0])
                if isinstance(x, NullPtr):
                    x = self.d.null_of(et)
                x = self.d.convert(self, x, et, st)
            elif et[0] == 'cls':
                out = []
                for x, s in self.construct(et, [a for a in args], e, st):
                    v = self.load(this, s)
                    self.write(this, mk(ct, z3.simplify(so.vlen(ct, v) + 1), z3.Store(acc(ct, 'arr', v), so.vlen(ct, v), self.pack(x, et))), s)
                    out.append((this.f(('i', z3.simplify(so.vlen(ct, v))), et), s))
                return out
            else:
                x = self.construct(et, [a for a in args], e, st)[0][0]
            x = self.pack(x, et)
            nv = mk(ct, z3.simplify(L + 1), z3.Store(acc(ct, 'arr', v), L, x))
            self.write(this, nv, st)
            return [(this.f(('i', L), et), st)]
        if name == 'pop_back':
            self.oblige(st, 'pop_back of a non-empty vector', L > 0)
            self.write(this, mk(ct, z3.simplify(L - 1), acc(ct, 'arr', v)), st)
            return [(None, st)]
        if name in ('back', 'front'):
            self.oblige(st, '%s of a non-empty vector' % name, L > 0)
            i = z3.simplify(L - 1) if name == 'back' else z3.IntVal(0)
            return [(this.f(('i', i), et), st)]
        if name == 'data' and ct[1] == ('int', 8, True):
            return [(self.load(this, st), st)]
        if name in ('at', 'operator[]'):
            i = rv(args[0])
            self.oblige(st, 'index in range', z3.And(i >= 0, i < L))
            return [(this.f(('i', i), et), st)]
        if name in ('begin', 'cbegin'):
            return [(Iter('vec', this, z3.IntVal(0)), st)]
        if name in ('end', 'cend'):
            return [(Iter('vec', this, L), st)]
        if name in ('rbegin', 'crbegin'):
            return [(Iter('vec', this, z3.IntVal(0), True), st)]
        if name in ('rend', 'crend'):
            return [(Iter('vec', this, L, True), st)]
        if name == 'clear':
            self.write(this, mk(ct, z3.IntVal(0), acc(ct, 'arr', v)), st)
            return [(None, st)]
        if name == 'reserve':
            return [(None, st)]
        if name == 'resize':
            n = rv(args[0])
            if self.must(st, n <= L):
                self.write(this, mk(ct, n, acc(ct, 'arr', v)), st)
            else:
                dv = self.pack(self.default_value(et, st) if len(args) < 2 else rv(args[1]), et)
                r = self.fresh_of(ct, 'rsz', st)
                st.assume(so.vlen(ct, r) == n)
                j = z3.Int('j!q')
                ra, va = acc(ct, 'arr', r), acc(ct, 'arr', v)
                st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(ra, j) == z3.If(j < L, z3.Select(va, j), dv)),
                                    patterns=[z3.Select(ra, j)]))
                self.write(this, r, st)
            return [(None, st)]
        if name == 'insert':
            if len(args) == 3 and isinstance(rv(args[0]), Iter) and isinstance(rv(args[1]), Iter):
                p, a, b = rv(args[0]), rv(args[1]), rv(args[2])
                if p.rev:
                    raise Unsupported('insert with reverse position')
                vec_insert_range(self, this, ct, p.pos, a, b, st)
                return [(Iter('vec', this, p.pos), st)]
            raise Unsupported('vector insert')
        if name == 'erase' and len(args) == 1:
            p = rv(args[0])
            self.oblige(st, 'erase in range', z3.And(p.pos >= 0, p.pos < L))
            r = self.fresh_of(ct, 'ers', st)
            st.assume(so.vlen(ct, r) == L - 1)
            j = z3.Int('j!q')
            ra, va = acc(ct, 'arr', r), acc(ct, 'arr', v)
            st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L - 1), z3.Select(ra, j) == z3.If(j < p.pos, z3.Select(va, j), z3.Select(va, j + 1))),
                                patterns=[z3.Select(ra, j)]))
            self.write(this, r, st)
            return [(p, st)]
        if name == 'erase' and len(args) == 2:
            p, b = rv(args[0]), rv(args[1])
            k_ = z3.simplify(b.pos - p.pos)
            self.oblige(st, 'erase in range', z3.And(p.pos >= 0, k_ >= 0, b.pos <= L))
            r = self.fresh_of(ct, 'ers', st)
            st.assume(so.vlen(ct, r) == L - k_)
            j = z3.Int('j!q')
            ra, va = acc(ct, 'arr', r), acc(ct, 'arr', v)
            st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L - k_), z3.Select(ra, j) == z3.If(j < p.pos, z3.Select(va, j), z3.Select(va, j + k_))),
                                patterns=[z3.Select(ra, j)]))
            self.write(this, r, st)
            return [(p, st)]
        raise Unsupported('vector method %s' % name)
    if k in ('map', 'set'):
        kt = ct[1]
        dom = acc(ct, 'dom', v)
        n = acc(ct, 'size', v)

        def key(x):
            x = rv(x)
            if isinstance(x, NullPtr):
                x = self.d.null_of(kt)
            x = self.d.convert(self, x, kt, st)
            if isinstance(x, ListV):
                x = self.construct(kt, x.items, {}, st)[0][0]
            if z3.is_expr(x) and not x.sort().eq(sort(kt)) and kt[0] == 'pair':
                x = self.conv_pair(x, kt)
            return self.pack(x, kt)
        if name == 'size':
            self.type_facts(ct, v, st)
            return [(n, st)]
        if name == 'empty':
            q = z3.Const('k!q', sort(kt))
            st.assume(n >= 0)
            st.assume(z3.Implies(n == 0, z3.ForAll([q], z3.Not(z3.Select(dom, q)), patterns=[z3.Select(dom, q)])))
            w = self.fresh(sort(kt), 'wit')
            st.assume(z3.Implies(n > 0, z3.Select(dom, w)))
            return [(z3.simplify(n == 0), st)]
        if name in ('find', 'count', 'contains'):
            kk = key(args[0])
            there = z3.simplify(z3.Select(dom, kk))
            st.assume(z3.Implies(there, n >= 1))
            if name == 'count':
                return [(z3.If(there, z3.IntVal(1), z3.IntVal(0)), st)]
            if name == 'contains':
                return [(there, st)]
            return [(Iter('map', this, kk, False, z3.simplify(z3.Not(there))), st)]
        if name in ('end', 'cend'):
            return [(Iter('map', this, None, False, TRUE), st)]
        if name == 'clear':
            self.write(this, self.default_value(ct, st), st)
            return [(None, st)]
        if name in ('insert', 'emplace'):
            if k == 'set':
                kk = key(args[0]) if len(args) == 1 else self.pack(self.construct(kt, args, e, st)[0][0], kt)
                there = z3.Select(dom, kk)
                st.assume(z3.Implies(there, n >= 1))
                nv = mk(ct, z3.Store(dom, kk, TRUE), z3.If(there, n, n + 1))
                self.write(this, nv, st)
                return [(self.d.mkpair_iter(self, Iter('map', this, kk, False, FALSE), z3.Not(there), st), st)]
            if len(args) == 2 and not isinstance(rv(args[0]), Iter):
                kk = key(args[0])
                val = rv(args[1])
                if isinstance(val, NullPtr):
                    val = self.d.null_of(ct[2])
                val = self.pack(self.d.convert(self, val, ct[2], st), ct[2])
            elif len(args) == 1:
                p = rv(args[0])
                if isinstance(p, ListV):
                    kk = key(p.items[0])
                    val = self.pack(rv(p.items[1]), ct[2])
                else:
                    kk, val = p.sort().accessor(0, 0)(p), p.sort().accessor(0, 1)(p)
            else:
                raise Unsupported('map insert')
            there = z3.Select(dom, kk)
            st.assume(z3.Implies(there, n >= 1))
            va = acc(ct, 'val', v)
            nv = mk(ct, z3.Store(dom, kk, TRUE), z3.If(there, va, z3.Store(va, kk, val)), z3.If(there, n, n + 1))
            self.write(this, nv, st)
            return [(self.d.mkpair_iter(self, Iter('map', this, kk, False, FALSE), z3.Not(there), st), st)]
        if name == 'erase':
            a = rv(args[0])
            if isinstance(a, Iter):
                self.oblige(st, 'erase of a valid iterator', z3.Not(a.end))
                kk = a.pos
            else:
                kk = key(a)
            there = z3.Select(dom, kk)
            st.assume(z3.Implies(there, n >= 1))
            nd = z3.Store(dom, kk, FALSE)
            nn = z3.If(there, n - 1, n)
            if k == 'set':
                self.write(this, mk(ct, nd, nn), st)
            else:
                self.write(this, mk(ct, nd, acc(ct, 'val', v), nn), st)
            return [(z3.If(there, z3.IntVal(1), z3.IntVal(0)), st)]
        if name == 'at':
            kk = key(args[0])
            self.oblige(st, 'map::at finds the key', z3.Select(dom, kk))
            return [(this.f(('k', kk), ct[2]), st)]
        raise Unsupported('%s method %s' % (k, name))
    raise Unsupported('method %s of %r' % (name, bct))


def lib_operator(self, op, args, at, e, st):
    LV, Ptr, NullPtr, Iter, Stream, ListV, CStr, Obj = _sym()
    a0 = args[0]
    t0 = at[0]
    rv = lambda v: self.rv(v, st)
    if op in ('operator<<', 'operator>>') and (isinstance(a0, Stream) or t0[0] == 'stream'):
        return [(Stream(), st)]
    if op == 'operator&' and (isinstance(rv(a0) if isinstance(a0, LV) else a0, Stream)):
        return [(None, st)]
    v0 = self.peek(a0, st) if isinstance(a0, LV) and not a0.path else a0
    # iterators
    if isinstance(v0, Iter) or t0[0] == 'iter':
        it = v0
        self.used_lib.add('iterator::' + op)
        if op in ('operator*', 'operator->'):
            if it is None:
                raise Unsupported('uninitialised iterator')
            lv = it_deref(self, it, st)
            return [(lv if op == 'operator*' else Ptr(lv), st)]
        if op in ('operator==', 'operator!='):
            b = rv(args[1])
            r = self.iter_eq(it, b, st)
            return [(z3.simplify(z3.Not(r)) if op == 'operator!=' else r, st)]
        if op in ('operator++', 'operator--'):
            if it.kind != 'vec':
                raise Unsupported('iteration over a map with an iterator')
            n = iter_add(self, it, 1 if op == 'operator++' else -1, st)
            post = len(args) > 1
            self.write(a0, n, st)
            return [(it if post else a0, st)]
        if op in ('operator+', 'operator-'):
            b = rv(args[1])
            if isinstance(b, Iter):
                return [(z3.simplify(it.pos - b.pos), st)]
            return [(iter_add(self, it, b if op == 'operator+' else -b, st), st)]
        if op in ('operator+=', 'operator-='):
            b = rv(args[1])
            self.write(a0, iter_add(self, it, b if op == 'operator+=' else -b, st), st)
            return [(a0, st)]
        if op == 'operator=':
            self.write(a0, rv(args[1]), st)
            return [(a0, st)]
        if op == 'operator<':
            return [(it.pos < rv(args[1]).pos, st)]
        if op == 'operator[]':
            return [(it_deref(self, iter_add(self, it, rv(args[1]), st), st), st)]
        raise Unsupported('iterator %s' % op)
    if t0[0] in ('mpz', 'mpq') or (len(at) > 1 and at[1][0] in ('mpz', 'mpq')):
        return gmp_operator(self, op, args, at, e, st)
    if t0[0] in ('vec', 'map', 'set', 'pair', 'str', 'cls') and op == 'operator=' and t0[0] != 'cls':
        self.used_lib.add('%s::%s' % (t0[0], op))
        b = rv(args[1])
        if isinstance(b, (ListV, CStr)):
            b = self.construct(t0, [b], {}, st)[0][0]
        if t0[0] == 'str' and not so.OPAQUE_STR and len(at) > 1 and at[1][0] == 'ptr' and z3.is_expr(b):
            from . import strs
            b = strs.upto0(self, st, b)
        if z3.is_expr(b) and t0[0] == 'pair' and not b.sort().eq(sort(t0)):
            b = self.conv_pair(b, t0)
        self.write(a0, b, st)
        return [(a0, st)]
    if t0[0] == 'str' and not so.OPAQUE_STR or t0[0] == 'vec':
        ct = ('vec', ('int', 8, True)) if t0[0] == 'str' else t0
        if op == 'operator[]':
            self.used_lib.add('vec::operator[]')
            if not isinstance(a0, LV):
                a0 = self.tmp(a0, t0, st)
            v = self.load(a0, st)
            i = rv(args[1])
            self.oblige(st, 'index in range', z3.And(i >= 0, i < so.vlen(ct, v)))
            return [(a0.f(('i', i), ct[1]), st)]
        if op in ('operator==', 'operator!=') and t0[0] == 'vec':
            a, b = rv(a0), rv(args[1])
            r = self.fresh(B, 'veq')
            j = z3.Int('j!q')
            aa, ba = acc(ct, 'arr', a), acc(ct, 'arr', b)
            la, lb = so.vlen(ct, a), so.vlen(ct, b)
            d = self.fresh(I, 'dif')
            st.assume(z3.Implies(r, z3.And(la == lb, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < la), z3.Select(aa, j) == z3.Select(ba, j)),
                                                                patterns=[z3.Select(aa, j), z3.Select(ba, j)]))))
            st.assume(z3.Implies(z3.Not(r), z3.Or(la != lb, z3.And(0 <= d, d < la, z3.Select(aa, d) != z3.Select(ba, d)))))
            return [(z3.Not(r) if op == 'operator!=' else r, st)]
    if t0[0] == 'str' or (len(at) > 1 and at[1][0] == 'str'):
        r = self.d.str_operator(self, op, args, at, e, st)
        if r is not None:
            return r
    if t0[0] in ('map',) and op == 'operator[]':
        self.used_lib.add('map::operator[]')
        v = self.load(a0, st)
        kt, vt = t0[1], t0[2]
        kk = rv(args[1])
        if isinstance(kk, NullPtr):
            kk = self.d.null_of(kt)
        kk = self.d.convert(self, kk, kt, st)
        if not sort(kt).eq(kk.sort()) and kt[0] == 'pair':
            kk = self.conv_pair(kk, kt)
        dom, val, n = acc(t0, 'dom', v), acc(t0, 'val', v), acc(t0, 'size', v)
        there = z3.simplify(z3.Select(dom, kk))
        st.assume(z3.Implies(there, n >= 1))
        if not z3.is_true(there):
            dv = self.d.default_elem(self, vt, st)
            nv = mk(t0, z3.Store(dom, kk, TRUE), z3.If(there, val, z3.Store(val, kk, dv)), z3.If(there, n, n + 1))
            self.write(a0, nv, st)
        return [(a0.f(('k', kk), vt), st)]
    if t0[0] in ('pair', 'map', 'set') and op in ('operator==', 'operator!='):
        if t0[0] == 'pair':
            r = rv(a0) == rv(args[1])
            return [(z3.Not(r) if op == 'operator!=' else r, st)]
    return None


def it_deref(self, it, st):
    LV, Ptr, NullPtr, Iter, Stream, ListV, CStr, Obj = _sym()
    if it.kind == 'vec':
        v = self.load(it.cont, st)
        ct = it.cont.ct
        L = so.vlen(ct, v)
        self.oblige(st, 'dereference of an iterator in range', z3.And(it.pos >= 0, it.pos < L))
        i = z3.simplify(L - 1 - it.pos) if it.rev else it.pos
        return it.cont.f(('i', i), ct[1])
    ct = it.cont.ct
    self.oblige(st, 'dereference of a valid map iterator', z3.Not(it.end))
    if ct[0] == 'set':
        return LV(('pure', it.pos, ct[1]), (), ct[1])
    return MapEntry(it, ct)


class MapEntry:
    """*it for a map: .first is the key, .second the lvalue of the value"""
    def __init__(self, it, ct):
        self.it, self.ct = it, ct


def lib_call(self, rd, args, e, st):
    LV, Ptr, NullPtr, Iter, Stream, ListV, CStr, Obj = _sym()
    name = rd['name']
    rv = lambda v: self.rv(v, st)
    self.used_lib.add(name)
    if name == 'isprint':
        x = rv(args[0])
        return [(z3.If(z3.And(32 <= x, x <= 126), z3.IntVal(1), z3.IntVal(0)), st)]
    if name == 'find':
        a, b, x = rv(args[0]), rv(args[1]), rv(args[2])
        ct = a.cont.ct
        arr = acc(ct, 'arr', self.load(a.cont, st))
        r = self.fresh(I, 'fnd')
        j = z3.Int('j!q')
        st.assume(z3.And(r >= a.pos, r <= b.pos))
        st.assume(z3.Implies(r < b.pos, z3.Select(arr, r) == x))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(a.pos <= j, j < r), z3.Select(arr, j) != x), patterns=[z3.Select(arr, j)]))
        return [(Iter('vec', a.cont, r, a.rev), st)]
    if name == 'search':
        a, b, c, d2 = [rv(x) for x in args[:4]]
        if a.rev or c.rev:
            raise Unsupported('search backwards')
        ct = a.cont.ct
        ha = acc(ct, 'arr', self.load(a.cont, st))
        na = acc(c.cont.ct, 'arr', self.load(c.cont, st))
        m = z3.simplify(d2.pos - c.pos)
        r = self.fresh(I, 'srch')
        j, p = z3.Int('j!q'), z3.Int('p!q')
        occ = self.d.occurs(self)
        # occ(h, p, n, q, m): n[q..q+m) occurs in h at p
        st.assume(z3.And(r >= a.pos, r <= b.pos))
        st.assume(z3.Or(r == b.pos, z3.And(r + m <= b.pos, occ(ha, r, na, c.pos, m))))
        st.assume(z3.ForAll([p], z3.Implies(z3.And(a.pos <= p, p < r, p + m <= b.pos), z3.Not(occ(ha, p, na, c.pos, m))),
                            patterns=[occ(ha, p, na, c.pos, m)]))
        return [(Iter('vec', a.cont, r), st)]
    if name == 'reverse':
        a, b = rv(args[0]), rv(args[1])
        ct = a.cont.ct
        v = self.load(a.cont, st)
        L = so.vlen(ct, v)
        self.oblige(st, 'reverse of a whole vector', z3.And(a.pos == 0, b.pos == L))
        r = self.fresh_of(ct, 'rev', st)
        j = z3.Int('j!q')
        ra = acc(ct, 'arr', r)
        st.assume(so.vlen(ct, r) == L)
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L), z3.Select(ra, j) == z3.Select(acc(ct, 'arr', v), L - 1 - j)),
                            patterns=[z3.Select(ra, j)]))
        self.write(a.cont, r, st)
        return [(None, st)]
    if name == 'distance':
        a, b = rv(args[0]), rv(args[1])
        return [(z3.simplify(b.pos - a.pos), st)]
    if name in ('move', 'forward', 'addressof'):
        return [(args[0], st)]
    if name in ('max', 'min'):
        a, b = rv(args[0]), rv(args[1])
        return [(z3.If(a >= b, a, b) if name == 'max' else z3.If(a <= b, a, b), st)]
    if name == 'swap':
        a, b = args[0], args[1]
        x, y = rv(a), rv(b)
        self.write(a, y, st)
        self.write(b, x, st)
        return [(None, st)]
    if name == 'make_pair':
        ct = ctype(e['type'].get('desugaredQualType') or e['type']['qualType'])
        return [(mk(ct, self.pack(rv(args[0]), ct[1]), self.pack(rv(args[1]), ct[2])), st)]
    return gmp_call(self, name, args, e, st)


# ---- GMP -----------------------------------------------------------------------
def _mpz(self, a, st):
    """value of an mpz argument"""
    LV, Ptr, *_ = _sym()
    v = a
    if isinstance(v, LV):
        v = self.load(v, st)
    if isinstance(v, Ptr):
        v = self.load(v.lv, st)
    return v


def _setz(self, a, val, st):
    LV, Ptr, *_ = _sym()
    if isinstance(a, LV):
        a = self.load(a, st) if not z3.is_expr(self.load(a, st)) else Ptr(a)
    self.write(a.lv, val, st)


def gmp_call(self, name, args, e, st):
    n = name.replace('__gmpz_', 'mpz_').replace('__gmpq_', 'mpq_')
    z = lambda i: _mpz(self, args[i], st)
    rvi = lambda i: self.rv(args[i], st)
    none = [(None, st)]
    if not (n.startswith('mpz_') or n.startswith('mpq_')):
        return None
    self.used_lib.add(n)
    for a in args:
        pass
    if n == 'mpz_fdiv_q':
        self.oblige(st, 'GMP division by a non-zero number', z(2) != 0)
        _setz(self, args[0], fdiv(z(1), z(2)), st)
        return none
    if n == 'mpz_fdiv_r':
        self.oblige(st, 'GMP division by a non-zero number', z(2) != 0)
        _setz(self, args[0], z(1) - fdiv(z(1), z(2)) * z(2), st)
        return none
    if n == 'mpz_fdiv_qr':
        self.oblige(st, 'GMP division by a non-zero number', z(3) != 0)
        x, y = z(2), z(3)
        q = self.fresh(I, 'q')
        r = self.fresh(I, 'r')
        st.assume(x == q * y + r)
        st.assume(z3.Or(z3.And(y > 0, 0 <= r, r < y), z3.And(y < 0, y < r, r <= 0)))
        _setz(self, args[0], q, st)
        _setz(self, args[1], r, st)
        return none
    if n == 'mpz_fdiv_r_2exp':
        _setz(self, args[0], z(1) % pow2(rvi(2)), st)
        st.assume(pow2(rvi(2)) >= 1)
        return none
    if n == 'mpz_fdiv_q_2exp':
        _setz(self, args[0], z(1) / pow2(rvi(2)), st)
        st.assume(pow2(rvi(2)) >= 1)
        return none
    if n == 'mpz_mul_2exp':
        _setz(self, args[0], z(1) * pow2(rvi(2)), st)
        return none
    if n in ('mpz_ior', 'mpz_and', 'mpz_xor'):
        f = {'mpz_ior': ior, 'mpz_and': iand, 'mpz_xor': ixor}[n]
        _setz(self, args[0], f(z(1), z(2)), st)
        return none
    if n == 'mpz_com':
        _setz(self, args[0], -z(1) - 1, st)
        return none
    if n == 'mpz_setbit':
        v = z(0)
        i = rvi(1)
        bit = (v / pow2(i)) % 2
        st.assume(pow2(i) >= 1)
        _setz(self, args[0], z3.If(bit == 0, v + pow2(i), v), st)
        return none
    if n == 'mpz_pow_ui':
        _setz(self, args[0], powi(z(1), rvi(2)), st)
        return none
    if n == 'mpz_get_ui':
        v = z(0)
        return [(z3.If(v >= 0, v, -v) % (2 ** 64), st)]
    if n == 'mpz_sizeinbase':
        return [(sizeinbase2(z(0)), st)]
    if n == 'mpz_cmp_ui':
        v, c = z(0), rvi(1)
        return [(z3.If(v > c, z3.IntVal(1), z3.If(v < c, z3.IntVal(-1), z3.IntVal(0))), st)]
    raise Unsupported('GMP function %s' % name)


def fdiv(x, y):
    """floor division"""
    return z3.If(y > 0, x / y, (-x) / (-y))


def gmp_method(self, bct, name, this, args, e, st):
    LV, Ptr, *_ = _sym()
    if name in ('get_mpz_t', 'get_mpq_t', 'get_num_mpz_t', 'get_den_mpz_t'):
        if name in ('get_num_mpz_t', 'get_den_mpz_t'):
            v = self.rv(this, st)
            num, den = self.d.numden(self, v, st)
            return [(num if 'num' in name else den, st)]
        if isinstance(this, LV):
            return [(Ptr(this), st)]
        return [(this, st)]
    v = self.rv(this, st)
    if name == 'fits_uint_p':
        return [(z3.And(v >= 0, v <= 2 ** 32 - 1), st)]
    if name == 'canonicalize':
        return [(None, st)]
    if name == 'get_str':
        return self.d.gmp_get_str(self, bct, v, args, st)
    if name == 'get_ui':
        return [(z3.If(v >= 0, v, -v) % (2 ** 64), st)]
    if name == 'fits_ulong_p':
        return [(z3.And(v >= 0, v <= 2 ** 64 - 1), st)]
    if name == 'fits_sint_p':
        return [(z3.And(v >= -2**31, v <= 2 ** 31 - 1), st)]
    raise Unsupported('GMP method %s' % name)


def gmp_operator(self, op, args, at, e, st):
    vs = [_mpz(self, a, st) for a in args]
    q = any(t[0] == 'mpq' for t in at)
    if q:
        vs = [z3.ToReal(v) if z3.is_int(v) else v for v in vs]
    self.used_lib.add('gmpxx ' + op)
    a = vs[0]
    b = vs[1] if len(vs) > 1 else None
    if op == 'operator=':
        self.write(args[0], b, st)
        return [(args[0], st)]
    if op == 'operator-' and b is None:
        return [(-a, st)]
    if op == 'operator/':
        self.oblige(st, 'GMP division by a non-zero number', b != 0)
        if not q:
            raise Unsupported('mpz operator/')
        return [(a / b, st)]
    f = {'operator+': lambda: a + b, 'operator-': lambda: a - b, 'operator*': lambda: a * b,
         'operator==': lambda: a == b, 'operator!=': lambda: a != b, 'operator<': lambda: a < b,
         'operator>': lambda: a > b, 'operator<=': lambda: a <= b, 'operator>=': lambda: a >= b}.get(op)
    if f is None:
        raise Unsupported('gmpxx %s' % op)
    return [(f(), st)]
