"""The logical model of the code's data: terms, literals, singletons.

Terms (ExprValue*, Expr) are elements of a sort E.  Their kind and children
never change after construction (no function of the code writes them outside
constructors -- checked syntactically by `frame_scan`), so they are functions
of the term.  Flags and reference counts are mutable and live in the store.
"""
import z3
from . import sorts as so
from . import symex as sx
from .sorts import (ctype, sort, acc, upd, mk, Unsupported, strip_ref, is_e, E, SNULL, NULLP, I, B, R)
from .cast import tstr
from .symex import LV, Ptr, NullPtr, Obj, Iter, Stream, ListV, CStr, Contract, TRUE, FALSE
from .stdlib import MapEntry
from . import trie

EV = ('ptr', ('cls', 'ExprValue'))
VE = ('vec', EV)
kind = z3.Function('kind', E, I)
birth = z3.Function('birth', E, I)
islit = z3.Function('islit', E, B)


def walk(n):
    yield n
    for c in n.get('inner', []):
        if isinstance(c, dict):
            yield from walk(c)


class PairV:
    def __init__(self, first, second):
        self.first, self.second = first, second


class Domain:
    def __init__(self, program, singletons=('State', 'TypeChecker', 'Options', 'Stats', 'Plugin', 'ExprParser',
                                            'CmdParser', 'Lexer', 'RunTimeStats', 'Parser'),
                 opaque_str=True):
        self.newborn, self._keep = {}, []
        so.SINGLETONS |= set(singletons)
        so.OPAQUE_STR = opaque_str
        so.init(program)
        self.p = program
        self.vec_e = sort(VE)
        self.chs = z3.Function('chs', E, self.vec_e)
        self.contracts = {}
        self.contract_objs = []
        self.lemma_obs = []      # (name, hypotheses, goal, axioms): inductive lemmas
        self.K = {}
        for k, v in program.enums.items():
            if k.startswith('ethos::Kind::'):
                self.K[k[len('ethos::Kind::'):]] = v
        self.LIT = ('cls', 'Literal')
        self.litval = z3.Function('litval', E, sort(self.LIT))
        self.strs = {}
        self.axioms = []
        self.numq = z3.Function('numq', R, I)
        self.denq = z3.Function('denq', R, I)
        q = z3.Real('q!r')
        self.axioms.append(z3.ForAll([q], z3.Implies(z3.IsInt(q), z3.And(self.numq(q) == z3.ToInt(q), self.denq(q) == 1)),
                                     patterns=[self.numq(q)]))
        self.axioms.append(z3.ForAll([q], z3.And(self.denq(q) >= 1, z3.ToReal(self.numq(q)) == q * z3.ToReal(self.denq(q))),
                                     patterns=[self.numq(q)]))
        litk = ['BOOLEAN', 'NUMERAL', 'DECIMAL', 'RATIONAL', 'HEXADECIMAL', 'BINARY', 'STRING']
        self.litkinds = [self.K[x] for x in litk]
        symk = ['PARAM', 'CONST', 'PROGRAM_CONST', 'PROOF_RULE', 'VARIABLE', 'ORACLE']
        self.symkinds = [self.K[x] for x in symk if x in self.K]
        x = z3.Const('x!e', E)
        self.axioms.append(z3.ForAll([x], so.vlen(VE, self.chs(x)) >= 0, patterns=[self.chs(x)]))
        self.axioms.append(z3.ForAll([x], islit(x) == z3.Or([kind(x) == c for c in self.litkinds + self.symkinds]),
                                     patterns=[islit(x)]))
        self.axioms.append(z3.ForAll([x], z3.Implies(islit(x), z3.And(acc(self.LIT, 'd_kind', self.litval(x)) == kind(x))),
                                     patterns=[self.litval(x)]))
        self.qf_axioms = [SNULL != NULLP, kind(SNULL) == self.K['NONE'], so.vlen(VE, self.chs(SNULL)) == 0]
        self.strconsts = []

    # ---- term helpers
    def nch(self, e):
        return so.vlen(VE, self.chs(e))

    def ch(self, e, i):
        return z3.Select(acc(VE, 'arr', self.chs(e)), i)

    def isk(self, e, *names):
        return z3.Or([kind(e) == self.K[n] for n in names]) if len(names) > 1 else kind(e) == self.K[names[0]]

    def lit_of(self, v):
        return self.litval(v) if v.sort().eq(E) else v

    def lit(self, e, f):
        return acc(self.LIT, f, self.litval(e))

    # ---- contracts
    def register(self, c):
        fns = [f for f in self.p.by_qual.get(c.fn, []) if c.matches(f)]
        c.domain = self
        self.contract_objs.append(c)
        c.fns = fns
        for f in fns:
            self.contracts[f.mangled] = c
        return fns

    def contract(self, fn):
        return self.contracts.get(fn.mangled)

    # ---- reads and writes of term memory
    def e_read(self, ex, st, e, path):
        if trie.is_node(e):
            return trie.read(self, ex, st, e, path)
        if not path:
            return self.litval(e), self.LIT, 0
        if path[0][0] != 'f':
            raise Unsupported('term access %r' % (path[0],))
        n = path[0][1]
        if n == 'd_kind':
            return kind(e), ('enum', 'Kind'), 1
        if n == 'd_children':
            st.assume(so.vlen(VE, self.chs(e)) >= 0)
            return self.chs(e), VE, 1
        if n == 'd_flags':
            v = ex.of_bits3([z3.Select(self.garr(ex, st, 'flag%d' % i, B), e) for i in range(3)])
            return v, ('int', 8, True), 1
        if n == 'd_rc':
            return z3.Select(self.garr(ex, st, 'rc', I), e), ('int', 32, False), 1
        for f, ft in so.fields(self.LIT):
            if f == n:
                v = acc(self.LIT, f, self.litval(e))
                ex.type_facts(ft, v, st)
                return v, ft, 1
        if n == 'd_value':
            return e, EV, 1
        raise Unsupported('term field %s' % n)

    def garr(self, ex, st, name, rng, name_it=False):
        r = ('g', name)
        if r not in st.store:
            srt = z3.ArraySort(E, rng)
            ex.vct[r] = ('garr', srt)
            ex.init_vals.setdefault(r, z3.Const('g_' + name, srt))
            st.store[r] = ex.init_vals[r]
        v = st.store[r]
        if name_it and v.num_args() > 0:
            c = ex.fresh(v.sort(), 'n_' + name)
            st.assume(c == v)
            st.store[r] = v = c
        return v

    def e_write(self, ex, st, e, path, val):
        if trie.is_node(e):
            return trie.write(self, ex, st, e, path, val)
        nb = self.newborn.get(e.get_id())
        if nb is not None and path and path[0][0] == 'f' and len(path) == 1 and path[0][1] in ('d_kind', 'd_children'):
            # initialised once, by the constructor
            if path[0][1] in nb and nb[path[0][1]] is not val:
                raise Unsupported('a constructor writes %s twice' % path[0][1])
            nb[path[0][1]] = val
            st.assume((kind(e) if path[0][1] == 'd_kind' else self.chs(e)) == val)
            return
        if path and path[0][0] == 'f' and path[0][1] in ('d_flags', 'd_rc') and len(path) == 1:
            nm = path[0][1][2:]
            if nm == 'flags':
                bs = ex.bits3(val)
                if not bs or not bs[1]:
                    raise Unsupported('value of d_flags')
                for i, b in enumerate(bs[0]):
                    st.store[('g', 'flag%d' % i)] = z3.Store(self.garr(ex, st, 'flag%d' % i, B), e, b)
                return
            a = self.garr(ex, st, nm, I)
            st.store[('g', nm)] = z3.Store(a, e, val)
            return
        raise Unsupported('write to a term: %r' % (path,))

    # ---- singletons
    def field_type(self, cls, name):
        for f, ts in so.CLASSES.get(cls, []):
            if f == name:
                return ctype(ts)
        raise Unsupported('field %s of %s' % (name, cls))

    def obj_field(self, ex, st, cls, name):
        ct = strip_ref(self.field_type(cls, name))
        v = z3.Const('%s.%s' % (cls, name), sort(ct))
        ex.type_facts(ct, v, st)
        return v, ct

    def obj_member(self, ex, st, obj, name, ct):
        ft = self.field_type(obj.cls, name)
        ft = strip_ref(ft)
        if ft[0] == 'ptr' and ft[1][0] == 'cls' and ft[1][1] in so.SINGLETONS:
            if ft[1][1] == 'Plugin':
                return NullPtr()
            return Obj(ft[1][1])
        if ft[0] == 'cls' and ft[1] in so.SINGLETONS:
            return Obj(ft[1])
        if ft[0] == 'stream' or ft[0] == 'ptr' and ft[1][0] == 'stream':
            return Stream(name)
        return LV(('o', obj.cls, name), (), ft)

    def this_obj(self, cls):
        return Obj(cls)

    def global_var(self, ex, rd, st):
        n = rd.get('name')
        ct = ctype(tstr(rd['type']))
        if n == 's_null':
            return [(LV(('e', SNULL), (), ('cls', 'ExprValue')), st)]
        if ct[0] == 'ptr' and ct[1][0] == 'cls' and ct[1][1] in so.SINGLETONS:
            return [(Obj(ct[1][1]), st)]
        if ct[0] == 'stream':
            return [(Stream(n), st)]
        if n in ('cout', 'cerr', 'cin', 'nullStream', 'TraceChannel', 'WarningChannel'):
            return [(Stream(n), st)]
        if n == 'npos':
            return [(z3.IntVal(2 ** 64 - 1), st)]
        node = ex.frame[1].tu.decls.get(rd['id'])
        # a constant with an initialiser
        if node is not None and 'const' in node['type']['qualType']:
            ini = [c for c in node.get('inner', []) if c.get('kind') and not c['kind'].endswith('Attr')]
            if ini:
                return ex.ev(ini[0], st)
        raise Unsupported('global variable %s' % n)

    def deref_term(self, ex, v, pct, st):
        t = strip_ref(pct)
        t = t[1] if t[0] == 'ptr' else ('cls', 'ExprValue')
        if v.sort().eq(E) or trie.is_node(v):
            return LV(('e', v), (), t)
        raise Unsupported('dereference of %s' % v.sort())

    def derived_to_base(self, ex, v, ft, tt, st):
        return v

    def zero_array(self, fn, ini, fct):
        """an array member with the initialiser {}"""
        import re
        for t in [fn.tu] if hasattr(fn, 'tu') else []:
            f = t.decls.get(ini['anyInit']['id'])
            il = [c for c in (f or {}).get('inner', []) if c.get('kind') in ('InitListExpr', 'ExprWithCleanups', 'ConstantExpr')]
            m = re.search(r'array<[^<>]*?, *(\d+)>', tstr(ini['anyInit']['type']))
            if f and m and il:
                vals = [c for c in il[0].get('inner', []) if c.get('kind') not in ('ImplicitValueInitExpr',)]
                if not [v for v in walk(il[0]) if v.get('kind') == 'IntegerLiteral']:
                    return mk(fct, z3.IntVal(int(m.group(1))), z3.K(I, z3.IntVal(0)))
        raise Unsupported('default member initialiser')

    def null_of(self, ct):
        ct = strip_ref(ct)
        if is_e(ct):
            return NULLP
        if ct == trie.PT:
            return trie.TNULL
        return NullPtr()

    def null_like(self, x):
        if z3.is_expr(x) and x.sort().eq(E):
            return NULLP
        if trie.is_node(x):
            return trie.TNULL
        raise Unsupported('null of %r' % (x,))

    def nonnull(self, ex, v, ft, st):
        if isinstance(v, NullPtr):
            return FALSE
        if isinstance(v, (Ptr, Obj)):
            return TRUE
        if isinstance(v, Stream):
            return ex.fresh(B, 'hasout')
        if z3.is_expr(v) and v.sort().eq(E):
            return z3.simplify(v != NULLP)
        if trie.is_node(v):
            return z3.simplify(v != trie.TNULL)
        raise Unsupported('pointer test')

    def array_sub(self, ex, a, i, e, st):
        if isinstance(a, LV) and a.ct and a.ct[0] == 'arr':
            if z3.is_int_value(i):
                return LV(a.root[:-1] + ('%s[%s]' % (a.root[-1], i),), a.path, a.ct[1])
        raise Unsupported('array subscript')

    # ---- construction
    def birth_now(self, ex, st):
        r = ('h', 'now')
        if r not in st.store:
            ex.vct[r] = ('mpz',)
            ex.init_vals.setdefault(r, z3.Int('ghost_now'))
            st.store[r] = ex.init_vals[r]
        return st.store[r]

    def new(self, ex, e, st):
        """new Literal(...), new ExprValue(...): a term that did not exist before"""
        ct = ctype(tstr(e['type']))
        if ct[0] != 'ptr' or ct[1] not in (('cls', 'ExprValue'), ('cls', 'Literal')):
            raise Unsupported('new %r' % (ct,))
        ce = [x for x in e['inner'] if x['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr')]
        if not ce:
            raise Unsupported('new without a constructor')

        def born(s):
            n = ex.fresh(E, 'new')
            now = self.birth_now(ex, s)
            s.assume(z3.And(n != NULLP, n != SNULL, birth(n) == now))
            s.store[('h', 'now')] = now + 1
            for i in range(3):
                s.store[('g', 'flag%d' % i)] = z3.Store(self.garr(ex, s, 'flag%d' % i, B), n, FALSE)
            s.store[('g', 'rc')] = z3.Store(self.garr(ex, s, 'rc', I), n, z3.IntVal(0))
            return n
        out = []
        if ct[1][1] == 'Literal':
            for v, s in ex.ev(ce[0], st):
                v = ex.rv(v, s)
                n = born(s)
                s.assume(z3.And(kind(n) == acc(self.LIT, 'd_kind', v), self.litval(n) == v, so.vlen(VE, self.chs(n)) == 0))
                out.append((n, s))
            return out
        fn = ex.find_ctor(ct[1], ce[0])
        for vs, s in ex.ev_list(ce[0].get('inner', []), st):
            n = born(s)
            lv = LV(('e', n), (), ct[1])
            self.newborn[n.get_id()] = {}
            self._keep.append(n)
            ex.inlined.add(fn.qual)
            for tag, s2, _ in ex.run_body(fn, lv, vs, s, ctor_lv=lv):
                out.append((n, s2))
            del self.newborn[n.get_id()]
        return out

    def local_trie(self, ex, st):
        return trie.local(self, ex, st)

    def construct(self, ex, ct, vs, e, st):
        if ct == trie.PT and not vs:
            return [(ex.fresh(trie.TN, 'iterator'), st)]
        if ct == trie.PT and len(vs) == 1:
            return [(ex.rv(vs[0], st), st)]
        if ct[0] == 'cls' and ct[1] in ('FatalStream',):
            self.rejected(ex, st)
            ex.rejects += 1
            return []
        if ct == ('cls', 'SStr'):
            if len(vs) == 1 and z3.is_expr(ex.rv(vs[0], st)) and ex.rv(vs[0], st).sort().eq(sort(ct)):
                return [(ex.rv(vs[0], st), st)]
            return [(mk(ct, self.cstr(ex, ''), z3.IntVal(10)), st)]
        if ct[0] == 'stream':
            return [(Stream(), st)]
        if ct == ('cls', 'OstreamVoider'):
            return [(Stream('voider'), st)]
        if ct == ('cls', 'Integer') and len(vs) >= 1:
            v = ex.rv(vs[0], st)
            if isinstance(v, CStr):
                return [(z3.IntVal(int(v.s)), st)]
        if ct[0] == 'mpz' and len(vs) == 1:
            v = ex.rv(vs[0], st)
            if z3.is_expr(v) and z3.is_int(v):
                return [(v, st)]
        if ct[0] in ('mpz', 'mpq') and len(vs) == 2 and z3.is_expr(ex.rv(vs[0], st)) and ex.rv(vs[0], st).sort().eq(sort(('str',))):
            v, base = ex.rv(vs[0], st), ex.rv(vs[1], st)
            if z3.is_int_value(base) and base.as_long() == 10:
                for txt, c in self.strs.items():
                    if c.eq(v) and txt.lstrip('-').isdigit():
                        return [(z3.IntVal(int(txt)) if ct[0] == 'mpz' else z3.RealVal(int(txt)), st)]
            f = z3.Function('str2' + ct[0], v.sort(), I, sort(ct))
            return [(f(v, base), st)]
        if ct[0] == 'mpz' and not vs:
            return [(z3.IntVal(0), st)]
        if ct[0] == 'mpq':
            v = [ex.rv(x, st) for x in vs]
            if not v:
                return [(z3.RealVal(0), st)]
            if len(v) == 1 and z3.is_expr(v[0]):
                return [(z3.ToReal(v[0]) if z3.is_int(v[0]) else v[0], st)]
            if len(v) == 2 and all(z3.is_expr(x) and z3.is_int(x) for x in v):
                ex.oblige(st, 'rational with a non-zero denominator', v[1] != 0)
                return [(z3.ToReal(v[0]) / z3.ToReal(v[1]), st)]
        if ct == ('cls', 'Expr'):
            if not vs:
                return [(SNULL, st)]
            if len(vs) == 1:
                v = ex.rv(vs[0], st)
                at = e.get('ctorType', {}).get('qualType', '') if e else ''
                if isinstance(v, NullPtr):
                    return [(SNULL, st)]
                if 'Expr &' in at:
                    return [(v, st)]
                return [(self.of_ptr(v), st)]
        return None

    def of_ptr(self, v):
        """Expr(ExprValue*): the null pointer becomes the null expression"""
        return z3.simplify(z3.If(v == NULLP, SNULL, v)) if not (v.eq(SNULL)) else v

    def construct_str(self, ex, vs, e, st):
        vals = [ex.rv(v, st) for v in vs]
        if not vals:
            return [(self.cstr(ex, ''), st)]
        if isinstance(vals[0], CStr):
            return [(self.cstr(ex, vals[0].s), st)]
        if so.OPAQUE_STR:
            if len(vals) == 1 and z3.is_expr(vals[0]) and vals[0].sort().eq(so.Str):
                return [(vals[0], st)]
            return [(ex.fresh(so.Str, 'str'), st)]
        if len(vals) == 1 and z3.is_expr(vals[0]):
            a = [x for x in (e or {}).get('inner', []) if x.get('kind') != 'CXXDefaultArgExpr']
            if a and ctype(tstr(a[0]['type']))[0] == 'ptr':
                from . import strs
                return [(strs.upto0(ex, st, vals[0]), st)]
            return [(vals[0], st)]
        if len(vals) == 2 and all(z3.is_expr(v) and z3.is_int(v) for v in vals):
            # n copies of a character
            ct = ('vec', ('int', 8, True))
            ex.oblige(st, 'length of a string is not negative', vals[0] >= 0)
            return [(mk(ct, vals[0], z3.K(I, vals[1])), st)]
        raise Unsupported('string construction')

    def cstr(self, ex, s):
        if s not in self.strs:
            if so.OPAQUE_STR:
                c = z3.Const('str_%s' % s, so.Str)
                for o in self.strs.values():
                    self.qf_axioms.append(c != o)
                self.strs[s] = c
            else:
                ct = ('vec', ('int', 8, True))
                arr = z3.K(I, z3.IntVal(0))
                for i, ch in enumerate(s):
                    arr = z3.Store(arr, i, ord(ch) if ord(ch) < 128 else ord(ch) - 256)
                self.strs[s] = mk(ct, z3.IntVal(len(s)), arr)
        return self.strs[s]

    def base_init(self, ex, ini, lv, st):
        bt = ctype(ini['baseInit'].get('desugaredQualType') or ini['baseInit']['qualType'])
        ce = ini['inner'][0]
        while ce['kind'] != 'CXXConstructExpr':
            ce = ce['inner'][0]
        if bt == ('cls', 'ExprValue') and isinstance(lv, LV):
            out = []
            args = ce.get('inner', [])
            if not args:
                ex.write(lv.f(('f', 'd_kind'), ('enum', 'Kind')), z3.IntVal(self.K['NONE']), st)
                return [st]
            for v, s in ex.ev(args[0], st):
                ex.write(lv.f(('f', 'd_kind'), ('enum', 'Kind')), ex.rv(v, s), s)
                out.append(s)
            return out
        return [st]

    def after_init(self, ex, lv, name, v, st):
        # layout of the union of Literal: a rational starts with its numerator, which is where the integer is stored
        if isinstance(lv, LV) and lv.ct == ('cls', 'Literal') and name == 'd_rat' and z3.is_expr(v):
            n, _ = self.numden(ex, v, st)
            ex.write(lv.f(('f', 'd_int'), ('cls', 'Integer')), n, st)
            st.assume(z3.Implies(z3.IsInt(v), n == z3.ToInt(v)))

    # ---- calls
    SKIP_STREAM = True

    def pre_call(self, ex, rd, e, st):
        n = rd.get('name')
        if n in ('__builtin_expect',):
            return ex.ev(e['inner'][1], st)
        if n == '__builtin_constant_p':
            return [(z3.IntVal(0), st)]
        if n in ('exit', 'abort'):
            ex.rejects += 1
            return []
        if n == 'free':
            r = []
            for v, s in ex.ev(e['inner'][1], st):
                v = ex.rv(v, s)
                a = self.garr(ex, s, 'freed', B)
                ex.oblige(s, 'a term is freed once', z3.Not(z3.Select(a, v)))
                s.store[('g', 'freed')] = z3.Store(a, v, z3.BoolVal(True))
                r.append((None, s))
            return r
        return None

    def pre_operator(self, ex, op, e, st):
        if op in ('operator<<', 'operator>>') and not so.OPAQUE_STR and 'stream' in tstr(e['type']):
            from . import strs
            return strs.stream_operator(ex, op, e, st)
        if op in ('operator<<',):
            t = ctype(tstr(e['type']))
            if strip_ref(t)[0] == 'stream' or 'ostream' in tstr(e['type']):
                # only the stream operand is evaluated: output is not observed
                return [(Stream(), s) for v, s in ex.ev(e['inner'][1], st)]
        return None

    def pre_member_call(self, ex, me, e, st):
        if me.get('name') == 'operator bool' and '__ethos_true' in str(me['inner'][0].get('type', {}).get('qualType')):
            return [(TRUE, st)]
        if me.get('name') == 'stream':
            b = me['inner'][0]
            r = ex.ev(b, st)
            return [(Stream(), s) for _, s in r]
        return None

    def operator(self, ex, op, args, at, e, st):
        t0 = at[0]
        r = trie.operator(self, ex, op, args, st)
        if r is not None:
            return r
        if op == 'operator&' and t0[0] in ('cls', 'stream', 'unknown') and t0[1] in ('OstreamVoider',):
            return [(None, st)]
        if op == 'operator=' and t0[0] == 'cls' and t0[1] not in so.SINGLETONS:
            b = ex.rv(args[1], st)
            if isinstance(b, (ListV,)):
                b = ex.construct(t0, [b], {}, st)[0][0]
            if z3.is_expr(b) and b.sort().eq(sort(t0)):
                ex.used_lib.add('%s::operator= (member-wise copy)' % t0[1])
                ex.write(args[0], b, st)
                return [(args[0], st)]
        return None

    def method(self, ex, bm, this, bct, args, e, st):
        r = trie.method(self, ex, bm.name, this, args, st)
        if r is not None:
            return r
        if bct == ('cls', 'SStr') and bm.name == 'str':
            ex.used_lib.add('stringstream::str')
            return [(acc(bct, 'd_text', ex.rv(this, st)), st)]
        if isinstance(this, Stream) and not so.OPAQUE_STR and bm.name in ('read', 'gcount', 'get'):
            from . import strs
            return strs.istream(ex, bm.name, args, st)
        if isinstance(this, Stream):
            if bm.name == 'str':
                return [(ex.fresh(sort(('str',)), 'text'), st)]
            if bm.name == 'isOn':
                return [(ex.fresh(z3.BoolSort(), 'channelOn'), st)]
            return [(Stream(), st)]
        if bm.name == 'asLiteral':
            ev = self.term_of(ex, this, st)
            if ev is not None:
                return [(z3.If(islit(ev), ev, NULLP), st)]
        if bct == ('cls', 'RunTimeStats') or bct == ('cls', 'Stats'):
            return [(None, st)]
        if bct[0] == 'ptr' and bm.name == 'get':
            return [(ex.rv(this, st), st)]
        return None

    def term_of(self, ex, this, st):
        if isinstance(this, LV) and this.root[0] == 'e' and not this.path:
            return this.root[1]
        if isinstance(this, LV):
            v = ex.load(this, st)
            if z3.is_expr(v) and v.sort().eq(E):
                return v
        if z3.is_expr(this) and this.sort().eq(E):
            return this
        return None

    def rejected(self, ex, st):
        """an error is reported: the contract may say when that is allowed"""
        t = getattr(ex, 'topctx', None)
        c = t and self.contract(t.fn)
        r = c and getattr(c, 'rejects', None)
        if r:
            cx = sx.CallCtx(ex, t.fn, t.this, t.args, st)
            cx.old, cx.verifying = t.old, True
            ex.oblige(st, 'rejected only if ' + r[0], r[1](cx))

    NORETURN = {'parseError', 'unexpectedTokenError'}
    IGNORED = {'inc', 'dec', 'printDebug', 'printDebugInternal', 'getCurrent'}

    def extern(self, ex, q, rd, this, args, e, st):
        n = rd.get('name')
        if n in self.NORETURN:
            self.rejected(ex, st)
            ex.rejects += 1
            return []
        if n in self.IGNORED:
            return [(None, st)]
        return None

    def this_of_term(self, ex, this, cls, st):
        c = cls.replace('ethos::', '')
        if this.sort().eq(E) and c in ('ExprValue', 'Literal'):
            return LV(('e', this), (), ('cls', c))
        if this.sort().eq(E) and c == 'Expr':
            return ex.tmp(this, ('cls', 'Expr'), st)
        return ex.tmp(this, ('cls', c), st)

    def convert(self, ex, x, et, st):
        if isinstance(x, CStr) and et == ('str',):
            return self.cstr(ex, x.s)
        return x

    def default_elem(self, ex, vt, st):
        return ex.pack(ex.default_value(vt, st), vt)

    def mkpair_iter(self, ex, it, new, st):
        return PairV(it, z3.simplify(new))

    def occurs(self, ex):
        if not hasattr(self, '_occ'):
            A = z3.ArraySort(I, I)
            self._occ = z3.Function('occursAt', A, I, A, I, I, B)
            h, n = z3.Consts('h!a n!a', A)
            p, q, m, j = z3.Ints('p!o q!o m!o j!o')
            body = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.Select(h, p + j) == z3.Select(n, q + j)))
            self.axioms.append(z3.ForAll([h, p, n, q, m], self._occ(h, p, n, q, m) == body,
                                         patterns=[self._occ(h, p, n, q, m)]))
        return self._occ

    def str_method(self, ex, name, this, v, args, e, st):
        if not so.OPAQUE_STR:
            from . import strs
            return strs.method(ex, name, this, v, args, e, st)
        if name == 'c_str':
            return [(v, st)]
        if name in ('empty',):
            return [(z3.simplify(v == self.cstr(ex, '')), st)]
        if name in ('size', 'length'):
            f = z3.Function('strlen', so.Str, I)
            st.assume(f(v) >= 0)
            return [(f(v), st)]
        if name in ('substr', 'append', 'compare', 'find', 'rfind', 'find_last_of'):
            ct = ctype(tstr(e['type']))
            r = ex.fresh_of(strip_ref(ct), 's_' + name, st)
            if name == 'append':
                ex.write(this, r, st)
            return [(r, st)]
        return None

    def str_operator(self, ex, op, args, at, e, st):
        if not so.OPAQUE_STR:
            from . import strs
            return strs.operator(ex, op, args, at, e, st)
        a = ex.rv(args[0], st)
        b = ex.rv(args[1], st) if len(args) > 1 else None
        if isinstance(a, CStr):
            a = self.cstr(ex, a.s)
        if isinstance(b, CStr):
            b = self.cstr(ex, b.s)
        if op in ('operator==', 'operator!='):
            if so.OPAQUE_STR:
                r = z3.simplify(a == b)
                return [(z3.Not(r) if op == 'operator!=' else r, st)]
        if op == 'operator+':
            if so.OPAQUE_STR and z3.is_expr(b) and b.sort().eq(so.Str):
                f = z3.Function('strcat', so.Str, so.Str, so.Str)
                return [(f(a, b), st)]
            return [(ex.fresh(sort(('str',)), 'cat'), st)]
        if op == 'operator+=':
            ex.write(args[0], ex.fresh(sort(('str',)), 'cat'), st)
            return [(args[0], st)]
        return None

    def gmp_field(self, ex, v, ct, name, st):
        # layout of GMP numbers: the size of an mpz carries its sign, an mpq is a numerator and a denominator
        if ct[0] == 'mpz' and name == '_mp_size':
            return z3.If(v > 0, z3.IntVal(1), z3.If(v < 0, z3.IntVal(-1), z3.IntVal(0))), ('int', 32, True)
        if ct[0] == 'mpq' and name in ('_mp_num', '_mp_den'):
            n, dn = self.numden(ex, v, st)
            return (n if name == '_mp_num' else dn), ('mpz',)
        raise Unsupported('GMP field %s' % name)

    def numden(self, ex, v, st):
        n, dn = self.numq(v), self.denq(v)
        st.assume(dn >= 1)
        st.assume(z3.And((n > 0) == (v > 0), (n < 0) == (v < 0)))
        st.assume(z3.And((dn == 1) == z3.IsInt(v), z3.ToReal(n) / z3.ToReal(dn) == v))
        st.assume(n / dn == z3.ToInt(v))
        return n, dn

    def gmp_get_str(self, ex, bct, v, args, st):
        f = z3.Function('num2str', v.sort(), I, sort(('str',)))
        base = ex.rv(args[0], st) if args else z3.IntVal(10)
        return [(f(v, base), st)]
