"""Symbolic execution of the real functions (clang AST) into proof obligations.

Paths fork at branches; loops are cut by invariants; calls use the callee's
contract if there is one, the assumed contract of the library if it is a
library function, and otherwise the callee's real body (inlined).
"""
import time, itertools
import z3
from . import sorts as so
from .sorts import (ctype, sort, acc, upd, mk, Unsupported, strip_ref, is_e, E, SNULL, NULLP, I, B, R)
from .cast import tstr, loc_of

TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


# ---- values that are not terms ---------------------------------------------
class LV:
    """an lvalue: root plus a path of steps"""
    __slots__ = ('root', 'path', 'ct')

    def __init__(self, root, path, ct):
        self.root, self.path, self.ct = root, tuple(path), ct

    def f(self, step, ct):
        return LV(self.root, self.path + (step,), ct)

    def __repr__(self):
        return 'LV(%r,%r)' % (self.root, self.path)

    def same(self, o):
        return isinstance(o, LV) and self.root == o.root and len(self.path) == len(o.path) and all(
            _eqstep(a, b) for a, b in zip(self.path, o.path))


def _eqstep(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if z3.is_expr(x) or z3.is_expr(y):
            if not (z3.is_expr(x) and z3.is_expr(y) and x.eq(y)):
                return False
        elif x != y:
            return False
    return True


class Ptr:
    """pointer to an lvalue (never null)"""
    def __init__(self, lv):
        self.lv = lv

    def __repr__(self):
        return 'Ptr(%r)' % (self.lv,)


class NullPtr:
    def __repr__(self):
        return 'nullptr'


class Obj:
    """reference to a singleton object (State, TypeChecker, ...)"""
    def __init__(self, cls, name=None):
        self.cls, self.name = cls, name or cls

    def __repr__(self):
        return 'Obj(%s)' % self.name


class Iter:
    def __init__(self, kind, cont, pos, rev=False, end=None):
        self.kind, self.cont, self.pos, self.rev, self.end = kind, cont, pos, rev, end


class Stream:
    """an output stream whose contents are not observed"""
    def __init__(self, name='os'):
        self.name = name


class ListV:
    """brace-enclosed list"""
    def __init__(self, items, ct):
        self.items, self.ct = items, ct


class CStr:
    def __init__(self, s):
        self.s = s


class FnRef:
    def __init__(self, node):
        self.node = node


class BoundMethod:
    def __init__(self, name, this, node, arrow, basect):
        self.name, self.this, self.node, self.arrow, self.basect = name, this, node, arrow, basect


def same_val(a, b):
    if a is b:
        return True
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if isinstance(a, Iter) and isinstance(b, Iter):
        return (a.kind == b.kind and a.rev == b.rev and a.cont.same(b.cont) and same_val(a.pos, b.pos) and
                same_val(a.end, b.end))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.lv.same(b.lv)
    if isinstance(a, LV) and isinstance(b, LV):
        return a.same(b)
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.name == b.name
    if isinstance(a, (Stream, NullPtr)) and type(a) is type(b):
        return True
    return False


class St:
    __slots__ = ('store', 'pc', 'trace')

    def __init__(self):
        self.store = {}
        self.pc = []
        self.trace = []

    def clone(self):
        s = St()
        s.store = dict(self.store)
        s.pc = list(self.pc)
        s.trace = list(self.trace)
        return s

    def assume(self, f):
        if z3.is_true(f):
            return
        self.pc.append(f)


class Ob:
    """a proof obligation"""
    def __init__(self, fn, name, hyps, goal, trace):
        self.fn, self.name, self.hyps, self.goal, self.trace = fn, name, hyps, goal, trace
        self.status = None
        self.time = 0.0
        self.detail = ''
        self.backend = ''
        self.model = None


class Infeasible(Exception):
    pass


def has_quant(f, _memo={}):
    k = f.get_id()
    r = _memo.get(k)
    if r is not None and r[0].eq(f):
        return r[1]
    if z3.is_quantifier(f):
        v = True
    else:
        v = any(has_quant(c) for c in f.children())
    _memo[k] = (f, v)
    return v


def mentions(n, names):
    names = set(names)

    def walk(x):
        if not isinstance(x, dict) or not names:
            return
        names.discard(x.get('name'))
        names.discard(x.get('referencedDecl', {}).get('name'))
        for c in x.get('inner', []):
            walk(c)
    walk(n)
    return not names


class LoopCtx:
    """what an invariant may talk about"""
    def __init__(self, ex, st, entry, frame, idx, seq, modkeys, done=None):
        self.ex, self.st, self.entry, self.frame = ex, st, entry, frame
        self.idx, self.seq, self.modkeys, self.done = idx, seq, modkeys, done

    def key(self, name, ct=None):
        k = self.ex.resolve_name(self.frame, name)
        if k is not None and (k in self.st.store):
            return k
        if ct is not None:
            c = [k for k in self.modkeys if self.ex.vct.get(k) == ct and k[1] == self.frame]
            if len(c) == 1:
                return c[0]
        raise NameMissing('variable %s is not in scope of the loop' % name)

    def v(self, name, ct=None):
        k = self.key(name, ct)
        v = self.st.store[k]
        if isinstance(v, LV):
            return self.ex.load(v, self.st)
        if v is None:
            v = self.ex.fresh_of(self.ex.vct[k], name, self.st)
            self.st.store[k] = v
        return v

    def at_entry(self, name, ct=None):
        k = self.key(name, ct)
        v = self.entry.store.get(k)
        if isinstance(v, LV):
            return self.ex.load(v, self.entry)
        if v is None:
            raise NameMissing('%s has no value at loop entry' % name)
        return v

    def before(self, name, ct=None):
        """value when the iteration started (None if this is not the end of an iteration)"""
        if getattr(self, 'head', None) is None:
            return None
        v = self.head.store.get(self.key(name, ct))
        return self.ex.load(v, self.head) if isinstance(v, LV) else v

    def callctx(self):
        """the function under verification, at its entry"""
        t = self.ex.topctx
        c = CallCtx(self.ex, t.fn, t.this, t.args, self.st)
        c.old, c.verifying = t.old, True
        return c

    def has(self, name):
        try:
            self.key(name)
            return True
        except NameMissing:
            return False

    def root(self, r):
        return self.st.store[r]

    def lv(self, lv):
        return self.ex.load(lv, self.st)


class NameMissing(Exception):
    pass


class Executor:
    def __init__(self, program, domain, solver_timeout=10000):
        self.p = program
        self.d = domain
        self.n = itertools.count()
        self.obs = []
        self.vct = {}
        self.names = {}
        self.frames = []       # (frame id, Fn, this)
        self.timeout = solver_timeout
        self.curfn = None
        self.inlined = set()
        self.used_contracts = set()
        self.used_lib = set()
        self.rejects = 0
        self.returns = 0
        self.loopno = {}
        self.feas_cache = {}
        self.feas_time = 0.0
        self.record = True      # record obligations (off while searching for modified variables)
        self.inline_depth = 0
        self.max_paths = 4000
        self.init_vals = {}
        self.unresolved = []    # loops whose invariant could not be attached
        self.weak = []          # loops verified with inferred invariants only
        self.used_fns = set()   # functions whose contract was used (mangled names)
        self.deadline = None
        self.bitview = {}

    # ---- fresh -------------------------------------------------------------
    def fresh(self, srt, name='v'):
        return z3.Const('%s!%d' % (name, next(self.n)), srt)

    def fresh_of(self, ct, name, st):
        ct = strip_ref(ct)
        if ct[0] == 'iter' or ct[0] == 'stream':
            return Stream(name) if ct[0] == 'stream' else None
        v = self.fresh(sort(ct), name)
        self.type_facts(ct, v, st)
        return v

    def type_facts(self, ct, v, st):
        if ct[0] == 'int':
            b, s = ct[1], ct[2]
            if s:
                st.assume(z3.And(v >= -(2 ** (b - 1)), v <= 2 ** (b - 1) - 1))
            else:
                st.assume(z3.And(v >= 0, v <= 2 ** b - 1))
        elif ct[0] == 'str' and not so.OPAQUE_STR:
            self.type_facts(('vec', ('int', 8, True)), v, st)
        elif ct[0] in ('vec',):
            st.assume(z3.And(so.vlen(ct, v) >= 0, so.vlen(ct, v) <= 2 ** 62))
        elif ct[0] in ('map', 'set'):
            st.assume(z3.And(acc(ct, 'size', v) >= 0, acc(ct, 'size', v) <= 2 ** 62))
        elif ct[0] == 'enum':
            st.assume(z3.And(v >= 0, v < 256))
        elif ct[0] == 'pair':
            self.type_facts(ct[1], acc(ct, 'first', v), st)
            self.type_facts(ct[2], acc(ct, 'second', v), st)
        elif ct[0] == 'cls' and not is_e(ct) and ct[1] not in so.SINGLETONS:
            fl = so.fields(ct)
            if len(fl) == 1:
                self.type_facts(fl[0][1], v, st)
            else:
                for f, ft in fl:
                    if ft[0] in ('int', 'enum', 'vec', 'str'):
                        self.type_facts(ft, acc(ct, f, v), st)

    # ---- feasibility ---------------------------------------------------------
    def feasible(self, st, extra=None):
        fs = [f for f in st.pc if not has_quant(f)]
        if extra is not None:
            ex = z3.simplify(extra)
            if z3.is_false(ex):
                return False
            if z3.is_true(ex):
                return True
            fs.append(ex)
        key = tuple(f.get_id() for f in fs)
        if key in self.feas_cache:
            return self.feas_cache[key][0]
        t = time.time()
        s = z3.SimpleSolver()
        s.set('timeout', 400)
        s.add(*fs)
        for a in self.d.qf_axioms:
            s.add(a)
        r = s.check()
        self.feas_time += time.time() - t
        res = r != z3.unsat
        self.feas_cache[key] = (res, fs)
        return res

    def must(self, st, f):
        """f provably holds (quick, quantifier free)"""
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return not self.feasible(st, z3.Not(f))

    # ---- obligations -----------------------------------------------------------
    def oblige(self, st, name, goal):
        if not self.record:
            return
        goal = goal if z3.is_expr(goal) else z3.BoolVal(goal)
        ob = Ob(self.curfn, name, list(st.pc), goal, list(st.trace))
        self.obs.append(ob)

    # ---- store ----------------------------------------------------------------
    def load(self, lv, st):
        if not isinstance(lv, LV):
            return lv
        v, ct = self.root_val(lv, st)
        path = lv.path
        i = 0
        if lv.root[0] == 'e':
            v, ct, i = self.d.e_read(self, st, lv.root[1], path)
        elif lv.root[0] == 'o' and False:
            pass
        while i < len(path):
            v, ct = self.step(v, ct, path[i], st)
            i += 1
        return v

    def root_val(self, lv, st):
        r = lv.root
        if r[0] == 'e':
            return None, None
        if r[0] == 'pure':
            return r[1], r[2]
        v = st.store.get(r)
        ct = self.vct.get(r)
        if v is not None and ct is None and r[0] == 'o':
            ct = self.vct[r] = self.d.obj_field(self, st.clone(), r[1], r[2])[1]
        if v is None:
            if r[0] == 'o':
                v, ct = self.d.obj_field(self, st, r[1], r[2])
                self.vct[r] = ct
                self.init_vals.setdefault(r, v)
                v = self.init_vals[r]
            elif ct is not None:
                v = self.fresh_of(ct, str(r[-1]), st)
                if v is None:
                    raise Unsupported('uninitialised %r' % (r,))
            else:
                raise Unsupported('unknown root %r' % (r,))
            st.store[r] = v
        return v, ct

    def step(self, v, ct, step, st):
        if isinstance(v, LV):
            v = self.load(v, st)
        k = step[0]
        if k == 'f':
            if ct == ('cls', 'Expr'):
                return v, ('ptr', ('cls', 'ExprValue'))
            if is_e(ct):
                v2, ct2, n = self.d.e_read(self, st, v, (step,))
                return v2, ct2
            if ct[0] in ('mpz', 'mpq'):
                return self.d.gmp_field(self, v, ct, step[1], st)
            if so.transparent(ct):
                ft = so.fields(ct)[0]
                return v, ft[1]
            for f, ft in so.fields(ct):
                if f == step[1]:
                    x = acc(ct, f, v)
                    if ft[0] == 'int':
                        self.type_facts(ft, x, st)
                    return x, ft
            raise Unsupported('field %s of %s' % (step[1], ct))
        if k == 'i':
            if ct[0] == 'str':
                ct = ('vec', ('int', 8, True))
            x = z3.Select(acc(ct, 'arr', v), step[1])
            x = z3.simplify(x) if z3.is_int_value(step[1]) else x
            if ct[1][0] in ('int', 'vec'):
                self.type_facts(ct[1], x, st)
            return x, ct[1]
        if k == 'k':
            x = z3.Select(acc(ct, 'val', v), step[1])
            if ct[2][0] in ('int', 'vec'):
                self.type_facts(ct[2], x, st)
            return x, ct[2]
        if k == 'first':
            return acc(ct, 'first', v), ct[1]
        if k == 'second':
            return acc(ct, 'second', v), ct[2]
        if k == 'mp':   # pair view of a map entry (key, value): handled by LV building
            raise Unsupported('map entry')
        raise Unsupported('step %r' % (step,))

    def setstep(self, v, ct, path, i, new, st):
        if i == len(path):
            return new
        step = path[i]
        k = step[0]
        if k == 'f':
            if ct == ('cls', 'Expr'):
                return new
            if so.transparent(ct):
                return self.setstep(v, so.fields(ct)[0][1], path, i + 1, new, st)
            ft = dict(so.fields(ct)).get(step[1])
            if ft is None:
                raise Unsupported('field %s of %s' % (step[1], ct))
            return upd(ct, step[1], v, self.setstep(acc(ct, step[1], v), ft, path, i + 1, new, st))
        if k == 'i':
            if ct[0] == 'str':
                ct = ('vec', ('int', 8, True))
            a = acc(ct, 'arr', v)
            sub = self.setstep(z3.Select(a, step[1]), ct[1], path, i + 1, new, st)
            return upd(ct, 'arr', v, z3.Store(a, step[1], self.pack(sub, ct[1])))
        if k == 'k':
            a = acc(ct, 'val', v)
            sub = self.setstep(z3.Select(a, step[1]), ct[2], path, i + 1, new, st)
            return upd(ct, 'val', v, z3.Store(a, step[1], self.pack(sub, ct[2])))
        if k in ('first', 'second'):
            sub = self.setstep(acc(ct, k, v), ct[1] if k == 'first' else ct[2], path, i + 1, new, st)
            return upd(ct, k, v, sub)
        raise Unsupported('store step %r' % (step,))

    def pack(self, v, ct):
        if isinstance(v, NullPtr):
            return self.d.null_of(ct)
        if z3.is_expr(v):
            return v
        if isinstance(v, CStr) and ct == ('str',):
            return self.d.cstr(self, v.s)
        if isinstance(v, Ptr) and v.lv.root[0] == 'e' and not v.lv.path:
            return v.lv.root[1]
        raise Unsupported('value %r in a container of %r' % (v, ct))

    def write(self, lv, val, st):
        r = lv.root
        if r[0] == 'e':
            self.d.e_write(self, st, r[1], lv.path, val)
            return
        if r[0] == 'pure':
            raise Unsupported('write to an immutable value')
        if not lv.path:
            cur = st.store.get(r)
            if isinstance(val, NullPtr) and lv.ct is not None:
                val = self.d.null_of(lv.ct)
            if isinstance(val, CStr) and lv.ct == ('str',):
                val = self.d.cstr(self, val.s)
            st.store[r] = val
            return
        v, ct = self.root_val(lv, st)
        st.store[r] = self.setstep(v, ct, lv.path, 0, val, st)

    def tmp(self, val, ct, st):
        r = ('t', next(self.n))
        self.vct[r] = ct
        st.store[r] = val
        return LV(r, (), ct)

    def rv(self, v, st):
        return self.load(v, st) if isinstance(v, LV) else v

    def as_lv(self, v, ct, st):
        return v if isinstance(v, LV) else self.tmp(v, ct, st)

    # ---- names -------------------------------------------------------------------
    @property
    def frame(self):
        return self.frames[-1]

    def resolve_name(self, frame, name):
        l = self.names.get((frame, name))
        return l[-1] if l else None

    def declare(self, node, st, val, ct):
        fr = self.frame[0]
        key = ('v', fr, node['id'])
        self.vct[key] = ct
        self.names.setdefault((fr, node.get('name')), [])
        if key not in self.names[(fr, node.get('name'))]:
            self.names[(fr, node.get('name'))].append(key)
        st.store[key] = val
        return key

    # ---- expressions ---------------------------------------------------------------
    def ev(self, e, st):
        k = e['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression %s' % k)
        return m(e, st)

    def ev_rv(self, e, st):
        return [(self.rv(v, s), s) for v, s in self.ev(e, st)]

    def ev_list(self, es, st):
        """evaluate several expressions in order"""
        res = [([], st)]
        for e in es:
            nxt = []
            for vs, s in res:
                for v, s2 in self.ev(e, s):
                    nxt.append((vs + [v], s2))
            res = nxt
        return res

    def sub(self, e, st):
        return self.ev(e['inner'][0], st)

    e_ParenExpr = sub
    e_ExprWithCleanups = sub
    e_CXXBindTemporaryExpr = sub
    e_ConstantExpr = sub
    e_SubstNonTypeTemplateParmExpr = sub

    def e_MaterializeTemporaryExpr(self, e, st):
        ct = ctype(tstr(e['type']))
        return [(v if isinstance(v, LV) else self.mat(v, ct, s), s) for v, s in self.ev(e['inner'][0], st)]

    def mat(self, v, ct, st):
        if isinstance(v, (Obj, Stream, ListV, Iter, CStr)):
            return v
        return self.tmp(v, ct, st)

    def e_IntegerLiteral(self, e, st):
        return [(z3.IntVal(int(e['value'])), st)]

    def e_CharacterLiteral(self, e, st):
        v = int(e['value'])
        if v > 127:
            v -= 256
        return [(z3.IntVal(v), st)]

    def e_CXXBoolLiteralExpr(self, e, st):
        return [(z3.BoolVal(e['value'] in (True, 'true')), st)]

    def e_StringLiteral(self, e, st):
        import ast
        try:
            s = ast.literal_eval('b' + e['value']).decode('latin1')
        except Exception:
            s = e['value'][1:-1]
        return [(CStr(s), st)]

    def e_PredefinedExpr(self, e, st):
        return [(CStr('fn'), st)]

    def e_CXXNullPtrLiteralExpr(self, e, st):
        return [(NullPtr(), st)]

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_CXXThisExpr(self, e, st):
        t = self.frame[2]
        if isinstance(t, Ptr) and t.lv.root[0] == 'e' and not t.lv.path and not t.lv.root[1].sort().eq(so.E):
            return [(t.lv.root[1], st)]
        return [(t, st)]

    def e_DeclRefExpr(self, e, st):
        rd = e['referencedDecl']
        k = rd['kind']
        if k == 'EnumConstantDecl':
            q = ctype(rd['type']['qualType'])
            full = None
            tu = self.frame[1].tu
            v = tu.enum_by_id.get(rd['id'])
            if v is None:
                if q[0] == 'enum':
                    v = self.p.enums.get('ethos::' + q[1] + '::' + rd['name'])
            if v is None:
                raise Unsupported('enum constant %s' % rd['name'])
            return [(z3.IntVal(v), st)]
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return [(FnRef(rd), st)]
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            key = ('v', self.frame[0], rd['id'])
            if key in st.store or key in self.vct:
                v = st.store.get(key)
                ct = self.vct.get(key)
                if isinstance(v, LV):
                    return [(v, st)]           # reference
                if isinstance(v, (Obj, Stream)):
                    return [(v, st)]
                return [(LV(key, (), ct), st)]
            return self.d.global_var(self, rd, st)
        raise Unsupported('reference to %s' % k)

    def e_MemberExpr(self, e, st):
        ct = tstr(e['type'])
        name = e.get('name', '')
        base = e['inner'][0]
        res = []
        for b, s in self.ev(base, st):
            bct = ctype(tstr(base['type']))
            if '<bound member function type>' in ct:
                res.append((BoundMethod(name, b, e, e.get('isArrow'), bct), s))
                continue
            try:
                res.append((self.member(b, name, ctype(ct), e.get('isArrow'), bct, s), s))
            except Infeasible:
                pass
        return res

    def deref(self, v, pct, st):
        """pointer value -> lvalue"""
        if isinstance(v, LV):
            inner = self.load(v, st)
            return self.deref(inner, pct, st)
        if isinstance(v, (Ptr,)):
            return v.lv
        if isinstance(v, (Obj, Stream)):
            return v
        if isinstance(v, NullPtr):
            # the path ends here
            self.oblige(st, 'no null pointer is dereferenced', z3.BoolVal(False))
            raise Infeasible()
        if z3.is_expr(v):
            return self.d.deref_term(self, v, pct, st)
        raise Unsupported('dereference of %r' % (v,))

    def member(self, b, name, ct, arrow, bct, st):
        if arrow:
            b = self.deref(b, bct, st)
        if not name:            # anonymous union
            return b
        if type(b).__name__ == 'MapEntry':
            if name == 'first':
                return LV(('pure', b.it.pos, b.ct[1]), (), b.ct[1])
            return b.it.cont.f(('k', b.it.pos), b.ct[2])
        if isinstance(b, LV) and not b.path and type(self.peek(b, st)).__name__ in ('PairV', 'MapEntry'):
            return self.member(self.peek(b, st), name, ct, False, bct, st)
        if type(b).__name__ == 'PairV':
            return b.first if name == 'first' else b.second
        if isinstance(b, LV) and b.ct and b.ct[0] == 'cls' and b.ct[1] in so.SINGLETONS:
            b = self.load(b, st)
        if isinstance(b, Obj):
            return self.d.obj_member(self, st, b, name, ct)
        bct = strip_ref(bct)
        if bct[0] == 'ptr':
            bct = bct[1]
        if not isinstance(b, LV):
            b = self.tmp(b, bct, st)
        if bct[0] == 'pair':
            return b.f((name,), bct[1] if name == 'first' else bct[2])
        return b.f(('f', name), ct)

    # casts
    def e_ImplicitCastExpr(self, e, st):
        ck = e['castKind']
        tt = ctype(tstr(e['type']))
        ft = ctype(tstr(e['inner'][0]['type']))
        out = []
        for v, s in self.ev(e['inner'][0], st):
            out.append((self.cast(v, ck, ft, tt, s, e), s))
        return out

    def e_CXXStaticCastExpr(self, e, st):
        return self.e_ImplicitCastExpr(e, st)

    e_CStyleCastExpr = e_CXXStaticCastExpr
    e_CXXFunctionalCastExpr = e_CXXStaticCastExpr
    e_CXXConstCastExpr = e_CXXStaticCastExpr

    def cast(self, v, ck, ft, tt, st, e):
        if ck == 'LValueToRValue':
            return self.rv(v, st)
        if ck in ('NoOp', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'ConstructorConversion',
                  'UserDefinedConversion', 'ArrayToPointerDecay'):
            return v
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase'):
            return self.d.derived_to_base(self, v, ft, tt, st)
        if ck == 'BaseToDerived':
            return v
        if ck == 'ToVoid':
            return None
        if ck == 'NullToPointer':
            return self.d.null_of(tt)
        v = self.rv(v, st)
        if ck == 'IntegralCast':
            if ft[0] == 'bool' or z3.is_bool(v):
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if tt[0] == 'int':
                return self.wrap(st, v, tt)
            return v
        if ck == 'IntegralToBoolean':
            return self.boolify(v)
        if ck == 'PointerToBoolean':
            return self.d.nonnull(self, v, ft, st)
        if ck == 'BitCast' or ck == 'LValueBitCast':
            return v
        raise Unsupported('cast %s' % ck)

    def wrap(self, st, v, ct):
        b, s = ct[1], ct[2]
        lo, hi = (-(2 ** (b - 1)), 2 ** (b - 1) - 1) if s else (0, 2 ** b - 1)
        v = z3.simplify(v) if not z3.is_int_value(v) and v.num_args() == 0 else v
        if z3.is_int_value(v):
            x = v.as_long()
            if lo <= x <= hi:
                return v
            x %= 2 ** b
            if s and x > hi:
                x -= 2 ** b
            return z3.IntVal(x)
        if self.bits3(v) or self.must(st, z3.And(v >= lo, v <= hi)):
            return v
        m = v % (2 ** b)
        if s:
            return z3.If(m > hi, m - 2 ** b, m)
        return m

    def boolify(self, v):
        if z3.is_bool(v):
            return v
        if z3.is_int(v):
            b = self.bits3(v)
            if b and b[1]:
                return z3.simplify(z3.Or(b[0]))
            return v != 0
        raise Unsupported('condition %r' % (v,))

    # operators
    def e_UnaryOperator(self, e, st):
        op = e['opcode']
        inner = e['inner'][0]
        ct = ctype(tstr(e['type']))
        out = []
        for v, s in self.ev(inner, st):
            if op == '!':
                x = z3.simplify(z3.Not(self.boolify(self.rv(v, s))))
                out.append((x, s))
            elif op == '-':
                out.append((self.wrap(s, z3.simplify(-self.rv(v, s)), ct) if ct[0] == 'int' else -self.rv(v, s), s))
            elif op == '+':
                out.append((self.rv(v, s), s))
            elif op == '~':
                x = self.rv(v, s)
                out.append((self.wrap(s, z3.simplify(-x - 1), ct), s))
            elif op in ('++', '--'):
                old = self.rv(v, s)
                vct = v.ct
                if z3.is_int(old):
                    new = self.wrap(s, z3.simplify(old + (1 if op == '++' else -1)), vct if vct and vct[0] == 'int' else ct)
                else:
                    raise Unsupported('++ on %r' % (old,))
                self.write(v, new, s)
                out.append((old if e.get('isPostfix') else v, s))
            elif op == '*':
                out.append((self.deref(v, ctype(tstr(inner['type'])), s), s))
            elif op == '&':
                if isinstance(v, LV):
                    if v.root[0] == 'e' and not v.path:
                        out.append((v.root[1], s))
                    else:
                        out.append((Ptr(v), s))
                elif isinstance(v, (Obj, Stream)):
                    out.append((v, s))
                else:
                    raise Unsupported('address of %r' % (v,))
            else:
                raise Unsupported('unary %s' % op)
        return out

    def e_BinaryOperator(self, e, st):
        op = e['opcode']
        l, r = e['inner']
        if op in ('&&', '||'):
            return self.shortcircuit(op, l, r, st)
        if op == '=':
            out = []
            # C++17: right operand is sequenced before the left one
            for rv_, s in self.ev(r, st):
                rv_ = self.rv(rv_, s)
                for lv, s2 in self.ev(l, s):
                    if isinstance(lv, Stream) and isinstance(rv_, Stream):
                        out.append((lv, s2))
                        continue
                    if not isinstance(lv, LV):
                        raise Unsupported('assignment to %r' % (lv,))
                    self.write(lv, rv_, s2)
                    out.append((lv, s2))
            return out
        if op == ',':
            out = []
            for _, s in self.ev(l, st):
                out.extend(self.ev(r, s))
            return out
        ct = ctype(tstr(e['type']))
        out = []
        for (a, b), s in self.ev_list([l, r], st):
            out.append((self.binop(op, self.rv(a, s), self.rv(b, s), ct, s), s))
        return out

    def binop(self, op, a, b, ct, st):
        if op in ('==', '!='):
            r = self.equal(a, b, st)
            return z3.simplify(z3.Not(r)) if op == '!=' else r
        if z3.is_bool(a):
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if z3.is_bool(b):
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if isinstance(a, Iter) or isinstance(b, Iter):
            raise Unsupported('iterator arithmetic')
        if op == '<':
            return z3.simplify(a < b)
        if op == '>':
            return z3.simplify(a > b)
        if op == '<=':
            return z3.simplify(a <= b)
        if op == '>=':
            return z3.simplify(a >= b)
        if op == '+':
            return self.wrap(st, z3.simplify(a + b), ct)
        if op == '-':
            return self.wrap(st, z3.simplify(a - b), ct)
        if op == '*':
            return self.wrap(st, z3.simplify(a * b), ct)
        if op in ('/', '%'):
            self.oblige(st, 'nonzero divisor', b != 0)
            if self.must(st, z3.And(a >= 0, b > 0)):
                return a / b if op == '/' else a % b
            raise Unsupported('signed division')
        if op in ('<<', '>>'):
            if z3.is_int_value(b):
                c = 2 ** b.as_long()
                return self.wrap(st, z3.simplify(a * c), ct) if op == '<<' else z3.simplify(a / z3.IntVal(c))
            raise Unsupported('shift by a variable')
        if op in ('&', '|', '^'):
            return self.bitop(op, a, b, ct, st)
        raise Unsupported('operator %s' % op)

    def bitop(self, op, a, b, ct, st):
        if z3.is_int_value(a) and z3.is_int_value(b):
            x, y = a.as_long(), b.as_long()
            r = x & y if op == '&' else x | y if op == '|' else x ^ y
            return self.wrap(st, z3.IntVal(r), ct)
        va, vb = self.bits3(a), self.bits3(b)
        if va and vb and (op == '&' and (va[1] or vb[1]) or va[1] and vb[1]):
            # flags: three bits, kept as truth values
            f = {'&': z3.And, '|': z3.Or, '^': z3.Xor}[op]
            return self.of_bits3([z3.simplify(f(x, y)) for x, y in zip(va[0], vb[0])])
        for v in (a, b):
            if not self.must(st, z3.And(v >= -512, v <= 511)):
                raise Unsupported('bit operation on wide operands')
        r = z3.IntVal(0)
        tot = None

        def bit(x, i):
            return ((x / z3.IntVal(2 ** i)) % 2) == 1
        f = {'&': z3.And, '|': z3.Or, '^': z3.Xor}[op]
        terms = []
        for i in range(9):
            terms.append(z3.If(f(bit(a, i), bit(b, i)), z3.IntVal(2 ** i), z3.IntVal(0)))
        terms.append(z3.If(f(bit(a, 9), bit(b, 9)), z3.IntVal(-512), z3.IntVal(0)))
        r = z3.simplify(z3.Sum(terms))
        return self.wrap(st, r, ct)

    def bits3(self, v):
        """(the three low bits, are there no others) of a constant or of a set of flags"""
        if z3.is_int_value(v):
            n = v.as_long()
            return [z3.BoolVal(bool(n >> i & 1)) for i in range(3)], 0 <= n < 8
        w = self.bitview.get(v.get_id())
        if w is not None and w[0].eq(v):
            return w[1], True
        return None

    def of_bits3(self, bs):
        v = z3.simplify(z3.Sum([z3.If(b, z3.IntVal(2 ** i), z3.IntVal(0)) for i, b in enumerate(bs)]))
        self.bitview[v.get_id()] = (v, bs)
        return v

    def equal(self, a, b, st):
        if isinstance(a, NullPtr) and isinstance(b, NullPtr):
            return TRUE
        if isinstance(a, (Ptr, Obj, Stream)) and isinstance(b, NullPtr) or isinstance(b, (Ptr, Obj, Stream)) and isinstance(a, NullPtr):
            return FALSE
        if isinstance(a, NullPtr):
            a = self.d.null_like(b)
        if isinstance(b, NullPtr):
            b = self.d.null_like(a)
        if z3.is_expr(a) and z3.is_expr(b):
            if z3.is_bool(a) and z3.is_int(b):
                a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
            if z3.is_bool(b) and z3.is_int(a):
                b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
            return z3.simplify(a == b)
        if isinstance(a, Iter) and isinstance(b, Iter):
            return self.iter_eq(a, b, st)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.lv.same(b.lv):
                return TRUE
            return self.fresh(B, 'ptreq')
        if isinstance(a, Obj) and isinstance(b, Obj):
            return z3.BoolVal(a.name == b.name)
        raise Unsupported('comparison of %r and %r' % (a, b))

    def iter_eq(self, a, b, st):
        if a.kind == 'vec':
            return z3.simplify(a.pos == b.pos)
        ea, eb = a.end, b.end
        if z3.is_true(eb):
            return z3.simplify(ea)
        if z3.is_true(ea):
            return z3.simplify(eb)
        return z3.Or(z3.And(ea, eb), z3.And(z3.Not(ea), z3.Not(eb), a.pos == b.pos))

    def shortcircuit(self, op, l, r, st):
        out = []
        for a, s in self.ev(l, st):
            a = z3.simplify(self.boolify(self.rv(a, s)))
            if z3.is_true(a):
                if op == '||':
                    out.append((a, s))
                else:
                    out.extend((self.boolify(self.rv(v, s2)), s2) for v, s2 in self.ev(r, s))
                continue
            if z3.is_false(a):
                if op == '&&':
                    out.append((a, s))
                else:
                    out.extend((self.boolify(self.rv(v, s2)), s2) for v, s2 in self.ev(r, s))
                continue
            g = a if op == '&&' else z3.Not(a)
            if not self.feasible(s, g):
                out.append((FALSE if op == '&&' else TRUE, s))
                continue
            s1 = s.clone()
            n0 = len(s1.pc)
            s1.pc.append(g)
            n1 = len(s1.pc)
            rs = self.ev(r, s1)
            if len(rs) == 1 and self.same_store(s, rs[0][1]):
                v, s2 = rs[0]
                v = self.boolify(self.rv(v, s2))
                self.merge_store(s, s2)
                for f in s2.pc[n1:]:
                    s.assume(z3.Implies(g, f))
                out.append((z3.simplify(z3.And(a, v) if op == '&&' else z3.Or(a, v)), s))
            else:
                sf = s.clone()
                sf.pc.append(z3.Not(g))
                if self.feasible(sf):
                    out.append((FALSE if op == '&&' else TRUE, sf))
                for v, s2 in rs:
                    out.append((self.boolify(self.rv(v, s2)), s2))
        return out

    def same_store(self, a, b):
        for k, v in b.store.items():
            if k[0] == 't':
                continue
            if k not in a.store:
                if k[0] in ('o', 'g'):
                    continue    # lazily created
                return False
            if not same_val(a.store[k], v) and not (a.store[k] is None and v is None):
                return False
        return True

    def merge_store(self, a, b):
        for k, v in b.store.items():
            if k not in a.store:
                a.store[k] = v

    def e_ConditionalOperator(self, e, st):
        c, t, f = e['inner']
        out = []
        for cv, s in self.ev(c, st):
            cv = z3.simplify(self.boolify(self.rv(cv, s)))
            if z3.is_true(cv):
                out.extend(self.ev(t, s))
                continue
            if z3.is_false(cv):
                out.extend(self.ev(f, s))
                continue
            ft, ff = self.feasible(s, cv), self.feasible(s, z3.Not(cv))
            rt, rf = [], []
            if ft:
                s1 = s.clone()
                s1.pc.append(cv)
                n1 = len(s1.pc)
                rt = self.ev(t, s1)
            if ff:
                s2 = s.clone()
                s2.pc.append(z3.Not(cv))
                n1 = len(s2.pc)
                rf = self.ev(f, s2)
            if len(rt) == 1 and len(rf) == 1 and self.same_store(s, rt[0][1]) and self.same_store(s, rf[0][1]):
                a, sa = rt[0]
                b, sb = rf[0]
                a, b = self.rv(a, sa), self.rv(b, sb)
                if z3.is_expr(a) and z3.is_expr(b) and a.sort().eq(b.sort()):
                    self.merge_store(s, sa)
                    self.merge_store(s, sb)
                    for fct in sa.pc[n1:]:
                        s.assume(z3.Implies(cv, fct))
                    for fct in sb.pc[n1:]:
                        s.assume(z3.Implies(z3.Not(cv), fct))
                    out.append((z3.If(cv, a, b), s))
                    continue
            out.extend(rt)
            out.extend(rf)
        return out

    def e_CompoundAssignOperator(self, e, st):
        op = e['opcode'][:-1]
        l, r = e['inner']
        ct = ctype(tstr(e['type']))
        cct = ctype(tstr(e['computeResultType'])) if 'computeResultType' in e else ct
        out = []
        for b, s in self.ev(r, st):
            b = self.rv(b, s)
            for lv, s2 in self.ev(l, s):
                a = self.rv(lv, s2)
                if isinstance(a, Iter):
                    self.write(lv, self.iter_add(a, b if op == '+' else -b, s2), s2)
                    out.append((lv, s2))
                    continue
                v = self.binop(op, a, b, cct if cct[0] == 'int' else ct, s2)
                if ct[0] == 'int':
                    v = self.wrap(s2, v, ct)
                self.write(lv, v, s2)
                out.append((lv, s2))
        return out

    def e_ArraySubscriptExpr(self, e, st):
        out = []
        for (a, i), s in self.ev_list(e['inner'], st):
            i = z3.simplify(self.rv(i, s))
            if isinstance(a, LV) and a.ct and a.ct[0] == 'vec':
                self.oblige(s, 'index of an array in range', z3.And(0 <= i, i < so.vlen(a.ct, self.load(a, s))))
                out.append((a.f(('i', i), a.ct[1]), s))
                continue
            if isinstance(a, LV) and a.ct and a.ct[0] == 'arr' and not z3.is_int_value(i):
                self.oblige(s, 'index of an array in range', z3.And(0 <= i, i < a.ct[2]))
                for c in range(a.ct[2]):
                    if self.feasible(s, i == c):
                        s2 = s.clone()
                        s2.assume(i == c)
                        out.append((self.d.array_sub(self, a, z3.IntVal(c), e, s2), s2))
                continue
            out.append((self.d.array_sub(self, a, i, e, s), s))
        return out

    def e_CXXDefaultArgExpr(self, e, st):
        return [('default', st)]

    def e_CXXDefaultInitExpr(self, e, st):
        raise Unsupported('default member initialiser')

    def e_ImplicitValueInitExpr(self, e, st):
        ct = ctype(tstr(e['type']))
        return [(self.default_value(ct, st), st)]

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_InitListExpr(self, e, st):
        ct = ctype(tstr(e['type']))
        out = []
        for vs, s in self.ev_list(e.get('inner', []), st):
            vs = [self.rv(v, s) for v in vs]
            out.append((ListV(vs, ct), s))
        return out

    def e_CXXStdInitializerListExpr(self, e, st):
        return self.ev(e['inner'][0], st)

    def default_value(self, ct, st):
        k = ct[0]
        if k in ('int', 'enum', 'mpz'):
            return z3.IntVal(0)
        if k == 'bool':
            return FALSE
        if k == 'mpq':
            return z3.RealVal(0)
        if is_e(ct):
            return SNULL if ct[0] == 'cls' else NULLP
        if k == 'vec':
            return mk(ct, z3.IntVal(0), self.fresh(z3.ArraySort(I, sort(ct[1])), 'ar'))
        if k == 'map':
            ks = sort(ct[1])
            if ct[2][0] in ('int', 'enum', 'bool') or is_e(ct[2]):
                val = z3.K(ks, self.default_value(ct[2], st))
            else:
                val = self.fresh(z3.ArraySort(ks, sort(ct[2])), 'mv')
            return mk(ct, z3.K(ks, FALSE), val, z3.IntVal(0))
        if k == 'set':
            return mk(ct, z3.K(sort(ct[1]), FALSE), z3.IntVal(0))
        if k == 'pair':
            return mk(ct, self.default_value(ct[1], st), self.default_value(ct[2], st))
        if k == 'str':
            return self.d.cstr(self, '')
        if k == 'stream':
            return Stream()
        if k == 'iter':
            return None
        if k == 'ptr':
            return NullPtr()
        if k == 'cls' and ct[1] not in so.SINGLETONS:
            r = self.construct_cls(ct, [], {'ctorType': {'qualType': 'void ()'}}, st)
            if len(r) == 1:
                v, s2 = r[0]
                if s2 is not st:
                    st.store, st.pc, st.trace = s2.store, s2.pc, s2.trace
                return v
        raise Unsupported('default value of %r' % (ct,))

    # ---- construction ---------------------------------------------------------------
    def e_CXXConstructExpr(self, e, st):
        ct = ctype(tstr(e['type']))
        args = [a for a in e.get('inner', [])]
        out = []
        for vs, s in self.ev_list(args, st):
            vs = [v for v in vs if not (isinstance(v, str) and v == 'default')]
            out.extend(self.construct(ct, vs, e, s))
        return out

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXNewExpr(self, e, st):
        return self.d.new(self, e, st)

    def construct(self, ct, vs, e, st):
        r = self.d.construct(self, ct, vs, e, st)
        if r is not None:
            return r
        k = ct[0]
        if len(vs) == 1 and k not in ('vec',):
            ctor = e.get('ctorType', {}).get('qualType', '')
            v = self.rv(vs[0], st)
            at = ctype(ctor[ctor.index('(') + 1:-1].replace(' noexcept', '')) if '(' in ctor and ctor.rstrip().endswith(')') else None
            if at is not None and at[0] == 'ref' and strip_ref(at) == ct:
                if ct[0] == 'cls' and z3.is_expr(v) or ct[0] != 'cls':
                    return [(v, st)]
            if isinstance(v, (Iter, Obj, Stream)):
                return [(v, st)]
        if k == 'vec':
            return self.construct_vec(ct, vs, e, st)
        if not vs and k in ('map', 'set', 'pair', 'iter', 'stream'):
            return [(self.default_value(ct, st), st)]
        if k == 'pair' and len(vs) == 2:
            a = self.pack(self.conv(self.rv(vs[0], st), ct[1], st), ct[1])
            b = self.pack(self.conv(self.rv(vs[1], st), ct[2], st), ct[2])
            return [(mk(ct, a, b), st)]
        if k in ('pair', 'map', 'set') and len(vs) == 1:
            v = self.rv(vs[0], st)
            if z3.is_expr(v) and v.sort().eq(sort(ct)):
                return [(v, st)]
            if k == 'pair' and z3.is_expr(v):   # converting pair constructor
                return [(self.conv_pair(v, ct), st)]
        if k == 'iter' and len(vs) == 1:
            return [(self.rv(vs[0], st), st)]
        if k == 'str':
            return self.d.construct_str(self, vs, e, st)
        if k == 'cls':
            return self.construct_cls(ct, vs, e, st)
        raise Unsupported('construction of %r from %d arguments' % (ct, len(vs)))

    def conv_pair(self, v, ct):
        c = v.sort().constructor(0)
        a, b = v.sort().accessor(0, 0)(v), v.sort().accessor(0, 1)(v)
        if z3.is_app(v) and v.decl().eq(c):
            a, b = v.arg(0), v.arg(1)
        return mk(ct, a, b)

    def conv(self, v, ct, st):
        if isinstance(v, NullPtr):
            return self.d.null_of(ct)
        return v

    def construct_vec(self, ct, vs, e, st):
        et = ct[1]
        if not vs:
            return [(self.default_value(ct, st), st)]
        vals = [self.rv(v, st) for v in vs]
        if len(vals) == 1 and isinstance(vals[0], ListV):
            arr = self.fresh(z3.ArraySort(I, sort(et)), 'ar')
            for i, x in enumerate(vals[0].items):
                arr = z3.Store(arr, i, self.pack(self.conv(self.rv(x, st), et, st), et))
            return [(mk(ct, z3.IntVal(len(vals[0].items)), arr), st)]
        if len(vals) == 1 and z3.is_expr(vals[0]) and vals[0].sort().eq(sort(ct)):
            return [(vals[0], st)]
        if len(vals) == 1 and z3.is_int(vals[0]):      # count
            v = self.fresh_of(ct, 'vec', st)
            st.assume(so.vlen(ct, v) == vals[0])
            j = z3.Int('j!q')
            st.assume(z3.ForAll([j], z3.Select(acc(ct, 'arr', v), j) == self.pack(self.default_value(et, st), et),
                                patterns=[z3.Select(acc(ct, 'arr', v), j)]))
            return [(v, st)]
        if len(vals) == 2 and isinstance(vals[0], Iter) and isinstance(vals[1], Iter):
            src = self.load(vals[0].cont, st)
            n = z3.simplify(vals[1].pos - vals[0].pos)
            self.oblige(st, 'iterator range of the vector is valid', z3.And(n >= 0, vals[0].pos >= 0, vals[1].pos <= so.vlen(vals[0].cont.ct, src)))
            v = self.fresh_of(ct, 'vec', st)
            st.assume(so.vlen(ct, v) == n)
            self.copy_fact(ct, v, z3.IntVal(0), src, vals[0], n, st)
            return [(v, st)]
        raise Unsupported('vector construction')

    def copy_fact(self, ct, dst, at, src, it, n, st):
        """dst[at+j] = src[it+j] for 0<=j<n"""
        j = z3.Int('j!q')
        sct = it.cont.ct
        sa = acc(sct, 'arr', src)
        if it.rev:
            rhs = z3.Select(sa, so.vlen(sct, src) - 1 - (it.pos + (j - at)))
        else:
            rhs = z3.Select(sa, it.pos + (j - at))
        da = acc(ct, 'arr', dst)
        st.assume(z3.ForAll([j], z3.Implies(z3.And(at <= j, j < at + n), z3.Select(da, j) == rhs),
                            patterns=[z3.Select(da, j)]))

    def construct_cls(self, ct, vs, e, st):
        fn = self.find_ctor(ct, e, len(vs))
        if fn is None:
            if not vs:
                return [(self.fresh_of(ct, 'obj', st), st)]
            raise Unsupported('constructor of %s' % ct[1])
        for prm in fn.params[len(vs):]:
            vs = vs + [self.default_arg(fn, prm, None, st)]
        c = self.d.contract(fn)
        if c is not None and fn is not self.curfn_obj():
            return self.apply_contract(c, fn, None, vs, st, e)
        return self.run_ctor(fn, ct, vs, st)

    def curfn_obj(self):
        return self.frames[0][1] if self.frames else None

    def find_ctor(self, ct, e, n=None):
        want = e.get('ctorType', {}).get('qualType')
        name = ct[1].rsplit('::', 1)[-1]
        q = 'ethos::' + ct[1] + '::' + name
        if want is None:     # constructed in place
            c = [f for f in self.p.by_qual.get(q, []) if len(f.params) == n]
            return c[0] if len(c) == 1 else None
        c = [f for f in self.p.by_qual.get(q, []) if f.node['type']['qualType'] == want]
        if c:
            return c[0]
        return None

    def run_ctor(self, fn, ct, vs, st):
        """inline a constructor of a value class"""
        if self.inline_depth > 12:
            raise Unsupported('inlining too deep')
        self.inlined.add(fn.qual)
        srt = sort(ct)
        lv = self.tmp(self.fresh_of(ct, 'new_' + ct[1], st), ct, st)
        res = []
        for tag, s, _ in self.run_body(fn, lv, vs, st, ctor_lv=lv):
            res.append((self.load(lv, s), s))
        return res

    def ctor_inits(self, fn, lv, st):
        states = [st]
        for ini in fn.inits:
            nxt = []
            for s in states:
                if 'anyInit' in ini:
                    name = ini['anyInit'].get('name')
                    if not name:
                        nxt.append(s)
                        continue
                    fct = ctype(tstr(ini['anyInit']['type']))
                    if ini['inner'][0]['kind'] == 'CXXDefaultInitExpr' and fct[0] == 'vec':
                        self.write(self.d.obj_member(self, s, lv, name, fct) if isinstance(lv, Obj) else lv.f(('f', name), fct), self.d.zero_array(fn, ini, fct), s)
                        nxt.append(s)
                        continue
                    for v, s2 in self.ev(ini['inner'][0], s):
                        if isinstance(lv, Obj):
                            tgt = self.d.obj_member(self, s2, lv, name, fct)
                        else:
                            tgt = lv.f(('f', name), fct)
                        v = self.rv(v, s2)
                        if isinstance(v, ListV):
                            v = self.construct(fct, [v], {}, s2)[0][0]
                        if isinstance(tgt, LV) and tgt.root[0] == 'e':
                            self.write(tgt, v, s2)
                        elif isinstance(tgt, LV):
                            if (isinstance(tgt.path, tuple) and isinstance(lv, LV) and lv.ct and lv.ct[0] == 'cls' and not so.transparent(lv.ct)
                                    and name not in dict(so.fields(lv.ct))):
                                pass   # a field without a sort
                            else:
                                self.write(tgt, v, s2)
                                self.d.after_init(self, lv, name, v, s2)
                        nxt.append(s2)
                elif 'baseInit' in ini:
                    nxt.extend(self.d.base_init(self, ini, lv, s))
                else:
                    raise Unsupported('delegating constructor')
            states = nxt
        return states

    # ---- calls ------------------------------------------------------------------------
    def call_args(self, nodes, st):
        return self.ev_list(nodes, st)

    def e_CallExpr(self, e, st):
        fnode = e['inner'][0]
        out = []
        for fv, s in self.ev(fnode, st):
            if not isinstance(fv, FnRef):
                raise Unsupported('call through a pointer')
            early = self.d.pre_call(self, fv.node, e, s)
            if early is not None:
                out.extend(early)
                continue
            for args, s2 in self.call_args(e['inner'][1:], s):
                out.extend(self.do_call(fv.node, None, args, e, s2))
        return out

    def e_CXXOperatorCallExpr(self, e, st):
        fnode = e['inner'][0]
        while fnode['kind'] != 'DeclRefExpr':
            fnode = fnode['inner'][0]
        rd = fnode['referencedDecl']
        op = rd['name']
        r = self.d.pre_operator(self, op, e, st)
        if r is not None:
            return r
        out = []
        argn = e['inner'][1:]
        order = argn
        if op == 'operator=':
            res = []
            for b, s in self.ev(argn[1], st):
                for a, s2 in self.ev(argn[0], s):
                    res.append(([a, b], s2))
        else:
            res = self.call_args(argn, st)
        for args, s in res:
            out.extend(self.operator(op, rd, args, argn, e, s))
        return out

    def operator(self, op, rd, args, argn, e, st):
        at = [strip_ref(ctype(tstr(a['type']))) for a in argn]
        r = self.d.operator(self, op, args, at, e, st)
        if r is not None:
            return r
        r = self.lib_operator(op, args, at, e, st)
        if r is not None:
            return r
        fn, decl = self.p.lookup_decl(self.frame[1].tu, rd['id'])
        if rd['kind'] == 'CXXMethodDecl':
            return self.do_call(rd, args[0], args[1:], e, st)
        return self.do_call(rd, None, args, e, st)

    def e_CXXMemberCallExpr(self, e, st):
        out = []
        me = e['inner'][0]
        while me['kind'] != 'MemberExpr':
            me = me['inner'][0]
        r = self.d.pre_member_call(self, me, e, st)
        if r is not None:
            return r
        for bm, s in self.ev(me, st):
            for args, s2 in self.call_args(e['inner'][1:], s):
                out.extend(self.member_call(bm, args, e, s2))
        return out

    def member_call(self, bm, args, e, st):
        this = bm.this
        bct = strip_ref(bm.basect)
        if bm.arrow:
            if isinstance(this, LV):
                this = self.load(this, st)
            if isinstance(this, Ptr):
                this = this.lv
            if isinstance(this, NullPtr):
                self.oblige(st, 'no member of a null pointer is called', z3.BoolVal(False))
                return []
            bct = bct[1] if bct[0] == 'ptr' else bct
        args = [a for a in args if not (isinstance(a, str) and a == 'default')]
        r = self.d.method(self, bm, this, bct, args, e, st)
        if r is not None:
            return r
        if bct[0] in ('vec', 'map', 'set', 'str', 'mpz', 'mpq', 'iter', 'stream', 'pair'):
            return self.lib_method(bct, bm.name, this, args, e, st)
        did = bm.node.get('referencedMemberDecl')
        tu = self.frame[1].tu
        rd = {'id': did, 'name': bm.name, 'kind': 'CXXMethodDecl'}
        return self.do_call(rd, this, args, e, st)

    def do_call(self, rd, this, args, e, st):
        tu = self.frame[1].tu
        fn, decl = self.p.lookup_decl(tu, rd['id'])
        args = [a for a in args]
        q = tu.qual.get(rd['id'], rd.get('name'))
        r = self.d.extern(self, q, rd, this, args, e, st)
        if r is not None:
            return r
        if fn is None:
            r = self.lib_call(rd, args, e, st)
            if r is not None:
                return r
            rt = ctype(tstr(e['type']))
            if rt[0] == 'ptr' and rt[1][0] == 'stream':
                return [(Stream(), st)]
            raise Unsupported('call to %s' % q)
        # default arguments
        args = [a for a in args if not (isinstance(a, str) and a == 'default')]
        if len(args) < len(fn.params):
            for p in fn.params[len(args):]:
                args.append(self.default_arg(fn, p, decl, st))
        c = self.d.contract(fn)
        if c is not None:
            return self.apply_contract(c, fn, this, args, st, e)
        return self.inline(fn, this, args, st)

    def default_arg(self, fn, p, decl, st):
        """value of a default argument"""
        idx = fn.params.index(p)
        key = (fn.mangled, idx)
        if key not in _DEFAULTS:
            _DEFAULTS[key] = None
            for tu in [fn.tu] + list(self.p.tus.values()):
                for n in tu.decls.values():
                    if n.get('mangledName') == fn.mangled:
                        ps = [c for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl']
                        if idx < len(ps) and ps[idx].get('inner'):
                            _DEFAULTS[key] = (tu, ps[idx]['inner'][0])
                            break
                if _DEFAULTS[key]:
                    break
        if _DEFAULTS[key] is None:
            raise Unsupported('default argument of %s' % fn.qual)
        tu, ex = _DEFAULTS[key]
        self.frames.append((next(self.n), _FakeFn(tu), None))
        try:
            r = self.ev(ex, st)
        finally:
            self.frames.pop()
        return self.rv(r[0][0], st)

    def inline(self, fn, this, args, st):
        if self.inline_depth > 10 or any(f[1] is fn for f in self.frames):
            raise Unsupported('recursive or deep inlining of %s' % fn.qual)
        self.inlined.add(fn.qual)
        out = []
        for tag, s, v in self.run_body(fn, this, args, st):
            out.append((v, s))
        return out

    def run_body(self, fn, this, args, st, ctor_lv=None):
        fr = next(self.n)
        if this is not None and z3.is_expr(this) and fn.cls:
            this = self.d.this_of_term(self, this, fn.cls, st)
        if isinstance(this, LV) and not isinstance(self.peek(this, st), Obj):
            thisv = Ptr(this)
        elif isinstance(this, LV):
            thisv = self.peek(this, st)
        else:
            thisv = this
        self.frames.append((fr, fn, thisv))
        self.inline_depth += 1
        try:
            s = st
            for p, a in zip(fn.params, args):
                pct = ctype(tstr(p['type']))
                self.bind_param(p, pct, a, s)
            states = [s]
            if ctor_lv is not None:
                states = self.ctor_inits(fn, ctor_lv, s)
            out = []
            for s in states:
                if fn.body is None:
                    out.append(('r', s, None))
                    continue
                for tag, s2, v in self.exec(fn.body, s):
                    if tag in ('n', 'r'):
                        if tag == 'n':
                            v = None
                        out.append(('r', s2, v))
                    else:
                        raise Unsupported('break outside a loop')
            for tag, s2, v in out:
                self.drop_frame(s2, fr)
            return out
        finally:
            self.inline_depth -= 1
            self.frames.pop()

    def peek(self, lv, st):
        if lv.path or lv.root[0] in ('e', 'pure'):
            return None
        return st.store.get(lv.root)

    def drop_frame(self, st, fr):
        for k in [k for k in st.store if k[0] == 'v' and k[1] == fr]:
            # keep: references into the frame cannot outlive it
            del st.store[k]

    def bind_param(self, p, pct, a, st):
        if pct[0] == 'ref':
            if isinstance(a, (LV, Obj, Stream)):
                self.declare(p, st, a, pct[1])
            else:
                if isinstance(a, (ListV, CStr)):
                    a = self.construct(pct[1], [a], {}, st)[0][0]
                self.declare(p, st, self.tmp(a, pct[1], st), pct[1])
        else:
            v = self.rv(a, st)
            if isinstance(v, NullPtr):
                v = self.d.null_of(pct)
            if isinstance(v, (ListV, CStr)) and pct[0] in ('vec', 'str'):
                v = self.construct(pct, [v], {}, st)[0][0]
            self.declare(p, st, v, pct)

    # ---- contracts ------------------------------------------------------------------------
    def apply_contract(self, c, fn, this, args, st, e):
        self.used_contracts.add(fn.qual)
        self.used_fns.add(fn.mangled)
        cx = CallCtx(self, fn, this, args, st)
        for name, f in c.pre(cx):
            self.oblige(st, 'precondition of %s: %s' % (fn.qual, name), f)
            st.assume(f)
        cx.snapshot()
        for lv in c.mods(cx):
            self.havoc(lv, st)
        cx.st = st
        rct = self.ret_ct(fn)
        if fn.ctor:
            rct = ('cls', fn.cls.replace('ethos::', ''))
        if rct[0] != 'void':
            cx.res = c.result(cx, rct)
            if cx.res is None:
                if rct[0] == 'ref':
                    cx.res = self.tmp(self.fresh_of(rct[1], 'r_' + fn.node.get('name', 'f'), st), rct[1], st)
                else:
                    cx.res = self.fresh_of(rct, 'r_' + fn.node.get('name', 'f'), st)
        for name, f in c.post(cx):
            st.assume(f)
        for r, v in c.ghosts(cx):        # ghost state observes the call
            st.store[r] = v
        if c.noreturn(cx):
            return []
        return [(cx.res, st)]

    def ret_ct(self, fn):
        rt = fn.node['type']
        qt = tstr(rt)
        # the return type is the text before the parameter list
        d = 0
        for i, ch in enumerate(qt):
            if ch == '<':
                d += 1
            elif ch == '>':
                d -= 1
            elif ch == '(' and d == 0:
                return ctype(qt[:i])
        return ('void',)

    def havoc(self, lv, st):
        if isinstance(lv, LV):
            ct = lv.ct
            self.write(lv, self.fresh_of(ct, 'hv', st), st)
        elif isinstance(lv, tuple):      # a root
            ct = self.vct.get(lv)
            if ct is None and lv[0] == 'o':
                self.root_val(LV(lv, (), None), st)
                ct = self.vct.get(lv)
            if lv[0] == 'g':
                if ct is None:
                    ct = ('garr', self.d.garr(self, st, lv[1], I).sort())
                st.store[lv] = self.fresh(ct[1], 'hv')
            else:
                st.store[lv] = self.fresh_of(ct, 'hv', st)

    # ---- statements --------------------------------------------------------------------------
    def exec(self, n, st):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the generator used up')
        k = n.get('kind')
        if k is None:
            return [('n', st, None)]
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n, st)
        return [('n', s, None) for _, s in self.ev(n, st)]

    def exec_seq(self, stmts, st):
        cur = [st]
        out = []
        for x in stmts:
            nxt = []
            for s in cur:
                for tag, s2, v in self.exec(x, s):
                    if tag == 'n':
                        nxt.append(s2)
                    else:
                        out.append((tag, s2, v))
            cur = nxt
            if len(cur) + len(out) > self.max_paths:
                raise Unsupported('too many paths')
            if not cur:
                break
        out.extend(('n', s, None) for s in cur)
        return out

    def s_CompoundStmt(self, n, st):
        return self.exec_seq(n.get('inner', []), st)

    def s_NullStmt(self, n, st):
        return [('n', st, None)]

    def s_AttributedStmt(self, n, st):
        return self.exec(n['inner'][-1], st)

    def s_BreakStmt(self, n, st):
        return [('b', st, None)]

    def s_ContinueStmt(self, n, st):
        return [('c', st, None)]

    def s_ReturnStmt(self, n, st):
        if not n.get('inner'):
            return [('r', st, None)]
        out = []
        fn = self.frame[1]
        rct = self.ret_ct(fn)
        for v, s in self.ev(n['inner'][0], st):
            if rct[0] != 'ref':
                v = self.rv(v, s)
                if isinstance(v, NullPtr):
                    v = self.d.null_of(rct)
                if isinstance(v, (ListV, CStr)):
                    v = self.construct(rct, [v], {}, s)[0][0]
            out.append(('r', s, v))
        return out

    def s_DeclStmt(self, n, st):
        states = [st]
        for d in n.get('inner', []):
            if d['kind'] != 'VarDecl':
                if d['kind'] in ('TypedefDecl', 'UsingDecl', 'UsingDirectiveDecl', 'TypeAliasDecl', 'StaticAssertDecl'):
                    continue
                raise Unsupported('declaration %s' % d['kind'])
            ct = ctype(tstr(d['type']))
            if d.get('storageClass') == 'static' and not tstr(d['type']).startswith('const'):
                raise Unsupported('static local variable %s' % d.get('name'))
            nxt = []
            if ct == ('cls', 'ExprTrie'):
                for s in states:
                    self.declare(d, s, self.d.local_trie(self, s), ct)
                return [('n', s, None) for s in states]
            for s in states:
                init = [c for c in d.get('inner', []) if c.get('kind') and not c['kind'].endswith('Attr')]
                if not init:
                    self.declare(d, s, None, ct)
                    nxt.append(s)
                    continue
                for v, s2 in self.ev(init[0], s):
                    if ct[0] == 'ref':
                        if isinstance(v, (LV, Obj, Stream)):
                            self.declare(d, s2, v, ct[1])
                        else:
                            self.declare(d, s2, self.tmp(v, ct[1], s2), ct[1])
                    else:
                        v = self.rv(v, s2)
                        if isinstance(v, NullPtr):
                            v = self.d.null_of(ct)
                        if isinstance(v, (ListV, CStr)) and ct[0] in ('vec', 'str', 'pair', 'set', 'map'):
                            v = self.construct(ct, [v], {}, s2)[0][0]
                        self.declare(d, s2, v, ct)
                    nxt.append(s2)
            states = nxt
        return [('n', s, None) for s in states]

    def branch(self, cond, st):
        """(true states, false states)"""
        c = z3.simplify(self.boolify(cond))
        if z3.is_true(c):
            return [st], []
        if z3.is_false(c):
            return [], [st]
        t, f = self.feasible(st, c), self.feasible(st, z3.Not(c))
        if t and f:
            s2 = st.clone()
            st.pc.append(c)
            s2.pc.append(z3.Not(c))
            return [st], [s2]
        if t:
            st.pc.append(c)
            return [st], []
        if f:
            st.pc.append(z3.Not(c))
            return [], [st]
        return [], []

    def s_IfStmt(self, n, st):
        inner = list(n['inner'])
        states = [st]
        if n.get('hasInit'):
            states = [s for _, s, _ in self.exec(inner.pop(0), st)]
        if n.get('hasVar'):
            d = inner.pop(0)
            nxt = []
            for s in states:
                nxt.extend(x[1] for x in self.exec(d, s))
            states = nxt
        cond, then = inner[0], inner[1]
        els = inner[2] if len(inner) > 2 else None
        out = []
        for s in states:
            for cv, s2 in self.ev(cond, s):
                ts, fs = self.branch(self.rv(cv, s2), s2)
                for t in ts:
                    t.trace.append('L%s then' % loc_of(n))
                    out.extend(self.exec(then, t))
                for f in fs:
                    f.trace.append('L%s else' % loc_of(n))
                    if els is not None:
                        out.extend(self.exec(els, f))
                    else:
                        out.append(('n', f, None))
        return out

    def s_SwitchStmt(self, n, st):
        inner = list(n['inner'])
        if n.get('hasInit') or n.get('hasVar'):
            raise Unsupported('switch with initialiser')
        cond, body = inner[0], inner[1]
        stmts = body.get('inner', []) if body['kind'] == 'CompoundStmt' else [body]
        groups = []      # (values or None for default, index, first statement)
        flat = []
        for x in stmts:
            vals, dflt = [], False
            while x.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if x['kind'] == 'CaseStmt':
                    if len(x['inner']) != 2:
                        raise Unsupported('case range')
                    vals.append(x['inner'][0])
                    x = x['inner'][1]
                else:
                    dflt = True
                    x = x['inner'][0]
            if vals or dflt:
                groups.append((vals, dflt, len(flat)))
            flat.append(x)
        out = []
        for cv, s in self.ev(cond, st):
            cv = self.rv(cv, s)
            allv = []
            plan = []
            dfl = None
            for vals, dflt, idx in groups:
                vs = []
                for v in vals:
                    r = self.ev(v, s)
                    vs.append(self.rv(r[0][0], s))
                allv.extend(vs)
                if dflt:
                    dfl = (idx, vs)
                elif vs:
                    plan.append((z3.Or([cv == v for v in vs]) if len(vs) > 1 else cv == vs[0], idx))
            others = [v for v in allv if dfl is None or not any(v.eq(x) for x in dfl[1])]
            none = z3.And([cv != v for v in others]) if others else TRUE
            plan.append((none, dfl[0] if dfl is not None else None))
            for c, idx in plan:
                c = z3.simplify(c)
                if z3.is_false(c) or not self.feasible(s, c):
                    continue
                s2 = s.clone()
                s2.assume(c)
                s2.trace.append('L%s case %s' % (loc_of(n), c if idx is not None else 'none'))
                if idx is None:
                    out.append(('n', s2, None))
                    continue
                for tag, s3, v in self.exec_seq(flat[idx:], s2):
                    out.append(('n' if tag == 'b' else tag, s3, v))
        return out

    # ---- loops ---------------------------------------------------------------------------------
    def s_ForStmt(self, n, st):
        init, _, cond, inc, body = n['inner']
        out = []
        for tag, s, v in self.exec(init, st) if init.get('kind') else [('n', st, None)]:
            out.extend(self.loop(n, s, cond if cond.get('kind') else None, inc if inc.get('kind') else None, body))
        return out

    def s_WhileStmt(self, n, st):
        inner = n['inner']
        if len(inner) != 2:
            raise Unsupported('while with declaration')
        return self.loop(n, st, inner[0], None, inner[1])

    def s_DoStmt(self, n, st):
        body, cond = n['inner']
        return self.loop(n, st, cond, None, body, dowhile=True)

    def s_CXXForRangeStmt(self, n, st):
        inner = n['inner']
        # [init], range decl, begin, end, cond, inc, loop variable, body
        rng = inner[1]['inner'][0]
        var = inner[6]['inner'][0]
        body = inner[7]
        out = []
        rinit = [c for c in rng.get('inner', [])][0]
        for v, s in self.ev(rinit, st):
            ct = strip_ref(ctype(tstr(rinit['type'])))
            if isinstance(v, ListV):
                v = self.construct(('vec', v.ct[1]), [v], {}, s)[0][0]
                ct = ('vec', ct[1])
            lv = v if isinstance(v, LV) else self.tmp(v, ct, s)
            if ct[0] == 'vec' or ct[0] == 'str':
                out.extend(self.loop_range_vec(n, s, lv, ct, var, body))
            elif ct[0] in ('map', 'set'):
                out.extend(self.loop_range_map(n, s, lv, ct, var, body))
            else:
                raise Unsupported('range over %r' % (ct,))
        return out

    def loop_range_vec(self, n, st, lv, ct, var, body):
        idx = ('t', next(self.n))
        self.vct[idx] = ('int', 64, False)
        st.store[idx] = z3.IntVal(0)
        if ct[0] == 'str':
            ct = ('vec', ('int', 8, True))
        vct = ctype(tstr(var['type']))

        def cond(s):
            vec = self.load(lv, s)
            return [(s.store[idx] < so.vlen(ct, vec), s)]

        def pre(s):
            el = LV(lv.root, lv.path + (('i', s.store[idx]),), ct[1])
            if vct[0] == 'ref':
                self.declare(var, s, el, vct[1])
            else:
                self.declare(var, s, self.load(el, s), vct)

        def inc(s):
            s.store[idx] = z3.simplify(s.store[idx] + 1)
            return [s]
        vec0 = self.load(lv, st)
        return self.loop(n, st, cond, inc, body, pre=pre, idx=idx, seq=(ct, lv))

    def loop_range_map(self, n, st, lv, ct, var, body):
        ks = sort(ct[1])
        done = ('t', next(self.n))
        self.vct[done] = ('ghostset', ct[1])
        st.store[done] = z3.K(ks, FALSE)
        vct = ctype(tstr(var['type']))
        m0 = self.load(lv, st)
        dom = acc(ct, 'dom', m0)
        keyroot = ('t', next(self.n))

        def cond(s):
            k = self.fresh(ks, 'key')
            s.store[keyroot] = k
            s2 = s.clone()
            q = z3.Const('k!q', ks)
            s.assume(z3.And(z3.Select(dom, k), z3.Not(z3.Select(s.store[done], k))))
            s2.assume(z3.ForAll([q], z3.Select(dom, q) == z3.Select(s2.store[done], q),
                                patterns=[z3.Select(dom, q), z3.Select(s2.store[done], q)]))
            return [(TRUE, s), (FALSE, s2)]

        def pre(s):
            k = s.store[keyroot]
            if ct[0] == 'set':
                self.declare(var, s, k, strip_ref(vct))
                return
            pct = ('pair', ct[1], ct[2])
            if vct[0] == 'ref':
                self.declare(var, s, self.MapEntry(Iter('map', lv, k, False, FALSE), ct), pct)
                return
            val = z3.Select(acc(ct, 'val', self.load(lv, s)), k)
            self.declare(var, s, mk(pct, k, val), pct)

        def inc(s):
            s.store[done] = z3.Store(s.store[done], s.store[keyroot], TRUE)
            return [s]
        return self.loop(n, st, cond, inc, body, pre=pre, idx=done, seq=(ct, lv), done=done)

    def loop_cond(self, cond, s):
        if cond is None:
            return [(TRUE, s)]
        if callable(cond):
            return cond(s)
        return [(self.boolify(self.rv(v, s2)), s2) for v, s2 in self.ev(cond, s)]

    def loop_inc(self, inc, s):
        if inc is None:
            return [s]
        if callable(inc):
            return inc(s)
        return [s2 for _, s2 in self.ev(inc, s)]

    def run_iter(self, s, cond, inc, body, pre, dowhile):
        """one iteration; returns (again states, exit states, returns)"""
        again, exits, rets = [], [], []
        if dowhile:
            starts = [s]
        else:
            starts = []
            for c, s2 in self.loop_cond(cond, s):
                ts, fs = self.branch(c, s2)
                starts += ts
                exits += fs
        for s1 in starts:
            if pre:
                pre(s1)
            for tag, s2, v in self.exec(body, s1):
                if tag in ('n', 'c'):
                    for s3 in self.loop_inc(inc, s2):
                        if dowhile:
                            for c, s4 in self.loop_cond(cond, s3):
                                ts, fs = self.branch(c, s4)
                                again += ts
                                exits += fs
                        else:
                            again.append(s3)
                elif tag == 'b':
                    exits.append(s2)
                else:
                    rets.append((tag, s2, v))
        return again, exits, rets

    def loop_spec(self, n, fn):
        """the invariant attached to this loop"""
        idx = self.loop_index(n, fn)
        c = self.d.contract(fn)
        if c is None:   # inlined: the contract of the function under proof may speak about its loops
            c = self.frames and self.d.contract(self.frames[0][1])
            return c.loops.get('in ' + fn.qual) if c and isinstance(c.loops, dict) else None
        l = c.loops
        if isinstance(l, dict):
            if idx in l:
                return l[idx]
            for k, v in l.items():      # a loop that mentions all of these names
                if isinstance(k, str) and k.startswith('range '):
                    if n['kind'] == 'CXXForRangeStmt' and mentions(n['inner'][1], k.split()[1:]):
                        return v
                elif isinstance(k, str) and mentions(n, k.split()):
                    return v
            return None
        if idx < len(l):
            return l[idx]
        return None

    def loop_index(self, n, fn):
        key = fn.mangled or id(fn)
        if key not in self.loopno:
            ids = []

            def walk(x):
                if not isinstance(x, dict):
                    return
                if x.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
                    ids.append(x['id'])
                for c in x.get('inner', []):
                    walk(c)
            walk(fn.body)
            self.loopno[key] = ids
        return self.loopno[key].index(n['id'])

    def loop(self, n, st, cond, inc, body, pre=None, idx=None, seq=None, dowhile=False, done=None):
        fn = self.frame[1]
        fr = self.frame[0]
        # concrete unrolling of loops whose exit is decided on every path
        un = self.try_unroll(n, st, cond, inc, body, pre, dowhile)
        if un is not None:
            return un
        spec = self.loop_spec(n, fn)
        lname = '%s loop %d' % (fn.qual, self.loop_index(n, fn) + 1)
        if spec is None and self.record and lname not in self.weak:
            self.weak.append(lname)
        if spec == 'auto':
            spec = None
        entry = st.clone()
        # --- which locations does the loop modify?  (least set closed under the body)
        mod = set()
        rec, self.record = self.record, False
        try:
            for _ in range(8):
                s = entry.clone()
                self.havoc_keys(mod, s)
                base = dict(s.store)
                a, x, r = self.run_iter(s, cond, inc, body, pre, dowhile)
                new = set()
                for s2 in a + ([] if not dowhile else []):
                    for k, v in s2.store.items():
                        if k in base and k not in mod and not (base[k] is None and v is None) and not same_val(base[k], v):
                            new.add(k)
                        elif k not in base and k in self.init_vals and not same_val(self.init_vals[k], v):
                            entry.store[k] = self.init_vals[k]
                            new.add(k)
                if not new:
                    break
                mod |= new
            else:
                raise Unsupported('loop frame does not stabilise')
        finally:
            self.record = rec

        def inv_of(s, head=None):
            cx = LoopCtx(self, s, entry, fr, s.store.get(idx) if idx else None, seq, mod,
                         s.store.get(done) if done else None)
            cx.head = head
            out = list(self.auto_inv(mod, s, entry, fr))
            if idx is not None and done is None:
                cur = s.store[idx]
                ct, lv = seq
                out.append(('index range', z3.And(cur >= 0, cur <= so.vlen(ct, self.load(lv, s)))))
            if spec is not None:
                try:
                    out += list(spec(cx))
                except NameMissing as ex:
                    self.unresolved.append('%s: %s' % (lname, ex))
            return out
        # automatic candidates are kept only if they are inductive (Houdini)
        self.cands = getattr(self, 'cands', {})
        ckey = (n['id'], len(self.frames), id(entry))
        good = self.houdini(n, entry, mod, cond, inc, body, pre, dowhile, inv_of, idx)
        # --- initialisation
        s0 = entry.clone()
        for name, f in inv_of(s0):
            if name.startswith('auto') and name not in good:
                continue
            if not name.startswith('auto'):
                self.oblige(s0, '%s: %s holds initially' % (lname, name), f)
        # --- arbitrary iteration
        s1 = entry.clone()
        self.havoc_keys(mod, s1)
        for name, f in inv_of(s1):
            if name.startswith('auto') and name not in good:
                continue
            s1.assume(f)
        if not self.feasible(s1):
            return []
        head = s1.clone()
        a, exits, rets = self.run_iter(s1, cond, inc, body, pre, dowhile)
        for s2 in a:
            for name, f in inv_of(s2, head):
                if name.startswith('auto'):
                    continue
                self.oblige(s2, '%s: %s is preserved' % (lname, name), f)
        if dowhile and False:
            pass
        return [('n', s, None) for s in exits] + rets

    def havoc_keys(self, keys, s):
        for k in sorted(keys, key=str):
            v = s.store.get(k)
            ct = self.vct.get(k)
            if isinstance(v, Iter):
                if v.kind == 'vec':
                    s.store[k] = Iter('vec', v.cont, self.fresh(I, 'it'), v.rev)
                else:
                    s.store[k] = Iter('map', v.cont, self.fresh(v.pos.sort() if v.pos is not None else sort(v.cont.ct[1]), 'itk'), False, self.fresh(B, 'itend'))
            elif ct is not None and ct[0] == 'ghostset':
                s.store[k] = self.fresh(z3.ArraySort(sort(ct[1]), B), 'done')
            elif ct is not None and ct[0] == 'iter':
                s.store[k] = None
            elif isinstance(v, (Stream,)):
                pass
            elif ct is not None and ct[0] == 'garr':
                s.store[k] = self.fresh(ct[1], str(k[1]))
            elif ct is not None:
                s.store[k] = self.fresh_of(ct, str(self.nice(k)), s)
            elif z3.is_expr(v):
                s.store[k] = self.fresh(v.sort(), 'hv')
            else:
                raise Unsupported('loop modifies %r' % (k,))

    def nice(self, k):
        for (fr, nm), l in self.names.items():
            if k in l:
                return nm
        return k[-1] if isinstance(k[-1], str) else 'h'

    def auto_inv(self, mod, s, entry, fr):
        for k in sorted(mod, key=str):
            v, v0 = s.store.get(k), entry.store.get(k)
            if isinstance(v, Iter) and isinstance(v0, Iter) and v.kind == 'vec':
                yield 'auto it>= %s' % (k,), v.pos >= v0.pos
                L = so.vlen(v.cont.ct, self.load(v.cont, s))
                yield 'auto it<= %s' % (k,), v.pos <= L
            elif z3.is_expr(v) and z3.is_expr(v0) and z3.is_int(v) and z3.is_int(v0):
                yield 'auto >= %s' % (k,), v >= v0
                yield 'auto <= %s' % (k,), v <= v0
                # bounds by other integers in scope
                for k2, w in list(s.store.items()):
                    if k2[0] == 'v' and k2[1] == fr and k2 not in mod and z3.is_expr(w) and z3.is_int(w) and self.vct.get(k2, ('',))[0] == 'int':
                        yield 'auto <= %s %s' % (k, k2), v <= w

    def houdini(self, n, entry, mod, cond, inc, body, pre, dowhile, inv_of, idx):
        s0 = entry.clone()
        cur = {}
        for name, f in inv_of(s0):
            if name.startswith('auto') and self.must(s0, f):
                cur[name] = True
        if not cur:
            return set()
        rec, self.record = self.record, False
        ur = list(self.unresolved)
        try:
            while cur:
                s1 = entry.clone()
                self.havoc_keys(mod, s1)
                for name, f in inv_of(s1):
                    if not name.startswith('auto') or name in cur:
                        s1.assume(f)
                a, x, r = self.run_iter(s1, cond, inc, body, pre, dowhile)
                bad = set()
                for s2 in a:
                    for name, f in inv_of(s2):
                        if name in cur and name not in bad and not self.must(s2, f):
                            bad.add(name)
                if not bad:
                    break
                for b in bad:
                    del cur[b]
        finally:
            self.record = rec
            self.unresolved = ur
        return set(cur)

    def try_unroll(self, n, st, cond, inc, body, pre, dowhile, limit=10):
        """unroll when the loop condition is decided by constants on every path"""
        if self.loop_spec(n, self.frame[1]) is not None:
            return None
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the generator used up')
        limit = getattr(self.d.contract(self.frames[0][1]), 'unroll', limit) if self.frames else limit
        out = []
        cur = [st.clone()]
        rec, self.record = self.record, False
        n_obs = len(self.obs)
        self.record = rec
        saved = list(self.obs)
        try:
            for it in range(limit):
                nxt = []
                for s in cur:
                    if not (dowhile and it == 0):
                        cs = self.loop_cond(cond, s)
                        starts = []
                        for c, s2 in cs:
                            c = z3.simplify(c)
                            if not (z3.is_true(c) or z3.is_false(c)):
                                if self.must(s2, c):
                                    c = TRUE
                                elif self.must(s2, z3.Not(c)):
                                    c = FALSE
                                else:
                                    self.obs = saved
                                    return None
                            if z3.is_true(c):
                                starts.append(s2)
                            else:
                                out.append(('n', s2, None))
                    else:
                        starts = [s]
                    for s1 in starts:
                        if pre:
                            pre(s1)
                        for tag, s2, v in self.exec(body, s1):
                            if tag in ('n', 'c'):
                                nxt.extend(self.loop_inc(inc, s2))
                            elif tag == 'b':
                                out.append(('n', s2, None))
                            else:
                                out.append((tag, s2, v))
                cur = nxt
                if not cur:
                    return out
        except Unsupported:
            self.obs = saved
            return None
        self.obs = saved
        return None

    # ---- standard library: assumed contracts -------------------------------------------------------
    from .stdlib import lib_method, lib_operator, lib_call, iter_add, vec_insert_range, map_lookup, MapEntry


_DEFAULTS = {}


class _FakeFn:
    def __init__(self, tu):
        self.tu = tu
        self.qual = '?'


class CallCtx:
    """view of a call for contracts (used both for callers and for the proof of the body)"""
    def __init__(self, ex, fn, this, args, st):
        self.ex, self.fn, self.this, self.args, self.st = ex, fn, this, args, st
        self.res = None
        self.old = None
        self.verifying = False      # the body is being verified (as opposed to: the function is called)

    def snapshot(self):
        self.old = self.st.clone()

    def a(self, i):
        """argument i (value in the pre state)"""
        s = self.old if self.old is not None else self.st
        v = self.ex.rv(self.args[i], s)
        if isinstance(v, NullPtr):
            v = self.ex.d.null_of(strip_ref(ctype(tstr(self.fn.params[i]['type']))))
        if isinstance(v, (ListV, CStr)):
            v = self.ex.construct(strip_ref(ctype(tstr(self.fn.params[i]['type']))), [v], {}, s)[0][0]
        return v

    def new(self, i):
        """argument i after the call (reference parameters)"""
        return self.ex.rv(self.args[i], self.st)

    def lv(self, i):
        a = self.args[i]
        if isinstance(a, LV):
            return a
        raise Unsupported('argument %d is not an lvalue' % i)

    def act(self, i):
        return strip_ref(ctype(tstr(self.fn.params[i]['type'])))

    def selfv(self):
        s = self.old if self.old is not None else self.st
        t = self.this
        if isinstance(t, Ptr):
            t = t.lv
        return self.ex.rv(t, s)

    def thislv(self):
        t = self.this
        return t.lv if isinstance(t, Ptr) else t

    def selfnew(self):
        return self.ex.rv(self.thislv(), self.st)

    def result(self):
        return self.ex.rv(self.res, self.st)

    def field(self, name, new=False):
        """field of the singleton this"""
        return self.objfield(self.this if isinstance(self.this, Obj) else self.ex.rv(self.this, self.st), name, new)

    def objfield(self, obj, name, new=False):
        s = self.st if (new or self.old is None) else self.old
        m = self.ex.d.obj_member(self.ex, s, obj, name, None)
        return self.ex.rv(m, s)


class Contract:
    """base class; a contract lists what a function requires and ensures"""
    fn = None          # qualified name
    sig = None         # substring of the signature (overloads)
    nparams = None
    loops = ()
    trusted = False
    why = ''

    def pre(self, c):
        return []

    def post(self, c):
        return []

    def mods(self, c):
        return []

    def result(self, c, rct):
        return None

    def noreturn(self, c):
        return False

    def ghosts(self, c):
        return []

    def matches(self, fn):
        return (fn.qual == self.fn and (self.nparams is None or len(fn.params) == self.nparams) and
                (self.sig is None or self.sig in fn.node['type']['qualType']))
