"""Verify functions against their contracts."""
import time, os, traceback, sys, hashlib
import multiprocessing as mp
import z3
from . import sorts as so
from . import symex as sx
from . import trie
from .symex import Executor, St, CallCtx, Obj, Stream, LV, Ptr, Ob, NullPtr, NameMissing, Iter
from .sorts import ctype, sort, strip_ref, Unsupported, is_e, E
from .cast import tstr, ExtractError


def setup(ex, fn):
    """symbolic arguments of a function"""
    st = St()
    args = []
    d = ex.d
    for p in fn.params:
        pct = ctype(tstr(p['type']))
        nm = p.get('name', 'p')
        b = strip_ref(pct)
        if b[0] == 'stream' or (b[0] == 'ptr' and b[1][0] == 'stream'):
            args.append(Stream(nm))
        elif b[0] == 'cls' and b[1] in so.SINGLETONS:
            args.append(Obj(b[1]))
        elif b[0] == 'ptr' and b[1][0] == 'cls' and b[1][1] in so.SINGLETONS:
            args.append(Obj(b[1][1]))
        elif b[0] == 'ptr' and not is_e(b) and b not in so.PTRSORTS:
            # pointer to a record: never null (a precondition of the contract)
            r = ('p', nm)
            ex.vct[r] = b[1]
            ex.init_vals[r] = st.store[r] = ex.fresh_of(b[1], nm, st)
            args.append(Ptr(LV(r, (), b[1])))
        elif pct[0] == 'ref':
            r = ('p', nm)
            ex.vct[r] = b
            ex.init_vals[r] = st.store[r] = ex.fresh_of(b, nm, st)
            args.append(LV(r, (), b))
        else:
            args.append(ex.fresh_of(b, nm, st))
    this = None
    if fn.cls and not fn.static:
        c = fn.cls.replace('ethos::', '')
        if c in so.SINGLETONS:
            this = Obj(c)
        elif c in ('ExprValue', 'Literal') and not fn.ctor and ('cls', c) != getattr(d, 'value_this', None):
            this = LV(('e', z3.Const('this', E)), (), ('cls', c))
            st.assume(z3.Const('this', E) != so.NULLP)
        elif c == 'ExprValue' and fn.ctor and getattr(d, 'newborn_this', False):
            n = z3.Const('this', E)
            d.newborn[n.get_id()] = {}
            d._keep.append(n)
            this = LV(('e', n), (), ('cls', c))
            st.assume(z3.And(n != so.NULLP, n != so.SNULL))
        elif c == 'ExprTrie' and not fn.ctor:
            this = LV(('e', z3.Const('this', trie.TN)), (), ('cls', c))
            st.assume(z3.Const('this', trie.TN) != trie.TNULL)
        else:
            r = ('p', 'this')
            ct = ('cls', c)
            ex.vct[r] = ct
            ex.init_vals[r] = st.store[r] = ex.fresh_of(ct, 'this', st)
            this = LV(r, (), ct)
    return st, this, args


def gen(program, domain, c, fn, focus=None, budget=None):
    """obligations of one function"""
    ex = Executor(program, domain)
    ex.curfn = fn.qual
    ex.target = fn
    if budget:
        ex.deadline = time.time() + budget
    st, this, args = setup(ex, fn)
    cx = CallCtx(ex, fn, this, args, st)
    cx.verifying = True
    ex.topctx = cx
    for name, f in c.pre(cx):
        st.assume(f)
    for f in getattr(c, 'given', lambda c: [])(cx):
        st.assume(f)
    if focus and getattr(c, 'focus', None):
        st.assume(c.focus(cx, focus))
    ex.entry_pc = list(st.pc)
    ex.exit_pcs = []
    cx.snapshot()
    # contracts are not applied to the function being verified at the top level
    states = ex.run_body(fn, this, args, st, ctor_lv=this if fn.ctor else None)
    mods = [m for m in c.mods(cx)]
    nret = 0
    for tag, s, v in states:
        nret += 1
        cx2 = CallCtx(ex, fn, this, args, s)
        cx2.verifying = True
        cx2.old = cx.old
        cx2.st = s
        cx2.res = v if not fn.ctor else this
        for f in getattr(c, 'lemmas', lambda c: [])(cx2):
            s.assume(f)
        ex.exit_pcs.append(list(s.pc))
        for name, f in c.post(cx2):
            ex.oblige(s, 'postcondition: ' + name, f)
        # frame
        modroots = set()
        for m in mods:
            modroots.add(m.root if isinstance(m, LV) else m)
        for r, v0 in list(ex.init_vals.items()):
            if r in modroots or r not in s.store or r[0] == 'v':
                continue
            if fn.ctor and r == ('p', 'this'):
                continue
            if r in getattr(c, 'free_frame', ()):
                continue
            v1 = s.store[r]
            if not sx.same_val(v0, v1):
                ex.oblige(s, 'frame: %s unchanged' % '.'.join(str(x) for x in r[1:]), v0 == v1)
    ex.nret = nret
    return ex


def solve(obs, axioms, timeout=20000, backend='z3', retry=True, deadline=None, stop=None, smt=None):
    """discharge obligations"""
    bad = 0
    for ob in obs:
        t = time.time()
        ob.model = None
        if stop and bad >= stop or deadline and t > deadline:
            ob.status, ob.detail, ob.backend, ob.time = 'skipped', 'budget', '', 0.0
            continue
        g = z3.simplify(ob.goal)
        if z3.is_true(g):
            ob.status, ob.backend = 'proved', 'simplifier'
            ob.time = time.time() - t
            continue
        goals = conj(ob.goal)
        ob.status = 'proved'
        for gl in goals:
            r, det, mdl = check1(ob.hyps, gl, axioms, timeout, retry)
            if r != 'proved':
                ob.status, ob.detail, ob.model = r, det, mdl
                bad += 1
                break
            if det:
                ob.detail = det
        ob.backend = 'z3'
        ob.time = time.time() - t


def conj(g):
    if z3.is_and(g):
        out = []
        for c in g.children():
            out += conj(c)
        return out
    return [g]


def check1(hyps, goal, axioms, timeout, retry):
    configs = [dict(), {'smt.relevancy': 0}, {'smt.arith.solver': 2}, {'smt.random_seed': 7, 'smt.case_split': 3}] if retry else [dict()]
    last, sat = None, None
    for i, cfg in enumerate(configs):
        s = z3.SimpleSolver() if i else z3.SimpleSolver()
        s.set('timeout', timeout)
        s.set('smt.mbqi', False)
        s.set('smt.auto_config', False)
        for k, v in cfg.items():
            s.set(k, v)
        for a in axioms:
            s.add(a)
        for h in hyps:
            s.add(h)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            return 'proved', '' if i == 0 else 'strategy %d' % i, None
        reason = s.reason_unknown() if r == z3.unknown else 'sat'
        to = 'timeout' in reason or 'canceled' in reason
        m = None
        try:
            m = str(s.model())[:3000]
        except z3.Z3Exception:
            pass
        last = ('timeout' if to else 'failed', reason, m)
        if not to and sat is None:
            # saturation without a contradiction: other strategies are tried before giving up
            sat = last
    return sat or last


def vacuous(ex, axioms, limit=3):
    """are the assumptions contradictory (on entry, or on every return path)?"""
    def contra(pc):
        s = z3.SimpleSolver()
        s.set('timeout', 1500)
        s.set('smt.mbqi', False)
        s.add(*axioms)
        s.add(*pc)
        return s.check() == z3.unsat
    if contra(ex.entry_pc):
        return 'the precondition is contradictory'
    l = ex.exit_pcs
    pick = [l[0], l[-1], l[len(l) // 2]][:limit] if l else []
    if pick and all(contra(pc) for pc in pick) and all(contra(pc) for pc in l[:40]):
        return 'every return path is contradictory'
    return None


def run_one(program, domain, c, fn, timeout=10000, focus=None, budget=None, stop=3, smt=None):
    t = time.time()
    rec = {'fn': fn.qual, 'mangled': fn.mangled, 'sig': fn.node['type']['qualType'], 'contract': type(c).__name__, 'obs': [], 'used': [],
           'unresolved': [], 'weak': []}
    try:
        ex = gen(program, domain, c, fn, focus, budget and budget * 0.6)
        rec['unresolved'] = ex.unresolved
        rec['weak'] = ex.weak
        rec['gen_s'] = time.time() - t
        ax = domain.axioms + domain.qf_axioms + [a for a in getattr(c, 'axioms', [])]
        solve(ex.obs, ax, timeout, deadline=t + budget if budget else None, stop=stop, smt=smt)
        rec['obs'] = [dict(name=o.name, status=o.status, time=round(o.time, 3), backend=o.backend, detail=o.detail,
                           trace=o.trace[-12:], model=o.model, other=getattr(o, 'other', None)) for o in ex.obs]
        rec['returns'] = ex.nret
        rec['rejects'] = ex.rejects
        rec['inlined'] = sorted(ex.inlined)
        rec['contracts'] = sorted(ex.used_contracts)
        rec['used'] = sorted(ex.used_fns)
        rec['lib'] = sorted(ex.used_lib)
        rec['status'] = 'ok'
        if not ex.nret and not ex.rejects:
            rec['status'] = 'vacuous'
        v = vacuous(ex, ax)
        if v:
            rec['status'], rec['error'] = 'vacuous', v
        if ex.unresolved:
            rec['status'] = 'unresolved'
    except (Unsupported, ExtractError, NameMissing) as x:
        rec['status'] = 'unsupported'
        rec['error'] = str(x)
        rec['where'] = traceback.format_exc()[-1500:]
    except (z3.Z3Exception, KeyError, AttributeError, TypeError, IndexError, ValueError, RecursionError) as x:
        rec['status'] = 'error'
        rec['error'] = '%s: %s' % (type(x).__name__, x)
        rec['where'] = traceback.format_exc()[-2500:]
    rec['wall'] = time.time() - t
    return rec
