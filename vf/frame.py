"""Which functions may write a field: a syntactic frame check over the AST of
all translation units.  A mention of the field is a read if the function is a
const member function, or the field is loaded or cast to const at once."""
from .cast import tstr


def _writes(fn, cls, field):
    const = fn.node['type']['qualType'].rstrip().endswith('const') and fn.cls is not None

    def walk(x, parents):
        if not isinstance(x, dict):
            return False
        if x.get('kind') == 'MemberExpr' and x.get('name') == field:
            b = x['inner'][0]
            bt = tstr(b['type'])
            if bt.replace('const ', '').replace('ethos::', '').rstrip(' *&') == cls or bt.rstrip(' *&').endswith('::' + cls):
                if not (const and bt.startswith('const')) and not 'const ' in bt[:6]:
                    p = [q for q in parents if q.get('kind') not in ('ParenExpr',)]
                    q = p[-1] if p else {}
                    if not (q.get('kind') == 'ImplicitCastExpr' and (q.get('castKind') == 'LValueToRValue' or
                            (q.get('castKind') == 'NoOp' and tstr(q['type']).startswith('const')))):
                        return True
        return any(walk(c, parents + [x]) for c in x.get('inner', []))
    if any(walk(i, []) for i in fn.inits):
        return True
    for i in fn.inits:
        if i.get('anyInit', {}).get('name') == field and fn.cls and fn.cls.endswith('::' + cls):
            return True
    return fn.body is not None and walk(fn.body, [])


def writers(program, cls, fields):
    """field -> functions that may write it"""
    out = {f: set() for f in fields}
    for fn in program.by_mangled.values():
        for f in fields:
            if f in _names(fn) and _writes(fn, cls, f):
                out[f].add(fn.qual)
    return out


def _names(fn):
    n = getattr(fn.tu, '_mentioned', None)
    if n is None:
        n = fn.tu._mentioned = {}
    if fn.mangled not in n:
        s = set()

        def walk(x):
            if isinstance(x, dict):
                if x.get('kind') == 'MemberExpr':
                    s.add(x.get('name'))
                if x.get('kind') == 'CXXCtorInitializer':
                    s.add(x.get('anyInit', {}).get('name'))
                for c in x.get('inner', []):
                    walk(c)
        for i in fn.inits:
            walk(i)
        if fn.body is not None:
            walk(fn.body)
        n[fn.mangled] = s
    return n[fn.mangled]


def check(program, spec):
    """spec: 'Class.field' -> allowed writers; returns [(field, unexpected writers)]"""
    by = {}
    for k in spec:
        c, f = k.split('.')
        by.setdefault(c, []).append(f)
    bad = []
    for c, fs in by.items():
        known = {f for f, _ in program.classes.get('ethos::' + c, [])}
        w = writers(program, c, fs)
        for f in fs:
            if f not in known:
                bad.append((c + '.' + f, 'no such field in the current source'))
            extra = {x.replace('ethos::', '') for x in w[f]} - set(spec[c + '.' + f])
            if extra:
                bad.append((c + '.' + f, 'also written by ' + ', '.join(sorted(extra))))
    return bad


def callers(program, qual):
    """functions that mention a function"""
    out = set()
    want = {m for m, f in program.by_mangled.items() if f.qual == qual}
    for f in program.by_mangled.values():
        def walk(x):
            if not isinstance(x, dict):
                return False
            i = x.get('referencedMemberDecl') or x.get('referencedDecl', {}).get('id')
            if i:
                n = f.tu.decls.get(i)
                if n is not None and n.get('mangledName') in want:
                    return True
            return any(walk(c) for c in x.get('inner', []))
        if f.body is not None and walk(f.body) or any(walk(i) for i in f.inits):
            out.add(f.qual)
    return sorted(out)
