"""Extraction: clang's AST of the real sources of /repo, taken on every run.

Nothing is rewritten by hand: the verifier executes the AST nodes clang
produces for the current working tree (release configuration, i.e. without
EO_ASSERTIONS and EO_TRACING).  Dropped by the extraction: assertions and
trace output (both are compiled out in that configuration too).
"""
import json, os, subprocess, sys, re
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
FLAGS = ['-std=gnu++17', '-I%s/src' % REPO, '-DNDEBUG']


class ExtractError(Exception):
    pass


def _load_json_stream(s):
    d = json.JSONDecoder()
    i = 0
    out = []
    n = len(s)
    while True:
        while i < n and s[i] in ' \n\r\t':
            i += 1
        if i >= n:
            break
        if s[i] != '{':
            j = s.find('\n{', i)
            if j < 0:
                break
            i = j + 1
            continue
        o, i = d.raw_decode(s, i)
        out.append(o)
    return out


class Fn:
    """one function definition (with body)"""
    __slots__ = ('tu', 'node', 'qual', 'mangled', 'params', 'body', 'cls', 'ctor', 'inits', 'static', 'rtype')

    def __init__(self, tu, node, qual, cls):
        self.tu = tu
        self.node = node
        self.qual = qual
        self.mangled = node.get('mangledName')
        self.cls = cls
        self.params = [c for c in node.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        self.body = None
        self.inits = []
        for c in node.get('inner', []):
            if c.get('kind') == 'CompoundStmt':
                self.body = c
            elif c.get('kind') == 'CXXCtorInitializer':
                self.inits.append(c)
        self.ctor = node['kind'] == 'CXXConstructorDecl'
        self.static = node.get('storageClass') == 'static'
        qt = node['type']['qualType']
        self.rtype = qt[:qt.index('(')].strip() if '(' in qt else qt

    @property
    def line(self):
        r = self.node.get('range', {}).get('begin', {})
        return r.get('line') or r.get('expansionLoc', {}).get('line')


FUNCKINDS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')


class TU:
    def __init__(self, path):
        self.path = path
        self.decls = {}      # id -> node
        self.qual = {}       # id -> qualified name
        self.parent_cls = {} # id -> class qual
        self.fns = []        # Fn with bodies
        self.enums = {}      # 'Kind::X' -> value ; also const id -> value
        self.enum_by_id = {}
        self.classes = {}    # qual -> list of (field name, type string)
        self.bases = {}      # qual -> [base type]
        self.by_id_fn = {}

    def load(self):
        cmd = ['clang++'] + FLAGS + ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang',
               '-ast-dump-filter=ethos', self.path]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise ExtractError('clang failed on %s: %s' % (self.path, p.stderr.decode()[-400:]))
        for o in _load_json_stream(p.stdout.decode('utf8', 'replace')):
            self._walk(o, [], None)
        for f in self.fns:
            # out-of-line definitions: the class is found through the previous declaration
            if f.cls is None:
                pid = f.node.get('parentDeclContextId')
                if pid in self.qual and self.decls.get(pid, {}).get('kind') == 'CXXRecordDecl':
                    f.cls = self.qual[pid]
                    f.qual = f.cls + '::' + f.node.get('name', '')
                    self.qual[f.node['id']] = f.qual
                    prev = self.decls.get(f.node.get('previousDecl'))
                    if prev is not None and prev.get('storageClass') == 'static':
                        f.static = True
            self.by_id_fn[f.node['id']] = f
        return self

    def _walk(self, n, scope, cls):
        if not isinstance(n, dict):
            return
        k = n.get('kind', '')
        nid = n.get('id')
        if k.endswith('Decl') and nid:
            self.decls[nid] = n
        if k == 'NamespaceDecl':
            nm = n.get('name')
            for c in n.get('inner', []):
                self._walk(c, scope + ([nm] if nm else []), None)
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            nm = n.get('name', '')
            if n.get('isImplicit') or (scope and nm == scope[-1]):
                return
            q = '::'.join(scope + ([nm] if nm else []))
            self.qual[nid] = q
            if n.get('completeDefinition') and nm:
                fl = []
                self._fields(n, fl)
                self.classes[q] = fl
                self.bases[q] = [b['type']['qualType'] for b in n.get('bases', [])]
            for c in n.get('inner', []):
                self._walk(c, scope + ([nm] if nm else []), q if nm else cls)
            return
        if k == 'EnumDecl':
            q = '::'.join(scope + [n.get('name', '')])
            v = -1
            for c in n.get('inner', []):
                if c.get('kind') != 'EnumConstantDecl':
                    continue
                ev = None
                for e in c.get('inner', []):
                    if 'Comment' not in e.get('kind', '') and not e.get('kind', '').endswith('Attr'):
                        ev = _const_value(e)
                v = v + 1 if ev is None else ev
                self.enums[q + '::' + c['name']] = v
                self.enum_by_id[c['id']] = v
                self.decls[c['id']] = c
            return
        if k in FUNCKINDS:
            q = '::'.join(scope + [n.get('name', '')])
            self.qual[nid] = q
            self.parent_cls[nid] = cls
            for c in n.get('inner', []):
                if c.get('kind') == 'ParmVarDecl':
                    self.decls[c['id']] = c
            if any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])) or (
                    k == 'CXXConstructorDecl' and any(c.get('kind') == 'CXXCtorInitializer' for c in n.get('inner', []))):
                self.fns.append(Fn(self, n, q, cls))
            return
        if k == 'FunctionTemplateDecl' or k == 'ClassTemplateDecl':
            return
        if k in ('VarDecl', 'FieldDecl', 'TypedefDecl', 'TypeAliasDecl'):
            if nid:
                self.qual[nid] = '::'.join(scope + [n.get('name', '')])
            return
        for c in n.get('inner', []):
            self._walk(c, scope, cls)

    def _fields(self, n, out):
        for c in n.get('inner', []):
            if c.get('kind') == 'FieldDecl' and c.get('name'):
                out.append((c['name'], tstr(c['type'])))
            elif c.get('kind') == 'CXXRecordDecl' and not c.get('name') and c.get('tagUsed') == 'union':
                self._fields(c, out)


def _const_value(e):
    if 'value' in e and e.get('kind') in ('ConstantExpr', 'IntegerLiteral'):
        return int(e['value'])
    for c in e.get('inner', []):
        v = _const_value(c)
        if v is not None:
            return v
    return None


def tstr(t):
    return t.get('desugaredQualType') or t['qualType']


class Program:
    """all translation units of the real code"""
    def __init__(self, files=None):
        src = os.path.join(REPO, 'src')
        if files is None:
            files = []
            for root, _, fs in os.walk(src):
                for f in fs:
                    if f.endswith('.cpp'):
                        files.append(os.path.relpath(os.path.join(root, f), src))
        self.tus = {}
        with ThreadPoolExecutor(8) as ex:
            futs = {f: ex.submit(lambda p: TU(p).load(), os.path.join(src, f)) for f in files}
            for f, fu in futs.items():
                self.tus[f] = fu.result()
        self.by_mangled = {}
        self.by_qual = {}
        self.enums = {}
        self.classes = {}
        self.bases = {}
        for tu in self.tus.values():
            self.enums.update(tu.enums)
            self.classes.update(tu.classes)
            self.bases.update(tu.bases)
            for f in tu.fns:
                if f.mangled and f.mangled not in self.by_mangled:
                    self.by_mangled[f.mangled] = f
                    self.by_qual.setdefault(f.qual, []).append(f)

    def lookup_decl(self, tu, did):
        """definition for a referenced declaration id"""
        n = tu.decls.get(did)
        if n is None:
            return None, None
        m = n.get('mangledName')
        return self.by_mangled.get(m), n

    def find(self, qual, nparams=None, sig=None):
        l = self.by_qual.get(qual, [])
        if nparams is not None:
            l = [f for f in l if len(f.params) == nparams]
        if sig is not None:
            l = [f for f in l if sig in f.node['type']['qualType']]
        return l


def loc_of(n):
    b = n.get('range', {}).get('begin', {})
    for x in (b, b.get('expansionLoc', {}), b.get('spellingLoc', {})):
        if 'line' in x:
            return x['line']
    return None
