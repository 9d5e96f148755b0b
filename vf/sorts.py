"""C++ types and their logical sorts."""
import re
from functools import lru_cache
import z3


class Unsupported(Exception):
    pass


E = z3.DeclareSort('E')            # ExprValue* / Expr / const Literal*
SNULL = z3.Const('snull', E)       # the null expression (Expr())
NULLP = z3.Const('nullp', E)       # nullptr
Str = z3.DeclareSort('Str')        # opaque symbols (std::string used as a name)
Opq = z3.DeclareSort('Opq')        # any other opaque value
I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()



def MP(*args):
    """z3.MultiPattern; the arguments are kept alive (the Python API drops them too early)"""
    keep = list(args)
    p = z3.MultiPattern(*keep)
    _keep.append(keep)
    return p


_keep = []
ENUMS = set()
INTS = {
    'int': (32, True), 'unsigned int': (32, False), 'unsigned': (32, False), 'long': (64, True),
    'unsigned long': (64, False), 'size_t': (64, False), 'std::size_t': (64, False), 'char': (8, True),
    'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True), 'unsigned short': (16, False),
    'long long': (64, True), 'unsigned long long': (64, False), 'uint32_t': (32, False), 'uint64_t': (64, False),
    'uint8_t': (8, False), 'int64_t': (64, True), 'int32_t': (32, True), 'size_type': (64, False),
    'difference_type': (64, True), 'std::streamsize': (64, True), 'ptrdiff_t': (64, True), 'mp_bitcnt_t': (64, False),
    'uint_fast8_t': (8, False), 'std::ptrdiff_t': (64, True), '__gnu_cxx::size_t':(64,False),
}
ECLASSES = {'ExprValue', 'Literal'}
OPAQUE_STR = True


def _split(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


@lru_cache(None)
def ctype(s):
    s = s.strip()
    if 'ExprTrie' in s and 'terator' in s:
        return ('ptr', ('cls', 'ExprTrie')) if not s.endswith('&') else ('ref', ('ptr', ('cls', 'ExprTrie')))
    for p in ('const ', 'volatile ', 'class ', 'struct ', 'enum ', 'typename '):
        if s.startswith(p):
            return ctype(s[len(p):])
    if s.endswith('&&'):
        return ('ref', ctype(s[:-2]))
    if s.endswith('&'):
        return ('ref', ctype(s[:-1]))
    if s.endswith('*const'):
        return ctype(s[:-5])
    if s.endswith(' const'):
        return ctype(s[:-6])
    if s.endswith('*'):
        return ('ptr', ctype(s[:-1]))
    s = s.strip()
    if s in INTS:
        return ('int',) + INTS[s]
    if s == 'bool' or s == 'std::_Bit_reference' or s == '_Bool':
        return ('bool',)
    if s == 'void':
        return ('void',)
    if s.startswith('ethos::'):
        return ctype(s[7:])
    if s.startswith('std::__cxx11::'):
        return ctype('std::' + s[14:])
    if s in ENUMS:
        return ('enum', s)
    m = re.match(r'^(?:std::)?(\w+)<(.*)>$', s)
    if m:
        n, a = m.group(1), _split(m.group(2))
        if n == 'vector':
            return ('vec', ctype(a[0]))
        if n == 'array':
            return ('vec', ctype(a[0]))
        if n in ('map', 'unordered_map'):
            return ('map', ctype(a[0]), ctype(a[1]))
        if n in ('set', 'unordered_set'):
            return ('set', ctype(a[0]))
        if n == 'pair':
            return ('pair', ctype(a[0]), ctype(a[1]))
        if n == 'basic_string':
            return ('str',)
        if n == 'initializer_list':
            return ('vec', ctype(a[0]))
        if n in ('basic_stringstream', 'basic_ostringstream') and not OPAQUE_STR:
            return ('cls', 'SStr')
        if n in ('basic_ostream', 'basic_istream', 'basic_stringstream', 'basic_ostringstream'):
            return ('stream', n)
        if n in ('unique_ptr', 'shared_ptr'):
            return ('ptr', ctype(a[0]))
        if 'iterator' in n.lower():
            return ('iter', s)
        if n == '__gmp_expr':
            return ('mpq',) if 'mpq' in a[0] else ('mpz',)
    if s in ('std::string', 'string'):
        return ('str',)
    if s in ('std::stringstream', 'std::ostringstream', 'stringstream', 'ostringstream') and not OPAQUE_STR:
        return ('cls', 'SStr')
    if s in ('std::ostream', 'std::istream', 'std::stringstream', 'ostream', 'std::ostringstream', 'OstreamVoider',
             'std::ifstream', 'istream'):
        return ('stream', s)
    if s in ('mpz_class', '__mpz_struct', 'mpz_t'):
        return ('mpz',)
    if s in ('mpq_class', '__mpq_struct', 'mpq_t'):
        return ('mpq',)
    if '__gmp_expr' in s:
        return ('mpq',) if 'mpq' in s else ('mpz',)
    if 'terator' in s:
        return ('iter', s)
    if s == 'nullptr_t' or s == 'std::nullptr_t':
        return ('nullptr',)
    if s == 'Ctx':
        return ('map', ('ptr', ('cls', 'ExprValue')), ('ptr', ('cls', 'ExprValue')))
    if re.match(r'^[\w:]+$', s):
        return ('cls', s)
    m = re.match(r'^(.*)\[(\d+)\]$', s)
    if m:
        # long arrays are sequences (their length is part of the contracts)
        return ('vec', ctype(m.group(1))) if int(m.group(2)) >= 1000 else ('arr', ctype(m.group(1)), int(m.group(2)))
    return ('unknown', s)


def strip_ref(t):
    return t[1] if t[0] == 'ref' else t


# ---- record classes -------------------------------------------------------
CLASSES = {}      # 'Literal' -> [(field, ctype)]
EXCLUDE = {('Literal', 'd_children'), ('Literal', 'd_flags'), ('Literal', 'd_rc')}
SINGLETONS = set()   # classes accessed by reference only
_cache = {}


def init(program):
    for k in program.enums:
        ENUMS.add(k.rsplit('::', 1)[0].replace('ethos::', ''))
    ctype.cache_clear()
    if not OPAQUE_STR:
        CLASSES['SStr'] = [('d_text', 'std::string'), ('d_base', 'int')]
    for q, fl in program.classes.items():
        n = q.replace('ethos::', '')
        CLASSES[n] = fl
    for q, bs in program.bases.items():
        n = q.replace('ethos::', '')
        for b in bs:
            b = b.replace('ethos::', '')
            if b in CLASSES and n in CLASSES:
                CLASSES[n] = list(CLASSES[b]) + [f for f in CLASSES[n]]


def tname(t):
    return re.sub(r'\W+', '_', '_'.join(str(x) if not isinstance(x, tuple) else tname(x) for x in t))


def is_e(t):
    return (t[0] == 'ptr' and t[1][0] == 'cls' and t[1][1] in ECLASSES) or (t[0] == 'cls' and t[1] == 'Expr')


def has_sort(t):
    try:
        sort(t)
        return True
    except Unsupported:
        return False


def fields(t):
    """sortable fields of a record class"""
    key = ('fields', t)
    if key not in _cache:
        out = []
        if t[1] not in CLASSES:
            raise Unsupported('class %s' % t[1])
        for f, ts in CLASSES[t[1]]:
            if (t[1], f) in EXCLUDE:
                continue
            ct = ctype(ts)
            if has_sort(ct):
                out.append((f, ct))
        _cache[key] = out
    return _cache[key]


def transparent(t):
    return t[0] == 'cls' and t[1] not in SINGLETONS and t[1] != 'Expr' and len(fields(t)) == 1


def canon(t):
    """all pointers to terms have the same sort"""
    if is_e(t):
        return ('ptr', ('cls', 'ExprValue'))
    if t[0] in ('vec', 'map', 'set', 'pair'):
        return (t[0],) + tuple(canon(x) for x in t[1:])
    return t


_inprog = set()


def sort(t):
    if t in _inprog:
        raise Unsupported('recursive type %r' % (t,))
    _inprog.add(t)
    try:
        return _sort(t)
    finally:
        _inprog.discard(t)


def _sort(t):
    k = t[0]
    if k in ('int', 'enum', 'mpz'):
        return I
    if k == 'bool':
        return B
    if k == 'mpq':
        return R
    if is_e(t):
        return E
    if k == 'str':
        return Str if OPAQUE_STR else sort(('vec', ('int', 8, True)))
    if t in _cache:
        return _cache[t]
    if t == ('ptr', ('int', 8, True)) and not OPAQUE_STR:
        return sort(('vec', ('int', 8, True)))     # null-terminated
    if k in ('vec', 'map', 'set', 'pair'):
        c = canon(t)
        if c != t:
            r = _cache[t] = sort(c)
            return r
    if t in PTRSORTS:
        return PTRSORTS[t]
    if k == 'vec':
        s = sort(t[1])
        D = z3.Datatype('Vec_' + tname(t[1]))
        D.declare('mk', ('len', I), ('arr', z3.ArraySort(I, s)))
    elif k == 'map':
        ks, vs = sort(t[1]), sort(t[2])
        D = z3.Datatype('Map_' + tname(t[1]) + '__' + tname(t[2]))
        D.declare('mk', ('dom', z3.ArraySort(ks, B)), ('val', z3.ArraySort(ks, vs)), ('size', I))
    elif k == 'set':
        ks = sort(t[1])
        D = z3.Datatype('Set_' + tname(t[1]))
        D.declare('mk', ('dom', z3.ArraySort(ks, B)), ('size', I))
    elif k == 'pair':
        D = z3.Datatype('Pair_' + tname(t[1]) + '__' + tname(t[2]))
        D.declare('mk', ('first', sort(t[1])), ('second', sort(t[2])))
    elif k == 'cls' and t[1] not in SINGLETONS:
        fl = fields(t)
        if len(fl) == 0 and t[1] in ('Input',):
            r = _cache[t] = z3.DeclareSort('Object_' + t[1])
            return r
        if len(fl) == 0:
            raise Unsupported('record %s without sortable fields' % t[1])
        if len(fl) == 1:
            return sort(fl[0][1])
        D = z3.Datatype('Rec_' + t[1])
        D.declare('mk', *[(f, sort(ft)) for f, ft in fl])
    else:
        raise Unsupported('no sort for type %r' % (t,))
    s = D.create()
    _cache[t] = s
    return s


PTRSORTS = {}


def acc(t, field, term):
    """accessor, simplified on constructor terms"""
    s = sort(t)
    ctor = s.constructor(0)
    for i in range(ctor.arity()):
        if s.accessor(0, i).name() == field:
            if z3.is_app(term) and term.decl().eq(ctor):
                return term.arg(i)
            return s.accessor(0, i)(term)
    raise Unsupported('no field %s in %s' % (field, t))


def upd(t, field, term, val):
    s = sort(t)
    ctor = s.constructor(0)
    args = []
    ok = False
    for i in range(ctor.arity()):
        n = s.accessor(0, i).name()
        if n == field:
            args.append(val)
            ok = True
        else:
            args.append(acc(t, n, term))
    if not ok:
        raise Unsupported('no field %s in %s' % (field, t))
    return ctor(*args)


def mk(t, *args):
    return sort(t).constructor(0)(*args)


def vlen(t, v):
    return acc(t, 'len', v)


def vsel(t, v, i):
    return z3.Select(acc(t, 'arr', v), i)
