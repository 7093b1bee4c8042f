"""Contracts of the library functions the code under verification calls (std, Eigen, absl, RE2): the trusted base."""
import z3, re
from val import *
from engine import str_lit, xr_arith, xr_cmp, ptr_eq, has_quant, xr_arith
import engine

# uninterpreted library functions shared with the contracts
fmt6 = z3.Function('num_text', Real, Str)             # a double as printed by Substitute / operator<<
intstr = z3.Function('int_text', Int, Str)
fmtd = z3.Function('format_double', Str, Real, Str)   # absl::StrFormat with a %f format
validfmt = z3.Function('valid_f_format', Str, Bool)
sinf = z3.Function('sin', Real, Real); cosf = z3.Function('cos', Real, Real)
atan2f = z3.Function('atan2', Real, Real, Real); acosf = z3.Function('acos', Real, Real)
powf = z3.Function('pow', Real, Real, Real)
split_n = z3.Function('split_count', Str, Str, Int); split_e = z3.Function('split_piece', Str, Str, Int, Str)
sumprod = z3.Function('sum_of_products', z3.ArraySort(Int, Real), z3.ArraySort(Int, Real), Int, Real)
typename = z3.Function('type_name', Int, Str)
NOW = z3.String('now_text')
NUMVAL = z3.Function('number_written', Str, Real); NUMFITS = z3.Function('a_float_can_hold', Str, z3.BoolSort()); NUMNEG = z3.Function('starts_with_minus', Str, z3.BoolSort())
DBL_MAX = z3.RealVal(str(Fraction(1.7976931348623157e308)))
PI = z3.RealVal('3.1415926535897932')

dot3 = z3.Function('dot3', *([Real] * 7))

def flag(name, sort): return z3.Const(name, sort)

def name_of(c): return c['q'].split('::')[-1]
def val(ex, v, st): return ex.load(v, st) if isinstance(v, (LV, HLV, CLV)) else v

# ---------------------------------------------------------------- opaque types
def mk_opaque(ex, ty, name, mk):
    q = ty.q or ''
    if q in ('std::basic_istream',):
        return OP('istream', {'pos': mk(Int, name + '.pos'), 'n': mk(Int, name + '.lines'), 'broken': mk(Bool, name + '.broken'), 'ended': mk(Bool, name + '.ended'), 'line': mk(z3.ArraySort(Int, Str), name + '.line'), 'all': mk(Str, name + '.all')})
    if q in ('std::basic_ifstream', 'std::basic_ofstream'):
        return OP('fstream', {'state': z3.IntVal(0), 'open': z3.BoolVal(False), 'path': z3.StringVal(''), 'text': z3.StringVal(''), 'mode': z3.IntVal(0), 'flushed': z3.BoolVal(False)})
    if q.endswith('ExtendedParsedFormat'): return OP('fmt', {'s': mk(Str, name + '.fmt')})
    return None

def global_value(ex, g, st, ty):
    if g in ('std::cerr', 'std::cout', 'std::clog', 'stderr', 'stdout'):
        c = 'io:' + g.replace('std::', '').replace('stderr', 'cerr')
        if c not in st.cells: st.cells[c] = z3.StringVal('') if c not in ex.heap0 else ex.heap0[c]
        return LV(c)
    if g in ('std::ios_base::goodbit', 'std::ios::goodbit'): return z3.IntVal(0)
    if g.startswith('std::ios_base::') or g.startswith('std::ios::'):
        m = {'in': 8, 'out': 16, 'trunc': 32, 'app': 1, 'ate': 2, 'binary': 4, 'failbit': 4, 'badbit': 1, 'eofbit': 2}
        return z3.IntVal(m.get(g.split('::')[-1], 64))
    if g.startswith('FLAGS_'): return OP('flag', {})
    if g in ('std::basic_string::npos', 'std::basic_string_view::npos', 'absl::string_view::npos'): return z3.IntVal(2 ** 64 - 1)
    return None

# ---------------------------------------------------------------- helpers
def vec_from_list(ex, ety, l, st):
    e = ex.mk(ety, 'list', lambda sort, n: fresh(z3.ArraySort(Int, sort), n))
    for i, x in enumerate(l): e = store(e, z3.IntVal(i), ex.conv(x, ety, st))
    return V(z3.IntVal(len(l)), e, ety)

def length(v): return v.n if isinstance(v, V) else z3.Length(v)

def elem(ex, c, i, st, line, kind='index in range'):
    if isinstance(c, CLV) and not isinstance(c, PLV):
        # each alternative is only indexed when it is the one
        n0 = len(st.facts); st.facts.append(c.c); a = elem(ex, c.a, i, st, line, kind); del st.facts[n0:]
        st.facts.append(z3.Not(c.c)); b = elem(ex, c.b, i, st, line, kind); del st.facts[n0:]
        return CLV(c.c, a, b)
    v = val(ex, c, st)
    if not isinstance(c, LV): c = ex.temp(v, st)
    if isinstance(v, V):
        ex.ob(st, z3.And(0 <= i, i < v.n), kind, 'safety', line)
        return c.f(('i', i))
    if isinstance(v, A):
        s = simp(i)
        if not (z3.is_int_value(s) and 0 <= s.as_long() < len(v.v)):
            ex.ob(st, z3.And(0 <= i, i < len(v.v)), kind, 'safety', line)
        if len(v.v) == 0: raise Unsupported('empty array')
        return c.f(('i', i))
    if is_leaf(v) and v.sort() == Str:
        ex.ob(st, z3.And(0 <= i, i <= z3.Length(v)), kind, 'safety', line)
        return c.f(('i', i))
    raise Unsupported('element of %s' % type(v).__name__)

def map_elem(c, m, key):
    pt = Ty('pair', args=[m.kty, m.vty], q='std::pair')
    return PLV(key_dec(m.kty, key), c.f(('k', key)), pt)

def it_deref(ex, it, st, line):
    if it.kind == 'rvec':
        return elem(ex, it.lv, it.pos, st, line, 'iterator dereferenceable')
    if it.kind in ('vec', 'arr'):
        return elem(ex, it.lv, it.pos, st, line, 'iterator dereferenceable')
    if it.kind == 'map':
        ex.ob(st, it.found, 'iterator is not end', 'safety', line)
        return map_elem(it.lv, val(ex, it.lv, st), it.pos)
    if it.kind == 'set':
        ex.ob(st, it.found, 'iterator is not end', 'safety', line)
        return key_dec(val(ex, it.lv, st).kty, it.pos)
    raise Unsupported('iterator')

def it_cmp(ex, op, a, b, st):
    if a.kind in ('map', 'set'):
        if b.pos is None: eq = z3.Not(a.found)
        elif a.pos is None: eq = z3.Not(b.found)
        else: eq = z3.Or(z3.And(z3.Not(a.found), z3.Not(b.found)), z3.And(a.found, b.found, a.pos == b.pos))
    else:
        if op in ('<', '<=', '>', '>='): return ex.compare(op, a.pos, b.pos, st)
        eq = a.pos == b.pos
    return eq if op == '==' else z3.Not(eq)

def as_range(ex, v, st):
    if v.name == 'split':
        return split_vec(ex, v, st)
    raise Unsupported('range over %s' % v.name)
def split_vec(ex, v, st):
    t, d = v.f['text'], v.f['delim']
    i = fresh(Int, 'i')
    n = split_n(t, d)
    st.assume(n >= (0 if v.name == 'splitne' else 1), n < 2 ** 31)
    return V(n, z3.Lambda([i], split_e(t, d, i)), TSTR)

def base_array(a):
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE: a = a.arg(0)
    return a
def array_parts(a):
    """ground keys stored in an array term, and the arrays at its leaves (through stores and if-then-else)"""
    keys, bases, todo, seen = [], [], [a], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_STORE: keys.append(x.arg(1)); todo.append(x.arg(0))
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: todo += [x.arg(1), x.arg(2)]
        else: bases.append(x)
    return keys, bases
def is_empty(ex, v, st):
    """emptiness of a set or map"""
    has = v.has
    if z3.is_const_array(has): return z3.BoolVal(z3.is_false(has.arg(0)))
    kk = ('empty', has.get_id())
    if kk not in ex.enums:
        b = fresh(Bool, 'empty'); ks = key_sort(v.kty); q = fresh(ks, 'q'); w = fresh(ks, 'w')
        keys, bases = array_parts(has)
        pats = [z3.Select(x, q) for x in bases if not z3.is_const_array(x)]
        fs = [z3.Implies(z3.Not(b), z3.Select(has, w))]
        body = z3.Implies(b, z3.Not(z3.Select(has, q)))
        if pats: fs.append(z3.ForAll([q], body, patterns=pats))
        else: fs.append(z3.ForAll([q], body))
        for k in keys: fs.append(z3.Implies(b, z3.Not(z3.Select(has, k))))
        ex.enums[kk] = (b, fs, has)
    b, fs, _ = ex.enums[kk]
    have = set(f.get_id() for f in st.facts)
    for f in fs:
        if f.get_id() not in have: st.facts.append(f)
    return b

def E_str_lit(bs):
    import engine
    return engine.str_lit(bs)
def E_sqrtf(x):
    import engine
    return engine.sqrtf(x)
def sqrt(ex, x, st, sq=False):
    """square root of a non-negative real"""
    x = real(x)
    sx = simp(x)
    kk = ('sqrt', sx.get_id())
    if kk not in ex.enums: ex.enums[kk] = (fresh(Real, 'root'), sx)
    n = ex.enums[kk][0]
    if not sq and not ex.quick(st, x >= 0):
        ok = x >= 0
        st.assume(z3.Implies(ok, z3.And(n >= 0, n * n == x)))
        return XR(n, z3.If(ok, z3.IntVal(0), z3.IntVal(3)))
    st.assume(n >= 0, n * n == x)
    return n

def add(ex, a, b, st): return ex.arith('+', a, b, st, False)
def mul(ex, a, b, st): return ex.arith('*', a, b, st, False)
def dot(ex, a, b, st):
    if len(a.v) != len(b.v): raise Unsupported('dot of different sizes')
    r = None
    for x, y in zip(a.v, b.v):
        p = mul(ex, x, y, st); r = p if r is None else add(ex, r, p, st)
    return r
def zero(x): return z3.is_rational_value(x) and x.numerator_as_long() == 0
def rdot(xs, ys):
    t = []
    for x, y in zip(xs, ys):
        if is_leaf(x) and is_leaf(y):
            if zero(x) or zero(y): continue
            if z3.is_rational_value(x) and x.eq(z3.RealVal(1)): t.append(y); continue
            if z3.is_rational_value(y) and y.eq(z3.RealVal(1)): t.append(x); continue
        t.append(x * y)
    return z3.Sum(t) if len(t) > 1 else (t[0] if t else z3.RealVal(0))
def finm(ex, m, st): return M(m.r, m.c, [ex.fin(x, st) for x in m.v])
def matmul(ex, a, b, st):
    if isinstance(a, DM) or isinstance(b, DM) or isinstance(a, V) or isinstance(b, V): return dmmul(ex, a, b, st)
    a, b = finm(ex, a, st), finm(ex, b, st)
    if a.c != b.r: raise Unsupported('matrix product sizes')
    if ex.opt.get('opaque_product') and (a.r, a.c, b.r, b.c) == (1, 3, 3, 3):
        # congruence of the product is all the proof needs
        return M(1, 3, [dot3(*(list(a.v) + [b.at(k, j) for k in range(3)])) for j in range(3)])
    return M(a.r, b.c, [rdot([a.at(i, k) for k in range(a.c)], [b.at(k, j) for k in range(a.c)]) for i in range(a.r) for j in range(b.c)])
def dmmul(ex, a, b, st):
    """products of dynamic matrices: V = rows as a sequence of 1xm rows; DM('T') its transpose; DM('MT') M times the transpose"""
    if isinstance(a, DM) and a.kind in ('T', 'MT') and isinstance(b, V):
        X = a.d[-1] if a.kind == 'MT' else a.d
        if not isinstance(b.e, M): raise Unsupported('dynamic product')
        ex.ob(st, X.n == b.n, 'matrix sizes agree', 'safety')
        G = M(X.e.c, b.e.c, [sumprod(X.e.v[i], b.e.v[j], X.n) for i in range(X.e.c) for j in range(b.e.c)])
        if not ex.dry: ex.opt.setdefault('sums', []).append((X, b, G))
        return matmul(ex, a.d[0], G, st) if a.kind == 'MT' else G
    if isinstance(a, M) and isinstance(b, DM) and b.kind == 'T': return DM('MT', None, (a, b.d))
    raise Unsupported('dynamic matrix product')
def inverse(ex, m, st):
    m = finm(ex, m, st)
    n = m.r
    inv = M(n, n, [fresh(Real, 'inv') for _ in range(n * n)])
    p = matmul(ex, inv, m, st)
    det = det3(m) if n == 3 else (m.v[0] * m.v[3] - m.v[1] * m.v[2] if n == 2 else None)
    if det is None: raise Unsupported('inverse size')
    st.assume(z3.Implies(det != 0, z3.And([p.at(i, j) == (1 if i == j else 0) for i in range(n) for j in range(n)])))
    ex.opt.setdefault('inverses', []).append((inv, m, det))
    return inv
def det3(m):
    a = m.at
    return a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0)) + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0))
def normalized(ex, m, st):
    m = finm(ex, m, st)
    sq = rdot(m.v, m.v)
    kk = ('unit', tuple(simp(x).get_id() for x in m.v))
    if kk not in ex.enums: ex.enums[kk] = ([fresh(Real, 'unit') for _ in m.v], m)
    u = ex.enums[kk][0]
    n = sqrt(ex, sq, st, True)
    nz = z3.Or([x != 0 for x in m.v])
    ex.opt.setdefault('units', []).append((m.v, u, n))
    st.assume(z3.Implies(nz, z3.And([x == n * y for x, y in zip(m.v, u)] + [rdot(u, u) == 1, n > 0])),
              z3.Implies(z3.Not(nz), z3.And([x == y for x, y in zip(u, m.v)] + [n == 0])))
    return M(m.r, m.c, u)
def trig(ex, fn, x, st):
    x = simp(ex.fin(real(x), st))
    neg = None
    # sin and cos of a negated argument
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UMINUS: neg = x.arg(0)
    elif z3.is_mul(x) and z3.is_rational_value(x.arg(0)) and x.arg(0).numerator_as_long() < 0:
        neg = simp(-x)
    a = neg if neg is not None else x
    st.assume(sinf(a) * sinf(a) + cosf(a) * cosf(a) == 1)
    if z3.is_rational_value(a) and a.numerator_as_long() == 0: st.assume(sinf(a) == 0, cosf(a) == 1)
    if fn == 'sin': return -sinf(a) if neg is not None else sinf(a)
    return cosf(a)

def text_of(ex, v, st, ty=None):
    """text of a value as written by << / StrCat / Substitute"""
    v = val(ex, v, st)
    if isinstance(v, IT) and z3.is_int_value(simp(v.pos)) and simp(v.pos).as_long() == 0:
        w = ex.load(v.lv, st)       # an array given by its first element
        if is_leaf(w) and w.sort() == Str or isinstance(w, V) and w.ety is TCHAR: v = w
    if isinstance(v, XR): v = ex.fin(v, st)
    if is_leaf(v):
        if v.sort() == Str: return v
        if v.sort() == Real: return fmt6(v)
        if v.sort() == Int:
            if ty is not None and ty.k == 'int' and ty.bits == 8: return z3.StrFromCode(v)
            s = simp(v)
            if z3.is_int_value(s): return z3.StringVal(str(s.as_long()))
            return intstr(v)
        if v.sort() == Bool: return z3.If(v, z3.StringVal('1'), z3.StringVal('0'))
    if isinstance(v, OP) and v.name == 'text': return v.f['s']
    if isinstance(v, OP) and v.name == 'fn:std::endl': return z3.StringVal('\n')
    if isinstance(v, OP) and v.name in ('fn:std::flush', 'fn:std::ends'): return z3.StringVal('')
    if isinstance(v, V) and v.ety is TCHAR:
        n = simp(v.n)
        if z3.is_int_value(n) and n.as_long() < 64:
            bs = [simp(v.at(z3.IntVal(i))) for i in range(n.as_long())]
            if all(z3.is_int_value(b) for b in bs):
                bs = [b.as_long() % 256 for b in bs]
                if 0 in bs: return E_str_lit(bs[:bs.index(0)])
    return fresh(Str, 'text')
def cat(*xs):
    xs = [x for x in xs if not (z3.is_string_value(x) and x.as_string() == '')]
    if not xs: return z3.StringVal('')
    return xs[0] if len(xs) == 1 else z3.Concat(*xs)
def lit(v):
    if z3.is_string_value(v): return v.as_string()
    return None
def substitute(f, args):
    """absl::Substitute on a literal format"""
    if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(f.arg(0), substitute(f.arg(1), args), substitute(f.arg(2), args))
    t = lit(f)
    if t is None: raise Unsupported('Substitute with a computed format')
    out, i, cur = [], 0, ''
    while i < len(t):
        if t[i] == '$' and i + 1 < len(t):
            if t[i + 1].isdigit():
                if cur: out.append(z3.StringVal(cur)); cur = ''
                k = int(t[i + 1])
                if k >= len(args): raise Unsupported('Substitute argument index')
                out.append(args[k])
            elif t[i + 1] == '$': cur += '$'
            else: raise Unsupported('Substitute format')
            i += 2
        else: cur += t[i]; i += 1
    if cur: out.append(z3.StringVal(cur))
    return cat(*out)
def printf(ex, f, args, st):
    t = lit(f)
    if t is None: raise Unsupported('printf with a computed format')
    out, i, cur, k = [], 0, '', 0
    while i < len(t):
        if t[i] == '%':
            if t[i + 1] == '%': cur += '%'; i += 2; continue
            if t[i + 1] not in 'sdiu': raise Unsupported('printf conversion %s' % t[i:i + 2])
            if cur: out.append(z3.StringVal(cur)); cur = ''
            a = val(ex, args[k], st); k += 1
            if isinstance(a, LP): a = val(ex, a.lv, st)
            if t[i + 1] == 's' and not (is_leaf(a) and a.sort() == Str): raise Unsupported('printf %s of a non-string')
            if t[i + 1] != 's' and not (is_leaf(a) and a.sort() == Int): raise Unsupported('printf %d of a non-integer')
            out.append(text_of(ex, a, st)); i += 2
        else: cur += t[i]; i += 1
    if cur: out.append(z3.StringVal(cur))
    return cat(*out)

# ---------------------------------------------------------------- regular expressions
def regex(p):
    """z3 regular expression of an RE2 pattern (the subset literal, class, group, alternation, star/plus/optional, dot)"""
    pos = [0]
    anyc = z3.Complement(z3.Re('\n')) if False else z3.Intersect(z3.AllChar(z3.ReSort(Str)), z3.Complement(z3.Re('\n')))
    def alt():
        xs = [seq()]
        while pos[0] < len(p) and p[pos[0]] == '|': pos[0] += 1; xs.append(seq())
        return z3.Union(*xs) if len(xs) > 1 else xs[0]
    def seq():
        xs = []
        while pos[0] < len(p) and p[pos[0]] not in '|)': xs.append(rep())
        if not xs: return z3.Re('')
        return z3.Concat(*xs) if len(xs) > 1 else xs[0]
    def rep():
        x = atom()
        while pos[0] < len(p) and p[pos[0]] in '*+?':
            c = p[pos[0]]; pos[0] += 1
            x = z3.Star(x) if c == '*' else z3.Plus(x) if c == '+' else z3.Option(x)
        if pos[0] < len(p) and p[pos[0]] == '{': raise Unsupported('regex repetition')
        return x
    def atom():
        c = p[pos[0]]; pos[0] += 1
        if c == '(':
            if p[pos[0]:pos[0] + 2] == '?:': pos[0] += 2
            elif p[pos[0]] == '?': raise Unsupported('regex group flags')
            x = alt()
            if pos[0] >= len(p) or p[pos[0]] != ')': raise Unsupported('regex')
            pos[0] += 1
            return x
        if c == '.': return anyc
        if c == '[':
            neg = p[pos[0]] == '^'
            if neg: pos[0] += 1
            parts = []; first = True
            while p[pos[0]] != ']' or first:
                first = False
                ch = p[pos[0]]; pos[0] += 1
                if ch == '\\':
                    ch = p[pos[0]]; pos[0] += 1
                    if ch == 'd': parts.append(z3.Range('0', '9')); continue
                    if ch == 's': parts += [z3.Re(x) for x in ' \t\n\r\f']; continue
                    ch = {'n': '\n', 't': '\t', 'r': '\r'}.get(ch, ch)
                if p[pos[0]] == '-' and p[pos[0] + 1] != ']':
                    hi = p[pos[0] + 1]; pos[0] += 2
                    parts.append(z3.Range(ch, hi))
                else: parts.append(z3.Re(ch))
            pos[0] += 1
            x = z3.Union(*parts) if len(parts) > 1 else parts[0]
            return z3.Intersect(z3.AllChar(z3.ReSort(Str)), z3.Complement(x)) if neg else x
        if c == '\\':
            ch = p[pos[0]]; pos[0] += 1
            if ch == 'd': return z3.Range('0', '9')
            if ch == 's': return z3.Union(*[z3.Re(x) for x in ' \t\n\r\f'])
            if ch.isalpha(): raise Unsupported('regex escape')
            return z3.Re(ch)
        if c in '^$': raise Unsupported('regex anchor')
        return z3.Re(c)
    r = alt()
    if pos[0] != len(p): raise Unsupported('regex')
    return r
# ---- lines and their forms: a form is a language; two patterns of one language are one form
def re_norm(p, groups):
    """pattern as a canonical text: character classes as sorted ranges, groups marked only when they matter"""
    out = []; i = 0
    while i < len(p):
        c = p[i]
        if c == '[':
            j = i + 1; neg = p[j] == '^'; j += neg; cs = set(); first = True
            while p[j] != ']' or first:
                first = False; ch = p[j]; j += 1
                if ch == '\\':
                    e = p[j]; j += 1
                    if e == 'd': cs |= set('0123456789'); continue
                    if e == 's': cs |= set(' \t\n\r\f'); continue
                    ch = {'n': '\n', 't': '\t', 'r': '\r'}.get(e, e)
                if p[j] == '-' and p[j + 1] != ']': cs |= set(chr(x) for x in range(ord(ch), ord(p[j + 1]) + 1)); j += 2
                else: cs.add(ch)
            out.append('[%s%s]' % ('^' if neg else '', ''.join(sorted(cs)))); i = j + 1
        elif c == '\\':
            e = p[i + 1]; i += 2
            out.append('[0123456789]' if e == 'd' else '[%s]' % ''.join(sorted(' \t\n\r\f')) if e == 's' else '[%s]' % e)
        elif c == '(':
            cap_ = p[i + 1:i + 2] != '?'
            out.append('(' if groups and cap_ else '(?:'); i += 1 if cap_ else 3
        else: out.append(c if c in '.)|*+?' else '[%s]' % c); i += 1
    return ''.join(out)
FORMS = []            # (pattern, normal form, predicate)
def form(pattern, ex=None, line=None):
    """the predicate 'a line has this form'"""
    nf = re_norm(pattern, False)
    for p, q, f in FORMS:
        if q == nf: return f
    x = z3.Const('line!', Str)
    for p, q, f in FORMS:
        s = z3.Solver(); s.set('timeout', 15000); s.add(z3.InRe(x, regex(p)) != z3.InRe(x, regex(pattern)))
        if s.check() == z3.unsat:
            if ex is not None: ex.obs.append(Ob('the patterns "%s" and "%s" accept the same lines' % (p, pattern), 'lemma', line or 0, ex.owner, [], z3.InRe(x, regex(p)) == z3.InRe(x, regex(pattern))))
            FORMS.append((pattern, nf, f)); return f
    f = z3.Function('is_line_of_form_%d' % len(FORMS), Str, Bool)
    FORMS.append((pattern, nf, f)); return f
_caps = {}
def numbers(pattern):
    """(the i-th group is a number, that number), as functions of line and index"""
    k = re_norm(pattern, True)
    if k not in _caps: _caps[k] = (z3.Function('number_ok_%d' % len(_caps), Str, Int, Bool), z3.Function('number_at_%d' % len(_caps), Str, Int, Real))
    return _caps[k]

# ---------------------------------------------------------------- overrides of project functions
def override(ex, e, c, st, o=None):
    q = c['q']
    if q == 'stl2ps::ErrorMessage::ErrorMessage' and e['k'] == 'ctor' and not ex.opt.get('diag_text'):
        for a in e['a']: ex.ev(a, st)
        st.cells['diag'] = st.cells.get('diag', z3.IntVal(0)) + 1
        return OP('errmsg', {})
    if q == 'stl2ps::ErrorMessage::get' and not ex.opt.get('diag_text'):
        return ex.temp(z3.StringVal(''), st, 'msg')
    if q == 'ps::impl::Now': return NOW
    return None

# ---------------------------------------------------------------- constructors
def ctor(ex, e, c, t, st):
    q = c['q']; args = e['a']; n = name_of(c)
    if q.startswith('verif_shim::LogMessage'):
        fatal = simp(ex.rv(args[1], st))
        if z3.is_true(fatal):
            if not ex.opt.get('abort_ok'): ex.ob(st, z3.BoolVal(False), 'no internal check aborts the program', 'safety', e.get('l'))
            ex.kill(st)
        if 'errors' in st.cells and lit(ex.rv(args[0], st)) == 'ERROR': st.cells['errors'] = st.cells['errors'] + 1
        return OP('log', {})
    if q.startswith('verif_shim::Voidify'): return UNIT
    if q.endswith('RE2::RE2'): return OP('re2:' + (lit(ex.rv(args[0], st)) or '?'), {})
    if q.endswith('Arg::Arg') or q.endswith('AlphaNum::AlphaNum'):
        at = ex.T(args[0]['t'])
        if at.k == 'ref': at = at.e
        return OP('text', {'s': text_of(ex, ex.rv(args[0], st), st, at)})
    if q.endswith('FormatSpecTemplate::FormatSpecTemplate'): return ex.rv(args[0], st)
    if q.endswith('ExtendedParsedFormat::ExtendedParsedFormat'):
        v = ex.rv(args[0], st)
        if isinstance(v, OP): return v
        return OP('fmt', {'s': v})
    if q.endswith('allocator::allocator'): return UNIT
    if 'SkipEmpty' in q: return OP('skipempty', {})
    if q.endswith('ConvertibleToStringView::ConvertibleToStringView'): return ex.rv(args[0], st)
    if q.endswith('istreambuf_iterator::istreambuf_iterator'):
        return OP('isbuf', {'all': ex.rv(args[0], st).f['all']}) if args else OP('isbuf', {})
    if t.k == 'str':
        real_args = [a for a in args if not (a.get('k') == 'ctor' and a['c']['q'].endswith('allocator::allocator'))]
        if not real_args: return ex.default(t, st)
        vs = [ex.rv(a, st) for a in real_args]
        if len(vs) == 1 and (is_leaf(vs[0]) and vs[0].sort() == Str or isinstance(vs[0], V)): return ex.conv(vs[0], t, st)
        if isinstance(vs[0], OP) and vs[0].name == 'isbuf' and 'all' in vs[0].f: return vs[0].f['all']
        if len(vs) == 1 and isinstance(vs[0], OP) and vs[0].name == 'text': return vs[0].f['s']
        if len(vs) == 2 and is_leaf(vs[0]) and vs[0].sort() == Str and is_leaf(vs[1]) and vs[1].sort() == Int:
            return z3.SubString(vs[0], 0, vs[1])
        raise Unsupported('string constructor')
    if t.k == 'mat':
        if t.r < 0 or t.c < 0:
            if not args: return DM('unset', None, None)
            vs = [ex.rv(a, st) for a in args]
            if len(vs) == 1: return vs[0]
            if t.c > 0:
                sv = simp(vs[1])
                if not (z3.is_int_value(sv) and sv.as_long() == t.c): raise Unsupported('dynamic matrix shape')
                st.assume(vs[0] >= 0)
                return V(vs[0], M(1, t.c, [fresh(z3.ArraySort(Int, Real), 'col') for _ in range(t.c)]), TMAT(1, t.c))
            raise Unsupported('dynamic matrix')
        if not args: return ex.default(t, st)
        vs = [ex.rv(a, st) for a in args]
        if len(vs) == 1 and isinstance(vs[0], M): return ex.conv(vs[0], t, st)
        if len(vs) == 1 and isinstance(vs[0], DM): return vs[0]
        if len(vs) == t.r * t.c: return M(t.r, t.c, [real(x) if not isinstance(x, XR) else x for x in vs])
        raise Unsupported('matrix constructor')
    if t.k in ('pair', 'tuple'):
        if not args: return ex.default(t, st, True)
        vs = [ex.ev(a, st) for a in args]
        if len(vs) == 1:
            v = val(ex, vs[0], st)
            if isinstance(v, R): return ex.conv(v, t, st)
        if n in ('pair', 'tuple') and len(vs) == len(t.args): return ex.construct(t, vs, st)
        raise Unsupported('pair constructor')
    if t.k == 'vec':
        if not args: return ex.default(t, st)
        real_args = [a for a in args if not (a.get('k') == 'ctor' and a['c']['q'].endswith('allocator::allocator'))]
        vs = [ex.rv(a, st) for a in real_args]
        if not vs: return ex.default(t, st)
        if len(vs) == 1 and isinstance(vs[0], (A,)): return vec_from_list(ex, t.e, vs[0].v, st)
        if len(vs) == 1 and isinstance(vs[0], V): return vs[0]
        if is_leaf(vs[0]) and vs[0].sort() == Int and not e.get('list'):
            x = ex.conv(vs[1], t.e, st) if len(vs) > 1 else ex.default(t.e, st, True)
            st.assume(vs[0] >= 0)
            return V(vs[0], tmap(lambda l: kconst(l, st), x), t.e)
        if len(vs) == 2 and isinstance(vs[0], IT) and isinstance(vs[1], IT) and vs[0].kind in ('vec', 'arr'):
            src = val(ex, vs[0].lv, st); i = fresh(Int, 'i')
            if not isinstance(src, V): raise Unsupported('range constructor')
            return V(vs[1].pos - vs[0].pos, tmap(lambda a: z3.Lambda([i], z3.Select(a, i + vs[0].pos)), src.e), t.e)
        raise Unsupported('vector constructor')
    if t.k == 'map':
        if not args: return ex.default(t, st)
        vs = [ex.rv(a, st) for a in args if not (a.get('k') == 'ctor' and a['c']['q'].split('::')[-1] in ('allocator', 'less'))]
        if len(vs) == 1 and isinstance(vs[0], Mp): return vs[0]
        if len(vs) == 1 and isinstance(vs[0], A):
            m = ex.default(t, st)
            has, v = m.has, m.val
            for x in reversed(vs[0].v):      # the first of equal keys wins
                k = key_enc(t.args[0], x.f['first'])
                v = store(v, k, ex.conv(x.f['second'], t.args[1], st)); has = z3.Store(has, k, z3.BoolVal(True))
            return Mp(has, v, m.kty, m.vty)
        raise Unsupported('map constructor')
    if t.k == 'set':
        if not args: return ex.default(t, st)
        v = ex.rv(args[0], st)
        if isinstance(v, St): return v
        raise Unsupported('set constructor')
    if t.k in ('uptr', 'ptr'):
        if not args: return HP(z3.IntVal(0), t.e)
        v = ex.ev(args[0], st)
        w = val(ex, v, st)
        if isinstance(w, HP):
            if isinstance(v, LV) and c.get('move', True) and e['a'][0].get('k') == 'call': ex.store(v, HP(z3.IntVal(0), w.to), st)
            return HP(w.id, w.to)
        if isinstance(w, LP):
            if w.lv is None: return HP(z3.IntVal(0), t.e)
            return w
        raise Unsupported('smart pointer constructor')
    if t.k == 'ostream':
        if not args: return z3.StringVal('')
        raise Unsupported('stream constructor')
    if t.k == 'opaque':
        if 'ifstream' in (t.q or '') or 'ofstream' in (t.q or ''):
            o = mk_opaque(ex, t, 'f', None)
            if args:
                cell = ex.temp(o, st); fopen(ex, cell, ex.rv(args[0], st), st, 'ofstream' in t.q, ex.rv(args[1], st) if len(args) > 1 else None); return ex.load(cell, st)
            return o
        if len(args) == 1 and ('iterator' in (t.q or '') or c.get('copy') or c.get('move')): return ex.rv(args[0], st)
        if not args: 
            o = mk_opaque(ex, t, 'o', lambda s, n: fresh(s, n))
            return o if o is not None else OP(t.q or '?', {})
        if len(args) >= 1 and t.q in ('std::less',): return UNIT
        return None
    if t.k == 'real' or t.k == 'int' or t.k == 'bool': return ex.rv(args[0], st) if args else ex.default(t, st, True)
    if t.k == 'arr': return ex.conv(ex.rv(args[0], st), t, st) if args else ex.default(t, st)
    return None

canopen_r = z3.Function('can_open_for_reading', Str, Bool)
canopen_w = z3.Function('can_open_for_writing', Str, Bool)
def fopen(ex, o, path, st, out, mode=None):
    v = val(ex, o, st)
    can = canopen_w(path) if out else canopen_r(path)
    ok = z3.And(z3.Not(v.f['open']), can)
    new = OP('fstream', {'state': z3.If(ok, z3.IntVal(0), z3.If(v.f['state'] == 0, z3.IntVal(4), v.f['state'])), 'open': z3.Or(v.f['open'], ok),
                         'path': z3.If(ok, path, v.f['path']), 'text': v.f['text'], 'mode': z3.If(ok, mode if mode is not None and is_leaf(mode) and mode.sort() == Int else z3.IntVal(16 if out else 8), v.f['mode']), 'flushed': z3.BoolVal(False)})
    ex.store(o, new, st)
    ex.opened = getattr(ex, 'opened', [])
    if 'files' in st.cells: st.cells['files'] = st.cells['files'] + 1

# ---------------------------------------------------------------- member functions
def mcall(ex, e, c, st, allow_none=False):
    n = name_of(c); q = c['q']
    o = ex.ev(e['obj'], st)
    if e.get('arrow'):
        o = ex.deref(val(ex, o, st), st, e.get('l'))
    v = val(ex, o, st)
    args = e['a']
    line = e.get('l')
    A_ = lambda i: ex.ev(args[i], st)
    Rv = lambda i: ex.rv(args[i], st)
    if isinstance(v, LP) and v.lv is not None and not q.startswith('std::unique_ptr'): pass
    # --- Eigen
    if isinstance(v, M) and q.startswith('Eigen::'):
        if n in ('x', 'y', 'z', 'w') and not args:
            i = 'xyzw'.index(n)
            if i >= len(v.v): raise Unsupported('component out of range')
            if isinstance(o, (LV,)): return o.f(('m', 0, i) if v.r == 1 else ('m', i, 0))
            if isinstance(o, CLV) and not isinstance(o, PLV):
                st_ = ('m', 0, i) if v.r == 1 else ('m', i, 0)
                if isinstance(o.a, LV) and isinstance(o.b, LV): return CLV(o.c, o.a.f(st_), o.b.f(st_))
            return v.v[i]
        if n == 'dot': return dot(ex, v, Rv(0), st)
        if n == 'cross':
            w = finm(ex, Rv(0), st); a = finm(ex, v, st)
            return M(a.r, a.c, [a.y * w.z - a.z * w.y, a.z * w.x - a.x * w.z, a.x * w.y - a.y * w.x])
        if n == 'squaredNorm': v = finm(ex, v, st); return rdot(v.v, v.v)
        if n in ('norm', 'stableNorm'): v = finm(ex, v, st); return sqrt(ex, rdot(v.v, v.v), st, True)
        if n == 'normalized': return normalized(ex, v, st)
        if n == 'normalize': ex.store(o, normalized(ex, v, st), st); return UNIT
        if n == 'transpose': return M(v.c, v.r, [v.at(i, j) for j in range(v.c) for i in range(v.r)])
        if n == 'inverse': return inverse(ex, v, st)
        if n == 'determinant' and v.r == 3: return det3(finm(ex, v, st))
        if n == 'determinant' and v.r == 2: v = finm(ex, v, st); return v.at(0, 0) * v.at(1, 1) - v.at(0, 1) * v.at(1, 0)
        if n in ('cwiseMin', 'cwiseMax') and len(args) == 1:
            w = Rv(0); w = w.v if isinstance(w, M) else [real(w)] * len(v.v)
            return M(v.r, v.c, [ite(ex.compare('<', b, a, st) if n == 'cwiseMin' else ex.compare('<', a, b, st), b, a) for a, b in zip(v.v, w)])
        if n == 'cwiseAbs': v = finm(ex, v, st); return M(v.r, v.c, [z3.If(x >= 0, x, -x) for x in v.v])
        if n == 'cwiseProduct': v, w = finm(ex, v, st), finm(ex, Rv(0), st); return M(v.r, v.c, [a * b for a, b in zip(v.v, w.v)])
        if n in ('minCoeff', 'maxCoeff') and not args:
            v = finm(ex, v, st); r = v.v[0]
            for x in v.v[1:]: r = z3.If(x < r, x, r) if n == 'minCoeff' else z3.If(r < x, x, r)
            return r
        if n == 'setIdentity' and v.r == v.c: ex.store(o, M(v.r, v.c, [z3.RealVal(int(i == j)) for i in range(v.r) for j in range(v.c)]), st); return o
        if n == 'setConstant' or n == 'fill': ex.store(o, M(v.r, v.c, [real(Rv(0))] * len(v.v)), st); return o
        if n in ('eval', 'matrix', 'noalias', 'derived'): return o
        if n == 'isZero': return z3.And([x == 0 for x in v.v])
        if n == 'setZero': ex.store(o, M(v.r, v.c, [z3.RealVal(0)] * len(v.v)), st); return o
        if n == 'size': return z3.IntVal(len(v.v))
        if n == 'rows': return z3.IntVal(v.r)
        if n == 'cols': return z3.IntVal(v.c)
        if n == 'sum': return z3.Sum(list(v.v))
        if n == 'head' or n == 'tail' or n == 'segment' or n == 'row' or n == 'col':
            k = None
            mt = re.search(r'(?:head|tail)ILi(\d+)E', c['m'])
            if mt: k = int(mt.group(1))
            elif args and n in ('head', 'tail'):
                s = simp(Rv(0)); k = s.as_long() if z3.is_int_value(s) else None
            if n in ('row', 'col') and z3.is_int_value(simp(Rv(0))):
                i = simp(Rv(0)).as_long()
                return M(1, v.c, v.v[i * v.c:(i + 1) * v.c]) if n == 'row' else M(v.r, 1, [v.at(j, i) for j in range(v.r)])
            if k is None: raise Unsupported('Eigen block')
            w = v.v[:k] if n == 'head' else v.v[len(v.v) - k:]
            return M(1, k, w) if v.r == 1 else M(k, 1, w)
        if n == 'coeff' or n == 'coeffRef': return mat_index(ex, o, v, [simp(Rv(i)) for i in range(len(args))])
    if isinstance(v, V) and q.startswith('Eigen::'):
        if n == 'transpose': return DM('T', None, v)
        if n == 'rows': return v.n
        if n == 'size' and isinstance(v.e, M): return v.n * v.e.c
        if n == 'cols' and isinstance(v.e, M): return z3.IntVal(v.e.c)
    if isinstance(v, OP) and v.name == 'comma' and n == 'finished':
        return comma_done(ex, v)
    # --- strings
    if is_leaf(v) and v.sort() == Str and (q.startswith('std::basic_string') or q.startswith('absl::string_view') or q.startswith('std::basic_string_view')):
        return str_member(ex, n, o, v, e, st)
    if isinstance(v, V) and q.startswith('std::basic_string') or isinstance(v, V) and q.startswith('absl::string_view'):
        if n in ('size', 'length'): return v.n
        if n == 'empty': return v.n == 0
        if n == 'resize': return vresize(ex, o, v, Rv(0), Rv(1) if len(args) > 1 else z3.IntVal(0), st)
        if n == 'push_back': return vpush(ex, o, v, Rv(0), st)
        if n == 'clear': ex.store(o, V(z3.IntVal(0), v.e, v.ety), st); return UNIT
        if n == 'reserve': return UNIT
        if n in ('at',): return elem(ex, o, Rv(0), st, line)
        if n in ('back', 'front'): return elem(ex, o, v.n - 1 if n == 'back' else z3.IntVal(0), st, line)
        if n in ('begin', 'cbegin'): return IT('vec', o, z3.IntVal(0))
        if n in ('end', 'cend'): return IT('vec', o, v.n)
        if n == 'pop_back':
            ex.ob(st, v.n > 0, 'pop_back of a non-empty string', 'safety', line); ex.store(o, V(v.n - 1, v.e, v.ety), st); return UNIT
        if n == 'operator()conv': return v
    # --- vectors
    if isinstance(v, V) and (q.startswith('std::vector') or q.startswith('std::multimap') or q.startswith('std::initializer_list')):
        if q.startswith('std::multimap'): return mm_member(ex, n, o, v, e, st)
        return vec_member(ex, n, o, v, e, c, st)
    if isinstance(v, A):
        if n == 'size': return z3.IntVal(len(v.v))
        if n in ('begin', 'cbegin'): return IT('arr', o, z3.IntVal(0))
        if n in ('end', 'cend'): return IT('arr', o, z3.IntVal(len(v.v)))
        if n == 'at': return elem(ex, o, Rv(0), st, line)
        if n == 'fill':
            x = ex.conv(Rv(0), v.ety, st); ex.store(o, A([x] * len(v.v), v.ety), st); return UNIT
        if n == 'front': return elem(ex, o, z3.IntVal(0), st, line)
        if n == 'back': return elem(ex, o, z3.IntVal(len(v.v) - 1), st, line)
    # --- maps and sets
    if isinstance(v, Mp): return map_member(ex, n, o, v, e, st)
    if isinstance(v, St): return set_member(ex, n, o, v, e, st)
    # --- smart pointers
    if q.startswith('std::unique_ptr') or q.startswith('std::shared_ptr'):
        if n == 'get':
            return v
        if n == 'operator()conv': return ex.boolv(v)
        if n == 'release':
            ex.store(o, HP(z3.IntVal(0), v.to), st) if isinstance(v, HP) and isinstance(o, (LV, HLV, CLV)) else None
            return v
        if n == 'reset':
            w = Rv(0) if args else HP(z3.IntVal(0), v.to)
            if isinstance(w, LP) and w.lv is None: w = HP(z3.IntVal(0), v.to)
            ex.store(o, w, st); return UNIT
    # --- streams
    if q.startswith('verif_shim::LogMessage::stream'):
        return ex.temp(z3.StringVal(''), st, 'log')
    if isinstance(v, OP) and v.name == 'fstream':
        if n == 'open': fopen(ex, o, Rv(0), st, 'ofstream' in q, Rv(1) if len(args) > 1 else None); return UNIT
        if n == 'rdstate': return v.f['state']
        if n == 'close': return fclose(ex, o, v, st, 'ofstream' in q)
        if n == 'is_open': return v.f['open']
        if n == 'good': return v.f['state'] == 0
        if n == 'fail': return z3.And(v.f['state'] != 0, v.f['state'] != 2)
        if n == 'bad': return z3.Or(v.f['state'] % 2 == 1)
        if n == 'operator()conv': return z3.And(v.f['state'] != 4, v.f['state'] != 1, v.f['state'] != 5)
        if n == 'flush':
            ns = fresh(Int, 'state_after_flush'); st.assume(z3.Or(ns == v.f['state'], ns == 4), z3.Implies(z3.Not(v.f['open']), ns != 0))
            ex.store(o, OP('fstream', {**v.f, 'state': ns, 'flushed': z3.BoolVal(True)}), st); return o
        if n == 'clear': ex.store(o, OP('fstream', {**v.f, 'state': z3.IntVal(0)}), st); return UNIT
    if isinstance(v, OP) and v.name == 'istream':
        # broken: the stream stops after its last line because reading failed, not because the file ends
        end, bad = v.f['ended'], v.f['broken']
        if n == 'bad': return z3.And(end, bad)
        if n in ('fail', 'operator()conv'): return end if n == 'fail' else z3.Not(end)
        if n == 'eof':
            early = fresh(Bool, 'end_seen_on_the_last_line'); return z3.If(end, z3.Not(bad), z3.And(early, v.f['pos'] == v.f['n']))
    if isinstance(v, OP) and v.name == 'getline' and n == 'operator()conv': return v.f['ok']
    if is_leaf(v) and v.sort() == Str and q.startswith('std::basic_ostream') :
        if n == 'flush': return o
        if n == 'put': ex.store(o, cat(v, z3.StrFromCode(Rv(0))), st); return o
        if n == 'write' : raise Unsupported('ostream::write')
    if is_leaf(v) and v.sort() == Str and n == 'str' and not args: return v
    if isinstance(v, OP) and v.name == 'split' and n == 'operator()conv': return split_vec(ex, v, st)
    if isinstance(v, OP) and v.name == 'splitne' and n == 'operator()conv': return split_vec(ex, v, st)
    if n == 'type_name' and c.get('virt'):
        return typename(o.id if isinstance(o, HLV) else z3.IntVal(0))
    if n == 'name' and isinstance(v, OP): return fresh(Str, 'name')
    if n == 'operator()conv' and is_leaf(v): return v
    if isinstance(v, OP) and v.name == 'fmt' and n == 'operator()conv': return v
    if isinstance(v, IT) and n == 'base': return v
    if allow_none: return None
    raise Unsupported('member call %s on %s' % (q, type(v).__name__))

def fclose(ex, o, v, st, out):
    if out:
        # closing flushes: the final state is known only here; goodbit means every byte reached the file
        ns = fresh(Int, 'state_after_close')
        st.assume(z3.Or(ns == v.f['state'], ns == 4), z3.Implies(z3.Not(v.f['open']), ns != 0))
        ex.store(o, OP('fstream', {**v.f, 'state': ns, 'open': z3.BoolVal(False)}), st)
        st.cells['closed'] = z3.IntVal(1)
        return UNIT
    ex.store(o, OP('fstream', {**v.f, 'state': z3.If(v.f['open'], v.f['state'], z3.IntVal(4)), 'open': z3.BoolVal(False)}), st)
    return UNIT

def comma_done(ex, v):
    n = v.f['n']; r, c = v.f['shape']
    vals = v.f['vals']
    if len(vals) != r * c: raise Unsupported('comma initialiser with a wrong number of values')
    return M(r, c, vals)
class Comma(OP):
    pass

def mat_index(ex, o, v, idx):
    if not all(z3.is_int_value(i) for i in idx): raise Unsupported('matrix index')
    idx = [i.as_long() for i in idx]
    if len(idx) == 1: idx = [0, idx[0]] if v.r == 1 else [idx[0], 0]
    if not (0 <= idx[0] < v.r and 0 <= idx[1] < v.c): raise Unsupported('matrix index out of range')
    if isinstance(o, LV): return o.f(('m', idx[0], idx[1]))
    return v.at(*idx)

def cstr(v):
    """what a text is to code that takes it for a NUL-terminated one"""
    if z3.is_string_value(v): return v
    nul = E_str_lit([0]); i = z3.IndexOf(v, nul, z3.IntVal(0))
    return z3.If(z3.Contains(v, nul), z3.SubString(v, 0, i), v)
def str_member(ex, n, o, v, e, st):
    args = e['a']; Rv = lambda i: ex.rv(args[i], st); line = e.get('l')
    if n in ('size', 'length'): return z3.Length(v)
    if n == 'empty': return v == z3.StringVal('')
    if n == 'c_str': return cstr(v)
    if n in ('data', 'operator()conv', 'str'): return v
    if n == 'push_back': ex.store(o, cat(v, chr_of(Rv(0))), st); return UNIT
    if n in ('reserve', 'shrink_to_fit'):
        for a in args: ex.rv(a, st)
        return UNIT
    if n == 'clear': ex.store(o, z3.StringVal(''), st); return UNIT
    if n == 'append' or n == 'operator+=':
        w = Rv(0)
        if len(args) == 2: # (count, char)
            raise Unsupported('string append')
        ex.store(o, cat(v, w), st); return o
    if n == 'assign' and len(args) == 1: ex.store(o, Rv(0), st); return o
    if n in ('find',):
        w = Rv(0)
        if w.sort() == Int: w = z3.StrFromCode(w)
        at = Rv(1) if len(args) > 1 else z3.IntVal(0)
        r = z3.IndexOf(v, w, at)
        return z3.If(r >= 0, r, z3.IntVal(2 ** 64 - 1))
    if n in ('starts_with',):
        w = Rv(0)
        if w.sort() == Int: w = z3.StrFromCode(w)
        return z3.PrefixOf(w, v)
    if n in ('front', 'back', 'at'):
        i = z3.IntVal(0) if n == 'front' else z3.Length(v) - 1 if n == 'back' else Rv(0)
        ex.ob(st, z3.And(0 <= i, i < z3.Length(v)), 'index in range', 'safety', line)
        return o.f(('i', i)) if isinstance(o, LV) else z3.StrToCode(z3.SubString(v, i, 1))
    if n == 'substr':
        i = Rv(0); l = Rv(1) if len(args) > 1 else z3.Length(v)
        ex.ob(st, z3.And(0 <= i, i <= z3.Length(v)), 'substr position in range', 'safety', line)
        return z3.SubString(v, i, l)
    if n == 'compare' and len(args) == 1:
        r = fresh(Int, 'cmp'); st.assume((r == 0) == (v == Rv(0))); return r
    if n == 'swap':
        w = ex.ev(args[0], st); b = val(ex, w, st); ex.store(o, b, st); ex.store(w, v, st); return UNIT
    if n == 'pop_back':
        ex.ob(st, z3.Length(v) > 0, 'pop_back of a non-empty string', 'safety', line); ex.store(o, z3.SubString(v, 0, z3.Length(v) - 1), st); return UNIT
    if n == 'ends_with':
        w = Rv(0)
        if w.sort() == Int: w = z3.StrFromCode(w)
        return z3.SuffixOf(w, v)
    if n == 'erase' and args and all(is_leaf(Rv(i)) and Rv(i).sort() == Int for i in range(len(args))):
        i = Rv(0); ex.ob(st, z3.And(0 <= i, i <= z3.Length(v)), 'erase position in range', 'safety', line); tail = z3.StringVal('')
        if len(args) > 1: l = Rv(1); tail = z3.If(l >= z3.Length(v) - i, z3.StringVal(''), z3.SubString(v, i + l, z3.Length(v)))
        ex.store(o, cat(z3.SubString(v, 0, i), tail), st); return o
    if n == 'insert' and len(args) == 2 and is_leaf(Rv(0)) and Rv(0).sort() == Int and is_leaf(Rv(1)) and Rv(1).sort() == Str:
        i = Rv(0); ex.ob(st, z3.And(0 <= i, i <= z3.Length(v)), 'insert position in range', 'safety', line)
        ex.store(o, cat(z3.SubString(v, 0, i), Rv(1), z3.SubString(v, i, z3.Length(v))), st); return o
    if n == 'resize': raise Unsupported('string resize')
    raise Unsupported('string::%s' % n)
def chr_of(c):
    s = simp(c)
    if z3.is_int_value(s) and 0 <= s.as_long() < 256: return str_lit(bytes([s.as_long()]))
    # the one-character substring a code was read from
    if z3.is_app(c) and c.decl().name() == 'str.to_code': return c.arg(0)
    return z3.StrFromCode(c)

# ---- vectors
def vpush(ex, o, v, x, st):
    x = ex.conv(x, v.ety, st)
    e = store(v.e, v.n, x)
    pos = v.pos
    ex.store(o, V(v.n + 1, e, v.ety, pos), st)
    return UNIT
def vresize(ex, o, v, n, x, st):
    if x is None: x = ex.default(v.ety, st, True)
    sn = simp(v.n)
    if z3.is_int_value(sn) and sn.as_long() == 0:
        e = tmap(lambda l: kconst(l, st), x)
        if same_shape(e, v.e): ex.store(o, V(n, e, v.ety), st); return UNIT
    if ex.quick(st, n <= v.n, 150):
        ex.store(o, V(n, v.e, v.ety, v.pos), st); return UNIT
    i = fresh(Int, 'i')
    e = zmap2(lambda a, b: z3.Lambda([i], z3.If(i < v.n, z3.Select(a, i), b)), v.e, x)
    ex.store(o, V(n, e, v.ety, v.pos), st)
    return UNIT
def kconst(l, st):
    """the array that is l everywhere"""
    x = simp(l)
    def const(e): return z3.is_rational_value(e) or z3.is_int_value(e) or z3.is_true(e) or z3.is_false(e) or z3.is_string_value(e) or (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_CONST_ARRAY and const(e.arg(0)))
    if const(x): return z3.K(Int, x)
    a = fresh(z3.ArraySort(Int, l.sort()), 'all'); i = fresh(Int, 'i')
    st.assume(z3.ForAll([i], z3.Select(a, i) == l, patterns=[z3.Select(a, i)]))
    return a
def same_shape(a, b):
    try: return [l.sort() for l in leaves(a)] == [l.sort() for l in leaves(b)]
    except Unsupported: return False
def zmap2(f, a, b):
    if is_leaf(a) and is_leaf(b): return f(a, b)
    if isinstance(a, M): return M(a.r, a.c, [zmap2(f, x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, R): return R(a.ty, {k: zmap2(f, a.f[k], b.f[k]) for k in a.f if k in b.f})
    if isinstance(a, A): return A([zmap2(f, x, y) for x, y in zip(a.v, b.v)], a.ety)
    if isinstance(a, V): return V(f(a.n, b.n), zmap2(f, a.e, b.e), a.ety)
    if isinstance(a, Mp): return Mp(f(a.has, b.has), zmap2(f, a.val, b.val), a.kty, a.vty)
    if isinstance(a, HP): return HP(f(a.id, b.id), a.to)
    raise Unsupported('resize of this element type')

def vec_member(ex, n, o, v, e, c, st):
    args = e['a']; line = e.get('l')
    Rv = lambda i: ex.rv(args[i], st)
    if n == 'size': return v.n
    if n == 'empty': return v.n == 0
    if n in ('reserve', 'shrink_to_fit'):
        for a in args: ex.rv(a, st)
        return UNIT
    if n == 'capacity':
        r = fresh(Int, 'capacity'); st.assume(r >= v.n); return r
    if n == 'clear': ex.store(o, V(z3.IntVal(0), v.e, v.ety), st); return UNIT
    if n == 'push_back':
        x = ex.ev(args[0], st)
        w = val(ex, x, st)
        # the argument may refer to an element of this very vector: its value is taken first
        cur = val(ex, o, st)
        return vpush(ex, o, cur, w, st)
    if n == 'emplace_back':
        vals = [ex.ev(a, st) for a in args]
        x = ex.construct(v.ety, vals, st)
        cur = val(ex, o, st)
        vpush(ex, o, cur, x, st)
        return o.f(('i', cur.n)) if isinstance(o, LV) else UNIT
    if n == 'pop_back':
        ex.ob(st, v.n > 0, 'pop_back of a non-empty vector', 'safety', line)
        ex.store(o, V(v.n - 1, v.e, v.ety, v.pos), st); return UNIT
    if n == 'resize':
        m = Rv(0); x = ex.conv(Rv(1), v.ety, st) if len(args) > 1 else None
        return resize(ex, o, val(ex, o, st), m, x, st)
    if n == 'at': return elem(ex, o, Rv(0), st, line)
    if n in ('back', 'front'): return elem(ex, o, v.n - 1 if n == 'back' else z3.IntVal(0), st, line)
    if n in ('begin', 'cbegin'): return IT('vec', o, z3.IntVal(0))
    if n in ('end', 'cend'): return IT('vec', o, v.n)
    if n in ('rbegin', 'crbegin'): return IT('rvec', o, v.n - 1)
    if n in ('rend', 'crend'): return IT('rvec', o, z3.IntVal(-1))
    if n == 'data': return IT('arr', o, z3.IntVal(0))
    if (n == 'insert' and len(args) == 2) or (n == 'emplace' and args):
        it = Rv(0); x = Rv(1) if n == 'insert' else None
        if isinstance(x, V) and v.ety.k != 'vec': raise Unsupported('vector::insert of a list')
        x = ex.conv(x, v.ety, st) if n == 'insert' else ex.construct(v.ety, [ex.ev(a, st) for a in args[1:]], st)
        if isinstance(it, IT) and it.kind == 'vec':
            p = it.pos; i = fresh(Int, 'i')
            e2 = tmap(lambda a: z3.Lambda([i], z3.If(i > p, z3.Select(a, i - 1), z3.Select(a, i))), v.e)
            e2 = store(e2, p, x)
            ex.store(o, V(v.n + 1, e2, v.ety), st)
            return IT('vec', o, p)
    if n == 'insert' and len(args) == 3:
        it, a, b = Rv(0), Rv(1), Rv(2)
        if isinstance(it, IT) and isinstance(a, IT) and isinstance(b, IT) and ex.quick(st, it.pos == v.n):
            src = val(ex, a.lv, st); i = fresh(Int, 'i')
            cnt = b.pos - a.pos
            e2 = zmap(lambda x, y: z3.Lambda([i], z3.If(i < v.n, z3.Select(x, i), z3.Select(y, i - v.n + a.pos))), v.e, src.e)
            ex.store(o, V(v.n + cnt, e2, v.ety), st)
            return UNIT
    if n == 'erase' and len(args) == 2:
        a, b = Rv(0), Rv(1)
        if isinstance(a, IT) and isinstance(b, IT) and ex.quick(st, b.pos == v.n):
            ex.ob(st, z3.And(a.pos >= 0, a.pos <= v.n), 'iterator in range', 'safety', line)
            ex.store(o, V(a.pos, v.e, v.ety, v.pos), st); return UNIT
    if n == 'erase' and len(args) == 1:
        it = Rv(0)
        if isinstance(it, IT) and it.kind == 'vec':
            p = it.pos; ex.ob(st, z3.And(p >= 0, p < v.n), 'erase of a valid iterator', 'safety', line)
            if ex.quick(st, p == v.n - 1, 150): ex.store(o, V(v.n - 1, v.e, v.ety), st); return IT('vec', o, p)
            i = fresh(Int, 'i'); ex.store(o, V(v.n - 1, tmap(lambda a: z3.Lambda([i], z3.If(i >= p, z3.Select(a, i + 1), z3.Select(a, i))), v.e), v.ety), st)
            return IT('vec', o, p)
    if n == 'assign' and len(args) == 2 and isinstance(Rv(0), IT): raise Unsupported('vector::assign of a range')
    if n == 'assign' and len(args) == 2:
        x = Rv(1)
        ex.store(o, V(Rv(0), tmap(lambda l: kconst(l, st), ex.conv(x, v.ety, st)), v.ety), st); return UNIT
    if n == 'swap':
        w = ex.ev(args[0], st); a, b = v, val(ex, w, st); ex.store(o, b, st); ex.store(w, a, st); return UNIT
    raise Unsupported('vector::%s' % n)

def resize(ex, o, v, n, x, st):
    ex.ob(st, n >= 0, 'resize to a non-negative size', 'safety')
    sn = simp(v.n)
    def dflt(): return x if x is not None else ex.default(v.ety, st, True)
    if z3.is_int_value(sn) and sn.as_long() == 0:
        e = tmap(lambda l: kconst(l, st), dflt())
        if isinstance(v.e, R) and any(k.startswith('#') for k in v.e.f): raise Unsupported('resize of tracked vector')
        ex.store(o, V(n, e, v.ety), st); return UNIT
    if ex.quick(st, n <= v.n, 200):
        ex.store(o, V(n, v.e, v.ety, v.pos), st); return UNIT
    i = fresh(Int, 'i')
    d = dflt()
    if isinstance(v.e, R) and any(k.startswith('#') for k in v.e.f):
        d = R(d.ty, {**d.f, **{k: z3.IntVal(-1) for k in v.e.f if k.startswith('#')}})
    e = zmap2(lambda a, b: z3.Lambda([i], z3.If(i < v.n, z3.Select(a, i), b)), v.e, d)
    ex.store(o, V(n, e, v.ety, v.pos), st)
    return UNIT

# ---- std::multimap as a sequence sorted by .first
def mm_member(ex, n, o, v, e, st):
    args = e['a']; line = e.get('l'); Rv = lambda i: ex.rv(args[i], st)
    if n == 'size': return v.n
    if n == 'empty': return v.n == 0
    if n in ('begin', 'cbegin'): return IT('vec', o, z3.IntVal(0))
    if n in ('end', 'cend'): return IT('vec', o, v.n)
    if n in ('rbegin', 'crbegin'): return IT('rvec', o, v.n - 1)
    if n == 'clear': ex.store(o, V(z3.IntVal(0), v.e, v.ety), st); return UNIT
    def bounds(d, want):
        lo, hi = fresh(Int, 'lo'), fresh(Int, 'hi'); j = fresh(Int, 'j')
        key = v.e.f['first']
        sel = z3.Select(key, j)
        st.assume(0 <= lo, lo <= hi, hi <= v.n,
                  z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < lo), sel < d), patterns=[sel]),
                  z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), sel == d), patterns=[sel]),
                  z3.ForAll([j], z3.Implies(z3.And(hi <= j, j < v.n), sel > d), patterns=[sel]))
        return lo, hi
    if n == 'equal_range':
        lo, hi = bounds(real(Rv(0)), 2)
        t = ex.T(e['t'])
        return R(Ty('pair', args=[TINT, TINT], q='std::pair'), {'first': IT('vec', o, lo), 'second': IT('vec', o, hi)})
    if n in ('lower_bound', 'upper_bound'):
        lo, hi = bounds(real(Rv(0)), 1)
        return IT('vec', o, lo if n == 'lower_bound' else hi)
    if n == 'count': lo, hi = bounds(real(Rv(0)), 2); return hi - lo
    if n in ('emplace', 'insert'):
        vals = [ex.ev(a, st) for a in args]
        x = ex.construct(v.ety, vals, st)
        lo, hi = bounds(real(x.f['first']), 2)
        i = fresh(Int, 'i')
        old = v.e
        e2 = tmap(lambda a: z3.Lambda([i], z3.If(i > hi, z3.Select(a, i - 1), z3.Select(a, i))), old)
        e2 = store(e2, hi, x)
        # name the new sequence
        new = ex.mk(v.ety, 'mm', lambda sort, nm: fresh(z3.ArraySort(Int, sort), nm))
        for a, b in zip(leaves(new), leaves(e2)):
            st.assume(z3.ForAll([i], z3.Select(a, i) == z3.simplify(z3.Select(b, i)), patterns=[z3.Select(a, i)]))
        # reverse direction: where each old element went
        for a, b in zip(leaves(new), leaves(old)):
            st.assume(z3.ForAll([i], z3.Implies(i < hi, z3.Select(a, i) == z3.Select(b, i)), patterns=[z3.Select(b, i)]),
                      z3.ForAll([i], z3.Implies(i >= hi, z3.Select(a, i + 1) == z3.Select(b, i)), patterns=[z3.Select(b, i)]))
        for a, b in zip(leaves(new), leaves(x)): st.assume(z3.Select(a, hi) == real(b))
        ex.store(o, V(v.n + 1, new, v.ety), st)
        ex.opt['mm_last'] = hi
        return IT('vec', o, hi)
    if n == 'erase' and len(args) == 1:
        it = Rv(0)
        if isinstance(it, IT):
            ex.ob(st, z3.And(it.pos >= 0, it.pos < v.n), 'erase of a valid iterator', 'safety', line)
            if ex.quick(st, it.pos == v.n - 1, 150):
                ex.store(o, V(v.n - 1, v.e, v.ety), st); return UNIT
            i = fresh(Int, 'i'); p = it.pos
            e2 = tmap(lambda a: z3.Lambda([i], z3.If(i >= p, z3.Select(a, i + 1), z3.Select(a, i))), v.e)
            ex.store(o, V(v.n - 1, e2, v.ety), st); return IT('vec', o, p)
    raise Unsupported('multimap::%s' % n)

# ---- std::map / std::set
def map_member(ex, n, o, v, e, st):
    args = e['a']; line = e.get('l'); Rv = lambda i: ex.rv(args[i], st)
    if not isinstance(o, (LV, HLV)) : o = ex.temp(v, st)
    if n in ('find', 'contains', 'count', 'at'):
        k = key_enc(v.kty, ex.conv(Rv(0), v.kty, st))
        f = z3.Select(v.has, k)
        if n == 'find': return IT('map', o, k, f)
        if n == 'contains': return f
        if n == 'count': return z3.If(f, z3.IntVal(1), z3.IntVal(0))
        ex.ob(st, f, 'map::at finds the key', 'safety', line)
        return o.f(('k', k))
    if n in ('end', 'cend'): return IT('map', o, None, z3.BoolVal(False))
    if n in ('emplace', 'insert', 'try_emplace'):
        if n == 'insert' or len(args) == 1:
            x = Rv(0); kv, vv = x.f['first'], x.f['second']
        else:
            kv = ex.rv(args[0], st); vv = [ex.ev(a, st) for a in args[1:]]
        k = key_enc(v.kty, ex.conv(kv, v.kty, st))
        cur = val(ex, o, st)
        f = z3.Select(cur.has, k)
        nv = ex.construct(v.vty, vv, st) if isinstance(vv, list) else ex.conv(vv, v.vty, st)
        if isinstance(nv, LP) and nv.lv is None: nv = HP(z3.IntVal(0), None)
        old = select(cur.val, k)
        ex.store(o, Mp(z3.Store(cur.has, k, z3.BoolVal(True)), store(cur.val, k, ite(f, old, nv)), cur.kty, cur.vty), st)
        return R(Ty('pair', args=[TINT, TBOOL], q='std::pair'), {'first': IT('map', o, k, z3.BoolVal(True)), 'second': z3.Not(f)})
    if n == 'insert_or_assign':
        k = key_enc(v.kty, ex.conv(Rv(0), v.kty, st)); x = ex.conv(Rv(1), v.vty, st)
        f = z3.Select(v.has, k)
        ex.store(o, Mp(z3.Store(v.has, k, z3.BoolVal(True)), store(v.val, k, x), v.kty, v.vty), st)
        return R(Ty('pair', args=[TINT, TBOOL], q='std::pair'), {'first': IT('map', o, k, z3.BoolVal(True)), 'second': z3.Not(f)})
    if n == 'erase':
        x = Rv(0)
        if isinstance(x, IT):
            ex.ob(st, x.found, 'erase of a valid iterator', 'safety', line)
            ex.store(o, Mp(z3.Store(v.has, x.pos, z3.BoolVal(False)), v.val, v.kty, v.vty), st); return UNIT
        k = key_enc(v.kty, x)
        f = z3.Select(v.has, k)
        ex.store(o, Mp(z3.Store(v.has, k, z3.BoolVal(False)), v.val, v.kty, v.vty), st)
        return z3.If(f, z3.IntVal(1), z3.IntVal(0))
    if n == 'clear':
        ex.store(o, Mp(z3.K(key_sort(v.kty), z3.BoolVal(False)), v.val, v.kty, v.vty), st); return UNIT
    if n == 'empty': return is_empty(ex, v, st)
    if n == 'size':
        return ex.enum(v, st)[1]
    raise Unsupported('map::%s' % n)
def set_member(ex, n, o, v, e, st):
    args = e['a']; line = e.get('l'); Rv = lambda i: ex.rv(args[i], st)
    if not isinstance(o, (LV, HLV)): o = ex.temp(v, st)
    if n in ('find', 'contains', 'count'):
        k = key_enc(v.kty, Rv(0)); f = z3.Select(v.has, k)
        if n == 'find': return IT('set', o, k, f)
        if n == 'contains': return f
        return z3.If(f, z3.IntVal(1), z3.IntVal(0))
    if n in ('end', 'cend'): return IT('set', o, None, z3.BoolVal(False))
    if n in ('insert', 'emplace'):
        vals = [ex.ev(a, st) for a in args]
        if len(vals) > 1 and isinstance(val(ex, vals[0], st), IT): raise Unsupported('set range insert')
        x = ex.construct(v.kty, vals, st)
        k = key_enc(v.kty, x); cur = val(ex, o, st); f = z3.Select(cur.has, k)
        ex.store(o, St(z3.Store(cur.has, k, z3.BoolVal(True)), cur.kty), st)
        return R(Ty('pair', args=[TINT, TBOOL], q='std::pair'), {'first': IT('set', o, k, z3.BoolVal(True)), 'second': z3.Not(f)})
    if n == 'erase':
        x = Rv(0); k = x.pos if isinstance(x, IT) else key_enc(v.kty, x)
        ex.store(o, St(z3.Store(v.has, k, z3.BoolVal(False)), v.kty), st); return UNIT
    if n == 'clear': ex.store(o, St(z3.K(key_sort(v.kty), z3.BoolVal(False)), v.kty), st); return UNIT
    if n == 'empty': return is_empty(ex, v, st)
    if n == 'size': return ex.enum(v, st)[1]
    raise Unsupported('set::%s' % n)

# ---------------------------------------------------------------- operators
def opcall(ex, e, c, st):
    n = c['q'].split('::')[-1]; q = c['q']; op = e.get('op'); args = e['a']; line = e.get('l')
    # streams
    if op == '<<' and len(args) == 2:
        a = ex.ev(args[0], st); av = val(ex, a, st)
        if q.startswith('Eigen::DenseBase') or (isinstance(av, M) and not q.startswith('std::')):
            x = ex.rv(args[1], st)
            return comma(ex, a, av, x, st)
        x = ex.ev(args[1], st)
        if is_leaf(av) and av.sort() == Str:
            t = ex.T(args[1]['t'])
            if isinstance(a, LV) and isinstance(a.cell, tuple) and (str(a.cell[1]).startswith('log') or str(a.cell[1]).startswith('msg')): return a
            ex.store(a, cat(val(ex, a, st), text_of(ex, x, st, t if t.k != 'ref' else t.e)), st)
            return a
        if isinstance(av, OP): return a
        if isinstance(av, V) and av.ety is TCHAR: return a
        raise Unsupported('operator<<')
    if op == ',' and 'CommaInitializer' in q:
        a = ex.rv(args[0], st); x = ex.rv(args[1], st)
        return comma_add(ex, a, x, st)
    if op == '&' and 'Voidify' in q:
        for x in args: ex.ev(x, st)
        return UNIT
    if op == '=' and len(args) == 2:
        # right operand first
        x = ex.ev(args[1], st); xv = val(ex, x, st)
        a = ex.ev(args[0], st); av = val(ex, a, st)
        t = ex.T(args[0]['t'])
        if t.k == 'ref': t = t.e
        if isinstance(av, HP) or t.k == 'uptr':
            if isinstance(xv, HP) and isinstance(x, LV) and t.k == 'uptr': ex.store(x, HP(z3.IntVal(0), xv.to), st)
            if isinstance(xv, LP) and xv.lv is None or xv is UNIT: xv = HP(z3.IntVal(0), t.e)
            ex.store(a, xv, st); return a
        if isinstance(xv, A) and isinstance(av, V): xv = vec_from_list(ex, av.ety, xv.v, st)
        if is_leaf(av) and av.sort() == Str and is_leaf(xv) and xv.sort() == Int: xv = chr_of(xv)
        if t.k == 'mat' and (t.r < 0 or t.c < 0): ex.store(a, xv, st); return a
        if t.k not in ('opaque', 'lambda'): xv = ex.conv(xv, t, st)
        elif isinstance(xv, A) and not xv.v: raise Unsupported('assignment from {}')
        ex.store(a, xv, st)
        return a
    vals = [ex.ev(a, st) for a in args]
    vs = [val(ex, x, st) for x in vals]
    a = vs[0]; b = vs[1] if len(vs) > 1 else None
    # comparison of library objects
    if op in ('==', '!=', '<', '>', '<=', '>='):
        if isinstance(a, IT) and isinstance(b, IT): return it_cmp(ex, op, a, b, st)
        if isinstance(a, (HP, LP)) or isinstance(b, (HP, LP)):
            r = ptr_eq(a, b) if not (b is UNIT or a is UNIT) else ptr_eq(a if b is UNIT else b, LP(None, z3.BoolVal(True)))
            return r if op == '==' else z3.Not(r)
        if op in ('==', '!='):
            if is_leaf(a) and is_leaf(b):
                if a.sort() != b.sort(): raise Unsupported('comparison')
                r = a == b
            elif isinstance(a, M) and isinstance(b, M): r = z3.And([ex.compare('==', x, y, st) for x, y in zip(a.v, b.v)])
            elif isinstance(a, (V, A, R)) and type(a) is type(b): r = teq(a, b)
            else: raise Unsupported('comparison of %s' % type(a).__name__)
            return r if op == '==' else z3.Not(r)
        if is_leaf(a) and is_leaf(b) and a.sort() == Str:
            return {'<': a < b, '<=': a <= b, '>': b < a, '>=': b <= a}[op]
        if isinstance(a, R) and isinstance(b, R):
            la, lb = leaves(a), leaves(b)
            r = z3.BoolVal(op in ('<=', '>='))
            for x, y in reversed(list(zip(la, lb))): r = z3.If(x == y, r, x < y if op in ('<', '<=') else x > y)
            return r
        raise Unsupported('ordering of %s' % type(a).__name__)
    # iterators and pointers
    if isinstance(a, IT):
        if op == '*' and b is None: return it_deref(ex, a, st, line)
        if op == '->': return a          # the member access dereferences
        if op in ('++', '--'):
            d = 1 if op == '++' else -1
            if a.kind == 'rvec': d = -d
            if a.pos is None or a.kind in ('map', 'set'): raise Unsupported('map iterator arithmetic')
            new = IT(a.kind, a.lv, a.pos + d, a.found)
            if isinstance(vals[0], (LV,)): ex.store(vals[0], new, st)
            return a if len(args) == 2 else (vals[0] if isinstance(vals[0], LV) else new)
        if op in ('+', '-'):
            if isinstance(b, IT): return a.pos - b.pos if a.kind != 'rvec' else b.pos - a.pos
            d = b if (op == '+') != (a.kind == 'rvec') else -b
            return IT(a.kind, a.lv, a.pos + d, a.found)
        if op in ('+=', '-='):
            new = IT(a.kind, a.lv, a.pos + (b if op == '+=' else -b), a.found); ex.store(vals[0], new, st); return vals[0]
        if op == '[]': return elem(ex, a.lv, a.pos + b, st, line)
    if isinstance(a, (HP, LP)):
        if op == '*': return ex.deref(a, st, line)
        if op == '->': return a
    if isinstance(a, OP):
        if op == '*' and a.name == 'text': return a
        if op == '!' and a.name == 'fstream': return z3.Or(a.f['state'] == 4, a.f['state'] == 1, a.f['state'] == 5)
        if op == '!' and a.name == 'getline': return z3.Not(a.f['ok'])
    if op == '*' and b is None and is_leaf(a): return a      # split iterator element
    if op == '|' and is_leaf(a) and a.sort() == Int:
        sa, sb = simp(a), simp(b)
        if z3.is_int_value(sa) and z3.is_int_value(sb): return z3.IntVal(sa.as_long() | sb.as_long())
        return z3.Function('bitor', Int, Int, Int)(a, b)
    # element access
    if op == '[]':
        if isinstance(a, Mp):
            o = vals[0] if isinstance(vals[0], LV) else ex.temp(a, st)
            k = key_enc(a.kty, ex.conv(b, a.kty, st))
            f = z3.Select(a.has, k)
            if not ex.quick(st, f, 100):
                d = ex.default(a.vty, st, True)
                ex.store(o, Mp(z3.Store(a.has, k, z3.BoolVal(True)), store(a.val, k, ite(f, select(a.val, k), d) if not z3.is_false(simp(f)) else d), a.kty, a.vty), st)
            return o.f(('k', k))
        if isinstance(a, M): return mat_index(ex, vals[0], a, [simp(b)])
        if isinstance(a, V) and isinstance(a.e, M) and q.startswith('Eigen'):
            if a.e.c != 1: raise Unsupported('matrix []')
            return elem(ex, vals[0], b, st, line).f(('m', 0, 0))
        return elem(ex, vals[0], b, st, line)
    if op == '()' and isinstance(a, M): return mat_index(ex, vals[0], a, [simp(x) for x in vs[1:]])
    if op == '()' and isinstance(a, V) and isinstance(a.e, M):
        j = simp(vs[2]) if len(vs) > 2 else z3.IntVal(0)
        if not z3.is_int_value(j): raise Unsupported('matrix column index')
        return elem(ex, vals[0], vs[1], st, line).f(('m', 0, j.as_long()))
    # strings
    if is_leaf(a) and a.sort() == Str and op in ('+', '+='):
        x = chr_of(b) if is_leaf(b) and b.sort() == Int else b
        if op == '+': return cat(a, x)
        ex.store(vals[0], cat(val(ex, vals[0], st), x), st); return vals[0]
    if is_leaf(b) and is_leaf(a) and op == '+' and b.sort() == Str and a.sort() == Int: return cat(chr_of(a), b)
    if isinstance(a, V) and a.ety is TCHAR and op == '+=' and is_leaf(b): return (vpush(ex, vals[0], a, b, st), vals[0])[1]
    # Eigen arithmetic
    if isinstance(a, (M, DM)) or isinstance(b, (M, DM)) or isinstance(b, V) and isinstance(a, DM):
        if op == '-' and b is None: return M(a.r, a.c, [ex.arith('*', z3.RealVal(-1), x, st, False) if isinstance(x, XR) else -x for x in a.v])
        base = op[:-1] if op in ('+=', '-=', '*=', '/=') else op
        if base in ('+', '-'):
            if (a.r, a.c) != (b.r, b.c): raise Unsupported('matrix sizes')
            r = M(a.r, a.c, [ex.arith(base, x, y, st, False) for x, y in zip(a.v, b.v)])
        elif base == '*' and isinstance(a, M) and is_leaf(b) or base == '*' and isinstance(a, M) and isinstance(b, XR):
            r = M(a.r, a.c, [ex.arith('*', x, real(b) if is_leaf(b) else b, st, False) for x in a.v])
        elif base == '*' and isinstance(b, M) and (is_leaf(a) or isinstance(a, XR)):
            r = M(b.r, b.c, [ex.arith('*', real(a) if is_leaf(a) else a, x, st, False) for x in b.v])
        elif base == '*': r = matmul(ex, a, b, st)
        elif base == '/': r = M(a.r, a.c, [ex.arith('/', x, real(b) if is_leaf(b) else b, st, False) for x in a.v])
        else: raise Unsupported('matrix operator %s' % op)
        if base != op: ex.store(vals[0], r, st); return vals[0]
        return r
    if isinstance(a, FN) or (isinstance(a, OP) and a.name.startswith('fn')): return ex.call_fn(a, vals[1:], st)
    raise Unsupported('operator %s (%s) on %s' % (op, q, type(a).__name__))

def comma(ex, a, av, x, st):
    o = CommaV(av.r, av.c, [], a if isinstance(a, LV) else None)
    return comma_add(ex, o, x, st)
class CommaV(OP):
    __slots__ = ('r', 'c', 'vals', 'lv')
    def __init__(s, r, c, vals, lv):
        OP.__init__(s, 'comma', {}); s.r, s.c, s.vals, s.lv = r, c, vals, lv
def comma_add(ex, o, x, st):
    if not isinstance(o, CommaV): raise Unsupported('comma initialiser')
    if isinstance(x, M):
        if x.r != 1 or (o.c != x.c and o.r != 1): raise Unsupported('comma initialiser of blocks')
        nv = o.vals + list(x.v)
    else: nv = o.vals + [real(x)]
    n = CommaV(o.r, o.c, nv, o.lv)
    if len(nv) == o.r * o.c and o.lv is not None: ex.store(o.lv, M(o.r, o.c, nv), st)
    return n
def comma_done(ex, v):
    if len(v.vals) != v.r * v.c: raise Unsupported('comma initialiser with a wrong number of values')
    return M(v.r, v.c, v.vals)

# ---------------------------------------------------------------- free functions
def call(ex, e, c, st):
    q = c['q']; n = name_of(c); args = e['a']; line = e.get('l')
    Rv = lambda i: ex.rv(args[i], st)
    if q in ('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const'): return ex.ev(args[0], st)
    if q == '__builtin_expect': return ex.rv(args[0], st)
    if q in ('std::min', 'std::max') and len(args) == 1:
        w = Rv(0)
        if not isinstance(w, (V, A)): raise Unsupported('min of a list')
        k = len(w.v) if isinstance(w, A) else (simp(w.n).as_long() if z3.is_int_value(simp(w.n)) else 0)
        if not 1 <= k <= 16: raise Unsupported('min of a list')
        xs = list(w.v) if isinstance(w, A) else [w.at(z3.IntVal(i)) for i in range(k)]; r = xs[0]
        for x in xs[1:]: r = ite(ex.compare('<', x, r, st) if n == 'min' else ex.compare('<', r, x, st), x, r)
        return r
    if q in ('std::min', 'std::max', 'fmin', 'fmax', 'std::fmin', 'std::fmax') and len(args) == 2:
        x, y = ex.ev(args[0], st), ex.ev(args[1], st)
        a, b = val(ex, x, st), val(ex, y, st)
        c_ = ex.compare('<', b, a, st) if n in ('min', 'fmin') else ex.compare('<', a, b, st)
        return ite(c_, b, a)
    if q == 'std::clamp': 
        a, lo, hi = Rv(0), Rv(1), Rv(2)
        return ite(ex.compare('<', a, lo, st), lo, ite(ex.compare('<', hi, a, st), hi, a))
    if q == 'std::minmax': raise Unsupported('minmax')
    if n == 'swap' and q in ('std::swap', 'swap') and len(args) == 2:
        x, y = ex.ev(args[0], st), ex.ev(args[1], st)
        a, b = val(ex, x, st), val(ex, y, st)
        if isinstance(a, A) and not isinstance(b, A): raise Unsupported('swap')
        ex.store(x, b, st); ex.store(y, a, st)
        return UNIT
    if q == 'std::get':
        m = re.match(r'_ZSt3getILm(\d+)E', c['m'])
        if not m: raise Unsupported('std::get by type')
        o = ex.ev(args[0], st); v = val(ex, o, st); i = int(m.group(1))
        if isinstance(v, R) and v.ty is not None and v.ty.k == 'pair': nm = ('first', 'second')[i]
        elif isinstance(v, R): nm = str(i)
        elif isinstance(v, A): return elem(ex, o, z3.IntVal(i), st, line)
        else: raise Unsupported('std::get')
        return ex.member_of(o, nm, None, st) if isinstance(o, (LV, CLV, HLV)) else v.f[nm]
    if q in ('std::abs', 'fabs', 'std::fabs', 'abs', 'fabsf'):
        x = ex.xcollapse(Rv(0), st)
        if isinstance(x, XR): return XR(z3.If(x.v >= 0, x.v, -x.v), z3.If(x.k == 2, z3.IntVal(1), x.k))
        return z3.If(x >= 0, x, -x)
    if n == 'pow':
        a, b = ex.fin(real(Rv(0)), st), simp(real(Rv(1)))
        if z3.is_rational_value(b) and b.denominator_as_long() == 1 and 0 <= b.numerator_as_long() <= 4:
            r = z3.RealVal(1)
            for _ in range(b.numerator_as_long()): r = r * a
            return r
        return powf(a, b)
    if n in ('floor', 'floorf', 'ceil', 'ceilf', 'round', 'roundf', 'lround', 'llround', 'lroundf'):
        x = ex.fin(real(Rv(0)), st); half = z3.RealVal('1/2')
        r = z3.ToInt(x) if n[0] == 'f' else -z3.ToInt(-x) if n[0] == 'c' else z3.If(x >= 0, z3.ToInt(x + half), -z3.ToInt(half - x))
        return r if n[0] == 'l' else z3.ToReal(r)
    if n in ('fma', 'fmaf') and len(args) == 3: a, b, d = [ex.fin(real(Rv(i)), st) for i in range(3)]; return a * b + d
    if n in ('copysign', 'copysignf'):
        a, b = [ex.fin(real(Rv(i)), st) for i in range(2)]; m_ = z3.If(a >= 0, a, -a); return z3.If(b >= 0, m_, -m_)
    if n == 'isinf':
        x = Rv(0); return z3.Or(x.k == 1, x.k == 2) if isinstance(x, XR) else z3.BoolVal(False)
    if n == 'hypot' and len(args) == 3:
        a, b, d = [ex.fin(real(Rv(i)), st) for i in range(3)]; return sqrt(ex, a * a + b * b + d * d, st, True)
    if n == 'sqrt': return sqrt(ex, ex.fin(Rv(0), st), st)
    if n == 'strlen':
        x = Rv(0)
        if not (is_leaf(x) and x.sort() == Str): raise Unsupported('strlen')
        return z3.Length(cstr(x))
    if n == 'hypot':
        a, b = real(Rv(0)), real(Rv(1)); r = sqrt(ex, a * a + b * b, st, True)
        st.assume(r == E_sqrtf(simp(a * a + b * b))); return r
    if n in ('sin', 'cos'): return trig(ex, n, Rv(0), st)
    if n == 'atan2': return atan2f(ex.fin(real(Rv(0)), st), ex.fin(real(Rv(1)), st))
    if n == 'acos': return acosf(simp(ex.fin(real(Rv(0)), st)))
    if n == 'isfinite':
        x = Rv(0); return x.k == 0 if isinstance(x, XR) else z3.BoolVal(True)
    if n == 'isnan':
        x = Rv(0); return x.k == 3 if isinstance(x, XR) else z3.BoolVal(False)
    if q == 'std::numeric_limits::max':
        t = ex.T(e['t'])
        if t.k == 'real': return DBL_MAX
        return z3.IntVal(2 ** (t.bits - (1 if t.signed else 0)) - 1)
    if q == 'std::numeric_limits::lowest' and ex.T(e['t']).k == 'real': return -DBL_MAX
    if q == 'std::numeric_limits::infinity': return XR(z3.RealVal(0), z3.IntVal(1))
    if n in ('feholdexcept', 'fesetenv', 'fegetenv', 'feclearexcept'): return z3.IntVal(0)
    if q in ('std::make_pair', 'std::make_tuple', 'std::tie'):
        vs = [Rv(i) for i in range(len(args))]
        t = ex.T(e['t'])
        return ex.construct(t, vs, st)
    if q == 'absl::WrapUnique': return Rv(0)
    if n in ('truncf', 'trunc'):
        x = ex.fin(real(Rv(0)), st); return z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))
    if n in ('strtof', 'strtod'):
        x = Rv(0); x = val(ex, x, st) if isinstance(x, (LV, HLV)) else x
        if not (is_leaf(x) and x.sort() == Str) or not (lambda w: isinstance(w, (LP, HP)) or w is UNIT)(Rv(1)): raise Unsupported('strtof')
        return XR(NUMVAL(x), z3.If(NUMFITS(x), 0, z3.If(NUMNEG(x), 2, 1)))
    if q in ('std::make_unique',):
        t = ex.T(e['t'])
        vals = [ex.ev(a, st) for a in args]
        v = ex.construct(t.e, vals, st)
        id_ = ex.newid(st); ex.tagfacts(st, id_, t.e) if t.e.k == 'rec' else None
        ex.store(HLV(id_, t.e), v, st)
        return HP(id_, t.e)
    if q in ('std::begin', 'std::cbegin', 'std::end', 'std::cend', 'std::size', 'std::empty', 'std::data'):
        o = ex.ev(args[0], st); v = val(ex, o, st)
        if isinstance(v, (V, A)):
            if n in ('begin', 'cbegin', 'data'): return IT('vec', o, z3.IntVal(0))
            nn = v.n if isinstance(v, V) else z3.IntVal(len(v.v))
            return IT('vec', o, nn) if n in ('end', 'cend') else nn if n == 'size' else nn == 0
    if q in ('std::next', 'std::prev') and args:
        it = Rv(0); d = Rv(1) if len(args) > 1 else z3.IntVal(1)
        if isinstance(it, IT) and it.pos is not None: return IT(it.kind, it.lv, it.pos + (d if n == 'next' else -d), it.found)
    if q == 'std::distance':
        a, b = Rv(0), Rv(1); return b.pos - a.pos
    if q in ('std::sort', 'std::stable_sort'): return sort(ex, e, st)
    if q in ('std::find_if', 'std::any_of', 'std::none_of', 'std::all_of', 'std::find', 'std::count_if', 'std::find_if_not'): return find_if(ex, n, e, st)
    if q == 'std::getline':
        o = ex.ev(args[0], st); v = val(ex, o, st); dst = ex.ev(args[1], st)
        if not isinstance(v, OP) or v.name != 'istream': raise Unsupported('getline')
        ok = z3.And(v.f['pos'] < v.f['n'], z3.Not(v.f['ended']))
        old = val(ex, dst, st)
        ex.store(dst, z3.If(ok, z3.Select(v.f['line'], v.f['pos']), fresh(Str, 'noline')), st)
        ex.store(o, OP('istream', {**v.f, 'pos': z3.If(ok, v.f['pos'] + 1, v.f['pos']), 'ended': z3.Not(ok)}), st)
        return OP('getline', {'ok': ok})
    if q == 'fprintf' or q == 'std::fprintf':
        o = ex.rv(args[0], st) if False else None
        vals = [ex.rv(a, st) for a in args[1:]]
        t = printf(ex, vals[0], vals[1:], st)
        c_ = 'io:cerr'
        st.cells[c_] = cat(st.cells.get(c_, z3.StringVal('')), t)
        return z3.IntVal(0)
    # --- absl
    if q == 'absl::GetFlag':
        g = args[0].get('g') or args[0].get('n')
        t = ex.T(e['t'])
        if t.k == 'str': return flag(g, Str)
        if t.k == 'bool': return flag(g, Bool)
        if t.k == 'int': return flag(g, Int)
        raise Unsupported('flag type')
    if q == 'absl::StrCat' or q == 'absl::StrAppend':
        parts = []
        for a in (args if n == 'StrCat' else args[1:]):
            v = ex.rv(a, st); at = ex.T(a['t'])
            parts.append(text_of(ex, v, st, at if at.k != 'ref' else at.e))
        if n == 'StrCat': return cat(*parts)
        o = ex.ev(args[0], st); o = val(ex, o, st) if isinstance(val(ex, o, st), LP) else o
        if isinstance(o, LP): ex.store(o.lv, cat(ex.load(o.lv, st), *parts), st); return UNIT
        raise Unsupported('StrAppend')
    if q == 'std::to_string':
        v = Rv(0)
        if v.sort() == Int: return intstr(v)
        raise Unsupported('to_string of a double')
    if q == 'absl::Substitute':
        f = Rv(0)
        vals = []
        for a in args[1:]:
            v = ex.rv(a, st)
            if isinstance(v, OP) and v.name == 'text': vals.append(v.f['s'])
            elif v is UNIT or (isinstance(v, OP) and v.name != 'text'): continue
            else: vals.append(text_of(ex, v, st))
        return substitute(f, vals)
    if q == 'absl::StrFormat':
        f = Rv(0)
        if isinstance(f, OP) and f.name == 'fmt':
            v = ex.fin(real(Rv(1)), st); ex.opt.setdefault('formatted', []).append((f.f['s'], v)); return fmtd(f.f['s'], v)
        if is_leaf(f) and f.sort() == Str and len(args) == 2: return fmtd(f, ex.fin(real(Rv(1)), st))
        raise Unsupported('StrFormat')
    if q.endswith('ExtendedParsedFormat::New'):
        s = Rv(0)
        return LP(ex.temp(OP('fmt', {'s': s}), st, 'pfmt'), z3.Not(validfmt(s)))
    if q == 'absl::StrSplit':
        t = Rv(0); d = Rv(1)
        if is_leaf(d) and d.sort() == Int: d = chr_of(d)
        if not is_leaf(d): raise Unsupported('StrSplit delimiter')
        if len(args) > 2:
            p = Rv(2)
            if isinstance(p, OP) and p.name == 'skipempty': return OP('splitne', {'text': t, 'delim': cat(d, z3.StringVal('!skip-empty'))})
            raise Unsupported('StrSplit predicate')
        return OP('split', {'text': t, 'delim': d})
    if q == 'absl::StrJoin':
        v = Rv(0); d = Rv(1)
        if isinstance(v, V):
            return join(ex, v, d, st)
        raise Unsupported('StrJoin')
    if q == 'RE2::FullMatch': return fullmatch(ex, e, st)
    if q in ('absl::ParseCommandLine',): return UNIT
    if q in ('absl::InitializeLog',): return UNIT
    if q in ('std::exit', 'exit', 'abort', 'std::abort'):
        if not ex.opt.get('abort_ok'): ex.ob(st, z3.BoolVal(False), 'the program is not ended here', 'safety', line)
        ex.kill(st); return UNIT
    raise Unsupported('call of %s' % q)

joinf = z3.Function('join', z3.ArraySort(Int, Str), Int, Str, Str)
def join(ex, v, d, st):
    """absl::StrJoin, spelled out for up to three elements"""
    e0, e1, e2 = [z3.Select(v.e, z3.IntVal(i)) for i in range(3)]
    return z3.If(v.n == 0, z3.StringVal(''), z3.If(v.n == 1, e0, z3.If(v.n == 2, cat(e0, d, e1), z3.If(v.n == 3, cat(e0, d, e1, d, e2), joinf(v.e, v.n, d)))))

def fullmatch(ex, e, st):
    args = e['a']
    line = ex.rv(args[0], st); re_ = ex.rv(args[1], st)
    if not (isinstance(re_, OP) and re_.name.startswith('re2:')): raise Unsupported('regex object')
    pat = re_.name[4:]
    m = form(pat, None if ex.dry else ex, e.get('l'))(line)
    k = len(args) - 2; capok, cap = numbers(pat)
    oks = [capok(line, z3.IntVal(i)) for i in range(k)]
    ok = z3.And([m] + oks)
    for i in range(k):
        p = ex.rv(args[2 + i], st)
        if not isinstance(p, LP): raise Unsupported('regex capture')
        old = ex.load(p.lv, st)
        if not (is_leaf(old) and old.sort() == Real): raise Unsupported('regex capture type')
        # a failing match may leave any earlier captures assigned
        ex.store(p.lv, z3.If(ok, cap(line, z3.IntVal(i)), fresh(Real, 'cap')), st)
    return ok

def generic_pred(ex, st, fn, vals):
    """truth value of a predicate applied to symbolic element values, as a pure term"""
    t = st.copy()
    nf = len(t.facts); npc = len(t.pc)
    ex.dry += 1
    try: r = ex.boolv(val(ex, ex.call_fn(fn, vals, t), t))
    finally: ex.dry -= 1
    if len(t.facts) != nf or len(t.pc) != npc: raise Unsupported('predicate with side conditions')
    return r

def find_if(ex, n, e, st):
    args = e['a']
    a, b = ex.rv(args[0], st), ex.rv(args[1], st)
    if not (isinstance(a, IT) and isinstance(b, IT) and a.kind in ('vec', 'arr') and b.kind == a.kind): raise Unsupported('find_if range')
    c = ex.load(a.lv, st)
    i = fresh(Int, 'i')
    if n == 'find':
        x = ex.rv(args[2], st); P = lambda j: teq(c.at(j), x)
    else:
        fn = ex.rv(args[2], st)
        el = ex.temp(c.at(i), st, 'pel') if isinstance(c, V) else None
        if el is None: raise Unsupported('find_if over an array')
        body = generic_pred(ex, st, fn, [el])
        if n in ('find_if_not', 'all_of'): body = z3.Not(body)
        P = lambda j: z3.substitute(body, (i, j))
    r = fresh(Int, 'found'); ex.opt['found'] = r
    j = fresh(Int, 'j')
    ls = [x for x in leaves(c.at(j)) if z3.is_select(x)]
    st.assume(r >= a.pos, r <= b.pos, z3.Implies(r < b.pos, P(r)),
              z3.ForAll([j], z3.Implies(z3.And(a.pos <= j, j < r), z3.Not(P(j))), **({'patterns': [z3.MultiPattern(*ls) if len(ls) > 1 and False else ls[0]]} if ls else {})))
    st.assume(a.pos <= b.pos)
    if n in ('find_if', 'find', 'find_if_not'): return IT(a.kind, a.lv, r)
    if n == 'any_of': return r < b.pos
    if n in ('none_of', 'all_of'): return r == b.pos
    raise Unsupported(n)

def default_less(ex, x, y, st):
    x, y = val(ex, x, st), val(ex, y, st)
    if is_leaf(x): return x < y
    if isinstance(x, R): 
        la, lb = leaves(x), leaves(y)
        r = z3.BoolVal(False)
        for p, q in reversed(list(zip(la, lb))): r = z3.If(p == q, r, p < q)
        return r
    raise Unsupported('sort without comparator')

def sort(ex, e, st):
    args = e['a']
    a, b = ex.rv(args[0], st), ex.rv(args[1], st)
    fn = ex.rv(args[2], st) if len(args) > 2 else None
    if isinstance(a, LP): a = IT('arr', a.lv, z3.IntVal(0))
    if not (isinstance(a, IT) and isinstance(b, IT)): raise Unsupported('sort range')
    c = ex.load(a.lv, st)
    def less(x, y):
        if fn is None: return default_less(ex, x, y, st)
        return generic_pred(ex, st, fn, [ex.temp(x, st, 'sx'), ex.temp(y, st, 'sy')])
    if isinstance(c, A):
        if not z3.is_int_value(simp(a.pos)) or simp(a.pos).as_long() != 0: raise Unsupported('sort of a part of an array')
        N = len(c.v); n = b.pos
        ex.hook('before sort of an array', st, c, n)
        ex.ob(st, z3.And(n >= 0, n <= N), 'sort range in bounds', 'safety', e.get('l'))
        ps = [fresh(Int, 'perm') for _ in range(N)]
        new = []
        for i in range(N):
            st.assume(z3.Implies(i < n, z3.And(ps[i] >= 0, ps[i] < n)), z3.Implies(i >= n, ps[i] == i))
            x = c.v[N - 1]
            for j in range(N - 2, -1, -1): x = ite(ps[i] == j, c.v[j], x)
            # name the result
            y = tmap(lambda l: fresh(l.sort(), 'sorted'), x)
            for p, q in zip(leaves(y), leaves(x)): st.assume(p == q)
            new.append(y)
        st.assume(z3.Distinct(ps))
        for i in range(N):
            for j in range(i + 1, N):
                st.assume(z3.Implies(j < n, z3.Not(less(new[j], new[i]))))
        ex.store(a.lv, A(new, c.ety), st)
        ex.hook('after sort of an array', st, A(new, c.ety), n)
        return UNIT
    if isinstance(c, V):
        if not (ex.quick(st, a.pos == 0) and ex.quick(st, b.pos == c.n)): raise Unsupported('sort of a part of a vector')
        def nm(l):
            if z3.is_const(l): return l
            k = fresh(l.sort(), 'unsorted'); st.assume(k == l); return k
        c = V(c.n, tmap(nm, c.e), c.ety)
        new = tmap(lambda l: fresh(l.sort(), 'sorted'), c.e)
        perm = z3.Function(fresh_name('perm'), Int, Int); inv = z3.Function(fresh_name('permi'), Int, Int)
        i, j = fresh(Int, 'i'), fresh(Int, 'j')
        ins = lambda k: z3.And(0 <= k, k < c.n)
        l0 = leaves(new)[0]
        st.assume(z3.ForAll([i], z3.Implies(ins(i), z3.And([ins(perm(i)), inv(perm(i)) == i] + [z3.Select(x, i) == z3.Select(y, perm(i)) for x, y in zip(leaves(new), leaves(c.e))])), patterns=[z3.Select(l0, i), perm(i)]),
                  z3.ForAll([i], z3.Implies(ins(i), z3.And(ins(inv(i)), perm(inv(i)) == i)), patterns=[z3.Select(leaves(c.e)[0], i), inv(i)]))
        lt = less(select(new, j), select(new, i))
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < c.n), z3.Not(lt)), patterns=[z3.MultiPattern(z3.Select(l0, i), z3.Select(l0, j))]))
        ex.store(a.lv, V(c.n, new, c.ety), st)
        ex.opt.setdefault('sorts', []).append((c, perm, inv, new))
        return UNIT
    raise Unsupported('sort')
