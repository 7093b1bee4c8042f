"""Types and symbolic values of the verifier: trees whose leaves are z3 expressions."""
import z3
from fractions import Fraction

Int, Real, Bool, Str = z3.IntSort(), z3.RealSort(), z3.BoolSort(), z3.StringSort()

class Unsupported(Exception):
    """A construct outside the verified subset: the function falls back to the bounded stand-in."""

class Ty:
    __slots__ = ('k', 'e', 'n', 'r', 'c', 'q', 'key', 'fields', 'bits', 'signed', 'args', 'cmp', 'rid', 'tu', 'bases', 'poly')
    def __init__(s, k, **kw):
        s.k = k
        for a in Ty.__slots__[1:]: setattr(s, a, kw.get(a))
    def __repr__(s):
        if s.k in ('rec', 'opaque'): return '%s' % (s.key or s.q)
        if s.k == 'mat': return 'mat%dx%d' % (s.r, s.c)
        if s.k in ('vec', 'ptr', 'ref', 'uptr', 'set'): return '%s<%r>' % (s.k, s.e)
        if s.k in ('map', 'mmap'): return '%s<%r,%r>' % (s.k, s.args[0], s.args[1])
        if s.k in ('pair', 'tuple'): return '%s<%s>' % (s.k, ','.join(map(repr, s.args)))
        if s.k == 'arr': return 'arr<%r,%s>' % (s.e, s.n)
        return s.k

TINT = Ty('int', bits=32, signed=True); TSIZE = Ty('int', bits=64, signed=False)
TBOOL = Ty('bool'); TREAL = Ty('real'); TSTR = Ty('str'); TVOID = Ty('void')
TCHAR = Ty('int', bits=8, signed=True)
def TMAT(r, c): return Ty('mat', r=r, c=c)

_ctr = [0]
def fresh_name(p='v'):
    _ctr[0] += 1
    return '%s!%d' % (p, _ctr[0])
def fresh(sort, p='v'):
    return z3.Const(fresh_name(p), sort)

class M:            # Eigen matrix, fixed size
    __slots__ = ('r', 'c', 'v')
    def __init__(s, r, c, v): s.r, s.c, s.v = r, c, tuple(v)
    def at(s, i, j): return s.v[i * s.c + j]
    @property
    def x(s): return s.v[0]
    @property
    def y(s): return s.v[1]
    @property
    def z(s): return s.v[2]
class R:            # struct / pair / tuple
    __slots__ = ('ty', 'f')
    def __init__(s, ty, f): s.ty, s.f = ty, f
    def __getattr__(s, n):
        try: return s.f[n]
        except KeyError: raise AttributeError(n)
    def __getitem__(s, n): return s.f[n]
class V:            # sequence container: length + lifted element tree (+ ghost position map)
    __slots__ = ('n', 'e', 'ety', 'pos')
    def __init__(s, n, e, ety, pos=None): s.n, s.e, s.ety, s.pos = n, e, ety, pos
    def at(s, i): return select(s.e, i)
class A:            # array of known length
    __slots__ = ('v', 'ety')
    def __init__(s, v, ety): s.v, s.ety = list(v), ety
class Mp:           # std::map (has/val over encoded key)
    __slots__ = ('has', 'val', 'kty', 'vty')
    def __init__(s, has, val, kty, vty): s.has, s.val, s.kty, s.vty = has, val, kty, vty
class St:           # std::set
    __slots__ = ('has', 'kty')
    def __init__(s, has, kty): s.has, s.kty = has, kty
class HP:           # pointer to a heap object: integer identity (0 = null)
    __slots__ = ('id', 'to')
    def __init__(s, id, to): s.id, s.to = id, to
class LP:           # pointer to an lvalue, null when cond holds
    __slots__ = ('lv', 'null', 'to')
    def __init__(s, lv, null=None, to=None): s.lv, s.null, s.to = lv, (null if null is not None else z3.BoolVal(False)), to
class IT:           # iterator
    __slots__ = ('kind', 'lv', 'pos', 'found')
    def __init__(s, kind, lv, pos, found=None): s.kind, s.lv, s.pos, s.found = kind, lv, pos, found
class FN:           # lambda closure
    __slots__ = ('m', 'caps', 'this', 'byval')
    def __init__(s, m, caps, this, byval): s.m, s.caps, s.this, s.byval = m, caps, this, byval
class XR:           # extended real: k 0 finite, 1 +inf, 2 -inf, 3 nan
    __slots__ = ('v', 'k')
    def __init__(s, v, k): s.v, s.k = v, k
class OP:           # opaque object with named z3 attributes
    __slots__ = ('name', 'f')
    def __init__(s, name, f=None): s.name, s.f = name, dict(f or {})
class DM:           # dynamic-size matrix: symbolic rows (or columns), see eigen builtins
    __slots__ = ('kind', 'n', 'd')
    def __init__(s, kind, n, d): s.kind, s.n, s.d = kind, n, d
UNIT = OP('unit')

class LV:
    __slots__ = ('cell', 'path')
    def __init__(s, cell, path=()): s.cell, s.path = cell, tuple(path)
    def f(s, *steps): return LV(s.cell, s.path + tuple(steps))
    def __repr__(s): return 'LV(%s,%s)' % (s.cell, s.path)
class HLV:          # lvalue of a heap object of (static) record type ty
    __slots__ = ('id', 'ty')
    def __init__(s, id, ty): s.id, s.ty = id, ty
class CLV:          # conditional lvalue
    __slots__ = ('c', 'a', 'b')
    def __init__(s, c, a, b): s.c, s.a, s.b = c, a, b
class PLV(CLV):     # map element reached through an iterator: key value and lvalue of the mapped value
    __slots__ = ('first', 'second', 'ty')
    def __init__(s, first, second, ty): s.first, s.second, s.ty = first, second, ty; s.c = s.a = s.b = None

# ---------------------------------------------------------------- trees
def is_leaf(v): return isinstance(v, z3.ExprRef)

def leaves(v, out=None):
    if out is None: out = []
    if is_leaf(v): out.append(v)
    elif isinstance(v, M): out.extend(x for x in v.v if is_leaf(x)); [leaves(x, out) for x in v.v if not is_leaf(x)]
    elif isinstance(v, R):
        for k in sorted(v.f): leaves(v.f[k], out)
    elif isinstance(v, V):
        out.append(v.n); leaves(v.e, out)
        if v.pos is not None: out.append(v.pos)
    elif isinstance(v, A):
        for x in v.v: leaves(x, out)
    elif isinstance(v, Mp): out.append(v.has); leaves(v.val, out)
    elif isinstance(v, St): out.append(v.has)
    elif isinstance(v, HP): out.append(v.id)
    elif isinstance(v, XR): out.append(v.v); out.append(v.k)
    elif isinstance(v, OP):
        for k in sorted(v.f): leaves(v.f[k], out)
    elif isinstance(v, IT):
        if v.pos is not None: leaves(v.pos, out)
        if v.found is not None: out.append(v.found)
    elif isinstance(v, (FN, LP, LV, HLV, CLV, DM)) or v is None: pass
    else: raise Unsupported('leaves of %r' % (v,))
    return out

def tmap(f, v):
    if is_leaf(v): return f(v)
    if isinstance(v, M): return M(v.r, v.c, [tmap(f, x) for x in v.v])
    if isinstance(v, R): return R(v.ty, {k: tmap(f, x) for k, x in v.f.items()})
    if isinstance(v, V): return V(f(v.n), tmap(f, v.e), v.ety, f(v.pos) if v.pos is not None else None)
    if isinstance(v, A): return A([tmap(f, x) for x in v.v], v.ety)
    if isinstance(v, Mp): return Mp(f(v.has), tmap(f, v.val), v.kty, v.vty)
    if isinstance(v, St): return St(f(v.has), v.kty)
    if isinstance(v, HP): return HP(f(v.id), v.to)
    if isinstance(v, XR): return XR(f(v.v), f(v.k))
    if isinstance(v, OP): return OP(v.name, {k: tmap(f, x) for k, x in v.f.items()})
    if isinstance(v, IT): return IT(v.kind, v.lv, tmap(f, v.pos) if v.pos is not None else None, f(v.found) if v.found is not None else None)
    if v is None or isinstance(v, (FN, LP, LV, HLV, CLV, DM)): return v
    raise Unsupported('tmap of %r' % (v,))

def toxr(v): return v if isinstance(v, XR) else XR(v, z3.IntVal(0))

def zmap(f, a, b):
    """combine two trees of the same shape leaf by leaf"""
    if a is b: return a
    if isinstance(a, XR) or isinstance(b, XR):
        a, b = toxr(a), toxr(b)
        return XR(f(a.v, b.v), f(a.k, b.k))
    if is_leaf(a) and is_leaf(b):
        if a.sort() != b.sort():
            if a.sort() == Real and b.sort() == Int: b = z3.ToReal(b)
            elif a.sort() == Int and b.sort() == Real: a = z3.ToReal(a)
            else: raise Unsupported('sorts %s / %s' % (a.sort(), b.sort()))
        return f(a, b)
    if isinstance(a, M) and isinstance(b, M) and (a.r, a.c) == (b.r, b.c): return M(a.r, a.c, [zmap(f, x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, R) and isinstance(b, R):
        ks = [k for k in a.f if k in b.f]
        return R(a.ty, {k: zmap(f, a.f[k], b.f[k]) for k in ks})
    if isinstance(a, V) and isinstance(b, V):
        return V(f(a.n, b.n), zmap(f, a.e, b.e), a.ety or b.ety, f(a.pos, b.pos) if a.pos is not None and b.pos is not None else None)
    if isinstance(a, A) and isinstance(b, A) and len(a.v) == len(b.v): return A([zmap(f, x, y) for x, y in zip(a.v, b.v)], a.ety)
    if isinstance(a, Mp) and isinstance(b, Mp): return Mp(f(a.has, b.has), zmap(f, a.val, b.val), a.kty, a.vty)
    if isinstance(a, St) and isinstance(b, St): return St(f(a.has, b.has), a.kty)
    if isinstance(a, HP) and isinstance(b, HP): return HP(f(a.id, b.id), a.to or b.to)
    if isinstance(a, HP) and isinstance(b, LP) and heap_ptr(b) is not None: b = heap_ptr(b); return HP(f(a.id, b.id), a.to or b.to)
    if isinstance(a, LP) and isinstance(b, HP) and heap_ptr(a) is not None: a = heap_ptr(a); return HP(f(a.id, b.id), a.to or b.to)
    if isinstance(a, OP) and isinstance(b, OP) and a.name == b.name: return OP(a.name, {k: zmap(f, a.f[k], b.f[k]) for k in a.f if k in b.f})
    if isinstance(a, IT) and isinstance(b, IT) and a.kind == b.kind and same_lv(a.lv, b.lv):
        return IT(a.kind, a.lv, zmap(f, a.pos, b.pos) if a.pos is not None and b.pos is not None else (a.pos if a.pos is not None else b.pos), f(a.found, b.found) if a.found is not None else None)
    if isinstance(a, LP) and isinstance(b, LP):
        if a.lv is None: return LP(b.lv, f(a.null, b.null), b.to)
        if b.lv is None or same_lv(a.lv, b.lv): return LP(a.lv, f(a.null, b.null), a.to)
    raise Unsupported('cannot combine %s and %s' % (type(a).__name__, type(b).__name__))

def heap_ptr(p):
    """a null or heap-object pointer as an identity"""
    if p.lv is None: return HP(z3.IntVal(0), p.to)
    if isinstance(p.lv, HLV): return HP(p.lv.id if z3.is_false(p.null) else z3.If(p.null, z3.IntVal(0), p.lv.id), p.to or p.lv.ty)
    return None

def same_lv(a, b):
    if a is b: return True
    if isinstance(a, LV) and isinstance(b, LV):
        return a.cell == b.cell and len(a.path) == len(b.path) and all(s[0] == t[0] and all(x is y or (is_leaf(x) and is_leaf(y) and x.eq(y)) or (not is_leaf(x) and not is_leaf(y) and x == y) for x, y in zip(s[1:], t[1:])) for s, t in zip(a.path, b.path))
    if isinstance(a, HLV) and isinstance(b, HLV): return a.id.eq(b.id)
    if isinstance(a, PLV) and isinstance(b, PLV): return same_lv(a.second, b.second)
    return False

def ite(c, a, b):
    if a is b: return a
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if isinstance(a, (FN,)) and isinstance(b, FN) and a.m == b.m: return a
    return zmap(lambda x, y: x if x.eq(y) else z3.If(c, x, y), a, b)

def select(t, i): return tmap(lambda x: z3.Select(x, i), t)

def store(t, i, v):
    """t[i := v] on a lifted tree; ghost field '#id' of t gets an unknown value when v carries none"""
    if isinstance(t, R) and isinstance(v, R):
        out = {}
        for k in t.f:
            if k in v.f: out[k] = store(t.f[k], i, v.f[k])
            elif k.startswith('#'): out[k] = z3.Store(t.f[k], i, fresh(Int, 'anyid'))
            else: raise Unsupported('missing field %s' % k)
        return R(t.ty, out)
    if isinstance(v, XR): raise Unsupported('possibly non-finite value stored in a container')
    if is_leaf(t):
        if not is_leaf(v): raise Unsupported('store %r' % (v,))
        rs = t.sort().range()
        if rs == Real and v.sort() == Int: v = z3.ToReal(v)
        return z3.Store(t, i, v)
    if isinstance(t, V) and isinstance(v, V):
        return V(z3.Store(t.n, i, v.n), store(t.e, i, v.e), t.ety, None)
    if isinstance(t, M): return M(t.r, t.c, [store(x, i, y) for x, y in zip(t.v, v.v)])
    if isinstance(t, A): return A([store(x, i, y) for x, y in zip(t.v, v.v)], t.ety)
    if isinstance(t, Mp): return Mp(z3.Store(t.has, i, v.has), store(t.val, i, v.val), t.kty, t.vty)
    if isinstance(t, St): return St(z3.Store(t.has, i, v.has), t.kty)
    if isinstance(t, HP):
        if isinstance(v, LP) and z3.is_true(v.null): return HP(z3.Store(t.id, i, z3.IntVal(0)), t.to)
        return HP(z3.Store(t.id, i, v.id), t.to)
    if isinstance(t, OP): return OP(t.name, {k: store(t.f[k], i, v.f[k]) for k in t.f})
    raise Unsupported('store into %s' % type(t).__name__)

def teq(a, b):
    """structural equality of two trees as a z3 Bool (ghost fields ignored)"""
    if isinstance(a, XR) or isinstance(b, XR):
        a, b = toxr(a), toxr(b)
        return z3.And(a.k == b.k, z3.Implies(a.k == 0, a.v == b.v))
    if is_leaf(a) and is_leaf(b):
        if a.eq(b): return z3.BoolVal(True)
        return a == b
    if isinstance(a, M): return z3.And([teq(x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, R): return z3.And([teq(a.f[k], b.f[k]) for k in a.f if not k.startswith('#') and k in b.f] or [z3.BoolVal(True)])
    if isinstance(a, A): return z3.And([teq(x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, HP): return a.id == b.id
    if isinstance(a, V):
        i = fresh(Int, 'i')
        return z3.And(a.n == b.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a.n), teq(a.at(i), b.at(i)))))
    if isinstance(a, St): return a.has == b.has
    if isinstance(a, Mp): return z3.And([a.has == b.has] + [x == y for x, y in zip(leaves(a.val), leaves(b.val))])     # same keys and (sufficient) the same table
    if isinstance(a, OP): return z3.And([teq(a.f[k], b.f[k]) for k in a.f] or [z3.BoolVal(True)])
    raise Unsupported('equality of %s' % type(a).__name__)

# ---------------------------------------------------------------- key encoding for maps and sets
_keydt = {}
def key_sorts(ty):
    if ty.k == 'int': return [Int]
    if ty.k == 'real': return [Real]
    if ty.k == 'bool': return [Bool]
    if ty.k == 'str': return [Str]
    if ty.k == 'mat': return [Real] * (ty.r * ty.c)
    if ty.k in ('pair', 'tuple'): return sum([key_sorts(a) for a in ty.args], [])
    if ty.k in ('ptr', 'uptr'): return [Int]
    raise Unsupported('map key type %r' % ty)
def key_sort(ty):
    ss = key_sorts(ty)
    if len(ss) == 1: return ss[0]
    nm = 'K_' + '_'.join(str(s)[0] for s in ss)
    if nm not in _keydt:
        d = z3.Datatype(nm)
        d.declare('mk' + nm, *[('k%d' % i, s) for i, s in enumerate(ss)])
        _keydt[nm] = d.create()
    return _keydt[nm]
def key_enc(ty, v):
    ls = [x for x in leaves(strip_ghost(v))]
    if len(ls) == 1: return ls[0]
    dt = key_sort(ty)
    ls = [z3.ToReal(l) if l.sort() == Int and s == Real else l for l, s in zip(ls, key_sorts(ty))]
    return dt.constructor(0)(*ls)
def key_dec(ty, k):
    ss = key_sorts(ty)
    if len(ss) == 1: ls = [k]
    else:
        dt = key_sort(ty)
        ls = [dt.accessor(0, i)(k) for i in range(len(ss))]
    it = iter(ls)
    def mk(t):
        if t.k == 'mat': return M(t.r, t.c, [next(it) for _ in range(t.r * t.c)])
        if t.k in ('pair', 'tuple'):
            ns = ('first', 'second') if t.k == 'pair' else [str(i) for i in range(len(t.args))]
            return R(t, {n: mk(a) for n, a in zip(ns, t.args)})
        if t.k in ('ptr', 'uptr'): return HP(next(it), t.e)
        return next(it)
    return mk(ty)
def strip_ghost(v):
    if isinstance(v, R): return R(v.ty, {k: strip_ghost(x) for k, x in v.f.items() if not k.startswith('#')})
    return v

def real(x):
    if isinstance(x, (int,)): return z3.RealVal(x)
    if isinstance(x, float): return z3.RealVal(str(Fraction(x)))
    if is_leaf(x) and x.sort() == Int: return z3.ToReal(x)
    return x

def simp(e):
    return z3.simplify(e)
