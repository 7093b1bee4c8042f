"""Contracts of ast.cc (C04, C05, C19)."""
from spec import *
# ---- NewQuote (C04): the literal as a sequence of units, each one character or a backslash and a character
U = z3.Function('unit_start', Int, Int); UM = z3.Const('unit_count', Int)
BS, NL, LN = 92, 10, 110
def unit(s, k): return If(z3.Select(s, U(k)) == BS, If(z3.Select(s, U(k) + 1) == LN, NL, z3.Select(s, U(k) + 1)), z3.Select(s, U(k)))
def ulen(s, k): return If(z3.Select(s, U(k)) == BS, 2, 1)
def _nq_pre(S):
    s = S.arg(0); k = I(); n = s.n; a = s.e
    return [('two quotes', n >= 2), ('units', And(UM >= 0, U(0) == 1, U(UM) == n - 1)),
            ('each unit lies between the quotes', ForAll([k], Imp(And(0 <= k, k < UM), And(1 <= U(k), U(k) < n - 1, U(k + 1) == U(k) + ulen(a, k), U(k + 1) <= n - 1)), patterns=[U(k)]))]
def _nq_inv(L):
    s0 = L.S.arg(0); r = L.find(lambda v: isinstance(v, V), 'ret'); t, f = L['t'], L['f']; j = I()
    return [('at the start of a unit', And(0 <= t, t <= UM, f == U(t), t < f, f < s0.n)), ('the length', r.n == s0.n),
            ('decoded so far', ForAll([j], Imp(And(0 <= j, j < t), z3.Select(r.e, j) == unit(s0.e, j)), patterns=[z3.Select(r.e, j)])),
            ('the rest is untouched', ForAll([j], Imp(And(f <= j, j < s0.n), z3.Select(r.e, j) == z3.Select(s0.e, j)), patterns=[z3.Select(r.e, j)]))]
def _nq_ens(S):
    r, s0 = S.ret, S.arg(0); j = I()
    if isinstance(r, LP): r = S.ex.load(r.lv, S.new)
    elif isinstance(r, HP): r = S.ex.load(HLV(r.id, r.to), S.new)
    return [('one character per unit', r.n == UM), ('each unit decoded', ForAll([j], Imp(And(0 <= j, j < UM), z3.Select(r.e, j) == unit(s0.e, j)), patterns=[z3.Select(r.e, j)]))]
NEWQUOTE = Contract('stl2ps::NewQuote', requires=_nq_pre, ensures=_nq_ens, strmode='vec', loops=[{'inv': _nq_inv}])
# ---- views (C05)
def orthonormal(m): return [('rows %d and %d' % (i, j), dot([m.at(i, k) for k in range(3)], [m.at(j, k) for k in range(3)]) == (1 if i == j else 0)) for i in range(3) for j in range(i, 3)]
VIEWS = {'X+': (0, 1), 'X-': (0, -1), 'Y+': (1, 1), 'Y-': (1, -1), 'Z+': (2, 1), 'Z-': (2, -1)}
def _byname(S):
    s, m0, m = S.arg(0), S.arg(1), S.post(1); row = lambda i: [m.at(i, k) for k in range(3)]
    out = [('accepts exactly the six names', S.ret == Or([s == z3.StringVal(n) for n in VIEWS])), ('an unknown name produces nothing', Imp(Not(S.ret), And([a == b for a, b in zip(m.v, m0.v)])))]
    for n, (ax, sg) in VIEWS.items():
        h = s == z3.StringVal(n)
        out.append(('%s: the named direction turns to the viewer' % n, Imp(h, peq([sg * x for x in row(ax)], [0, 0, 1]))))
        out.append(('%s: upright' % n, Imp(h, peq(row(2), [0, 1, 0]) if ax != 2 else peq(row(0), [1, 0, 0]))))
        out += [('%s: orthonormal %s' % (n, w), Imp(h, g)) for w, g in orthonormal(m)]
        out.append(('%s: not mirrored' % n, Imp(h, B.det3(m) == 1)))
    return out
BYNAME = Contract('stl2ps::GetMatrixByName', ensures=_byname, modifies=['#1'])
from contracts import geo as G
def _byang(S):
    a = S.arg(0); m = G.rotspec(simp(a.x * B.PI / 180), simp(a.y * B.PI / 180))
    a, b = simp(a.x * B.PI / 180), simp(a.y * B.PI / 180)
    S.ex.opt.setdefault('views', []).append(S.ret)
    return [('use: a sine and a cosine', And([B.sinf(x) * B.sinf(x) + B.cosf(x) * B.cosf(x) == 1 for x in (a, b)])),
            *[('turn about the vertical then tilt, in degrees [%d,%d]' % (i, j), S.ret.at(i, j) == m.at(i, j)) for i in range(3) for j in range(3)], ('not zero', Or([S.ret.at(0, j) != 0 for j in range(3)]))]
BYANG = Contract('stl2ps::GetMatrixByAng', ensures=_byang)
# ---- lookups (C19)
A1 = z3.ArraySort(Int, Int)
D2 = z3.Function('squared_distance_of_point', Int, Real)       # of the i-th given point from the target
N2 = z3.Function('squared_distance_of_points', Int, Int, Real)
def sel(a, i): return z3.Select(a, i)
def cst(n, s): return lambda L: z3.Const(fresh_name(n), s)
def ring(lo, hi, d): return And(lo * lo < d, d < hi * hi)
def _btw_facts(ps, r, n, src, pos, lo, hi):
    k, m = I(), I()
    return [('results are given points in the ring', ForAll([k], Imp(And(0 <= k, k < r.n), And(0 <= sel(src, k), sel(src, k) < n, peq(r.at(k), ps.at(sel(src, k))), ring(lo, hi, D2(sel(src, k))), sel(pos, sel(src, k)) == k)), patterns=[sel(src, k)])),
            ('in order', ForAll([k, m], Imp(And(0 <= k, k < m, m < r.n), sel(src, k) < sel(src, m)), patterns=[MP(sel(src, k), sel(src, m))])),
            ('every given point in the ring is a result', ForAll([k], Imp(And(0 <= k, k < n, ring(lo, hi, D2(k))), And(0 <= sel(pos, k), sel(pos, k) < r.n, sel(src, sel(pos, k)) == k)), patterns=[sel(pos, k)]))]
def _btw_inv(L):
    S = L.S
    return _btw_facts(S.arg(0), L.find(lambda v: isinstance(v, V), 'ret'), L.k, L.g('src'), L.g('pos'), S.arg(1), S.arg(2))
def use_d2(S, k, to): p = S.arg(0).at(k); return ('use: squared distance', D2(k) == sq(sub(p, to)))
def _btw_new(Lb, La): return Lb.find(lambda v: isinstance(v, V), 'ret').n, La.find(lambda v: isinstance(v, V), 'ret').n
def _btw_src(Lb, La):
    n0, n1 = _btw_new(Lb, La); return If(n1 > n0, z3.Store(Lb.g('src'), n0, Lb.k), Lb.g('src'))
def _btw_pos(Lb, La):
    n0, n1 = _btw_new(Lb, La); return If(n1 > n0, z3.Store(Lb.g('pos'), Lb.k, n0), Lb.g('pos'))
def _btw_ens(S):
    ps, lo, hi, r = S.arg(0), S.arg(1), S.arg(2), S.ret
    if S.ex.cur is S.con:
        if ('gh', 'src') not in S.new.cells: return [('nothing lies in an empty ring', And(r.n == 0, Or(hi < 0, lo > hi)))]
        src, pos = S.new.cells[('gh', 'src')], S.new.cells[('gh', 'pos')]
    else:
        S.ex.opt.setdefault('rings', []).append((ps, lo, hi, S.arg(3), r)); return []
    return _btw_facts(ps, r, ps.n, src, pos, lo, hi)
BETWEEN = Contract('stl2ps::point_impl::Between', requires=lambda S: [('radii are not negative', S.arg(1) >= 0)], ensures=_btw_ens,
    loops=[{'inv': _btw_inv, 'body': lambda L: [use_d2(L.S, L.k, L.S.arg(3))], 'ghost': {'src': (cst('src', A1), _btw_src), 'pos': (cst('pos', A1), _btw_pos)}}])

def _clo_facts(S, c, K, src, wh, count, second):
    """what holds of the collected (key, point) sequence after K points"""
    ps = S.arg(0); i, j, m = I(), I(), I()
    key, pnt = second(c)
    return [('never more than asked for', And(0 <= c.n, c.n <= count)),
            ('nearest first', ForAll([i, j], Imp(And(0 <= i, i < j, j < c.n), key(i) <= key(j)), patterns=[MP(key(i), key(j))])),
            ('chosen points are given points', ForAll([j], Imp(And(0 <= j, j < c.n), And(0 <= sel(src, j), sel(src, j) < K, peq(pnt(j), ps.at(sel(src, j))))), patterns=[sel(src, j)])),
            ('each once', ForAll([j], Imp(And(0 <= j, j < c.n), sel(wh, sel(src, j)) == j), patterns=[sel(src, j)])),
            ('at their distance', ForAll([j], Imp(And(0 <= j, j < c.n), key(j) == D2(sel(src, j))), patterns=[sel(src, j)])),
            ('a point left out is not closer than a chosen one', ForAll([i], Imp(And(0 <= i, i < K, sel(wh, i) < 0), And(c.n == count, key(c.n - 1) <= D2(i))), patterns=[sel(wh, i)])),
            ('others are chosen or near-duplicates of an equally distant chosen one', ForAll([i], Imp(And(0 <= i, i < K, sel(wh, i) >= 0), And(sel(wh, i) < c.n, key(sel(wh, i)) == D2(i), Or(sel(src, sel(wh, i)) == i, N2(i, sel(src, sel(wh, i))) * 100 < D2(i)))), patterns=[sel(wh, i)]))]
def _mm(v): return isinstance(v, V) and isinstance(v.e, R) and 'first' in v.e.f
def the_mm(L): return L.find(_mm, 'c')
def mmkeys(c): return (lambda j: sel(c.e['first'], j)), (lambda j: c.at(j)['second'])
def _clo_inv(L): return _clo_facts(L.S, the_mm(L), L.k, L.g('src'), L.g('wh'), L.S.arg(1), mmkeys)
def _ins(Lb, La):
    a, b = the_mm(Lb), the_mm(La)
    return not leaves(a.e['first'])[0].eq(leaves(b.e['first'])[0])
def _clo_src(Lb, La):
    if not _ins(Lb, La): return Lb.g('src')
    hi = La.ex.opt['mm_last']; i = I(); s = Lb.g('src')
    return z3.Lambda([i], If(i > hi, sel(s, i - 1), If(i == hi, Lb.k, sel(s, i))))
def _clo_wh(Lb, La):
    w, k, c0, n0 = Lb.g('wh'), Lb.k, the_mm(Lb), the_mm(Lb).n; i = I()
    if not _ins(Lb, La):
        f = La.ex.opt.get('found', z3.IntVal(-1))
        return z3.Store(w, k, If(And(n0 >= La.S.arg(1), D2(k) > sel(c0.e['first'], n0 - 1)), -1, f))
    hi = La.ex.opt['mm_last']; n1 = the_mm(La).n
    up = If(i == k, hi, If(sel(w, i) >= hi, sel(w, i) + 1, sel(w, i)))
    return z3.Lambda([i], If(up >= n1, -1, up))
def _clo_body(L):
    return [use_d2(L.S, L.k, L.S.arg(2))]
def _clo_steps(L):
    S = L.S; ps = S.arg(0); k = L.k; f = S.ex.opt.get('found')
    if f is None: return []
    b = S.ex.opt['ghosts before']['src']; m = sel(b, f)
    return [('use: distance of two points', N2(k, m) == sq(sub(ps.at(k), ps.at(m))))]
def _drop_inv(L):
    c, c0 = the_mm(L), L.pre('c') if L.has('c') else None
    if c0 is None: raise KeyError('c')
    return [('only what is too much is dropped', And(c.n <= c0.n, Or(c.n == c0.n, c.n >= L.S.arg(1))))]
def _copy_inv(L):
    S = L.S; r = L.find(lambda v: isinstance(v, V) and isinstance(v.e, M), 'ret'); c = L['c']; j = I()
    return [('length', r.n == L.k), ('copied', ForAll([j], Imp(And(0 <= j, j < L.k), peq(r.at(j), c.at(j)['second'])), patterns=[vpat(r)(j)]))]
def _clo_ens(S):
    ps, count, r = S.arg(0), S.arg(1), S.ret
    if S.ex.cur is not S.con:
        S.ex.opt.setdefault('nearest', []).append((ps, count, S.arg(2), r))
        return [('not more than asked for', And(0 <= r.n, Or(r.n <= count, r.n == 0)))]
    if ('gh', 'src') not in S.new.cells: return [('nothing was asked for', And(r.n == 0, count < 1))]
    src, wh = S.new.cells[('gh', 'src')], S.new.cells[('gh', 'wh')]
    return _clo_facts(S, r, ps.n, src, wh, count, lambda r: ((lambda j: D2(sel(src, j))), (lambda j: r.at(j))))
CLOSEST = Contract('stl2ps::point_impl::Closest', ensures=_clo_ens,
    loops=[{'inv': _clo_inv, 'body': _clo_body, 'steps': _clo_steps, 'ghost': {'src': (cst('src', A1), _clo_src), 'wh': (cst('wh', A1), _clo_wh)}}, {'inv': _drop_inv}, {'inv': _copy_inv}])
# ---- lookups over a model (C19): Point::Invoke is whatever the inner expression yields
def _note(kind):
    def ens(S):
        if S.ex.cur is S.con: return []
        ok = z3.Const(fresh_name(kind + '_ok'), z3.BoolSort()); S.ex.opt.setdefault('lookup', {})[kind] = (ok, S.post(1))
        return [('found', S.ret == ok)]
    return ens
def _inv_ens(S):
    if S.ex.cur is not S.con:
        ok, p = z3.Const(fresh_name('inner_ok'), z3.BoolSort()), S.post(1)
        S.ex.opt['invoked'] = (ok, p)
        return [('inner lookup', S.ret == ok)]
    return []
PINVOKE = Contract('stl2ps::Point::Invoke', virtual=True, ensures=_inv_ens, modifies=['#1'], trusted='any lookup may be nested inside another')
def has(ps, p): return sel(ps.has, key_enc(ps.kty, p if isinstance(p, M) else M(1, 3, p)))
def at(ps, arr, i): return key_dec(ps.kty, sel(arr, i))
QD = z3.Function('squared_page_distance', *([Real] * 4 + [Real]))
def qd(p, t): return QD(p.x, p.y, t.x, t.y)
def use_qd(p, t): return ('use: page distance', qd(p, t) == (t.x - p.x) * (t.x - p.x) + (t.y - p.y) * (t.y - p.y))
def _near_tgt(ex):
    if 'invoked' not in ex.opt: raise SpecMismatch('the target is not looked up')
    return ex.opt['invoked']
def near_point(L): return L.argnow(1)
def _near_inv(L):
    S = L.S; ps = S.arg(0); arr, n = S.ex.enum(ps, L.st); t = _near_tgt(S.ex)[1]; k = L.k; i = I()
    r = L.find(lambda v: is_leaf(v) and v.sort() == Real, 'r'); ret = near_point(L); w = L.g('w')
    p = lambda i: at(ps, arr, i)
    return [('nothing yet', Imp(k == 0, r == B.DBL_MAX)),
            ('the best so far is a vertex on the page', Imp(k > 0, And(0 <= w, w < k, ret.x == p(w).x, ret.y == p(w).y, ret.z == 0))),
            ('at its distance', Imp(k > 0, r == qd(p(w), t))),
            ('none is nearer', ForAll([i], Imp(And(0 <= i, i < k), r <= qd(p(i), t)), patterns=[sel(arr, i)]))]
def _near_w(Lb, La):
    a, b = near_point(Lb), near_point(La)
    f = lambda v: is_leaf(v) and v.sort() == Real
    return If(Lb.find(f, 'r') == La.find(f, 'r'), Lb.g('w'), Lb.k)
def _near_body(L):
    S = L.S; ps = S.arg(0); arr, n = S.ex.enum(ps, L.st); t = _near_tgt(S.ex)[1]; p = at(ps, arr, L.k)
    return [use_qd(p, t), ('use: distances can be represented', qd(p, t) < B.DBL_MAX)]
def _near_ens(S):
    ps, r, ex = S.arg(0), S.post(1), S.ex
    if ex.cur is not S.con: return _note('near')(S)
    some = Exists([z3.Const('q!w', key_sort(ps.kty))], sel(ps.has, z3.Const('q!w', key_sort(ps.kty))))
    if 'invoked' not in ex.opt: return [('refused without a vertex', And(Not(S.ret), Not(some)))]
    ok, t = ex.opt['invoked']; q = z3.Const(fresh_name('q'), key_sort(ps.kty)); kq = key_dec(ps.kty, q)
    w = S.new.cells.get(('gh', 'w'))
    out = [('an inner lookup that fails makes this one fail', Imp(Not(ok), Not(S.ret))), ('otherwise it succeeds unless the model is empty', Imp(And(ok, some), S.ret)), ('no vertex, no result', Imp(S.ret, some)),
           ('a vertex is its own nearest', Imp(And(S.ret, has(ps, t)), peq(r, t)))]
    if w is not None:
        arr, n = ex.enum(ps, S.new); p = at(ps, arr, w)
        out += [('otherwise the page position of a vertex', Imp(S.ret, And(has(ps, p), r.x == p.x, r.y == p.y, r.z == 0))), ('and none is nearer', Imp(And(S.ret, sel(ps.has, q)), qd(p, t) <= qd(kq, t)))]
    else: out += [('without a search only a vertex is returned', Imp(S.ret, has(ps, t)))]
    return out
NEAR = Contract('stl2ps::PointFunc::Near', requires=lambda S: [('an inner lookup is given', S.this['p_'].id != 0)], ensures=_near_ens, modifies=['#1'], loops=[{'inv': _near_inv, 'body': _near_body, 'ghost': {'w': (lambda L: z3.Int(fresh_name('w')), _near_w)}}])
def _pf_ens(S):
    n = S.this['name_']; out = []; got = S.ex.opt.get('lookup', {}); r = S.post(1)
    for k in ('near', 'center'):
        h = n == z3.StringVal(k)
        if k not in got: out.append(('%s is looked up' % k, Not(h)))
        else: out.append(('%s is what its own lookup says' % k, Imp(h, And(S.ret == got[k][0], peq(r, got[k][1])))))
    out.append(('an unknown name is refused', Imp(And(n != z3.StringVal('near'), n != z3.StringVal('center')), Not(S.ret))))
    return out
PFINVOKE = Contract('stl2ps::PointFunc::Invoke', requires=lambda S: [('an inner lookup is given', S.this['p_'].id != 0)], ensures=_pf_ens, modifies=['#1'])
def contracts(): return [NEWQUOTE, BYNAME, BYANG, G.ROTATE, BETWEEN, CLOSEST, NEAR, PFINVOKE, PINVOKE]
