"""Contract of STLFile::EdgeCrosses (C12)."""
from spec import *
EPS = RV('1/1000000000')
def hyp2(d): return sqrtf(simp(d[0] * d[0] + d[1] * d[1]))
def par(A): return lambda v, i: None
class Seg:
    def __init__(s, E, a, b):
        e, o = E.at(a), E.at(b)
        s.A, s.B = pt(e['first']), pt(o['first'])
        s.da, s.db = sub(e['second'], s.A), sub(o['second'], s.B)
        s.w = sub(s.B, s.A)
        s.D = cross2(s.da, s.db)
        s.parallel = If(s.D < 0, -s.D, s.D) <= EPS * hyp2(s.da) * hyp2(s.db)
def good_def(g, E, a, b, s, t):
    """edge a (parameter s) meets edge b (parameter t) in the page plane and is there at or behind it"""
    return And(0 <= s, s <= 1, 0 <= t, t <= 1, g.A[2] + g.da[2] * s <= g.B[2] + g.db[2] * t)
PAR = z3.Function('xpar', Int, Int, Bool)        # edges a, b are parallel in projection
SS = z3.Function('xs', Int, Int, Real)           # parameter of the meeting point of the projected lines on a (that on b is SS(b, a))
def GOOD(E, a, b):
    g = Seg(E, a, b); s, t = SS(a, b), SS(b, a)
    return And(Not(PAR(a, b)), good_def(g, E, a, b, s, t))
HIT = z3.Function('xhit', Int, Int, Bool)
PT = [z3.Function('xp%d' % k, Int, Int, Real) for k in range(3)]   # the meeting point, on edge a
def P(E, a, b): return [f(a, b) for f in PT]
def defs(E, n):
    a, b = I(), I()
    g = Seg(E, a, b); s, t = SS(a, b), SS(b, a)
    return [ForAll([a, b], PAR(a, b) == g.parallel, patterns=[PAR(a, b)]),
            # SS is the unique solution of the two linear equations (lemma 'the meeting point is unique')
            ForAll([a, b], Imp(Not(PAR(a, b)), And(g.D * s == cross2(g.w, g.db))), patterns=[SS(a, b)]),
            ForAll([a, b], HIT(a, b) == GOOD(E, a, b), patterns=[HIT(a, b)])] + \
           [ForAll([a, b], PT[k](a, b) == g.A[k] + g.da[k] * s, patterns=[PT[k](a, b)]) for k in range(3)]
def defs_at(E, a, b):
    """the definitions above, at one pair of edges"""
    g = Seg(E, a, b)
    return [('use: definition of parallel', PAR(a, b) == g.parallel), ('use: definition of the meeting point', Imp(Not(PAR(a, b)), g.D * SS(a, b) == cross2(g.w, g.db))),
            ('use: definition of a crossing', HIT(a, b) == GOOD(E, a, b))] + [('use: meeting point %d' % k, PT[k](a, b) == g.A[k] + g.da[k] * SS(a, b)) for k in range(3)]
def _setup(S, st):
    E = S.this['edges']
    S.ex.name_state(st)
    E = st.cells['this']['edges']
    st.facts += defs(E, E.n)
def _req(S): return [('drawn count in range', And(0 <= S.this['unseen'], S.this['unseen'] <= S.this['edges'].n))]
def get2(ix, a, b): return z3.Select(z3.Select(ix, a), b)
def put2(ix, a, b, v): return z3.Store(ix, a, z3.Store(z3.Select(ix, a), b, v))
A2 = z3.ArraySort(Int, z3.ArraySort(Int, Int))
def listinv(L, seen):
    E, l = L.S.this['edges'], L['hidden_by_list']; ix = L.g('ix')
    i, a, b = I(), I(), I(); n = E.n
    x, y, p = l.at(i)['0'], l.at(i)['1'], l.at(i)['2']
    mn = If(a < b, a, b); mx = If(a < b, b, a)
    return [('every entry is a crossing, at its point, listed once', ForAll([i], Imp(And(0 <= i, i < l.n), And(0 <= x, x < n, 0 <= y, y < n, x != y, seen(If(x < y, x, y), If(x < y, y, x)), HIT(x, y), peq(p, P(E, x, y)), get2(ix, x, y) == i)), patterns=[vpat(l)(i)])),
            ('every crossing seen is an entry', ForAll([a, b], Imp(And(0 <= a, a < n, 0 <= b, b < n, a != b, seen(mn, mx), HIT(a, b)), And(0 <= get2(ix, a, b), get2(ix, a, b) < l.n, l.at(get2(ix, a, b))['0'] == a, l.at(get2(ix, a, b))['1'] == b)), patterns=[HIT(a, b)]))]
def outer(L):
    return listinv(L, lambda lo, hi: lo < L['v']) + [('v', And(0 <= L['v'], L['v'] <= L.S.this['unseen']))]
def inner(L):
    v, u = L['v'], L['u']
    return listinv(L, lambda lo, hi: Or(lo < v, And(lo == v, hi < u))) + [('u', And(v < u, u <= L.S.this['edges'].n))]
INV = GLemma('cancelling the determinant', [Real] * 3, lambda n, c, q: Imp(q * c == 1, n * q * c == n))
CANCEL = GLemma('solutions of a linear equation agree', [Real] * 4, lambda d, x, y, n: Imp(And(d != 0, x * d == n, y * d == n), x == y))
NOTPAR = GLemma('lines at an angle have a determinant', [Real] * 3, lambda d, a, b: Imp(And(a >= 0, b >= 0, Not(If(d < 0, -d, d) <= EPS * a * b)), d != 0))
EQM = GLemma('equal factors', [Real] * 3, lambda d, x, y: Imp(x == y, d * x == d * y))
def steps(L):
    v, u = L['v'], simp(L['u'] - 1)
    E = L.S.this['edges']; g = Seg(E, v, u); h = Seg(E, u, v)
    out = [('parallel or not, either way round', And(PAR(v, u) == g.parallel, PAR(u, v) == PAR(v, u)))]
    if L.has('j') and L.has('i'):
        i, j = L['i'], L['j']
        ex = L.S.ex
        if L.has('det'): out += [INV.use(ex, cross2(g.w, g.db), g.D, -L['det']), INV.use(ex, cross2(h.w, h.db), h.D, L['det'])]
        out += [('the code solves the same equations', And(Not(PAR(u, v)), j * g.D == cross2(g.w, g.db), i * h.D == cross2(h.w, h.db))),
                NOTPAR.use(ex, g.D, hyp2(g.da), hyp2(g.db)), CANCEL.use(ex, g.D, SS(v, u), j, cross2(g.w, g.db)), CANCEL.use(ex, h.D, SS(u, v), i, cross2(h.w, h.db)),
                ('the determinants are not zero', And(g.D != 0, h.D != 0)),
                ('j is the parameter on v', SS(v, u) == j), ('i is the parameter on u', SS(u, v) == i),
                *[EQM.use(ex, g.da[k], SS(v, u), j) for k in range(3)], *[EQM.use(ex, h.da[k], SS(u, v), i) for k in range(3)],
                *[('use: definition', PT[k](v, u) == g.A[k] + g.da[k] * SS(v, u)) for k in range(3)], *[('use: definition', PT[k](u, v) == h.A[k] + h.da[k] * SS(u, v)) for k in range(3)],
                *[('meeting point on v %d' % k, PT[k](v, u) == simp(g.A[k] + g.da[k] * j)) for k in range(3)],
                *[('meeting point on u %d' % k, PT[k](u, v) == simp(h.A[k] + h.da[k] * i)) for k in range(3)],
                ('crossings of the pair', And(HIT(v, u) == And(0 <= i, i <= 1, 0 <= j, j <= 1, PT[2](v, u) <= PT[2](u, v)), HIT(u, v) == And(0 <= i, i <= 1, 0 <= j, j <= 1, PT[2](u, v) <= PT[2](v, u))))]
    else: out += [('no crossing', And(Not(HIT(v, u)), Not(HIT(u, v))))]
    return out
def upd(Lb, La):
    ix, l, n0, n1 = Lb.g('ix'), La['hidden_by_list'], Lb['hidden_by_list'].n, La['hidden_by_list'].n
    e = lambda k: (l.at(n0 + k)['0'], l.at(n0 + k)['1'])
    i1 = put2(ix, *e(0), n0); i2 = put2(i1, *e(1), n0 + 1)
    return If(n1 >= n0 + 2, i2, If(n1 >= n0 + 1, i1, ix))
def fill(L):
    r, l, ix = L['hidden_by_edge'], L['hidden_by_list'], L.g('ix'); a, b = I(), I(); un = L.S.this['unseen']; n = L.S.this['edges'].n
    h, v = r.at(a).has, r.at(a).val
    p = get2(ix, a, b)
    ok = And(0 <= b, b < n, a != b, HIT(a, b), p < L.k)
    return [('one table per drawn edge', r.n == un),
            ('the entries so far are filled in', ForAll([a, b], Imp(And(0 <= a, a < un), And(z3.Select(h, b) == ok, Imp(ok, peq(select(v, b), l.at(p)['2'])))), patterns=[z3.Select(h, b), HIT(a, b)]))]
def _ens(S):
    r, E, un = S.ret, S.this['edges'], S.this['unseen']; a, b = I(), I()
    h, v = r.at(a).has, r.at(a).val
    rng = And(0 <= a, a < un)
    pat = {} if S.ex.cur is S.con else {'patterns': [z3.Select(h, b)]}
    return [('one table per drawn edge', r.n == un),
            ('recorded exactly where the edges meet and the drawn one is at or behind', ForAll([a, b], Imp(rng, z3.Select(h, b) == And(0 <= b, b < E.n, a != b, HIT(a, b))), **pat)),
            ('recorded at the meeting point', ForAll([a, b], Imp(And(rng, z3.Select(h, b)), peq(select(v, b), P(E, a, b))), **pat))]
CROSSES = Contract('stl2ps::STLFile::EdgeCrosses', requires=_req, setup=_setup, ensures=_ens,
                   loops=[{'inv': outer, 'ghost': {'ix': (lambda L: z3.Const(fresh_name('ix0'), A2), lambda Lb, La: La.g('ix'))}},
                          {'inv': inner, 'ghost': {'ix': (lambda L: L.g('ix'), upd)}, 'steps': steps},
                          {'inv': fill}])
def lemmas():
    def build():
        a, da, b, db = [[z3.Real('%s%d' % (n, i)) for i in range(3)] for n in ('A', 'da', 'B', 'db')]
        s, t, s0, t0 = z3.Reals('s t s0 t0')
        w = sub(b, a); D = cross2(da, db)
        meet = [a[i] + da[i] * s == b[i] + db[i] * t for i in range(2)]
        return [('a meeting point solves the equation', [D != 0] + meet, And(D * s == cross2(w, db), cross2(db, da) * t == cross2(sub(a, b), da))),
                ('the solution is a meeting point', [D != 0, D * s == cross2(w, db), cross2(db, da) * t == cross2(sub(a, b), da)], And(meet)),
                ('the meeting point is unique', [D != 0, D * s == cross2(w, db), D * s0 == cross2(w, db)], s == s0)]
    return Lemma('the meeting point of two projected lines', build)
def contracts(): return [CROSSES]
