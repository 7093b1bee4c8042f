"""Contract of STLFile::ToLines (C14)."""
from spec import *
from contracts import lines, crosses
from contracts.stl import verts, fpat
from contracts.lines import LEN, SQL, CMP, T0, Eg
from contracts.crosses import PAR, SS, HIT, PT, P, defs_at
O0 = z3.Const('any_edge', Int)                                 # an arbitrary drawn edge (T0: an arbitrary position on it)
PA = z3.Function('position_on', Int, Real, Real, Real, Real)   # where along edge o the point p is
WIT = z3.Function('hidden_by', *([Int] + [Real] * 6 + [Int]))  # a facet covering the points p and q of edge o, if there is one
COVW = z3.Function('both_covered', *([Int] + [Real] * 6 + [z3.BoolSort()]))
ON = z3.Function('on_the_edge', Int, Real, Real, Real, z3.BoolSort())   # edge o has p at pa(o, p)
def on(o, p): return ON(o, *pt(p))
def pa(o, p): return PA(o, *pt(p))
class T:
    """the model: edges, facets and the edges of the facets"""
    def __init__(s, S): s.S = S; t = S.this; s.edges, s.facets, s.fe, s.unseen = t['edges'], t['facets'], t['face_edge'], t['unseen']
    def e(s, o): return Eg(s, o)
    def side(s, f, k, p):
        """positive to the left of side k of facet f, in projection"""
        v = verts(s.facets, f)
        return cross2(sub(v[(k + 1) % 3], v[k]), sub(p, v[k]))
    def covered(s, f, p):
        F = s.facets.at(f)
        return And([s.side(f, k, p) >= 0 for k in range(3)] + [dot(p, F['norm']) <= F['r']])
    def own(s, o, f): return Or([o == s.fe.at(f).v[k] for k in range(3)])
    def wit(s, f, o, p, q): return And(0 <= f, f < s.facets.n, Not(s.own(o, f)), s.covered(f, p), s.covered(f, q))
    def covw(s, o, p, q): return COVW(o, *pt(p), *pt(q))
    def use_wit(s, o, p, q):
        """COVW(o, p, q) says that some facet covers both, WIT names it"""
        return ('use: the covering facet', Imp(s.covw(o, p, q), s.wit(WIT(o, *pt(p), *pt(q)), o, p, q)))
    def use_covw(s, f, o, p, q): return ('use: covered by some facet', Imp(s.wit(f, o, p, q), s.covw(o, p, q)))
    def use_pa(s, o, p):
        e = s.e(o)
        return ('use: definition of the position', If(e.L == 0, pa(o, p) == 0, pa(o, p) * e.L == dot(sub(p, e.p), e.d)))
    def use_on(s, o, p): return ('use: definition of a point on an edge', on(o, p) == peq(p, s.e(o).at(pa(o, p))))
    def use_len(s, o): return ('use: length', LEN(o) == s.e(o).L)
    def good(s, o, f, p, key):
        """p is on edge o, covered by facet f, and key is its squared distance from the start"""
        e = s.e(o); a = pa(o, p)
        return And(0 <= a, a <= 1, peq(p, e.at(a)), key == a * a * LEN(o), s.covered(f, p))
def req(S):
    m = T(S); f = I(); F = m.facets.at(f); v = verts(m.facets, f)
    out = [('drawn count in range', And(0 <= m.unseen, m.unseen <= m.edges.n)), ('one record per facet', m.fe.n == m.facets.n)]
    facts = [('facets face the viewer', F['norm'].z > 0), ('vertices lie in the plane', And([dot(p, F['norm']) == F['r'] for p in v])),
             ('facets are counter-clockwise', m.side(f, 0, v[2]) >= 0)]
    for k in range(3):
        x = m.fe.at(f).v[k]; e = m.edges.at(x); a, b = v[k], v[(k + 1) % 3]
        facts.append(('side %d refers to its edge' % k, And(0 <= x, x < m.edges.n, Or(And(peq(e['first'], a), peq(e['second'], b)), And(peq(e['first'], b), peq(e['second'], a))))))
    return out + [(n, ForAll([f], Imp(And(0 <= f, f < m.facets.n), g), patterns=[fpat(m.facets)(f)])) for n, g in facts]
def spans(L, lim=None):
    """the spans stored so far"""
    m = T(L.S); h = L.find(lambda v: isinstance(v, Mp), 'edge_hides_list'); o, j = I(), I()
    v = select(h.val, o); sp = v.at(j); p, q = sp['first'], sp['second']; e = m.e(o)
    rng = And(0 <= o, o < m.unseen, z3.Select(h.has, o), 0 <= j, j < v.n)
    pat = [leaves(p)[0], leaves(q)[0]]
    return [('spans are stored for drawn edges', ForAll([o], Imp(z3.Select(h.has, o), And(0 <= o, o < m.unseen, v.n >= 0)), patterns=[z3.Select(h.has, o)])),
            ('spans run forward along their edge', ForAll([o, j], Imp(rng, And(LEN(o) > 0, 0 <= pa(o, p), pa(o, p) <= pa(o, q), pa(o, q) <= 1)), patterns=pat)),
            ('spans lie on their edge', ForAll([o, j], Imp(rng, And(on(o, p), on(o, q))), patterns=pat)),
            ('a facet covers both ends of each span', ForAll([o, j], Imp(rng, m.covw(o, p, q)), patterns=pat))]
def inv1(L): return spans(L) + [('facets', And(0 <= L['fi'], L['fi'] <= L.S.this['facets'].n))]
def inv2(L): return spans(L) + [('edges', And(0 <= L['v'], L['v'] <= L.S.this['unseen']))]
def srt(L, lim):
    m = T(L.S); h = L.find(lambda v: isinstance(v, Mp), 'edge_hides_list'); o, j, k = I(), I(), I()
    v = select(h.val, o); f = lambda x: pa(o, v.at(x)['first'])
    return [('spans sorted so far', ForAll([o, j, k], Imp(And(0 <= o, o < lim, z3.Select(h.has, o), 0 <= j, j <= k, k < v.n), f(j) <= f(k)), patterns=[MP(f(j), f(k))]))]
def all_on(L):
    m = T(L.S); o = I(); x = [fresh(Real, 'x') for _ in range(3)]
    n, g = m.use_on(o, x)
    return [(n, ForAll([o] + x, g, patterns=[on(o, x)]))]
def inv3(L): return spans(L) + all_on(L) + srt(L, L['i']) + [('edges', And(0 <= L['i'], L['i'] <= L.S.this['unseen']))]
def steps3(L):
    m = T(L.S); ex = L.S.ex; i = simp(L['i'] - 1); h = L.find(lambda v: isinstance(v, Mp), 'edge_hides_list'); j, k = I(), I()
    v = select(h.val, i); e = m.e(i); p = lambda x: v.at(x)['first']; a = lambda x: pa(i, p(x)); pat = lambda x: leaves(v.at(x))[0]
    inr = And(0 <= j, j < v.n)
    key = lambda x: sq(sub(e.p, p(x)))
    sl = KEY.use(ex, *e.p, *e.d, *pt(p(j)), a(j), LEN(i)); cm = CMP.use(ex, a(k), a(j), LEN(i)); q = v.at(j)['second']; b = pa(i, q)
    return [m.use_len(i), ('the spans of this edge', ForAll([j], Imp(inr, And(LEN(i) > 0, 0 <= a(j), a(j) <= b, b <= 1, on(i, p(j)), on(i, q), peq(p(j), e.at(a(j))), peq(q, e.at(b)), m.covw(i, p(j), q))), patterns=[pat(j)])),
            (sl[0], ForAll([j], sl[1], patterns=[pat(j)])),
            ('sort keys of the spans', ForAll([j], Imp(inr, key(j) == a(j) * a(j) * LEN(i)), patterns=[pat(j)])),
            ('keys are sorted', ForAll([j, k], Imp(And(0 <= j, j < k, k < v.n), key(j) <= key(k)), patterns=[MP(pat(j), pat(k))])),
            (cm[0], ForAll([j, k], cm[1], patterns=[MP(a(j), a(k))])),
            ('this edge is sorted', ForAll([j, k], Imp(And(0 <= j, j <= k, k < v.n), a(j) <= a(k)), patterns=[MP(a(j), a(k))]))]
KEY = GLemma('the distance of a point on an edge', [Real] * 11, lambda *xs: (lambda p, d, x, a, l: Imp(And(peq(x, addv(p, scale(a, d))), l == sq(d)), sq(sub(p, x)) == a * a * l))(*_v(xs, 3, 3, 3, 1, 1)),
             lambda ex, *xs: (lambda p, d, x, a, l: [SQL.use(ex, *p, *d, a), ('same distance', sq(sub(p, x)) == sq(sub(p, addv(p, scale(a, d)))))])(*_v(xs, 3, 3, 3, 1, 1)))
DIFF = GLemma('different points of an edge', [Real] * 15, lambda *xs: (lambda p, d, x, y, a, b, l: Imp(And(peq(x, addv(p, scale(a, d))), peq(y, addv(p, scale(b, d))), l == sq(d), sq(sub(x, y)) != 0), l > 0))(*_v(xs, 3, 3, 3, 3, 1, 1, 1)),
             lambda ex, *xs: (lambda p, d, x, y, a, b, l: [('not negative', l >= 0), ('a point', Imp(l == 0, And([z == 0 for z in d]))), ('no multiples', Imp(l == 0, And([And(a * z == 0, b * z == 0) for z in d]))), ('same', Imp(l == 0, peq(x, y))), ('no distance', Imp(l == 0, sq(sub(x, y)) == 0))])(*_v(xs, 3, 3, 3, 3, 1, 1, 1)))
EQKEY = GLemma('equal points have equal distances', [Real] * 9, lambda *xs: (lambda p, x, y: Imp(peq(x, y), sq(sub(p, x)) == sq(sub(p, y))))(*_v(xs, 3, 3, 3)))
def on_edge(p, x, d, l, a): return If(l == 0, a == 0, a * l == dot(sub(x, p), d))
def _v(xs, *ns):
    """split a list of reals into vectors (3) and scalars (1)"""
    out, i = [], 0
    for n in ns: out.append(list(xs[i:i + 3]) if n == 3 else xs[i]); i += n
    return out
def _end(*xs):
    p, x, d, s, l, a = _v(xs, 3, 3, 3, 1, 1, 1)
    return Imp(And(peq(x, addv(p, scale(s, d))), 0 <= s, s <= 1, l == sq(d), on_edge(p, x, d, l, a)), And(0 <= a, a <= 1, peq(x, addv(p, scale(a, d))), sq(sub(p, x)) == a * a * l))
def _end_steps(ex, *xs):
    p, x, d, s, l, a = _v(xs, 3, 3, 3, 1, 1, 1)
    return [('not negative', l >= 0), ('a point', Imp(l == 0, And([y == 0 for y in d]))), ('inner product', dot(sub(x, p), d) == s * l), CANCEL.use(ex, l, a, s), ('the position', Imp(l != 0, a == s)),
            ('in range', And(0 <= a, a <= 1)), *[EQM.use(ex, y, a, s) for y in d], ('on the edge', peq(x, addv(p, scale(a, d)))), SQL.use(ex, *p, *d, a), ('same distance', sq(sub(p, x)) == sq(sub(p, addv(p, scale(a, d)))))]
CANCEL = GLemma('equal multiples', [Real] * 3, lambda l, a, s: Imp(And(l != 0, a * l == s * l), a == s))
EQM = GLemma('multiples by equal factors', [Real] * 3, lambda d, a, s: Imp(a == s, a * d == s * d))
END = GLemma('the position of a point on an edge', [Real] * 12, _end, _end_steps)
MEET = GLemma('the solution is a meeting point', [Real] * 10, lambda a0, a1, d0, d1, b0, b1, e0, e1, s, t: Imp(And(d0 * e1 - d1 * e0 != 0, (d0 * e1 - d1 * e0) * s == (b0 - a0) * e1 - (b1 - a1) * e0, (e0 * d1 - e1 * d0) * t == (a0 - b0) * d1 - (a1 - b1) * d0), And(a0 + d0 * s == b0 + e0 * t, a1 + d1 * s == b1 + e1 * t)))
SIDE = GLemma('sides at a point of a side', [Real] * 7, lambda a0, a1, b0, b1, c0, c1, t: And(
    (b0 - a0) * (a1 + t * (b1 - a1) - a1) - (b1 - a1) * (a0 + t * (b0 - a0) - a0) == 0,
    (c0 - b0) * (a1 + t * (b1 - a1) - b1) - (c1 - b1) * (a0 + t * (b0 - a0) - b0) == (1 - t) * ((b0 - a0) * (c1 - a1) - (b1 - a1) * (c0 - a0)),
    (a0 - c0) * (a1 + t * (b1 - a1) - c1) - (a1 - c1) * (a0 + t * (b0 - a0) - c0) == t * ((b0 - a0) * (c1 - a1) - (b1 - a1) * (c0 - a0))))
NN = GLemma('a product of non-negative numbers', [Real] * 2, lambda a, b: Imp(And(a >= 0, b >= 0), a * b >= 0))
PLANE = GLemma('a point behind a side is behind the plane', [Real] * 12, lambda a0, a1, a2, b0, b1, b2, n0, n1, n2, r, t, z: Imp(And(n2 > 0, a0 * n0 + a1 * n1 + a2 * n2 == r, b0 * n0 + b1 * n1 + b2 * n2 == r, z <= a2 + t * (b2 - a2)), (a0 + t * (b0 - a0)) * n0 + (a1 + t * (b1 - a1)) * n1 + z * n2 <= r))
EQS = GLemma('the side of equal points', [Real] * 10, lambda u0, u1, q0, q1, x0, x1, y0, y1, z, w: Imp(And(x0 == y0, x1 == y1), u0 * (x1 - q1) - u1 * (x0 - q0) == u0 * (y1 - q1) - u1 * (y0 - q0)))
EQP = GLemma('the height of equal points', [Real] * 7, lambda n0, n1, x0, x1, y0, y1, z: Imp(And(x0 == y0, x1 == y1), x0 * n0 + x1 * n1 == y0 * n0 + y1 * n1))
def _cross(*xs):
    A_, B_, C_, n, r, ga, da, gb, b2, s, t, p = _v(xs, 3, 3, 3, 3, 1, 3, 3, 3, 3, 1, 1, 3); db = sub(b2, gb); D = cross2(da, db)
    return Imp(And(n[2] > 0, dot(A_, n) == r, dot(B_, n) == r, cross2(sub(B_, A_), sub(C_, A_)) >= 0, D != 0, D * s == cross2(sub(gb, ga), db), cross2(db, da) * t == cross2(sub(ga, gb), da), 0 <= t, t <= 1,
                   peq(p, addv(ga, scale(s, da))), p[2] <= gb[2] + db[2] * t, Or(And(peq(gb, A_), peq(b2, B_)), And(peq(gb, B_), peq(b2, A_)))),
               And(cross2(sub(B_, A_), sub(p, A_)) >= 0, cross2(sub(C_, B_), sub(p, B_)) >= 0, cross2(sub(A_, C_), sub(p, C_)) >= 0, dot(p, n) <= r))
def _cross_steps(ex, *xs):
    A_, B_, C_, n, r, ga, da, gb, b2, s, t, p = _v(xs, 3, 3, 3, 3, 1, 3, 3, 3, 3, 1, 1, 3); db = sub(b2, gb)
    u = fresh(Real, 'along'); area = cross2(sub(B_, A_), sub(C_, A_)); x = [A_[i] + u * (B_[i] - A_[i]) for i in range(3)]
    return [MEET.use(ex, *ga[:2], *da[:2], *gb[:2], *db[:2], s, t), ('on the other edge', And([p[i] == gb[i] + db[i] * t for i in range(2)])), ('use: where', u == If(And(peq(gb, A_), peq(b2, B_)), t, 1 - t)),
            ('along the side', And([0 <= u, u <= 1] + [p[i] == x[i] for i in range(2)] + [p[2] <= x[2]])),
            SIDE.use(ex, *A_[:2], *B_[:2], *C_[:2], u), NN.use(ex, u, area), NN.use(ex, 1 - u, area),
            *[EQS.use(ex, *sub(b, a)[:2], *a[:2], *p[:2], *x[:2], RV(0), RV(0)) for a, b in ((A_, B_), (B_, C_), (C_, A_))],
            *[('side %d' % i, cross2(sub(b, a), sub(p, a)) >= 0) for i, (a, b) in enumerate(((A_, B_), (B_, C_), (C_, A_)))],
            PLANE.use(ex, *A_, *B_, *n, r, u, p[2]), EQP.use(ex, n[0], n[1], *p[:2], *x[:2], RV(0)), ('behind', dot(p, n) <= r)]
CROSS = GLemma('a crossing with a side of a facet is covered by it', [Real] * 30, _cross, _cross_steps)
def defg(ex, m, f, v, p, key): return ('use: definition of a good point', ex.opt['G'](*pt(p), key) == m.good(v, f, p, key))
def before(L, st, c, n):
    """every point in the list is on the edge and covered by the facet"""
    S, ex = L.S, L.S.ex; m = T(S); f, v = L['fi'], L['v']
    F = m.facets.at(f); q = verts(m.facets, f); e = m.e(v); tab = L['hidden_by_edge']
    G = ex.opt['G'] = z3.Function(fresh_name('good'), Real, Real, Real, Real, z3.BoolSort())
    out = [('the facet and the edge', And(0 <= f, f < m.facets.n, 0 <= v, v < m.unseen, m.unseen <= m.edges.n, tab.n == m.unseen)), m.use_len(v),
           ('the facet faces the viewer', F['norm'].z > 0), ('its vertices lie in the plane', And([dot(p, F['norm']) == F['r'] for p in q])),
           *[('it is counter-clockwise %d' % k, cross2(sub(q[(k + 1) % 3], q[k]), sub(q[(k + 2) % 3], q[k])) >= 0) for k in range(3)],
           ('an edge of another facet', Not(m.own(v, f)))]
    src = []
    for i in range(2):
        p = pt(m.edges.at(v)[('first', 'second')[i]]); a = pa(v, p)
        out += [('begin', True), m.use_pa(v, p), END.use(ex, *e.p, *p, *e.d, RV(i), LEN(v), a), ('end %d' % i, And(0 <= a, a <= 1, peq(p, e.at(a)), sq(sub(e.p, p)) == a * a * LEN(v))),
                ('keep: end %d is on the edge' % i, And(0 <= a, a <= 1, peq(p, e.at(a)), (0 if i == 0 else sq(sub(e.p, p))) == a * a * LEN(v)))]
        src.append((p, m.covered(f, p)))
    for k in range(3):
        x = m.fe.at(f).v[k]; g, h = crosses.Seg(m.edges, v, x), crosses.Seg(m.edges, x, v)
        A_, B_, C_ = [pt(q[(k + i) % 3]) for i in range(3)]; p = P(m.edges, v, x); s, t = SS(v, x), SS(x, v); eb = m.edges.at(x); b0, b1 = pt(eb['first']), pt(eb['second'])
        h_, w_ = tab.at(v).has, tab.at(v).val; listed = z3.Select(h_, x); tp = pt(select(w_, x)); a = pa(v, tp)
        out += [('begin', True), ('side %d is an edge' % k, And(0 <= x, x < m.edges.n, v != x, Or(And(peq(b0, A_), peq(b1, B_)), And(peq(b0, B_), peq(b1, A_))))),
                ('listed crossings', listed == HIT(v, x)), ('their points', Imp(listed, peq(tp, p))),
                *defs_at(m.edges, v, x), *defs_at(m.edges, x, v)[:2],
                ('parallel either way round %d' % k, PAR(v, x) == PAR(x, v)),
                ('a crossing %d' % k, Imp(listed, And(Not(PAR(v, x)), 0 <= s, s <= 1, 0 <= t, t <= 1, g.A[2] + g.da[2] * s <= g.B[2] + g.db[2] * t))),
                ('use: roots are not negative', And(crosses.hyp2(g.da) >= 0, crosses.hyp2(g.db) >= 0)), crosses.NOTPAR.use(ex, g.D, crosses.hyp2(g.da), crosses.hyp2(g.db)),
                ('the determinant is not zero %d' % k, Imp(listed, g.D != 0)),
                ('the equations %d' % k, Imp(listed, And(g.D * s == cross2(sub(b0, g.A), sub(b1, b0)), cross2(sub(b1, b0), g.da) * t == cross2(sub(g.A, b0), g.da)))),
                ('at the parameter %d' % k, Imp(listed, And(peq(tp, addv(g.A, scale(s, g.da))), tp[2] <= b0[2] + (b1[2] - b0[2]) * t))),
                CROSS.use(ex, *A_, *B_, *C_, *pt(F['norm']), F['r'], *g.A, *g.da, *b0, *b1, s, t, *tp),
                ('covered by the facet %d' % k, Imp(listed, m.covered(f, tp))),
                m.use_pa(v, tp), END.use(ex, *e.p, *tp, *e.d, s, LEN(v), a),
                ('keep: the crossing with side %d is on the edge and covered' % k, Imp(listed, And(0 <= a, a <= 1, peq(tp, e.at(a)), sq(sub(e.p, tp)) == a * a * LEN(v), m.covered(f, tp))))]
        p, hit = tp, listed
        src.append((p, hit))
    for i, (p, cond) in enumerate(src):
        key = RV(0) if i == 0 else sq(sub(e.p, p))
        out += [('begin', True), defg(ex, m, f, v, p, key), ('keep: source %d is good' % i, Imp(cond, G(*p, key)))]
    for k in range(len(c.v)): out.append(('point %d is good' % k, Imp(k < n, G(*pt(c.v[k]['first']), c.v[k]['second']))))
    out.append(('number of points', And(0 <= n, n <= 5)))
    ex.opt['unsorted'] = (m, f, v, c, n)
    return out
NODIST = GLemma('points without distance are equal', [Real] * 6, lambda *xs: (lambda p, q: (sq(sub(p, q)) == 0) == peq(p, q))(*_v(xs, 3, 3)))
def span_is(m, v, p, q): e = m.e(v); a, b = pa(v, p), pa(v, q); return And(LEN(v) > 0, 0 <= a, a <= b, b <= 1, peq(p, e.at(a)), peq(q, e.at(b)), m.covw(v, p, q))
def def_span(ex, m, v, p, q): return ('use: definition of a span', ex.opt['SP'](*pt(p), *pt(q)) == span_is(m, v, p, q))
def after(L, st, c, n):
    S, ex = L.S, L.S.ex; m, f, v, c0, n0 = ex.opt['unsorted']; e = m.e(v)
    out = []; SP = ex.opt['SP'] = z3.Function(fresh_name('span'), *([Real] * 6 + [z3.BoolSort()]))
    for k in range(len(c.v)): out.append(('sorted point %d is good' % k, Imp(k < n, ex.opt['G'](*pt(c.v[k]['first']), c.v[k]['second']))))
    p, kp = c.v[0]['first'], c.v[0]['second']; a = pa(v, p)
    for j in range(1, len(c.v)):
        q, kq = c.v[j]['first'], c.v[j]['second']; b = pa(v, q); last = n == j + 1; dif = sq(sub(p, q)) != 0
        out += [('begin', True), ('ends in order %d' % j, Imp(last, kp <= kq)), defg(ex, m, f, v, p, kp), defg(ex, m, f, v, q, kq), ('ends of span %d' % j, Imp(last, And(m.good(v, f, p, kp), m.good(v, f, q, kq)))),
                CMP.use(ex, b, a, LEN(v)), DIFF.use(ex, *e.p, *e.d, *pt(p), *pt(q), a, b, LEN(v)),
                ('a span of different points has length %d' % j, Imp(And(last, dif), LEN(v) > 0)),
                ('span %d runs forward' % j, Imp(And(last, dif), And(0 <= a, a <= b, b <= 1))),
                m.use_covw(f, v, p, q), ('span %d is covered' % j, Imp(last, m.covw(v, p, q))),
                ('span %d' % j, Imp(And(last, dif), span_is(m, v, p, q))), def_span(ex, m, v, p, q), NODIST.use(ex, *pt(p), *pt(q)),
                ('keep: span %d' % j, Imp(last, Or(peq(p, q), SP(*pt(p), *pt(q)))))]
    return out
def body2(L):
    L.S.ex.opt.pop('SP', None); L.S.ex.opt['h0'] = L.find(lambda v: isinstance(v, Mp), 'edge_hides_list'); return []
def steps2(L):
    m = T(L.S); v = simp(L['v'] - 1); h0, h1 = L.S.ex.opt['h0'], L.find(lambda v: isinstance(v, Mp), 'edge_hides_list'); e = m.e(v); j = I()
    v0, v1 = select(h0.val, v), select(h1.val, v); n0 = If(z3.Select(h0.has, v), v0.n, 0); n1 = If(z3.Select(h1.has, v), v1.n, 0)
    sp = v1.at(n0); p, q = sp['first'], sp['second']; a, b = pa(v, p), pa(v, q)
    return [('this edge', And(0 <= v, v < m.unseen)), ('at most one span more', And(n0 >= 0, Or(n1 == n0, n1 == n0 + 1))),
            NODIST.use(L.S.ex, *pt(p), *pt(q)), ('a new span has two ends', Imp(n1 == n0 + 1, Not(peq(p, q)))),
            *([('a new span comes from the list', Imp(n1 == n0 + 1, L.S.ex.opt['SP'](*pt(p), *pt(q)))), def_span(L.S.ex, m, v, p, q)] if 'SP' in L.S.ex.opt else []), ('the new span', Imp(n1 == n0 + 1, span_is(m, v, p, q))), m.use_on(v, p), m.use_on(v, q), ('the new span is on its edge', Imp(n1 == n0 + 1, And(on(v, p), on(v, q)))),
            ('earlier spans of the edge stay', ForAll([j], Imp(And(0 <= j, j < n0), And([x == y for x, y in zip(leaves(v1.at(j)), leaves(v0.at(j)))])), patterns=[leaves(v1.at(j))[0]])),
            ('earlier spans are on the edge', ForAll([j], Imp(And(0 <= j, j < n0), And(on(v, v0.at(j)['first']), on(v, v0.at(j)['second']))), patterns=[leaves(v0.at(j))[0]])),
            ('spans of the edge are on it', ForAll([j], Imp(And(0 <= j, j < n1), And(on(v, v1.at(j)['first']), on(v, v1.at(j)['second']))), patterns=[leaves(v1.at(j)['first'])[0], leaves(v1.at(j)['second'])[0]]))]
CONV = GLemma('between two points on a side', [Real] * 5, lambda c, d, a, b, t: Imp(And(c + a * d >= 0, c + b * d >= 0, a <= t, t <= b), c + t * d >= 0))
AFF = GLemma('the side of a point on an edge', [Real] * 9, lambda u0, u1, q0, q1, p0, p1, d0, d1, t: u0 * (p1 + t * d1 - q1) - u1 * (p0 + t * d0 - q0) == (u0 * (p1 - q1) - u1 * (p0 - q0)) + t * (u0 * d1 - u1 * d0))
AFFP = GLemma('the height of a point on an edge', [Real] * 11, lambda n0, n1, n2, r, p0, p1, p2, d0, d1, d2, t: r - ((p0 + t * d0) * n0 + (p1 + t * d1) * n1 + (p2 + t * d2) * n2) == (r - (p0 * n0 + p1 * n1 + p2 * n2)) + t * (-(d0 * n0 + d1 * n1 + d2 * n2)))
def ens(S):
    m = T(S); ex = S.ex; o, t = O0, T0
    if ex.cur is not S.con: return []
    GS, G = ex.opt['pieces']; A_ = lines.Args(GS); r = S.ret
    n, h = lines.spans(GS, o)
    out, fin, hid = lines.pieces(GS, r, G, m.unseen)
    C, W = G[3], G[4]; j = z3.Select(W, o); sp = h.at(j); p, q = sp['first'], sp['second']; a, b = pa(o, p), pa(o, q)
    f = WIT(o, *pt(p), *pt(q)); F = m.facets.at(f); e = m.e(o); w = verts(m.facets, f)
    rng = And(0 <= o, o < m.unseen, e.L > 0, 0 <= t, t <= 1)
    hd = And(rng, Not(z3.Select(C, o)))
    x = e.at(t)
    st_ = [m.use_len(o), ('hidden positions are in a span', Imp(hd, And(0 <= j, j < n, a <= t, t <= b, a <= b))), m.use_wit(o, p, q),
           ('the span is covered', Imp(hd, And(m.wit(f, o, p, q), peq(p, e.at(a)), peq(q, e.at(b)))))]
    for k in range(3):
        u = sub(w[(k + 1) % 3], w[k]); c, d = u[0] * (e.p[1] - w[k].y) - u[1] * (e.p[0] - w[k].x), u[0] * e.d[1] - u[1] * e.d[0]
        st_ += [AFF.use(ex, u[0], u[1], w[k].x, w[k].y, e.p[0], e.p[1], e.d[0], e.d[1], z) for z in (a, b, t)]
        st_ += [CONV.use(ex, c, d, a, b, t), ('ends inside side %d' % k, Imp(hd, And(c + a * d >= 0, c + b * d >= 0))), ('inside side %d' % k, Imp(hd, m.side(f, k, x) >= 0))]
    N = pt(F['norm']); c, d = F['r'] - dot(e.p, N), -dot(e.d, N)
    st_ += [AFFP.use(ex, *N, F['r'], *e.p, *e.d, z) for z in (a, b, t)]
    st_ += [CONV.use(ex, c, d, a, b, t), ('ends at or behind the plane', Imp(hd, And(c + a * d >= 0, c + b * d >= 0))), ('at or behind the plane', Imp(hd, dot(x, N) <= F['r']))]
    pre = [(nm if nm.startswith('use: ') else 'step: ' + nm, g) for nm, g in st_]
    i = I(); E, Sa, Ta = G[:3]; l = r.at(i); ei = m.e(z3.Select(E, i))
    return pre + [
        ('each segment is a piece of a drawn edge', ForAll([i], Imp(And(0 <= i, i < r.n), And([0 <= z3.Select(E, i), z3.Select(E, i) < m.unseen, 0 <= z3.Select(Sa, i), z3.Select(Sa, i) <= z3.Select(Ta, i), z3.Select(Ta, i) <= 1] + [l['o'].v[c] == ei.at(z3.Select(Sa, i))[c] for c in range(2)] + [l['t'].v[c] == ei.at(z3.Select(Ta, i))[c] for c in range(2)])), patterns=[z3.Select(E, i)])),
        ('each position of a drawn edge is on a segment or covered by a facet the edge does not belong to',
         Imp(rng, Or(fin(o, t), And(0 <= f, f < m.facets.n, Not(m.own(o, f)), m.covered(f, x)))))]
def span_param(S, o, j, which):
    h = S.arg(4)
    return pa(o, select(h.val, o).at(j)[which])
TOLINES = Contract('stl2ps::STLFile::ToLines', requires=req, ensures=ens, loops=[{'inv': inv1}, {'inv': inv2, 'body': body2, 'steps': steps2}, {'inv': inv3, 'steps': steps3}],
                   hooks={'before sort of an array': before, 'after sort of an array': after}, opt={'span_param': span_param})
def contracts(): return [TOLINES, crosses.CROSSES, lines.GENLINES]
