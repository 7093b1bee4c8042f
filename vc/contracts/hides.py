"""Contract of STLFile::ToLines, the other way round (C30): what runs behind a facet is not drawn."""
from spec import *
from contracts import lines, crosses, tolines
from contracts.stl import verts
from contracts.lines import LEN, CMP
from contracts.crosses import PAR, SS, HIT, P, defs_at
from contracts.tolines import T, pa, CANCEL, NODIST, _v
O = tolines.O0                                                 # any drawn edge
F = z3.Const('any_facet', Int)                                 # any facet it doesn't belong to
K = z3.Const('any_segment', Int)
T1, T2 = z3.Reals('overlap_from overlap_to')                   # where the edge enters and leaves the facet's projection
TS = ((T1, 'entry'), (T2, 'exit'))
IE = z3.Function('hidden_point', Int, Int, Real, z3.BoolSort())   # the code finds a hidden point of edge o and facet f at a position
CASE = z3.Const('the_case', z3.BoolSort())
def strict(m, f, p):
    N = m.facets.at(f); return And([m.side(f, k, p) >= 0 for k in range(3)] + [dot(p, N['norm']) < N['r']])
def sources(m, o, f):
    """the hidden points of edge o and facet f: when they are there, and where"""
    ends = [pt(m.edges.at(o)[w]) for w in ('first', 'second')]; xs = [m.fe.at(f).v[k] for k in range(3)]
    return [(strict(m, f, p), p) for p in ends] + [(HIT(o, x), P(m.edges, o, x)) for x in xs]
def use_ie(m, o, f, t): return ('use: definition of a hidden point', IE(o, f, t) == Or([And(c, t == pa(o, p)) for c, p in sources(m, o, f)]))
def case(m): return And(0 <= O, O < m.unseen, 0 <= F, F < m.facets.n, Not(m.own(O, F)), LEN(O) > 0, T1 < T2, IE(O, F, T1), IE(O, F, T2))
def setup(S, st): st.facts.append(CASE == case(T(S)))
def hlist(L): return L.find(lambda v: isinstance(v, Mp), 'edge_hides_list')
def reaches(v, j): sp = v.at(j); return And(pa(O, sp['first']) <= T1, T2 <= pa(O, sp['second']))
def cov(L):
    h, W = hlist(L), L.g('w'); v = select(h.val, O)
    return And(z3.Select(h.has, O), 0 <= W, W < v.n, reaches(v, W))
def inv1(L): return tolines.inv1(L) + [('a span reaches from entry to exit', Imp(And(CASE, F < L['fi']), cov(L)))]
def inv2(L): return tolines.inv2(L) + [('a span reaches from entry to exit', Imp(And(CASE, Or(F < L['fi'], And(F == L['fi'], O < L['v']))), cov(L)))]
def inv3(L): return tolines.inv3(L) + [('a span reaches from entry to exit', Imp(CASE, cov(L)))]
def here(L, f, v): return And(CASE, F == f, O == v)
def up2(Lb, La):
    h = hlist(Lb); n0 = If(z3.Select(h.has, O), select(h.val, O).n, 0)
    return If(And(Lb['fi'] == F, Lb['v'] == O), n0, Lb.g('w'))
def up3(Lb, La): return If(Lb['i'] == O, Lb.S.ex.opt['sorts'][-1][2](Lb.g('w')), Lb.g('w'))
def at(ex, i, p, key): return ex.opt['AT'][i](*pt(p), key)
def defat(ex, i, t, v, p, key): return ('use: definition of a point at the place', at(ex, i, p, key) == (pa(v, p) == t))
def before(L, st, c, n):
    """the list contains the hidden points at both places"""
    out = tolines.before(L, st, c, n)
    S, ex = L.S, L.S.ex; m = T(S); f, v = L['fi'], L['v']; e = m.e(v); tab = L['hidden_by_edge']
    ex.opt['AT'] = [z3.Function(fresh_name('at'), Real, Real, Real, Real, z3.BoolSort()) for _ in TS]
    hr = here(L, f, v)
    src = []
    for i, (cond, p) in enumerate(sources(m, v, f)):
        key = RV(0) if i == 0 else sq(sub(e.p, p))
        if i >= 2:
            x = m.fe.at(f).v[i - 2]; listed = z3.Select(tab.at(v).has, x); tp = pt(select(tab.at(v).val, x))
            out += [('begin', True), ('side %d is an edge of the model' % (i - 2), And(0 <= x, x < m.edges.n, v != x)), ('keep: listed crossings %d' % (i - 2), And(listed == HIT(v, x), Imp(listed, peq(tp, p))))]
            src.append((cond, listed, p, tp, sq(sub(e.p, tp))))
        else: src.append((cond, cond, p, p, key))
    for i, (t, w) in enumerate(TS):
        out += [('begin', True), use_ie(m, v, f, t), ('a hidden point at the %s' % w, Imp(hr, Or([And(c_, t == pa(v, p)) for c_, _, p, _, _ in src]))),
                *[defat(ex, i, t, v, tp, key) for _, _, _, tp, key in src],
                ('a point of the list at the %s' % w, Imp(hr, Or([And(l, at(ex, i, tp, key)) for _, l, _, tp, key in src]))),
                ('keep: the list has a point at the %s' % w, Imp(hr, Or([And(k < n, at(ex, i, c.v[k]['first'], c.v[k]['second'])) for k in range(len(c.v))])))]
    return out
def after(L, st, c, n):
    out = tolines.after(L, st, c, n)
    S, ex = L.S, L.S.ex; m, f, v, c0, n0 = ex.opt['unsorted']; hr = here(L, f, v); N = len(c.v)
    A_ = [pa(v, c.v[k]['first']) for k in range(N)]; key = [c.v[k]['second'] for k in range(N)]
    for j in range(1, N):
        last = n == j + 1
        for k in range(j + 1):
            out += [('begin', True), *[tolines.defg(ex, m, f, v, c.v[i]['first'], key[i]) for i in {0, k, j}], ('keys %d of %d' % (k, j), Imp(last, And(key[0] <= key[k], key[k] <= key[j]))),
                    ('good %d of %d' % (k, j), Imp(last, And([m.good(v, f, c.v[i]['first'], key[i]) for i in {0, k, j}]))),
                    CMP.use(ex, A_[k], A_[0], LEN(v)), CMP.use(ex, A_[j], A_[k], LEN(v)), ('keep: point %d of %d is between the first and the last' % (k, j), Imp(And(last, LEN(v) > 0), And(A_[0] <= A_[k], A_[k] <= A_[j])))]
    for i, (t, w) in enumerate(TS):
        out += [('begin', True), ('the sorted list has a point at the %s' % w, Imp(hr, Or([And(k < n, at(ex, i, c.v[k]['first'], c.v[k]['second'])) for k in range(N)]))),
                *[defat(ex, i, t, v, c.v[k]['first'], key[k]) for k in range(N)],
                ('keep: the %s is one of the places' % w, Imp(hr, Or([And(k < n, A_[k] == t) for k in range(N)])))]
    for j in range(1, N):
        p, q = c.v[0]['first'], c.v[j]['first']; last = n == j + 1; g = And(hr, last)
        out += [('begin', True), ('length %d' % j, Imp(g, LEN(v) > 0)), ('both places %d' % j, Imp(g, And(A_[0] <= T1, T2 <= A_[j], T1 < T2))), NODIST.use(ex, *pt(p), *pt(q)), ('other points %d' % j, Imp(g, Not(peq(p, q)))),
                ('keep: the span reaches both places %d' % j, Imp(g, And(A_[0] <= T1, T2 <= A_[j], sq(sub(p, q)) != 0)))]
    return out
def steps2(L):
    m = T(L.S); v = simp(L['v'] - 1); f = L['fi']; h0, h1 = L.S.ex.opt['h0'], hlist(L); hr = here(L, f, v); tab = L['hidden_by_edge']
    v0, v1 = select(h0.val, v), select(h1.val, v); n0 = If(z3.Select(h0.has, v), v0.n, 0); n1 = If(z3.Select(h1.has, v), v1.n, 0)
    out = []
    for k in range(3):
        x = m.fe.at(f).v[k]; listed = z3.Select(tab.at(v).has, x)
        out += [('side %d is an edge of the model' % k, Imp(hr, And(0 <= x, x < m.edges.n, v != x))), ('listed crossings %d' % k, Imp(hr, listed == HIT(v, x)))]
    out += [use_ie(m, v, f, t) for t, w in TS] + [('two places', Imp(hr, And(T1 < T2, IE(v, f, T1), IE(v, f, T2))))]
    if 'unsorted' in L.S.ex.opt:
        n = L.S.ex.opt['unsorted'][4]; src = sources(m, v, f); b = [fresh(z3.BoolSort(), 'there') for _ in src]; pos = [fresh(Real, 'place') for _ in src]
        out += [('use: hidden points', And([And(x == c, y == pa(v, p)) for x, y, (c, p) in zip(b, pos, src)])), *[('%s is one of them' % w, Imp(hr, Or([And(x, t == y) for x, y in zip(b, pos)]))) for t, w in TS]]
        out += [('they are counted', Imp(hr, n == z3.Sum([If(x, 1, 0) for x in b]))), ('at least two', Imp(hr, n >= 2)), ('at most five', Imp(hr, n <= 5)), *[('a span for %d points is added' % j, Imp(And(hr, n == j), n1 == n0 + 1)) for j in range(2, 6)]]
    return tolines.steps2(L) + out + [('the span for both places is added', Imp(hr, n1 == n0 + 1)), ('it reaches both places', Imp(hr, reaches(v1, n0)))]
def _area(A_, B_, C_): return cross2(sub(B_, A_), sub(C_, A_))
SOLVES = GLemma('a meeting point solves the equations', [Real] * 10, lambda a0, a1, d0, d1, b0, b1, e0, e1, s, t: Imp(And(a0 + d0 * s == b0 + e0 * t, a1 + d1 * s == b1 + e1 * t), And((d0 * e1 - d1 * e0) * s == (b0 - a0) * e1 - (b1 - a1) * e0, (e0 * d1 - e1 * d0) * t == (a0 - b0) * d1 - (a1 - b1) * d0)))
BARY = GLemma('barycentric coordinates', [Real] * 8, lambda a0, a1, b0, b1, c0, c1, x0, x1: (lambda s0, s1, s2, ar: And([s0 + s1 + s2 == ar] + [ar * x == s1 * a + s2 * b + s0 * c for x, a, b, c in ((x0, a0, b0, c0), (x1, a1, b1, c1))]))(
    (b0 - a0) * (x1 - a1) - (b1 - a1) * (x0 - a0), (c0 - b0) * (x1 - b1) - (c1 - b1) * (x0 - b0), (a0 - c0) * (x1 - c1) - (a1 - c1) * (x0 - c0), (b0 - a0) * (c1 - a1) - (b1 - a1) * (c0 - a0)))
ALONG = GLemma('a point of a side', [Real] * 9, lambda x, a, b, c, ar, s0, s1, s2, u: Imp(And(ar != 0, s0 == 0, s2 == u * ar, s0 + s1 + s2 == ar, ar * x == s1 * a + s2 * b + s0 * c), x == a + u * (b - a)),
               lambda ex, x, a, b, c, ar, s0, s1, s2, u: [('the other part', s1 == (1 - u) * ar), ('nothing of the third', s0 * c == 0), ('products', And(s1 * a == (1 - u) * ar * a, s2 * b == u * ar * b)), ('in sum', ar * x == (1 - u) * ar * a + u * ar * b), ('by the area', x * ar == (a + u * (b - a)) * ar), CANCEL.use(ex, ar, x, a + u * (b - a))])
POSF = GLemma('a factor is not negative', [Real] * 2, lambda w, a: Imp(And(a > 0, w * a >= 0), w >= 0))
BELOW = GLemma('a point behind the plane is behind the side', [Real] * 12, lambda a0, a1, a2, b0, b1, b2, n0, n1, n2, r, u, z: Imp(And(n2 > 0, a0 * n0 + a1 * n1 + a2 * n2 == r, b0 * n0 + b1 * n1 + b2 * n2 == r, (a0 + u * (b0 - a0)) * n0 + (a1 + u * (b1 - a1)) * n1 + z * n2 < r), z < a2 + u * (b2 - a2)),
               lambda ex, a0, a1, a2, b0, b1, b2, n0, n1, n2, r, u, z: [('the side is in the plane', (a0 + u * (b0 - a0)) * n0 + (a1 + u * (b1 - a1)) * n1 + (a2 + u * (b2 - a2)) * n2 == (1 - u) * (a0 * n0 + a1 * n1 + a2 * n2) + u * (b0 * n0 + b1 * n1 + b2 * n2)),
                   ('by the equations', And((1 - u) * (a0 * n0 + a1 * n1 + a2 * n2) == (1 - u) * r, u * (b0 * n0 + b1 * n1 + b2 * n2) == u * r)), ('heights', z * n2 < (a2 + u * (b2 - a2)) * n2), LESS.use(ex, n2, z, a2 + u * (b2 - a2))])
LESS = GLemma('a common positive factor', [Real] * 3, lambda n, x, y: Imp(And(n > 0, x * n < y * n), x < y))
def _reach(*xs):
    A_, B_, C_, n, r, ga, da, gb, b2, s, t, tau, x = _v(xs, 3, 3, 3, 3, 1, 3, 3, 3, 3, 1, 1, 1, 3); db = sub(b2, gb); D = cross2(da, db)
    return Imp(And(n[2] > 0, dot(A_, n) == r, dot(B_, n) == r, _area(A_, B_, C_) > 0, D != 0, D * s == cross2(sub(gb, ga), db), cross2(db, da) * t == cross2(sub(ga, gb), da),
                   peq(x, addv(ga, scale(tau, da))), cross2(sub(B_, A_), sub(x, A_)) == 0, cross2(sub(C_, B_), sub(x, B_)) >= 0, cross2(sub(A_, C_), sub(x, C_)) >= 0, dot(x, n) < r,
                   Or(And(peq(gb, A_), peq(b2, B_)), And(peq(gb, B_), peq(b2, A_)))),
               And(s == tau, 0 <= t, t <= 1, x[2] <= gb[2] + db[2] * t))
def _reach_steps(ex, *xs):
    A_, B_, C_, n, r, ga, da, gb, b2, s, t, tau, x = _v(xs, 3, 3, 3, 3, 1, 3, 3, 3, 3, 1, 1, 1, 3); db = sub(b2, gb)
    u, w, ar, s0, s1, s2 = [fresh(Real, k) for k in ('along', 'param', 'area', 'side0', 'side1', 'side2')]
    return [('use: names', And(ar == _area(A_, B_, C_), s0 == cross2(sub(B_, A_), sub(x, A_)), s1 == cross2(sub(C_, B_), sub(x, B_)), s2 == cross2(sub(A_, C_), sub(x, C_)))),
            ('a proper triangle', ar > 0), ('use: where', u * ar == s2), BARY.use(ex, *A_[:2], *B_[:2], *C_[:2], *x[:2]),
            ('the sides add up', s0 + s1 + s2 == ar), *[('in coordinates %d' % i, ar * x[i] == s1 * A_[i] + s2 * B_[i] + s0 * C_[i]) for i in range(2)],
            ('inside', And(s0 == 0, s1 >= 0, s2 >= 0)), ('parts', And(u * ar >= 0, (1 - u) * ar >= 0)), POSF.use(ex, u, ar), POSF.use(ex, 1 - u, ar), ('between the ends', And(0 <= u, u <= 1)),
            *[ALONG.use(ex, x[i], A_[i], B_[i], C_[i], ar, s0, s1, s2, u) for i in range(2)], ('on the side', And([x[i] == A_[i] + u * (B_[i] - A_[i]) for i in range(2)])),
            ('use: the parameter', w == If(And(peq(gb, A_), peq(b2, B_)), u, 1 - u)), ('on the other edge', And([ga[i] + da[i] * tau == gb[i] + db[i] * w for i in range(2)])),
            SOLVES.use(ex, *ga[:2], *da[:2], *gb[:2], *db[:2], tau, w), ('equation 1', tau * cross2(da, db) == s * cross2(da, db)), ('equation 2', w * cross2(db, da) == t * cross2(db, da)), ('the other determinant', cross2(db, da) != 0),
            CANCEL.use(ex, cross2(da, db), tau, s), CANCEL.use(ex, cross2(db, da), w, t), ('the same parameters', And(s == tau, t == w)),
            tolines.EQP.use(ex, n[0], n[1], *x[:2], *[A_[i] + u * (B_[i] - A_[i]) for i in range(2)], RV(0)), ('behind the plane', (A_[0] + u * (B_[0] - A_[0])) * n[0] + (A_[1] + u * (B_[1] - A_[1])) * n[1] + x[2] * n[2] < r),
            BELOW.use(ex, *A_, *B_, *n, r, u, x[2]), ('behind the side', x[2] < A_[2] + u * (B_[2] - A_[2])), ('height on the other edge', gb[2] + db[2] * w == A_[2] + u * (B_[2] - A_[2])), ('with the same factor', db[2] * t == db[2] * w)]
REACH = GLemma('the code sees an edge pass behind a side', [Real] * 34, _reach, _reach_steps)
POS = GLemma('the position of a point at a parameter', [Real] * 12, lambda *xs: (lambda p, x, d, s, l, a: Imp(And(peq(x, addv(p, scale(s, d))), l == sq(d), l != 0, a * l == dot(sub(x, p), d)), a == s))(*_v(xs, 3, 3, 3, 1, 1, 1)),
             lambda ex, *xs: (lambda p, x, d, s, l, a: [('inner product', dot(sub(x, p), d) == s * l), ('equal multiples', a * l == s * l), CANCEL.use(ex, l, a, s)])(*_v(xs, 3, 3, 3, 1, 1, 1)))
def passes(m, k, t):
    """at position t the edge passes strictly behind side k of the facet"""
    x = m.e(O).at(t); N = m.facets.at(F); q = verts(m.facets, F)
    return And(0 <= t, t <= 1, m.side(F, k, x) == 0, *[m.side(F, (k + i) % 3, x) >= 0 for i in (1, 2)], dot(x, N['norm']) < N['r'], Not(crosses.Seg(m.edges, O, m.fe.at(F).v[k]).parallel), _area(*[pt(q[(k + i) % 3]) for i in range(3)]) > 0)
def endpoint(m, i, t): return And(t == i, strict(m, F, m.e(O).p if i == 0 else m.e(O).q))
def is_end(m, t): return Or([endpoint(m, i, t) for i in range(2)] + [passes(m, k, t) for k in range(3)])
def ens(S):
    m = T(S); ex = S.ex
    if ex.cur is not S.con: return []
    GS, G = ex.opt['pieces']; r = S.ret; E, Sa, Ta = G[:3]; W = S.new.cells[('gh', 'w')]
    n, h = lines.spans(GS, O); sp = h.at(W); a, b = pa(O, sp['first']), pa(O, sp['second']); e = m.e(O)
    N = m.facets.at(F); q = verts(m.facets, F)
    seg = And(0 <= K, K < r.n, z3.Select(E, K) == O); clear = Or(T2 <= z3.Select(Sa, K), z3.Select(Ta, K) <= T1)
    out = [('step: the span for the facet', Imp(CASE, And(0 <= W, W < n, a <= T1, T2 <= b))),
           ('step: the segment leaves out the span', Imp(And(CASE, seg), Or(b <= z3.Select(Sa, K), z3.Select(Ta, K) <= a))),
           ('step: the segment leaves out what is between', Imp(And(CASE, seg), clear)), m.use_len(O)]
    rng = And(0 <= O, O < m.unseen, 0 <= F, F < m.facets.n, Not(m.own(O, F)), e.L > 0)
    for t, w in TS:
        out.append(use_ie(m, O, F, t))
        for i, p in enumerate((e.p, e.q)):
            out += [m.use_pa(O, p), POS.use(ex, *e.p, *p, *e.d, RV(i), e.L, pa(O, p)), ('step: end %d is a hidden point (%s)' % (i, w), Imp(And(rng, endpoint(m, i, t)), IE(O, F, t)))]
        for k in range(3):
            x = m.fe.at(F).v[k]; g, hh = crosses.Seg(m.edges, O, x), crosses.Seg(m.edges, x, O); s, u = SS(O, x), SS(x, O); eb = m.edges.at(x); b0, b1 = pt(eb['first']), pt(eb['second'])
            A_, B_, C_ = [pt(q[(k + i) % 3]) for i in range(3)]; p = P(m.edges, O, x); hyp = And(rng, passes(m, k, t)); y = e.at(t)
            out += [('step: side %d is an edge' % k, Imp(rng, And(0 <= x, x < m.edges.n, O != x, Or(And(peq(b0, A_), peq(b1, B_)), And(peq(b0, B_), peq(b1, A_)))))),
                    ('step: the plane %d' % k, Imp(rng, And(N['norm'].z > 0, dot(A_, N['norm']) == N['r'], dot(B_, N['norm']) == N['r']))),
                    *defs_at(m.edges, O, x), *defs_at(m.edges, x, O)[:2], ('step: parallel either way round %d' % k, PAR(O, x) == PAR(x, O)),
                    ('use: roots are not negative', And(crosses.hyp2(g.da) >= 0, crosses.hyp2(g.db) >= 0)), crosses.NOTPAR.use(ex, g.D, crosses.hyp2(g.da), crosses.hyp2(g.db)),
                    ('step: not parallel %d (%s)' % (k, w), Imp(hyp, And(Not(PAR(O, x)), Not(PAR(x, O)), g.D != 0))),
                    ('step: equations %d (%s)' % (k, w), Imp(hyp, And(g.D * s == cross2(sub(b0, e.p), sub(b1, b0)), cross2(sub(b1, b0), e.d) * u == cross2(sub(e.p, b0), e.d)))),
                    REACH.use(ex, *A_, *B_, *C_, *pt(N['norm']), N['r'], *e.p, *e.d, *b0, *b1, s, u, t, *y),
                    ('step: a meeting point %d (%s)' % (k, w), Imp(hyp, And(s == t, 0 <= u, u <= 1, y[2] <= b0[2] + (b1[2] - b0[2]) * u))),
                    ('step: a crossing %d (%s)' % (k, w), Imp(hyp, HIT(O, x))), ('step: its place %d (%s)' % (k, w), Imp(hyp, peq(p, addv(e.p, scale(s, e.d))))),
                    m.use_pa(O, p), POS.use(ex, *e.p, *p, *e.d, s, e.L, pa(O, p)), ('step: its position %d (%s)' % (k, w), Imp(hyp, pa(O, p) == t)),
                    ('step: side %d gives a hidden point (%s)' % (k, w), Imp(hyp, IE(O, F, t)))]
    i = I(); l = r.at(i); ei = m.e(z3.Select(E, i))
    return out + [
        ('each segment is a piece of a drawn edge', ForAll([i], Imp(And(0 <= i, i < r.n), And([0 <= z3.Select(E, i), z3.Select(E, i) < m.unseen, 0 <= z3.Select(Sa, i), z3.Select(Sa, i) <= z3.Select(Ta, i), z3.Select(Ta, i) <= 1] + [l['o'].v[c] == ei.at(z3.Select(Sa, i))[c] for c in range(2)] + [l['t'].v[c] == ei.at(z3.Select(Ta, i))[c] for c in range(2)])), patterns=[z3.Select(E, i)])),
        ('no segment of a drawn edge enters the part that runs behind a facet', Imp(And(rng, T1 < T2, is_end(m, T1), is_end(m, T2), seg), clear))]
HIDES = Contract('stl2ps::STLFile::ToLines', short='STLFile::ToLines (what is covered)', requires=tolines.req, ensures=ens, setup=setup,
                 loops=[{'inv': inv1, 'ghost': {'w': (lambda L: z3.Const(fresh_name('w'), Int), lambda Lb, La: La.g('w'))}},
                        {'inv': inv2, 'body': tolines.body2, 'steps': steps2, 'ghost': {'w': (lambda L: L.g('w'), up2)}},
                        {'inv': inv3, 'steps': tolines.steps3, 'ghost': {'w': (lambda L: L.g('w'), up3)}}],
                 hooks={'before sort of an array': before, 'after sort of an array': after}, opt={'span_param': tolines.span_param})
def contracts(): return [HIDES, crosses.CROSSES, lines.GENLINES]
