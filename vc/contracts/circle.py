"""Contract of circle fitting (C18): sums over the points are functions of how many points are summed, by recursion."""
from contracts.stl import *
RR = lambda n: z3.Function('sum_' + n, Int, Real)
SX, SY, SXX, SXY, SYY, SXW, SYW, SW = [RR(n) for n in ('x', 'y', 'xx', 'xy', 'yy', 'xw', 'yw', 'w')]
LA, LB = z3.Reals('line_a line_b'); C0, C1, R0 = z3.Reals('circle_x circle_y circle_r')
Z = z3.IntVal
def pts(S): return S.arg(0)
def xy(S, i): p, o = pts(S).at(i), pts(S).at(Z(0)); return p.x - o.x, p.y - o.y
def xyw(S, i): x, y = xy(S, i); return x, y, (x * x + y * y) / 2
def terms(S, i): x, y, w = xyw(S, i); return [(SX, x), (SY, y), (SXX, x * x), (SXY, x * y), (SYY, y * y), (SXW, x * w), (SYW, y * w), (SW, w)]
def on_line(S): i = I(); x, y = xy(S, i); return And(Or(LA != 0, LB != 0), ForAll([i], Imp(And(0 <= i, i < pts(S).n), LA * x + LB * y == 0), patterns=[vpat(pts(S))(i)]))
def unknowns(S):
    """what the normal equations are solved for, when the points lie on the circle (C0, C1), R0"""
    o = pts(S).at(Z(0)); x, y = C0 - o.x, C1 - o.y; return x, y, R0 * R0 - x * x - y * y
def on_circle(S):
    i = I(); p = pts(S).at(i); dx, dy = p.x - C0, p.y - C1
    return And(R0 >= 0, ForAll([i], Imp(And(0 <= i, i < pts(S).n), dx * dx + dy * dy == R0 * R0), patterns=[vpat(pts(S))(i)]))
def sum_defs(S):
    k = I('k'); r = And(0 <= k, k < pts(S).n)
    return [And([f(Z(0)) == 0 for f, _ in terms(S, k)])] + [ForAll([k], Imp(r, f(k + 1) == f(k) + t), patterns=[f(k + 1)]) for f, t in terms(S, k)]
def induct(name, S, n, P):
    """P for the sums over n points, from P for none and for one more, both proved; sums of one more point are written out"""
    k = fresh(Int, 'k'); t = {f.name(): x for f, x in terms(S, k)}
    more = lambda f: f(k) + t[f.name()]
    return k, [('step: %s: for no points' % name, P(lambda f: f(Z(0)), Z(0)))], [('step: %s: for one more' % name, Imp(And(0 <= k, k < n, P(lambda f: f(k), k)), P(more, k + 1))), ('use: ' + name, P(lambda f: f(n), n))]
L_LINE = GLemma('a point on the line contributes nothing', [Real] * 4, lambda a, b, x, y: Imp(a * x + b * y == 0, And(a * (x * x) + b * (x * y) == 0, a * (x * y) + b * (y * y) == 0)))
L_DIST = GLemma('distance to the centre, relative to a point of the circle', [Real] * 5, lambda x, y, u, v, r: Imp((x - u) * (x - u) + (y - v) * (y - v) == r * r, x * u + y * v + (r * r - u * u - v * v) / 2 == (x * x + y * y) / 2))
L_CIRC = GLemma('a point on the circle contributes consistently', [Real] * 6, lambda x, y, w, u, v, z: Imp(x * u + y * v + z / 2 == w, And(x * w == u * (x * x) + v * (x * y) + z / 2 * x, y * w == u * (x * y) + v * (y * y) + z / 2 * y)))
def _det(a, b, n, xx, xy, yy): return B.det3(M(3, 3, [xx, xy, a * n / 2, xy, yy, b * n / 2, a * n / 2, b * n / 2, n / 4]))
L_DET = GLemma('the determinant is the spread', [Real] * 6, lambda a, b, n, xx, xy, yy: 4 * _det(a, b, n, xx, xy, yy) == n * ((xx - a * (a * n)) * (yy - b * (b * n)) - (xy - a * (b * n)) * (xy - a * (b * n))))
L_NULL = GLemma('a direction without spread', [Real] * 5, lambda a, b, xx, xy, yy: Imp(And(Or(a != 0, b != 0), a * xx + b * xy == 0, a * xy + b * yy == 0), xx * yy - xy * xy == 0))
L_INV = GLemma('the inverse undoes the matrix', [Real] * 15, lambda *t: (lambda r, m, u: r[0] * (m[0] * u[0] + m[1] * u[1] + m[2] * u[2]) + r[1] * (m[3] * u[0] + m[4] * u[1] + m[5] * u[2]) + r[2] * (m[6] * u[0] + m[7] * u[1] + m[8] * u[2])
    == u[0] * (r[0] * m[0] + r[1] * m[3] + r[2] * m[6]) + u[1] * (r[0] * m[1] + r[1] * m[4] + r[2] * m[7]) + u[2] * (r[0] * m[2] + r[1] * m[5] + r[2] * m[8]))(t[:3], t[3:12], t[12:]))
L_PROD = GLemma('products of equals', [Real] * 4, lambda p, q, x, y: Imp(And(p == x, q == y), p * q == x * y))
L_ONE = GLemma('one times', [Real] * 2, lambda u, p: And(Imp(p == 1, u * p == u), Imp(p == 0, u * p == 0)))
L_SPREAD = GLemma('the spread decides', [Real] * 6, lambda a, b, c, x, y, z: Imp(And(a == x, b == y, c == z), And(a * b - c * c == x * y - z * z, (a + b) * (a + b) == (x + y) * (x + y), (x + y) * (x + y) >= 0)))
L_RAD = GLemma('radius from the solution', [Real] * 6, lambda a, b, z, u, v, r: Imp(And(a == u, b == v, z == r * r - u * u - v * v), z + a * a + b * b == r * r))
L_ROOT = GLemma('equal squares', [Real] * 2, lambda s, r: Imp(And(s >= 0, r >= 0, s * s == r * r), s == r))
def mean_of(L):
    m = L.find(lambda v: isinstance(v, M) and (v.r, v.c) == (1, 2), 'mean'); o = pts(L.S).at(Z(0)); return m.x - o.x, m.y - o.y
def _sum_inv(L):
    o = pts(L.S).at(Z(0)); m = L.find(lambda v: isinstance(v, M) and (v.r, v.c) == (1, 2), 'mean'); k = z3.ToReal(L.k)
    return [('the sum of the points', And(m.x == SX(L.k) + k * o.x, m.y == SY(L.k) + k * o.y))]
def _cov_enter(L, st): L.ex.opt['mean'] = mean_of(L)
def _cov_lemmas(L):
    a, b = mean_of(L); n = z3.ToReal(pts(L.S).n)
    return [('the mean', And(a * n == SX(pts(L.S).n), b * n == SY(pts(L.S).n)))]
def _cov_inv(L):
    a, b = mean_of(L); k = L.k; r = z3.ToReal(k); xx, yy, xy_ = L['sxx'], L['syy'], L['sxy']
    L.ex.opt['spread'] = [L._lv(v) for v in ('sxx', 'syy', 'sxy')]
    return [('spread along x', xx == SXX(k) - 2 * a * SX(k) + r * (a * a)), ('spread along y', yy == SYY(k) - 2 * b * SY(k) + r * (b * b)), ('mixed spread', xy_ == SXY(k) - a * SY(k) - b * SX(k) + r * (a * b))]
def _fill_inv(L):
    X, Y = L['X'], L['Y']; k = L.k; i = I(); n = pts(L.S).n; x, y, w = xyw(L.S, i); r = And(0 <= i, i < k); c = lambda v, j: z3.Select(v.e.v[j], i)
    if not (isinstance(X, V) and isinstance(Y, V)): raise SpecMismatch('the normal equations')
    return [('one row per point', And(X.n == n, Y.n == n)), ('first column', ForAll([i], Imp(r, c(X, 0) == x), patterns=[c(X, 0)])), ('second column', ForAll([i], Imp(r, c(X, 1) == y), patterns=[c(X, 1)])),
            ('third column', ForAll([i], Imp(r, c(X, 2) == RV('0.5')), patterns=[c(X, 2)])), ('right-hand side', ForAll([i], Imp(r, c(Y, 0) == w), patterns=[c(Y, 0)]))]
def _fit(S):
    ex = S.ex; n = pts(S).n; ok = S.ret; o = pts(S).at(Z(0)); rn = z3.ToReal(n); line, circ = on_line(S), on_circle(S); u = unknowns(S)
    out = [('fewer than three points are refused', Imp(n < 3, Not(ok)))]
    if 'mean' not in ex.opt: return out
    a, b = ex.opt['mean']
    k = fresh(Int, 'k'); x, y, w = xyw(S, k)
    s = lambda nm, g: ('step: ' + nm, g)
    cxx, cyy, cxy = SXX(n) - a * (a * rn), SYY(n) - b * (b * rn), SXY(n) - a * (b * rn)
    G3 = lambda g: Imp(n >= 3, g)
    # points on a line
    zero = lambda v, j: Imp(line, And(LA * v(SX) + LB * v(SY) == 0, LA * v(SXX) + LB * v(SXY) == 0, LA * v(SXY) + LB * v(SYY) == 0))
    k, base, step = induct('sums along the line', S, n, zero); x, y, w = xyw(S, k)
    out += base + [s('a point on the line', Imp(And(line, 0 <= k, k < n), LA * x + LB * y == 0)), L_LINE.use(ex, LA, LB, x, y)] + step
    out += [s('the mean', G3(And(a * rn == SX(n), b * rn == SY(n))))]
    xx, yy, xy_ = [ex.load(lv, S.new) if lv.cell in S.new.cells else None for lv in ex.opt['spread']]
    D = cxx * cyy - cxy * cxy; tr = cxx + cyy
    out += [s('no spread across the line', Imp(And(line, n >= 3), And(LA * cxx + LB * cxy == 0, LA * cxy + LB * cyy == 0))), L_NULL.use(ex, LA, LB, cxx, cxy, cyy)]
    if xx is not None: out += [s('spread', G3(And(xx == cxx, yy == cyy, xy_ == cxy))), L_SPREAD.use(ex, xx, yy, xy_, cxx, cyy, cxy)]
    out += [('points on one line are refused', Imp(And(n >= 3, line), Not(ok))), ('points that spread are fitted', Imp(And(n >= 3, D > RV('0.00000001') * (tr * tr)), ok))]
    # points on a circle
    sums = ex.opt.get('sums', []); invs = ex.opt.get('inverses', [])
    if not sums or not invs: return out
    near = lambda v, j: Imp(circ, And(v(SXW) == u[0] * v(SXX) + u[1] * v(SXY) + u[2] / 2 * v(SX), v(SYW) == u[0] * v(SXY) + u[1] * v(SYY) + u[2] / 2 * v(SY), v(SW) == u[0] * v(SX) + u[1] * v(SY) + u[2] / 2 * z3.ToReal(j)))
    k, base, step = induct('sums around the circle', S, n, near); x, y, w = xyw(S, k); uz = u[2] / 2
    out += base + [s('a point on the circle', Imp(And(circ, 0 <= k, k < n), (x - u[0]) * (x - u[0]) + (y - u[1]) * (y - u[1]) == R0 * R0)), L_DIST.use(ex, x, y, u[0], u[1], R0), L_CIRC.use(ex, x, y, w, *u)] + step
    mat = lambda v, j: [[v(SXX), v(SXY), v(SX) / 2], [v(SXY), v(SYY), v(SY) / 2], [v(SX) / 2, v(SY) / 2, z3.ToReal(j) / 4]]
    rhs = lambda v, j: [[v(SXW)], [v(SYW)], [v(SW) / 2]]
    k = fresh(Int, 'k'); x, y, w = xyw(S, k); cols = {3: [x, y, RV('0.5')], 1: [w]}; t = {f.name(): z for f, z in terms(S, k)}
    for X, Y, G in sums:
        want = mat if Y.e.c == 3 else rhs; r = And(ok, 0 <= k, k < n)
        out += [s('rows', Imp(r, And([z3.Select(v.e.v[q], k) == cols[v.e.c][q] for v in (X, Y) for q in range(v.e.c)]))), s('sizes', Imp(ok, And(X.n == n, Y.n == n)))]
        for i in range(X.e.c):
            for j in range(Y.e.c):
                p, q = z3.Select(X.e.v[i], k), z3.Select(Y.e.v[j], k); f = lambda m: B.sumprod(X.e.v[i], Y.e.v[j], m); px, qy = cols[X.e.c][i], cols[Y.e.c][j]
                now, more, end = want(lambda g: g(k), k)[i][j], want(lambda g: g(k) + t[g.name()], k + 1)[i][j], want(lambda g: g(n), n)[i][j]
                out += [L_PROD.use(ex, p, q, px, qy), s('sum %d%d of nothing' % (i, j), RV(0) == want(lambda g: RV(0), Z(0))[i][j]), s('sum %d%d' % (i, j), Imp(And(r, f(k) == now), f(k) + p * q == more)), ('use: sum', Imp(ok, f(n) == end))]
    inv, m, det = invs[-1]; GM, GR = [g for X, Y, g in sums if Y.e.c == 3][-1], [g for X, Y, g in sums if Y.e.c == 1][-1]
    out += [L_DET.use(ex, a, b, rn, SXX(n), SXY(n), SYY(n)), s('the fitted points spread', Imp(ok, D > 0)), s('the normal equations have one solution', Imp(ok, det != 0))]
    c, r = S.post(1), S.post(2); h = And(ok, circ); Mu = [z3.Sum([m.at(p, q) * u[q] for q in range(3)]) for p in range(3)]
    out += [s('right-hand side', Imp(h, And([GR.at(p, 0) == Mu[p] for p in range(3)])))]
    sol = []
    for i in range(3):
        row = [inv.at(i, j) for j in range(3)]; sol.append(z3.Sum([row[j] * GR.at(j, 0) for j in range(3)]))
        out += [L_PROD.use(ex, row[j], GR.at(j, 0), row[j], Mu[j]) for j in range(3)] + [L_INV.use(ex, *row, *[m.at(p, q) for p in range(3) for q in range(3)], *u)]
        out += [L_ONE.use(ex, u[q], z3.Sum([row[p] * m.at(p, q) for p in range(3)])) for q in range(3)] + [s('the solution', Imp(h, sol[i] == u[i]))]
    fin = r.v if isinstance(r, XR) else r
    out += [L_RAD.use(ex, sol[0], sol[1], sol[2], u[0], u[1], R0), L_ROOT.use(ex, fin, R0)]
    return out + [('the centre of the circle is found', Imp(h, And(c.x == C0, c.y == C1))), ('its radius is found', Imp(h, And(r.k == 0, r.v == R0) if isinstance(r, XR) else r == R0))]
FIT = Contract('stl2ps::FindCircle', ensures=_fit, setup=lambda S, st: st.facts.extend(sum_defs(S)), modifies=['#1', '#2'], loops=[{'inv': _sum_inv}, {'inv': _cov_inv, 'enter': _cov_enter, 'lemmas': _cov_lemmas}, {'inv': _fill_inv}])
def contracts(): return [FIT]
