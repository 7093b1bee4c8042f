"""Contract of GenerateLines (C13)."""
from spec import *
A1 = z3.ArraySort(Int, Int); AR = z3.ArraySort(Int, Real)
# where span j of edge o starts and ends on the edge, as fractions of it (arguments of the caller, ghost)
SA = z3.Function('span_from', Int, Int, Real)
SB = z3.Function('span_to', Int, Int, Real)
T0 = z3.Const('any_t', Real)      # an arbitrary position on an edge
SQL = GLemma('square of a multiple', [Real] * 7, lambda p0, p1, p2, d0, d1, d2, a: (p0 - (p0 + a * d0)) * (p0 - (p0 + a * d0)) + (p1 - (p1 + a * d1)) * (p1 - (p1 + a * d1)) + (p2 - (p2 + a * d2)) * (p2 - (p2 + a * d2)) == a * a * (d0 * d0 + d1 * d1 + d2 * d2))
CMP = GLemma('multiples compare like their squares', [Real] * 3, lambda a, b, l: Imp(And(a >= 0, b >= 0, l >= 0), And(Imp(a * a * l < b * b * l, a < b), Imp(And(l > 0, a < b), a * a * l < b * b * l), Imp(a <= b, a * a * l <= b * b * l), Imp(l == 0, And(a * a * l == 0, b * b * l == 0)))))
def sa(S, o, j): return S.ex.opt['span_param'](S, o, j, 'first') if 'span_param' in S.ex.opt else SA(o, j)
def sb(S, o, j): return S.ex.opt['span_param'](S, o, j, 'second') if 'span_param' in S.ex.opt else SB(o, j)
class Eg:
    def __init__(s, S, o):
        e = S.edges.at(o); s.p, s.q = pt(e['first']), pt(e['second']); s.d = sub(s.q, s.p); s.L = sq(s.d)
    def at(s, t): return [s.p[i] + t * s.d[i] for i in range(3)]
class Args:
    def __init__(s, S): s.show, s.unseen, s.minlen, s.edges, s.hides = [S.arg(i) for i in range(5)]
LEN = z3.Function('edge_len2', Int, Real)
def spans(S, o):
    A = Args(S); h = A.hides
    v = select(h.val, o)
    return If(And(Not(A.show), z3.Select(h.has, o)), v.n, 0), v
def pre(S):
    A = Args(S); o, j, k = I(), I(), I()
    n, v = spans(S, o); e = Eg(A, o); sp = v.at(j)
    rng = And(0 <= o, o < A.unseen, 0 <= j, j < n)
    tr = leaves(sp)[0]
    return [('drawn count in range', And(0 <= A.unseen, A.unseen <= A.edges.n)),
            ('no piece is too short to draw', A.minlen == 0),
            ('spans lie on their edge', ForAll([o, j], Imp(rng, And(0 <= sa(S, o, j), sa(S, o, j) <= sb(S, o, j), sb(S, o, j) <= 1, peq(sp['first'], e.at(sa(S, o, j))), peq(sp['second'], e.at(sb(S, o, j))))), patterns=[tr])),
            ('spans are sorted by their start', ForAll([o, j, k], Imp(And(rng, j <= k, k < n), sa(S, o, j) <= sa(S, o, k)), patterns=[MP(sa(S, o, j), sa(S, o, k))]))]
def gl(L): return L.g('E'), L.g('S'), L.g('T'), L.g('C'), L.g('W')
def sel(a, i): return z3.Select(a, i)
def pieces(S, r, G, lim_o, cur=None, cnt=None):
    """what holds of the segments produced so far: edges before lim_o are complete, edge lim_o is done up to cur"""
    A = Args(S); E, Sa, Ta, C, W = G; k, m, j, o = I(), I(), I(), I()
    rk = And(0 <= k, k < r.n)
    e = Eg(A, sel(E, k)); l = r.at(k)
    n_, v = spans(S, sel(E, k))
    low = sel(E, k) < lim_o if cur is None else Or(sel(E, k) < lim_o, And(sel(E, k) == lim_o, sel(Ta, k) <= cur))
    fin = lambda o, t: And(sel(C, o), 0 <= sel(W, o), sel(W, o) < r.n, sel(E, sel(W, o)) == o, sel(Sa, sel(W, o)) <= t, t <= sel(Ta, sel(W, o)))
    hid = lambda o, t, n: And(Not(sel(C, o)), 0 <= sel(W, o), sel(W, o) < n, sa(S, o, sel(W, o)) <= t, t <= sb(S, o, sel(W, o)))
    out = [('segments are pieces of drawn edges', ForAll([k], Imp(rk, And(0 <= sel(E, k), low, 0 <= sel(Sa, k), sel(Sa, k) < sel(Ta, k), sel(Ta, k) <= 1)), patterns=[sel(E, k)])),
           ('segments lie on their edges', ForAll([k], Imp(rk, And(And([l['o'].v[i] == e.at(sel(Sa, k))[i] for i in range(2)]), And([l['t'].v[i] == e.at(sel(Ta, k))[i] for i in range(2)]))), patterns=[sel(E, k)])),
           ('segments come in order and do not overlap', ForAll([k, m], Imp(And(0 <= k, k < m, m < r.n), And(sel(E, k) <= sel(E, m), Imp(sel(E, k) == sel(E, m), sel(Ta, k) <= sel(Sa, m)))), patterns=[MP(sel(E, k), sel(E, m))])),
           ('no segment enters a hidden span', ForAll([k, j], Imp(And(rk, 0 <= j, j < n_), Or(sb(S, sel(E, k), j) <= sel(Sa, k), sel(Ta, k) <= sa(S, sel(E, k), j))), patterns=[MP(sel(E, k), sa(S, sel(E, k), j))])),
           ('every position is on a segment or hidden', ForAll([o], Imp(And(0 <= o, o < lim_o, LEN(o) > 0, 0 <= T0, T0 <= 1), Or(fin(o, T0), hid(o, T0, spans(S, o)[0]))), patterns=[sel(C, o)]))]
    return out, fin, hid
def outer(L):
    return pieces(L.S, L['ret'], gl(L), L['i'])[0] + [('i', And(0 <= L['i'], L['i'] <= Args(L.S).unseen))]
def inner(L):
    S, i, cur, who, r = L.S, L['i'], L.g('cur'), L.g('who'), L['ret']
    A = Args(S); e = Eg(A, i); j = I(); n = spans(S, i)[0]
    out, fin, hid = pieces(S, r, gl(L), i, cur)
    return out + [('the position reached', And(0 <= cur, cur <= 1, L.g('cnt') == r.n)), ('the position is on the edge', And(peq(L['from'], e.at(cur)), L['d'] == cur * cur * LEN(i))),
                  ('reached at the end of a span', Or(cur == 0, And(0 <= who, who < L.k, SB(i, who) == cur))),
                  ('spans seen end before it', ForAll([j], Imp(And(0 <= j, j < L.k, LEN(i) > 0), SB(i, j) <= cur), patterns=[SB(i, j)])),
                  ('nothing is drawn of a point', Imp(LEN(i) == 0, ForAll([j], Imp(And(0 <= j, j < r.n), sel(L.g('E'), j) < i), patterns=[sel(L.g('E'), j)]))),
                  ('every position so far is on a segment or hidden', Imp(And(LEN(i) > 0, 0 <= T0, T0 < cur), Or(fin(i, T0), hid(i, T0, L.k))))]
def emit(r0, r1, arr, val): return If(r1.n > r0, z3.Store(arr, r0, val), arr)
def up_inner(what):
    def f(Lb, La):
        i, j, n0 = Lb['i'], Lb.k, Lb['ret'].n; cur = Lb.g('cur'); a, b = SA(i, j), SB(i, j); r1 = La['ret']
        new = r1.n > n0; nx = If(And(LEN(i) > 0, cur < b), b, cur)
        inr = And(cur <= T0, T0 < nx)
        if what == 'E': return emit(n0, r1, Lb.g('E'), i)
        if what == 'S': return emit(n0, r1, Lb.g('S'), cur)
        if what == 'T': return emit(n0, r1, Lb.g('T'), a)
        if what == 'C': return If(inr, z3.Store(Lb.g('C'), i, And(new, T0 < a)), Lb.g('C'))
        if what == 'W': return If(inr, z3.Store(Lb.g('W'), i, If(And(new, T0 < a), n0, j)), Lb.g('W'))
        if what == 'cur': return nx
        if what == 'who': return If(And(LEN(i) > 0, cur < b), j, Lb.g('who'))
        if what == 'cnt': return r1.n
    return f
def up_outer(what):
    def f(Lb, La):
        i, n0, cur = Lb['i'], La.g('cnt'), La.g('cur'); r1 = La['ret']; new = r1.n > n0
        fin = And(new, T0 >= cur)
        if what == 'E': return emit(n0, r1, La.g('E'), i)
        if what == 'S': return emit(n0, r1, La.g('S'), cur)
        if what == 'T': return emit(n0, r1, La.g('T'), RV(1))
        if what == 'C': return z3.Store(La.g('C'), i, If(T0 >= cur, new, sel(La.g('C'), i)))
        if what == 'W': return z3.Store(La.g('W'), i, If(fin, n0, If(T0 >= cur, La.g('who'), sel(La.g('W'), i))))
    return f
def cst(n, s): return lambda L: z3.Const(fresh_name(n), s)
SORTS = {'E': A1, 'S': AR, 'T': AR, 'C': z3.ArraySort(Int, z3.BoolSort()), 'W': A1}
def use_len(S, o):
    e = Eg(Args(S), o)
    return ('use: length', LEN(o) == e.L)
def steps_in(L):
    n0, i, a, b, c = L.S.ex.opt['head']
    return [('a segment is added exactly when a span starts ahead', (L['ret'].n > n0) == And(LEN(i) > 0, c < a)), ('at most one segment is added', And(L['ret'].n >= n0, L['ret'].n <= n0 + 1)),
            ('the position moves exactly when the span ends ahead', And(Imp(And(LEN(i) > 0, c < b), And(L['d'] == b * b * LEN(i), peq(L['from'], Eg(Args(L.S), i).at(b)))), Imp(Not(And(LEN(i) > 0, c < b)), And(L['d'] == c * c * LEN(i), peq(L['from'], Eg(Args(L.S), i).at(c))))))]
def steps_out(L):
    S, i, r = L.S, L['i'] - 1, L['ret']
    if 'ghosts before' not in S.ex.opt or any(x is None for x in S.ex.opt['ghosts before'].values()): return []
    b = S.ex.opt['ghosts before']; c = L.g('cnt'); k, o = I(), I()
    out, fin, hid = pieces(S, r, gl(L), i)
    return [('at most one more segment is added', And(c <= r.n, r.n <= c + 1)),
            ('earlier segments stay', ForAll([k], Imp(And(0 <= k, k < c), And([sel(L.g(x), k) == sel(b[x], k) for x in 'EST'])), patterns=[sel(L.g('E'), k)])),
            ('earlier edges stay', ForAll([o], Imp(And(0 <= o, o < i), And([sel(L.g(x), o) == sel(b[x], o) for x in 'CW'])), patterns=[sel(L.g('C'), o)])),
            ('positions of earlier edges', ForAll([o], Imp(And(0 <= o, o < i, LEN(o) > 0, 0 <= T0, T0 <= 1), Or(fin(o, T0), hid(o, T0, spans(S, o)[0]))), patterns=[sel(L.g('C'), o)])),
            ('positions of this edge', Imp(And(LEN(i) > 0, 0 <= T0, T0 <= 1), Or(fin(i, T0), hid(i, T0, spans(S, i)[0]))))]
def body_in(L):
    ex, S, i, j = L.S.ex, L.S, L['i'], L.k
    e = Eg(Args(S), i); a, b, c = SA(i, j), SB(i, j), L.g('cur')
    n, v = spans(S, i); sp = v.at(j); S.ex.opt['head'] = (L['ret'].n, i, a, b, c)
    return [use_len(S, i), ('length is not negative', LEN(i) >= 0), ('the span', And(j < n, 0 <= a, a <= b, b <= 1)), ('the ends of the span', And(peq(sp['first'], e.at(a)), peq(sp['second'], e.at(b))))] + \
           [SQL.use(ex, *e.p, *e.d, x) for x in (a, b)] + [('distance of its %s' % y, sq(sub(e.p, sp[y])) == x * x * LEN(i)) for x, y in ((a, 'first'), (b, 'second'))] + \
           [CMP.use(ex, x, y, LEN(i)) for x, y in ((c, a), (c, b), (a, b))] + \
           [('comparing distances compares positions (%s)' % w, (L['d'] < x * x * LEN(i)) == And(LEN(i) > 0, c < x)) for w, x in (('start', a), ('end', b))] + [('start before end', a * a * LEN(i) <= b * b * LEN(i))]
def _setup(S, st):
    o = I(); A = Args(S)
    st.facts.append(ForAll([o], LEN(o) == Eg(A, o).L, patterns=[LEN(o)]))
def _ens(S):
    mine = S.ex.cur is S.con
    if mine: G = [S.new.cells[('gh', x)] for x in 'ESTCW']
    else:
        G = [z3.Const(fresh_name('g'), SORTS[x]) for x in 'ESTCW']; S.ex.opt['pieces'] = (S, G)
    return pieces(S, S.ret, G, Args(S).unseen)[0]
GENLINES = Contract('stl2ps::GenerateLines', requires=pre, setup=_setup, ensures=_ens,
    loops=[{'inv': outer, 'steps': steps_out, 'ghost': {x: (cst(x, SORTS[x]), up_outer(x)) for x in 'ESTCW'}},
           {'inv': inner, 'body': body_in, 'steps': steps_in, 'ghost': {**{x: ((lambda x: lambda L: L.g(x))(x), up_inner(x)) for x in 'ESTCW'},
               'cur': (lambda L: RV(0), up_inner('cur')), 'who': (lambda L: z3.IntVal(0), up_inner('who')), 'cnt': (lambda L: L['ret'].n, up_inner('cnt'))}}])
def contracts(): return [GENLINES]
