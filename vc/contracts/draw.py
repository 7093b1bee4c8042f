"""Contracts of stl-to-ps.cc: elements on the page, the title block, text blocks (C20-C22)."""
from spec import *
from engine import str_lit as engine_str_lit
Z = z3.IntVal
H72 = RV('72')
def page_lv(S):
    p = S.this['current_page']
    if not isinstance(p, LP): raise SpecMismatch('the current page is not known')
    return p.lv
def page(S): return S.ex.load(page_lv(S), S.old)
def page_post(S): return S.ex.load(page_lv(S), S.new)
def with_page(S, st):
    """the visitor draws on some page"""
    t = st.cells['this']; p = t['current_page']
    fs = []
    st.cells['p:page'] = S.ex.mk(p.to, 'page', facts=fs)
    st.facts += [x for x in fs if not isinstance(x, tuple)]
    st.cells['this'] = R(t.ty, {**t.f, 'current_page': LP(LV('p:page'), None, p.to)})
    st.cells['diag'] = z3.IntVal(0)
def place(proj, p): return [p.x * proj['scale'] + proj['d'].x, p.y * proj['scale'] + proj['d'].y]
def put_line(proj, a, b): return And(peq(b['o'], place(proj, a['o'])), peq(b['t'], place(proj, a['t'])))
def put_arc(proj, a, b): return And(peq(b['center'], place(proj, a['center'])), b['r'] == a['r'] * proj['scale'], b['start'] == a['start'], b['end'] == a['end'])
def put_text(proj, a, b): return And(peq(b['at'], place(proj, a['at'])), b['str'] == a['str'], b['center'] == a['center'], b['raw'] == a['raw'])
def conc(n):
    n = simp(n)
    return n.as_long() if z3.is_int_value(n) else None
def adder(what, put):
    def ens(S):
        a, p0, p1, proj = S.arg(0), page(S)[what], page_post(S)[what], S.this['proj']; j = I()
        out = [('as many more', p1.n == p0.n + a.n), ('what was on the page stays', ForAll([j], Imp(And(0 <= j, j < p0.n), teq(p1.at(j), p0.at(j))), patterns=[vpat(p1)(j)]))]
        k = conc(a.n)
        if S.ex.cur is not S.con: S.ex.opt.setdefault('args ' + what, []).append(a)
        if S.ex.cur is S.con or k is None:
            out.append(('each placed and scaled, in order', ForAll([j], Imp(And(p0.n <= j, j < p0.n + a.n), put(proj, a.at(j - p0.n), p1.at(j))), patterns=[vpat(p1)(j)])))
        else:
            log = S.ex.opt.setdefault('added ' + what, [])
            out += [('element %d' % i, put(proj, a.at(Z(i)), p1.at(simp(p0.n + i)))) for i in range(k)]
            for q0, n in log: out += [('earlier', teq(p1.at(simp(q0 + i)), p0.at(simp(q0 + i)))) for i in range(n)]
            log.append((p0.n, k))
        return out
    def inv(L):
        S = L.S; a, p0, proj = S.arg(0), page(S)[what], S.this['proj']; j = I(); k = L.k
        p1 = S.ex.load(page_lv(S), L.st)[what]
        return [('as many more', p1.n == p0.n + k), ('what was on the page stays', ForAll([j], Imp(And(0 <= j, j < p0.n), teq(p1.at(j), p0.at(j))), patterns=[vpat(p1)(j)])),
                ('each placed and scaled, in order', ForAll([j], Imp(And(p0.n <= j, j < p0.n + k), put(proj, a.at(j - p0.n), p1.at(j))), patterns=[vpat(p1)(j)]))]
    return dict(ensures=ens, loops=[{'inv': inv}], modifies=lambda S: [page_lv(S).f(('f', what))], setup=with_page)
ADDLINES = Contract('stl2ps::DrawToPage::AddLines', **adder('lines', put_line))
ADDARCS = Contract('stl2ps::DrawToPage::AddArcs', **adder('arcs', put_arc))
ADDTEXT = Contract('stl2ps::DrawToPage::AddText', **adder('text', put_text))

# ---- the title block (C22)
def _hdr(S):
    name = S.arg(0); p0, p1 = S.this, S.this_post; j = I()
    left = 784 - RV('4.8') * z3.ToReal(z3.Length(name))
    t0, t1, l0, l1 = p0['text'], p1['text'], p0['lines'], p1['lines']
    t = t1.at(t0.n)
    a, b = [l1.at(l0.n + i) for i in range(2)]
    x, top = left - 3, RV(16)
    return [('one label more', t1.n == t0.n + 1), ('earlier labels stay', ForAll([j], Imp(And(0 <= j, j < t0.n), teq(t1.at(j), t0.at(j))), patterns=[vpat(t1)(j)])),
            ('it holds exactly the name', And(t['str'] == name, Not(t['raw']), Not(t['center']))), ('right-aligned at 784', And(t['at'].x == left, t['at'].y == 8)),
            ('two lines more', l1.n == l0.n + 2), ('earlier lines stay', ForAll([j], Imp(And(0 <= j, j < l0.n), teq(l1.at(j), l0.at(j))), patterns=[vpat(l1)(j)])),
            ('they box it in', Or([And(is_seg(p, [x, 5], [x, top]), is_seg(q, [x, top], [787, top])) for p, q in ((a, b), (b, a))])),
            ('arcs stay', teq(p1['arcs'], p0['arcs']))]
def is_seg(l, p, q): return Or(And(peq(l['o'], p), peq(l['t'], q)), And(peq(l['o'], q), peq(l['t'], p)))
ADDHEADER = Contract('stl2ps::OutputPage::AddHeader', ensures=_hdr, modifies=['this.text', 'this.lines'])

# ---- properties by name (C23)
def meta(S_or_L, ex, id_, st, f='name'): return ex.load(ex.hmember(HLV(id_, metaty(ex)), f, st), st)
def metaty(ex):
    t = ex.opt.get('Meta')
    if t is None:
        tu, r = ex.prog.recq['stl2ps::Meta']
        t = Ty('rec', q='stl2ps::Meta', key=r['mn'].replace('struct ', '').replace('class ', ''), rid=int(next(k for (a, k), v in ex.prog.recs.items() if a == tu and v is r)), tu=tu)
        ex.opt['Meta'] = t
    return t
def nm(ex, l, i, st): return meta(None, ex, l.at(i).id, st)
def exist(l):
    i = I(); return ('every property exists', ForAll([i], Imp(And(0 <= i, i < l.n), l.at(i).id > 0), patterns=[l.at(i).id]))
WS = z3.Function('property_named', z3.ArraySort(Int, Int), Str, Int)
def flat_facts(ex, l, n, m, st, old):
    i = I(); k = fresh(Str, 'k')
    w = ex.opt.get('flat w')
    return [('only given names', ForAll([k], Imp(z3.Select(m.has, k), Exists([i], And(0 <= i, i < n, nm(ex, l, i, old) == k, z3.Select(m.val.id, k) == l.at(i).id))), patterns=[z3.Select(m.has, k)])),
            ('every given name', ForAll([i], Imp(And(0 <= i, i < n), z3.Select(m.has, nm(ex, l, i, old))), patterns=[l.at(i).id]))]
def distinct(ex, l, n, st):
    i, j = I(), I(); return ForAll([i, j], Imp(And(0 <= i, i < j, j < n), nm(ex, l, i, st) != nm(ex, l, j, st)), patterns=[MP(l.at(i).id, l.at(j).id)])
def same(ex, l, n, m, st):
    i = I(); return ForAll([i], Imp(And(0 <= i, i < n), z3.Select(m.val.id, nm(ex, l, i, st)) == l.at(i).id), patterns=[l.at(i).id])
def _flat_pre(S): q = fresh(Str, 'q'); return [exist(S.arg(1)), ('nothing seen yet', ForAll([q], Not(z3.Select(S.arg(2).has, q))))]
def _flat_inv(L):
    S = L.S; ex = L.ex; l = S.arg(1); m = L.argnow(2); k = L.k
    return flat_facts(ex, l, k, m, L.st, S.old) + [('success means no duplicates', L['ok'] == distinct(ex, l, k, S.old)), ('so far distinct', Imp(L['ok'], same(ex, l, k, m, S.old))), ('a duplicate is diagnosed', diag_inv(L, L['ok']))]
def diag_inv(L, ok): a, b = L.st.cells['diag'], L.S.old.cells['diag']; return And(a >= b, Or(ok, a > b))
def _flat_ens(S):
    ex, l, m = S.ex, S.arg(1), S.post(2)
    return flat_facts(ex, l, l.n, m, S.new, S.old) + [('success exactly when no name is given twice', S.ret == distinct(ex, l, l.n, S.old)), ('each under its name', Imp(S.ret, same(ex, l, l.n, m, S.old))),
        ('a duplicate is diagnosed', Or(S.ret, S.new.cells['diag'] > S.old.cells['diag'])), ('diagnostics are kept', S.new.cells['diag'] >= S.old.cells['diag'])]
def diag0(S, st): st.cells['diag'] = fresh(Int, 'diag')
FLATTEN = Contract('stl2ps::(anon)::Flatten', requires=_flat_pre, ensures=_flat_ens, setup=diag0, modifies=lambda S: [S.lv(2), LV('diag')], loops=[{'inv': _flat_inv}])

# ---- points given to dimensions (C15-C17, C20): each is turned with the model, once, and then looked up
RECS = {'point': 'class stl2ps::MetaRef<class stl2ps::Point>', 'text': 'class stl2ps::MetaValue<class std::basic_string<char> >', 'ratio': 'class stl2ps::MetaValue<struct std::pair<int, int> >',
        'pair': 'class stl2ps::MetaValue<class Eigen::Matrix<double, 1, 2> >'}
def recty(ex, kind):
    c = ex.opt.get('ty:' + kind)
    if c is None:
        (tu, rid), r = next(((a, r) for a, r in ex.prog.recs.items() if r['mn'] == RECS[kind]), ((None, None), None))
        if tu is None: raise SpecMismatch('no type ' + RECS[kind])
        c = Ty('rec', q=r['n'], key=RECS[kind].replace('struct ', '').replace('class ', ''), rid=rid, tu=tu); ex.opt['ty:' + kind] = c
    return c
def is_kind(ex, id_, kind): return dyntype(id_) == ex.tag(recty(ex, kind).key)
def val_of(ex, id_, kind, st): return ex.load(ex.hmember(HLV(id_, recty(ex, kind)), 'value', st), st)
PS = z3.ArraySort(key_sort(Ty('mat', r=1, c=3)), z3.BoolSort())
TURN = z3.Function('turned', *([Int] + [Real] * 9 + [Int]))                 # state of a point expression after a turn
PTOK = z3.Function('point_found', Int, PS, z3.BoolSort())                   # what its lookup yields
PTAT = [z3.Function('point_' + c, Int, PS, Real) for c in 'xyz']
PST = LV(('gh', 'points'))
def pst(st): return st.cells[('gh', 'points')]
def turn(tok, rot): return TURN(tok, *rot.v)
def point_at(tok, ps): return [f(tok, ps.has) for f in PTAT]
def oid(x): return x.id
PT_ROTATE = Contract('stl2ps::Point::Rotate', virtual=True, trusted='what a point expression yields after a turn depends on its earlier state and the turn only', modifies=lambda S: [PST],
    ensures=lambda S: [('turned', pst(S.new) == z3.Store(pst(S.old), oid(S.this_lv), turn(z3.Select(pst(S.old), oid(S.this_lv)), S.arg(0))))])
PT_INVOKE = Contract('stl2ps::Point::Invoke', virtual=True, trusted='what a point expression yields depends on its state and the vertices only', modifies=lambda S: [S.lv(1), LV('diag')],
    ensures=lambda S: [('found', S.ret == PTOK(z3.Select(pst(S.old), oid(S.this_lv)), S.arg(0).has)), ('where', Imp(S.ret, peq(S.post(1), point_at(z3.Select(pst(S.old), oid(S.this_lv)), S.arg(0))))),
                       ('diagnostics are kept', S.new.cells['diag'] >= S.old.cells['diag'])])
def with_points(S, st):
    with_page(S, st)
    st.cells[('gh', 'points')] = z3.Const('points0', z3.ArraySort(Int, Int)); st.cells['diag'] = fresh(Int, 'diag')
def given_point(ex, id_, st, this):
    """(is a point, its lookup succeeds, where it is) for the property value id_ in the drawing's frame"""
    tok = turn(z3.Select(pst(st), val_of(ex, id_, 'point', st).id), this['rotation_'])
    return is_kind(ex, id_, 'point'), PTOK(tok, this['points_'].has), point_at(tok, this['points_'])
def _gr_pre(S): return [('a value is given', S.arg(0).id > 0), ('a turn is set', Or([x != 0 for x in S.this['rotation_'].v])), ('its point exists', Imp(is_kind(S.ex, S.arg(0).id, 'point'), val_of(S.ex, S.arg(0).id, 'point', S.old).id > 0))]
def _gr_ens(S):
    ex, id_ = S.ex, S.arg(0).id; isp, ok, at = given_point(ex, id_, S.old, S.this)
    v = val_of(ex, id_, 'point', S.old).id
    if ex.cur is not S.con: ex.opt.setdefault('turned', []).append((id_, S.post(1)))
    return [('found exactly when it is a point that is found', S.ret == And(isp, ok)), ('turned with the model, then looked up', Imp(S.ret, peq(S.post(1), at))),
            ('no other point is turned', pst(S.new) == If(isp, z3.Store(pst(S.old), v, turn(z3.Select(pst(S.old), v), S.this['rotation_'])), pst(S.old))),
            ('a wrong type is diagnosed', Or(isp, S.new.cells['diag'] > S.old.cells['diag'])), ('diagnostics are kept', S.new.cells['diag'] >= S.old.cells['diag'])]
GETROTATED = Contract('stl2ps::DrawToPage::GetRotated', requires=_gr_pre, ensures=_gr_ens, setup=with_points, modifies=lambda S: [S.lv(1), PST, LV('diag')], heap_params={0})

# ---- what a property list says
class Props:
    """property list l: for each name an arbitrary index; facts about it are stated for 'the property of that name'"""
    def __init__(s, S, l, names):
        s.S, s.ex, s.l, s.st, s.names = S, S.ex, l, S.old, names
        s.i = {k: z3.Int('index of ' + k) for k in names}
    def id(s, k): return s.l.at(s.i[k]).id
    def given(s, k): return And(0 <= s.i[k], s.i[k] < s.l.n, nm(s.ex, s.l, s.i[k], s.st) == z3.StringVal(k))
    def exists(s, k): i = I(); return Exists([i], And(0 <= i, i < s.l.n, nm(s.ex, s.l, i, s.st) == z3.StringVal(k)))
    def known(s): i = I(); return ForAll([i], Imp(And(0 <= i, i < s.l.n), Or([nm(s.ex, s.l, i, s.st) == z3.StringVal(k) for k in s.names])), patterns=[s.l.at(i).id])
    def distinct(s): return distinct(s.ex, s.l, s.l.n, s.st)
    def text(s, k): return val_of(s.ex, s.id(k), 'text', s.st)
    def kind(s, k, t): return is_kind(s.ex, s.id(k), t)
def owned(S, l):
    """every property exists and owns its point"""
    ex, st = S.ex, S.old; i, j = I(), I(); v = lambda i: val_of(ex, l.at(i).id, 'point', st).id
    p = lambda i: And(0 <= i, i < l.n, is_kind(ex, l.at(i).id, 'point'))
    return [exist(l), ('every point exists', ForAll([i], Imp(p(i), v(i) > 0), patterns=[l.at(i).id])),
            ('no two properties share a point', ForAll([i, j], Imp(And(p(i), p(j), i != j), v(i) != v(j)), patterns=[MP(l.at(i).id, l.at(j).id)]))]
def strings_in(t):
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_string_value(x): out.add(x.as_string())
        todo += x.children()
    return out
def looked_up(S, P, names):
    """the code's variables for the points of the given names"""
    out = {}
    for id_, p in S.ex.opt.get('turned', []):
        ks = [k for k in strings_in(id_) if k in names]
        if len(ks) == 1: out[ks[0]] = p
    if set(out) != set(names): raise SpecMismatch('points looked up: %s' % sorted(out))
    return out
def the_text(S):
    f = S.ex.opt.get('formatted', [])
    if len(f) != 1: raise SpecMismatch('one number is printed')
    return f[0]
def fmt_is(P, f, dflt): return [('default format', Imp(Not(P.exists('fmt')), f == z3.StringVal(dflt))), ('requested format', Imp(P.given('fmt'), And(P.kind('fmt', 'text'), f == P.text('fmt'), B.validfmt(f))))]
def drawing_pre(S): return [('a turn is set', Or([x != 0 for x in S.this['rotation_'].v])), ('the scale is positive', S.this['proj']['scale'] > 0)]
def gates(S, P, required, points, more=()):
    """C23: acceptance exactly on these grounds; more: what else is asked for"""
    ex, ret, l = S.ex, S.ret, P.l; i = I()
    out = [('accepted: no name twice', Imp(ret, P.distinct())), ('accepted: every name is known', Imp(ret, P.known()))]
    out += [('accepted: %s is given' % k, Imp(ret, P.exists(k))) for k in required]
    found = lambda k: And(*given_point(ex, P.id(k), S.old, S.this)[:2])
    out += [('accepted: %s is a point that is found' % k, Imp(And(ret, P.given(k)), found(k))) for k in points]
    pt_ = given_point(ex, l.at(i).id, S.old, S.this)
    lost = Exists([i], And(0 <= i, i < l.n, Or([nm(ex, l, i, S.old) == z3.StringVal(k) for k in points]), pt_[0], Not(pt_[1])))
    out += [('refusals are diagnosed, here or by the lookup', Or(ret, S.new.cells['diag'] > S.old.cells['diag'], lost)), ('diagnostics are kept', S.new.cells['diag'] >= S.old.cells['diag'])]
    fmt = Or(Not(P.exists('fmt')), And(P.given('fmt'), P.kind('fmt', 'text'), B.validfmt(P.text('fmt'))))
    if 'fmt' in P.names: out += [('accepted: the format is a valid text', Imp(And(ret, P.given('fmt')), And(P.kind('fmt', 'text'), B.validfmt(P.text('fmt')))))]
    else: fmt = z3.BoolVal(True)
    opts = And([Or(Not(P.exists(k)), And(P.given(k), found(k))) for k in points if k not in required] + [z3.BoolVal(True)])
    if more is None: return out
    return out + [('nothing valid is refused', Imp(And(P.distinct(), P.known(), And([P.given(k) for k in required]), And([found(k) for k in points if k in required]), opts, fmt, *more), ret))]
def page_counts(S, **more):
    p0, p1 = page(S), page_post(S); j = I(); out = []
    for w in ('lines', 'arcs', 'text'):
        out.append(('%d more %s' % (more.get(w, 0), w), Imp(S.ret, p1[w].n == p0[w].n + more.get(w, 0))))
        if p1[w] is not p0[w]: out.append(('earlier %s stay' % w, ForAll([j], Imp(And(0 <= j, j < p0[w].n), teq(p1[w].at(j), p0[w].at(j))), patterns=[vpat(p1[w])(j)])))
    return out

# ---- linear dimensions (C15)
def near(a, b, d, proj):
    """two page points at most d points apart"""
    x, y = sub(a, b); return x * x + y * y <= d * d
def _dim(S, part):
    ex = S.ex; P = Props(S, S.arg(0)['meta_list'], ['at', 'dir', 'from', 'to', 'fmt']); proj = S.this['proj']; ok = S.ret
    pts = ['at', 'dir', 'from', 'to']
    if part == 'gates': return gates(S, P, pts, pts, [Or([c != 0 for c in given_point(ex, P.id('dir'), S.old, S.this)[2]])])
    if 'units' not in ex.opt: return [('refused', Not(ok))]
    v = looked_up(S, P, pts); f, x = the_text(S)
    out = [('step: %s' % k, Imp(And(ok, P.given(k)), peq(v[k], given_point(ex, P.id(k), S.old, S.this)[2]))) for k in pts]
    at, dr, fr, to = (v[k] for k in pts)
    out += [('zero direction refused', Imp(ok, Or([c != 0 for c in dr.v])))]
    p0, p1 = page(S), page_post(S)
    t = p1['text'].at(p0['text'].n)
    out += page_counts(S, lines=8, text=1)
    out += [('the label shows the number', Imp(ok, And(t['str'] == B.fmtd(f, x), Not(t['raw'])))), ('centred at the label position', Imp(ok, And(t['center'], peq(t['at'], place(proj, at)))))]
    out += [(n, Imp(ok, g)) for n, g in fmt_is(P, f, '%.3f')]
    (_, u, n), (_, w, _) = ex.opt['units'][:2]
    q = dot(u, sub(to, at)) - dot(u, sub(fr, at)); D, W = dot(dr, dr), dot(sub(to, fr), dr)
    X2 = x.arg(0) if z3.is_app(x) and x.decl().name() == 'sqrt_' else x * x
    st = lambda n, g: ('step: ' + n, Imp(ok, g))
    out += [st('direction', And(n > 0, dot(u, u) == 1, *[c == n * e for c, e in zip(dr.v, u)])), st('squared length', X2 == dot(u, u) * sqr(q)), st('length', And(x >= 0, x * x == sqr(q))), st('dd', D == n * n), st('dw', W == n * q),
            LEN.use(ex, x * x, D, W, n, q)]
    out += [('the number is the distance along the direction', Imp(ok, And(x >= 0, x * x * D == W * W)))]
    l = [p1['lines'].at(simp(p0['lines'].n + i)) for i in range(8)]
    for nme, ref, m in (('from', fr, dot(u, sub(fr, at))), ('to', to, dot(u, sub(to, at)))):
        T = [a + e * m for a, e in zip(at.v, u)]
        tip = place(proj, M(1, 3, T)); d = sub(T, at); j = 0 if nme == 'from' else 1
        out += [ONLINE.use(ex, *u, *d, m, n, *dr.v), FOOT.use(ex, *u, *sub(at, ref), m, n),
                ('the %s tip is on the line through the label' % nme, Imp(ok, And([c == 0 for c in cross(d, dr)]))), st('%s foot' % nme, dot(sub(T, ref), dr) == n * (dot(u, sub(at, ref)) + m * dot(u, u))),
                ('the %s tip is at the foot of its reference point' % nme, Imp(ok, dot(sub(T, ref), dr) == 0))]
        out += [('arrow head %d at the %s tip' % (i, nme), Imp(ok, peq(l[i]['o'], tip))) for i in ((4, 5) if j == 0 else (6, 7))]
        out += [('the dimension line ends at the %s tip' % nme, Imp(ok, Or(peq(l[j]['o'], tip), peq(l[j]['t'], tip))))]
        e = l[2 + j]; r2 = place(proj, ref)
        side = lambda k: And(peq(e['t'], [r2[0] + k * 2 * w[1], r2[1] - k * 2 * w[0]]), peq(e['o'], [tip[0] + k * 4 * w[1], tip[1] - k * 4 * w[0]]))
        for (px, py), (qx, qy), c in ((pt(e['t']), r2, 2), (pt(e['o']), tip, 4)): out.append(OFFS.use(ex, w[0], w[1], px - qx, py - qy, RV(c)))
        out += [st('unit', w[0] * w[0] + w[1] * w[1] <= 1), st('%s extension' % nme, Or(side(1), side(-1))),
                ('the extension line starts within 2 points of %s' % nme, Imp(ok, near(e['t'], r2, 2, proj))), ('and reaches within 4 points of the %s tip' % nme, Imp(ok, near(e['o'], tip, 4, proj)))]
    return out
R1 = [Real]
LEN = GLemma('squares multiply', R1 * 5, lambda xx, d, w, n, q: Imp(And(xx == q * q, d == n * n, w == n * q), xx * d == w * w))
OFFS = GLemma('a step along a short vector is short', R1 * 5, lambda a, b, x, y, c: Imp(And(a * a + b * b <= 1, c >= 0, Or(And(x == c * b, y == -c * a), And(x == -c * b, y == c * a))), x * x + y * y <= c * c))
ONLINE = GLemma('multiples of a unit vector are parallel', R1 * 11, lambda a, b, c, x, y, z, m, n, p, q, r: Imp(And(x == a * m, y == b * m, z == c * m, p == n * a, q == n * b, r == n * c), And(y * r - z * q == 0, z * p - x * r == 0, x * q - y * p == 0)))
FOOT = GLemma('the foot of a perpendicular', R1 * 8, lambda a, b, c, x, y, z, m, n: Imp(And(a * a + b * b + c * c == 1, m == -(a * x + b * y + c * z)), n * (a * x + b * y + c * z + m * (a * a + b * b + c * c)) == 0))
def sqr(x): return x * x

def element(name, f, sel, part, changes):
    return Contract('stl2ps::DrawToPage::operator()', sel=sel, requires=lambda S: owned(S, S.arg(0)['meta_list']) + drawing_pre(S), ensures=lambda S: f(S, part), setup=with_points, short='stl2ps::DrawToPage::operator()(%s)%s' % (name, '' if part == 'geometry' else ' acceptance'),
        modifies=lambda S: [page_lv(S).f(('f', w)) for w in changes] + [PST, LV('diag')])
DIM, DIM_GATES = [element('Dim', _dim, 'DimE', p, ('lines', 'text')) for p in ('geometry', 'gates')]

# ---- angle dimensions (C16)
def same_way(s, a): return And(s[0] * a[1] == s[1] * a[0], s[0] * a[0] + s[1] * a[1] > 0)
def arms(P, v, side):
    """(how the arm is given, its direction)"""
    return [(P.given(side + '_dir'), list(v[side + '_dir'].v)), (P.given(side + '_point'), sub(v[side + '_point'], v['apex']))]
ANG = ['at', 'apex', 'from_dir', 'from_point', 'to_dir', 'to_point']
def _angle(S, part):
    ex = S.ex; P = Props(S, S.arg(0)['meta_list'], ANG + ['fmt']); proj = S.this['proj']; ok = S.ret
    if part == 'gates':
        req = [('at',), ('apex',)]
        one = lambda s: Or(P.exists(s + '_dir'), P.exists(s + '_point'))
        both = lambda s: And(P.exists(s + '_dir'), P.exists(s + '_point'))
        g = {k: (lambda t: t)(given_point(ex, P.id(k), S.old, S.this)[2]) for k in ANG}
        out = gates(S, P, ['at', 'apex'], ANG, None)
        return out + [('accepted: each arm is given once', Imp(ok, And(one('from'), one('to'), Not(both('from')), Not(both('to')))))]
    if 'units' not in ex.opt or 'args arcs' not in ex.opt: return [('refused', Not(ok))]
    v = looked_up(S, P, ANG); f, x = the_text(S)
    out = [('step: %s' % k, Imp(And(ok, P.given(k)), peq(v[k], given_point(ex, P.id(k), S.old, S.this)[2]))) for k in ANG]
    st = lambda n, g: ('step: ' + n, Imp(ok, g))
    p0, p1 = page(S), page_post(S); t = p1['text'].at(p0['text'].n); a = ex.opt['args arcs'][-1].at(Z(0)); arc = p1['arcs'].at(p0['arcs'].n)
    out += page_counts(S, lines=6, arcs=1, text=1)
    out += [('the label shows the number in degrees', Imp(ok, And(t['str'] == z3.Concat(B.fmtd(f, x), z3.StringVal(' deg')), Not(t['raw'])))), ('centred at the label position', Imp(ok, And(t['center'], peq(t['at'], place(proj, v['at'])))))]
    out += [(n, Imp(ok, g)) for n, g in fmt_is(P, f, '%.1f')]
    rr = sub(v['at'], v['apex'])
    out += [('the arc is centred at the apex', Imp(ok, peq(arc['center'], place(proj, v['apex'])))), ('through the label distance', Imp(ok, And(arc['r'] >= 0, sqr(arc['r']) == dot(rr, rr) * sqr(proj['scale']))))]
    ends = []
    for k in ('start', 'end'):
        e = simp(a[k])
        if not (z3.is_app(e) and e.decl().eq(B.atan2f)): raise SpecMismatch('the arc is not given by directions')
        ends.append([e.arg(1), e.arg(0)]); out.append(st('arc ' + k, arc[k] == B.atan2f(e.arg(0), e.arg(1))))
    s, e = ends
    out += [('the arc runs counter-clockwise by less than half a turn', Imp(ok, cross2(s, e) > 0))]
    def unit(A):
        for m, u, n in ex.opt['units']:
            if len(m) == len(A) and all(z3.eq(simp(p), simp(q)) for p, q in zip(m, A)): return u, n
        raise SpecMismatch('an arm is not normalized')
    for cf, A in arms(P, v, 'from'):
        for ct, Bv in arms(P, v, 'to'):
            h = And(ok, cf, ct); hs = lambda n, g: ('step: ' + n, Imp(h, g))
            (ua, na), (ub, nb) = unit(A), unit(Bv)
            us = lambda s, u: And(s[0] == u[0], s[1] == u[1]); c = arc_cos(x)
            out += [hs('arms', And(na >= 0, nb >= 0, *[a == na * u for a, u in zip(A, ua)], *[b == nb * u for b, u in zip(Bv, ub)])),
                    hs('sides', Or(And(us(s, ua), us(e, ub)), And(us(s, ub), us(e, ua)))),
                    NZ.use(ex, *ua[:2], *ub[:2]), hs('turn', cross2(ua, ub) != 0),
                    hs('lengths', And(na > 0, nb > 0)), hs('units', And(dot(ua, ua) == 1, dot(ub, ub) == 1))]
            out += [SW.use(ex, *p[:2], *q[:2], n, *w[:2]) for p in (s, e) for q, n, w in ((ua, na, A), (ub, nb, Bv))]
            out += [PAR.use(ex, na, nb, *ua[:2], *ub[:2], *A[:2], *Bv[:2]), ANGD.use(ex, na, nb, *ua, *ub, *A, *Bv, c)]
            out += [('from one arm to the other', Imp(h, Or(And(same_way(s, A), same_way(e, Bv)), And(same_way(s, Bv), same_way(e, A))))), ('parallel arms refused', Imp(h, cross2(A, Bv) != 0))]
            out += again(ex, hs, ua, ub, c)
            out += [hs('cosine', c == dot(ua, ub)), ('the number is the angle between the arms', Imp(h, And(sqr(na) == dot(A, A), sqr(nb) == dot(Bv, Bv), na > 0, nb > 0, x * B.PI == 180 * B.acosf(c), c * na * nb == dot(A, Bv))))]
    return out
def again(ex, hs, ua, ub, c):
    """normalizing one of the two directions again changes nothing; the cosine is their product"""
    out, es, eq = [], {}, lambda a, b: And([x == y for x, y in zip(a, b)])
    for m, u, n in ex.opt['units']:
        if all(z3.is_app_of(simp(x), z3.Z3_OP_ITE) for x in m): es[tuple(x.get_id() for x in map(simp, m))] = (list(m), u, n)
    es = list(es.values()); xs = [m for m, u, n in es] + [ua, ub]
    for m, u, n in es: out += [hs('a direction', Or(eq(m, ua), eq(m, ub))), NORM1.use(ex, n, *m, *u, *ua, *ub), hs('normalized again', eq(u, m))]
    for m, u, n in es:
        for q in xs:
            if z3.eq(simp(dot(q, u)), simp(c)): return out + [hs('directions', Or(And(eq(q, ua), eq(m, ub)), And(eq(q, ub), eq(m, ua)))), hs('product', c == dot(q, u)), SWAP.use(ex, c, *q, *m, *u, *ua, *ub)]
    return out
NORM1 = GLemma('normalizing a unit vector', R1 * 13, lambda n, a, b, c, d, e, f, g, h, i, j, k, l: Imp(And(n > 0, a == n * d, b == n * e, c == n * f, d * d + e * e + f * f == 1, g * g + h * h + i * i == 1, j * j + k * k + l * l == 1,
    Or(And(a == g, b == h, c == i), And(a == j, b == k, c == l))), And(a == d, b == e, c == f)))
def _swap(c, *v):
    q, m, u, a, b = [list(v[i:i + 3]) for i in range(0, 15, 3)]
    return Imp(And(peq(u, m), Or(And(peq(q, a), peq(m, b)), And(peq(q, b), peq(m, a))), c == dot(q, u)), c == dot(a, b))
SWAP = GLemma('a product of two vectors in either order', R1 * 16, _swap)
def arc_cos(x):
    """the cosine whose arc the code prints"""
    todo = [simp(x)]
    while todo:
        t = todo.pop()
        if z3.is_app(t) and t.decl().eq(B.acosf): return t.arg(0)
        todo += t.children()
    raise SpecMismatch('the number is not an arc cosine')
NZ = GLemma('a turn is between two directions', R1 * 4, lambda a, b, c, d: Imp(Or(And(a == 0, b == 0), And(c == 0, d == 0)), a * d - b * c == 0))
SW = GLemma('a positive multiple points the same way', R1 * 7, lambda s, t, u, w, n, a, b: Imp(And(s == u, t == w, n > 0, a == n * u, b == n * w, Or(u != 0, w != 0)), same_way([s, t], [a, b])))
PAR = GLemma('positive multiples are no more parallel', R1 * 10, lambda n, m, a, b, c, d, p, q, r, t: Imp(And(n > 0, m > 0, p == n * a, q == n * b, r == m * c, t == m * d, a * d - b * c != 0), p * t - q * r != 0))
def _angd(n, m, a, b, c, d, e, f, p, q, r, s, t, u, k):
    return Imp(And(p == n * a, q == n * b, r == n * c, s == m * d, t == m * e, u == m * f, a * a + b * b + c * c == 1, d * d + e * e + f * f == 1, k == a * d + b * e + c * f),
               And(n * n == p * p + q * q + r * r, m * m == s * s + t * t + u * u, k * n * m == p * s + q * t + r * u))
ANGD = GLemma('the cosine between two arms', R1 * 15, _angd)
ANGLE, ANGLE_GATES = [element('Angle', _angle, 'AngleE', p, ('lines', 'arcs', 'text')) for p in ('geometry', 'gates')]

# ---- diameters and radii (C17)
from contracts import astc
def _fc_log(S):
    S.ex.opt.setdefault('circles', []).append((S.arg(0), S.ret, S.post(1), S.post(2)))
    return [('no negative radius', Imp(S.ret, S.post(2) >= 0))]
FC_STUB = Contract('stl2ps::FindCircle', ensures=_fc_log, modifies=['#1', '#2'], trusted='the fit itself is the subject of C18')
def _flat2(L):
    try: r = L.find(lambda v: isinstance(v, V) and isinstance(v.e, M) and len(v.e.v) == 2)
    except KeyError: return []
    ps = L.S.this['points_']; arr, n = L.ex.enum(ps, L.st); j = I(); p = lambda j: key_dec(ps.kty, z3.Select(arr, j))
    return [('as many', r.n == L.k), ('vertices on the page', ForAll([j], Imp(And(0 <= j, j < L.k), And(r.at(j).x == p(j).x, r.at(j).y == p(j).y)), patterns=[vpat(r)(j)]))]
def _cflat(L):
    try: r = L.find(lambda v: isinstance(v, V) and isinstance(v.e, M) and len(v.e.v) == 2)
    except KeyError: return []
    ps = L.S.arg(0); arr, n = L.ex.enum(ps, L.st); j = I(); p = lambda j: key_dec(ps.kty, z3.Select(arr, j))
    return [('as many', r.n == L.k), ('vertices on the page', ForAll([j], Imp(And(0 <= j, j < L.k), And(r.at(j).x == p(j).x, r.at(j).y == p(j).y)), patterns=[vpat(r)(j)]))]
def _center(S):
    if S.ex.cur is not S.con: return astc._note('center')(S)
    ex = S.ex; ps, r, ok = S.arg(0), S.post(1), S.ret; arr, cnt = ex.enum(ps, S.new); cs = ex.opt.get('circles', [])
    if 'invoked' not in ex.opt: return [('refused', And(Not(ok), cnt < 3))]
    inner, tg = ex.opt['invoked']
    if len(cs) != 2: return [('refused', And(Not(ok), Or(cnt < 3, Not(inner), *[Not(c[1]) for c in cs])))]
    (pt0, ok0, c0, r0), (pt1, ok1, c, _) = cs; (nps, ncount, nto, nret), (rps, lo, hi, rc, rret) = ex.opt['nearest'][-1], ex.opt['rings'][-1]
    j = I(); p = lambda j: key_dec(ps.kty, z3.Select(arr, j)); g_ = lambda n, g: (n, Imp(ok, g))
    flat = lambda w: And(w.n == cnt, ForAll([j], Imp(And(0 <= j, j < cnt), And(w.at(j).x == p(j).x, w.at(j).y == p(j).y)), patterns=[vpat(w)(j)]))
    return [('refused only for a reason', Or(ok, cnt < 3, Not(inner), Not(ok0), Not(ok1))), g_('three vertices at least', cnt >= 3), g_('an inner lookup that fails makes this one fail', inner),
            g_('the three vertices nearest to the target are sought', And(flat(nps), ncount == 3, nto.x == tg.x, nto.y == tg.y)), g_('they are fitted first', And(ok0, teq(pt0, nret))),
            g_('then the vertices around that circle', And(flat(rps), peq(rc, c0), 0 <= lo, lo <= r0, r0 <= hi)), g_('and they are fitted', And(ok1, teq(pt1, rret))),
            g_('the centre of the second circle, on the page', And(r.x == c.x, r.y == c.y, r.z == 0))]
CENTER = Contract('stl2ps::PointFunc::Center', requires=lambda S: [('an inner lookup is given', S.this['p_'].id != 0)], ensures=_center, modifies=['#1'], loops=[{'inv': _cflat}])
def _size(S, part, dia):
    ex = S.ex; P = Props(S, S.arg(0)['meta_list'], ['at', 'dir', 'center', 'fmt']); proj = S.this['proj']; ok = S.ret
    pts = ['at', 'dir', 'center']; cs = ex.opt.get('circles', []); ps = S.this['points_']; arr, cnt = ex.enum(ps, S.new)
    if part == 'gates':
        d = given_point(ex, P.id('dir'), S.old, S.this)[2]
        out = gates(S, P, pts, pts, [cnt >= 3, Or(d[0] != 0, d[1] != 0)] + [c[1] for c in cs])
        return out + [('accepted: enough vertices', Imp(ok, cnt >= 3)), ('accepted: a circle is fitted', Imp(ok, And([c[1] for c in cs]) if cs else z3.BoolVal(False)))]
    if 'units' not in ex.opt or len(cs) != 2: return [('refused', Not(ok))]
    v = looked_up(S, P, pts); f, x = the_text(S); at, dr, tg = (v[k] for k in pts)
    out = [('step: %s' % k, Imp(And(ok, P.given(k)), peq(v[k], given_point(ex, P.id(k), S.old, S.this)[2]))) for k in pts]
    st = lambda n, g: ('step: ' + n, Imp(ok, g)); g_ = lambda n, g: (n, Imp(ok, g))
    (pt0, ok0, c0, r0), (pt1, ok1, c, r) = cs
    (nps, ncount, nto, nret), (rps, lo, hi, rc, rret) = ex.opt['nearest'][-1], ex.opt['rings'][-1]
    j = I(); p = lambda j: key_dec(ps.kty, z3.Select(arr, j))
    flat = lambda w: And(w.n == cnt, ForAll([j], Imp(And(0 <= j, j < cnt), And(w.at(j).x == p(j).x, w.at(j).y == p(j).y)), patterns=[vpat(w)(j)]))
    out += [g_('the three vertices nearest to the target are sought', And(flat(nps), ncount == 3, nto.x == tg.x, nto.y == tg.y)), g_('they are fitted first', And(ok0, teq(pt0, nret))),
            g_('then the vertices around that circle', And(flat(rps), peq(rc, c0), 0 <= lo, lo <= r0, r0 <= hi)), g_('and they are fitted', And(ok1, teq(pt1, rret)))]
    out += [g_('the direction has a component on the page', Or(dr.x != 0, dr.y != 0))]
    k = 2 if dia else 1; p0, p1 = page(S), page_post(S); t = p1['text'].at(p0['text'].n)
    out += page_counts(S, lines=2 + 2 * k, text=1)
    out += [g_('the label shows the size', And(t['str'] == z3.Concat(z3.StringVal('\\351' if dia else 'R'), B.fmtd(f, x)), t['raw'] == z3.BoolVal(dia))), g_('the number is the size', x == k * r),
            g_('level with the label position', And(t['center'], t['at'].y == place(proj, at)[1]))]
    out += [g_(n, g) for n, g in fmt_is(P, f, '%.3f')]
    ls = [p1['lines'].at(simp(p0['lines'].n + i)) for i in range(2 + 2 * k)]
    us = [w for w in ex.opt['units'] if len(w[0]) == 2]
    if not us: raise SpecMismatch('the direction is not normalized')
    m, u, n = us[0]; out.append(st('the given direction', And(m[0] == dr.x, m[1] == dr.y)))
    out += [st('direction', And(n > 0, dr.x == n * u[0], dr.y == n * u[1], dot(u, u) == 1))]
    for i, sg in enumerate((1, -1)[:k]):
        T = [c.x + sg * u[0] * r, c.y + sg * u[1] * r]; tip = place(proj, M(1, 2, T)); d = sub(T, c)
        out += [g_('arrow head %d at tip %d' % (h, i), peq(ls[2 + 2 * i + h]['o'], tip)) for h in range(2)]
        out += [TIP.use(ex, sg * 1, *u, n, r, *d, dr.x, dr.y), g_('tip %d is on the circle' % i, sq(d) == r * r), g_('tip %d is in the direction' % i, And(cross2(d, [dr.x, dr.y]) == 0, sg * dot(d, [dr.x, dr.y]) >= 0))]
    e, a = place(proj, at), place(proj, M(1, 2, [c.x - u[0] * r, c.y - u[1] * r] if dia else [c.x, c.y]))
    out += [g_('the leader ends at the label position', peq(ls[1]['t'], e)), g_('it is one line', peq(ls[0]['t'], ls[1]['o'])), g_('it starts across the circle' if dia else 'it starts at the centre', peq(ls[0]['o'], a))]
    return out
TIP = GLemma('a point of a circle in a direction', R1 * 9, lambda s, a, b, n, r, x, y, p, q: Imp(And(Or(s == 1, s == -1), x == s * a * r, y == s * b * r, p == n * a, q == n * b, a * a + b * b == 1, n > 0, r >= 0), And(x * x + y * y == r * r, x * q - y * p == 0, s * (x * p + y * q) >= 0)))
def sized(name, sel, dia, part):
    c = element(name, lambda S, p: _size(S, p, dia), sel, part, ('lines', 'text')); c.loops = [{'inv': _flat2, 'multi': True}]
    return c
DIA, DIA_GATES = [sized('Dia', 'DiaE', True, p) for p in ('geometry', 'gates')]
RAD, RAD_GATES = [sized('Rad', 'RadE', False, p) for p in ('geometry', 'gates')]

# ---- a model on the page (C20)
GV = lambda k: LV(('gh', k))
def gv(st, k): return st.cells[('gh', k)]
def with_visits(S, st):
    if 'this' in st.cells: with_points(S, st)
    else: st.cells[('gh', 'points')] = z3.Const('points0', z3.ArraySort(Int, Int)); st.cells['diag'] = fresh(Int, 'diag')
    st.cells[('gh', 'visits')] = z3.Int('visits0'); st.cells[('gh', 'refused')] = z3.Int('refused0'); st.cells[('gh', 'visited')] = z3.Const('visited0', z3.ArraySort(Int, Int))
VISITS = [GV('visits'), GV('refused'), GV('visited')]
def page_stays(p0, p1):
    j = I(); out = []
    for w in ('lines', 'arcs', 'text'):
        if p1[w] is p0[w]: continue
        out += [('%s are only added' % w, p1[w].n >= p0[w].n), ('earlier %s stay' % w, ForAll([j], Imp(And(0 <= j, j < p0[w].n), teq(p1[w].at(j), p0[w].at(j))), patterns=[vpat(p1[w])(j)]))]
    return out
def visitor_lv(S):
    a = S.vals[0]
    if isinstance(a, LP): return a.lv
    raise SpecMismatch('an element is not shown to the visitor')
def visitor_page(S, st):
    v = S.ex.load(visitor_lv(S), st)
    if not isinstance(v, R) or 'current_page' not in v.f: raise SpecMismatch('an element is not shown to the visitor')
    p = v['current_page']
    if not isinstance(p, LP): raise SpecMismatch('the current page is not known')
    return p.lv
def page_no(p):
    """which of the pages a visitor draws on, where it draws on a list of pages"""
    for k, i in p.path:
        if k == 'i': return i
ONPAGE = [GV('on page')] + [GV('on ' + w) for w in ('lines', 'arcs', 'text')]
def _visit_mod(S):
    p = visitor_page(S, S.old); v = visitor_lv(S)
    return [p.f(('f', w)) for w in ('lines', 'arcs', 'text')] + [PST, LV('diag')] + VISITS + (ONPAGE if page_no(p) is not None else []) + ([] if 'AddDims' in S.ex.cur.q else [v.f(('f', w)) for w in ('points_', 'rotation_', 'proj')])
def _visit_pre(S):
    v = S.ex.load(visitor_lv(S), S.old)
    if 'AddDims' not in S.ex.cur.q: return []
    return [('a turn is set', Or([x != 0 for x in v['rotation_'].v])), ('the scale is positive', v['proj']['scale'] > 0)]
def _visit_ens(S):
    o, n = S.old, S.new; p = visitor_page(S, o); k = gv(o, 'visits')
    p0, p1 = S.ex.load(p, o), S.ex.load(p, n); i = page_no(p)
    where = [] if i is None else [('on page', gv(n, 'on page') == z3.Store(gv(o, 'on page'), k, i))] + [('on ' + w, gv(n, 'on ' + w) == z3.Store(gv(o, 'on ' + w), i, p1[w].n)) for w in ('lines', 'arcs', 'text')]
    return where + [('one visit more', gv(n, 'visits') == k + 1), ('of this element', gv(n, 'visited') == z3.Store(gv(o, 'visited'), k, S.this_lv.id)), ('counted', gv(n, 'refused') == gv(o, 'refused') + If(S.ret, 0, 1)),
            ('diagnostics are kept', n.cells['diag'] >= o.cells['diag']), ('refusals are diagnosed', Or(S.ret, n.cells['diag'] > o.cells['diag']))] + page_stays(p0, p1)
VISIT = Contract('stl2ps::Drawable::Visit', virtual=True, requires=_visit_pre, ensures=_visit_ens, modifies=_visit_mod, trusted='an element draws on the current page only, by its own contract; Visit hands it to the visitor')
def is_bool(v): return is_leaf(v) and v.sort() == z3.BoolSort()
def all_visited(S, v, k, st, ok):
    o = S.old; j = I(); n0 = gv(o, 'visits')
    return [('each is visited once, in order', Imp(ok, And(gv(st, 'visits') == n0 + k, ForAll([j], Imp(And(0 <= j, j < k), z3.Select(gv(st, 'visited'), n0 + j) == v.at(j).id), patterns=[v.at(j).id])))),
            ('refusals only grow', And(gv(st, 'refused') >= gv(o, 'refused'), gv(st, 'visits') >= n0)), ('diagnostics are kept', st.cells['diag'] >= o.cells['diag'])]
def diagnosed(S, st): return ('refusals are diagnosed', Or(gv(st, 'refused') == gv(S.old, 'refused'), st.cells['diag'] > S.old.cells['diag']))
def _dims_inv(L):
    S = L.S; ok = L.find(is_bool, 'ok')
    return all_visited(S, S.arg(1), L.k, L.st, ok) + [diagnosed(S, L.st), ('the result so far', ok == (gv(L.st, 'refused') == gv(S.old, 'refused'))), ('visited before', ForAll([z3.Int('b!')], Imp(z3.Int('b!') < gv(S.old, 'visits'), z3.Select(gv(L.st, 'visited'), z3.Int('b!')) == z3.Select(gv(S.old, 'visited'), z3.Int('b!')))))] + page_stays(page(S), S.ex.load(page_lv(S), L.st))
def _dims(S):
    ex = S.ex; t = S.this_post
    if ex.cur is not S.con: ex.opt.setdefault('dims', []).append((S.arg(0), S.arg(1), S.arg(2), gv(S.old, 'refused'), gv(S.new, 'refused'), S.this['proj']))
    else:
        if 'points of' not in ex.opt: raise SpecMismatch('the points of the model are not taken')
    ps = ex.opt.get('points of', [])
    out = all_visited(S, S.arg(1), S.arg(1).n, S.new, S.ret) + [diagnosed(S, S.new), ('accepted exactly when every element is', S.ret == (gv(S.new, 'refused') == gv(S.old, 'refused'))), ('the turn is kept for the dimensions', teq(t['rotation_'], S.arg(2)))]
    if ex.cur is S.con: out += [('the vertices are those of the model', Or([And(teq(f, S.arg(0)), teq(t['points_'], p)) for f, p in ps]))]
    return out + page_stays(page(S), page_post(S))
ADDDIMS = Contract('stl2ps::DrawToPage::AddDims', requires=lambda S: [('a turn is set', Or([x != 0 for x in S.arg(2).v])), ('the scale is positive', S.this['proj']['scale'] > 0), exist(S.arg(1))], ensures=_dims, setup=with_visits, loops=[{'inv': _dims_inv}],
    modifies=lambda S: [page_lv(S).f(('f', w)) for w in ('lines', 'arcs', 'text')] + [PST, LV('diag'), S.this_lv.f(('f', 'points_')), S.this_lv.f(('f', 'rotation_'))] + VISITS)
def logs(q, key, rec, **kw):
    def ens(S): S.ex.opt.setdefault(key, []).append(rec(S)); return []
    return Contract(q, ensures=ens, trusted=kw.pop('trusted'), **kw)
PTS_LOG = logs('stl2ps::STLFile::Points', 'points of', lambda S: (S.this, S.ret), trusted='C10')
ROT_LOG = logs('stl2ps::STLFile::Rotate', 'rotated', lambda S: (S.this, S.arg(0), S.ret, getattr(S.this_lv, 'id', None)), trusted='C08')
CULL_LOG = logs('stl2ps::STLFile::CullBackFace', 'culled', lambda S: (S.this, S.this_post), modifies=['this.facets'], trusted='C08')
LIM_LOG = logs('stl2ps::STLFile::Limits', 'limits', lambda S: (S.this, S.ret), trusted='C09')
LINES_LOG = logs('stl2ps::STLFile::ToLines', 'drawn', lambda S: (S.this, S.ret), trusted='C14')
RECS['scale'] = 'class stl2ps::MetaValue<struct std::pair<int, int> >'
def ratio(P, k): v = val_of(P.ex, P.id(k), 'scale', P.st); return v['first'], v['second']
VNAMES = list(astc.VIEWS)
def one(xs, what):
    if len(xs) != 1: raise SpecMismatch(what)
    return xs[0]
def _draw(S, part):
    ex = S.ex; P = Props(S, S.arg(0)['meta_list'], ['scale', 'view', '@']); ok = S.ret; st = S.old; o = ex.opt
    models, name = S.ex.load(S.this['stl_files'].lv, st) if isinstance(S.this['stl_files'], LP) else S.this['stl_files'], S.arg(0)['name']
    a, b = ratio(P, 'scale')
    if part == 'gates':
        vt = And(P.kind('view', 'text'), Or([P.text('view') == z3.StringVal(n) for n in VNAMES]))
        dims = (gv(S.new, 'refused') == gv(S.old, 'refused'))
        chk = {'scale': And(P.kind('scale', 'scale'), a > 0, b > 0), 'view': Or(P.kind('view', 'pair'), vt)}
        out = [('accepted: no name twice', Imp(ok, P.distinct())), ('accepted: every name is known', Imp(ok, P.known())), ('accepted: the model is known', Imp(ok, z3.Select(models.has, name))), ('accepted: every dimension is', Imp(ok, dims))]
        out += [('accepted: the %s is usable' % k, Imp(And(ok, P.given(k)), c)) for k, c in chk.items()]
        return out + [('nothing valid is refused', Imp(And(P.distinct(), P.known(), z3.Select(models.has, name), dims, *[Or(Not(P.exists(k)), And(P.given(k), c)) for k, c in chk.items()]), ok)),
                      ('refusals are diagnosed', Or(ok, S.new.cells['diag'] > S.old.cells['diag'])), ('diagnostics are kept', S.new.cells['diag'] >= S.old.cells['diag'])]
    if 'drawn' not in o or 'rotated' not in o or 'limits' not in o: return [('refused', Not(ok))]
    (m0, turn, r, rid), (lt, lim), (tt, lines) = one(o['rotated'], 'the model is turned once'), one(o['limits'], 'its rectangle is taken once'), one(o['drawn'], 'its lines are drawn once')
    g = lambda n, c: (n, Imp(ok, c)); pr = S.this_post['proj']; sc = pr['scale']
    same_model = lambda v: Or([teq(v, r)] + [And(teq(v, q), teq(p, r)) for p, q in o.get('culled', [])])
    pd, pa, dt, ref0, ref1, pv = one(o['dims'], 'the dimensions are drawn once')
    out = [g('the named model', rid == z3.Select(models.val.id, name)), g('its rectangle', same_model(lt)), g('its lines', same_model(tt)), g('its dimensions', And(same_model(pd), teq(pa, S.arg(0)['dims']), teq(dt, turn))), g('dimensions use the same placement', teq(pv, pr))]
    # the view
    out += [g('the default view', Imp(Not(P.exists('view')), peq(turn, [1, 0, 0, 0, 1, 0, 0, 0, 1])))]
    loc = val_of(ex, P.id('view'), 'pair', st); want = astc.G.rotspec(simp(loc.x * B.PI / 180), simp(loc.y * B.PI / 180))
    out += [g('a view given by angles', Imp(And(P.given('view'), P.kind('view', 'pair')), peq(turn, want)))]
    for n, (ax, sg) in astc.VIEWS.items():
        row = lambda i: [turn.at(i, k) for k in range(3)]
        out += [g('view ' + n, Imp(And(P.given('view'), P.kind('view', 'text'), P.text('view') == z3.StringVal(n)), And(peq([sg * x for x in row(ax)], [0, 0, 1]), B.det3(turn) == 1, peq(row(2), [0, 1, 0]) if ax != 2 else peq(row(0), [1, 0, 0]))))]
    # scale and place
    out += [g('default scale', Imp(Not(P.exists('scale')), sc == 72)), g('scale', Imp(P.given('scale'), And(P.kind('scale', 'scale'), a > 0, b > 0, sc * z3.ToReal(b) == 72 * z3.ToReal(a)))), g('positive scale', sc > 0)]
    mid = [(x + y) / 2 for x, y in zip(pt(lim['o']), pt(lim['t']))]
    c = place(pr, M(1, 2, mid)); at = val_of(ex, P.id('@'), 'pair', st)
    out += [g('the rectangle is centred where asked', Imp(P.given('@'), And(P.kind('@', 'pair'), c[0] == 72 * at.x + 396, c[1] == 72 * at.y + 306)))]
    ls = one(o.get('args lines', []), 'lines are added once'); out += [g('every line of the model is drawn', teq(ls, lines))]
    return out + page_stays(page(S), page_post(S))
def _draw_pre(S):
    i = I(); l = S.arg(0)['meta_list']; m = S.this['stl_files']; m = S.ex.load(m.lv, S.old) if isinstance(m, LP) else m; q = fresh(Str, 'q')
    return owned(S, l) + [("a position is a pair (the grammar's)", ForAll([i], Imp(And(0 <= i, i < l.n, nm(S.ex, l, i, S.old) == z3.StringVal('@')), is_kind(S.ex, l.at(i).id, 'pair')), patterns=[l.at(i).id])),
        ('every model is loaded', ForAll([q], Imp(z3.Select(m.has, q), z3.Select(m.val.id, q) > 0), patterns=[z3.Select(m.has, q)])), exist(S.arg(0)['dims'])]
def drawc(part):
    return Contract('stl2ps::DrawToPage::operator()', sel='DrawE', requires=_draw_pre, ensures=lambda S: _draw(S, part), setup=with_visits, short='stl2ps::DrawToPage::operator()(Draw)' + ('' if part == 'geometry' else ' acceptance'),
        modifies=lambda S: [page_lv(S).f(('f', w)) for w in ('lines', 'arcs', 'text')] + [PST, LV('diag')] + VISITS + [S.this_lv.f(('f', w)) for w in ('points_', 'rotation_', 'proj')])
DRAW, DRAW_GATES = drawc('geometry'), drawc('gates')

# ---- point expressions (C20): a literal point turns with the model, a lookup turns what it looks for
VAL_ROTATE = Contract('stl2ps::Val::Rotate', ensures=lambda S: [('turned', peq(S.this_post['p_'], mulM(S.this['p_'], S.arg(0))))], modifies=['this.p_'])
VAL_INVOKE = Contract('stl2ps::Val::Invoke', ensures=lambda S: [('always found', S.ret), ('itself', peq(S.post(1), S.this['p_']))], modifies=['#1'])
def with_tokens(S, st): st.cells[('gh', 'points')] = z3.Const('points0', z3.ArraySort(Int, Int)); st.cells['diag'] = fresh(Int, 'diag')
PF_ROTATE = Contract('stl2ps::PointFunc::Rotate', requires=lambda S: [('an inner lookup is given', S.this['p_'].id > 0)], setup=with_tokens, modifies=lambda S: [PST],
    ensures=lambda S: [('what it looks for is turned, once', pst(S.new) == z3.Store(pst(S.old), S.this['p_'].id, turn(z3.Select(pst(S.old), S.this['p_'].id), S.arg(0))))])

# ---- text blocks (C21)
A1 = z3.ArraySort(Int, Int)
def asel(a, i): return z3.Select(a, i)
NLS = engine_str_lit([10])
def block_at(S, P):
    at = val_of(S.ex, P.id('@'), 'pair', S.old); g = And(P.exists('@'))
    return [If(g, 72 * at.x, 0) + 396, If(g, 72 * at.y, 0) + 306]
def _lines_placed(S, p1, k, src, pos, X, Y):
    t = S.arg(0)['text']; p0 = page(S)['text']; i, j = I(), I(); pc = lambda i: B.split_e(t, NLS, i); new = lambda j: And(p0.n <= j, j < p1.n)
    l = p1.at(j)
    return [('labels are only added', p1.n >= p0.n), ('earlier labels stay', ForAll([j], Imp(And(0 <= j, j < p0.n), teq(p1.at(j), p0.at(j))), patterns=[vpat(p1)(j)])),
            ('each label is a line of the text', ForAll([j], Imp(new(j), And(0 <= asel(src, j), asel(src, j) < k, l['str'] == pc(asel(src, j)), pc(asel(src, j)) != z3.StringVal(''), Not(l['raw']), Not(l['center']), asel(pos, asel(src, j)) == j)), patterns=[asel(src, j)])),
            ('each at its place', ForAll([j], Imp(new(j), And(l['at'].x == X, l['at'].y == Y - 12 * z3.ToReal(asel(src, j)))), patterns=[asel(src, j)])),
            ('in order', ForAll([i, j], Imp(And(p0.n <= i, i < j, j < p1.n), asel(src, i) < asel(src, j)), patterns=[MP(asel(src, i), asel(src, j))])),
            ('every line that is not empty has a label', ForAll([i], Imp(And(0 <= i, i < k, pc(i) != z3.StringVal('')), And(p0.n <= asel(pos, i), asel(pos, i) < p1.n, asel(src, asel(pos, i)) == i)), patterns=[asel(pos, i)]))]
def the_label(L): return L.find(lambda v: isinstance(v, R) and 'at' in v.f and 'str' in v.f, 't')
def _text_inv(L):
    S = L.S
    if S.ex.fr() is None: return []
    pre = L.pre('t') if L.has('t') else None
    if pre is None: raise KeyError('t')
    t = the_label(L); X, Y = pre['at'].x, pre['at'].y
    return _lines_placed(S, S.ex.load(page_lv(S), L.st)['text'], L.k, L.g('src'), L.g('pos'), X, Y) + [('the next line', And(t['at'].x == X, t['at'].y == Y - 12 * z3.ToReal(L.k), Not(t['raw']), Not(t['center'])))]
def _tx_n(Lb, La): return [Lb.ex.load(page_lv(Lb.S), x.st)['text'].n for x in (Lb, La)]
def _tx_src(Lb, La): a, b = _tx_n(Lb, La); return If(b > a, z3.Store(Lb.g('src'), a, Lb.k), Lb.g('src'))
def _tx_pos(Lb, La): a, b = _tx_n(Lb, La); return If(b > a, z3.Store(Lb.g('pos'), Lb.k, a), Lb.g('pos'))
def _text(S, part):
    ex = S.ex; P = Props(S, S.arg(0)['meta_list'], ['@']); ok = S.ret
    if part == 'gates':
        i = I()
        return [('accepted: no name twice', Imp(ok, P.distinct())), ('accepted: every name is known', Imp(ok, P.known())), ('nothing valid is refused', Imp(And(P.distinct(), P.known()), ok)),
                ('refusals are diagnosed', Or(ok, S.new.cells['diag'] > S.old.cells['diag'])), ('diagnostics are kept', S.new.cells['diag'] >= S.old.cells['diag'])]
    if ('gh', 'src') not in S.new.cells: return [('refused', Not(ok))]
    p1 = page_post(S)['text']; n = B.split_n(S.arg(0)['text'], NLS); at = val_of(ex, P.id('@'), 'pair', S.old)
    src, pos = S.new.cells[('gh', 'src')], S.new.cells[('gh', 'pos')]; out = []
    for cond, X, Y in ((Not(P.exists('@')), RV(396), RV(306)), (P.given('@'), 72 * at.x + 396, 72 * at.y + 306)):
        out += [(nme, Imp(And(ok, cond), g)) for nme, g in _lines_placed(S, p1, n, src, pos, X, Y)]
    return out
_TXL = [{'inv': _text_inv, 'ghost': {'src': (astc.cst('src', A1), _tx_src), 'pos': (astc.cst('pos', A1), _tx_pos)}}]
def textc(part):
    return Contract('stl2ps::DrawToPage::operator()', sel='TextE', requires=lambda S: [exist(S.arg(0)['meta_list'])] + _draw_at(S), ensures=lambda S: _text(S, part), setup=with_page, loops=_TXL if part == 'geometry' else [], short='stl2ps::DrawToPage::operator()(Text)' + ('' if part == 'geometry' else ' acceptance'),
        modifies=lambda S: [page_lv(S).f(('f', 'text')), LV('diag')])
def _draw_at(S):
    i = I(); l = S.arg(0)['meta_list']
    return [("a position is a pair (the grammar's)", ForAll([i], Imp(And(0 <= i, i < l.n, nm(S.ex, l, i, S.old) == z3.StringVal('@')), is_kind(S.ex, l.at(i).id, 'pair')), patterns=[l.at(i).id]))]
TEXTB, TEXTB_GATES = textc('geometry'), textc('gates')

# ---- pages (C22-C24)
OFF = z3.Function('elements_before_page', Int, Int)       # prefix sums of the element counts
NAMED = z3.Function('index_of_name', Int, Int)             # an arbitrary property of each page
PAGEOK = z3.Function('page_accepted', Int, z3.BoolSort())
HASNAME = z3.Function('page_has_a_name', Int, z3.BoolSort())
NAME = z3.StringVal('name')
def docpages(S): return S.arg(1)['pages']
def page_gate(S, p):
    ex, st = S.ex, S.old; l = docpages(S).at(p)['meta']; i = I(); j = I()
    return And(distinct(ex, l, l.n, st), ForAll([i], Imp(And(0 <= i, i < l.n), And(nm(ex, l, i, st) == NAME, is_kind(ex, l.at(i).id, 'text'))), patterns=[l.at(i).id]))
def page_defs(S):
    ps = docpages(S); p = I()
    i = I(); l = ps.at(p)['meta']; has = Exists([i], And(0 <= i, i < l.n, nm(S.ex, l, i, S.old) == NAME))
    return [('definition: element counts', And(OFF(Z(0)) == 0, ForAll([p], Imp(And(0 <= p, p < ps.n), And(OFF(p + 1) == OFF(p) + ps.at(p)['draws'].n, ps.at(p)['draws'].n >= 0)), patterns=[OFF(p + 1)]))),
            ('definition: named page', ForAll([p], Imp(And(0 <= p, p < ps.n), HASNAME(p) == has), patterns=[HASNAME(p)])),
            ('definition: accepted page', ForAll([p], Imp(And(0 <= p, p < ps.n), PAGEOK(p) == page_gate(S, p)), patterns=[PAGEOK(p)]))]
def page_pre(S):
    ps = docpages(S); p, i = I(), I(); m, d = ps.at(p)['meta'], ps.at(p)['draws']; r = And(0 <= p, p < ps.n, 0 <= i)
    return [('every property exists', ForAll([p, i], Imp(And(r, i < m.n), m.at(i).id > 0), patterns=[m.at(i).id])), ('every element exists', ForAll([p, i], Imp(And(r, i < d.n), d.at(i).id > 0), patterns=[d.at(i).id]))]
def the_page_name(S, p):
    l = docpages(S).at(p)['meta']; i = I(); at = NAMED(p); ex, st = S.ex, S.old
    return HASNAME(p), And(0 <= at, at < l.n, nm(ex, l, at, st) == NAME), val_of(ex, l.at(at).id, 'text', st)
def boxed(pg, name):
    t, l = pg['text'], pg['lines']; x = 784 - RV('4.8') * z3.ToReal(z3.Length(name)); tt = t.at(t.n - 1); a, b = l.at(l.n - 2), l.at(l.n - 1); y = x - 3; top = RV(16)
    return And(t.n >= 1, l.n >= 2, tt['str'] == name, Not(tt['raw']), Not(tt['center']), tt['at'].x == x, tt['at'].y == 8, Or([And(is_seg(p, [y, 5], [y, top]), is_seg(q, [y, top], [787, top])) for p, q in ((a, b), (b, a))]))
def pages_done(S, st, out, k, ok):
    """the first k pages of the document are in out"""
    p, j = I(), I(); ps = docpages(S); old = S.arg(2); n0 = old.n; v0 = gv(S.old, 'visits'); d = ps.at(p)['draws']; r = And(0 <= p, p < k)
    pg = out.at(n0 + p); has, given, name = the_page_name(S, p)
    acc = And(ok, r)
    cnt = lambda w, m: pg[w].n == If(d.n > 0, z3.Select(gv(st, 'on ' + w), n0 + p), 0) + m
    return [('one page each', out.n == n0 + k), ('elements are counted', ForAll([p], Imp(r, And(0 <= OFF(p), OFF(p) + d.n <= OFF(k))), patterns=[OFF(p)])),
            ('each element is drawn once, in order', Imp(ok, And(gv(st, 'visits') == v0 + OFF(k), ForAll([p, j], Imp(And(r, 0 <= j, j < d.n), And(z3.Select(gv(st, 'visited'), v0 + OFF(p) + j) == d.at(j).id, z3.Select(gv(st, 'on page'), v0 + OFF(p) + j) == n0 + p)), patterns=[d.at(j).id])))),
            ('a page without a name has an empty title', ForAll([p], Imp(And(acc, Not(has)), boxed(pg, z3.StringVal(''))), patterns=[HASNAME(p)])),
            ('a page with a name has it as its title', ForAll([p], Imp(And(acc, given), boxed(pg, name)), patterns=[NAMED(p)])),
            ('what the elements drew is there, and the title block only', ForAll([p], Imp(acc, And(cnt('lines', 2), cnt('arcs', 0), cnt('text', 1))), patterns=[PAGEOK(p)]))]
def page_result(S, st, k, ok):
    p = I()
    return [('accepted exactly when every page and element is', ok == And(gv(st, 'refused') == gv(S.old, 'refused'), ForAll([p], Imp(And(0 <= p, p < k), PAGEOK(p)), patterns=[PAGEOK(p)]))),
            ('refusals are diagnosed', Or(ok, st.cells['diag'] > S.old.cells['diag'])), ('refusals and diagnostics only grow', And(gv(st, 'refused') >= gv(S.old, 'refused'), st.cells['diag'] >= S.old.cells['diag']))]
def _gen(S):
    n = docpages(S).n; out = S.post(2)
    if S.ex.cur is not S.con: S.ex.opt.setdefault('pages made', []).append((S.arg(0), S.arg(1), out, S.ret)); return page_result(S, S.new, n, S.ret)
    return pages_done(S, S.new, out, n, S.ret) + page_result(S, S.new, n, S.ret)
def _gen_inv(L): S = L.S; ok = L.find(is_bool, 'ok'); return pages_done(S, L.st, L.argnow(2), L.k, ok) + page_result(S, L.st, L.k, ok)
def _gen_inner(L):
    """the elements of one page: what was there on entry stays"""
    S = L.S; e, st = L.entry_st, L.st; o0, o1 = S.ex.load(S.lv(2), e), S.ex.load(S.lv(2), st); p = simp(o0.n - 1); d = docpages(S).at(simp(p - S.arg(2).n))['draws']; j = I(); k = L.k; pg = o1.at(p); v0 = gv(e, 'visits')
    ok, ok0 = L.flag(is_bool, 'ok')
    cnt = lambda w: And(pg[w].n >= 0, pg[w].n == If(k > 0, z3.Select(gv(st, 'on ' + w), p), 0))
    log = lambda w: z3.Select(gv(st, w), j)
    return [('pages', o1.n == o0.n), ('earlier pages stay', ForAll([j], Imp(And(0 <= j, j < p), teq(o1.at(j), o0.at(j))), patterns=[vpat(o1)(j)])),
            ('result so far', ok == And(ok0, gv(st, 'refused') == gv(e, 'refused'))), ('refusals are diagnosed', Or(gv(st, 'refused') == gv(e, 'refused'), st.cells['diag'] > e.cells['diag'])), ('only grow', And(gv(st, 'refused') >= gv(e, 'refused'), st.cells['diag'] >= e.cells['diag'])),
            ('visits', Imp(ok, gv(st, 'visits') == v0 + k)), ('counts', And([cnt(w) for w in ('lines', 'arcs', 'text')])),
            ('this page', Imp(ok, ForAll([j], Imp(And(0 <= j, j < k), And(z3.Select(gv(st, 'visited'), v0 + j) == d.at(j).id, z3.Select(gv(st, 'on page'), v0 + j) == p)), patterns=[d.at(j).id]))),
            ('earlier visits', Imp(ok, ForAll([j], Imp(j < v0, And(log('visited') == z3.Select(gv(e, 'visited'), j), log('on page') == z3.Select(gv(e, 'on page'), j))), patterns=[log('visited')]))),
            ('earlier counts', And([ForAll([j], Imp(j != p, log('on ' + w) == z3.Select(gv(e, 'on ' + w), j)), patterns=[log('on ' + w)]) for w in ('lines', 'arcs', 'text')]))]
def _gen_steps(L):
    S = L.S; k = L.k; out = L.argnow(2); st = L.st; ok = L.find(is_bool, 'ok'); l = docpages(S).at(k)['meta']; d = docpages(S).at(k)['draws']; pg = out.at(S.arg(2).n + k); ex = S.ex
    has, given, name = the_page_name(S, k); i = I(); clean = gv(st, 'refused') == gv(S.old, 'refused')
    cnt = lambda w, m: pg[w].n == If(d.n > 0, z3.Select(gv(st, 'on ' + w), S.arg(2).n + k), 0) + m
    p = I(); pgp = out.at(S.arg(2).n + p); h2, g2, n2 = the_page_name(S, p); was = And(ok, 0 <= p, p < k)
    return [('counted', And(OFF(k + 1) == OFF(k) + d.n, d.n >= 0)), ('one page more', out.n == S.arg(2).n + k + 1), ('earlier pages stay', ForAll([i], Imp(And(0 <= i, i < S.arg(2).n + k), teq(out.at(i), S.ex.load(S.lv(2), L.head_st).at(i))), patterns=[vpat(out)(i)])),
            ('no name twice', Imp(ok, distinct(ex, l, l.n, S.old))), ('known names', Imp(ok, ForAll([i], Imp(And(0 <= i, i < l.n), nm(ex, l, i, S.old) == NAME), patterns=[l.at(i).id]))), ('a text', Imp(ok, ForAll([i], Imp(And(0 <= i, i < l.n), is_kind(ex, l.at(i).id, 'text')), patterns=[l.at(i).id]))),
            ('accepted', Imp(ok, PAGEOK(k))), ('nothing refused', Imp(ok, clean)),
            ('no name, no title, before', ForAll([p], Imp(And(was, Not(h2)), boxed(pgp, z3.StringVal(''))), patterns=[HASNAME(p)])), ('the titles before', ForAll([p], Imp(And(was, g2), boxed(pgp, n2)), patterns=[NAMED(p)])),
            ('no name, no title', Imp(And(ok, Not(has)), boxed(pg, z3.StringVal('')))), ('the title', Imp(And(ok, given), boxed(pg, name))), ('counts', Imp(ok, And(cnt('lines', 2), cnt('arcs', 0), cnt('text', 1))))]
GENVISITS = VISITS + ONPAGE
def with_pages(S, st):
    with_visits(S, st)
    for k in ('on page', 'on lines', 'on arcs', 'on text'): st.cells[('gh', k)] = z3.Const(k + '0', z3.ArraySort(Int, Int))
def with_page_defs(S, st):
    with_pages(S, st)
    for n, g in page_defs(S): st.facts.append(g)
GENPAGES = Contract('stl2ps::GeneratePages', requires=page_pre, ensures=_gen, setup=with_page_defs, modifies=lambda S: [S.lv(2), PST, LV('diag')] + GENVISITS, loops=[{'inv': _gen_inv, 'steps': _gen_steps}, {'inv': _gen_inner}])

def contracts(): return [GENPAGES, TEXTB, TEXTB_GATES, VAL_ROTATE, VAL_INVOKE, PF_ROTATE, DRAW, DRAW_GATES, ADDDIMS, VISIT, PTS_LOG, ROT_LOG, CULL_LOG, LIM_LOG, LINES_LOG, astc.BYANG, astc.BYNAME, DIA, DIA_GATES, RAD, RAD_GATES, FC_STUB, astc.CLOSEST, astc.BETWEEN, ANGLE, ANGLE_GATES, DIM, DIM_GATES, PT_ROTATE, PT_INVOKE, GETROTATED, FLATTEN, ADDLINES, ADDARCS, ADDTEXT, ADDHEADER]
