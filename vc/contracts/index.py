"""Contract of STLFile::Index (C11)."""
from spec import *
from contracts.stl import verts, fpat
MATP = Ty('mat', r=1, c=3)
EDGE = Ty('pair', args=[MATP, MATP], q='std::pair')
K = key_sort(EDGE)
def ekey(e): return key_enc(EDGE, e)
def canon(a, b):
    c = lexless(a, b)
    p = [If(c, x, y) for x, y in zip(pt(a), pt(b))]; q = [If(c, y, x) for x, y in zip(pt(a), pt(b))]
    return R(EDGE, {'first': M(1, 3, p), 'second': M(1, 3, q)})
def side(f, i, s):
    v = verts(f, i)
    return ekey(canon(v[s], v[(s + 1) % 3]))
# the three undirected edges of each facet, as opaque keys
def sk(S): return S.ex.opt['sk']
def _setup(S, st):
    f = S.this['facets']; ks = []
    i = I()
    for s in range(3):
        a = z3.Const('side%d' % s, z3.ArraySort(Int, K)); ks.append(a)
        st.facts.append(ForAll([i], z3.Select(a, i) == side(f, i, s), patterns=[z3.Select(a, i)]))
    S.ex.opt['sk'] = ks
def ke(v, j): return ekey(v.at(j))
def _has_side(S, f, k): return Or([z3.Select(a, f) == k for a in sk(S)])
def inv1(L):
    E, EF, dd, i, S = L.this['edges'], L['edge_face'], L['dd'], L.k, L.S
    q = fresh(K, 'q'); j = I(); f = I()
    out = [('one owner record per edge', E.n == EF.n),
           ('the map sends an edge to its place', ForAll([q], Imp(z3.Select(dd.has, q), And(0 <= z3.Select(dd.val, q), z3.Select(dd.val, q) < E.n, ke(E, z3.Select(dd.val, q)) == q)), patterns=[z3.Select(dd.has, q)])),
           ('every listed edge is in the map', ForAll([j], Imp(And(0 <= j, j < E.n), And(z3.Select(dd.has, ke(E, j)), z3.Select(dd.val, ke(E, j)) == j)), patterns=[vpat(E)(j)])),
           ('owners are facets seen so far', ForAll([j], Imp(And(0 <= j, j < E.n), And(0 <= EF.at(j)['first'], EF.at(j)['first'] <= EF.at(j)['second'], EF.at(j)['second'] < i, _has_side(S, EF.at(j)['first'], ke(E, j)), _has_side(S, EF.at(j)['second'], ke(E, j)))), patterns=[vpat(EF)(j)]))]
    for s in range(3):
        k = z3.Select(sk(S)[s], f); o = z3.Select(dd.val, k)
        out.append(('side %d of every facet seen is listed' % s, ForAll([f], Imp(And(0 <= f, f < i), And(z3.Select(dd.has, k), EF.at(o)['first'] <= f, f <= EF.at(o)['second'])), patterns=[k])))
    fe = L.this['face_edge']
    return out
def _enter2(L, st):
    """give every edge and owner record an identity"""
    S = L.S; t = st.cells['this']; E = t['edges']
    ident = z3.Const(fresh_name('ident'), z3.ArraySort(Int, Int)); i = I()
    st.facts.append(ForAll([i], z3.Select(ident, i) == i, patterns=[z3.Select(ident, i)]))
    E2 = V(E.n, R(E.e.ty, {**E.e.f, '#id': ident}), E.ety, ident)
    S.ex.name_state(st); t = st.cells['this']; E = t['edges']
    E2 = V(E.n, R(E.e.ty, {**E.e.f, '#id': ident}), E.ety, ident)
    st.cells['this'] = R(t.ty, {**t.f, 'edges': E2})
    st.cells[('gh', 'E1')] = E
    st.cells[('gh', 'EF1')] = L['edge_face']
    st.cells[('gh', 'dd1')] = L['dd']
    S.ex.opt['EK1'] = keys_of(S, st, E, 'EK1')
    S.ex.opt['at2'] = (E, L['edge_face'], L['dd'])
    S.ex.opt['lv_ef'] = L._lv('edge_face')
def keys_of(S, st, E, name):
    a = z3.Const(fresh_name(name), z3.ArraySort(Int, K)); j = I()
    st.facts.append(ForAll([j], z3.Select(a, j) == ke(E, j), patterns=[z3.Select(a, j), vpat(E)(j)]))
    return a
def _enter3(L, st):
    S = L.S; E = L.this['edges']; E1, EF1, dd1 = S.ex.opt['at2']
    S.ex.opt['EK'] = keys_of(S, st, E, 'EK')
    pl = z3.Const(fresh_name('place'), z3.ArraySort(K, Int)); q = fresh(K, 'q')
    st.facts.append(ForAll([q], z3.Select(pl, q) == z3.Select(E.pos, z3.Select(dd1.val, q)), patterns=[z3.Select(pl, q)]))
    S.ex.opt['pl'] = pl
def lem3(L):
    """what the second loop leaves, without the detour over identities"""
    S = L.S; E, EF, u = L.this['edges'], L['edge_face'], L.this['unseen']; E1, EF1, dd1 = S.ex.opt['at2']
    EK, pl = S.ex.opt['EK'], S.ex.opt['pl']; q = fresh(K, 'q'); j = I(); f = I(); nf = S.this['facets'].n
    ek = lambda x: z3.Select(EK, x)
    F, G = EF.at(j)['first'], EF.at(j)['second']
    S.ex.opt['EF'] = EF
    out = [('keys are those of the edges', ForAll([j], ek(j) == ke(E, j), patterns=[ek(j), vpat(E)(j)])),
           ('an edge is at its place', ForAll([j], Imp(And(0 <= j, j < E.n), z3.Select(pl, ek(j)) == j), patterns=[ek(j)])),
           ('a mapped edge has a place', ForAll([q], Imp(z3.Select(dd1.has, q), And(0 <= z3.Select(pl, q), z3.Select(pl, q) < E.n, ek(z3.Select(pl, q)) == q)), patterns=[z3.Select(dd1.has, q)])),
           ('owners', ForAll([j], Imp(And(0 <= j, j < E.n), And(0 <= F, F <= G, G < nf, _has_side(S, F, ek(j)), _has_side(S, G, ek(j)))), patterns=[ek(j)])),
           ('drawn edges', ForAll([j], Imp(And(0 <= j, j < E.n), (j < u) == Not(hideable(S, F, G))), patterns=[ek(j)])),
           ('drawn count', And(0 <= u, u <= E.n))]
    for s in range(3):
        k = z3.Select(sk(S)[s], f); o = z3.Select(pl, k)
        out.append(('side %d is mapped and owned' % s, ForAll([f], Imp(And(0 <= f, f < nf), And(z3.Select(dd1.has, k), EF.at(o)['first'] <= f, f <= EF.at(o)['second'])), patterns=[k])))
    return out
def hideable(S, a1, a2):
    f = S.this['facets']
    return And(a1 != a2, dot(f.at(a1)['norm'], f.at(a2)['norm']) >= RV('0.98'))
def perm(S, E):
    E1, EF1, dd1 = S.ex.opt['at2']
    ids = E.e.f['#id']; i = I(); n = E1.n
    ok = lambda x: And(0 <= x, x < n)
    a = lambda x: z3.Select(ids, x)
    p = lambda x: z3.Select(E.pos, x)
    q = fresh(K, 'q'); EK1 = S.ex.opt['EK1']
    return [('edge count is kept', E.n == n),
            ('every place holds one of the edges', ForAll([i], Imp(ok(i), And(ok(a(i)), p(a(i)) == i, peq(E.at(i)['first'], E1.at(a(i))['first']), peq(E.at(i)['second'], E1.at(a(i))['second']))), patterns=[a(i), vpat(E)(i)])),
            ('the first map still tells which edge is where', ForAll([i], Imp(ok(i), z3.Select(dd1.val, z3.Select(EK1, a(i))) == a(i)), patterns=[a(i)])),
            ('every mapped edge has one place', ForAll([q], Imp(z3.Select(dd1.has, q), And(ok(p(z3.Select(dd1.val, q))), z3.Select(EK1, z3.Select(dd1.val, q)) == q)), patterns=[z3.Select(dd1.has, q)])),
            ('every edge has one place', ForAll([i], Imp(ok(i), And(ok(p(i)), a(p(i)) == i)), patterns=[p(i)]))]
def inv2(L):
    S = L.S; E1, EF1, dd1 = S.ex.opt['at2']
    E, EF = L.this['edges'], L['edge_face']
    i, u = L['i'], L.this['unseen']
    ids = E.e.f['#id']; j = I()
    st = lambda x: And(EF.at(x)['first'] == EF1.at(z3.Select(ids, x))['first'], EF.at(x)['second'] == EF1.at(z3.Select(ids, x))['second'])
    hd = lambda x: hideable(S, EF.at(x)['first'], EF.at(x)['second'])
    return [('counters in range', And(0 <= i, i <= u, u <= E.n, EF.n == E1.n))] + perm(S, E) + [
        ('owner records move with their edges', ForAll([j], Imp(And(0 <= j, j < E.n), st(j)), patterns=[z3.Select(ids, j), vpat(EF)(j)])),
        ('edges before i are to be drawn', ForAll([j], Imp(And(0 <= j, j < i), Not(hd(j))), patterns=[vpat(EF)(j)])),
        ('edges from unseen on are flat seams', ForAll([j], Imp(And(u <= j, j < E.n), hd(j)), patterns=[vpat(EF)(j)]))]
def inv3(L):
    S = L.S; E, dd = L.this['edges'], L['dd']; EK, pl = S.ex.opt['EK'], S.ex.opt['pl']; dd1 = S.ex.opt['at2'][2]
    q = fresh(K, 'q')
    return [('edges placed so far are mapped again', ForAll([q], Imp(And(z3.Select(dd1.has, q), z3.Select(pl, q) < L.k), And(z3.Select(dd.has, q), z3.Select(dd.val, q) == z3.Select(pl, q))), patterns=[z3.Select(dd1.has, q)]))]
def inv4(L):
    S = L.S; dd, FE = L['dd'], L.this['face_edge']
    f = I()
    S.ex.opt['dd4'] = dd
    return [('one record per facet', FE.n == S.this['facets'].n)] + [
        ('side %d of the facets seen is mapped' % s, ForAll([f], Imp(And(0 <= f, f < L.k), And(z3.Select(dd.has, z3.Select(sk(S)[s], f)), FE.at(f).v[s] == z3.Select(dd.val, z3.Select(sk(S)[s], f)))), patterns=[z3.Select(sk(S)[s], f), z3.Select(FE.e.v[s], f)])) for s in range(3)]
def _ens(S):
    new = S.this_post; f = S.this['facets']; E, FE, u = new['edges'], new['face_edge'], new['unseen']
    i, j, g, a1, a2 = I(), I(), I(), I(), I()
    if S.ex.cur is S.con: ks = sk(S)
    else: ks = None
    side_ = (lambda x, s: z3.Select(ks[s], x)) if ks else (lambda x, s: side(f, x, s))
    ke_ = (lambda v, j: z3.Select(S.ex.opt['EK'], j)) if ks else ke
    def has(x, k): return Or([side_(x, s) == k for s in range(3)])
    out = [('every listed edge is an edge of a facet', ForAll([i], Imp(And(0 <= i, i < E.n), Exists([g], And(0 <= g, g < f.n, has(g, ke_(E, i))))), patterns=[vpat(E)(i)])),
           ('no edge is listed twice', ForAll([i, j], Imp(And(0 <= i, i < j, j < E.n), ke_(E, i) != ke_(E, j)))),
           ('one record per facet', FE.n == f.n)]
    for s in range(3):
        x = FE.at(i).v[s]
        out.append(('side %d of each facet refers to that very edge' % s, ForAll([i], Imp(And(0 <= i, i < f.n), And(0 <= x, x < E.n, ke_(E, x) == side_(i, s))), patterns=[FE.at(i).v[s]])))
    out.append(('drawn count in range', And(0 <= u, u <= E.n)))
    # a1 / a2: the first and last facet owning edge j
    owner = And(0 <= a1, a1 < f.n, 0 <= a2, a2 < f.n, has(a1, ke_(E, j)), has(a2, ke_(E, j)), ForAll([g], Imp(And(0 <= g, g < f.n, has(g, ke_(E, j))), And(a1 <= g, g <= a2)), patterns=[side_(g, 0), side_(g, 1), side_(g, 2)] if ks else [fpat(f)(g)]))
    if ks:
        ow = z3.Function(fresh_name('firstlast'), Int, Int, Int, Bool)      # a name for the definition above
        S.new.facts.append(ForAll([j, a1, a2], ow(j, a1, a2) == owner, patterns=[ow(j, a1, a2)])); owner = ow(j, a1, a2)
        EF = S.ex.opt['EF']
        out.append(('step: the owner record is the first and last owner', ForAll([j, a1, a2], Imp(And(0 <= j, j < E.n, owner), And(EF.at(j)['first'] == a1, EF.at(j)['second'] == a2)), patterns=[owner])))
    out.append(('drawn edges are exactly the outlines and the sharp ones', ForAll([j, a1, a2], Imp(And(0 <= j, j < E.n, owner), (j < u) == Not(hideable(S, a1, a2))))))
    return out
INDEX = Contract('stl2ps::STLFile::Index', modifies=['this.edges', 'this.face_edge', 'this.unseen'], setup=_setup, ensures=_ens,
                 loops=[{'inv': inv1}, {'inv': inv2, 'enter': _enter2}, {'inv': inv3, 'enter': _enter3, 'lemmas': lem3, 'forget': True}, {'inv': inv4}])
def contracts(): return [INDEX]
