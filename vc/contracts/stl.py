"""Contracts of stl.cc: facets, reading, rotation and culling, limits, points (C06-C10)."""
from spec import *

# ---------------------------------------------------------------- Facet (C07)
def _facet_req(S): return [('three vertices', S.arg(1).n == 3)]
def _facet_ens(S):
    n, e, f = S.arg(0), S.arg(1), S.ret
    v = [e.at(z3.IntVal(i)) for i in range(3)]
    g = f['edge'].v
    nd = Or([x != 0 for x in cross(sub(v[1], v[0]), sub(v[2], v[0]))])
    perm = Or([And([peq(g[i], v[p[i]]) for i in range(3)]) for p in ((0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0), (1, 0, 2))])
    norm = f['norm']
    out = [('keeps exactly the three given vertices', perm)]
    out += [('unit normal', Imp(nd, dot(norm, norm) == 1))]
    for i, j in ((0, 1), (0, 2)):
        out.append(('normal perpendicular to edge %d-%d' % (i, j), Imp(nd, dot(norm, sub(g[j], g[i])) == 0)))
    out.append(('normal never against the declared one', dot(n, norm) >= 0))
    out.append(('counter-clockwise around the normal', Imp(nd, dot(norm, cross(sub(g[1], g[0]), sub(g[2], g[0]))) > 0)))
    for i in range(3):
        out.append(('vertex %d satisfies the plane equation' % i, Imp(nd, dot(norm, g[i]) == f['r'])))
    return out
FACET = Contract('stl2ps::Facet::Facet', sel=lambda f: len(f['params']) == 2, requires=_facet_req, ensures=_facet_ens, short='stl2ps::Facet::Facet')

# ---------------------------------------------------------------- CullBackFace (C08)
def ghost_ids(facets):
    """give every facet an identity and record where each identity is"""
    ident = z3.Const(fresh_name('ident'), z3.ArraySort(Int, Int))
    e = R(facets.e.ty, {**facets.e.f, '#id': ident})
    return V(facets.n, e, facets.ety, ident), ident
def is_perm(v, n):
    """identities and positions are inverse to each other on [0, n)"""
    i = I(); ids = v.e.f['#id']
    ok = lambda x: And(0 <= x, x < n)
    return [('every position holds one original facet', ForAll([i], Imp(ok(i), And(ok(z3.Select(ids, i)), z3.Select(v.pos, z3.Select(ids, i)) == i)), patterns=[z3.Select(ids, i)])),
            ('every original facet has one position', ForAll([i], Imp(ok(i), And(ok(z3.Select(v.pos, i)), z3.Select(ids, z3.Select(v.pos, i)) == i)), patterns=[z3.Select(v.pos, i)]))]
def feq(a, b): return teq(a, b)
def _cull_setup(S, st):
    t = st.cells['this']
    v, ident = ghost_ids(t['facets'])
    st.cells['this'] = R(t.ty, {**t.f, 'facets': v})
    i = I()
    st.facts.append(ForAll([i], z3.Select(ident, i) == i, patterns=[z3.Select(ident, i)]))
def _cull_inv(L):
    v, old = L.this['facets'], L.S.this['facets']
    i, j = L['i'], L['j']
    ids = v.e.f['#id']
    a = lambda k: z3.Select(ids, k)
    return [('counters in range', And(0 <= i, i <= j, j <= old.n, v.n == old.n))] + is_perm(v, old.n) + [
        ('facets keep their contents', forall(old.n, lambda k: feq(v.at(k), old.at(a(k))), a)),
        ('kept facets face the viewer', forall(i, lambda k: v.at(k)['norm'].z > 0, a)),
        ('rejected facets do not', forall(old.n, lambda k: v.at(k)['norm'].z <= 0, a, lo=j))]
def _cull_ens(S):
    old, new = S.this['facets'], S.this_post['facets']
    if '#id' in new.e.f: ids, pos = new.e.f['#id'], new.pos
    else:
        ids, pos = z3.Const(fresh_name('id'), z3.ArraySort(Int, Int)), z3.Const(fresh_name('pos'), z3.ArraySort(Int, Int))
        S.ex.opt['cull'] = (ids, pos, old, new)
    a = lambda k: z3.Select(ids, k)
    p = lambda k: z3.Select(pos, k)
    i = I()
    return [('not more facets than before', And(0 <= new.n, new.n <= old.n)),
            ('every facet kept faces the viewer', forall(new.n, lambda k: new.at(k)['norm'].z > 0, vpat(new))),
            ('every facet kept is one of the model, unchanged, once', ForAll([i], Imp(And(0 <= i, i < new.n), And(0 <= a(i), a(i) < old.n, p(a(i)) == i, feq(new.at(i), old.at(a(i))))), patterns=[a(i), vpat(new)(i)])),
            ('every facet facing the viewer is kept', ForAll([i], Imp(And(0 <= i, i < old.n, old.at(i)['norm'].z > 0), And(0 <= p(i), p(i) < new.n, a(p(i)) == i)), patterns=[p(i), vpat(old)(i)]))]
CULL = Contract('stl2ps::STLFile::CullBackFace', ensures=_cull_ens, modifies=['this.facets'], setup=_cull_setup, loops=[{'inv': _cull_inv}])

# ---------------------------------------------------------------- Limits, Points (C09, C10)
def verts(v, i): return [v.at(i)['edge'].v[j] for j in range(3)]
def fpat(v): return lambda i: z3.Select(leaves(v.e['edge'].v[0])[0], i)
def _lim_inv(L):
    f = L.this['facets']; mn, mx, k = L['minp'], L['maxp'], L.k
    i = I()
    f0 = verts(f, z3.IntVal(0))[0]
    hit = lambda c, m: Exists([i], And(0 <= i, i < f.n, Or([p.v[c] == m.v[c] for p in verts(f, i)])))
    out = [('covers the facets seen', ForAll([i], Imp(And(0 <= i, i < k), And([And(mn.x <= p.x, p.x <= mx.x, mn.y <= p.y, p.y <= mx.y) for p in verts(f, i)])), patterns=[fpat(f)(i)]))]
    for c, n in ((0, 'x'), (1, 'y')):
        out += [('low %s is touched' % n, hit(c, mn)), ('high %s is touched' % n, hit(c, mx))]
    return out
def _lim_ens(S):
    f = S.this['facets']; o, t = S.ret['o'], S.ret['t']
    i = I()
    hit = lambda c, m: Exists([i], And(0 <= i, i < f.n, Or([p.v[c] == m.v[c] for p in verts(f, i)])))
    out = [('an empty model has a zero rectangle', Imp(f.n == 0, And(o.x == 0, o.y == 0, t.x == 0, t.y == 0))),
           ('every vertex is inside', ForAll([i], Imp(And(0 <= i, i < f.n), And([And(o.x <= p.x, p.x <= t.x, o.y <= p.y, p.y <= t.y) for p in verts(f, i)])), patterns=[fpat(f)(i)]))]
    for c, n in ((0, 'x'), (1, 'y')):
        out += [('the low %s side is touched' % n, Imp(f.n > 0, hit(c, o))), ('the high %s side is touched' % n, Imp(f.n > 0, hit(c, t)))]
    return out
LIMITS = Contract('stl2ps::STLFile::Limits', ensures=_lim_ens, loops=[{'inv': _lim_inv}])

def keyof(p):
    return key_enc(Ty('mat', r=1, c=3), M(1, 3, pt(p)))
def pset_is(has, f, n):
    """has contains exactly the vertices of the first n facets"""
    i = I(); K = key_sort(Ty('mat', r=1, c=3)); q = fresh(K, 'q')
    return [('every vertex is in the set', ForAll([i], Imp(And(0 <= i, i < n), And([z3.Select(has, keyof(p)) for p in verts(f, i)])), patterns=[fpat(f)(i)])),
            ('every point of the set is a vertex', ForAll([q], Imp(z3.Select(has, q), Exists([i], And(0 <= i, i < n, Or([q == keyof(p) for p in verts(f, i)])))), patterns=[z3.Select(has, q)]))]
def _pts_inv(L):
    s = L.find(lambda v: isinstance(v, St), 'ret')
    return pset_is(s.has, L.this['facets'], L.k)
def _pts_ens(S):
    return pset_is(S.ret.has, S.this['facets'], S.this['facets'].n)
POINTS = Contract('stl2ps::STLFile::Points', ensures=_pts_ens, loops=[{'inv': _pts_inv}])

# ---------------------------------------------------------------- Rotate (C08)
def mulM(v, m): return [B.dot3(*(list(pt(v)) + [m.at(k, j) for k in range(3)])) for j in range(3)]
def rotated(f, m):
    return {'norm': mulM(f['norm'], m), 'edge': [mulM(p, m) for p in f['edge'].v], 'r': f['r']}
def freq(a, r): return And([peq(a['norm'], r['norm'])] + [peq(p, q) for p, q in zip(a['edge'].v, r['edge'])] + [a['r'] == r['r']])
def _rot_inv(L):
    v = L.find(lambda v: isinstance(v, R) and 'facets' in v.f, 'ret')['facets']
    old, m = L.S.this['facets'], L.S.arg(0)
    return [('length', v.n == old.n),
            ('done facets are rotated', forall(L.k, lambda i: freq(v.at(i), rotated(old.at(i), m)), vpat(v))),
            ('others are untouched', forall(old.n, lambda i: teq(v.at(i), old.at(i)), vpat(v), lo=L.k))]
def _rotate_ens(S):
    old, m, new = S.this['facets'], S.arg(0), S.ret['facets']
    c = S.ex.opt.get('cull')
    if c is not None and S.ex.cur is S.con: ids, pos = c[0], c[1]
    elif S.ex.cur is S.con:
        j = I(); ids = pos = z3.Lambda([j], j)
    else: ids, pos = z3.Const(fresh_name('id'), z3.ArraySort(Int, Int)), z3.Const(fresh_name('pos'), z3.ArraySort(Int, Int))
    a = lambda k: z3.Select(ids, k)
    p = lambda k: z3.Select(pos, k)
    i = I()
    zrot = lambda f: mulM(f['norm'], m)[2]
    return [('every facet of the result faces the viewer', forall(new.n, lambda k: new.at(k)['norm'].z > 0, vpat(new))),
            ('every facet of the result is a rotated facet of the model, each at most once', ForAll([i], Imp(And(0 <= i, i < new.n), And(0 <= a(i), a(i) < old.n, p(a(i)) == i, freq(new.at(i), rotated(old.at(a(i)), m)))), patterns=[vpat(new)(i)])),
            ('every facet facing the viewer after rotation is in the result', ForAll([i], Imp(And(0 <= i, i < old.n, zrot(old.at(i)) > 0), And(0 <= p(i), p(i) < new.n, a(p(i)) == i)), patterns=[vpat(old)(i)]))]
ROTATE = Contract('stl2ps::STLFile::Rotate', ensures=_rotate_ens, loops=[{'inv': _rot_inv}], opt={'opaque_product': True})

INDEX_STUB = Contract('stl2ps::STLFile::Index', modifies=['this.edges', 'this.face_edge', 'this.unseen'])

def contracts(): return [FACET, CULL, LIMITS, POINTS, ROTATE, INDEX_STUB]
