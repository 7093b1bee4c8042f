"""Contract of the STL reader (C06)."""
from contracts.stl import *
P_SOLID, P_LOOP, P_END = r' *(solid|endsolid)( .*)?', r' *(outer loop|endloop) *', r' *endfacet *'
P_FACET, P_VERTEX = [r' *%s +([-.e0-9]+) +([-.e0-9]+) +([-.e0-9]+) *' % w for w in ('facet normal', 'vertex')]
SOLID, LOOPL, ENDF, FACETL, VERTEXL = [B.form(p) for p in (P_SOLID, P_LOOP, P_END, P_FACET, P_VERTEX)]
KINDS = [('solid', P_SOLID, SOLID), ('loop', P_LOOP, LOOPL), ('endfacet', P_END, ENDF), ('facet', P_FACET, FACETL), ('vertex', P_VERTEX, VERTEXL)]
def form_lemmas():
    """no line has two forms"""
    x = z3.Const('line!', Str)
    return Lemma('forms of lines', lambda: [('no line is both %s and %s' % (a[0], b[0]), [], Not(And(z3.InRe(x, B.regex(a[1])), z3.InRe(x, B.regex(b[1]))))) for i, a in enumerate(KINDS) for b in KINDS[:i]])
def nums(p, l):
    ok, at = B.numbers(p); i = [z3.IntVal(k) for k in range(3)]
    return And([ok(l, k) for k in i]), [at(l, k) for k in i]
REALS = [Real] * 3
START = z3.Function('open_block', Int, Int); COUNT = z3.Function('vertices_in_block', Int, Int); GOOD = z3.Function('line_is_in_order', Int, z3.BoolSort()); DONE = z3.Function('facets_before_line', Int, Int)
FIRST = z3.Function('facet_line_of', Int, Int); VAT = z3.Function('vertex_line', Int, Int, Int)
MADE = z3.Function('facet_is_made_from', *([Real] * 25), z3.BoolSort())
def made(f, n, vs): return MADE(*pt(f['norm']), *[x for e in f['edge'].v for x in pt(e)], f['r'], *pt(n), *[x for v in vs for x in pt(v)])
FACET_MADE = Contract('stl2ps::Facet::Facet', sel=lambda f: len(f['params']) == 2, requires=lambda S: [('three vertices', S.arg(1).n == 3)], short='stl2ps::Facet::Facet', trusted='C07',
    ensures=lambda S: [('a facet of that normal and those vertices', made(S.ret, S.arg(0), [S.arg(1).at(z3.IntVal(i)) for i in range(3)]))])
def stream(S): return S.arg(0)
def line(S, k): return z3.Select(stream(S).f['line'], k)
def kinds(l):
    fo, fn = nums(P_FACET, l); vo, vn = nums(P_VERTEX, l)
    return And(FACETL(l), fo), Or([x != 0 for x in fn]), ENDF(l), And(VERTEXL(l), vo), Or(SOLID(l), LOOPL(l))
def spec(S):
    """what the first k lines amount to, by recursion over the lines"""
    k = I('k'); l = line(S, k); F, nz, E, V_, O = kinds(l); s, c = START(k), COUNT(k); n = stream(S).f['n']; x = z3.Const('l!', Str)
    step = And(START(k + 1) == If(F, If(nz, k, -1), If(E, -1, s)), COUNT(k + 1) == If(Or(F, E), 0, If(And(V_, s >= 0), c + 1, c)), DONE(k + 1) == DONE(k) + If(And(E, s >= 0), 1, 0),
               GOOD(k) == And(Or(F, E, V_, O), Not(And(F, s >= 0)), Imp(And(E, s >= 0), c == 3)),
               Imp(And(V_, s >= 0), VAT(s, c) == k), Imp(And(E, s >= 0), FIRST(DONE(k)) == s))
    return [And(START(Z(0)) == -1, COUNT(Z(0)) == 0, DONE(Z(0)) == 0), ForAll([k], Imp(And(0 <= k, k < n), step), patterns=[START(k + 1), GOOD(k), DONE(k + 1), COUNT(k + 1)])] + \
           [ForAll([x], Not(And(a[2](x), b[2](x))), patterns=[a[2](x)]) for i, a in enumerate(KINDS) for b in KINDS[:i]]
Z = z3.IntVal
def facets_are(S, fs, k):
    m = I('m'); f = FIRST(m); num = lambda p, i: nums(p, line(S, i))[1]
    return [('as many facets as finished blocks', fs.n == DONE(k)), ('each from its own block', ForAll([m], Imp(And(0 <= m, m < DONE(k)), made(fs.at(m), num(P_FACET, f), [num(P_VERTEX, VAT(f, Z(j))) for j in range(3)])), patterns=[vpat(fs)(m)]))]
def _make_setup(S, st):
    st.cells['errors'] = z3.IntVal(0)
    v = stream(S); st.facts += [v.f['pos'] == 0, Not(v.f['ended']), v.f['n'] >= 0] + spec(S)
def in_order(k):
    j = I('j'); return ForAll([j], Imp(And(0 <= j, j < k), GOOD(j)), patterns=[GOOD(j)])
def _read_inv(L):
    S = L.S; k = L.k; st = L.st; v = stream(S); now = L.argnow(0).f; s = START(k); j = I('j')
    p = L.find(lambda v: isinstance(v, HP), 'ret'); norm = L.find(lambda v: isinstance(v, M) and (v.r, v.c) == (1, 3), 'norm'); pts = L.find(lambda v: isinstance(v, V), 'points')
    fs = S.ex.load(HLV(p.id, p.to), st)['facets']
    return [('lines are read in turn', And(now['pos'] == k, Not(now['ended']), k <= v.f['n'])), ('every line so far is in order', in_order(k)), ('the block being read started before', And(s >= -1, s < k, COUNT(k) >= 0, DONE(k) >= 0, st.cells['errors'] >= 0)),
            ('no block, no normal', (s == -1) == And([x == 0 for x in pt(norm)])), ('the normal is that of its facet line', Imp(s >= 0, peq(norm, nums(P_FACET, line(S, s))[1]))),
            ('as many points as vertex lines', Imp(s >= 0, pts.n == COUNT(k))), ('the points are those of its vertex lines', ForAll([j], Imp(And(s >= 0, 0 <= j, j < COUNT(k)), peq(pts.at(j), nums(P_VERTEX, line(S, VAT(s, j)))[1])), patterns=[vpat(pts)(j)])),
            ('the model exists', p.id > 0)] + facets_are(S, fs, k)
def _make(S):
    n = stream(S).f['n']; whole = And(in_order(n), START(n) == -1, Not(stream(S).f['broken']))
    p = S.ret; st = S.new; ok = p.id != 0
    m = S.ex.load(HLV(p.id, p.to), st)['facets']
    return [('accepted exactly when every line is in order and the last block is finished', ok == whole), ('a refusal is reported', Or(ok, st.cells['errors'] > 0))] + [(a, Imp(ok, g)) for a, g in facets_are(S, m, n)]
MAKE = Contract('stl2ps::STLFile::Make', ensures=_make, setup=_make_setup, loops=[{'inv': _read_inv}], modifies=lambda S: [S.lv(0)])
def contracts(): return [MAKE, FACET_MADE, INDEX_STUB]
