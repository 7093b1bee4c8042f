"""Contracts of geo.h / geo.cc (C05, C28)."""
from spec import *

def _order(S): return [('strict lexicographic order', S.ret == lexless(S.arg(0), S.arg(1)))]
def _lless(S):
    a, b = S.arg(0), S.arg(1)
    return [('strict lexicographic order of (start, end)', S.ret == lexless(pt(a.o) + pt(a.t), pt(b.o) + pt(b.t)))]
def _leq(S):
    a, b = S.arg(0), S.arg(1)
    return [('equal exactly when both ends coincide', S.ret == And(peq(a.o, b.o), peq(a.t, b.t)))]
def rotspec(ang, azm):
    s, c, t, d = B.sinf(ang), B.cosf(ang), B.sinf(azm), B.cosf(azm)
    # vertical turn by ang, then tilt by azm about the page's horizontal axis (row vectors: p * Turn * Tilt)
    turn = M(3, 3, [c, s, RV(0), -s, c, RV(0), RV(0), RV(0), RV(1)])
    tilt = M(3, 3, [RV(1), RV(0), RV(0), RV(0), d, -t, RV(0), t, d])
    return M(3, 3, [z3.Sum([turn.at(i, k) * tilt.at(k, j) for k in range(3)]) for i in range(3) for j in range(3)])
def _rot(S):
    m = rotspec(S.arg(0), S.arg(1))
    return [('turn about the vertical then tilt [%d,%d]' % (i, j), S.ret.at(i, j) == m.at(i, j)) for i in range(3) for j in range(3)]

ORDER = Contract('geo::Order', ensures=_order)
PORDER = Contract('geo::PointOrder::operator()', ensures=_order)
LLESS = Contract('geo::operator<', ensures=_lless)
LEQ = Contract('geo::operator==', ensures=_leq)
ROTATE = Contract('geo::Rotate', ensures=_rot)

def _edgeorder(S):
    a, b = S.arg(0), S.arg(1)
    return [('strict lexicographic order of (first, second)', S.ret == lexless(pt(a['first']) + pt(a['second']), pt(b['first']) + pt(b['second'])))]
EORDER = Contract('stl2ps::(anon)::EdgeOrder::operator()', ensures=_edgeorder)

def order_lemmas(n, name):
    def build():
        a, b, c = [[z3.Real('%s%d' % (p, i)) for i in range(n)] for p in 'abc']
        L = lexless
        return [('%s: never less than itself' % name, [], Not(L(a, a))),
                ('%s: transitive' % name, [L(a, b), L(b, c)], L(a, c)),
                ('%s: asymmetric' % name, [L(a, b)], Not(L(b, a))),
                ('%s: unordered exactly when equal' % name, [], And(Not(L(a, b)), Not(L(b, a))) == peq(a, b))]
    return Lemma('total order lemma (%s)' % name, build)
def rot_lemmas():
    def build():
        ang, azm = z3.Reals('ang azm')
        m = rotspec(ang, azm)
        h = [B.sinf(x) * B.sinf(x) + B.cosf(x) * B.cosf(x) == 1 for x in (ang, azm)]
        out = []
        for i in range(3):
            for j in range(i, 3):
                out.append(('rows %d and %d orthonormal' % (i, j), h, dot([m.at(i, k) for k in range(3)], [m.at(j, k) for k in range(3)]) == (1 if i == j else 0)))
        out.append(('determinant is 1', h, B.det3(m) == 1))
        z0 = [B.sinf(z3.RealVal(0)) == 0, B.cosf(z3.RealVal(0)) == 1]
        m0 = rotspec(z3.RealVal(0), z3.RealVal(0))
        out.append(('angles 0,0 are the Z+ view', z0, And([m0.at(i, j) == (1 if i == j else 0) for i in range(3) for j in range(3)])))
        return out
    return Lemma('geo::Rotate is a proper rotation', build)
def contracts(): return [ORDER, PORDER, LLESS, LEQ, ROTATE, EORDER]
