"""Small vocabulary shared by the contracts."""
import z3
from val import *
from engine import *
import builtins_ as B
And, Or, Not, Imp, If, Exists = z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.Exists
_alive = []
def MP(*ts):
    _alive.append(ts)      # z3's python binding crashes when the terms of a multi-pattern are dropped early
    return z3.MultiPattern(*ts)
def ForAll(vs, body, patterns=None, **kw):
    if patterns:
        try: return z3.ForAll(vs, body, patterns=patterns, **kw)
        except z3.Z3Exception: pass     # the code's terms do not form a trigger
    return z3.ForAll(vs, body, **kw)
I = lambda n='i': fresh(Int, n)
def RV(x): return z3.RealVal(x)
def pt(v): return v.v if isinstance(v, M) else v
def peq(a, b): return And([x == y for x, y in zip(pt(a), pt(b))])
def dot(a, b): return z3.Sum([x * y for x, y in zip(pt(a), pt(b))])
def sub(a, b): return [x - y for x, y in zip(pt(a), pt(b))]
def addv(a, b): return [x + y for x, y in zip(pt(a), pt(b))]
def scale(k, a): return [k * x for x in pt(a)]
def sq(a): return z3.Sum([x * x for x in pt(a)])
def cross(a, b):
    a, b = pt(a), pt(b)
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def cross2(a, b):
    a, b = pt(a), pt(b)
    return a[0] * b[1] - a[1] * b[0]
def lexless(a, b):
    r = z3.BoolVal(False)
    for x, y in reversed(list(zip(pt(a), pt(b)))): r = If(x == y, r, x < y)
    return r
def mulM(v, m):
    v = pt(v)
    return [z3.Sum([v[k] * m.at(k, j) for k in range(m.r)]) for j in range(m.c)]
def forall(n, body, pats=None, lo=0):
    """for all lo <= i < n: body(i), with trigger terms pats(i)"""
    i = I()
    b = body(i)
    kw = {}
    if pats is not None:
        p = pats(i)
        kw['patterns'] = p if isinstance(p, list) else [p]
    return ForAll([i], Imp(And(lo <= i, i < n), b), **kw)
def vpat(v):
    """trigger: any read of an element of vector v"""
    l = leaves(v.e)[0]
    return lambda i: z3.Select(l, i)
class Lemma:
    """an obligation over the contracts' vocabulary alone"""
    def __init__(s, name, build, hint=None): s.short, s.build, s.hint = name, build, hint
    def obs(s):
        out = []
        for n, hyps, goal in s.build():
            o = Ob(n, 'lemma', 0, s.short, hyps, goal); o.hint = s.hint
            out.append(o)
        return out

class GLemma:
    """a universally quantified fact, proved once per run where it is used, instantiated by hand at given terms.
    steps: intermediate facts, proved in order from the premises alone"""
    def __init__(s, name, sorts, f, steps=None): s.name, s.sorts, s.f, s.steps = name, sorts, f, steps
    def prove(s, ex):
        if ex.dry or s.name in ex.lemmas_used: return
        ex.lemmas_used.add(s.name)
        vs = [fresh(t, 'x') for t in s.sorts]
        goal = s.f(*vs); hy = []
        if s.steps is not None:
            hy, goal = [goal.arg(0)], goal.arg(1)
            for n, g in s.steps(ex, *vs):
                if not n.startswith('use: '): ex.obs.append(Ob('lemma: %s: %s' % (s.name, n), 'lemma', 0, ex.owner, list(hy), g))
                hy.append(g)
        ex.obs.append(Ob('lemma: ' + s.name, 'lemma', 0, ex.owner, hy, goal))
    def use(s, ex, *terms):
        s.prove(ex)
        return ('use: ' + s.name, s.f(*terms))
