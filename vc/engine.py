"""Verification-condition generator: symbolic execution of the exported AST of /repo's code against contracts.

Calls are checked against the callee's contract when it has one (its body is verified separately) and inlined
otherwise; loops are cut at invariants; every obligation is collected for the back-end solvers (solve.py)."""
import z3, re, os, json
from val import *
import val

MAXDEPTH = 24

class SpecMismatch(Exception):
    """The contract's auxiliary annotations (loop invariants, names) no longer fit the code's shape."""

class Ob:
    __slots__ = ('name', 'kind', 'line', 'fn', 'hyps', 'goal', 'hint')
    def __init__(s, name, kind, line, fn, hyps, goal): s.name, s.kind, s.line, s.fn, s.hyps, s.goal, s.hint = name, kind, line, fn, hyps, goal, None

class State:
    __slots__ = ('cells', 'pc', 'facts')
    def __init__(s, cells=None, pc=None, facts=None): s.cells, s.pc, s.facts = cells or {}, pc or [], facts or []
    def copy(s): return State(dict(s.cells), list(s.pc), list(s.facts))
    def assume(s, *fs):
        for f in fs:
            if isinstance(f, bool): f = z3.BoolVal(f)
            if not z3.is_true(f): s.facts.append(f)
    def become(s, o): s.cells, s.pc, s.facts = o.cells, o.pc, o.facts

class Frame:
    _n = [0]
    def __init__(s, fn, tu, this, depth):
        Frame._n[0] += 1
        s.uid = Frame._n[0]; s.fn = fn; s.tu = tu; s.this = this; s.env = {}; s.names = {}; s.returns = []; s.loops = []; s.depth = depth; s.parent = None

# ---------------------------------------------------------------- program
class Prog:
    def __init__(s, asts):
        s.tus = asts; s.fns = {}; s.byq = {}; s.tycache = {}; s.recs = {}; s.globals = {}; s.recq = {}
        for n, d in asts.items():
            for f in d['functions']:
                if f.get('body') is None and not f.get('defaulted') and not f.get('ctor'): continue
                key = f['m']
                if f.get('lambda'): key = (n, f['d'])
                if key not in s.fns:
                    f['_tu'] = n
                    s.fns[key] = f
                    s.byq.setdefault(f['q'], []).append(f)
            for rid, r in d['records'].items():
                s.recs[(n, int(rid))] = r
                s.recq.setdefault(r['n'], (n, r))
            for g, v in d['globals'].items(): s.globals.setdefault(g, (n, v))
    def lookup(s, c, tu):
        if c.get('lambda'): return s.fns.get((tu, c['d']))
        return s.fns.get(c['m'])
    def ty(s, tu, i):
        if i is None or i < 0: return TVOID
        k = (tu, i)
        if k not in s.tycache: s.tycache[k] = s._ty(tu, s.tus[tu]['types'][i], i)
        return s.tycache[k]
    def _ty(s, tu, t, i):
        k = t['k']
        if k == 'b':
            n = t['n']
            if n in ('_Bool', 'bool'): return TBOOL
            if n in ('float', 'double', 'long double'): return TREAL
            if n == 'void': return TVOID
            if n == 'nullptr_t': return Ty('ptr', e=TVOID)
            m = {'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32,
                 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}
            if n in m: return Ty('int', bits=m[n], signed=not n.startswith('unsigned'))
            return Ty('opaque', q=n)
        if k == 'enum': return Ty('int', bits=32, signed=True)
        if k == 'ptr':
            e = s.ty(tu, t['e'])
            return Ty('ptr', e=e)
        if k in ('lref', 'rref'): return Ty('ref', e=s.ty(tu, t['e']))
        if k == 'arr': return Ty('arr', e=s.ty(tu, t['e']), n=t['n'])
        if k == 'rec':
            q = t['n']; a = t.get('a', [])
            T = lambda j: s.ty(tu, a[j]['t'])
            if q in ('std::basic_string', 'absl::string_view', 'std::basic_string_view'): return TSTR
            if q == 'std::vector': return Ty('vec', e=T(0))
            if q == 'std::initializer_list': return Ty('vec', e=T(0))
            if q == 'std::set': return Ty('set', e=T(0), cmp=s.cmpq(tu, a[1]))
            if q == 'std::map': return Ty('map', args=[T(0), T(1)], cmp=s.cmpq(tu, a[2]))
            if q == 'std::multimap': return Ty('vec', e=Ty('pair', args=[T(0), T(1)], q='std::pair'), q='multimap')
            if q == 'std::pair': return Ty('pair', args=[T(0), T(1)], q=q)
            if q == 'std::tuple': return Ty('tuple', args=[T(j) for j in range(len(a))], q=q)
            if q == 'std::array': return Ty('arr', e=T(0), n=a[1]['i'])
            if q in ('std::unique_ptr', 'std::shared_ptr'): return Ty('uptr', e=T(0))
            if q == 'Eigen::Matrix': return TMAT(a[1]['i'], a[2]['i'])
            if q in ('std::basic_ostream', 'std::basic_ostringstream', 'std::basic_stringstream'): return Ty('ostream')
            r = s.recs.get((tu, t['id']))
            if r is not None and not t.get('lambda') :
                key = r['mn'].replace('struct ', '').replace('class ', '')
                return Ty('rec', q=q, key=key, rid=t['id'], tu=tu)
            if t.get('lambda'): return Ty('lambda', q=q)
            return Ty('opaque', q=q, args=[s.ty(tu, x['t']) if 't' in x else x.get('i') for x in a] if q.startswith('std::') or q.startswith('Eigen::') or q.startswith('__gnu') else None)
        return Ty('opaque', q=t.get('s', '?'))
    def cmpq(s, tu, a):
        return s.tus[tu]['types'][a['t']].get('n')
    def rec(s, ty): return s.recs[(ty.tu, ty.rid)]
    def chain(s, ty):
        """record types of ty and its bases, most derived first"""
        out = [ty]
        for b in s.rec(ty).get('bases', []):
            bt = s.ty(ty.tu, b)
            if bt.k == 'rec': out += s.chain(bt)
        return out
    def own_fields(s, ty):
        return [(f['n'], s.ty(ty.tu, f['t'])) for f in s.rec(ty)['fields']]
    def fields(s, ty):
        out = []
        for t in reversed(s.chain(ty)): out += s.own_fields(t)
        return out
    def subclass(s, ty, basekey):
        return any(t.key == basekey for t in s.chain(ty))

sqrtf = z3.Function('sqrt_', Real, Real)
dyntype = z3.Function('dyntype', Int, Int)

# ---------------------------------------------------------------- executor
class Ex:
    def __init__(s, prog, contracts=None, owner='', drop=(), plan=None):
        s.prog = prog; s.plan = plan      # plan: which loop takes which invariant (default: in order)
        s.drop = drop      # auxiliary annotations done without (invariants and cuts that don't hold of a rewritten loop)
        s.contracts = contracts or {}
        s.obs = []; s.dry = 0; s.owner = owner; s.lemmas_used = set()
        s.heap0 = {}; s.enums = {}; s.tags = {}
        s.frames = []; s.used = set(); s.inlined = set(); s.assumptions = set(); s.builtins_used = set()
        s.cur = None            # contract under verification
        s.strmode = 'seq'
        s.loopn = 0
        s.loopmap = {}
        s.entry = None
        s.consts = {}
        s.opt = {}
        import builtins_ as B
        s.B = B
        s.qsolver = None

    def aux(s, specs): return [(n, g) for n, g in norm_specs(specs) if n not in s.drop]
    def hook(s, name, st, *args):
        """ghost code and assertions of the contract under verification at a library call"""
        f = s.cur.hooks.get(name) if s.cur is not None else None
        if f is None: return
        L = LoopView(s, s.fr(), st, None, st, None, None, {})
        mark = None
        for nm, g in s.aux(s.spec_eval(lambda L: f(L, st, *args), L)):
            if nm == 'begin': mark = len(st.facts); continue        # up to the next 'keep: ', facts are local to a block
            if not nm.startswith('use: '): s.ob(st, g, 'at %s: %s' % (name, nm), 'cut')
            if nm.startswith('keep: '): st.facts = st.facts[:mark]
            st.facts.append(g)
    # ---- bookkeeping
    def ob(s, st, goal, name, kind, line=0):
        if s.dry: return
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        s.obs.append(Ob(name, kind, line, s.owner, st.facts + st.pc, goal))
    def quick(s, st, goal, ms=300):
        """in-process entailment test on quantifier-free hypotheses (only used to keep terms simple, never to discharge)"""
        g = z3.simplify(goal)
        if z3.is_true(g): return True
        if z3.is_false(g): return False
        sv = z3.Solver(); sv.set('timeout', ms)
        for h in st.facts + st.pc:
            if not has_quant(h): sv.add(h)
        sv.add(z3.Not(g))
        return sv.check() == z3.unsat
    def tag(s, key):
        return s.tags.setdefault(key, len(s.tags) + 1)
    def const(s, name, sort):
        k = (name, str(sort))
        if k not in s.consts: s.consts[k] = z3.Const(name, sort)
        return s.consts[k]

    # ---- value construction
    def mk(s, ty, name='v', mkleaf=None, facts=None, pre=None):
        """symbolic value of type ty; facts (list) receives type invariants when at top level"""
        top = mkleaf is None
        if top: mkleaf = lambda sort, n: fresh(sort, n)
        k = ty.k
        if k == 'int':
            v = mkleaf(Int, name)
            if facts is not None and top:
                if not ty.signed: facts.append(z3.And(v >= 0, v < 2 ** ty.bits))
                else: facts.append(z3.And(v >= -2 ** (ty.bits - 1), v < 2 ** (ty.bits - 1)))
            return v
        if k == 'bool': return mkleaf(Bool, name)
        if k == 'real': return mkleaf(Real, name)
        if k == 'str':
            if s.strmode == 'vec' and top:
                n = fresh(Int, name + '.n')
                if facts is not None: facts.append(n >= 0)
                return V(n, fresh(z3.ArraySort(Int, Int), name + '.e'), TCHAR)
            return mkleaf(Str, name)
        if k == 'mat':
            if ty.r < 0 or ty.c < 0: return DM('unset', None, None)
            return M(ty.r, ty.c, [mkleaf(Real, '%s.%d' % (name, i)) for i in range(ty.r * ty.c)])
        if k in ('pair', 'tuple'):
            ns = ('first', 'second') if k == 'pair' else [str(i) for i in range(len(ty.args))]
            return R(ty, {n: s.mk(a, name + '.' + n, None if top else mkleaf, facts) for n, a in zip(ns, ty.args)})
        if k == 'arr': return A([s.mk(ty.e, '%s[%d]' % (name, i), None if top else mkleaf, facts) for i in range(ty.n)], ty.e)
        if k == 'vec':
            n = mkleaf(Int, name + '.n')
            if facts is not None:
                if top: facts.append(z3.And(n >= 0, n < 2 ** 31))
                else: facts.append(('nonneg', n))
            sub = None if facts is None else []
            e = s.mk(ty.e, name + '.e', lambda sort, nm: mkleaf(z3.ArraySort(Int, sort), nm), sub)
            if sub and top:
                for kind, arr in [x for x in sub if isinstance(x, tuple)]:
                    facts.append(nonneg_all(arr))
            elif sub: facts.extend(sub)
            return V(n, e, ty.e)
        if k == 'map':
            ks = key_sort(ty.args[0])
            has = mkleaf(z3.ArraySort(ks, Bool), name + '.has')
            sub = None if facts is None else []
            v = s.mk(ty.args[1], name + '.val', lambda sort, nm: mkleaf(z3.ArraySort(ks, sort), nm), sub)
            if sub and top:
                for kind, arr in [x for x in sub if isinstance(x, tuple)]: facts.append(nonneg_all(arr))
            elif sub: facts.extend(sub)
            return Mp(has, v, ty.args[0], ty.args[1])
        if k == 'set': return St(mkleaf(z3.ArraySort(key_sort(ty.e), Bool), name + '.has'), ty.e)
        if k == 'uptr': return HP(mkleaf(Int, name), ty.e)
        if k == 'ptr':
            return HP(mkleaf(Int, name), ty.e)
        if k == 'rec': return R(ty, {n: s.mk(t, name + '.' + n, None if top else mkleaf, facts) for n, t in s.prog.fields(ty)})
        if k == 'ostream': return mkleaf(Str, name)
        if k == 'ref': return s.mk(ty.e, name, None if top else mkleaf, facts)
        o = s.B.mk_opaque(s, ty, name, mkleaf)
        if o is not None: return o
        if k == 'opaque': return OP(ty.q or '?')
        if k == 'lambda' or k == 'void': return UNIT
        raise Unsupported('value of type %r' % ty)

    def default(s, ty, st, zero=False):
        """value of a default-initialised object; scalars are unspecified unless zero"""
        k = ty.k
        if k == 'int': return z3.IntVal(0) if zero else fresh(Int, 'uninit')
        if k == 'bool': return z3.BoolVal(False) if zero else fresh(Bool, 'uninit')
        if k == 'real': return z3.RealVal(0) if zero else fresh(Real, 'uninit')
        if k == 'str':
            if s.strmode == 'vec': return V(z3.IntVal(0), fresh(z3.ArraySort(Int, Int), 'e'), TCHAR)
            return z3.StringVal('')
        if k == 'mat':
            if ty.r < 0 or ty.c < 0: return DM('unset', None, None)
            return M(ty.r, ty.c, [z3.RealVal(0)] * (ty.r * ty.c))
        if k in ('pair', 'tuple'):
            ns = ('first', 'second') if k == 'pair' else [str(i) for i in range(len(ty.args))]
            return R(ty, {n: s.default(a, st, True) for n, a in zip(ns, ty.args)})
        if k == 'arr': return A([s.default(ty.e, st, zero) for _ in range(ty.n)], ty.e)
        if k == 'vec':
            v = s.mk(ty, 'empty'); return V(z3.IntVal(0), v.e, v.ety)
        if k == 'map':
            v = s.mk(ty, 'empty'); return Mp(z3.K(key_sort(ty.args[0]), z3.BoolVal(False)), v.val, v.kty, v.vty)
        if k == 'set': return St(z3.K(key_sort(ty.e), z3.BoolVal(False)), ty.e)
        if k in ('uptr',): return HP(z3.IntVal(0), ty.e)
        if k == 'ptr': return HP(z3.IntVal(0) if zero else fresh(Int, 'uninitptr'), ty.e)
        if k == 'rec':
            f = s.find_ctor(ty, [])
            if f is not None and f.get('body') is not None: return s.run_ctor(f, ty, [], st)
            return s.member_init(ty, st)
        if k == 'ostream': return z3.StringVal('')
        o = s.B.mk_opaque(s, ty, 'dflt', lambda sort, n: fresh(sort, n))
        if o is not None: return o
        return OP(ty.q or '?')

    def member_init(s, ty, st):
        out = {}
        for t in reversed(s.prog.chain(ty)):
            for f in s.prog.rec(t)['fields']:
                ft = s.prog.ty(t.tu, f['t'])
                if 'init' in f and f['init'] is not None:
                    fr = Frame({'q': 'init'}, t.tu, None, 0); s.frames.append(fr)
                    out[f['n']] = s.conv(s.rv(f['init'], st), ft, st)
                    s.frames.pop()
                else: out[f['n']] = s.default(ft, st)
        return R(ty, out)

    def fresh_like(s, v, name='h'):
        return tmap(lambda x: fresh(x.sort(), name), v)

    # ---- memory
    def getcell(s, st, c):
        if c in st.cells: return st.cells[c]
        if isinstance(c, str) and c.startswith('heap:'):
            if c not in s.heap0: raise Unsupported('heap cell %s' % c)
            return s.heap0[c]
        raise Unsupported('unknown cell %s' % (c,))
    def heapcell(s, ty):
        c = 'heap:' + ty.key if ty.k == 'rec' else 'heap:' + repr(ty)
        if c not in s.heap0:
            mk = lambda sort, n: fresh(z3.ArraySort(Int, sort), n)
            if ty.k == 'rec':
                s.heap0[c] = R(ty, {n: s.mk(t, 'heap.%s.%s' % (ty.q.split('::')[-1], n), mk) for n, t in s.prog.own_fields(ty)})
            else: s.heap0[c] = R(ty, {'*': s.mk(ty, 'heap', mk)})
        return c
    def hmember(s, h, name, st):
        for t in s.prog.chain(h.ty):
            if any(n == name for n, _ in s.prog.own_fields(t)):
                return LV(s.heapcell(t), (('h', h.id), ('f', name)))
        raise Unsupported('no member %s' % name)
    def load(s, lv, st):
        if isinstance(lv, PLV): return R(lv.ty, {'first': lv.first, 'second': s.load(lv.second, st)})
        if isinstance(lv, CLV): return ite(lv.c, s.load(lv.a, st), s.load(lv.b, st))
        if isinstance(lv, HLV):
            if lv.ty.k != 'rec': return s.load(LV(s.heapcell(lv.ty), (('h', lv.id), ('f', '*'))), st)
            return R(lv.ty, {n: s.load(s.hmember(lv, n, st), st) for n, _ in s.prog.fields(lv.ty)})
        if not isinstance(lv, LV): return lv
        v = s.getcell(st, lv.cell)
        for step in lv.path: v = s.step(v, step)
        return v
    def step(s, v, step):
        k = step[0]
        if k == 'f':
            if isinstance(v, (R, OP)):
                if step[1] not in v.f: raise Unsupported('field %s' % step[1])
                return v.f[step[1]]
            raise Unsupported('field of %s' % type(v).__name__)
        if k == 'i':
            if isinstance(v, V): return v.at(step[1])
            if isinstance(v, A):
                i = simp(step[1])
                if z3.is_int_value(i):
                    i = i.as_long()
                    if not 0 <= i < len(v.v): raise Unsupported('constant index out of range')
                    return v.v[i]
                r = v.v[-1]
                for j in range(len(v.v) - 2, -1, -1): r = ite(step[1] == j, v.v[j], r)
                return r
            if is_leaf(v) and v.sort() == Str: return z3.StrToCode(z3.SubString(v, step[1], 1))
            raise Unsupported('index into %s' % type(v).__name__)
        if k == 'm':
            return v.at(step[1], step[2])
        if k == 'h': return select(v, step[1])
        if k == 'k': return select(v.val, step[1])
        raise Unsupported('step %s' % k)
    def store(s, lv, new, st):
        if isinstance(lv, PLV): raise Unsupported('assignment to a map element pair')
        if isinstance(lv, CLV):
            s.store(lv.a, ite(lv.c, new, s.load(lv.a, st)), st)
            s.store(lv.b, ite(lv.c, s.load(lv.b, st), new), st)
            return
        if isinstance(lv, HLV):
            if lv.ty.k != 'rec': return s.store(LV(s.heapcell(lv.ty), (('h', lv.id), ('f', '*'))), new, st)
            for n, _ in s.prog.fields(lv.ty):
                s.store(s.hmember(lv, n, st), new.f[n], st)
            return
        if not isinstance(lv, LV): raise Unsupported('store to rvalue')
        if not lv.path:
            st.cells[lv.cell] = new
            return
        st.cells[lv.cell] = s.upd(s.getcell(st, lv.cell), lv.path, new)
    def upd(s, v, path, new):
        if not path:
            if isinstance(v, R) and isinstance(new, R):
                # keep declared type; ghost identity follows the value
                return R(v.ty, {k: new.f[k] for k in new.f})
            if is_leaf(v) and is_leaf(new) and v.sort() == Real and new.sort() == Int: new = z3.ToReal(new)
            return new
        step, rest = path[0], path[1:]; k = step[0]
        if k == 'f':
            f = dict(v.f); f[step[1]] = s.upd(f[step[1]], rest, new) if rest or step[1] in f else new
            return R(v.ty, f) if isinstance(v, R) else OP(v.name, f)
        if k == 'i':
            if isinstance(v, V):
                x = s.upd(v.at(step[1]), rest, new)
                pos = v.pos
                if pos is not None and isinstance(x, R) and '#id' in x.f and not rest:
                    pos = z3.Store(pos, x.f['#id'], step[1])
                return V(v.n, store(v.e, step[1], x), v.ety, pos)
            if isinstance(v, A):
                i = simp(step[1])
                if z3.is_int_value(i):
                    i = i.as_long(); l = list(v.v); l[i] = s.upd(l[i], rest, new); return A(l, v.ety)
                return A([ite(step[1] == j, s.upd(x, rest, new), x) for j, x in enumerate(v.v)], v.ety)
            if is_leaf(v) and v.sort() == Str:
                i = step[1]
                return z3.Concat(z3.SubString(v, 0, i), z3.StrFromCode(new), z3.SubString(v, i + 1, z3.Length(v) - i - 1))
            raise Unsupported('indexed store')
        if k == 'm':
            l = list(v.v); j = step[1] * v.c + step[2]; l[j] = s.upd(l[j], rest, new); return M(v.r, v.c, l)
        if k == 'h':
            return store(v, step[1], s.upd(select(v, step[1]), rest, new))
        if k == 'k':
            return Mp(v.has, store(v.val, step[1], s.upd(select(v.val, step[1]), rest, new)), v.kty, v.vty)
        raise Unsupported('store step %s' % k)
    def temp(s, v, st, name='tmp'):
        c = ('t', fresh_name(name))
        st.cells[c] = v
        return LV(c)

    def name_arrays(s, st, v):
        """the same value with every computed array replaced by a name (so that it can occur in trigger patterns)"""
        def f(x):
            if not z3.is_array(x) or (z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED): return x
            k = ('name', x.get_id())
            if k not in s.enums: s.enums[k] = (fresh(x.sort(), 'arr'), x)
            n = s.enums[k][0]
            st.facts.append(n == x)
            return n
        try: return tmap(f, v)
        except Unsupported: return v
    def name_state(s, st):
        for c, v in list(st.cells.items()):
            if isinstance(v, (V, R, A, Mp, St, OP)) or is_leaf(v): st.cells[c] = s.name_arrays(st, v)
    # ---- merging
    def merge(s, base, states, vals=None):
        """join of states all derived from base, their pc suffixes being disjoint"""
        n0p, n0f = len(base.pc), len(base.facts)
        if len(states) == 1:
            return states[0], (vals[0] if vals else None)
        conds = []
        for t in states:
            c = t.pc[n0p:]
            conds.append(z3.And(c) if len(c) > 1 else (c[0] if c else z3.BoolVal(True)))
        out = State({}, list(base.pc), list(base.facts))
        names = []
        for t, c in zip(states, conds):
            if is_simple(c): names.append(c)
            else:
                b = fresh(Bool, 'path'); out.facts.append(b == c); names.append(b)
        for t, c in zip(states, names):
            for f in t.facts[n0f:]: out.facts.append(z3.Implies(c, f))
        out.pc.append(z3.Or(names)) if not covers(names) else None
        keys = set(states[0].cells)
        for t in states[1:]: keys &= set(t.cells)
        heapk = set(k for t in states for k in t.cells if isinstance(k, str) and k.startswith('heap:'))
        for k in keys | heapk:
            vs = [s.getcell(t, k) for t in states]
            v = vs[-1]
            try:
                for c, w in reversed(list(zip(names[:-1], vs[:-1]))): v = ite(c, w, v)
            except Unsupported:
                if isinstance(k, tuple): continue      # a temporary or dead local: drop it
                raise
            out.cells[k] = s.name_arrays(out, v) if v is not vs[-1] else v
        val_ = None
        if vals:
            val_ = vals[-1]
            for c, w in reversed(list(zip(names[:-1], vals[:-1]))): val_ = s.vite(c, w, val_)
        return out, val_
    def vite(s, c, a, b):
        if a is None or b is None or a is b: return a
        if isinstance(a, (LV, HLV, CLV)) and isinstance(b, (LV, HLV, CLV)):
            if same_lv(a, b): return a
            if isinstance(a, HLV) and isinstance(b, HLV): return HLV(z3.If(c, a.id, b.id), a.ty)
            return CLV(c, a, b)
        return ite(c, a, b)

    # ---- conversions
    def conv(s, v, ty, st):
        """adapt a value to the declared type (copies; int to double; pointer kinds)"""
        if isinstance(v, (LV, HLV, CLV)): v = s.load(v, st)
        if ty is None: return v
        k = ty.k
        if k == 'real' and is_leaf(v) and v.sort() == Int: return z3.ToReal(v)
        if k == 'int' and is_leaf(v) and v.sort() == Real: return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))      # inside a library template
        if k == 'vec' and isinstance(v, A): return s.B.vec_from_list(s, ty.e, v.v, st)
        if k == 'arr' and isinstance(v, A):
            l = [s.conv(x, ty.e, st) for x in v.v]
            return A(l, ty.e)
        if k == 'mat' and isinstance(v, M) and (v.r, v.c) != (ty.r, ty.c) and ty.r > 0 and ty.c > 0:
            if (v.c, v.r) == (ty.r, ty.c) and 1 in (v.r, v.c): return M(ty.r, ty.c, v.v)
            raise Unsupported('matrix size mismatch')
        if k in ('pair', 'tuple', 'rec') and isinstance(v, R):
            if k == 'pair': return R(ty, {**v.f, 'first': s.conv(v.f['first'], ty.args[0], st), 'second': s.conv(v.f['second'], ty.args[1], st)})
            if k == 'rec' and v.ty is not ty and v.ty is not None and v.ty.k == 'rec' and v.ty.key != ty.key:
                if s.prog.subclass(ty, v.ty.key) is False and not s.prog.subclass(v.ty, ty.key):
                    f = s.find_ctor(ty, [v])      # a user-defined conversion
                    if f is not None and f.get('body') is not None: return s.run_ctor(f, ty, [v], st)
                # slicing to a base class
                names = [n for n, _ in s.prog.fields(ty)]
                return R(ty, {n: v.f[n] for n in names if n in v.f})
            return v
        if k == 'uptr' and isinstance(v, LP):
            if z3.is_true(v.null): return HP(z3.IntVal(0), ty.e)
            return v
        if k in ('uptr', 'ptr') and v is UNIT: return HP(z3.IntVal(0), ty.e)
        if k == 'str' and s.strmode == 'vec' and is_leaf(v) and v.sort() == Str:
            if z3.is_string_value(v):
                bs = v.as_string().encode('latin1', 'replace')
                e = fresh(z3.ArraySort(Int, Int), 'lit')
                for i, b in enumerate(bs): e = z3.Store(e, i, z3.IntVal(b))
                return V(z3.IntVal(len(bs)), e, TCHAR)
            raise Unsupported('string to character vector')
        return v

    def boolv(s, v):
        if isinstance(v, HP): return v.id != 0
        if isinstance(v, LP): return z3.Not(v.null)
        if isinstance(v, XR): return z3.Not(z3.And(v.k == 0, v.v == 0))
        if is_leaf(v):
            if v.sort() == Bool: return v
            return v != 0
        if isinstance(v, OP) and 'ok' in v.f: return v.f['ok']
        raise Unsupported('truth value of %s' % type(v).__name__)

    # ---- expressions
    def rv(s, e, st):
        v = s.ev(e, st)
        if isinstance(v, (LV, HLV, CLV)): return s.load(v, st)
        return v
    def lval(s, e, st):
        v = s.ev(e, st)
        if isinstance(v, (LV, HLV, CLV)): return v
        return s.temp(v, st)
    def fr(s): return s.frames[-1]
    def T(s, i): return s.prog.ty(s.fr().tu, i)

    def ev(s, e, st):
        m = getattr(s, 'ev_' + e['k'], None)
        if m is None: raise Unsupported('expression %s (line %s)' % (e.get('c') if e['k'] == 'unsupported' else e['k'], e.get('l')))
        return m(e, st)

    def ev_int(s, e, st):
        return z3.IntVal(int(e['v']))
    def ev_bool(s, e, st): return z3.BoolVal(bool(e['v']))
    def ev_float(s, e, st):
        src = e.get('src', '').rstrip('fFlL')
        try: return z3.RealVal(str(Fraction(src)))
        except Exception: return z3.RealVal(str(Fraction(float(e['v']))))
    def ev_str(s, e, st):
        return str_lit(bytes(e['v']))
    def ev_null(s, e, st): return LP(None, z3.BoolVal(True))
    def ev_zero(s, e, st): return s.default(s.T(e['t']), st, True)
    def ev_this(s, e, st):
        fr = s.fr()
        if fr.this is None: raise Unsupported('this')
        return LP(fr.this)
    def ev_ref(s, e, st):
        fr = s.fr()
        while fr is not None:
            if e['id'] in fr.env: return fr.env[e['id']]
            fr = fr.parent
        if 'g' in e: return s.global_(e, st)
        raise Unsupported('variable %s' % e['n'])
    def ev_binding(s, e, st):
        fr = s.fr()
        if e['id'] in fr.env: return fr.env[e['id']]
        raise Unsupported('binding')
    def global_(s, e, st):
        g = e['g']
        b = s.B.global_value(s, g, st, s.T(e['t']))
        if b is not None: return b
        if g in s.prog.globals:
            tu, d = s.prog.globals[g]
            cell = ('g', g)
            if cell not in st.cells:
                if d.get('init') is None: raise Unsupported('global %s' % g)
                fr = Frame({'q': 'global ' + g}, tu, None, 0); s.frames.append(fr)
                v = s.conv(s.rv(d['init'], st), s.prog.ty(tu, d['t']), st)
                s.frames.pop()
                st.cells[cell] = v
            return LV(cell)
        raise Unsupported('global %s' % g)
    def member_of(s, base, name, e, st):
        if isinstance(base, HLV): return s.hmember(base, name, st)
        if isinstance(base, LV): return base.f(('f', name))
        if isinstance(base, PLV): return base.first if name == 'first' else base.second
        if isinstance(base, CLV): return CLV(base.c, s.member_of(base.a, name, e, st), s.member_of(base.b, name, e, st))
        if isinstance(base, (R, OP)):
            if name not in base.f: raise Unsupported('member %s' % name)
            return base.f[name]
        raise Unsupported('member of %s' % type(base).__name__)
    def deref(s, p, st, line=0, what='null pointer'):
        if isinstance(p, LP):
            if p.lv is None: raise Unsupported('dereference of null')
            if not z3.is_false(p.null): s.ob(st, z3.Not(p.null), 'no null dereference', 'safety', line)
            return p.lv
        if isinstance(p, HP):
            s.ob(st, p.id != 0, 'no null dereference', 'safety', line)
            return HLV(p.id, p.to)
        if isinstance(p, IT): return s.B.it_deref(s, p, st, line)
        raise Unsupported('dereference of %s' % type(p).__name__)
    def ev_member(s, e, st):
        b = s.ev(e['e'], st)
        if e.get('arrow'):
            if isinstance(b, (LV, HLV, CLV)): b = s.load(b, st)
            b = s.deref(b, st, e.get('l'))
        return s.member_of(b, e['n'], e, st)
    def ev_load(s, e, st): return s.rv(e['e'], st)
    def ev_cast(s, e, st):
        ck = e['ck']; t = s.T(e['t'])
        if e.get('dyn'): return s.dyncast(e, st)
        v = s.ev(e['e'], st)
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'NoOp', 'ArrayToPointerDecay', 'FunctionToPointerDecay', 'LValueBitCast', 'BitCast', 'AtomicToNonAtomic', 'NonAtomicToAtomic'):
            if ck == 'ArrayToPointerDecay':
                if is_leaf(v): return v           # string literal
                if isinstance(v, (LV, CLV)): return IT('arr', v, z3.IntVal(0))
                return v
            if ck == 'BaseToDerived' and isinstance(v, HLV): return HLV(v.id, t if t.k == 'rec' else v.ty)
            if ck in ('DerivedToBase', 'UncheckedDerivedToBase'):
                # keep the more derived static type: members are looked up through the hierarchy
                pass
            return v
        if isinstance(v, (LV, HLV, CLV)): v = s.load(v, st)
        if ck == 'IntegralCast':
            if is_leaf(v) and v.sort() == Bool: return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            src = s.T(e['e']['t'])
            if t.k == 'int' and not t.signed and src.k == 'int' and src.signed:
                sv = simp(v)
                if z3.is_int_value(sv): return sv if sv.as_long() >= 0 else z3.IntVal(sv.as_long() + 2 ** t.bits)
                if s.opt.get('wrap', True) and not s.quick(st, v >= 0, 150):
                    return z3.If(v >= 0, v, v + 2 ** t.bits)
            if t.k == 'int' and t.bits and src.k == 'int' and src.bits and (t.bits < src.bits or (t.bits == src.bits and t.signed and not src.signed)):
                # narrowing is taken as value preserving
                s.assumptions.add('integer conversions preserve the value (container sizes and counters stay below 2^31)')
                if t.signed and not src.signed and z3.is_int_value(simp(v)) and simp(v).as_long() >= 2 ** (t.bits - 1): return z3.IntVal(simp(v).as_long() - 2 ** t.bits)
            return v
        if ck == 'IntegralToFloating':
            if v.sort() == Bool: return z3.If(v, z3.RealVal(1), z3.RealVal(0))
            return z3.ToReal(v)
        if ck == 'FloatingToIntegral':
            v = s.fin(v, st)
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if ck == 'FloatingCast':
            s.assumptions.add('floating-point arithmetic is treated as real arithmetic (rounding, including double to float, is the identity)')
            return v
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'): return s.boolv(v)
        if ck == 'BooleanToSignedIntegral': return z3.If(v, z3.IntVal(-1), z3.IntVal(0))
        if ck == 'NullToPointer': return LP(None, z3.BoolVal(True))
        if ck == 'ToVoid': return UNIT
        if ck == 'UserDefinedConversion': return v
        if ck == 'Dependent': return v
        raise Unsupported('cast %s' % ck)
    def dyncast(s, e, st):
        v = s.rv(e['e'], st)
        t = s.T(e['t'])
        if t.k != 'ptr' or t.e.k != 'rec': raise Unsupported('dynamic_cast')
        if isinstance(v, LP):
            if isinstance(v.lv, HLV): v = HP(v.lv.id, v.lv.ty)
            else: raise Unsupported('dynamic_cast of a local')
        ok = dyntype(v.id) == s.tag(t.e.key)
        return HP(z3.If(z3.And(v.id != 0, ok), v.id, z3.IntVal(0)), t.e)
    def fin(s, v, st, line=0):
        """real value of a possibly extended real: obligation that it is finite"""
        if isinstance(v, XR):
            if not s.quick(st, v.k == 0): s.ob(st, v.k == 0, 'finite value', 'safety', line)
            st.assume(v.k == 0)
            return v.v
        return v
    def ev_un(s, e, st):
        op = e['op']
        if op in ('++', '--'):
            lv = s.lval(e['e'], st)
            old = s.load(lv, st)
            if isinstance(old, IT): new = IT(old.kind, old.lv, old.pos + (1 if op == '++' else -1), old.found)
            else: new = old + 1 if op == '++' else old - 1
            t = s.T(e['e']['t'])
            if t.k == 'int' and not t.signed and op == '--' and not s.quick(st, old >= 1, 150): new = z3.If(old >= 1, old - 1, z3.IntVal(2 ** t.bits - 1))
            s.store(lv, new, st)
            return old if e.get('post') else lv
        if op == '&':
            v = s.ev(e['e'], st)
            if isinstance(v, HLV): return HP(v.id, v.ty)
            if isinstance(v, (LV, CLV)): return LP(v)
            raise Unsupported('address of rvalue')
        if op == '*':
            return s.deref(s.rv(e['e'], st), st, e.get('l'))
        v = s.rv(e['e'], st)
        if op == '!': return z3.Not(s.boolv(v))
        if op == '-':
            if isinstance(v, XR): return XR(-v.v, z3.If(v.k == 1, z3.IntVal(2), z3.If(v.k == 2, z3.IntVal(1), v.k)))
            t = s.T(e['t'])
            if t.k == 'int' and not t.signed: return z3.If(v == 0, v, 2 ** t.bits - v)
            return -v
        if op == '+': return v
        if op == '__extension__': return v
        raise Unsupported('unary %s' % op)

    def arith(s, op, a, b, st, isint, ty=None, line=0):
        if isinstance(a, XR) or isinstance(b, XR):
            a2 = s.xcollapse(a, st); b2 = s.xcollapse(b, st)
            if isinstance(a2, XR) or isinstance(b2, XR): return xr_arith(op, toxr(a2), toxr(b2))
            a, b = a2, b2
        if isinstance(a, IT):
            if isinstance(b, IT): return a.pos - b.pos
            return IT(a.kind, a.lv, a.pos + b if op == '+' else a.pos - b, a.found)
        if is_leaf(a) and is_leaf(b) and a.sort() == Str: raise Unsupported('pointer arithmetic on strings')
        if a.sort() == Bool: a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if b.sort() == Bool: b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if a.sort() == Real or b.sort() == Real: a, b = real(a), real(b)
        if op == '+': return a + b
        if op == '-':
            if isint and ty is not None and ty.k == 'int' and not ty.signed:
                if s.quick(st, a >= b, 150): return a - b
                return z3.If(a >= b, a - b, a - b + 2 ** ty.bits)
            return a - b
        if op == '*': return a * b
        if op == '/':
            if isint:
                s.ob(st, b != 0, 'no division by zero', 'safety', line)
                q = fresh(Int, 'quot')
                return z3.If(b != 0, z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b))), q)
            return s.fdiv(a, b, st)
        if op == '%':
            s.ob(st, b != 0, 'no division by zero', 'safety', line)
            if s.quick(st, z3.And(a >= 0, b > 0)): return a % b
            return z3.If(a >= 0, a % z3.If(b > 0, b, -b), -((-a) % z3.If(b > 0, b, -b)))
        if op in ('&', '|', '^') and isint:
            x, y = simp(a), simp(b)
            if z3.is_int_value(x) and z3.is_int_value(y):
                return z3.IntVal({'&': x.as_long() & y.as_long(), '|': x.as_long() | y.as_long(), '^': x.as_long() ^ y.as_long()}[op])
            return z3.Function('bit' + {'&': 'and', '|': 'or', '^': 'xor'}[op], Int, Int, Int)(a, b)
        if op == '<<' and z3.is_int_value(simp(b)): return a * 2 ** simp(b).as_long()
        if op == '>>' and z3.is_int_value(simp(b)): return a / 2 ** simp(b).as_long()
        raise Unsupported('operator %s' % op)
    def xcollapse(s, a, st):
        if isinstance(a, XR) and s.quick(st, a.k == 0): return a.v
        return a
    def fdiv(s, a, b, st):
        sb = simp(b)
        if z3.is_rational_value(sb):
            if sb.numerator_as_long() != 0: return a / b
        if s.quick(st, b != 0):
            return s.qdiv(a, b, st)
        neg = fresh(Bool, 'negzero')
        k = z3.If(b != 0, z3.IntVal(0), z3.If(a == 0, z3.IntVal(3), z3.If((a > 0) != neg, z3.IntVal(1), z3.IntVal(2))))
        q = fresh(Real, 'quot'); st.assume(z3.Implies(b != 0, q * b == a))
        return XR(q, k)
    def qdiv(s, a, b, st):
        """a/b with b known non-zero: a fresh quotient defined by multiplication (kept syntactically shared)"""
        k = ('q', a.get_id(), b.get_id())
        if k not in s.enums:
            s.enums[k] = (z3.Const(fresh_name('quot'), Real), a, b)
        q = s.enums[k][0]
        st.assume(q * b == a)
        return q
    def compare(s, op, a, b, st):
        if isinstance(a, IT) and isinstance(b, IT): return s.B.it_cmp(s, op, a, b, st)
        if isinstance(a, (HP, LP)) or isinstance(b, (HP, LP)):
            r = ptr_eq(a, b)
            return r if op == '==' else z3.Not(r)
        if isinstance(a, XR) or isinstance(b, XR):
            a2 = s.xcollapse(a, st); b2 = s.xcollapse(b, st)
            if isinstance(a2, XR) or isinstance(b2, XR): return xr_cmp(op, toxr(a2), toxr(b2))
            a, b = a2, b2
        if a.sort() == Bool and b.sort() != Bool: a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if b.sort() == Bool and a.sort() != Bool: b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if a.sort() == Real or b.sort() == Real: a, b = real(a), real(b)
        if op == '==': return a == b
        if op == '!=': return a != b
        if op == '<': return a < b
        if op == '<=': return a <= b
        if op == '>': return a > b
        if op == '>=': return a >= b
        raise Unsupported(op)
    def fork(s, st, c):
        """states in which the boolean c holds / fails (None when impossible syntactically)"""
        c = simp(c) if not has_quant(c) else c
        if z3.is_true(c): return st, None
        if z3.is_false(c): return None, st
        a, b = st.copy(), st.copy()
        a.pc.append(c); b.pc.append(z3.Not(c))
        return a, b
    def ev_bin(s, e, st):
        op = e['op']
        if op == ',':
            s.ev(e['a'], st); return s.ev(e['b'], st)
        if op == '=':
            # C++17: right operand first
            v = s.rv(e['b'], st); lv = s.lval(e['a'], st)
            s.store(lv, s.conv(v, s.T(e['a']['t']), st), st)
            return lv
        if op in ('&&', '||'):
            a = s.boolv(s.rv(e['a'], st))
            base = st.copy()
            t, f = s.fork(st, a)
            run, skip = (t, f) if op == '&&' else (f, t)
            if run is None: return z3.BoolVal(op == '||')
            b = s.boolv(s.rv(e['b'], run))
            if skip is None:
                st.become(run); return b
            if run.cells == skip.cells and len(run.facts) == len(skip.facts):
                st.become(base)
                return z3.And(a, b) if op == '&&' else z3.Or(a, b)
            m, v = s.merge(base, [run, skip], [b, z3.BoolVal(op == '||')])
            st.become(m)
            return v
        a = s.rv(e['a'], st); b = s.rv(e['b'], st)
        if op in ('==', '!=', '<', '<=', '>', '>='): return s.compare(op, a, b, st)
        t = s.T(e['t'])
        return s.arith(op, a, b, st, t.k == 'int', t, e.get('l'))
    def ev_cassign(s, e, st):
        op = e['op'][:-1]
        b = s.rv(e['b'], st)
        lv = s.lval(e['a'], st)
        a = s.load(lv, st); t = s.T(e['a']['t'])
        if t.k == 'bool':
            x, y = a, s.boolv(b)
            if op == '&': r = z3.And(x, y)
            elif op == '|': r = z3.Or(x, y)
            elif op == '^': r = z3.Xor(x, y)
            else: raise Unsupported('bool ' + e['op'])
        else:
            ct = s.T(e.get('ct', e['a']['t']))
            r = s.arith(op, a, b, st, ct.k == 'int', ct, e.get('l'))
            if t.k == 'int' and is_leaf(r) and r.sort() == Real: r = z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
        s.store(lv, r, st)
        return lv
    def ev_cond(s, e, st):
        c = s.boolv(s.rv(e['c'], st))
        base = st.copy()
        t, f = s.fork(st, c)
        if t is None: v = s.ev(e['b'], f); st.become(f); return v
        if f is None: v = s.ev(e['a'], t); st.become(t); return v
        a = s.ev(e['a'], t)
        dead_t = s.dead(t); b = s.ev(e['b'], f); dead_f = s.dead(f)
        if dead_f and not dead_t: st.become(t); return a
        if dead_t and not dead_f: st.become(f); return b
        if e.get('lv') and isinstance(a, (LV, HLV, CLV)) and isinstance(b, (LV, HLV, CLV)): pass
        else:
            if isinstance(a, (LV, HLV, CLV)): a = s.load(a, t)
            if isinstance(b, (LV, HLV, CLV)): b = s.load(b, f)
            if a is UNIT or b is UNIT: a = b = UNIT
            if isinstance(a, LP) and a.lv is None and isinstance(b, HP): a = HP(z3.IntVal(0), b.to)
            if isinstance(b, LP) and b.lv is None and isinstance(a, HP): b = HP(z3.IntVal(0), a.to)
        m, v = s.merge(base, [t, f], [a, b])
        st.become(m)
        return v
    def dead(s, st):
        return any(z3.is_false(x) for x in st.facts[-2:]) or any(z3.is_false(x) for x in st.pc[-2:])
    def kill(s, st): st.facts.append(z3.BoolVal(False))
    def ev_index(s, e, st):
        a = s.ev(e['a'], st); i = s.rv(e['b'], st)
        if isinstance(a, (LV, CLV)):
            v = s.load(a, st)
            if isinstance(v, IT): a = v
            elif isinstance(v, LP): a = IT('arr', v.lv, z3.IntVal(0))
            elif isinstance(v, A): a = IT('arr', a, z3.IntVal(0))
        if isinstance(a, IT): return s.B.elem(s, a.lv, simp(a.pos + i), st, e.get('l'))
        if is_leaf(a) and a.sort() == Str: return z3.StrToCode(z3.SubString(a, i, 1))
        raise Unsupported('subscript')
    def ev_lambda(s, e, st):
        fr = s.fr(); byval = {}
        this = None
        for c in e['caps']:
            if c.get('this'): this = fr.this
            elif c.get('init') is not None:
                byval[c['id']] = s.conv(s.rv(c['init'], st), None, st)
            elif not c.get('ref'):
                x = s.ev_ref({'id': c['id'], 'n': c['n']}, st)
                byval[c['id']] = s.load(x, st) if isinstance(x, (LV, HLV, CLV)) else x
        return FN((fr.tu, e['c']['d']), fr, this, byval)
    def ev_fnref(s, e, st): return OP('fn:' + e['c']['q'])
    def ev_new(s, e, st):
        t = s.T(e['nt'])
        v = s.rv(e['e'], st) if e.get('e') else s.default(t, st)
        if isinstance(v, OP) and v.name not in ('obj',): return LP(s.temp(v, st, 'new'))
        if t.k in ('rec', 'str', 'vec', 'mat', 'real', 'int'):
            if s.opt.get('new_local') or t.k != 'rec': return LP(s.temp(s.conv(v, t, st), st, 'new'))
            id_ = s.newid(st)
            s.tagfacts(st, id_, t)
            s.store(HLV(id_, t), s.conv(v, t, st), st)
            return HP(id_, t)
        return LP(s.temp(v, st, 'new'))
    def newid(s, st):
        """identity of a new object; with an allocation counter, different from every object made before"""
        if 'alloc' in st.cells:
            id_ = st.cells['alloc']; st.cells['alloc'] = id_ + 1; return id_
        id_ = fresh(Int, 'newobj'); st.assume(id_ > 0); return id_
    def tagfacts(s, st, id_, t): st.assume(dyntype(id_) == s.tag(t.key))
    def ev_delete(s, e, st): s.rv(e['e'], st); return UNIT
    def ev_typeid(s, e, st): return OP('typeid')
    def ev_arraycopy(s, e, st): return s.rv(e['e'], st)
    def ev_initlist(s, e, st):
        t = s.T(e['t'])
        if t.k == 'arr':
            l = [s.rv(x, st) for x in e['a']]
            if len(l) == 1 and isinstance(l[0], A) and t.e.k != 'arr': return A([s.conv(x, t.e, st) for x in l[0].v], t.e)   # std::array's inner array
            l = [s.conv(x, t.e, st) for x in l]
            while len(l) < t.n: l.append(s.default(t.e, st, True))
            return A(l, t.e)
        if t.k == 'vec': return A([s.conv(s.rv(x, st), t.e, st) for x in e['a']], t.e)
        if t.k in ('pair', 'tuple'):
            ns = ('first', 'second')
            return R(t, {n: s.conv(s.rv(x, st), a, st) for n, x, a in zip(ns, e['a'], t.args)})
        if t.k == 'rec':
            fs = s.prog.fields(t)
            r = s.member_init(t, st)
            vals = e['a']
            for (n, ft), x in zip(fs, vals): r.f[n] = s.conv(s.rv(x, st), ft, st)
            return r
        if len(e['a']) == 1: return s.conv(s.rv(e['a'][0], st), t, st)
        if not e['a']: return s.default(t, st, True)
        raise Unsupported('initialiser list for %r' % t)

    # ---- construction
    def ev_ctor(s, e, st):
        c = e['c']; t = s.T(e['t'])
        args = e['a']
        if (c.get('copy') or c.get('move')) and len(args) >= 1 and (c.get('defaulted') or not c.get('body')):
            v = s.ev(args[0], st)
            if isinstance(v, (LV, HLV, CLV)): v2 = s.load(v, st)
            else: v2 = v
            if c.get('move') and isinstance(v, LV) and isinstance(v2, HP): s.store(v, HP(z3.IntVal(0), v2.to), st)
            return s.conv(v2, t, st) if t.k not in ('opaque',) else v2
        if t.k == 'rec':
            b = s.B.override(s, e, c, st)
            if b is not None: return b
            con = s.contracts.get('x:' + c['q'])
            if con is not None: return s.call_contract(con, s.proto(c), None, [s.ev(a, st) for a in args], st, e)
            f = s.prog.lookup(c, s.fr().tu)
            if f is not None and f.get('body') is not None:
                vals = [s.ev(a, st) for a in args]
                con = s.contract_for(f)
                if con is not None: return s.call_contract(con, f, None, vals, st, e)
                return s.run_ctor(f, t, vals, st)
            b = s.B.ctor(s, e, c, t, st)
            if b is not None: return b
            if c.get('dflt') or not args: return s.member_init(t, st)
            raise Unsupported('constructor %s' % c['q'])
        con = s.contracts.get('x:' + c['q'])
        if con is not None: return s.call_contract(con, s.proto(c), None, [s.ev(a, st) for a in args], st, e)
        b = s.B.ctor(s, e, c, t, st)
        if b is not None: return b
        raise Unsupported('constructor %s' % c['q'])
    def ev_inhctor(s, e, st): raise Unsupported('inherited constructor')
    def find_ctor(s, ty, vals):
        """overload resolution among the exported constructors of a record, by arity and value shape"""
        best = []
        for f in s.prog.byq.get(ty.q + '::' + ty.q.split('::')[-1], []):
            if not f.get('ctor') or f.get('defaulted') and f.get('body') is None: continue
            if len(f['params']) != len(vals): continue
            pts = [s.prog.ty(f['_tu'], p['t']) for p in f['params']]
            sc = 0
            for p, v in zip(pts, vals):
                q = shape_score(p, v)
                if q is None: sc = None; break
                sc += q
            if sc is not None: best.append((sc, f))
        if not best: return None
        best.sort(key=lambda x: -x[0])
        return best[0][1]
    def construct(s, ty, vals, st):
        """element construction from emplace-style arguments"""
        vs = [s.load(v, st) if isinstance(v, (LV, HLV, CLV)) else v for v in vals]
        if ty.k == 'rec':
            if len(vs) == 1 and isinstance(vs[0], R) and vs[0].ty is not None and vs[0].ty.k == 'rec' and vs[0].ty.q == ty.q: return vs[0]
            f = s.find_ctor(ty, vs)
            if f is None:
                if not vs: return s.member_init(ty, st)
                for b in s.prog.chain(ty)[1:]:      # inherited constructors
                    if s.find_ctor(b, vs) is not None:
                        v = s.construct(b, vals, st); r = s.member_init(ty, st)
                        return R(ty, {**r.f, **v.f})
                raise Unsupported('no constructor for %r' % ty)
            con = s.contract_for(f)
            if con is not None: return s.call_contract(con, f, None, vals, st, {'l': 0})
            return s.run_ctor(f, ty, vals, st)
        if ty.k in ('pair', 'tuple'):
            if len(vs) == 1 and isinstance(vs[0], R): return s.conv(vs[0], ty, st)
            if len(vs) == len(ty.args):
                ns = ('first', 'second') if ty.k == 'pair' else [str(i) for i in range(len(ty.args))]
                return R(ty, {n: s.construct(a, [v], st) for n, a, v in zip(ns, ty.args, vs)})
            if not vs: return s.default(ty, st, True)
        if ty.k == 'mat':
            if len(vs) == 1 and isinstance(vs[0], M): return s.conv(vs[0], ty, st)
            if len(vs) == ty.r * ty.c: return M(ty.r, ty.c, [real(v) for v in vs])
        if not vs: return s.default(ty, st, True)
        if len(vs) == 1: return s.conv(vs[0], ty, st)
        raise Unsupported('construct %r from %d values' % (ty, len(vs)))
    def run_ctor(s, f, ty, vals, st):
        if f.get('body') is None and f.get('defaulted'):
            if vals: return s.conv(vals[0], ty, st)
            return s.member_init(ty, st)
        cell = LV(('obj', fresh_name('obj')))
        st.cells[cell.cell] = R(ty, {n: s.uninit(t) for n, t in s.prog.fields(ty)})
        s.invoke(f, cell, vals, st, ctor_ty=ty)
        v = s.load(cell, st)
        del st.cells[cell.cell]
        return v
    def uninit(s, t):
        try: return s.mk(t, 'uninit')
        except Unsupported: return UNIT

    # ---- calls
    def contract_for(s, f):
        c = s.contracts.get(f['m'])
        if c is None:
            for k in s.contracts.get('q:' + f['q'], []):
                if k.matches(f): c = k; break
        return c
    def ev_call(s, e, st):
        c = e.get('c')
        if c is None: raise Unsupported('indirect call')
        f = s.prog.lookup(c, s.fr().tu)
        if f is not None and f.get('body') is not None:
            b = s.B.override(s, e, c, st)
            if b is not None: return b
            vals = [s.ev(a, st) for a in e['a']]
            return s.docall(f, None, vals, st, e)
        con = s.contracts.get('x:' + c['q'])
        if con is not None: return s.call_contract(con, s.proto(c), None, [s.ev(a, st) for a in e['a']], st, e)
        return s.B.call(s, e, c, st)
    def ev_mcall(s, e, st):
        c = e['c']
        con = (s.contracts.get('v:' + c['q']) if c.get('virt') else None) or s.contracts.get('x:' + c['q'])
        f = s.prog.lookup(c, s.fr().tu)
        if (f is not None and f.get('body') is not None) or con is not None:
            o = s.ev(e['obj'], st)
            if e.get('arrow'):
                if isinstance(o, (LV, HLV, CLV)): o = s.load(o, st)
                o = s.deref(o, st, e.get('l'))
            elif not isinstance(o, (LV, HLV, CLV)): o = s.temp(o, st)
            b = s.B.override(s, e, c, st, o)
            if b is not None: return b
            vals = [s.ev(a, st) for a in e['a']]
            if con is not None and not e.get('qualcall'): return s.call_contract(con, f or s.proto(c), o, vals, st, e)
            if c.get('virt') and not e.get('qualcall'):
                f = s.devirtualise(f, o, st)
            return s.docall(f, o, vals, st, e)
        if c.get('virt'):
            b = s.B.mcall(s, e, c, st, allow_none=True)
            if b is not None: return b
            raise Unsupported('virtual call %s' % c['q'])
        return s.B.mcall(s, e, c, st)
    def proto(s, c):
        """a function known by its declaration only"""
        return {'q': c['q'], 'params': [{'n': 'a%d' % i, 't': p} for i, p in enumerate(c['pt'])], 'rt': c['rt'], '_tu': s.fr().tu, 'm': c['m']}
    def devirtualise(s, f, o, st):
        if isinstance(o, HLV):
            raise Unsupported('virtual call %s without a contract' % f['q'])
        return f
    def ev_opcall(s, e, st):
        c = e['c']
        if c.get('lambda'):
            fn = s.rv(e['a'][0], st)
            vals = [s.ev(a, st) for a in e['a'][1:]]
            return s.call_fn(fn, vals, st)
        con = s.contracts.get('v:' + c['q']) if c.get('virt') else None
        f = s.prog.lookup(c, s.fr().tu)
        if con is not None or (f is not None and f.get('body') is not None):
            vals = [s.ev(a, st) for a in e['a']]
            ismember = f is not None and 'cls' in f and not f.get('static') or con is not None
            if ismember:
                o = vals[0]
                if not isinstance(o, (LV, HLV, CLV)): o = s.temp(o, st)
                if con is not None: return s.call_contract(con, f or s.proto(c), o, vals[1:], st, e)
                return s.docall(f, o, vals[1:], st, e)
            return s.docall(f, None, vals, st, e)
        return s.B.opcall(s, e, c, st)
    def call_fn(s, fn, vals, st):
        if isinstance(fn, OP) and fn.name.startswith('fn:'):
            for f in s.prog.byq.get(fn.name[3:], []): return s.invoke(f, None, vals, st)
        if isinstance(fn, OP) and fn.name.startswith('functor:'):
            for f in s.prog.byq.get(fn.name[8:] + '::operator()', []): return s.invoke(f, s.temp(UNIT, st), vals, st)
        if isinstance(fn, R) and fn.ty is not None and fn.ty.k == 'rec':
            for f in s.prog.byq.get(fn.ty.q + '::operator()', []): return s.invoke(f, s.temp(fn, st), vals, st)
        if not isinstance(fn, FN): raise Unsupported('call of a non-lambda object')
        f = s.prog.fns.get(fn.m)
        if f is None: raise Unsupported('lambda body')
        return s.invoke(f, fn.this, vals, st, closure=fn)
    def docall(s, f, this, vals, st, e):
        con = s.contract_for(f)
        if con is not None: return s.call_contract(con, f, this, vals, st, e)
        return s.invoke(f, this, vals, st)
    def invoke(s, f, this, vals, st, closure=None, ctor_ty=None):
        """inline execution of a function body"""
        d = len(s.frames)
        if d > MAXDEPTH or sum(1 for x in s.frames if x.fn is f) > 1: raise Unsupported('recursion through %s' % f['q'])
        if not f.get('lambda') and s.cur is not None and f is not s.cur_fn: s.inlined.add(f['q'])
        fr = Frame(f, f['_tu'], this, d)
        if closure is not None:
            fr.parent = closure.caps
            for i, v in closure.byval.items(): fr.env[i] = s.temp(v, st, 'cap')
        s.bind(fr, f, vals, st)
        s.frames.append(fr)
        try:
            base = st.copy()
            if ctor_ty is not None: s.run_inits(f, this, ctor_ty, st)
            end = s.body(f, st)
            rets = list(fr.returns)
            if end is not None: rets.append((end, UNIT))
            rets = [(t, v) for t, v in rets if not s.dead(t)] or rets[:1]
            if not rets:
                s.kill(st); return UNIT
            m, v = s.merge(base, [t for t, _ in rets], [v for _, v in rets])
            st.become(m)
            return v
        finally:
            s.frames.pop()
    def body(s, f, st):
        if f.get('body') is None: return st
        return s.ex(f['body'], st)
    def bind(s, fr, f, vals, st):
        for p, v in zip(f['params'], vals):
            t = s.prog.ty(f['_tu'], p['t'])
            if t.k == 'ref':
                if not isinstance(v, (LV, HLV, CLV)):
                    v = s.temp(s.conv(v, t.e, st), st, p['n'] or 'arg')
                fr.env[p['id']] = v
            else:
                w = s.load(v, st) if isinstance(v, (LV, HLV, CLV)) else v
                cell = ('v', fr.uid, p['id'])
                st.cells[cell] = s.conv(w, t, st)
                if t.k == 'uptr' and isinstance(v, LV): pass
                fr.env[p['id']] = LV(cell)
            if p['n']: fr.names[p['n']] = p['id']
    def run_inits(s, f, this, ty, st):
        for i in f.get('inits', []):
            if 'n' in i:
                t = s.prog.ty(f['_tu'], i['t'])
                lv = s.member_of(this, i['n'], None, st)
                s.store(lv, s.conv(s.rv(i['e'], st), t, st), st)
            elif i.get('deleg'):
                s.store(this, s.rv(i['e'], st), st)
            elif 'base' in i:
                bt = s.prog.ty(f['_tu'], i['base'])
                if bt.k != 'rec': continue
                if i['e'].get('k') == 'inhctor':      # forwards the parameters
                    g = s.prog.lookup(i['e']['c'], f['_tu'])
                    if g is None: raise Unsupported('inherited constructor')
                    v = s.run_ctor(g, bt, [s.fr().env[p['id']] for p in f['params']], st)
                else: v = s.rv(i['e'], st)
                cur = s.load(this, st)
                if isinstance(v, R): s.store(this, R(cur.ty, {**cur.f, **v.f}), st)

    # ---- contract use at a call
    def call_contract(s, con, f, this, vals, st, e):
        s.used.add(con.key)
        view = View(s, f, this, vals, st, None)
        view.con = con
        if con.prepare: con.prepare(view)
        s.in_spec = True
        view.old = st.copy()
        for n, g in norm_specs(con.requires(view) if con.requires else []):
            s.ob(st, g, 'precondition of %s: %s' % (con.short, n), 'pre', e.get('l', 0) if e else 0)
        # frame: only the declared places change
        for pl in con.modifies(view) if con.modifies else []:
            if isinstance(pl, str): pl = view.place(pl)
            if pl is None: continue
            cur = s.load(pl, st)
            s.store(pl, s.fresh_like(cur, 'mod'), st)
            s.type_facts(s.load(pl, st), st)
        rt = s.prog.ty(f['_tu'], f['rt'])
        if f.get('ctor'): rt = s.prog.ty(f['_tu'], f['clst'])
        ret = UNIT
        if con.result is not None: view.new = st; ret = con.result(view)
        elif rt.k == 'ref': raise Unsupported('contract with reference result')
        elif rt.k != 'void':
            fs = []
            ret = s.mk(rt, con.short.split('::')[-1] + '.ret', facts=fs)
            st.assume(*[x for x in fs if not isinstance(x, tuple)])
        view.new = st; view.ret = ret
        for n, g in norm_specs(con.ensures(view)): st.assume(g)
        if con.assumes:
            for n, g in norm_specs(con.assumes(view)): st.assume(g)
        return ret
    def type_facts(s, v, st):
        if isinstance(v, V):
            if z3.is_int(v.n): st.assume(v.n >= 0)
            elif z3.is_array(v.n) and v.n.range() == Int:      # one vector per heap object
                i = fresh(v.n.domain(), 'obj'); st.assume(z3.ForAll([i], z3.Select(v.n, i) >= 0, patterns=[z3.Select(v.n, i)]))
        if isinstance(v, R):
            for x in v.f.values(): s.type_facts(x, st)

    # ---- statements: return the fall-through state or None
    def ex(s, n, st):
        if n is None or st is None: return st
        k = n['k']
        m = getattr(s, 'ex_' + k, None)
        if m is None: raise Unsupported('statement %s (line %s)' % (n.get('c', k), n.get('l')))
        return m(n, st)
    def ex_block(s, n, st):
        for x in n['b']:
            if st is None: return None
            st = s.ex(x, st)
        return st
    def ex_null(s, n, st): return st
    def ex_expr(s, n, st):
        s.ev(n['e'], st)
        return None if s.dead(st) else st
    def ex_decl(s, n, st):
        for d in n['d']: s.declare(d, st)
        return st
    def declare(s, d, st, val=None):
        fr = s.fr(); t = s.T(d['t'])
        fr.names[d['n']] = d['id']
        if t.k == 'ref':
            v = val if val is not None else s.ev(d['init'], st)
            if isinstance(v, (LV, HLV, CLV)): fr.env[d['id']] = v
            else:
                cell = ('v', fr.uid, d['id'])
                st.cells[cell] = s.conv(v, t.e, st) if t.e.k not in ('opaque', 'lambda') else v
                fr.env[d['id']] = LV(cell)
        else:
            if val is not None: v = s.load(val, st) if isinstance(val, (LV, HLV, CLV)) else val
            elif d.get('init') is None: v = s.default(t, st)
            else: v = s.rv(d['init'], st)
            if v is UNIT and t.k in ('ptr',): v = LP(None, z3.BoolVal(True))
            if t.k not in ('opaque', 'lambda'): v = s.conv(v, t, st)
            cell = ('v', fr.uid, d['id'])
            st.cells[cell] = v
            fr.env[d['id']] = LV(cell)
        for i, b in enumerate(d.get('bindings', [])):
            base = fr.env[d['id']]
            v = s.load(base, st)
            if isinstance(v, R) and v.ty is not None and v.ty.k in ('pair', 'tuple'):
                nm = (('first', 'second') if v.ty.k == 'pair' else [str(j) for j in range(9)])[i]
                lv = s.member_of(base, nm, None, st)
            elif isinstance(v, R):
                nm = [x for x, _ in s.prog.fields(v.ty)][i]; lv = s.member_of(base, nm, None, st)
            elif isinstance(v, A): lv = base.f(('i', z3.IntVal(i)))
            else: raise Unsupported('structured binding')
            fr.env[b['id']] = lv; fr.names[b['n']] = b['id']
            if b.get('hv'): fr.env[b['hv']['id']] = lv
    def cond_decl(s, n, st):
        if n.get('init'): st = s.ex(n['init'], st)
        if n.get('var'): st = s.ex(n['var'], st)
        return st
    def ex_if(s, n, st):
        st = s.cond_decl(n, st)
        c = s.boolv(s.rv(n['c'], st))
        base = st.copy()
        t, f = s.fork(st, c)
        if t is None: return s.ex(n['else'], f)
        if f is None: return s.ex(n['then'], t)
        a = s.ex(n['then'], t)
        b = s.ex(n['else'], f)
        if a is None: return b
        if b is None: return a
        m, _ = s.merge(base, [a, b])
        return m
    def ex_return(s, n, st):
        fr = s.fr(); rt = s.prog.ty(fr.tu, fr.fn['rt']) if 'rt' in fr.fn else TVOID
        v = UNIT
        if n.get('e') is not None:
            v = s.ev(n['e'], st)
            if rt.k != 'ref':
                if isinstance(v, (LV, HLV, CLV)): v = s.load(v, st)
                if rt.k not in ('opaque', 'lambda'): v = s.conv(v, rt, st)
            elif not isinstance(v, (LV, HLV, CLV)): v = s.temp(v, st)
        fr.returns.append((st, v))
        return None
    def ex_break(s, n, st):
        s.fr().loops[-1]['brk'].append(st); return None
    def ex_continue(s, n, st):
        for l in reversed(s.fr().loops):
            if l['kind'] == 'loop': l['cont'].append(st); return None
        raise Unsupported('continue')
    def ex_switch(s, n, st):
        st = s.cond_decl(n, st)
        v = s.rv(n['c'], st)
        items = n['body']['b'] if n['body']['k'] == 'block' else [n['body']]
        # flatten labels
        seq = []
        def flat(x):
            labs = []
            while x is not None and x['k'] in ('case', 'default'):
                labs.append(x); x = x['s']
            seq.append((labs, x))
        for x in items: flat(x)
        cases = []
        for labs, _ in seq:
            for l in labs:
                if l['k'] == 'case': cases.append(simp(s.rv(l['v'], st)))
        base = st.copy()
        brk = {'kind': 'switch', 'brk': [], 'cont': None}
        s.fr().loops.append(brk)
        cur = None; hasdef = False
        for labs, body in seq:
            entry = []
            for l in labs:
                if l['k'] == 'case': entry.append(v == s.rv(l['v'], st))
                else:
                    hasdef = True
                    entry.append(z3.And([v != c for c in cases] or [z3.BoolVal(True)]))
            if entry:
                c = z3.Or(entry) if len(entry) > 1 else entry[0]
                t = base.copy(); t.pc.append(c)
                if cur is not None: cur, _ = s.merge(base, [cur, t])
                else: cur = t
            if cur is not None: cur = s.ex(body, cur)
        s.fr().loops.pop()
        outs = list(brk['brk'])
        if cur is not None: outs.append(cur)
        if not hasdef:
            t = base.copy(); t.pc.append(z3.And([v != c for c in cases] or [z3.BoolVal(True)])); outs.append(t)
        if not outs: return None
        m, _ = s.merge(base, outs)
        return m

    # ---- loops
    def ex_for(s, n, st):
        if n.get('init'): st = s.ex(n['init'], st)
        if st is None: return None
        def cond(t):
            if n.get('var'): t2 = s.ex(n['var'], t)
            return s.boolv(s.rv(n['c'], t)) if n.get('c') else z3.BoolVal(True)
        def inc(t):
            if n.get('inc'): s.ev(n['inc'], t)
        return s.loop(n, st, cond, n['body'], inc)
    def ex_while(s, n, st):
        def cond(t):
            if n.get('var'): s.ex(n['var'], t)
            return s.boolv(s.rv(n['c'], t))
        return s.loop(n, st, cond, n['body'], lambda t: None)
    def ex_do(s, n, st):
        c = n.get('c') or {}
        if not (c.get('k') == 'bool' and not c.get('v') or c.get('k') == 'cast' and c['e'].get('k') == 'int' and str(c['e'].get('v')) == '0' or c.get('k') == 'int' and str(c.get('v')) == '0') or any('"k": "%s"' % k in json.dumps(n['body']) for k in ('break', 'continue')): raise Unsupported('do loop')
        return s.ex(n['body'], st)      # do { ... } while (0)
    def ex_range(s, n, st):
        if n.get('init'): st = s.ex(n['init'], st)
        c = s.ev(n['range'], st)
        byref = s.T(n['v']['t']).k == 'ref'
        if not isinstance(c, (LV, HLV, CLV)): c = s.temp(c, st, 'range')
        v = s.load(c, st)
        if isinstance(v, OP): v = s.B.as_range(s, v, st); c = s.temp(v, st, 'range')
        if isinstance(v, A):
            brks = []
            base = st.copy()
            for i in range(len(v.v)):
                lp = {'kind': 'loop', 'brk': [], 'cont': []}
                s.fr().loops.append(lp)
                el = c.f(('i', z3.IntVal(i))) if isinstance(c, LV) else (CLV(c.c, c.a.f(('i', z3.IntVal(i))), c.b.f(('i', z3.IntVal(i)))))
                s.declare(n['v'], st, el)
                b0 = st.copy()
                out = s.ex(n['body'], st)
                s.fr().loops.pop()
                ends = lp['cont'] + ([out] if out is not None else [])
                brks += lp['brk']
                if not ends: st = None; break
                st, _ = s.merge(b0, ends)
            outs = brks + ([st] if st is not None else [])
            if not outs: return None
            return s.merge(base, outs)[0] if len(outs) > 1 else outs[0]
        kcell = ('k', fresh_name('k'))
        if isinstance(v, V) or (is_leaf(v) and v.sort() == Str):
            n_ = lambda t: (s.load(c, t).n if isinstance(v, V) else z3.Length(s.load(c, t)))
            def bind(t, k):
                if isinstance(v, V): s.declare(n['v'], t, c.f(('i', k)) if isinstance(c, LV) else s.idx_lv(c, k))
                else: s.declare(n['v'], t, z3.StrToCode(z3.SubString(s.load(c, t), k, 1)))
            coll = c
        elif isinstance(v, (St, Mp)):
            ks, cnt = s.enum(v, st)
            n_ = lambda t: cnt
            def bind(t, k):
                key = z3.Select(ks, k)
                kd = key_dec(v.kty, key)
                if isinstance(v, Mp):
                    pt = Ty('pair', args=[v.kty, v.vty], q='std::pair')
                    if isinstance(c, LV): s.declare(n['v'], t, PLV(kd, c.f(('k', key)), pt))
                    else: s.declare(n['v'], t, s.temp(R(pt, {'first': kd, 'second': select(v.val, key)}), t, 'mapel'))
                else: s.declare(n['v'], t, s.temp(kd, t, 'setel'))
            coll = ('enum', ks, cnt, v)
        else: raise Unsupported('range-for over %s' % type(v).__name__)
        st.cells[kcell] = z3.IntVal(0)
        def cond(t): return t.cells[kcell] < n_(t)
        def pre(t): bind(t, t.cells[kcell])
        def inc(t): t.cells[kcell] = t.cells[kcell] + 1
        return s.loop(n, st, cond, n['body'], inc, pre=pre, coll=coll, nfn=n_)
    def idx_lv(s, c, k):
        if isinstance(c, CLV): return CLV(c.c, s.idx_lv(c.a, k), s.idx_lv(c.b, k))
        return c.f(('i', k))
    def enum(s, v, st):
        """an enumeration (without repetition) of the keys of a set or map value"""
        kk = ('enum', v.has.get_id())
        if kk not in s.enums:
            ks_ = key_sort(v.kty)
            arr = fresh(z3.ArraySort(Int, ks_), 'enum'); cnt = fresh(Int, 'card')
            idx = z3.Function(fresh_name('idx'), ks_, Int)
            i, j = z3.Ints('i! j!'); q = z3.Const('q!', ks_)
            fs = [cnt >= 0, cnt < 2 ** 31,
                  z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < cnt), z3.And(z3.Select(v.has, z3.Select(arr, i)), idx(z3.Select(arr, i)) == i)), patterns=[z3.Select(arr, i)]),
                  z3.ForAll([q], z3.Implies(z3.Select(v.has, q), z3.And(0 <= idx(q), idx(q) < cnt, z3.Select(arr, idx(q)) == q)), patterns=[z3.Select(v.has, q)])]
            s.enums[kk] = (arr, cnt, fs, v.has)
        arr, cnt, fs, _ = s.enums[kk]
        have = set(f.get_id() for f in st.facts)
        for f in fs:
            if f.get_id() not in have: st.facts.append(f)
        return arr, cnt

    def run_body(s, st, body, inc, pre):
        """one iteration; returns (back-edge states, break states)"""
        lp = {'kind': 'loop', 'brk': [], 'cont': []}
        s.fr().loops.append(lp)
        if pre: pre(st)
        out = s.ex(body, st)
        s.fr().loops.pop()
        ends = lp['cont'] + ([out] if out is not None else [])
        ends = [t for t in ends if not s.dead(t)]
        for t in ends: inc(t)
        return ends, lp['brk']

    def name_lambda(s, x, st):
        if not (z3.is_quantifier(x) and x.is_lambda()): return x
        a, i = z3.Const(fresh_name('ghost'), x.sort()), fresh(Int, 'i')
        st.assume(z3.ForAll([i], z3.Select(a, i) == z3.simplify(z3.Select(x, i)), patterns=[z3.Select(a, i)]))
        return a

    def loop(s, n, st, cond, body, inc, pre=None, coll=None, nfn=None):
        # 1. concrete unrolling
        r = s.try_unroll(n, st, cond, body, inc, pre)
        if r is not False: return r
        # 2. cut at an invariant
        fr = s.fr()
        ls = s.loop_spec(n, {}, fr)
        spec = ls['inv'] if ls is not None else None
        L0 = lambda t, k: LoopView(s, fr, t, k, t, coll, nfn, W)
        W = {}
        if ls is not None and 'enter' in ls: s.spec_eval(lambda L: ls['enter'](L, st), L0(st, z3.IntVal(0)))
        if ls is not None and 'lemmas' in ls:
            # cut: prove these facts here, continue with them; 'forget' drops the quantified facts they summarise
            lem = s.aux(s.spec_eval(ls['lemmas'], L0(st, z3.IntVal(0))))
            done = []
            for nm, g in lem:
                t = st.copy(); t.facts += done
                if not nm.startswith('use: '): s.ob(t, g, 'holds before the loop: %s' % nm, 'cut', n.get('l', 0))
                done.append(g)
            if ls.get('forget'):
                keep = set(x.get_id() for x in s.pre_facts)
                st.facts = [x for x in st.facts if x.get_id() in keep or not has_quant(x)]
            st.facts += done
        ghosts = (ls or {}).get('ghost', {})
        for g, (gi, gu) in ghosts.items(): st.cells[('gh', g)] = s.spec_eval(gi, L0(st, z3.IntVal(0)))
        if ls is not None: s.name_state(st)
        entry = st.copy()
        def step_ghosts(base, ends, k):
            for t in ends:
                s.opt['ghosts before'] = {g: t.cells.get(('gh', g)) for g in ghosts}
                for g, (gi, gu) in ghosts.items():
                    LB, LA = LoopView(s, fr, base, k, entry, coll, nfn, W), LoopView(s, fr, t, k + 1, entry, coll, nfn, W)
                    try: t.cells[('gh', g)] = s.name_lambda(gu(LB, LA), t)
                    except (KeyError, AttributeError, IndexError, TypeError, z3.Z3Exception) as e: raise SpecMismatch('ghost update does not fit the code: %r' % (e,))
        mark = s.mark()
        s.dry += 1
        try:
            for _ in range(8):
                h = s.havoc(entry, W)
                h1 = h.copy()            # the condition may change the state
                c = cond(h1)
                t, f = s.fork(h1, c)
                cellsets = []
                if f is not None: cellsets.append(f)
                ends = []
                if t is not None:
                    base = t.copy()
                    ends, brks = s.run_body(t, body, inc, pre)
                    step_ghosts(base, ends, z3.IntVal(0))
                    cellsets += ends + brks
                rets = s.since(mark)
                W2 = {k: set(x) for k, x in W.items()}
                for t in cellsets + rets: s.diff(h if False else entry if not W else h, t, W2, entry)
                if W2 == W: break
                W = W2
            else: raise Unsupported('loop write set does not stabilise')
        finally:
            s.dry -= 1
            s.restore(mark)
        # closed forms of linear counters
        kvar = fresh(Int, 'k')
        closed = {}
        for cell, idxs in W.items():
            for i in idxs:
                x0 = leaves(s.getcell(h, cell))[i]
                if x0.sort() != Int: continue
                step = None
                for t in ends:
                    x1 = leaves(s.getcell(t, cell))[i]
                    d = simp(x1 - x0)
                    if not z3.is_int_value(d) or (step is not None and step != d.as_long()): step = None; break
                    step = d.as_long()
                if step is not None and ends:
                    closed[(cell, i)] = (leaves(s.getcell(entry, cell))[i], step)
        head = [None]
        def L(t, k):
            v = LoopView(s, fr, t, k, entry, coll, nfn, W); v.condfn = cond; v.head_st = head[0]; return v
        k0 = z3.IntVal(0)
        if spec is not None:
            s.name_state(entry)
            for nm, g in s.aux(s.spec_eval(spec, L(entry, k0))):
                if nm.startswith('use: '): entry.facts.append(g)
                else: s.ob(entry, g, 'loop invariant holds initially: %s' % nm, 'inv-init', n.get('l', 0))
        hd = s.havoc(entry, W, closed, kvar)
        hd.assume(kvar >= 0)
        if spec is not None:
            for nm, g in s.aux(s.spec_eval(spec, L(hd, kvar))): hd.assume(g)
            if 'assume' in ls:
                for g in s.spec_eval(ls['assume'], L(hd, kvar)): hd.assume(g)
        pre_c = hd.copy(); head[0] = pre_c
        c = cond(hd)
        # the condition held in the previous iteration (when it is a pure function of the counter)
        hv = set(v.get_id() for cell, idxs in W.items() for i in idxs if (cell, i) not in closed for v in [leaves(s.getcell(pre_c, cell))[i]])
        if hd.cells == pre_c.cells and not (consts_of(c) & hv) and not has_quant(c):
            hd.assume(z3.Implies(kvar > 0, z3.substitute(c, (kvar, kvar - 1))))
        if hd.cells == pre_c.cells: s.ne_bound(hd, pre_c, entry, c, closed, hv, kvar)
        if nfn is not None:
            nn = nfn(hd)
            hd.assume(kvar <= nn) if z3.is_expr(nn) else None
        t, f = s.fork(hd, c)
        exits = []
        if f is not None: exits.append(f)
        if t is not None:
            if ls is not None and 'body' in ls:
                for nm, g in s.aux(s.spec_eval(ls['body'], L(t, kvar))):
                    if not nm.startswith('use: '): s.ob(t, g, 'at the start of the loop body: %s' % nm, 'cut', n.get('l', 0))
                    t.facts.append(g)
            base = t.copy()
            ends, brks = s.run_body(t, body, inc, pre)
            step_ghosts(base, ends, kvar)
            if spec is not None:
                for t2 in ends:
                    s.name_state(t2)
                    if 'steps' in ls:
                        try: extra = s.aux(ls['steps'](L(t2, kvar)))
                        except (KeyError, Unsupported) as e:
                            extra = []
                            if os.environ.get("VERIF_DEBUG"): print("steps skipped:", repr(e))
                        for nm, g in extra:
                            if not nm.startswith('use: '): s.ob(t2, g, 'at the end of the loop body: %s' % nm, 'cut', n.get('l', 0))
                            t2.facts.append(g)
                    for nm, g in s.aux(s.spec_eval(spec, L(t2, kvar + 1))):
                        if nm.startswith('use: '): t2.facts.append(g)
                        else: s.ob(t2, g, 'loop invariant is preserved: %s' % nm, 'inv-step', n.get('l', 0))
            exits += brks
        exits = [x for x in exits if not s.dead(x)]
        if not exits: return None
        if len(exits) == 1:
            return exits[0]
        return s.merge(hd_base(hd, exits), exits)[0]

    def ne_bound(s, hd, pre_c, entry, c, closed, hv, kvar):
        """a loop that runs while counter != bound, in steps of one towards a bound that does not change, never passes it"""
        for x in (c.children() if z3.is_and(c) else [c]):
            if z3.is_not(x) and z3.is_eq(x.arg(0)): a, b = x.arg(0).children()
            elif z3.is_distinct(x) and x.num_args() == 2: a, b = x.children()
            else: continue
            if a.sort() != Int or has_quant(x) or (consts_of(x) & hv): continue
            d = simp(a - b); step = simp(z3.substitute(d, (kvar, kvar + 1)) - d)
            if not z3.is_int_value(step) or abs(step.as_long()) != 1: continue
            d0 = z3.substitute(d, (kvar, z3.IntVal(0)))
            hd.assume(z3.Implies(d0 <= 0, d <= 0) if step.as_long() == 1 else z3.Implies(d0 >= 0, d >= 0))

    def spec_eval(s, spec, L):
        try: return spec(L)
        except (KeyError, AttributeError, IndexError, TypeError, z3.Z3Exception) as e:
            raise SpecMismatch('loop invariant does not fit the code: %r' % (e,))
    def loop_spec(s, n, W, fr):
        con = s.cur
        if con is None or not con.loops: return None
        key = id(n)
        if key not in s.loopmap:
            # loops of the function under contract and of the helpers inlined into it, in order of first encounter
            used = set(s.loopmap.values())
            cands = []
            for i, l in enumerate(con.loops):
                if i in used and not l.get('multi'): continue
                m = l.get('match')
                if m is None: cands.append(i); continue
                try:
                    if m(LoopMatch(s, fr, n, W)): cands.insert(0, i); break
                except Exception: pass
            enc = len(s.loopmap)
            s.loopmap[key] = s.plan[enc] if s.plan is not None and enc < len(s.plan) else cands[0] if cands else None
        i = s.loopmap[key]
        return con.loops[i] if i is not None else None

    def mark(s): return [(f, len(f.returns), [ (len(l['brk']), len(l['cont']) if l['cont'] is not None else 0) for l in f.loops]) for f in s.frames]
    def since(s, mark):
        out = []
        for f, n, ls in mark:
            out += [t for t, _ in f.returns[n:]]
        return out
    def restore(s, mark):
        for f, n, ls in mark:
            del f.returns[n:]
            for l, (b, c) in zip(f.loops, ls):
                del l['brk'][b:]
                if l['cont'] is not None: del l['cont'][c:]
    def havoc(s, entry, W, closed=None, k=None):
        h = entry.copy()
        for cell, idxs in W.items():
            v = s.getcell(entry, cell)
            ctr = [0]
            def rep(x):
                i = ctr[0]; ctr[0] += 1
                return x
            ls = leaves(v)
            new = {}
            for i in idxs:
                if closed and (cell, i) in closed:
                    b, stp = closed[(cell, i)]
                    new[i] = simp(b + stp * k)
                else:
                    new[i] = fresh(ls[i].sort(), 'h')
            h.cells[cell] = replace_leaves(v, new)
            s.type_facts(h.cells[cell], h)
        return h
    def diff(s, h, t, W, entry):
        for cell, v in t.cells.items():
            if cell not in entry.cells:
                if isinstance(cell, str) and cell.startswith('heap:'): old = s.getcell(h, cell)
                else: continue
            else: old = h.cells[cell]
            if v is old: continue
            a, b = leaves(old), leaves(v)
            if len(a) != len(b):
                # the value's shape changed (e.g. a real became an extended real)
                raise Unsupported('loop changes the shape of a variable')
            for i, (x, y) in enumerate(zip(a, b)):
                if not x.eq(y): W.setdefault(cell, set()).add(i)
    def try_unroll(s, n, st, cond, body, inc, pre):
        mark = s.mark(); nobs = len(s.obs)
        t = st.copy(); brks = []
        lm = dict(s.loopmap)
        base = st.copy()
        for it in range(13):
            if t is None: break
            c = cond(t)
            c = simp(c) if not has_quant(c) else c
            if z3.is_false(c): break
            if not z3.is_true(c) or it == 12:
                s.restore(mark); del s.obs[nobs:]; s.loopmap = lm
                return False
            b0 = t.copy()
            ends, bk = s.run_body(t, body, inc, pre)
            brks += bk
            if not ends: t = None; break
            t = s.merge(b0, ends)[0] if len(ends) > 1 else ends[0]
        outs = brks + ([t] if t is not None else [])
        if not outs: return None
        if len(outs) == 1: return outs[0]
        return s.merge(base, outs)[0]

    # ---- verification of one function against its contract
    def verify(s, con):
        f = con.find(s.prog)
        if f is None: raise SpecMismatch('%s is not defined any more' % con.q)
        s.cur = con; s.cur_fn = f; s.loopmap = {}; s.owner = con.short
        s.strmode = con.strmode; s.opt = dict(con.opt)
        st = State()
        this = None
        facts = []
        if 'cls' in f and not f.get('static') and not f.get('lambda'):
            ct = s.prog.ty(f['_tu'], f['clst'])
            if f.get('ctor'):
                this = LV('this'); st.cells['this'] = R(ct, {n: s.uninit(t) for n, t in s.prog.fields(ct)})
            elif con.heap_this:
                id_ = fresh(Int, 'this'); facts.append(id_ > 0); this = HLV(id_, ct)
            else:
                this = LV('this'); st.cells['this'] = s.mk(ct, 'this', facts=facts)
        vals = []
        for i, p in enumerate(f['params']):
            t = s.prog.ty(f['_tu'], p['t']); nm = p['n'] or 'arg%d' % i
            if t.k == 'ref':
                if t.e.k == 'rec' and con.heap_params and i in con.heap_params:
                    id_ = fresh(Int, nm); facts.append(id_ > 0); vals.append(HLV(id_, t.e)); continue
                c = 'p:%d' % i
                st.cells[c] = s.mk(t.e, nm, facts=facts); vals.append(LV(c))
            elif t.k == 'ptr' and not (t.e.k == 'rec' and i in (con.heap_params or ())) :
                c = 'p:%d' % i
                st.cells[c] = s.mk(t.e, nm, facts=facts); vals.append(LP(LV(c)))
            else:
                vals.append(s.mk(t, nm, facts=facts))
        st.facts += [x for x in facts if not isinstance(x, tuple)]
        view = View(s, f, this, vals, st, None); view.con = con
        if con.setup: con.setup(view, st)
        view.old = st.copy(); view.new = st
        s.entry = view
        s.name_state(st)
        for nm, g in norm_specs(con.requires(view) if con.requires else []): st.assume(g)
        s.pre_facts = list(st.facts)
        view.old = st.copy()
        fr = Frame(f, f['_tu'], this, 0)
        s.bind(fr, f, vals, st)
        s.frames.append(fr)
        if f.get('ctor'): s.run_inits(f, this, s.prog.ty(f['_tu'], f['clst']), st)
        end = s.body(f, st)
        rets = list(fr.returns)
        if end is not None: rets.append((end, UNIT))
        s.frames.pop()
        if not rets: raise SpecMismatch('%s has no reachable exit' % con.q)
        s.exits = rets
        for j, (t, v) in enumerate(rets):
            if not s.dead(t):
                s.name_state(t)
                if not isinstance(v, (LV, HLV, CLV)): v = s.name_arrays(t, v)
            vw = View(s, f, this, vals, view.old, t); vw.con = con; vw.ret = v if not f.get('ctor') else s.load(this, t)
            vw.exit = j
            try: posts = norm_specs(con.ensures(vw))
            except (KeyError, AttributeError, IndexError, TypeError, z3.Z3Exception) as e:
                raise SpecMismatch('postcondition does not fit the code: %r' % (e,))
            for nm, g in posts:
                if nm.startswith('step: ') and nm in s.drop: continue
                if not nm.startswith('use: '): s.ob(t, g, 'postcondition: %s' % nm, 'post', 0)
                if nm.startswith(('step: ', 'use: ')): t.facts.append(g)     # proved above, used below
            # frame condition: everything reachable through parameters or this but not declared modified is unchanged
            s.check_frame(con, vw, t, view.old)
        return s.obs

    def check_frame(s, con, vw, t, old):
        allowed = []
        for pl in con.modifies(vw) if con.modifies else []:
            if isinstance(pl, str): pl = vw.place(pl)
            if pl is not None: allowed.append(pl)
        for cell in old.cells:
            if not (cell == 'this' or (isinstance(cell, str) and (cell.startswith('p:') or cell.startswith('heap:')))): continue
            if vw.f.get('ctor') and cell == 'this': continue
            a, b = old.cells[cell], t.cells.get(cell)
            if b is None or a is b: continue
            s.frame_diff(cell, (), a, b, allowed, t)
    def frame_diff(s, cell, path, a, b, allowed, t):
        for al in allowed:
            if isinstance(al, LV) and al.cell == cell and al.path == path: return
        if a is b: return
        deeper = any(isinstance(al, LV) and al.cell == cell and al.path[:len(path)] == path for al in allowed)
        if isinstance(a, R) and isinstance(b, R):
            for k in a.f:
                if not k.startswith('#') and k in b.f: s.frame_diff(cell, path + (('f', k),), a.f[k], b.f[k], allowed, t)
            return
        try: g = teq(a, b)
        except Unsupported: return
        if z3.is_true(simp(g) if not has_quant(g) else g): return
        s.ob(t, g, 'frame: %s%s is unchanged' % (cell, ''.join('.' + str(x[1]) for x in path)), 'frame', 0)

def hd_base(hd, exits):
    # the longest common prefix of assumptions and path conditions
    def cp(ls):
        n = min(map(len, ls)); i = 0
        while i < n and all(l[i].eq(ls[0][i]) for l in ls): i += 1
        return ls[0][:i]
    return State(dict(hd.cells), cp([x.pc for x in exits]), cp([x.facts for x in exits]))

def nonneg_all(arr):
    """all elements of a (possibly nested) array of sizes are non-negative"""
    vs = []; x = arr
    while z3.is_array(x):
        i = fresh(x.sort().domain(), 'i'); vs.append(i); x = z3.Select(x, i)
    return z3.ForAll(vs, x >= 0, patterns=[x])

def replace_leaves(v, new):
    ctr = [0]
    def go(v):
        if is_leaf(v):
            i = ctr[0]; ctr[0] += 1
            return new.get(i, v)
        if isinstance(v, M):
            # leaves() lists plain leaves first
            if all(is_leaf(x) for x in v.v): return M(v.r, v.c, [go(x) for x in v.v])
            raise Unsupported('extended reals in a loop variable')
        if isinstance(v, R):
            out = {}
            for k in sorted(v.f): out[k] = go(v.f[k])
            return R(v.ty, out)
        if isinstance(v, V):
            n = go(v.n); e = go(v.e); p = go(v.pos) if v.pos is not None else None
            return V(n, e, v.ety, p)
        if isinstance(v, A): return A([go(x) for x in v.v], v.ety)
        if isinstance(v, Mp): h = go(v.has); return Mp(h, go(v.val), v.kty, v.vty)
        if isinstance(v, St): return St(go(v.has), v.kty)
        if isinstance(v, HP): return HP(go(v.id), v.to)
        if isinstance(v, XR): a = go(v.v); return XR(a, go(v.k))
        if isinstance(v, OP):
            out = {}
            for k in sorted(v.f): out[k] = go(v.f[k])
            return OP(v.name, out)
        if isinstance(v, IT):
            p = go(v.pos) if v.pos is not None else None
            return IT(v.kind, v.lv, p, go(v.found) if v.found is not None else None)
        return v
    return go(v)

def norm_specs(x):
    out = []
    for i, it in enumerate(x or []):
        if isinstance(it, tuple): n, g = it
        else: n, g = '#%d' % i, it
        if isinstance(g, bool): g = z3.BoolVal(g)
        out.append((n, g))
    return out

_hq = {}
def has_quant(e):
    """does the term contain a quantifier? (memoised)"""
    k = e.get_id()
    if k in _hq and _hq[k][0].eq(e): return _hq[k][1]
    stack = [e]; seen = set(); r = False
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): r = True; break
        stack.extend(x.children())
    _hq[k] = (e, r)
    return r

def consts_of(e):
    out = set(); stack = [e]; seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.get_id())
        if z3.is_quantifier(x): stack.append(x.body())
        else: stack.extend(x.children())
    return out

def is_simple(c):
    if z3.is_const(c): return True
    return z3.is_not(c) and z3.is_const(c.arg(0))

def covers(names):
    if len(names) == 2:
        a, b = names
        if z3.is_not(a) and a.arg(0).eq(b) or z3.is_not(b) and b.arg(0).eq(a): return True
    return False

def str_lit(bs):
    out = []
    for b in bs:
        if 32 <= b < 127 and b != 92: out.append(chr(b))
        else: out.append('\\u{%x}' % b)
    return z3.StringVal(''.join(out))

def ptr_eq(a, b):
    def isnull(p):
        if isinstance(p, HP): return p.id == 0
        return p.null
    if isinstance(a, LP) and a.lv is None: return isnull(b)
    if isinstance(b, LP) and b.lv is None: return isnull(a)
    if isinstance(a, HP) and isinstance(b, HP): return a.id == b.id
    if isinstance(a, LP) and isinstance(b, LP) and same_lv(a.lv, b.lv): return a.null == b.null
    raise Unsupported('pointer comparison')

def xr_arith(op, a, b):
    Z = z3.IntVal
    if op == '-':
        b = XR(-b.v, z3.If(b.k == 1, Z(2), z3.If(b.k == 2, Z(1), b.k))); op = '+'
    if op == '+':
        k = z3.If(z3.Or(a.k == 3, b.k == 3), Z(3), z3.If(a.k == 0, b.k, z3.If(b.k == 0, a.k, z3.If(a.k == b.k, a.k, Z(3)))))
        return XR(real(a.v) + real(b.v), simp(k))
    if op == '*':
        sa = z3.If(a.k == 0, z3.If(a.v > 0, Z(1), z3.If(a.v < 0, Z(-1), Z(0))), z3.If(a.k == 1, Z(1), Z(-1)))
        sb = z3.If(b.k == 0, z3.If(b.v > 0, Z(1), z3.If(b.v < 0, Z(-1), Z(0))), z3.If(b.k == 1, Z(1), Z(-1)))
        k = z3.If(z3.Or(a.k == 3, b.k == 3), Z(3), z3.If(z3.And(a.k == 0, b.k == 0), Z(0), z3.If(sa * sb == 0, Z(3), z3.If(sa * sb > 0, Z(1), Z(2)))))
        return XR(real(a.v) * real(b.v), simp(k))
    if op == '/':
        # finite divisor known non-zero is handled before; remaining cases conservatively
        if z3.is_int_value(simp(b.k)) and simp(b.k).as_long() == 0:
            sb = simp(real(b.v))
            q = fresh(Real, 'quot')
            if z3.is_rational_value(sb) and sb.numerator_as_long() != 0:
                pos = sb.numerator_as_long() > 0
                k = a.k if pos else z3.If(a.k == 1, Z(2), z3.If(a.k == 2, Z(1), a.k))
                return XR(real(a.v) / sb, k)
            # x/b: exact when both finite and b != 0
            kk = z3.If(z3.And(a.k == 0, b.v != 0), Z(0), z3.If(a.k == 3, Z(3), z3.If(b.v == 0, z3.If(z3.And(a.k == 0, a.v == 0), Z(3), fresh_inf()), z3.If((a.k == 1) == (b.v > 0), Z(1), Z(2)))))
            return XR(XQ(real(a.v), real(b.v)), kk)
        raise Unsupported('division by a possibly infinite value')
    raise Unsupported('extended %s' % op)
xq = z3.Function('xquot', Real, Real, Real)
def XQ(a, b): return a / b
def fresh_inf():
    return z3.If(fresh(Bool, 'sgn'), z3.IntVal(1), z3.IntVal(2))
def xr_cmp(op, a, b):
    if op == '>': return xr_cmp('<', b, a)
    if op == '>=': return xr_cmp('<=', b, a)
    nn = z3.And(a.k != 3, b.k != 3)
    if op == '!=': return z3.Not(xr_cmp('==', a, b))
    rank = lambda x: z3.If(x.k == 2, z3.IntVal(-1), z3.If(x.k == 1, z3.IntVal(1), z3.IntVal(0)))
    fin2 = z3.And(a.k == 0, b.k == 0)
    av, bv = real(a.v), real(b.v)
    if op == '==': return simp(z3.And(nn, z3.If(fin2, av == bv, a.k == b.k)))
    if op == '<': return simp(z3.And(nn, z3.If(fin2, av < bv, rank(a) < rank(b))))
    if op == '<=': return simp(z3.And(nn, z3.If(fin2, av <= bv, z3.Or(rank(a) < rank(b), a.k == b.k))))
    raise Unsupported(op)

def shape_score(t, v):
    if t.k == 'ref': return shape_score(t.e, v)
    if isinstance(v, M): return 2 if t.k == 'mat' and (t.r, t.c) == (v.r, v.c) else None
    if isinstance(v, XR): return 1 if t.k == 'real' else None
    if is_leaf(v):
        so = v.sort()
        if so == Real: return {'real': 2, 'int': 1}.get(t.k)
        if so == Int: return {'int': 2, 'real': 1}.get(t.k)
        if so == Bool: return {'bool': 2, 'int': 1}.get(t.k)
        if so == Str: return 2 if t.k == 'str' else None
        return None
    if isinstance(v, V): return 2 if t.k == 'vec' else (1 if t.k == 'str' else None)
    if isinstance(v, A): return 2 if t.k in ('arr', 'vec') else None
    if isinstance(v, R):
        if t.k == 'rec': return 2 if v.ty is not None and v.ty.k == 'rec' and v.ty.q == t.q else (1 if v.ty is not None and v.ty.k == 'rec' else None)
        return 2 if t.k in ('pair', 'tuple') and (v.ty is None or v.ty.k == t.k) else None
    if isinstance(v, HP): return 2 if t.k in ('ptr', 'uptr') else None
    if isinstance(v, LP): return 2 if t.k in ('ptr', 'uptr') else None
    if isinstance(v, Mp): return 2 if t.k == 'map' else None
    if isinstance(v, St): return 2 if t.k == 'set' else None
    return 0

# ---------------------------------------------------------------- views given to contracts
class View:
    """arguments, receiver and result of a call, before (old) and after (new)"""
    def __init__(s, ex, f, this, vals, old, new):
        s.ex, s.f, s.this_lv, s.vals, s.old, s.new = ex, f, this, vals, old, new
        s.ret = None; s.con = None; s.exit = 0
        s.ghost = {}
    def _ld(s, v, st):
        if isinstance(v, LP) and v.lv is not None: v = v.lv
        if isinstance(v, (LV, HLV, CLV)): return s.ex.load(v, st)
        return v
    def arg(s, i): return s._ld(s.vals[i], s.old)
    def post(s, i): return s._ld(s.vals[i], s.new)
    def lv(s, i):
        v = s.vals[i]
        return v.lv if isinstance(v, LP) else v
    @property
    def this(s): return s._ld(s.this_lv, s.old)
    @property
    def this_post(s): return s._ld(s.this_lv, s.new)
    def cell(s, c, new=False): return s.ex.getcell(s.new if new else s.old, c)
    def place(s, spec):
        """'this', 'this.field', '#0', '#1.field'"""
        parts = spec.split('.')
        if parts[0] == 'this': lv = s.this_lv
        else:
            lv = s.vals[int(parts[0][1:])]
            if isinstance(lv, LP): lv = lv.lv
        if not isinstance(lv, (LV, HLV, CLV)): return None
        for p in parts[1:]: lv = s.ex.member_of(lv, p, None, s.old)
        return lv

class LoopView:
    def __init__(s, ex, fr, st, k, entry, coll, nfn, W):
        s.ex, s.fr, s.st, s.k, s.entry_st, s.coll, s.nfn, s.W = ex, fr, st, k, entry, coll, nfn, W
    def _lv(s, name):
        fr = s.fr
        while fr is not None:
            if name in fr.names:
                i = fr.names[name]
                if i in fr.env: return fr.env[i]
            fr = fr.parent
        # helpers inlined into the function under contract: look outwards
        for fr in reversed(s.ex.frames):
            if name in fr.names and fr.names[name] in fr.env: return fr.env[fr.names[name]]
        raise KeyError(name)
    def __getitem__(s, name):
        lv = s._lv(name)
        return s.ex.load(lv, s.st) if isinstance(lv, (LV, HLV, CLV)) else lv
    def pre(s, name):
        lv = s._lv(name)
        return s.ex.load(lv, s.entry_st) if isinstance(lv, (LV, HLV, CLV)) else lv
    @property
    def this(s): return s.ex.load(s.ex.entry.this_lv, s.st)
    @property
    def this_pre(s): return s.ex.load(s.ex.entry.this_lv, s.entry_st)
    @property
    def n(s): return s.nfn(s.st)
    @property
    def goes(s):
        """the loop condition holds here"""
        ex = s.ex; mark = ex.mark(); ex.dry += 1
        try: return s.condfn(s.st.copy())
        finally: ex.dry -= 1; ex.restore(mark)
    @property
    def S(s): return s.ex.entry
    def argnow(s, i): return s.ex.entry._ld(s.ex.entry.vals[i], s.st)
    def g(s, name): return s.st.cells[('gh', name)]
    def has(s, name):
        try: s[name]; return True
        except (KeyError, Unsupported): return False
    def find(s, pred, name=None):
        """value of the variable called name, else of the only loop-modified variable satisfying pred"""
        if name is not None:
            try: return s[name]
            except KeyError: pass
        c = [cell for cell in s.W if cell in s.st.cells and pred(s.st.cells[cell])]
        if len(c) == 1: return s.st.cells[c[0]]
        raise KeyError(name)

    def flag(s, pred, name):
        """(now, on entry): like find, preferring what the loop changes"""
        c = [cell for cell in s.W if cell in s.st.cells and cell in s.entry_st.cells and pred(s.st.cells[cell])]
        if len(c) == 1: return s.st.cells[c[0]], s.entry_st.cells[c[0]]
        return s[name], s.pre(name)

class LoopMatch(LoopView):
    def __init__(s, ex, fr, n, W):
        s.ex, s.fr, s.node, s.W = ex, fr, n, W

class Contract:
    def __init__(s, q, sel=None, requires=None, ensures=None, modifies=None, loops=None, setup=None, prepare=None, result=None, assumes=None,
                 strmode='seq', heap_this=False, heap_params=None, opt=None, short=None, virtual=False, trusted=None, ctor_args=None, hooks=None, callable=True, extern=False):
        s.hooks = hooks or {}; s.callable = callable; s.extern = extern     # not callable: callers inline the body
        from builtins import callable
        s.q, s.sel, s.requires, s.ensures = q, sel, requires, ensures or (lambda S: [])
        s.modifies = modifies if callable(modifies) or modifies is None else (lambda S, m=modifies: m)
        s.loops = loops or []; s.setup = setup; s.prepare = prepare; s.result = result; s.assumes = assumes
        s.strmode, s.heap_this, s.heap_params, s.opt = strmode, heap_this, heap_params, opt or {}
        s.short = short or q + ('(%s)' % sel if sel else '')
        s.key = s.short; s.virtual = virtual; s.trusted = trusted
    def matches(s, f):
        if s.sel is None: return True
        if callable(s.sel): return s.sel(f)
        return s.sel in f['m']
    def find(s, prog):
        for f in prog.byq.get(s.q, []):
            if f.get('body') is not None and s.matches(f): return f
        return None
