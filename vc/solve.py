"""Back ends: every obligation (hypotheses |- goal) is written out as SMT-LIB and given to z3 and cvc5 as separate processes."""
import z3, json, subprocess, os, time, tempfile, hashlib, threading, shutil
from concurrent.futures import ThreadPoolExecutor
import engine

Z3N = shutil.which('z3-new') or 'z3-new'
Z3O = '/usr/bin/z3'
CVC5 = '/usr/bin/cvc5' if os.path.exists('/usr/bin/cvc5') else 'cvc5'

def smt2(hyps, goal, logic=None):
    s = z3.Solver()
    for h in hyps: s.add(h)
    s.add(z3.Not(goal))
    return s.to_smt2()

RUNNING = {}          # obligation key -> solver processes at work on it
LOCK = threading.Lock()
def _run(cmd, text, limit, key=None):
    t0 = time.time()
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    try:
        f.write(text); f.close()
        pr = subprocess.Popen(cmd + [f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        if key is not None:
            with LOCK: RUNNING.setdefault(key, []).append(pr)
        try: out = pr.communicate(timeout=limit + 3)[0].decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            pr.kill(); pr.communicate(); out = 'timeout'
        if key is not None:
            with LOCK: RUNNING[key].remove(pr)
    finally: os.unlink(f.name)
    return out, time.time() - t0
def stop(key):
    with LOCK:
        for p in RUNNING.get(key, []):
            try: p.kill()
            except OSError: pass

def z3cmd(exe, limit, *opts):
    return [exe, '-T:%d' % limit, '-memory:3000'] + list(opts)

A2 = ['smt.arith.solver=2', 'smt.random_seed=3']
# (name, which text: 0 all hypotheses, n pruned to those within n steps of the goal, command for a limit in seconds, is 'sat' conclusive)
KIT = {
    'z3-5': (0, lambda l: z3cmd(Z3N, l), True),
    'z3-5/arith2': (0, lambda l: z3cmd(Z3N, l, *A2), True),
    'z3-5/linear': (0, lambda l: z3cmd(Z3N, l, 'smt.arith.nl=false', 'smt.mbqi=false'), False),
    'z3-5/no-mbqi': (0, lambda l: z3cmd(Z3N, l, 'smt.mbqi=false', 'smt.random_seed=7'), True),
    'cvc5': (0, lambda l: [CVC5, '--tlimit=%d' % (l * 1000), '--strings-exp'], True),
    'z3-4.8': (0, lambda l: z3cmd(Z3O, l), True),
    'z3-5/near1': (1, lambda l: z3cmd(Z3N, l), False),
    'z3-5/near2': (2, lambda l: z3cmd(Z3N, l), False),
    'z3-5/near2/arith2': (2, lambda l: z3cmd(Z3N, l, *A2), False),
    'z3-5/near2/linear': (2, lambda l: z3cmd(Z3N, l, 'smt.arith.nl=false', 'smt.mbqi=false'), False),
    'cvc5/near1': (1, lambda l: [CVC5, '--tlimit=%d' % (l * 1000), '--strings-exp'], False),
    'cvc5/near2': (2, lambda l: [CVC5, '--tlimit=%d' % (l * 1000), '--strings-exp'], False),
    'z3-5/nomul': (4, lambda l: z3cmd(Z3N, l), False),
    'cvc5/nomul': (4, lambda l: [CVC5, '--tlimit=%d' % (l * 1000), '--strings-exp'], False),
    'z3-5/ground': (3, lambda l: z3cmd(Z3N, l), False),
    'z3-5/ground/linear': (3, lambda l: z3cmd(Z3N, l, 'smt.arith.nl=false'), False),
    'cvc5/ground': (3, lambda l: [CVC5, '--tlimit=%d' % (l * 1000), '--strings-exp'], False),
    'z3-4.8/near2': (2, lambda l: z3cmd(Z3O, l), False),
    'z3-5/eq': (5, lambda l: z3cmd(Z3N, l), False),
    'cvc5/eq': (5, lambda l: [CVC5, '--tlimit=%d' % (l * 1000), '--strings-exp'], False),
}
ROUND_A = [('z3-5', 1), ('z3-5/nomul', 1), ('z3-5/ground/linear', 1), ('z3-5/arith2', 1), ('cvc5', 1), ('z3-4.8', 1), ('z3-5/linear', 1)]
ROUND_B = [('z3-5/eq', 4), ('cvc5/eq', 4), ('z3-5/nomul', 3), ('cvc5/nomul', 3), ('z3-5/ground', 2), ('cvc5/ground', 2), ('z3-5/near2', 2), ('cvc5/near2', 2), ('z3-5/near1', 2), ('z3-5/near2/arith2', 2), ('cvc5/near1', 2), ('z3-5/near2/linear', 2), ('z3-4.8/near2', 2),
           ('z3-5', 4), ('z3-5/arith2', 4), ('cvc5', 4), ('z3-4.8', 4), ('z3-5/linear', 4)]
ROUND_C = [('z3-5/eq', 12), ('cvc5/eq', 12), ('z3-5', 15), ('z3-5/arith2', 15), ('cvc5', 15), ('z3-5/near2', 10), ('cvc5/near2', 10), ('z3-4.8/near2', 10), ('z3-5/no-mbqi', 12), ('z3-4.8', 15), ('z3-5/near1', 10)]
ROUND_D = [(n, 3 * l) for n, l in ROUND_C]

def symbols(e, memo={}):
    k = e.get_id()
    if k in memo and memo[k][0].eq(e): return memo[k][1]
    out = set(); stack = [e]; seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): stack.append(x.body()); continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED: out.add(d.name())
            stack.extend(x.children())
    memo[k] = (e, out)
    return out

def nonlinear(e, memo={}):
    k = e.get_id()
    if k in memo and memo[k][0].eq(e): return memo[k][1]
    r = False; stack = [e]; seen = set()
    while stack and not r:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): stack.append(x.body()); continue
        if z3.is_app(x):
            d = x.decl().kind()
            if d == z3.Z3_OP_MUL: r = sum(1 for c in x.children() if not num(c)) > 1
            elif d in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD): r = not num(x.arg(1))
            elif d == z3.Z3_OP_POWER: r = True
            stack.extend(x.children())
    memo[k] = (e, r)
    return r
def num(e): return z3.is_rational_value(e) or z3.is_int_value(e) or (z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL) and num(e.arg(0)))

def near(hyps, goal, depth):
    """hypotheses connected to the goal through uninterpreted symbols, at most `depth` steps away, common symbols not counting"""
    hs = [(h, symbols(h)) for h in hyps]
    freq = {}
    for _, y in hs:
        for x in y: freq[x] = freq.get(x, 0) + 1
    known = set(symbols(goal)); keep = set()
    for d in range(depth):
        new = set(known)
        for i, (h, y) in enumerate(hs):
            if i in keep: continue
            if not y or (y & known and (len(y & known) * 2 >= len(y) or not engine.has_quant(h))):
                keep.add(i)
                if len(y) <= 12: new |= y
        known = new
    for i, (h, y) in enumerate(hs):
        if i not in keep and y and y <= known: keep.add(i)
    return [h for i, (h, _) in enumerate(hs) if i in keep]

def has_lambda(e, memo={}):
    k = e.get_id()
    if k in memo and memo[k][0].eq(e): return memo[k][1]
    r = False; stack = [e]; seen = set()
    while stack and not r:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): r = x.is_lambda(); stack.append(x.body())
        else: stack.extend(x.children())
    memo[k] = (e, r)
    return r
def sel(a, i):
    """a[i] with array terms worked out"""
    if z3.is_quantifier(a) and a.is_lambda(): return beta(z3.substitute_vars(a.body(), i))
    if z3.is_app(a):
        k = a.decl().kind()
        if k == z3.Z3_OP_STORE and a.num_args() == 3: return z3.If(i == a.arg(1), beta(a.arg(2)), sel(a.arg(0), i))
        if k == z3.Z3_OP_ITE: return z3.If(beta(a.arg(0)), sel(a.arg(1), i), sel(a.arg(2), i))
        if k == z3.Z3_OP_CONST_ARRAY: return beta(a.arg(0))
    return z3.Select(a, i)
def beta(e):
    if not has_lambda(e) or not z3.is_app(e): return e
    if e.decl().kind() == z3.Z3_OP_SELECT and e.num_args() == 2: return sel(e.arg(0), beta(e.arg(1)))
    return e.decl()(*[beta(c) for c in e.children()])
def no_lambda(hyps, goal):
    """the same obligation, array definitions by lambda terms turned into quantified equations; what cannot be turned is left out"""
    out = []
    for h in hyps:
        if not has_lambda(h): out.append(h); continue
        pre, g = [], h
        while z3.is_implies(g): pre.append(beta(g.arg(0))); g = g.arg(1)
        if z3.is_eq(g) and z3.is_array(g.arg(0)):
            i = engine.fresh(g.arg(0).domain(), 'at'); l, r = g.arg(0), g.arg(1)
            if has_lambda(l): l, r = r, l
            q = z3.Select(l, i) == sel(r, i); pats = [z3.Select(l, i)] if not has_lambda(l) else []
            q = z3.ForAll([i], z3.Implies(z3.And(pre), q) if pre else q, patterns=pats)
        else: q = z3.Implies(z3.And(pre), beta(g)) if pre else beta(g)
        if not has_lambda(q): out.append(q)
    g = beta(goal)
    return out, g
class Result:
    __slots__ = ('parts', 'last', 'ob', 'status', 'solver', 'time', 'text', 'model', 'tried')

def first_line(out):
    for l in out.splitlines():
        l = l.strip()
        if l in ('sat', 'unsat', 'unknown', 'timeout'): return l
    if 'timeout' in out: return 'timeout'
    return 'error'

def to_cvc5(text):
    # z3 prints a few z3-only names
    return '(set-logic ALL)\n' + text

def decide(texts, rounds, scale=1.0, deadline=None):
    """texts: {0: everything, 1/2: pruned}; (status, solver, seconds, output, [tried])"""
    tot = 0.0; tried = []
    for name, lim in rounds:
        if deadline is not None and time.time() > deadline: tried.append('out of time'); break
        lvl, cmd, satok = KIT[name]
        if lvl not in texts: continue
        lim = max(1, int(lim * scale))
        text = texts[lvl]
        out, dt = _run(cmd(lim), to_cvc5(text) if name.startswith('cvc5') else text, lim)
        tot += dt
        st = first_line(out)
        tried.append('%s:%s(%.1fs)' % (name, st, dt))
        if st == 'unsat': return 'unsat', name, tot, out, tried
        if st == 'sat' and satok: return 'sat', name, tot, out, tried
    return 'unknown', None, tot, '', tried

def model_of(text, limit=10):
    out, dt = _run(z3cmd(Z3N, limit, 'model.compact=true'), text + '\n(get-model)\n', limit)
    return out[:20000]

HINTS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'hints.json')
def load_hints():
    try: return json.load(open(HINTS))
    except (OSError, ValueError): return {}
def obkey(o, seen):
    k = '%s|%s|%s' % (o.fn, o.kind, o.name); seen[k] = seen.get(k, 0) + 1
    return '%s#%d' % (k, seen[k])
def learn(results):
    """remember which back end discharged an obligation (only the order in which back ends are tried depends on it)"""
    h = load_hints(); seen = {}
    def flat():
        for r in results:
            if r.parts and len(r.parts) > 0: yield r; yield from r.parts
            else: yield r
    for r in flat():
        k = obkey(r.ob, seen)
        if r.parts:
            h[k] = ['parts', 0]; continue
        if r.status == 'unsat' and not (r.solver == 'z3-5' and r.time < 0.5): h[k] = [r.solver, round(r.last, 1)]
        elif r.status == 'unsat': h.pop(k, None)
    with open(HINTS, 'w') as f: json.dump(h, f, indent=0, sort_keys=True)
def parts(g):
    """the conjuncts of a goal, looking inside quantifiers and consequents"""
    if z3.is_and(g): return [y for x in g.children() for y in parts(x)]
    if z3.is_quantifier(g) and g.is_forall():
        vs = [engine.fresh(g.var_sort(i), g.var_name(i).split('!')[0]) for i in range(g.num_vars())]
        return parts(z3.substitute_vars(g.body(), *reversed(vs)))
    if z3.is_implies(g): return [z3.Implies(g.arg(0), y) for y in parts(g.arg(1))]
    return [g]
def discharge(obs, scale=1.0, workers=8, deadline=None, found=None):
    """decide all obligations; those that resist the quick round are decided conjunct by conjunct"""
    hints, seen = load_hints(), {}
    split = [hints.get(obkey(o, seen), [''])[0] == 'parts' for o in obs]
    quick = iter(_discharge([o for o, x in zip(obs, split) if not x], scale, workers, deadline, found, (FIRST, ROUND_A[:1], ROUND_A[1:])))
    first = []
    for o, x in zip(obs, split):
        if not x: first.append(next(quick)); continue
        q = Result(); q.ob, q.text, q.status, q.solver, q.time, q.model, q.tried, q.last, q.parts = o, smt2(o.hyps, o.goal), 'unknown', None, 0.0, '', [], 0, []
        first.append(q)
    hard = [(i, r) for i, r in enumerate(first) if r.status == 'unknown']
    sub, where = [], []
    for i, r in hard:
        ps = parts(r.ob.goal)
        for n, p in enumerate(ps):
            o = engine.Ob(r.ob.name if len(ps) == 1 else '%s [part %d of %d]' % (r.ob.name, n + 1, len(ps)), r.ob.kind, r.ob.line, r.ob.fn, r.ob.hyps, p); o.hint = r.ob.hint
            sub.append(o); where.append(i)
    got = _discharge(sub, scale, workers, deadline, found, (FIRST, ROUND_A[:1], ROUND_A[1:], ROUND_B, ROUND_C, ROUND_D)) if sub else []
    for i, r in hard:
        rs = [q for q, w in zip(got, where) if w == i]
        bad = [q for q in rs if q.status != 'unsat']
        r.parts = rs
        if not bad: r.status, r.solver = 'unsat', '+'.join(sorted({q.solver for q in rs}))
        else:
            w = next((q for q in bad if q.status == 'sat'), bad[0])
            r.status, r.text = w.status, w.text
        r.tried = r.tried + [t for q in (bad or rs) for t in q.tried]; r.time += sum(q.time for q in rs)
    return first
FIRST = [(None, 3)]
def _discharge(obs, scale, workers, deadline, found, rounds):
    """identical obligations once. Every round tries its strategies on all open obligations, side by side."""
    keys, uniq, hint, hints, seen, last = [], {}, {}, load_hints(), {}, {}
    for o in obs:
        t = smt2(o.hyps, o.goal)
        k = hashlib.sha256(t.encode()).hexdigest()
        keys.append(k); uniq.setdefault(k, (t, o))
        hk = obkey(o, seen)
        if hk in hints: hint[k] = hints[hk]
        elif o.hint: hint[k] = [o.hint, 1]
    res = {k: ['unknown', None, 0.0, '', []] for k in uniq}
    cache = {}; late = [False]
    def text(k, lvl):
        if lvl == 0: return uniq[k][0]
        if (k, lvl) not in cache:
            o = uniq[k][1]
            if lvl in (1, 2): hy = near(o.hyps, o.goal, lvl)
            elif lvl == 5:
                if not any(has_lambda(h) for h in o.hyps) and not has_lambda(o.goal): cache[k, lvl] = None; return None
                cache[k, lvl] = smt2(*no_lambda(o.hyps, o.goal)); return cache[k, lvl]
            elif lvl == 3: hy = [h for h in o.hyps if not engine.has_quant(h)]
            else: hy = [h for h in o.hyps if not nonlinear(h)]
            cache[k, lvl] = smt2(hy, o.goal) if len(hy) < len(o.hyps) else None
        return cache[k, lvl]
    def work(job):
        k, name, lim, txt = job
        r = res[k]
        if r[0] != 'unknown': return
        if late[0] and found is not None and found(): r[4].append('a failing input was found'); return
        if deadline is not None and time.time() > deadline: r[4].append('out of time'); return
        lvl, cmd, satok = KIT[name]
        lim = max(1, int(lim * scale))
        out, dt = _run(cmd(lim), to_cvc5(txt) if name.startswith('cvc5') else txt, lim, k)
        st = first_line(out)
        with LOCK:
            if r[0] != 'unknown': return
            r[2] += dt; last[k] = dt
            r[4].append('%s:%s(%.1fs)' % (name, st, dt))
            if st == 'unsat' or (st == 'sat' and satok): r[0], r[1], r[3] = st, name, out
        if r[0] != 'unknown': stop(k)
    for rnd in rounds:
        todo = [k for k in uniq if res[k][0] == 'unknown']
        if not todo: break
        late[0] = rnd is ROUND_B or rnd is ROUND_C or rnd is ROUND_D
        jobs = []
        for name, lim in rnd:
            for k in todo:
                nm = name
                if nm is None:
                    if k not in hint or hint[k][0] not in KIT: continue
                    nm, lim = hint[k][0], max(4, 5 * hint[k][1])
                t = text(k, KIT[nm][0])      # z3py is not thread safe: the texts are made here
                if t is not None: jobs.append((k, nm, lim, t))
        with ThreadPoolExecutor(workers) as ex: list(ex.map(work, jobs))
    out = []
    for o, k in zip(obs, keys):
        q = Result(); q.ob, q.text = o, uniq[k][0]
        q.status, q.solver, q.time, q.model, q.tried = res[k]; q.last = last.get(k, 0); q.parts = []
        out.append(q)
    return out

def satisfiable(hyps, limit=4):
    """'unsat' means the assumptions are contradictory"""
    s = z3.Solver()
    for h in hyps: s.add(h)
    out, dt = _run(z3cmd(Z3N, limit), s.to_smt2(), limit)
    return first_line(out)
