"""check.py <property> <quick|thorough>: decide one property on /repo's current tree.

1. export the AST of the current sources, generate the obligations of every function under contract for the property,
   and discharge them with z3 / cvc5;
2. run the property's executable oracle against the real code, compiled from the same sources: it replays a failed
   obligation on concrete inputs, and is the bounded stand-in for any function outside the verifier's reach."""
import sys, os, json, time, traceback, subprocess, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import build
VERIF = build.VERIF

def stale():
    build.prune()

class Harness(threading.Thread):
    """the executable oracle, run while the solvers work"""
    def __init__(s, pid, spec, seed, tier):
        threading.Thread.__init__(s); s.pid, s.spec, s.seed, s.tier = pid, spec, seed, tier
        s.err = None; s.fail = None; s.cases = 0; s.nontrivial = 0; s.samples = []; s.rule = ''; s.wall = 0
        s.out = ''
    def run(s):
        t0 = time.time()
        try:
            import harnesses
            harnesses.run(s)
        except build.BuildError as e: s.err = 'does not build: ' + str(e)[-1500:]
        except Exception as e: s.err = ''.join(traceback.format_exception_only(type(e), e)) + traceback.format_exc()[-1500:]
        s.wall = time.time() - t0

def aux_name(ob):
    """the name of an auxiliary annotation (loop invariant, cut) whose obligation this is"""
    n = ob.name.split(': ', 1)[-1]
    if ob.kind in ('inv-init', 'inv-step', 'cut'): return n
    if ob.kind == 'post' and n.startswith('step: '): return n
    return None
def rescue(engine, solve, prog, cm, c, results, h, t0, tier):
    m = len(c.loops); quick = tier == 'quick'; end = t0 + (400 if quick else 2500)
    plans = [None] + ([[i for i in range(m) if i != j] + [None] * 3 for j in range(m)] + [list(range(j)) + [None] + list(range(j, m)) for j in range(m)] + ([[1, 0]] if m == 2 else []) if m else [])
    if not m and not any(aux_name(r.ob) for r in results if r.status != 'unsat'): return None
    for n, plan in enumerate(plans):
        drop, res = set(), results if n == 0 and results else None; ex = None
        for rnd in range(4):
            if (h is not None and h.fail) or time.time() > end: return None
            if res is None:
                ex = engine.Ex(prog, cm, owner=c.short, drop=drop, plan=plan)
                try: obs = ex.verify(c)
                except Exception: break
                if n > 0 and not {i for i, l in enumerate(c.loops) if l.get('ghost')} <= set(ex.loopmap.values()): break        # its ghost state carries the postcondition
                res = solve.discharge(obs, scale=1.0, workers=8, deadline=min(end, time.time() + 60), found=lambda: h is not None and h.fail)
            bad = [r for r in res if r.status != 'unsat']
            if not bad: return ((['the invariants of other loops'] if plan else []) + (['these annotations left out: ' + '; '.join(sorted(drop))] if drop else []) or ['a second attempt'])[0], res, ex
            names = {aux_name(r.ob) for r in bad} - {None}
            if not names: break
            drop |= names; res = None
    return None
def elsewhere(props, spec, reports):
    """callee contracts this property rests on without verifying them itself: where they are verified, or why they are trusted"""
    here = {c.short for c in spec['verify']}; out = {}
    for n in sorted({n for r in reports for n in r.get('callee_contracts', ())} - here):
        c = next((c for c in spec.get('callees', []) if c.short == n), None)
        at = sorted(p for p, s in props.PROPS.items() if any(d.q == (c.q if c else n) and not d.virtual and not d.extern for d in s['verify']))
        t = c.trusted if c is not None else None
        out[n] = 'verified in %s' % ', '.join(at) if at and (not t or t in props.PROPS) else 'verified in %s; here with a logging or weaker contract: %s' % (', '.join(at), t) if at else t or 'assumed'
    return out
def main():
    if os.environ.get("PYTHONHASHSEED") != "0": os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import props
    spec = props.PROPS[pid]
    h = None
    build.prepare()
    if spec.get('harness'):
        h = Harness(pid, spec['harness'], seed, tier); h.start()
    results, fnreports, unsupported, assumptions, trusted, vac = [], [], [], set(), set(), []
    fatal = None
    try:
        import engine, solve
        from val import Unsupported
        asts = build.asts()
        extra, lost = {}, []
        for n in spec.get('asts', ()):
            try: extra[n] = json.load(open(build.ast(n)))
            except Exception as e: lost.append((n, 'cannot be extracted: %r' % (str(e)[-300:],)))
        prog = engine.Prog({**asts, **extra})
        if spec.get('late'):
            more = spec['late'](prog, set(extra))
            spec = {**spec, **{k: list(spec.get(k, [])) + list(v) for k, v in more.items()}}
            spec['bounded'] = lost + list(spec.get('bounded', []))
        cm = {}
        def add(c):
            if c.virtual or c.extern: cm[('x:' if c.extern else 'v:') + c.q] = c
            f = c.find(prog)
            if f is not None and c.callable: cm.setdefault(f['m'], c)
        for c in spec['verify'] + spec.get('callees', []): add(c)
        obs = []; misfit = []
        for c in spec['verify']:
            if c.virtual or c.extern: continue
            g0 = time.time()
            ex = engine.Ex(prog, cm, owner=c.short)
            rep = {'function': c.short, 'contract': c.key}
            try:
                o = ex.verify(c)
                obs += o
                rep.update(obligations=len(o), inlined=sorted(ex.inlined), callee_contracts=sorted(ex.used))
                vac.append((c.short, [list(t.facts) + list(t.pc) for t, _ in ex.exits], ex.pre_facts))
                assumptions |= ex.assumptions
                trusted |= set(ex.builtins_used)
            except (Unsupported, engine.SpecMismatch) as e:
                if isinstance(e, engine.SpecMismatch) and c.loops: misfit.append((c.short, str(e)))
                rep.update(bounded='%s: %s' % (type(e).__name__, e)); unsupported.append((c.short, str(e)))
            except (RecursionError, Exception) as e:
                if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
                rep.update(bounded='internal: %r' % (e,)); unsupported.append((c.short, 'internal %r' % (e,)))
            rep['generation_s'] = round(time.time() - g0, 2)
            fnreports.append(rep)
        for n, why in spec.get('bounded', []):
            unsupported.append((n, why)); fnreports.append({'function': n, 'bounded': why})
        for l in spec.get('lemmas', []):
            o = l.obs(); obs += o
            fnreports.append({'lemma': l.short, 'obligations': len(o)})
        results = solve.discharge(obs, scale=(1.0 if tier == 'quick' else 4.0), workers=8, deadline=t0 + (420 if tier == 'quick' else 3000), found=lambda: h is not None and h.fail)
        # a rewritten loop may need less than the invariants written down, or they may belong to other loops: do without those
        # that don't hold, and try other assignments (whatever is then proved in full is proved)
        todo = {r.ob.fn for r in results if r.status != 'unsat'} | {n for n, w in misfit}
        for c in spec['verify']:
            if c.short not in todo or c.virtual or c.extern: continue
            got = rescue(engine, solve, prog, cm, c, [r for r in results if r.ob.fn == c.short], h, t0, tier)
            if got is None: continue
            what, res, ex = got
            print('note: %s is proved with %s' % (c.short, what))
            results = [r for r in results if r.ob.fn != c.short] + res
            unsupported = [x for x in unsupported if x[0] != c.short]; vac = [x for x in vac if x[0] != c.short]
            vac.append((c.short, [list(t.facts) + list(t.pc) for t, _ in ex.exits], ex.pre_facts)); assumptions |= ex.assumptions
            for rep in fnreports:
                if rep.get('function') == c.short: rep.pop('bounded', None); rep.update(obligations=len(res), rescued=what)
        if os.environ.get('VERIF_LEARN'): solve.learn(results)
        # vacuity: assumptions of every function under contract must be satisfiable, and some exit reachable
        from concurrent.futures import ThreadPoolExecutor
        jobs = []
        for n, exits, pre in vac:
            jobs.append((n, 'precondition', pre))
            for i, e in enumerate(exits): jobs.append((n, 'exit %d' % i, e))
        texts = [(n, k, solve.smt2(e, solve.z3.BoolVal(False))) for n, k, e in jobs]
        with ThreadPoolExecutor(8) as tp:
            vr = list(tp.map(lambda x: solve.first_line(solve._run(solve.z3cmd(solve.Z3N, 2), x[2], 2)[0]), texts))
        vacuous = []
        for n in dict.fromkeys(x[0] for x in texts):
            rs = [(k, r) for (m, k, _), r in zip(texts, vr) if m == n]
            if dict(rs)['precondition'] == 'unsat': vacuous.append(n + ': contradictory precondition')
            ex_ = [r for k, r in rs if k != 'precondition']
            if ex_ and all(r == 'unsat' for r in ex_): vacuous.append(n + ': no reachable exit')
    except build.BuildError as e:
        unsupported.append(('all', 'the sources cannot be read: %s' % str(e)[-800:])); vacuous = []; fatal = 'frontend'
    if h is not None: h.join()
    failed = [r for r in results if r.status != 'unsat']
    for v in vacuous: print('note: %s' % v)
    # ---- known findings
    known = json.load(open(VERIF + '/known_findings.json')) if os.path.exists(VERIF + '/known_findings.json') else {'findings': []}
    kf = [k for k in known['findings'] if k['property'] == pid and k.get('status') == 'open']
    violations = []
    rdir = os.path.join(VERIF, 'build', 'replay'); os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, pid + '.txt')
    for k in kf: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    hf = h.fail if h is not None else None
    names = ['%s: %s (line %s)' % (r.ob.fn, r.ob.name, r.ob.line) for r in failed] + ['%s' % v for v in vacuous]
    if hf or failed or vacuous:
        with open(replay, 'w') as f:
            f.write('property %s\n' % pid)
            for r in failed:
                f.write('\nFAILED OBLIGATION %s\n  kind %s, source line %s, back ends: %s\n' % (r.ob.fn + ': ' + r.ob.name, r.ob.kind, r.ob.line, ', '.join(r.tried)))
                if r.status == 'sat': f.write('  counterexample of the verifier:\n%s\n' % solve.model_of(r.text))
            for v in vacuous: f.write('\nFAILED OBLIGATION %s\n' % v)
            if hf: f.write('\nREPLAY on the real code (%s, seed %d):\n%s\n' % (spec['harness'], seed, hf))
            elif h is not None: f.write('\nNo failing input found by the executable oracle (%d cases, seed %d).\n' % (h.cases, seed))
    for n in names[:12]: print('failed obligation: ' + n)
    if hf:
        print('failing input: ' + hf.splitlines()[0][:300])
        print('VIOLATION property=%s replay=%s' % (pid, replay)); violations.append(hf)
    elif failed or vacuous:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay)); violations += names
    elif os.path.exists(replay): os.unlink(replay)
    # ---- evidence
    for n, why in unsupported: print('BOUNDED: %s is not proved on this tree (%s)' % (n, why.splitlines()[0][:200]))
    by = {}
    for r in results:
        if r.status == 'unsat': by[r.solver] = by.get(r.solver, 0) + 1
    kinds = {}
    for r in results: kinds[r.ob.kind] = kinds.get(r.ob.kind, 0) + 1
    level = spec.get('level', 'proof')
    cov = {'obligations': len(results), 'discharged': sum(1 for r in results if r.status == 'unsat'),
           'checker_cmd': 'python3-vt vc/check.py %s %s' % (pid, tier), 'trusted_base': TRUSTED + sorted(spec.get('trusted', [])),
           'functions_under_contract': [r for r in fnreports if 'function' in r], 'lemmas': [r for r in fnreports if 'lemma' in r],
           'discharged_by': by, 'obligation_kinds': kinds, 'solver_s': round(sum(r.time for r in results), 2),
           'slowest_obligations': [{'obligation': '%s: %s' % (r.ob.fn, r.ob.name), 's': round(r.time, 2), 'back_end': r.solver} for r in sorted(results, key=lambda r: -r.time)[:3]],
           'samples': ['%s: %s [%s, %.2fs]' % (r.ob.fn, r.ob.name, r.solver, r.time) for r in results[::max(1, len(results) // 5)][:6]],
           'bounded_not_proved': [{'function': n, 'reason': w[:300]} for n, w in unsupported],
           'callee_contracts_verified_elsewhere': elsewhere(props, spec, fnreports)}
    if h is not None:
        cov['evaluations'] = h.cases; cov['distinct_nontrivial'] = h.nontrivial; cov['rule'] = h.rule
        cov['oracle_samples'] = h.samples[:5]
        cov['oracle'] = 'executable oracle run on the real code (replays failed obligations; bounded stand-in): harness/%s' % spec['harness']
        cov['oracle_error'] = h.err
        if level == 'exploration': cov['samples'] = h.samples[:5] or cov['samples']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': sorted(set(ASSUME + sorted(assumptions) + spec.get('assumptions', []))), 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open(VERIF + '/evidence/%s.json' % pid, 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d/%d obligations discharged%s%s, %.1fs' % (pid, tier, cov['discharged'], cov['obligations'],
          ', %d functions bounded only' % len(unsupported) if unsupported else '',
          ', oracle: %d cases%s' % (h.cases, ' (%s)' % h.err.splitlines()[0] if h.err else '') if h is not None else '', time.time() - t0))
    if h is not None and h.err and os.environ.get('VERIF_DEBUG'): print(h.err)
    stale()
    if violations: sys.exit(1)
    if unsupported and (h is None or h.err): print('no answer: neither proof nor bounded check applies'); sys.exit(2)
    if not results and not unsupported: print('no obligations were generated'); sys.exit(2)
    sys.exit(0)

TRUSTED = ['clang 18 front end and tools/astx (export of the typed AST)', 'vc/engine.py (verification-condition generator)',
           'vc/builtins_.py (contracts of std, Eigen, absl and RE2 functions)', 'z3 4.15/5.x, z3 4.8.12, cvc5 1.1.2']
ASSUME = ['floating-point arithmetic is treated as real arithmetic', 'no integer overflow of int counters (container sizes below 2^31)',
          'memory allocation succeeds and library functions meet the contracts in vc/builtins_.py']
if __name__ == '__main__': main()
