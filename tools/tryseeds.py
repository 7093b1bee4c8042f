"""Runs the checks against the planted bugs in copies of /repo: tools/tryseeds.py [seed ids]"""
import os, sys, json, subprocess, tempfile, shutil, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(VERIF + '/seeded'))
claimed = {c['property'] for c in json.load(open(VERIF + '/MANIFEST.json'))['checks']}
for i in ids:
    m = json.load(open(VERIF + '/seeded/%s/meta.json' % i))
    if m['property'] not in claimed: print('%-28s %s not claimed' % (i, m['property'])); continue
    w = tempfile.mkdtemp(prefix='try-')
    try:
        subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
        subprocess.run(['git', 'apply', VERIF + '/seeded/%s/patch.diff' % i], cwd=w + '/repo', check=True)
        ev = VERIF + '/evidence/%s.json' % m['property']; keep = open(ev).read() if os.path.exists(ev) else None
        r = subprocess.run(['python3-vt', VERIF + '/vc/check.py', m['property'], 'quick'], env=dict(os.environ, VERIF_REPO=w + '/repo', VERIF_SEED='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if keep is not None: open(ev, 'w').write(keep)
        o = r.stdout.decode()
        print('%-28s %s exit %d: %s' % (i, m['property'], r.returncode, ' / '.join(l[:110] for l in o.splitlines() if l.startswith(('VIOLATION', 'failed obl', 'failing', 'BOUNDED')))[:400]), flush=True)
    finally: shutil.rmtree(w, ignore_errors=True)
