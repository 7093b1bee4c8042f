"""Tries small edits of /repo in a copy: tools/mut.py FILE [name filter].  FILE holds blocks
   == name | property | breaks or same
   @@ path
   old text
   --
   new text
Prints what the property's check says; 'breaks' must exit 1, 'same' must exit 0 (or fail with no-failing-input-found)."""
import os, sys, subprocess, tempfile, shutil, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
blocks = open(sys.argv[1]).read().split('\n== ')[0:]
blocks = [b[3:] if b.startswith('== ') else b for b in blocks]
for b in blocks:
    head, *edits = b.split('\n@@ ')
    name, props, kind = [x.strip() for x in head.strip().split('|')]
    if os.environ.get('MUT_KIND', kind) != kind: continue
    if sys.argv[2:] and not any(f in name or f in props for f in sys.argv[2:]): continue
    w = tempfile.mkdtemp(prefix='mut-')
    try:
        subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
        for e in edits:
            path, _, body = e.partition('\n')
            old, new = body.split('\n--\n') if '\n--\n' in body else (body[:body.index('\n--')], '')
            p = w + '/repo/stl-to-ps/' + path.strip(); s = open(p).read(); new = new.rstrip('\n')
            if s.count(old) != 1: print('%s: text found %d times in %s' % (name, s.count(old), path)); break
            open(p, 'w').write(s.replace(old, new))
        else:
            for prop in props.split(','):
                ev = VERIF + '/evidence/%s.json' % prop; keep = open(ev).read() if os.path.exists(ev) else None
                t0 = time.time()
                r = subprocess.run(['python3-vt', VERIF + '/vc/check.py', prop, 'quick'], env=dict(os.environ, VERIF_REPO=w + '/repo', VERIF_SEED='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if keep is not None: open(ev, 'w').write(keep)
                o = r.stdout.decode()
                good = (r.returncode == 1) == (kind == 'breaks') and r.returncode in (0, 1)
                print('%s %-28s %s %s exit %d %.0fs: %s' % ('ok ' if good else '???', name, prop, kind, r.returncode, time.time() - t0, ' / '.join(l[:140] for l in o.splitlines() if l.startswith(('VIOLATION', 'failed obl', 'failing', 'BOUNDED', 'no answer')))[:700]), flush=True)
    finally: shutil.rmtree(w, ignore_errors=True)
