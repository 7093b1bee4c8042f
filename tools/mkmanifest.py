"""Writes MANIFEST.json from vc/props.py and properties.jsonl."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/vc'); os.chdir(V)
import props
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
checks, na = [], []
for i in ids:
    s = props.PROPS.get(i)
    if s is None:
        na.append({'property': i, 'reason': props.NOT_APPLICABLE.get(i, 'no check has been built for it yet')}); continue
    lvl = s.get('level', 'proof')
    checks.append({'property': i, 'quick_cmd': 'python3-vt vc/check.py %s quick' % i, 'thorough_cmd': 'python3-vt vc/check.py %s thorough' % i,
                   'technique': 'contract-based deductive verification (contracts on the functions in /repo, obligations discharged by z3/cvc5); executable oracle replays failures'
                                if lvl == 'proof' else 'contract-based deductive verification where in reach; bounded executable contracts for the rest',
                   'level': lvl, 'level_note': s.get('note', '') + ' ' + props.NOTE})
m = {'version': 1, 'setup_cmd': 'python3-vt vc/build.py setup', 'checks': checks, 'not_applicable': na}
json.dump(m, open('MANIFEST.json', 'w'), indent=1); open('MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not')
