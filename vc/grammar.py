"""Mechanical extraction from the generated parser and scanner, on every run.

bison copies the action of each grammar rule into one `case` of the generated parser, flex that of each pattern into one
`case` of the generated scanner.  Here each of these case bodies becomes a function of its own, text unchanged but for the
names bison and flex use for the values at hand:
  yylhs.value.T           -> value0 (the value of the left-hand side; by default that of the first symbol)
  yystack_[n].value.T     -> value<k>_T, a parameter (k-th symbol of the right-hand side; T must be its declared type)
  yystack_[n].location    -> place<k>, a parameter
  YYERROR                 -> return of a null pointer (the rule refuses)
Dropped: the stack, the tables and the driver of the parser; the matching loop of the scanner."""
import os, re, subprocess, tempfile, shutil
import xml.etree.ElementTree as ET
import build

class Rule:
    def __init__(s, n, lhs, rhs, types): s.n, s.lhs, s.rhs, s.types = n, lhs, rhs, types
    def key(s): return s.lhs + ' : ' + ' '.join(s.rhs)
_g = {}
def grammar():
    """(rules, start symbol, unresolved or silently resolved conflicts) of the current parser.y, read by bison itself"""
    if 'g' in _g: return _g['g']
    d = tempfile.mkdtemp(dir=build.CACHE)
    try:
        r = build.run(['bison', '--xml=g.xml', '-o', 'g.cc', build.SRC + '/parser.y'], cwd=d)
        t = ET.parse(d + '/g.xml').getroot()
    finally: shutil.rmtree(d, ignore_errors=True)
    types = {x.get('name'): x.get('type') for x in t.iter('terminal')}; types.update({x.get('name'): x.get('type') for x in t.iter('nonterminal')})
    codes = {x.get('name'): int(x.get('token-number')) for x in t.iter('terminal')}
    rules = []
    for x in t.iter('rule'):
        if x.find('lhs') is None: continue
        rules.append(Rule(int(x.get('number')), x.find('lhs').text, [y.text for y in x.find('rhs').findall('symbol')], types))
    conflicts = sum(1 for x in t.iter('conflict')) + sum(len(list(x)) for x in t.iter('solved-conflicts')) + r.stderr.decode().count('conflict')
    _g['g'] = (rules, codes, conflicts)
    return _g['g']

def cases(text, head, end):
    out = {}
    for m in re.finditer(head, text):
        b = text[m.end():]; b = b[:re.search(end, b).start()]
        out[int(m.group(1))] = '\n'.join(l for l in b.split('\n') if not l.startswith('#line'))
    return out

def actions():
    rules, codes, _ = grammar()
    src = build._rd(build.gendir() + '/stl-to-ps/parser.tab.cc').decode('latin1')
    body = src[src.index('switch (yyn)'):]
    cs = cases(body, r'\n  case (\d+): // [^\n]*', r'\n    break;\n')
    out = ['// extracted from parser.tab.cc', '#include "stl-to-ps/parser.tab.cc"', '#undef YYERROR', '#define YYERROR return {}', 'namespace stl2ps_parser {', 'struct Actions : parser {']
    for r in rules:
        if r.lhs == '$accept': continue
        n = len(r.rhs); lt = r.types[r.lhs]; ps = []
        if not lt: continue
        T = lambda t: 'decltype(semantic_type::%s)' % t
        for k, s in enumerate(r.rhs, 1):
            if r.types.get(s): ps.append('%s value%d_%s' % (T(r.types[s]), k, r.types[s]))
            ps.append('const location_type& place%d' % k)
        b = cs.get(r.n + 1)
        first = 'value1_%s' % r.types[r.rhs[0]] if r.rhs and r.types.get(r.rhs[0]) == lt else None
        if b is None: b = ''
        b = re.sub(r'yylhs\.value\.%s\b' % lt, 'value0', b)
        b = re.sub(r'yystack_\[(\d+)\]\.value\.(\w+)', lambda m: 'value%d_%s' % (n - int(m.group(1)), m.group(2)), b)
        b = re.sub(r'yystack_\[(\d+)\]\.location', lambda m: 'place%d' % (n - int(m.group(1))), b)
        out += ['  // %s' % r.key(), '  %s rule_%d(%s) {' % (T(lt), r.n, ', '.join(ps)), '    %s value0%s;' % (T(lt), ' = ' + first if first else ''), b, '    return value0;', '  }']
    return '\n'.join(out + ['};', '}  // namespace stl2ps_parser', ''])

def lexacts():
    src = build._rd(build.gendir() + '/stl-to-ps/lexer.yy.cc').decode('latin1')
    body = src[src.index('/* beginning of action switch */'):]
    body = body[:body.index('YY_END_OF_BUFFER')]
    cs = cases(body, r'\ncase (\d+):\n(?:/\* rule \d+ can match eol \*/\n)?YY_RULE_SETUP', r'\n\tYY_BREAK')
    out = ['// extracted from lexer.yy.cc', '#include "stl-to-ps/lexer.yy.cc"', '#undef yytext', '#undef yyleng', '#undef ECHO', '#define ECHO return -2', 'namespace stl2ps_scanner {',
           'void at_each_token(int yyleng, stl2psscan_t yyscanner) { YY_USER_ACTION }']
    for n in sorted(cs):
        out += ['int pattern_%d(const char* yytext, int yyleng, stl2ps_parser::parser::semantic_type* yylval_param, stl2psscan_t yyscanner) {' % n, cs[n], '  return -1;  // nothing: go on', '}']
    return '\n'.join(out + ['}  // namespace stl2ps_scanner', ''])

def extract(n):
    p = build.gendir() + '/stl-to-ps/%s.cc' % n
    text = actions() if n == 'actions' else lexacts()
    if not os.path.exists(p) or open(p, encoding='latin1').read() != text:
        t = p + '.%d.tmp' % os.getpid()
        with open(t, 'w', encoding='latin1') as f: f.write(text)
        os.replace(t, p)
    return p

# ---------------------------------------------------------------- the scanner's tables
def tables():
    src = build._rd(build.gendir() + '/stl-to-ps/lexer.yy.cc').decode('latin1')
    def arr(n):
        m = re.search(r'\b%s\[(\d+)\]\s*=\s*\{([^}]*)\}' % n, src)
        if not m: raise ValueError('no table ' + n)
        v = [int(x) for x in re.findall(r'-?\d+', m.group(2))]
        return v
    t = {n: arr('yy_' + n) for n in ('accept', 'ec', 'meta', 'base', 'def', 'nxt', 'chk', 'rule_can_match_eol')}
    match = src[src.index('yy_current_state = yyg->yy_start;'):src.index('/* beginning of action switch */')]
    if 'YY_AT_BOL' in match or 'yy_state_ptr' in match: raise ValueError('the scanner looks at more than the text')
    m = re.search(r'while \( yy_base\[yy_current_state\] != (\d+) \)', match); l = re.search(r'if \( yy_current_state >= (\d+) \)', match)
    if not m or not l: raise ValueError('another matching loop')
    t['jam'], t['limit'] = int(m.group(1)), int(l.group(1))
    z = re.search(r'YY_CHAR yy_c = (\d+);', src); t['nul'] = int(z.group(1)) if z else t['ec'][0]
    t['end'] = int(re.search(r'#define YY_END_OF_BUFFER (\d+)', src).group(1))
    return t
def tstep(t, s, b):
    if t['base'][s] == t['jam']: return None
    c = t['ec'][b] if b else t['nul']
    while t['chk'][t['base'][s] + c] != s:
        s = t['def'][s]
        if s >= t['limit']: c = t['meta'][c]
    s = t['nxt'][t['base'][s] + c]
    return None if t['base'][s] == t['jam'] and t['accept'][s] == 0 else s
# the token language a script is written in
KEYWORDS = ['angle', 'dia', 'dim', 'draw', 'load', 'page', 'rad', 'text']
PUNCT = b'{}[]()=;:,@'
AL = set(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'); DG = set(b'0123456789')
def rstep(s, b):
    """specification: state after one more character (None: no token starts like this)"""
    c = bytes([b])
    if s == '':
        if b in PUNCT: return 'p' + chr(b)
        if b in AL: w = 'i' + chr(b); return w if any(k.startswith(w[1:]) for k in KEYWORDS) else 'I'
        if b in DG: return 'n1'
        if c in b'+-': return 'n0'
        if c == b'.': return 'n.'
        if c == b'"': return 's0'
        if c in b' \t\n\r': return 'blank'
        if c == b'/': return '/'
        return 'other'
    if s[0] == 'i' or s == 'I':
        if b not in AL and b not in DG: return None
        w = s + chr(b); return w if s != 'I' and any(k.startswith(w[1:]) for k in KEYWORDS) else 'I'
    if s in ('n0',): return 'n1' if b in DG else 'n.+' if c == b'.' else None
    if s in ('n.', 'n.+'): return 'n2' if b in DG else None
    if s == 'n1': return 'n1' if b in DG else 'n2' if c == b'.' else None
    if s == 'n2': return 'n2' if b in DG else None
    if s in ('s0', 's'): return 'S' if c == b'"' else 's\\' if c == b'\\' else None if c == b'\n' else 's'
    if s == 's\\': return 's' if c in b"'\"?\\n" else None
    if s == '/': return '//' if c == b'/' else None
    if s == '//': return None if c == b'\n' else '//'
    return None
def rclass(s):
    if s is None or s == '': return None
    if s[0] == 'p': return "'%s'" % s[1]
    if s == 'I' or s[0] == 'i': return s[1:].upper() if s[1:] in KEYWORDS else 'ID'
    if s in ('n1', 'n2'): return 'NUM'
    if s == 'S': return 'STRING_LIT'
    if s in ('blank', '//'): return 'nothing'
    if s in ('n0', 'n.', 's0', '/', 'other'): return 'stray'       # one character that begins nothing
    return None
def estep(s, b):
    """a run of blanks and comments may be taken in one piece: where it can go on ('//e': a comment after blanks)"""
    if s in ('blank', '//', '//e'):
        if s != 'blank' and b != 10: return '//e' if s == '//e' else None
        return 'blank' if bytes([b]) in (b' ', b'\t', b'\n', b'\r') else '/e' if b == 47 and s == 'blank' else None
    if s == '/e': return '//e' if b == 47 else None
    return None
def scanner():
    """exhaustive comparison of the scanner's tables with the token language: (classes of each pattern, differences, pairs).
    A state of the walk is (state of the tables, state of the specification, is the text a token that has to be recognised, line end seen)"""
    t = tables(); todo = [((1, '', True, False), b'')]; seen = {(1, '', True, False)}; cls = {}; diff = []
    while todo:
        (a, r, must, nl), w = todo.pop()
        acc = t['accept'][a] if a is not None else 0
        if w:
            acc = None if acc in (0, t['end'], t['end'] - 1) else acc
            c = 'nothing' if r == '//e' else rclass(r)
            if acc is None and c is not None and must or acc is not None and c is None: diff.append((w, 'pattern %s' % acc, c))
            elif acc is not None:
                cls.setdefault(acc, {}).setdefault(c, w)
                if nl and not t['rule_can_match_eol'][acc]: diff.append((w, 'its line end is not counted', c))
                if r == '//e': r, must = '//', True        # such a comment goes on to the end of its line
        if len(diff) > 20: break
        for b in range(256):
            x = tstep(t, a, b) if a is not None else None; y = rstep(r, b) if r is not None else None; m = must
            if y is None and r is not None: y, m = estep(r, b), False
            if y is None: m = True
            if x is None and (y is None or not m): continue
            q = (x, y, m, nl or b == 10)
            if q not in seen: seen.add(q); todo.append((q, w + bytes([b])))
    return cls, diff, len(seen)
