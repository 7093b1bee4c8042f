"""Contracts of ps.cc and of RenderPages (C01, C02, C03)."""
from spec import *
from val import *
def sv(s): return z3.StringVal(s)
cat = B.cat
def num(x): return B.fmt6(real(x))
# ---- text of a list, element by element: prefix(list, k)
_pf = {}
def prefix(kind, v, k):
    ls = leaves(strip_ghost(v.e))
    key = (kind, tuple(str(l.sort()) for l in ls))
    if key not in _pf: _pf[key] = z3.Function('text_of_%s' % kind, *([l.sort() for l in ls] + [Int, Str]))
    return _pf[key](*(ls + [z3.IntVal(k) if isinstance(k, int) else k]))
def unfold(kind, v, k): return ('use: text of the first elements', prefix(kind, v, k + 1) == cat(prefix(kind, v, k), ITEM[kind](v.at(k if is_leaf(k) else z3.IntVal(k)))))
def start(kind, v): return ('use: text of no elements', prefix(kind, v, 0) == sv(''))
escf = z3.Function('escaped_prefix', Str, Int, Str)
def esc1(c): return If(Or(c == sv('('), c == sv(')'), c == sv('\\')), cat(sv('\\'), c), If(c == engine_str('\r'), sv('\\r'), c))
def engine_str(s): return B.str_lit(s.encode('latin1'))
def escaped(s): return escf(s, z3.Length(s))
def line_item(l): return cat(sv('newpath '), num(l['o'].x), sv(' '), num(l['o'].y), sv(' moveto '), num(l['t'].x), sv(' '), num(l['t'].y), sv(' lineto stroke\n'))
def arc_item(a): return cat(sv('newpath '), num(a['center'].x), sv(' '), num(a['center'].y), sv(' '), num(a['r']), sv(' '), num(a['start'] * 180 / B.PI), sv(' '), num(a['end'] * 180 / B.PI), sv(' arc stroke\n'))
def text_item(t):
    return cat(sv('newpath '), num(t['at'].x), sv(' '), num(t['at'].y), sv(' moveto ('), If(t['raw'], t['str'], escaped(t['str'])), sv(') '), If(t['center'], sv('CenterText '), sv('')), sv('show\n'))
ITEM = {'lines': line_item, 'arcs': arc_item, 'text': text_item}

def writer(kind, q, extra_loops=()):
    def ens(S):
        v, o0, o1 = S.arg(0), S.arg(1), S.post(1)
        if S.ex.cur is not S.con:
            S.ex.opt.setdefault('written ' + kind, []).append(v)
            return [start(kind, v), ('the text', o1 == cat(o0, prefix(kind, v, v.n)))] + ([unfold(kind, v, 0)] if simp_int(v.n) == 1 else [])
        return [start(kind, v), ('exactly the %s of the list, in order' % kind, o1 == cat(o0, prefix(kind, v, v.n)))]
    def inv(L): return [start(kind, L.S.arg(0)), ('the first elements are written', L.argnow(1) == cat(L.S.arg(1), prefix(kind, L.S.arg(0), L.k)))]
    def body(L): return [unfold(kind, L.S.arg(0), L.k)]
    return Contract(q, ensures=ens, modifies=['#1'], loops=[{'inv': inv, 'body': body}] + list(extra_loops))
def simp_int(n):
    n = simp(n)
    return n.as_long() if z3.is_int_value(n) else None
LINES = writer('lines', 'ps::LinesToPs')
ARCS = writer('arcs', 'ps::ArcToPs')
def esc_text(L): return L['t']['str']
def esc_inv(L):
    s = esc_text(L); got = L.find(lambda v: is_leaf(v) and v.sort() == Str, 's')
    return [('use: nothing escaped', escf(s, z3.IntVal(0)) == sv('')), ('the first characters are escaped', got == escf(s, L.k))]
def esc_body(L):
    s = esc_text(L)
    return [('use: one more character', escf(s, L.k + 1) == cat(escf(s, L.k), esc1(z3.SubString(s, L.k, 1))))]
TEXT = writer('text', 'ps::TextToPs', [{'inv': esc_inv, 'body': esc_body}])

# ---- decoding a literal: what a PostScript interpreter makes of the characters between the outer parentheses
def decode_lemmas():
    """Reading escaped(s) from inside a literal: by induction over s, after each escaped character the interpreter is inside the literal, at nesting
    depth 0 with no escape pending, and has produced exactly the characters escaped so far. The step is proved for every character."""
    def build():
        c = z3.Const('c', Str)
        one = z3.Length(c) == 1
        n = z3.IntVal(0); E = z3.IntVal(1); CR = z3.IntVal(2); BAD = z3.IntVal(3)
        def step(st, x):
            """state (mode, depth, produced) on one character x; mode: 0 plain, 1 after a backslash, 2 after a carriage return, 3 ended or undefined"""
            m, d, p = st
            simple = And(x != sv('('), x != sv(')'), x != sv('\\'), x != engine_str('\r'))
            # plain
            m0 = If(x == sv('\\'), E, If(x == engine_str('\r'), CR, If(And(x == sv(')'), d == 0), BAD, n)))
            d0 = If(x == sv('('), d + 1, If(x == sv(')'), d - 1, d))
            p0 = If(x == sv('\\'), p, If(x == engine_str('\r'), cat(p, sv('\n')), If(And(x == sv(')'), d == 0), p, cat(p, x))))
            # after a backslash: n r t b f ( ) \ ; octal digits and line ends start longer forms this code never writes
            digit = z3.InRe(x, z3.Range('0', '7'))
            m1 = If(Or(digit, x == sv('\n'), x == engine_str('\r')), BAD, n)
            p1 = cat(p, If(x == sv('n'), sv('\n'), If(x == sv('r'), engine_str('\r'), If(x == sv('t'), engine_str('\t'), If(x == sv('b'), engine_str('\b'), If(x == sv('f'), engine_str('\f'), x))))))
            # after a carriage return: a newline belongs to it
            m2 = If(x == sv('\n'), n, m0); d2 = If(x == sv('\n'), d, d0); p2 = If(x == sv('\n'), p, p0)
            return (If(m == 0, m0, If(m == 1, m1, If(m == 2, m2, BAD))), If(m == 0, d0, If(m == 2, d2, d)), If(m == 0, p0, If(m == 1, p1, If(m == 2, p2, p))))
        def run(st, e, ln):
            for i in range(ln): st = step(st, z3.SubString(e, i, 1))
            return st
        out = []
        p = z3.Const('produced', Str); e = z3.Const('e', Str)
        for ln in (1, 2):
            m, d, q = run((n, z3.IntVal(0), p), e, ln)
            out.append(('an escaped character of %d bytes is read back as that character' % ln, [one, e == esc1(c), z3.Length(e) == ln], And(m == 0, d == 0, q == cat(p, c))))
        out.append(('an escaped character has one or two bytes', [one], And(z3.Length(esc1(c)) >= 1, z3.Length(esc1(c)) <= 2)))
        m, d, q = step((n, z3.IntVal(0), p), sv(')'))
        out.append(('the closing parenthesis then ends the literal', [], And(m == 3, q == p)))
        return out
    return Lemma('PostScript reads an escaped literal back', build)

# ---- document structure
FT, FN = B.flag('FLAGS_timestamp', z3.BoolSort()), B.flag('FLAGS_number_pages', z3.BoolSort())
def page_no(k, n): return cat(sv('page '), B.intstr(k), sv(' of '), B.intstr(n))
HOK = z3.Function('is_document_header', Str, Str, z3.BoolSort())
POK = z3.Function('is_page_header', Str, Int, Int, z3.BoolSort())
FOK = z3.Function('is_page_footer', Str, z3.BoolSort())
def added(S, i):
    """what was written to argument i, as a name for callers"""
    x = z3.Const(fresh_name('written'), Str)
    S.ex.opt.setdefault('added', []).append((S.con.q, x))
    return x
def _dochdr(S):
    src, o0, o1 = S.arg(0), S.arg(1), S.post(1)
    if S.ex.cur is not S.con:
        x = added(S, 1); return [('written', o1 == cat(o0, x)), ('a header', HOK(x, src))]
    x = fresh(Str, 'x')
    return [('only adds to the output', z3.PrefixOf(cat(o0, sv('%')), o1)), ('ends its last line', z3.SuffixOf(sv('\n'), o1)), ('names the script', z3.Contains(strip(o0, o1), cat(sv('Source: '), src, sv('\n')))),
            ('defines the centring operator', z3.Contains(strip(o0, o1), sv('/CenterText {'))), ('sets the font', z3.Contains(strip(o0, o1), sv('setfont')))]
def strip(o0, o1):
    """o1 without its prefix o0"""
    o1 = simp(o1)
    if z3.is_app(o1) and o1.decl().kind() == z3.Z3_OP_SEQ_CONCAT and o1.arg(0).eq(o0): return cat(*o1.children()[1:])
    return z3.SubString(o1, z3.Length(o0), z3.Length(o1))
DOCHDR = Contract('ps::DocumentHeader', ensures=_dochdr, modifies=['#1'])
def _pagehdr(S):
    k, n, o0, o1 = S.arg(0), S.arg(1), S.arg(2), S.post(2)
    if S.ex.cur is not S.con:
        x = added(S, 2); return [('written', o1 == cat(o0, x)), ('a page header', POK(x, k, n))]
    w = S.ex.opt.get('written text', [])
    if len(w) != 1: raise SpecMismatch('the page number is not written as one text')
    v = w[0]; t = v.at(z3.IntVal(0)); want = cat(If(FT, B.NOW, sv('')), If(And(FT, FN), sv(' '), sv('')), If(FN, page_no(k, n), sv('')))
    p = z3.Const('p', Str)
    lab = cat(sv(' page '), B.intstr(k), sv(' of '), B.intstr(n), sv('\n'))
    return [('the page number is printed when numbering is on', Imp(Or(FT, FN), z3.SuffixOf(prefix('text', v, 1), o1))), ('one text is written', v.n == 1),
            ('it is the time and the page number as asked for', Imp(Or(FT, FN), And(t['str'] == want, Not(t['raw'])))),
            ('the page starts with its label', z3.PrefixOf(o0, o1)), ('labelled', z3.Contains(strip(o0, o1), lab)), ('page setup', z3.Contains(strip(o0, o1), sv('setpagedevice')))]
PAGEHDR = Contract('ps::PageHeader', ensures=_pagehdr, modifies=['#2'])
def _foot(S):
    o0, o1 = S.arg(0), S.post(0)
    if S.ex.cur is not S.con:
        x = added(S, 0); return [('written', o1 == cat(o0, x)), ('a footer', FOK(x))]
    return [('shows the page', z3.PrefixOf(cat(o0, sv('\nshowpage')), o1))]
FOOT = Contract('ps::PageFooter', ensures=_foot, modifies=['#0'])

HS = z3.Function('header_of_page', Int, Str); FS = z3.Function('footer_of_page', Int, Str); OUT = z3.Function('output_before_page', Int, Str)
def page_text(p): return [prefix(k, p[f], p[f].n) for k, f in (('text', 'text'), ('arcs', 'arcs'), ('lines', 'lines'))]
def page_post(S, j):
    import itertools
    v = S.arg(1); ts = page_text(v.at(j))
    return And(POK(HS(j), j + 1, v.n), FOK(FS(j)), Or([OUT(j + 1) == cat(OUT(j), HS(j), *q, FS(j)) for q in itertools.permutations(ts)]))
def added_by(S, q):
    x = [b for a, b in S.ex.opt.get('added', []) if a == q]
    if not x: raise SpecMismatch('%s is not called' % q)
    return x[-1]
def render_inv(L):
    S = L.S; j = I()
    return [('use: output before the first page', Imp(L.k == 0, OUT(0) == L.pre('out'))), ('the page counter', L['page_number'] == L.k), ('the output so far', L['out'] == OUT(L.k)),
            ('the pages so far', ForAll([j], Imp(And(0 <= j, j < L.k), page_post(S, j)), patterns=[HS(j)]))]
def render_steps(L):
    S, k = L.S, L.k
    return [('use: the header of this page', HS(k) == added_by(S, 'ps::PageHeader')), ('use: its footer', FS(k) == added_by(S, 'ps::PageFooter')), ('use: the output after it', OUT(k + 1) == L['out']),
            ('this page', page_post(S, k))]
def _render(S):
    v, o0, o1 = S.arg(1), S.arg(2), S.post(2); j = I()
    h = added_by(S, 'ps::DocumentHeader') if S.ex.cur is S.con else z3.Const(fresh_name('header'), Str)
    if S.ex.cur is not S.con: S.ex.opt.setdefault('rendered', []).append((S.arg(0), S.arg(1)))
    return [('the header first', And(HOK(h, S.arg(0)), OUT(0) == cat(o0, h))), ('then the pages', o1 == OUT(v.n)), ('each page once, numbered, closed', ForAll([j], Imp(And(0 <= j, j < v.n), page_post(S, j)), patterns=[HS(j)]))]
RENDER = Contract('stl2ps::RenderPages', ensures=_render, modifies=['#2'], loops=[{'inv': render_inv, 'steps': render_steps}])
def contracts(): return [LINES, ARCS, TEXT, DOCHDR, PAGEHDR, FOOT, RENDER]
