"""Contracts of the grammar's actions and of the scanner's (C29), by what is read, not by number or position."""
from spec import *
import grammar
from contracts.draw import diag0, one
VALUE_OF = {'location': 'location', 'point': 'point', 'input': 'doc', 'model': 'model', 'page': 'page', 'string_lit': 'str', 'arg': 'meta', 'page_parts': 'page_parts',
            'draw_parts': 'draw', 'text_parts': 'meta_list', 'dim_parts': 'meta_list', 'ID': 'str', 'STRING_LIT': 'str', 'NUM': 'fp'}
HEAPED = ('meta', 'point', 'model', 'page')       # reached from other elements: objects with an identity
class Ctx:
    """one application of a rule: the values and places of the symbols read, and what the action leaves"""
    def __init__(c, S, rule):
        c.S, c.r, c.ex = S, rule, S.ex
        c.pos = {p['n']: i for i, p in enumerate(S.f['params'])}
    def idx(c, k): return c.pos['value%d_%s' % (k, c.r.types[c.r.rhs[k - 1]])]
    def ptr(c, k): return c.S.vals[c.idx(k)]
    def val(c, k): return c.S.arg(c.idx(k))             # as it was read
    def now(c, k): return c.S.post(c.idx(k))
    def place(c, k):
        l = c.S.arg(c.pos['place%d' % k]); f = l['begin']['filename']
        return c.ex.load(HLV(f.id, f.to), c.S.old), l['begin']['line']
    def res(c):
        """the result, as a value"""
        r = c.S.ret
        if isinstance(r, LP): return c.ex.load(r.lv, c.S.new)
        if isinstance(r, HP): return c.ex.load(HLV(r.id, c.dyn(r.to)), c.S.new)
        return r
    def rec(c, q):
        for t, (tu, r) in c.ex.prog.recq.items():
            if r['n'] == q: break
        n = q
        for (tu, rid), r in c.ex.prog.recs.items():
            if r['n'] == n: return Ty('rec', q=q, key=r['mn'].replace('struct ', '').replace('class ', ''), rid=rid, tu=tu)
        raise SpecMismatch('no type ' + q)
    def kind(c, name):
        """the record type whose written name is name"""
        for (tu, rid), r in c.ex.prog.recs.items():
            if tu != 'actions': continue
            key = r['mn'].replace('struct ', '').replace('class ', '')
            if key.replace('> >', '>>') == name: return Ty('rec', q=r['n'], key=key, rid=rid, tu=tu)
        raise SpecMismatch('no type ' + name)
    def dyn(c, t): return t
    def at(c, id_, name): return c.ex.load(HLV(id_, c.kind(name)), c.S.new)
    def isa(c, id_, name): return dyntype(id_) == c.ex.tag(c.kind(name).key)
    def file0(c): return c.S.old.cells['alloc']
    def made(c, id_): return And(id_ >= c.S.old.cells['alloc'], id_ < c.S.new.cells['alloc'])
    def not_null(c):
        r = c.S.ret
        return r.id != 0 if isinstance(r, HP) else Not(r.null)
def stands(v, place):
    f, l = place; return And(v['loc_']['filename'] == f, v['loc_']['line'] == l)
def appended(new, old, x, eq):
    """new is old with x at the end"""
    j = I()
    return [('one more', new.n == old.n + 1), ('at the end', eq(new.at(old.n), x)), ('those before it stay', ForAll([j], Imp(And(0 <= j, j < old.n), teq(new.at(j), old.at(j))), patterns=[vpat(new)(j)]))]
def ideq(a, b): return a.id == b.id if isinstance(a, HP) and isinstance(b, HP) else z3.BoolVal(False)
def same_list(a, b):
    j = I(); return And(a.n == b.n, ForAll([j], Imp(And(0 <= j, j < b.n), teq(a.at(j), b.at(j))), patterns=[vpat(a)(j)]))
def on(c, k):
    """the result is the list of symbol k, continued: the same object"""
    r, p = c.S.ret, c.ptr(k)
    return ('it continues what was read', z3.BoolVal(isinstance(r, LP) and isinstance(p, LP) and repr(r.lv) == repr(p.lv)) if not isinstance(r, HP) or not isinstance(p, HP) else r.id == p.id)
# ---- what each rule yields
def location(c): v = c.res(); return [('x and y as written', And(v.v[0] == c.val(2), v.v[1] == c.val(4)))]
def point(c):
    n = 'stl2ps::Val'; v = c.at(c.S.ret.id, n)
    return [('a fixed point', c.isa(c.S.ret.id, n)), ('coordinates as written', peq(v['p_'], [c.val(2), c.val(4), c.val(6)])), ('where it stands', stands(v, c.place(1)))]
def lookup(c):
    n = 'stl2ps::PointFunc'; v = c.at(c.S.ret.id, n)
    return [('a lookup', c.isa(c.S.ret.id, n)), ('its name as written', v['name_'] == c.val(1)), ('of the point it is applied to', v['p_'].id == c.ptr(3).id), ('where it stands', stands(v, c.place(1)))]
def rec_eq(a, b): return teq(a, b)
def add(field, other):
    def f(c):
        d0, d1 = c.val(1), c.now(1); m = c.ex.load(HLV(c.ptr(2).id, c.ptr(2).to), c.S.old)
        return [on(c, 1)] + appended(d1[field], d0[field], m, lambda a, b: And([teq(a[k], b[k]) for k in b.f])) + [('the others stay', same_list(d1[other], d0[other]))]
    return f
def start(c):
    r = c.S.ret; d = c.ex.load(c.ex.member_of(c.S.this_lv, 'result', None, c.S.old), c.S.old)
    return [('the document being read', r.id == d.id if isinstance(r, HP) and isinstance(d, HP) else z3.BoolVal(False))]
def model(c):
    v = c.res(); return [('a model', c.made(c.S.ret.id)), ('name as written', v['name'] == c.val(2)), ('file as written', v['source'] == c.val(4)), ('where it stands', stands(v, c.place(1)))]
def page(c):
    v, p = c.res(), c.val(3)
    return [('a page', c.made(c.S.ret.id)), ('its properties, in order', same_list(v['meta'], p['meta'])), ('its elements, in order', same_list(v['draws'], p['draws'])), ('where it stands', stands(v, c.place(1)))]
def literals(c): return [on(c, 1), ('one after the other', c.res() == z3.Concat(c.val(1), c.val(2)))]
def literal(c): return [on(c, 1), ('as written', c.res() == c.val(1))]
def prop(name, value):
    def f(c):
        n = 'stl2ps::' + name; id_ = c.S.ret.id; v = c.at(id_, n)
        return [('the kind of value', c.isa(id_, n)), ('a property', c.made(id_)), ('name as written', v['name'] == (z3.StringVal('@') if c.r.rhs[0] == "'@'" else c.val(1))), ('value as written', value(c, v['value'])), ('where it stands', stands(v, c.place(1)))]
    return f
def ratio(c):
    a, b, id_ = c.val(3), c.val(5), c.S.ret.id; n = 'stl2ps::MetaValue<std::pair<int, int>>'
    whole = lambda x: And(x == If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x))), x <= 10 ** 9, x >= -10 ** 9)
    ok = id_ != 0; v = c.at(id_, n); s = v['value']; d0, d1 = c.S.old.cells['diag'], c.S.new.cells['diag']
    return [('whole numbers are accepted, nothing else', ok == And(whole(a), whole(b))), ('a refusal is diagnosed', Or(ok, d1 > d0)), ('the kind of value', Imp(ok, c.isa(id_, n))), ('a property', Imp(ok, c.made(id_))), ('name as written', Imp(ok, v['name'] == c.val(1))),
            ('value as written', Imp(ok, And(z3.ToReal(s['first']) == a, z3.ToReal(s['second']) == b))), ('where it stands', Imp(ok, stands(v, c.place(1))))]
def grow(field, k):
    """a property at the end of the list (or of one field of the record) of symbol 1"""
    def f(c):
        a, b = c.val(1), c.now(1)
        if field is None: return [on(c, 1)] + appended(b, a, c.ptr(k), ideq)
        return [on(c, 1)] + appended(b[field], a[field], c.ptr(k), ideq) + [('the rest stays', same_list(b[o], a[o])) for o in a.f if o != field]
    return f
def element(kind, field, at, parts):
    """a new element at the end"""
    def f(c):
        a, b = c.val(1), c.now(1); n = 'stl2ps::' + kind; L = b[field]; x = L.at(a[field].n); v = c.at(x.id, n)
        return [on(c, 1)] + appended(L, a[field], x, lambda p, q: And(c.made(p.id), c.isa(p.id, n))) + [('the rest stays', same_list(b[o], a[o])) for o in a.f if o != field] + parts(c, v) + [('where it stands', stands(v, c.place(at)))]
    return f
def draw_parts(c, v): d = c.val(5); return [('the model as written', v['name'] == c.val(3)), ('its properties, in order', same_list(v['meta_list'], d['meta_list'])), ('its dimensions, in order', same_list(v['dims'], d['dims']))]
def text_parts(c, v): return [('the text as written', v['text'] == c.val(4)), ('its properties, in order', same_list(v['meta_list'], c.val(7)))]
def no_parts(c, v): return [('no properties', v['meta_list'].n == 0)]
def dim_parts(c, v): return [('its properties, in order', same_list(v['meta_list'], c.val(4)))]
def nothing(*fields):
    def f(c):
        v = c.res(); return [('empty', And([v[x].n == 0 for x in fields] if fields else [v.n == 0]))]
    return f
def single(c):
    v = c.res(); return [('one property', v.n == 1), ('the one read', ideq(v.at(0), c.ptr(1)))]
def val_is(c, v, k): return teq(v, c.val(k))
RULES = {
 "location : '[' NUM ',' NUM ']'": location, "point : '[' NUM ',' NUM ',' NUM ']'": point, "point : ID '(' point ')'": lookup,
 "input : input model": add('models', 'pages'), "input : input page": add('pages', 'models'), "input : ": start,
 "model : LOAD ID '=' STRING_LIT ';'": model, "page : PAGE '{' page_parts '}'": page,
 "string_lit : string_lit STRING_LIT": literals, "string_lit : STRING_LIT": literal,
 "arg : ID '=' string_lit": prop('MetaValue<std::basic_string<char>>', lambda c, v: v == c.val(3)), "arg : ID '=' point": prop('MetaRef<stl2ps::Point>', lambda c, v: ideq(v, c.ptr(3))),
 "arg : ID '=' NUM": prop('MetaValue<float>', lambda c, v: v == c.val(3)), "arg : ID '=' location": prop('MetaValue<Eigen::Matrix<double, 1, 2>>', lambda c, v: peq(v, c.val(3))),
 "arg : ID '=' NUM ':' NUM": ratio, "arg : '@' location": prop('MetaValue<Eigen::Matrix<double, 1, 2>>', lambda c, v: peq(v, c.val(2))),
 "page_parts : page_parts arg ';'": grow('meta', 2), "page_parts : page_parts DRAW ID '{' draw_parts '}'": element('Draw', 'draws', 3, draw_parts),
 "page_parts : page_parts TEXT '[' string_lit ']' '{' text_parts '}'": element('Text', 'draws', 2, text_parts), "page_parts : ": nothing('meta', 'draws'),
 "draw_parts : draw_parts arg ';'": grow('meta_list', 2), "draw_parts : ": nothing('meta_list', 'dims'),
 "text_parts : text_parts arg ';'": grow(None, 2), "text_parts : ": nothing(), "dim_parts : dim_parts ',' arg": grow(None, 3), "dim_parts : arg": single,
}
for _k, _n in (('ANGLE', 'Angle'), ('DIA', 'Dia'), ('DIM', 'Dim'), ('RAD', 'Rad')):
    RULES["draw_parts : draw_parts %s '(' ')' ';'" % _k] = element(_n, 'dims', 2, no_parts)
    RULES["draw_parts : draw_parts %s '(' dim_parts ')' ';'" % _k] = element(_n, 'dims', 2, dim_parts)
TOKENS = ['ANGLE', 'DIA', 'DIM', 'DRAW', 'LOAD', 'PAGE', 'RAD', 'TEXT', 'NUM', 'ID', 'STRING_LIT'] + ["'%s'" % c for c in '{}[]()=;:,@']
# ---- set-up: what was read before exists, each thing once
def setup(rule):
    def f(S, st):
        diag0(S, st)
        a = z3.Int('objects_so_far'); st.cells['alloc'] = a; st.facts.append(a >= 1)
        fs = st.facts
        c = Ctx(S, rule)
        for k, s in enumerate(rule.rhs, 1):
            t = rule.types.get(s)
            if s.isupper() or s[0] == "'": fs.append(S.arg(c.pos['place%d' % k])['begin']['filename'].id != 0)       # a token's place names the file
            if t in HEAPED: fs.append(And(c.ptr(k).id >= 1, c.ptr(k).id < a))
            elif t: older(S, c.ptr(k), st, a)
    return f
def older(S, p, st, a):
    """elements of the lists read so far are objects made before"""
    v = S._ld(p, st)
    def go(v):
        if isinstance(v, V) and isinstance(v.e, HP):
            j = I(); st.facts.append(ForAll([j], Imp(And(0 <= j, j < v.n), And(v.at(j).id >= 1, v.at(j).id < a)), patterns=[vpat(v)(j)]))
        elif isinstance(v, R):
            for x in v.f.values(): go(x)
    go(v)
def kept(c):
    """everything else made before is as it was"""
    S = c.S; out = []
    dead = [c.ptr(k).id for k, s in enumerate(c.r.rhs, 1) if c.r.types.get(s) in ('model', 'page')]
    for cell, h0 in S.ex.heap0.items():
        h1 = S.new.cells.get(cell)
        if h1 is None or h1 is h0: continue
        i = I(); o = And(0 < i, i < S.old.cells['alloc'], *[i != d for d in dead])
        for a, b in zip(leaves(h0), leaves(h1)):
            if a.eq(b): continue
            out.append(('what was read before is not touched', ForAll([i], Imp(o, z3.Select(a, i) == z3.Select(b, i)))))
    return out
def moded(rule):
    def f(S):
        c = Ctx(S, rule); out = [LV('diag')]
        for k, s in enumerate(rule.rhs, 1):
            t = rule.types.get(s)
            if t and t not in HEAPED and t != 'fp': out.append(S.lv(c.idx(k)))       # consumed
        return out
    return f
def ensures(rule):
    def f(S):
        c = Ctx(S, rule); posts = RULES[rule.key()](c)
        return ([('it yields a value', c.not_null())] if rule.key() != "arg : ID '=' NUM ':' NUM" and rule.lhs != 'input' else []) + posts + kept(c) + ([] if rule.key() == "arg : ID '=' NUM ':' NUM" else [('nothing is complained about', S.new.cells['diag'] == S.old.cells['diag'])])
    return f
def heap_params(rule):
    return [i for i, t in enumerate(x for k, s in enumerate(rule.rhs, 1) for x in ([rule.types[s]] if rule.types.get(s) else []) + ['']) if t in HEAPED]
def _complaint(S):
    l, m = S.arg(0), S.arg(1); S.ex.opt.setdefault('complaints', []).append((l, m))
    return [('reported', S.new.cells['diag'] > S.old.cells['diag'])]
COMPLAIN = Contract('parser_support::Error', extern=True, ensures=_complaint, modifies=lambda S: [LV('diag')], trusted='the parser support library prints file, line and message')
def action_contracts():
    """(contracts, reasons why the grammar itself is not the specified one)"""
    rules, codes, conflicts = grammar.grammar(); out, why = [], []
    if conflicts: why.append('the grammar has conflicts')
    keys = [r.key() for r in rules if r.lhs != '$accept']; acc = [r.rhs for r in rules if r.lhs == '$accept']
    if acc != [['input', '$end']]: why.append('another start symbol')
    for k in keys:
        if k not in RULES: why.append('a rule outside the specification: ' + k)
    for k in RULES:
        if k not in keys: why.append('a rule is missing: ' + k)
    if len(set(keys)) != len(keys): why.append('a rule stands twice')
    for s, t in VALUE_OF.items():
        if rules[0].types.get(s) != t: why.append('another value for ' + s)
    if not why:
        for r in rules:
            if r.lhs == '$accept': continue
            out.append(Contract('stl2ps_parser::Actions::rule_%d' % r.n, short='action of "%s"' % r.key(), setup=setup(r), ensures=ensures(r), modifies=moded(r), heap_params=heap_params(r)))
    return out, why
# ---- the scanner: what each kind of token hands to the parser
DECODED = z3.Function('decoded_literal', Str, Str)
TOK = 'stl2ps_scanner::'
def gh(n): return LV(('gh', n))
def _lloc(S): return LP(gh('token place'))
def scanner0(S, st):
    diag0(S, st); st.cells[('gh', 'lineno')] = fresh(Int, 'line'); st.cells[('gh', 'columnno')] = fresh(Int, 'column')
    loc = [t for t in S.ex.prog.tycache.values() if t.k == 'rec' and t.q == 'stl2ps_parser::location']
    k = rectype(S.ex, 'stl2ps_parser::location'); st.cells[('gh', 'token place')] = S.ex.mk(k, 'place')
    st.cells[('gh', 'file')] = HP(z3.Int('file_name'), TSTR); st.facts.append(z3.Int('file_name') > 0)
    st.cells[('gh', 'extra')] = OP('ScannerExtra', {'filename': st.cells[('gh', 'file')]})
def rectype(ex, q):
    for (tu, rid), r in ex.prog.recs.items():
        if tu == 'lexacts' and r['n'] == q: return Ty('rec', q=q, key=r['mn'].replace('struct ', '').replace('class ', ''), rid=rid, tu=tu)
    raise SpecMismatch('no type ' + q)
def token0(cls, several=False):
    def f(S, st):
        scanner0(S, st)
        t = z3.Const('lexeme', Str); S.vals[0] = t; st.facts += [z3.Length(t) == S.vals[1], S.vals[1] >= 1]
        kw = {k.upper(): k for k in grammar.KEYWORDS}
        if several:                  # which of its texts they are
            if cls in kw: st.facts.append(t == z3.StringVal(kw[cls]))
            elif cls == 'ID': st.facts += [t != z3.StringVal(k) for k in kw.values()]
            elif cls[0] == "'": st.facts.append(t == z3.StringVal(cls[1]))
        if cls in ('ID', 'NUM'): st.facts.append(Not(z3.Contains(t, B.E_str_lit([0]))))      # by the pattern
    return f
def outval(S, n, new=True):
    v = (S.post if new else S.arg)(2)[n]
    return S.ex.load(v.lv, S.new) if isinstance(v, LP) else v
def token(cls, code):
    def f(S):
        d0, d1 = S.old.cells['diag'], S.new.cells['diag']; t = S.vals[0]
        quiet = ('nothing is complained about', d1 == d0)
        if cls == 'nothing': return [('skipped', S.ret == -1), quiet]
        if cls == 'stray': return [('refused', S.ret == 256), ('and diagnosed', d1 > d0)]
        if cls == 'NUM':
            fits = B.NUMFITS(t); v = outval(S, 'fp'); v = v if isinstance(v, XR) else XR(v, z3.IntVal(0))
            return [('a number, or refused when no float can hold it', S.ret == If(fits, code, 256)), ('its value', Imp(fits, And(v.k == 0, v.v == B.NUMVAL(t)))), ('a refusal is diagnosed', d1 > d0 if False else If(fits, d1 == d0, d1 > d0))]
        out = [('the token', S.ret == code), quiet]
        if cls in ('ID', 'STRING_LIT'):
            v = outval(S, 'str')
            if not (is_leaf(v) and v.sort() == Str): raise SpecMismatch('its text is not a new string')
            out.append(('its text', v == (t if cls == 'ID' else DECODED(t))))
        return out
    return f
def token_frame(cls): return lambda S: [LV('diag')] + ([S.lv(2)] if cls in ('ID', 'NUM', 'STRING_LIT') else [])
def _decoded(S): return []
def _new_decoded(S): return LP(S.ex.temp(DECODED(S.arg(0)), S.new, 'new'))
def accessor(q, result=None, ens=None): return Contract(q, ensures=ens or (lambda S: []), result=result, trusted='generated by flex')
def _set_col(S): S.new.cells[('gh', 'columnno')] = S.arg(0); return []
ACCESS = [accessor('stl2psget_lloc', _lloc), accessor('stl2psget_lineno', lambda S: S.old.cells[('gh', 'lineno')]), accessor('stl2psget_column', lambda S: S.old.cells[('gh', 'columnno')]),
          accessor('stl2psset_column', None, _set_col), accessor('stl2psget_extra', lambda S: LP(gh('extra'))), accessor('stl2psget_text', lambda S: S.ex.entry.vals[0])]
def _each(S):
    l = S.new.cells[('gh', 'token place')]; n = S.old.cells[('gh', 'lineno')]
    return [('on its line', And(l['begin']['line'] == n, l['end']['line'] == n)), ('of the script', And(l['begin']['filename'].id == S.old.cells[('gh', 'file')].id, l['end']['filename'].id == S.old.cells[('gh', 'file')].id))]
EACH = Contract(TOK + 'at_each_token', setup=scanner0, ensures=_each, short='what the scanner does before each token')
NEWQUOTE_STUB = Contract('stl2ps::NewQuote', ensures=_decoded, result=_new_decoded, trusted='C04')
def scanner_contracts():
    cls, diff, n = grammar.scanner(); codes = grammar.grammar()[1]; out, why = [], []
    for p, cs in sorted(cls.items()):
        for c in sorted(cs):
            out.append(Contract(TOK + 'pattern_%d' % p, short='scanner, %s%s' % (c, ' (%d)' % p if sum(1 for x in cls.values() if c in x) > 1 else ''), setup=token0(c, len(cs) > 1), ensures=token(c, codes.get(c, -9)), modifies=token_frame(c)))
    return out, why, diff, n, cls
class Tables:
    """the scanner's tables against the token language: an exhaustive walk through both"""
    short = 'the tables of the scanner recognise the tokens of the language'
    def __init__(s, diff, n, cls): s.diff, s.n, s.cls = diff, n, cls
    def obs(s):
        out = []
        for c in TOKENS + ['nothing', 'stray']:
            bad = [(w, why) for w, why, k in s.diff if k == c]
            o = Ob('exactly the texts of %s are recognised%s' % (c, ', not so: ' + '; '.join('%r (%s)' % x for x in bad[:3]) if bad else ''), 'automaton', 0, s.short, [], z3.BoolVal(not bad and any(c in k for k in s.cls.values()))); o.hint = None; out.append(o)
        bad = [(w, why) for w, why, k in s.diff if k is None]
        o = Ob('no other text is a token%s' % (', not so: ' + '; '.join('%r (%s)' % x for x in bad[:3]) if bad else ''), 'automaton', 0, s.short, [], z3.BoolVal(not bad)); o.hint = None; out.append(o)
        return out
def _perror(S):
    if S.ex.cur is not S.con: return _complaint(S)
    l, m = one(S.ex.opt.get('complaints', []), 'one complaint')
    return [('at the place given', And(l['begin']['line'] == S.arg(0)['begin']['line'])), ('with the message given', m == S.arg(1)), ('it is reported', S.new.cells['diag'] > S.old.cells['diag'])]
PERROR = Contract('stl2ps_parser::parser::error', setup=diag0, ensures=_perror, modifies=lambda S: [LV('diag')], short='parser::error')
def late(prog, have):
    """what is under contract depends on the grammar of this tree"""
    acts, toks, bounded, lemmas = [], [], [], []; lemma_ok = True
    try:
        acts, why = action_contracts(); bounded += [('grammar', w) for w in why]; lemma_ok = not why
    except Exception as e: bounded.append(('grammar', 'it cannot be read: %s' % (e,))); lemma_ok = False
    try:
        toks, why2, diff, n, cls = scanner_contracts(); bounded += [('scanner', w) for w in why2]
        if lemma_ok and not why2: lemmas = [Tables(diff, n, cls)]
        elif diff: bounded.append(('scanner tables', 'not compared with the token language: the grammar is another one'))
    except Exception as e: toks = []; bounded.append(('scanner', 'its tables cannot be read: %s' % (e,)))
    return {'verify': (acts + [PERROR] if 'actions' in have else []) + (toks + [EACH] if 'lexacts' in have else []), 'callees': ACCESS + [COMPLAIN, NEWQUOTE_STUB], 'lemmas': lemmas, 'bounded': bounded}
