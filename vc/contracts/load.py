"""Contracts of model loading and the conversion as a whole (C24, C25)."""
from contracts.draw import *
from contracts import psc
OPENS = B.canopen_r
ACCEPTS = z3.Function('holds_a_model', Str, z3.BoolSort())       # STLFile::Make accepts this file (C06)
FROM = z3.Function('model_was_read_from', Int, Str)
SRCAT = z3.Function('first_place', Str, Int)                      # first load path where a relative source opens
def _make_stub(S):
    v = S.arg(0)
    if not isinstance(v, OP) or v.name != 'fstream': raise SpecMismatch('a model is not read from a file')
    S.ex.store(S.lv(0), OP('fstream', {**v.f, 'state': fresh(Int, 'state_after_reading')}), S.new)
    return [('accepted exactly when the file holds a model', (S.ret.id != 0) == ACCEPTS(v.f['path'])), ('an object', S.ret.id >= 0), ('read from that file', Imp(S.ret.id != 0, FROM(S.ret.id) == v.f['path']))]
MAKE_STUB = Contract('stl2ps::STLFile::Make', requires=lambda S: [('the file is open', S.arg(0).f['open'] if isinstance(S.arg(0), OP) else z3.BoolVal(False))], ensures=_make_stub, trusted='C06')
PATHFLAG = B.flag('FLAGS_load_path', Str); COMMA = z3.StringVal(',!skip-empty')
def roots(): return B.split_n(PATHFLAG, COMMA) + 1
def root(i): return If(i == 0, z3.StringVal('.'), B.split_e(PATHFLAG, COMMA, i - 1))
def under(i, src): return z3.Concat(root(i), z3.StringVal('/'), src)
def absolute(src): return z3.PrefixOf(z3.StringVal('/'), src)
def place(src):
    """(the source is found, where)"""
    k = SRCAT(src); return If(absolute(src), OPENS(src), And(0 <= k, k < roots())), If(absolute(src), src, under(k, src))
def place_defs(ms):
    """first_place: the first root where the source opens, the number of roots when there is none"""
    s, j = z3.Const('src!', Str), z3.Int('j!'); k = SRCAT(s)
    return [And(roots() >= 1, ForAll([s], And(0 <= k, k <= roots(), Imp(k < roots(), OPENS(under(k, s))), ForAll([j], Imp(And(0 <= j, j < k), Not(OPENS(under(j, s)))))), patterns=[SRCAT(s)]))]
def models(S): return S.arg(0)['models']
def loads(m): f, p = place(m['source']); return And(f, ACCEPTS(p))
DISTINCT = z3.Function('names_are_distinct_up_to', Int, z3.BoolSort()); ALL = z3.Function('models_load_up_to', Int, z3.BoolSort()); NEW = z3.Function('name_is_new', Int, z3.BoolSort()); LOADS = z3.Function('loads', Int, z3.BoolSort())
def load_defs(S):
    """both by recursion over the declarations"""
    k, i = I(), I(); ms = models(S); r = And(0 <= k, k < ms.n)
    return [And(DISTINCT(Z(0)), ALL(Z(0))), ForAll([k], Imp(r, And(DISTINCT(k + 1) == And(DISTINCT(k), NEW(k)), ALL(k + 1) == And(ALL(k), LOADS(k)))), patterns=[DISTINCT(k + 1)]),
            ForAll([k], Imp(r, And(NEW(k) == ForAll([i], Imp(And(0 <= i, i < k), ms.at(i)['name'] != ms.at(k)['name']), patterns=[ms.at(i)['name']]), LOADS(k) == loads(ms.at(k)))), patterns=[NEW(k), LOADS(k)])]
def loaded(S, k, m, ok, st):
    ms = models(S); i = I(); q = fresh(Str, 'q'); id_ = lambda i: z3.Select(m.val.id, ms.at(i)['name'])
    return [('accepted exactly when every name is new and every file is found and accepted', ok == And(DISTINCT(k), ALL(k))),
            ('every declared model is there', ForAll([i], Imp(And(0 <= i, i < k), z3.Select(m.has, ms.at(i)['name'])), patterns=[ms.at(i)['name']])),
            ('and no other', ForAll([q], Imp(z3.Select(m.has, q), Exists([i], And(0 <= i, i < k, ms.at(i)['name'] == q))), patterns=[z3.Select(m.has, q)])),
            ('each is its own, from the first place it is found', ForAll([i], Imp(And(ok, 0 <= i, i < k), And(id_(i) > 0, FROM(id_(i)) == place(ms.at(i)['source'])[1])), patterns=[ms.at(i)['name']])),
            ('failures are diagnosed', Or(ok, st.cells['diag'] > S.old.cells['diag'])), ('diagnostics are kept', st.cells['diag'] >= S.old.cells['diag'])]
def _load(S):
    n = models(S).n; m = S.post(1)
    if S.ex.cur is not S.con:
        ok = z3.Bool('models_load'); S.ex.opt.setdefault('loaded', []).append((S.arg(0), m, S.ret)); q = fresh(Str, 'q')
        return [('loaded models exist', Imp(S.ret, ForAll([q], Imp(z3.Select(m.has, q), z3.Select(m.val.id, q) > 0), patterns=[z3.Select(m.has, q)]))), ('failures are diagnosed', Or(S.ret, S.new.cells['diag'] > S.old.cells['diag'])), ('diagnostics are kept', S.new.cells['diag'] >= S.old.cells['diag'])]
    return loaded(S, n, m, S.ret, S.new)
def _load_setup(S, st):
    diag0(S, st)
    for g in place_defs(None) + load_defs(S): st.facts.append(g)
def _load_inv(L): return loaded(L.S, L.k, L.argnow(1), L.find(is_bool, 'ok'), L.st)
def _load_steps(L):
    S = L.S; ms = models(S); k = L.k; i = I(); ok = L.find(is_bool, 'ok')
    return [('found and accepted', Imp(ok, LOADS(k))), ('a new name', Imp(ok, NEW(k))), ('as before', Imp(ok, And(DISTINCT(k), ALL(k)))), ('nothing valid is refused', Imp(And(DISTINCT(k), ALL(k), NEW(k), LOADS(k)), ok))]
def _find_inv(L):
    f = L.find(lambda v: isinstance(v, OP) and v.name == 'fstream', 'model'); src = L['file']; j = I()
    k = L.k; no = And(Not(f.f['open']), SRCAT(src) >= k, (f.f['state'] == 0) == (k == 0))
    return [('the first place, or none so far', Or(no, And(f.f['open'], f.f['state'] == 0, k >= 1, k <= roots(), SRCAT(src) == k - 1, f.f['path'] == under(k - 1, src), Not(L.goes))))]
LOADFILES = Contract('stl2ps::LoadFiles', ensures=_load, setup=_load_setup, modifies=lambda S: [S.lv(1), LV('diag')], loops=[{'inv': _load_inv, 'steps': _load_steps}, {'inv': _find_inv}])
# ---- all or nothing (C24)
def output(S, i): return S.arg(i), S.post(i)
def _script(S):
    o = S.ex.opt; ok = S.ret; o0, o1 = S.arg(2), S.post(2)
    out = [('a failure writes nothing', Imp(Not(ok), o1 == o0)), ('failures are diagnosed', Or(ok, S.new.cells['diag'] > S.old.cells['diag'])), ('diagnostics are kept', S.new.cells['diag'] >= S.old.cells['diag'])]
    if S.ex.cur is not S.con: o.setdefault('converted', []).append((S.arg(0), S.arg(1), ok)); return out
    (d1, m, l), (m2, d2, ps, g), (src, ps2) = one(o.get('loaded', []), 'the models are loaded once'), one(o.get('pages made', []), 'the pages are made once'), one(o.get('rendered', []), 'the pages are rendered once')
    return out + [('it succeeds exactly when every model loads and every page is accepted', ok == And(l, g)), ("this document's models", Imp(ok, teq(d1, S.arg(1)))), ('pages of this document, with those models', Imp(ok, And(teq(d2, S.arg(1)), teq(m2, m)))),
                  ('all of its pages are written', Imp(ok, teq(ps2, ps))), ('under the name of the script', Imp(ok, src == S.arg(0))), ('completely', Imp(ok, o1 == psc.OUT(ps.n)))]
def doc_pre(S):
    return page_pre(S)
SCRIPT = Contract('stl2ps::ScriptToPS', sel='Document', short='stl2ps::ScriptToPS(Document)', requires=doc_pre, ensures=_script, setup=with_pages, modifies=lambda S: [S.lv(2), PST, LV('diag')] + GENVISITS)
def _parse_stub(S):
    S.ex.opt.setdefault('parsed', []).append((S.arg(0), S.arg(1), S.post(2), S.ret))
    V2 = type('V', (), {'arg': lambda _, i: S.post(2) if i == 1 else None})()
    return [('what the grammar builds is complete', Imp(S.ret == 0, And([g for _, g in page_pre(V2)]))), ('syntax errors are diagnosed', Or(S.ret == 0, S.new.cells['diag'] > S.old.cells['diag'])), ('diagnostics are kept', S.new.cells['diag'] >= S.old.cells['diag'])]
def _script_in(S):
    o = S.ex.opt; ok = S.ret; o0, o1 = S.arg(2), S.post(2)
    out = [('a failure writes nothing', Imp(Not(ok), o1 == o0)), ('failures are diagnosed', Or(ok, S.new.cells['diag'] > S.old.cells['diag'])), ('diagnostics are kept', S.new.cells['diag'] >= S.old.cells['diag'])]
    if S.ex.cur is not S.con: return out
    (fn, text, doc, r), (src, d, c) = one(o.get('parsed', []), 'the script is parsed once'), one(o.get('converted', []), 'it is converted once')
    return out + [('it succeeds exactly when the script parses and converts', ok == And(r == 0, c)), ('the whole script is parsed', text == S.arg(1).f['all']), ('under its name', And(fn == S.arg(0), src == S.arg(0))), ('what was parsed is converted', Imp(ok, teq(d, doc)))]
SCRIPT_IN = Contract('stl2ps::ScriptToPS', sel='RSiRSo', short='stl2ps::ScriptToPS(istream)', ensures=_script_in, setup=with_pages, modifies=lambda S: [S.lv(1), S.lv(2), PST, LV('diag')] + GENVISITS)

# ---- what the parser is given (the generated scanner and parser are outside)
def scan(k): return LV(('gh', k))
def ext(q, ens=None, req=None, **kw): return Contract(q, extern=True, ensures=ens or (lambda S: []), requires=req, trusted='generated by flex and bison (C29)', **kw)
def put(S, k, v): S.new.cells[('gh', k)] = v
def _scan_bytes(S):
    t, n = S.vals[0], S.arg(1); t = S.ex.load(t, S.old) if isinstance(t, (LV, HLV)) else t
    if isinstance(t, IT): t = S.ex.load(t.lv, S.old)
    if not (is_leaf(t) and t.sort() == Str): raise SpecMismatch('the scanner is given a text')
    put(S, 'scanned', z3.SubString(t, 0, n)); return []
def at(v):
    if not isinstance(v, LP) or v.lv is None: raise SpecMismatch('a place is not known')
    return v.lv
def same_lv(a, b): return repr(a) == repr(b)
def _parser_made(S): S.ex.opt['parser of'] = S.vals; return []
def _parse_pre(S):
    e = S.ex.entry; st = S.old; x = S.ex.opt.get('parser of')
    if x is None: raise SpecMismatch('a parser is made')
    doc, extra = at(x[1]), x[2]; extra = S.ex.load(at(extra), st); name = extra.f['filename']
    return [('the whole script is scanned', st.cells[('gh', 'scanned')] == e.arg(1)), ('lines are counted from 1', st.cells[('gh', 'lineno')] == 1),
            ('it builds the document asked for', z3.BoolVal(same_lv(doc, at(e.vals[2])))), ('diagnostics know the file', Not(name.null) if name.null is not None else z3.BoolVal(True)), ('by its name', S.ex.load(at(name), st) == e.arg(0))]
def _parse_run(S): S.ex.opt.setdefault('parse ran', []).append(S.ret); return []
PARSE_EXT = [ext('stl2pslex_init'), ext('stl2ps_scan_bytes', _scan_bytes), ext('stl2psset_lineno', lambda S: [put(S, 'lineno', S.arg(0))] and []), ext('stl2psset_column'), ext('stl2psset_extra'),
             ext('stl2ps_delete_buffer'), ext('stl2pslex_destroy'), ext('stl2ps_parser::parser::parser', _parser_made, result=lambda S: OP('parser', {})), ext('stl2ps_parser::parser::parse', _parse_run, _parse_pre)]
def parse0(S, st):
    diag0(S, st); st.cells[('gh', 'scanned')] = fresh(Str, 'nothing'); st.cells[('gh', 'lineno')] = fresh(Int, 'line')
PARSE = Contract('stl2ps::Parse', setup=parse0, ensures=lambda S: _parse_stub(S) if S.ex.cur is not S.con else [('the result is the parser\'s', S.ret == one(S.ex.opt.get('parse ran', []), 'the parser runs once'))], modifies=lambda S: [S.lv(2), LV('diag')] + ([scan(k) for k in ('scanned', 'lineno')] if S.ex.cur is S.con else []))

# ---- what an element does with its visitor: hands itself over, once, and passes the answer on
def _handed(S):
    S.ex.opt.setdefault('handed', []).append((S.vals[0], S.ret, S.con.q)); return []
HANDED = Contract('stl2ps::VisitDrawable::operator()', virtual=True, ensures=_handed, trusted='DrawToPage, by the contracts of its operators')
def _passed_on(S):
    a, r, _ = one(S.ex.opt.get('handed', []), 'the element is handed over once')
    if not isinstance(a, HLV): raise SpecMismatch('the element itself is handed over')
    return [('the element itself is handed over', And(a.id == S.this_lv.id)), ('its answer is passed on', S.ret == r)]
HAND = [Contract('stl2ps::%s::Visit' % k, ensures=_passed_on, heap_this=True) for k in ('Angle', 'Dia', 'Dim', 'Draw', 'Rad', 'Text')]
# ---- the program (C26)
SCRIPTF, OUTF = B.flag('FLAGS_script', Str), B.flag('FLAGS_output', Str); EMPTY = z3.StringVal('')
def _convert_stub(S):
    i, o = S.arg(1), S.arg(2)
    if not all(isinstance(x, OP) and x.name == 'fstream' for x in (i, o)): raise SpecMismatch('files are converted')
    st2 = fresh(Int, 'state_after_writing'); S.new.facts.append(Or(st2 == o.f['state'], st2 == 1, st2 == 4))
    S.ex.store(S.lv(2), OP('fstream', {**o.f, 'state': st2, 'flushed': z3.BoolVal(False)}), S.new); S.ex.store(S.lv(1), OP('fstream', {**i.f, 'state': fresh(Int, 'state_after_reading')}), S.new)
    S.ex.opt.setdefault('conversions', []).append((S.arg(0), i, o, S.ret, S.lv(2))); S.new.cells[('gh', 'conversions')] = S.new.cells[('gh', 'conversions')] + 1
    return []
CONVERT_STUB = Contract('stl2ps::ScriptToPS', sel='RSiRSo', ensures=_convert_stub, trusted='C24')
def _main(S):
    st = S.new; given = And(SCRIPTF != EMPTY, OUTF != EMPTY); ok = S.ret == 0; n = st.cells[('gh', 'conversions')]
    out = [('a missing option is refused', Imp(ok, given)), ('before any file is touched', Imp(Not(given), st.cells['files'] == 0)), ('one conversion, or none', Or(n == 0, n == 1)), ('success needs a conversion', Imp(ok, n == 1))]
    c = S.ex.opt.get('conversions', [])
    if len(c) != 1: raise SpecMismatch('the script is converted at one place')
    src, i, o, r, lv = c[0]
    if lv.cell not in st.cells: return out + [('no success without the output file', Not(ok))]
    f = S.ex.load(lv, st).f
    done = Or(Not(f['open']), f['flushed']); m = o.f['mode']
    good = And(r, f['state'] == 0)
    return out + [('success: the conversion succeeded', Imp(ok, r)), ('success: the output was written, to the end', Imp(ok, And(f['state'] == 0, done))),
                  ('the script is read from the script file', Imp(n == 1, And(i.f['open'], i.f['path'] == SCRIPTF, src == SCRIPTF, i.f['state'] == 0))), ('the output goes to the output file', Imp(n == 1, And(o.f['open'], o.f['path'] == OUTF, o.f['state'] == 0))),
                  ('and replaces what was there', Imp(n == 1, Or([m == k for k in (16, 48, 20, 52)]))), ('a conversion that succeeds and is written is a success', Imp(And(n == 1, good), ok))]
def main0(S, st): st.cells['files'] = z3.IntVal(0); st.cells[('gh', 'conversions')] = z3.IntVal(0)
MAIN = Contract('main', ensures=_main, setup=main0, opt={'abort_ok': True})
def contracts(): return [LOADFILES, MAKE_STUB, GENPAGES, VISIT, ADDHEADER, FLATTEN, psc.RENDER, SCRIPT, PARSE, SCRIPT_IN, HANDED, MAIN] + HAND + PARSE_EXT
