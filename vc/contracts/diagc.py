"""Contracts of the diagnostics (C27)."""
from spec import *
from contracts.psc import cat, sv
ERR = LV('io:cerr')
def stderr0(S, st): st.cells['io:cerr'] = z3.Const('stderr0', Str)
def with_file(S, st): stderr0(S, st); S.vals[0] = z3.Const('file', Str)
def err(st): return st.cells['io:cerr']
def num(x): return B.intstr(x)
def _error(S):
    fn, bl, bc, el, ec, msg = [S.arg(i) if i else S.vals[0] for i in range(6)]
    if not isinstance(fn, LP): raise SpecMismatch('the file name is not a pointer')
    null = fn.null if fn.null is not None else z3.BoolVal(False)
    name = If(null, sv('??'), S.ex.load(fn.lv, S.old))
    one = cat(sv('error '), name, sv(':'), num(bl), sv(':['), num(bc), sv(','), num(ec), sv(']: '), msg, sv('\n'))
    two = cat(sv('error '), name, sv(':'), num(bl), sv(':'), num(bc), sv(' to '), num(el), sv(':'), num(ec), sv(': '), msg, sv('\n'))
    return [('a range within a line', Imp(bl == el, err(S.new) == cat(err(S.old), one))), ('a range over lines', Imp(bl != el, err(S.new) == cat(err(S.old), two)))]
def no_nul(S, st):
    """assumed: neither the message nor the file name holds a NUL byte"""
    stderr0(S, st); fn = S.vals[0]
    st.facts += [Not(z3.Contains(S.arg(5), B.E_str_lit([0])))] + ([Not(z3.Contains(S.ex.load(fn.lv, st), B.E_str_lit([0])))] if isinstance(fn, LP) and fn.lv is not None else [])
ERROR = Contract('stl2ps::error', ensures=_error, setup=no_nul, modifies=[ERR])
def heading(S, file, line, loc):
    place = cat(loc['filename'], sv(':'), num(loc['line']), sv(': '))
    return Or([err(S.new) == cat(err(S.old), p, place) for p in (sv(''), cat(sv('('), file, sv(':'), num(line), sv(') ')))])
DT = {'diag_text': True}
EM_LOC = Contract('stl2ps::ErrorMessage::ErrorMessage', sel='3LocE', short='stl2ps::ErrorMessage::ErrorMessage(Loc)', ensures=lambda S: [('starts with the place', heading(S, S.vals[0], S.arg(1), S.arg(2)))], setup=with_file, modifies=[ERR], opt=DT, callable=False)
EM_NODE = Contract('stl2ps::ErrorMessage::ErrorMessage', sel='5NodeIE', short='stl2ps::ErrorMessage::ErrorMessage(NodeI)', ensures=lambda S: [('starts with the place of the element', heading(S, S.vals[0], S.arg(1), S.arg(2)['loc_']))], setup=with_file, modifies=[ERR], opt=DT)
EM_END = Contract('stl2ps::ErrorMessage::~ErrorMessage', ensures=lambda S: [('ends the line', err(S.new) == cat(err(S.old), sv('\n')))], setup=stderr0, modifies=[ERR], opt=DT)
LOC_OUT = Contract('stl2ps::operator<<', sel='3LocE', short='stl2ps::operator<<(Loc)', ensures=lambda S: [('file and line', S.post(0) == cat(S.arg(0), S.arg(1)['filename'], sv(':'), num(S.arg(1)['line'])))], modifies=['#0'], callable=False)
def contracts(): return [ERROR, EM_LOC, EM_NODE, EM_END, LOC_OUT]
