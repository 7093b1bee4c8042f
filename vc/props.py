"""Which contracts, lemmas and executable oracle decide which property."""
import build
from contracts import geo, stl, reading, index, crosses, lines, psc, astc, draw, diagc, load, circle, tolines, hides, parse
_DRAWN = [draw.FLATTEN, draw.GETROTATED, draw.PT_ROTATE, draw.PT_INVOKE, draw.ADDLINES, draw.ADDARCS, draw.ADDTEXT]
_MODEL = [draw.VISIT, draw.PTS_LOG, draw.ROT_LOG, draw.CULL_LOG, draw.LIM_LOG, draw.LINES_LOG, astc.BYANG, astc.BYNAME]
PROPS = {
 'C01': dict(verify=[psc.TEXT], lemmas=[psc.decode_lemmas()], harness='h_ps.cc'),
 'C02': dict(verify=[psc.LINES, psc.ARCS], harness='h_ps.cc'),
 'C03': dict(verify=[psc.RENDER, psc.DOCHDR, psc.PAGEHDR, psc.FOOT], callees=[psc.TEXT, psc.ARCS, psc.LINES], harness='h_ps.cc'),
 'C04': dict(verify=[astc.NEWQUOTE], harness='h_ast.cc'),
 'C05': dict(verify=[astc.BYNAME, astc.BYANG, geo.ROTATE], lemmas=[geo.rot_lemmas()], harness='h_ast.cc'),
 'C06': dict(verify=[reading.MAKE], callees=[reading.FACET_MADE, reading.INDEX_STUB], lemmas=[reading.form_lemmas()], harness='h_stl.cc', assumptions=['RE2 accepts exactly the lines of the pattern and reads its numeric groups']),
 'C07': dict(verify=[stl.FACET], harness='h_stl.cc'),
 'C08': dict(verify=[stl.CULL, stl.ROTATE], callees=[stl.INDEX_STUB], harness='h_stl.cc'),
 'C09': dict(verify=[stl.LIMITS], harness='h_stl.cc'),
 'C10': dict(verify=[stl.POINTS, geo.ORDER, geo.PORDER], harness='h_stl.cc'),
 'C11': dict(verify=[index.INDEX], callees=[geo.ORDER], harness='h_stl.cc'),
 'C12': dict(verify=[crosses.CROSSES], lemmas=[crosses.lemmas()], harness='h_stl.cc'),
 'C13': dict(verify=[lines.GENLINES], harness='h_stl.cc'),
 'C14': dict(verify=[tolines.TOLINES, crosses.CROSSES, lines.GENLINES], lemmas=[crosses.lemmas()], harness='h_stl.cc'),
 'C30': dict(verify=[hides.HIDES, crosses.CROSSES, lines.GENLINES], lemmas=[crosses.lemmas()], harness='h_stl.cc'),
 'C15': dict(verify=[draw.DIM, draw.GETROTATED, draw.ADDLINES, draw.ADDTEXT], callees=_DRAWN, harness='h_draw.cc'),
 'C16': dict(verify=[draw.ANGLE, draw.GETROTATED, draw.ADDLINES, draw.ADDARCS, draw.ADDTEXT], callees=_DRAWN, harness='h_draw.cc'),
 'C17': dict(verify=[draw.DIA, draw.RAD, draw.GETROTATED, draw.ADDLINES, draw.ADDTEXT], callees=_DRAWN + [draw.FC_STUB, astc.CLOSEST, astc.BETWEEN], harness='h_draw.cc'),
 'C20': dict(verify=[draw.DRAW, draw.ADDDIMS, draw.ADDLINES, draw.ADDARCS, draw.ADDTEXT, draw.GETROTATED, draw.VAL_ROTATE, draw.VAL_INVOKE, draw.PF_ROTATE], callees=_DRAWN + _MODEL, harness='h_draw.cc'),
 'C21': dict(verify=[draw.TEXTB], callees=[draw.FLATTEN], harness='h_draw.cc'),
 'C22': dict(verify=[draw.ADDHEADER, draw.GENPAGES], callees=[draw.VISIT, draw.FLATTEN], harness='h_draw.cc'),
 'C23': dict(verify=[draw.FLATTEN, draw.DIM_GATES, draw.ANGLE_GATES, draw.DIA_GATES, draw.RAD_GATES, draw.DRAW_GATES, draw.TEXTB_GATES, draw.ADDDIMS, draw.GENPAGES], callees=_DRAWN + _MODEL + [draw.ADDHEADER, draw.FC_STUB, astc.CLOSEST, astc.BETWEEN], harness='h_draw.cc'),
 'C18': dict(verify=[circle.FIT], harness='h_ast.cc'),
 'C19': dict(verify=[astc.CLOSEST, astc.BETWEEN, astc.NEAR, astc.PFINVOKE, draw.CENTER], callees=[astc.PINVOKE, draw.FC_STUB], harness='h_ast.cc', assumptions=['squared distances on the page stay below the largest double']),
 'C28': dict(verify=[geo.ORDER, geo.PORDER, geo.LLESS, geo.LEQ, geo.EORDER], lemmas=[geo.order_lemmas(3, 'points'), geo.order_lemmas(4, 'lines'), geo.order_lemmas(6, 'edges')], harness='h_stl.cc'),
 'C24': dict(verify=[load.SCRIPT, load.SCRIPT_IN, load.PARSE, draw.GENPAGES, draw.ADDDIMS] + load.HAND, callees=[load.LOADFILES, load.HANDED, draw.VISIT, draw.FLATTEN, draw.ADDHEADER, draw.PTS_LOG, psc.RENDER] + load.PARSE_EXT, harness='h_draw.cc'),
 'C25': dict(verify=[load.LOADFILES], callees=[load.MAKE_STUB], harness='h_draw.cc', assumptions=['no other process adds or removes model files while they are being looked for']),
 'C26': dict(verify=[load.MAIN], callees=[load.CONVERT_STUB], harness='h_draw.cc', assumptions=['abort() ends the program with a failure status', 'a stream reports every failed write by its state, at the latest when it is flushed or closed']),
 'C29': dict(late=parse.late, asts=build.EXTRACTED, verify=[load.PARSE], callees=load.PARSE_EXT, harness='h_parse.cc', assumptions=[
   'bison: the generated LALR(1) automaton reduces exactly by the rules of the grammar, and its driver runs the action of each reduction on the values of the symbols it stands for',
   'flex: the matching loop takes the longest text its tables accept and runs the action of the pattern they name, and counts line ends where its tables say so',
   'the members of the parser\'s value union are used as declared by %type (bison checks it)']),
 'C27': dict(verify=[diagc.ERROR, diagc.EM_LOC, diagc.EM_NODE, diagc.EM_END, diagc.LOC_OUT], harness='h_draw.cc', assumptions=['messages of the parser and file names hold no NUL byte']),
}
PROPS = dict(sorted(PROPS.items()))
NOT_APPLICABLE = {
}
NOTE = ('Every obligation generated from the current sources must be accepted by a solver; floating point is treated as real arithmetic, library functions '
        '(std, Eigen, absl, RE2) are trusted to meet the contracts in vc/builtins_.py. A function rewritten beyond the verifier or its loop invariants falls '
        'back to the executable oracle, reported as BOUNDED.')
