"""Runs the executable oracles (harness/*.cc linked with the real code)."""
import os, subprocess, build
ALL = ['ast', 'center', 'geo', 'ps', 'stl', 'stl-to-ps', 'parser', 'parser.tab', 'lexer.yy']
LINK = {'h_stl.cc': ['stl', 'geo'], 'h_ps.cc': ALL, 'h_ast.cc': ALL, 'h_draw.cc': ALL + ['parser_support'], 'h_parse.cc': ['ast', 'center', 'geo', 'parser', 'parser.tab', 'lexer.yy', 'parser_support']}
RULE = {'h_stl.cc': 'random small models, edges, spans and files with boundary values; non-trivial and distinct by their written-out input',
        'h_ps.cc': 'random lists of labels, lines, arcs and pages, read back by a PostScript reader; non-trivial: not empty; distinct by their written-out input',
        'h_ast.cc': 'random literals, view names and angles, point sets on small grids; non-trivial: not empty; distinct by their written-out input',
        'h_draw.cc': 'random models, scripts, property lists, file trees and command lines around valid ones; distinct by their written-out input',
        'h_parse.cc': 'random scripts derived from the grammar, a third of them damaged; distinct by their text'}
def run(h):
    src = h.spec
    exe = build.harness(src, LINK[src])
    extra = [build.program()] if h.pid == 'C26' else []
    secs = 8 if h.tier == 'quick' else 120
    r = subprocess.run([exe, h.pid, str(h.seed), str(secs)] + extra, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=secs * 10 + 300)
    h.out = r.stdout.decode('utf8', 'replace')
    h.rule = RULE.get(src, '')
    for l in h.out.splitlines():
        if l.startswith('@DONE'): h.cases, h.nontrivial = map(int, l.split()[1:3])
        if l.startswith('@SAMPLE'): h.samples.append(l[8:])
    if '@FAIL' in h.out: h.fail = h.out[h.out.index('@FAIL') + 6:]
    elif '@DONE' not in h.out: h.fail = 'the oracle process ended abnormally (status %s)\n%s' % (r.returncode, h.out[-500:])
