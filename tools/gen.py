"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, note=None, na=None, level='translation_validation', technique=None, state=None, observe=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state: d['anchors']['state'] = state
    if observe: d['anchors']['observe_at'] = observe
    P.append((d, note, na, level, technique))

ASM = 'src/compiler/codegen/asm/asm_codegen.c'
SYM = 'symbolic execution of the emitted x86-64 code + SMT (z3), compared with a reference semantics of the source program; counterexamples replayed natively'
exec(open(os.path.join(V, 'tools', 'table.py')).read())

with open(V + '/properties.jsonl', 'w') as f:
    for d, *_ in P: f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'python3-vt checks/setup.py', 'checks': [], 'not_applicable': [],
     'notes': 'The machinery reads the compiler sources, the machine code it emits and the standard library as they are. Undecided obligations (solver limit) are listed in the evidence files and claim nothing.'}
import subprocess
m['hooks'] = {'guard': 'LEXER_TMP_BUFFER_DEFAULT_SIZE', 'enable': '-DLEXER_TMP_BUFFER_DEFAULT_SIZE=32 when the sources are compiled for P10 and P13 (vlib/snap.py); without it the buffer has its usual size',
              'source_commits': ['a33e450']}
for d, note, na, level, technique in P:
    if na: m['not_applicable'].append({'property': d['id'], 'reason': na}); continue
    c = 'python3-vt checks/%s.py' % d['id']
    m['checks'].append({'property': d['id'], 'quick_cmd': c, 'thorough_cmd': 'VERIF_TIER=thorough ' + c, 'technique': technique or SYM, 'level': level, 'level_note': note})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties', len(m['checks']), 'claimed')
