"""python3-vt replay.py FILE: run the counterexample of a replay file against the current tree"""
import sys, json, subprocess, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core
d = json.load(open(sys.argv[1]))
print(d['property'], d['case'], d.get('what', '')); print('inputs', d.get('inputs'))
if d.get('program'): 
    exe = core.csp_compile(d['program'], d.get('flags', ()))
    s = [('elf ' + exe) if l.startswith('elf ') else l for l in d.get('native_script', [])]
    print('observed when reported:', d.get('observed'), d.get('native'))
    if s:
        p = subprocess.run([core.native_runner()], input=('\n'.join(s) + '\n').encode(), stdout=subprocess.PIPE)
        print('now: status', p.returncode, p.stdout.decode(errors='replace'))
