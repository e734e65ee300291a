"""P12: the C backend gives every program the meaning that the language (and the assembly backend) gives it."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib, zlib
from vlib import core
from vlib.core import *
PID = 'P12'
def capture(name):
    """the units another check generates"""
    out = []
    m = importlib.import_module(name)
    m.CBACK = True
    importlib.import_module('P06').CBACK = True
    old = core.Report.run_units, core.Report.finish
    Report = core.Report; Report.run_units = lambda self, us, *a, **k: out.extend(us)
    core.Report.finish = lambda self, *a, **k: None
    try: m.main()
    finally: core.Report.run_units, core.Report.finish = old
    return out
def c_build(u):
    """CSpydr source -> C (the real transpiler) -> gcc"""
    exe = csp_compile(u.src, ['-b', 'C', '--cc', core.VERIF + '/tools/cc-static', *u.flags], name='c_' + re.sub(r'\W', '_', u.name)[:30], files=u.files)
    return exe
# outside the claim: structure literals and nested aggregates (the C backend does not translate them), function values kept in globals and members (called like closures there), long doubles (padded differently by
# the C ABI), trees of floating-point operations and divisions by constants (the C compiler rewrites them beyond the reach of the solver)
SKIP = re.compile(r'C:P08:(scopes|defer|with)|C:P01:.*(:lit[/%]|:tree)|C:P01:mixed.*(%|u16/i8)|C:P03:.*(f80|:tree|:nega|:neigh|:shape|shape_)|C:P04:.*f80|C:P05:calls:(forcall|matchcall)|C:P07:.*f80|C:P06:(nest|.*f80)|C:P07:(lit|layout|mem|vla|local|nest|ptr_P|access_S)')
SHARE = {'P06': 3, 'P14': 2, 'P09': 6, 'P05': 4, 'P04': 2, 'P03': 2, 'P05:single': 1, 'P05:typed': 1}
def main():
    r = Report(PID, 'translation_validation')
    units = []
    for p in os.environ.get('VERIF_P12', 'P01 P02 P03 P04 P05 P06 P07 P08 P09 P14').split():
        for u in capture(p):
            u.build = c_build
            u.name = 'C:' + p + ':' + u.name
            for c in u.cases: c.opts.pop('align_calls', None); c.prefix = '__csp_'; c.key = 'C:' + p + ':' + c.key
            n = 1 if core.TIER == 'thorough' else SHARE.get(u.name[2:].split('_')[0], SHARE.get(p, 1))
            u.cases = [c for c in u.cases if not SKIP.match(c.key) and zlib.crc32(c.key.encode()) % n == 0]
            if SKIP.match(u.name) or not u.cases: continue
            units.append(u)
    r.run_units(units); r.finish()
if __name__ == '__main__': main()
