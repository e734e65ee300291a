"""plant.py SPEC.py [--all]: validate planted bugs and store them under seeded/.
A spec module defines BUGS = [dict(id, prop, file, edits=[(old,new)] | [(file,old,new)], demo=CSP text or demo_sh=bash text, needs, breaks, files={})]"""
import sys, os, subprocess, json, importlib.util, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = os.environ.get('PLANT_REPO', '/repo')   # a scratch copy with its own build: PLANT_REPO, and RUNTESTS=a copy of run_tests.py for it
def sh(c, t=900, **kw): return subprocess.run(c, shell=True, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t, **kw)
DEMO = '''#!/bin/bash
# compiles p.csp with the compiler under test and runs it; the program returns 0 when it computed the right results
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cp "$here"/*.csp "$d"/ && mkdir -p "$d/.cache" && cd "$d" || exit 2
HOME=$d timeout 60 /repo/build/bin/cspc build p.csp -p /repo/src/std -o p.out --silent%s </dev/null >/dev/null 2>&1
[ -x p.out ] || { echo "not compiled"; exit 1; }
timeout 30 ./p.out </dev/null >/dev/null 2>&1
'''
def build(): return sh('bash /opt/vp/build.sh' if R == '/repo' else 'make -C %s -j4 all' % R)
def demo(d): return sh('sed s,/repo,%s,g %s/demo.sh > %s/.demo.sh; bash %s/.demo.sh' % (R, d, d, d), cwd=R)
def restore(): sh('git -C %s checkout -- .' % R)
def main():
    spec = importlib.util.spec_from_file_location('s', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = set(sys.argv[2:])
    if sh('git -C %s status --porcelain' % R).stdout.strip(): sys.exit('dirty /repo')
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    try:
        print(build().returncode)
        for b in m.BUGS:
            d = '%s/seeded/%s' % (V, b['id'])
            if only and b['id'] not in only: continue
            if not only and os.path.exists(d): continue
            tmp = tempfile.mkdtemp()
            open(tmp + '/demo.sh', 'w').write(b.get('demo_sh') or DEMO % b.get('flags', ''))
            if b.get('demo'): open(tmp + '/p.csp', 'w').write(b['demo'])
            for f, t in b.get('files', {}).items(): open(tmp + '/' + f, 'w').write(t)
            r0 = demo(tmp)
            if r0.returncode: print(b['id'], 'DEMO FAILS on the unchanged tree', r0.stdout[-500:]); shutil.rmtree(tmp); continue
            ok = True
            for e in b['edits']:
                f, o, n = e if len(e) == 3 else (b['file'],) + tuple(e)
                s = open(R + '/' + f).read()
                if s.count(o) != 1: print(b['id'], 'edit matches', s.count(o), 'times:', o[:80]); ok = False; break
                open(R + '/' + f, 'w').write(s.replace(o, n))
            if not ok: restore(); continue
            patch = sh('git -C %s diff' % R).stdout
            if build().returncode: print(b['id'], 'does not build'); restore(); continue
            r1 = demo(tmp)
            sh('bash /opt/vp/test.sh /tmp/plant.json' if R == '/repo' else 'python3 %s /tmp/plant.json' % os.environ['RUNTESTS'])
            p = set(json.load(open('/tmp/plant.json'))['passed'])
            missing = base - p
            rc = sh('python3-vt checks/%s.py' % b['prop'], cwd=V, env=dict(os.environ, VERIF_REPO=R))
            caught = rc.returncode == 1 and 'VIOLATION property=' + b['prop'] in rc.stdout
            restore()
            good = r1.returncode != 0 and not missing
            print(b['id'], b['prop'], 'demo', r1.returncode, 'tests lost', list(missing)[:3], 'CAUGHT' if caught else 'MISSED (check rc %d)' % rc.returncode, '' if good else 'INVALID', flush=True)
            if not caught: print(rc.stdout[-600:])
            if good:
                shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
                for f in os.listdir(tmp):
                    if f[0] != '.': shutil.copy(tmp + '/' + f, d)
                open(d + '/patch.diff', 'w').write(patch)
                json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            shutil.rmtree(tmp)
    finally:
        restore(); build()
main()
