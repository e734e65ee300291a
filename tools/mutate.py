"""Development: random mutants of the compiler's C code; which of those that pass the tests are noticed by the checks?
mutate.py COPY BASE RUNTESTS LOG SEED N FILE[:from-to].. -- CHECK..   (COPY is a scratch copy of /repo, BASE a folder with the hashes of the unchanged tree)"""
import sys, os, re, random, subprocess, json, signal, time
copy, base, rt, log, seed, n = sys.argv[1:7]
k = sys.argv.index('--'); files, checks = sys.argv[7:k], sys.argv[k + 1:]
R = random.Random(int(seed)); V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, t, env=None):
    with open(log + '.out', 'w') as h: p = subprocess.Popen(c, shell=True, stdin=subprocess.DEVNULL, stdout=h, stderr=subprocess.STDOUT, start_new_session=True, env=env)
    try: r = p.wait(timeout=t)
    except subprocess.TimeoutExpired: r = 124
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass
    o = open(log + '.out', errors='replace').read()
    return r, o
SUBS = [(r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(R.choice([int(m[1]) + 1, max(0, int(m[1]) - 1), int(m[1]) * 2, 0]))), (r'<=', lambda m: '<'), (r'>=', lambda m: '>'), (r'(?<![<\-])<(?![<=])', lambda m: '<='), (r'(?<![>\-])>(?![>=])', lambda m: '>='),
        (r'==', lambda m: '!='), (r'!=', lambda m: '=='), (r'&&', lambda m: '||'), (r'\|\|', lambda m: '&&'), (r'\+\+', lambda m: '--'), (r' \+ ', lambda m: ' - '), (r' - ', lambda m: ' + '), (r'!(?=[a-z(])', lambda m: ''),
        (r'\bleft\b', lambda m: 'right'), (r'\bright\b', lambda m: 'left'), (r'%%r([abcd])x', lambda m: '%%r' + R.choice('abcd') + 'x'), (r'%%e([abcd])x', lambda m: '%%e' + R.choice('abcd') + 'x'), (r'%%xmm([01])', lambda m: '%%xmm' + '10'[int(m[1])]),
        (r'movs([bwl])', lambda m: 'movz' + m[1]), (r'movz([bwl])', lambda m: 'movs' + m[1]), (r'\b(set|cmov|j)(a|ae|b|be|l|le|g|ge|e|ne)\b', lambda m: m[1] + R.choice(['a', 'ae', 'b', 'be', 'l', 'le', 'g', 'ge', 'e', 'ne'])), (r'\b(sar|shr|shl)\b', lambda m: R.choice(['sar', 'shr', 'shl'])), (r'\b(idiv|div)\b', lambda m: R.choice(['div', 'idiv'])),
        (r'\bTY_(I8|I16|I32|I64|U8|U16|U32|U64|F32|F64|BOOL|CHAR|ENUM|PTR|STRUCT|ARRAY)\b', lambda m: 'TY_' + R.choice(['I8', 'I16', 'I32', 'I64', 'U8', 'U32', 'U64', 'F32', 'F64', 'BOOL', 'PTR', 'CHAR'])), (r'\bPREC_(\w+)', lambda m: 'PREC_' + R.choice(['LOWEST', 'ASSIGN', 'CAST', 'COMPARE', 'ADD', 'MULT', 'UNARY', 'CALL'])),
        (r'\btrue\b', lambda m: 'false'), (r'\bfalse\b', lambda m: 'true'), (r'\bbreak;', lambda m: ''), (r'^(\s*)(asm_println\(.*\);|c_print\w*\(.*\);|c_put\w*\(.*\);|[\w\->.\[\]]+ [+\-]?= .*;|[a-z_]+\(.*\);|continue;|return;)\s*$', lambda m: m[1] + ';'), (r'\bif\(', lambda m: R.choice(['if(1 || ', 'if(0 && ']))]
pool = []
for f in files:
    f, _, rng = f.partition(':'); L = open(copy + '/' + f).read().split('\n')
    a, b = map(int, rng.split('-')) if rng else (1, len(L))
    for i in range(a - 1, min(b, len(L))):
        x = L[i]
        if x.strip().startswith(('//', '#', '*', 'static', 'assert')) or 'throw_error' in x or 'LOG' in x: continue
        for s, fn in SUBS:
            for m in re.finditer(s, x): pool.append((f, i, s, fn, m.start()))
R.shuffle(pool); done = 0
def out(*a):
    with open(log, 'a') as h: print(*a, file=h, flush=True)
out('pool', len(pool))
for f, i, s, fn, at in pool:
    if done >= int(n): break
    p = copy + '/' + f; old = open(p).read(); L = old.split('\n'); x = L[i]
    m = [m for m in re.finditer(s, x) if m.start() == at][0]
    y = x[:m.start()] + fn(m) + x[m.end():]
    if y == x: continue
    L[i] = y; open(p, 'w').write('\n'.join(L))
    try:
        if sh('make -C %s -j4 all' % copy, 120)[0]: continue
        r, o = sh('python3 %s %s.json' % (rt, log), 120)
        try: ok = len(json.load(open(log + '.json'))['passed'])
        except Exception: ok = 0
        if ok < 46: continue
        done += 1; t = time.time(); res = []; changed = 0
        for c in checks:
            r, o = sh('python3-vt %s/checks/%s.py' % (V, c), 700, dict(os.environ, VERIF_REPO=copy, VERIF_BASE=base, VERIF_JOBS='4'))
            u = re.search(r'changed units: (.*)', o)
            if u and u[1] != '[]': changed += 1; res.append('%s:%s' % (c, u[1][:80]))
            if r not in (0,): res.append('%s rc %d' % (c, r)); break
        out(('CAUGHT ' if r == 1 else 'ERR %d ' % r if r else 'SURVIVED(%d) ' % changed), '%s:%d %.0fs' % (f, i + 1, time.time() - t), ' '.join(res)[-160:], '\n   -', x.strip(), '\n   +', y.strip())
    finally: open(p, 'w').write(old)
sh('make -C %s -j4 all' % copy, 120)
