"""P28: command line flags: std::flags::parse calls the handler of every flag with its value, in order, and refuses everything else."""
import sys, os, itertools; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from vlib.core import *
from vlib import zs
PID = 'P28'
L = 4 if not THOROUGH else 6               # bytes of an argument, with its end
HEAD = ['import "std.csp";', 'let tag: i64; let sp: u64; let bv: bool; let iv: i64; let cnt: i32; let err: i32; type CP: &char; let x0: &char; let a1: &char; let a2: &char; let a3: &char; let a4: &char; let argc: i32; let left: u64; let first: u64;']
def flag(k, n, name):
    t = 'tag = tag * 8 + %d; ' % (n + 1)
    return {'D': 'flag::new("%s", "d%d", || => { %scnt++; })' % (name, n, t),
            'S': 'flag::new_str("%s", "s%d", |str: &const char| => { %ssp = (str: u64); })' % (name, n, t),
            'B': 'flag::new_bool("%s", "b%d", |v: bool| => { %sbv = v; })' % (name, n, t),
            'I': 'flag::new_int("%s", "i%d", |v: i64| => { %siv = v; })' % (name, n, t),
            'H': 'flag::help("h%d")' % n}[k]
CASES = []; SRC = list(HEAD)
V = lambda v, n=64: z3.BitVecVal(v, n)
def streq(s, lit): return z3.And(*[s[i] == (ord(lit[i]) if i < len(lit) else 0) for i in range(len(lit) + 1)]) if len(lit) < len(s) else z3.BoolVal(False)
def number(s):
    """(the text is an optional sign and digits, value)"""
    dig = lambda c: z3.And(z3.UGE(c, 48), z3.ULE(c, 57))
    neg = s[0] == 45; sign = z3.Or(neg, s[0] == 43); v = V(0); good = z3.BoolVal(True); on = z3.BoolVal(True)
    for i, c in enumerate(s):
        here = z3.And(on, z3.Not(z3.And(z3.BoolVal(i == 0), sign)))
        stop = z3.And(here, c == 0)
        good = z3.And(good, z3.Implies(here, z3.Or(c == 0, dig(c))))
        v = z3.If(z3.And(here, dig(c)), v * 10 + z3.ZeroExt(56, c - 48), v)
        on = z3.And(on, z3.Not(z3.And(here, c == 0)))
    return good, z3.If(neg, -v, v)
def add(key, kinds, names, n, words=None, timeout=60000):
    """flags of these kinds and names; n arguments of up to L-1 characters (words: those at these places are fixed)"""
    words = words or {}
    fn = 'f%d' % len(CASES)
    body = 'using std; tag = 0; sp = 0; bv = false; iv = 0; cnt = 0; '
    body += "let av: CP 'c[%d]; " % (n + 2) + ''.join('av[%d] = %s; ' % (i, ('&"%s"[0]' % words[i]) if i in words and 0 else 'a%d' % i) for i in range(1, n + 1))
    body += 'let fl = [%s]; let e = flags::parse(fl, &av[0], %d); err = (e.kind: i32);' % (', '.join(flag(k, i, names[i]) for i, k in enumerate(kinds)), n + 1)
    SRC.append('fn %s() { %s }' % (fn, body))
    bufs = [Buf('s%d' % i, L if i not in words else len(words[i]) + 1, ptr='a%d' % i, w=False) for i in range(1, n + 1)]
    def pre(e):
        return z3.And(*[e['s%d' % i][-1] == 0 if i not in words else streq(e['s%d' % i], words[i]) for i in range(1, n + 1)])
    def post(e, o):
        res = []
        def end(cond, st, ok):
            c = z3.And(*cond)
            res.append(('result', z3.Implies(c, (o.err == 0) == ok)))
            res.append(('handlers', z3.Implies(c, o.tag == st['tag'])))
            res.append(('string', z3.Implies(c, o.sp == st['sp'])))
            res.append(('bool', z3.Implies(c, (o.bv != 0) == st['bv'])))
            res.append(('integer', z3.Implies(z3.And(c, st['known']), o.iv == st['iv'])))
            res.append(('count', z3.Implies(c, o.cnt == st['cnt'])))
        def run(i, cond, st):
            if i > n: end(cond, st, True); return
            s = e['s%d' % i]; seen = []
            for j, k in enumerate(kinds):
                name = names[j] if k != 'H' else '--help'
                here = cond + [z3.Not(x) for x in seen] + [streq(s, name)]
                seen.append(streq(s, name))
                if len(name) >= len(s): continue
                t = dict(st, tag=st['tag'] * 8 + j + 1) if k != 'H' else st
                if k == 'D': run(i + 1, here, dict(t, cnt=st['cnt'] + 1))
                elif k == 'H': run(i + 1, here, t)
                elif i + 1 > n: end(here, st, False)
                else:
                    w = e['s%d' % (i + 1)]
                    if k == 'S': run(i + 2, here, dict(t, sp=e['a%d' % (i + 1)]))
                    elif k == 'I':
                        good, v = number(w); run(i + 2, here, dict(t, iv=v, known=good))
                    else:
                        run(i + 2, here + [streq(w, 'true')], dict(t, bv=True)); run(i + 2, here + [streq(w, 'false')], dict(t, bv=False))
                        end(here + [z3.Not(streq(w, 'true')), z3.Not(streq(w, 'false'))], st, False)
            end(cond + [z3.Not(x) for x in seen], st, False)
        run(1, [], {'tag': V(0), 'sp': V(0), 'bv': z3.BoolVal(False), 'iv': V(0), 'cnt': V(0, 32), 'known': z3.BoolVal(True)})
        return [(a, z3.simplify(b)) for a, b in res]
    CASES.append(Case(key, fn, {}, {'tag': 'i64', 'sp': 'u64', 'bv': 'bool', 'iv': 'i64', 'cnt': 'i32', 'err': 'i32'}, post, pre, bufs=bufs, opts={'fork_mem': 64, 'max_paths': 30000}, desc=body, timeout=timeout))
def build():
    N3 = ['-a', '-b', '-c', '-d', '--e']
    for k in 'DSBI':
        add('one:' + k, k, ['-a'], 2)
        add('last:' + k, k, ['-a'], 1)
    add('bool:true', 'B', ['-a'], 2, {2: 'true'}); add('bool:false', 'B', ['-a'], 2, {2: 'false'}); add('bool:long', 'B', ['-a'], 3, {1: '-a', 2: 'true', 3: 'false'})
    add('int:sign', 'I', ['-a'], 2, {1: '-a'})
    for a, b in itertools.product('DSBI', repeat=2): add('two:' + a + b, a + b, ['-a', '-b'], 2)
    add('prefix', 'DDD', ['-a', '-aa', '-'], 2); add('prefix2', 'SD', ['-aa', '-a'], 2); add('same', 'DS', ['-a', '-a'], 1); add('case', 'DD', ['-a', '-A'], 2); add('empty', 'D', ['a'], 2)
    add('three:value', 'SD', ['-a', '-b'], 3, {2: '-b'}); add('three:again', 'SI', ['-a', '-b'], 4, {1: '-a', 3: '-a'}); add('three:mixed', 'DSBI', N3, 3, {3: 'true'})
    add('five', 'DSBID', N3, 2, {2: '42'})
    add('five:last', 'DSIDD', ['-x', '-y', '-z', '-w', '-v'], 2)
    add('none', 'DS', ['-a', '-b'], 0)
    # the arguments that shift takes off one after the other
    fn = 'f%d' % len(CASES)
    SRC.append("fn %s() { let av: CP 'c[4]; av[0] = x0; av[1] = a1; av[2] = a2; av[3] = a3; let p: &const &const char = &av[0]; let k = argc; tag = 0; let i = 0; while i < 4 { i++; let q = std::args::shift(&k, &p); if q == nil { tag = tag * 8 + 7; } else if q == x0 { tag = tag * 8 + 1; } else if q == a1 { tag = tag * 8 + 2; } else if q == a2 { tag = tag * 8 + 3; } else if q == a3 { tag = tag * 8 + 4; } } cnt = k; left = (p: u64) - (&av[0]: u64); }" % fn)
    def post(e, o):
        t = V(0)
        for i in range(4): t = t * 8 + z3.If(e.argc > i, V(i + 1), V(7))
        n = z3.If(e.argc > 4, V(4, 32), z3.If(e.argc < 0, V(0, 32), e.argc))
        return [('arguments', o.tag == t), ('count', o.cnt == e.argc - n), ('place', o.left == z3.ZeroExt(32, n) * 8)]
    CASES.append(Case('shift', fn, {'argc': 'i32'}, {'tag': 'i64', 'cnt': 'i32', 'left': 'u64'}, post, lambda e: z3.And(e.argc >= -2, e.argc <= 4), bufs=[Buf('s0', 2, ptr='x0', w=False)] + [Buf('s%d' % i, 2, ptr='a%d' % i, w=False) for i in (1, 2, 3)], opts={'fork_mem': 64}, desc='std::args::shift', timeout=20000))
    # the text of --help
    for k, kinds in enumerate(('DSBIH', 'H', 'IHS', 'DHHB')):
        fn = 'f%d' % len(CASES); nm = ['-a', '-b', '--ccc', '-d', '-e']
        SRC.append("fn %s() { using std; tag = 0; let av: CP 'c[2]; av[1] = a1; let fl = [%s]; let e = flags::parse(fl, &av[0], 2); err = (e.kind: i32); }" % (fn, ', '.join(flag(x, i, nm[i]) for i, x in enumerate(kinds))))
        at = kinds.index('H'); text = 'h%d\n' % at
        for i, x in enumerate(kinds):
            if i == at: text += '  --help:\tDisplays this help text.\n'
            elif x == 'H': text += '  --help:\th%d\n' % i
            else: text += '  %s%s:\t%s%d\n' % (nm[i], {'D': '', 'S': ' <string>', 'B': ' [true|false]', 'I': ' <integer>'}[x], x.lower(), i)
        def post(e, o, text=text):
            got = []
            for t in o.trace:
                if t[0] == 'sys' and t[1] == 1: t = ('write', t[2][0], t[3])
                if t[0] == 'write': got += t[2]
            want = [V(ord(c), 8) for c in text]
            w = lambda x: x if z3.is_bv(x) else V(x, 8)
            return [('length', z3.BoolVal(len(got) == len(want))), ('text', z3.And(*[w(a) == b for a, b in zip(got, want)])), ('result', o.err == 0), ('handlers', o.tag == 0)]
        CASES.append(Case('help:' + kinds, fn, {}, {'tag': 'i64', 'err': 'i32'}, post, lambda e: streq(e.s1, '--help'), bufs=[Buf('s1', 7, ptr='a1', w=False)], opts={'fork_mem': 64}, desc='the text of --help with flags ' + kinds, timeout=20000))
def main():
    build()
    r = Report(PID, 'model_checking')
    parts = [Unit('flags', '\n'.join(SRC) + '\nfn main(): i32 { ' + ' '.join(c.fn + '();' for c in CASES) + ' <- 0; }\n', CASES)]
    r.run_units(parts)
    r.finish()
if __name__ == '__main__': main()
