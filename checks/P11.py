"""P11: closures - parameters and results of every type, captured variables shared with the creating function, nesting, passing on."""
import sys, os, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import P06
from P06 import *

def closurecase(p, key, sig, ret, hows, how, order):
    """a closure with parameter types sig that stores every part of every parameter into a local variable of its creator
    (which then hands them on) and returns a value of type ret"""
    cnt, oc, ins, pairs, params, args = {}, {}, {}, [], [], []
    st, body, locs, copy = '', '', '', ''
    def out(lt, name, v):
        nonlocal locs, copy
        k = oc.get(lt, 0); oc[lt] = k + 1; on = p.slot('o', lt, k)
        locs += 'let h%s: %s; ' % (on, csp(lt)); copy += '%s = h%s; ' % (on, on)
        pairs.append((on, name, lt)); return 'h%s = %s; ' % (on, v)
    for i, t in enumerate(sig):
        s, x, inn = build(p, hows[i], t, cnt, i)
        st += s; args.append(x); params.append('p%d: %s' % (i, t.name))
        for (path, lt), (n, _) in zip(t.leaves, inn):
            body += out(lt, n, 'p%d%s' % (i, path)); ins[n] = lt
    rt = ret.name if ret else 'void'; fnty = 'fn<%s>(%s)' % (rt, ', '.join(t.name for t in sig))
    fin = ''
    if ret:
        rs, rx, rin = build(p, hows[-1], ret, cnt, 90)
        if order % 2: st += rs       # the value that the closure returns is a captured one
        else: body += rs
        body += 'ret %s; ' % rx
        fin = 'let rv: %s = {call}; ' % ret.name
        for (path, lt), (n, _) in zip(ret.leaves, rin): ins[n] = lt; fin += out(lt, n, 'rv%s' % path)
    else: fin = '{call}; '
    c0 = p.slot('o', 'i64', oc.get('i64', 0))
    clo = '|%s| %s => { let lc: i64 = 0; %s}' % (', '.join(params), rt, body)
    a = ', '.join(args); decl = ''
    if how == 'local': st += 'let clo = %s; ' % clo; call = 'clo(%s)' % a
    elif how == 'typed': st += 'let clo: %s = %s; let clo2 = clo; ' % (fnty, clo); call = 'clo2(%s)' % a
    elif how == 'member': decl = 'type FS@F: struct { q: i32, f: %s };\n' % fnty; st += 'let fs: FS@F; fs.f = %s; ' % clo; call = 'fs.f(%s)' % a
    else:
        decl = 'fn via@F(%s): %s { let lc: i64 = 0; %sf(%s); }\n' % (', '.join(['f: ' + fnty] + params), rt, 'ret ' if ret else '', ', '.join('p%d' % i for i in range(len(sig))))
        call = 'via@F(%s)' % ', '.join([clo] + args)
    outs = {on: t for on, _, t in pairs}; outs[c0] = 'i64'; ins['one'] = 'i32'
    if not pairs: outs = {c0: 'i64'}
    pp = eq(pairs)
    p.b.case(key, 'let canary: i64 = 12345; let cy = canary; ' + locs + st + fin.format(call=call) + copy + '%s = canary - cy + 12345; ' % c0, None, ins=ins, outs=outs, helpers=decl,
             post=lambda e, o: pp(e, o) + [('canary', o[c0] == 12345)])

HOW = ['local', 'typed', 'member', 'pass']
def each(part, n):
    p = P('ceach%d' % part); i = 0
    for name in ALL:
        t = T(name)
        for h in range(4):
            i += 1
            if i % n == part: closurecase(p, 'arg:%s:%d' % (name, h), [t], None, [h], HOW[(i + h) % 4], i // n)
            i += 1
            if i % n == part: closurecase(p, 'ret:%s:%d' % (name, h), [], t, [h], HOW[(i + h) % 4], i // n)
        for k, m in ((0, 0), (3, 0), (5, 2), (6, 7), (2, 8), (7, 0)):
            i += 1
            if i % n == part: closurecase(p, 'pos:%s:%d:%d' % (name, k, m), [T('i64')] * k + [T('f64')] * m + [t, T('i32'), T('f32')], None if (k + m) % 2 else t, [(k + j) % 4 for j in range(k + m + 4)], HOW[(i + k) % 4], i // n)
    return p.unit()

def rand(part, count):
    p = P('crand%d' % part)
    R = random.Random('P11/%d/%d' % (SEED, part))
    for c in range(count):
        n = R.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12])
        pool = R.choice([ALL, SC, list(ST), SC + list(ST), ['f32', 'f64', 'i64', 'SDD', 'SLD', 'SDL', 'SLL']])
        sig = [T(R.choice(pool)) for _ in range(n)]; ret = R.choice([None, T(R.choice(ALL))])
        closurecase(p, 'r%d:%s->%s' % (c, ','.join(t.name for t in sig), ret.name if ret else 'void'), sig, ret, [R.randrange(4) for _ in range(n + 1)], R.choice(HOW), R.randrange(2))
    return p.unit()

def capture():
    b = Prog('capture', ['let a: i32; let b: i32; let c: i64; let d: f64; let r: i32; let rl: i64; let rd: f64; let t: i32; let gf: fn<i32>(i32); type S: struct { x: i32, y: i64, z: i8 };',
        'fn ap(f: fn<i32>(i32), x: i32): i32 { ret f(x); }', 'fn ap2(f: fn<i32>(i32), x: i32): i32 { let k = f(x); let m = f(x + 1); ret k * 3 - m; }', 'fn each3(f: fn<void>(i32)): void { for let i = 0; i < 3; i++; { f(i); } }',
        'fn comp(f: fn<i32>(i32), g: fn<i32>(i32), x: i32): i32 { let l = |v: i32| i32 => { ret f(g(v)); }; ret l(x); }', 'fn dirt(x: i64): i64 { let q: i64 = -1; let w: i64 = -1; let e: i64 = -1; let u: i64 = x; ret q + w + e + u; }',
        'fn fold(f: fn<i32>(i32, i32), n: i32, s: i32): i32 { for let i = 0; i < n; i++; { s = f(s, i); } ret s; }', 'fn red(f: fn<i64>(S, i64), s: S): i64 { ret f(s, 2) - f(s, 3); }'],
        {'a': 'i32', 'b': 'i32', 'c': 'i64', 'd': 'f64'}, {'r': 'i32'})
    I = z3.If; bit0 = lambda v: z3.Extract(0, 0, v) == 1
    def c(key, body, f, o='r', ty='i32', pre=None, args='x: i32, y: i32', pass_='a, b', ret=None):
        rt = ret or ty
        b.case(key, '%s = @Fg(%s);' % (o, pass_), None, outs={o: ty}, helpers='fn @Fg(%s): %s { let cy = 12345; %s }\n' % (args, rt, body.replace('RET', 'if cy != 12345 { ret 0; } ret')), post=lambda e, x: same_bits(x[o], f(e), ty), pre=pre)
    c('read-arg', 'let f = |v: i32| i32 => { ret v - x; }; RET f(y);', lambda e: e.b - e.a)
    c('write-arg', 'let f = |v: i32| => { x = x + v; }; f(y); f(1); RET x;', lambda e: e.a + e.b + 1)
    c('later-value', 'let q = 1; let f = |v: i32| i32 => { ret v * q; }; q = x; RET f(3) + y;', lambda e: e.a * 3 + e.b)
    c('types', 'let p: i8 = (x: i8); let q: i64 = (y: i64); let w: f64 = 2.5; let f = |v: i32| i32 => { p = p + 1; q = q * 2; w = w + 1.0; ret v; }; f(1); f(2); RET (p: i32) + (q: i32) + (w: i32);', lambda e: z3.SignExt(24, z3.Extract(7, 0, e.a) + 2) + e.b * 4 + 4)
    c('struct', 'let s: S; s.x = x; s.z = 3; let f = |v: i32| i32 => { s.x = s.x + v; s.y = (s.x: i64); ret (s.z: i32); }; let k = f(y); RET (s.y: i32) - s.x + s.x * 2 + k;', lambda e: (e.a + e.b) * 2 + 3)
    c('array', "let s: i32 'c[4]; s[1] = x; let f = |i: i32, v: i32| => { s[i] = s[i - 1] + v; }; f(2, y); f(3, 1); RET s[3] * 2 - s[1];", lambda e: (e.a + e.b + 1) * 2 - e.a)
    c('pointer', 'let p = &x; let f = |v: i32| => { *p = *p * 2 + v; }; f(y); RET x;', lambda e: e.a * 2 + e.b)
    c('two', 'let n = 0; let inc = |v: i32| => { n = n + v; }; let dbl = |v: i32| => { n = n * 2 - v; }; inc(x); dbl(y); inc(1); RET n;', lambda e: e.a * 2 - e.b + 1)
    c('calls-closure', 'let n = x; let f = |v: i32| i32 => { n = n + 1; ret v + n; }; let g = |v: i32| i32 => { ret f(v) * 3 + f(1); }; RET g(y) - n;', lambda e: (e.b + e.a + 2) * 3 + 1 + e.a + 1 - e.a)
    c('inside', 'let f = |v: i32| i32 => { let g = |w: i32| i32 => { ret w * 2 + v + x; }; ret g(v + 1) + g(3); }; RET f(y) ;', lambda e: 2 * e.b + 2 + e.b + e.a + 6 + e.b + e.a)
    c('inside3', 'let n = 0; let f = |v: i32| => { let m = v; let g = |w: i32| => { let k = w; let h = |u: i32| => { n = n + u - m + k; }; h(x); m = m + 1; }; g(v); g(v + 2); }; f(y); RET n;', lambda e: 2 * e.a + 1)
    c('local-state', 'let f = |v: i32| i32 => { let k: i32; k = k + v; ret k; }; let z = f(x); RET z * 3 - f(y);', lambda e: e.a * 3 - e.b)
    c('shadow', 'let v = x; let f = |v: i32| i32 => { let x = v * 2; { let v = 5; x = x + v; } ret x - v; }; RET f(y) + v * 3 + x;', lambda e: e.b + 5 + e.a * 4)
    c('loop', 'let n = 0; for let i = 0; i < 3; i++; { let f = |v: i32| i32 => { ret v * i; }; n = n + f(x) + i; } RET n;', lambda e: e.a * 3 + 3)
    c('loop-out', 'let n = 0; let f = |v: i32| => { n = n * 3 + v; }; for let i = 0; i < 3; i++; { f(x + i); if n == y { break; } } RET n;', lambda e: (lambda n1: I(n1 == e.b, n1, (lambda n2: I(n2 == e.b, n2, n2 * 3 + e.a + 2))(n1 * 3 + e.a + 1)))(e.a))
    c('cond', 'let f = if x > y => |v: i32| i32 => { ret v + x; } else |v: i32| i32 => { ret v - y; }; RET f(10);', lambda e: I(e.a > e.b, 10 + e.a, 10 - e.b))
    c('reassign', 'let f = |v: i32| i32 => { ret v + x; }; let k = f(1); f = |v: i32| i32 => { ret v * y; }; RET k * 5 - f(2);', lambda e: (e.a + 1) * 5 - e.b * 2)
    c('global', 'gf = |v: i32| i32 => { x = x + v; ret x; }; let k = gf(y); RET k * 2 + x - gf(0);', lambda e: (e.a + e.b) * 2)
    c('pass', 'let n = x; RET ap(|v: i32| i32 => { n = n + v; ret n * 2; }, y) + n;', lambda e: (e.a + e.b) * 2 + e.a)
    c('pass-first', 'let n = x; let k = ap(|v: i32| i32 => { n = n + v; ret n * 2; }, y); RET k + n;', lambda e: (e.a + e.b) * 3)
    c('pass2', 'let n = x; let k = ap2(|v: i32| i32 => { n = n + 1; ret v - n; }, y); RET k + n;', lambda e: (e.b - e.a - 1) * 3 - (e.b + 1 - e.a - 2) + e.a + 2)
    c('pass-named', 'let n = 0; let f = |i: i32| => { n = n * x + i; }; each3(f); RET n + y;', lambda e: e.a + 2 + e.b)
    c('comp', 'RET comp(|v: i32| i32 => { ret v * x; }, |v: i32| i32 => { ret v + y; }, 3);', lambda e: (3 + e.b) * e.a)
    c('fold', 'RET fold(|s: i32, v: i32| i32 => { ret s * 2 + v - y; }, 3, x);', lambda e: ((e.a * 2 - e.b) * 2 + 1 - e.b) * 2 + 2 - e.b)
    c('early', 'let f = |v: i32| i32 => { if v & 1 == 1 { ret x; } while true { if v > 5 { ret y; } break; } ret v; }; RET f(x) * 3 + f(y);', lambda e: (lambda f: f(e.a) * 3 + f(e.b))(lambda v: I(bit0(v), e.a, I(v > 5, e.b, v))))
    c('match', 'let f = |v: i32| i32 => { match v { 1 => ret x; 2 => { ret y; } 3 => x = x + 1; _ => {} } ret 9; }; RET f(x) * 100 + f(y) + x;', lambda e: (lambda f: (lambda k, m: m[0] * 100 + k[0] + m[1])(*(lambda k: (k, f(e.a, k[1])))(f(e.b, e.a))))(lambda v, x: (I(v == 1, x, I(v == 2, e.b, z3.BitVecVal(9, 32))), I(v == 3, x + 1, x)))) if False else None
    c('dirty', 'let f = |v: i32| i32 => { let k: i64; let m: i8; { let z: i32; k = k + (v: i64) + (z: i64); } ret (k: i32) + (m: i32); }; dirt(5); let p = f(x); dirt(7); RET p * 7 - f(y);', lambda e: e.a * 7 - e.b)
    c('defer', 'let n = x; let f = |v: i32| i32 => { defer n = n * 2; defer n = n + v; ret n; }; let k = f(y); RET k * 3 + n;', lambda e: e.a * 3 + e.a * 2 + e.b)
    c('expr-body', 'let n = x; let f = |v: i32| i32 = v * n + 1; n = y; RET f(2) - x;', lambda e: e.b * 2 + 1 - e.a)
    c('direct', 'RET (|v: i32| i32 => { ret v - y; })(x);', lambda e: e.a - e.b)
    c('operand', 'let f = |v: i32| i32 => { x = x + 1; ret v; }; RET 100 - (y - (f(3) - (f(4) * 2)));', lambda e: 100 - (e.b - (3 - z3.BitVecVal(8, 32))))
    c('args', 'let f = |v: i32, w: i32| i32 => { ret v - w * 2; }; RET f(f(x, y), f(y, f(1, x)));', lambda e: (e.a - e.b * 2) - (e.b - (1 - e.a * 2) * 2) * 2)
    c('void', 'let n = x; let f = | | => { n = n + y; }; f(); f(); RET n;', lambda e: e.a + e.b * 2) if False else None
    c('bigstack', "let big: i64 'c[40]; big[39] = (x: i64); let f = |v: i32| => { big[0] = big[39] + (v: i64); }; f(y); RET (big[0]: i32);", lambda e: e.a + e.b)
    c('rets-struct', 'let s: S; s.x = y; let f = |v: i32| S => { s.y = (v: i64); ret s; }; let q = f(x); RET (q.y: i32) - q.x;', lambda e: e.a - e.b)
    c('struct-arg', 'let s: S; s.x = y; s.y = 5; rl = red(|q: S, k: i64| i64 => { q.x = 7; ret q.y * k + (x: i64); }, s); RET (rl: i32) + s.x;', lambda e: e.b - 5)
    c('f64', 'let f = |v: f64| f64 => { z = z + v; ret z; }; let k = f(w); ret k - z;', lambda e: z3.fpSub(z3.RNE(), z3.fpAdd(z3.RNE(), e.d, e.d), z3.fpAdd(z3.RNE(), e.d, e.d)), 'rd', 'f64', args='z: f64, w: f64', pass_='d, d')
    c('i64', 'let f = |v: i64| i64 => { x = x + v; ret x * 2; }; ret f(y) - x;', lambda e: e.c + 10, 'rl', 'i64', args='x: i64, y: i64', pass_='c, 5')
    for k in range(1, 11):
        v = ['x' if i == k - 1 else 'y' if i == 0 else '%d' % (i * 7 + 1) for i in range(k)]
        c('nargs%d' % k, 'let f = |%s| i32 => { ret %s - x; }; RET f(%s) + y;' % (', '.join('p%d: i32' % i for i in range(k)), ' + '.join('p%d * %d' % (i, i * 2 + 1) for i in range(k)), ', '.join(v)),
          lambda e, v=v: sum((e.a if x == 'x' else e.b if x == 'y' else int(x)) * (i * 2 + 1) for i, x in enumerate(v)) - e.a + e.b)
    c('reenter', 'let q = x; let f = |v: i32| i32 => { ret q + v; }; if x > 0 { t = @Fg(x - 1, y); } RET f(y);', lambda e: e.a + e.b, pre=lambda e: [e.a <= 2])
    b.funcs = [f for f in b.funcs]
    return b.unit()

def main():
    r = Report('P11', 'translation_validation')
    n = 8
    units = [each(i, n) for i in (range(4) if not THOROUGH else range(n))] + [rand(i, 50) for i in range(3 if not THOROUGH else 20)] + [capture()]
    for u in units:
        for c in u.cases: c.opts['align_calls'] = True
    r.run_units(units)
    r.finish()
if __name__ == '__main__': main()
