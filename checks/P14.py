"""P14: interfaces - a call through a dynamic type runs the implementation of the object's own type with the object's address and all arguments."""
import sys, os, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import P06
from P06 import *

BASES = ['i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'f32', 'f64'] + list(ST)
HOW = ['param', 'local', 'cast', 'member', 'array', 'global', 'ret', 'cond', 'fnptr', 'reassign', 'stack', 'closure', 'two', 'back', 'through', 'index']
NAMES = ['ab', 'abc', 'a', 'b', 'abcd', 'ab1', 'ab_', 'bab', 'ba', 'aa', 'abcde', 'A']     # names that begin or end with another one
CBACK = False     # programs for the C backend (P12): no structure literals and closures
def dyncase(p, key, methods, bases, calls, how, R):
    if CBACK and how == 'closure': how = 'local'
    """methods: [(parameter types, result type)]; bases: implementing types; calls: [(base index, method index)]"""
    cnt, oc, ins, pairs, outs, tail = {}, {}, {}, [], {}, ''
    names = R.choice([['m%d' % j for j in range(12)], NAMES, NAMES[::-1], R.sample(NAMES, len(NAMES))]); sub = lambda j: names[j]
    def out(lt, name):
        k = oc.get(lt, 0); oc[lt] = k + 1; on = p.slot('o', lt, k)
        pairs.append((on, name, lt)); return on
    sig = lambda j: ''.join(', p%d: %s' % (i, t.name) for i, t in enumerate(methods[j][0]))
    rn = lambda j: methods[j][1].name if methods[j][1] else 'void'
    decl = 'type I@F: interface { %s };\n' % ' '.join('fn %s(self: &I@F%s): %s,' % (sub(j), sig(j), rn(j)) for j in range(len(methods)))
    if R.random() < .5: decl = 'type J@F: interface { %s };\n' % ' '.join('fn %s(self: &J@F): i32,' % sub(j) for j in reversed(range(len(methods)))) + decl
    other = decl.startswith('type J')
    st, body, extra, exp = '', {}, {}, {}
    for k, B in enumerate(bases):                       # the objects
        p.b.decls.append('let gself%s_%d: %s;' % (p.name, len(p.b.decls), B.name)); g = 'gself%s_%d' % (p.name, len(p.b.decls) - 1); exp[k] = g
        for path, lt in B.leaves:
            n = cnt.get(lt, 0); cnt[lt] = n + 1; x = p.slot('g', lt, n); ins[x] = lt; st += '%s%s = %s; ' % (g, path, x); extra.setdefault(k, []).append((path, lt, x))
    args = []; selfout = {}
    for n, (k, j) in enumerate(calls):
        a = []
        for i, t in enumerate(methods[j][0]):
            s, x, inn = build(p, R.randrange(4), t, cnt, n * 20 + i); st += s; a.append(x)
            for (path, lt), (iname, _) in zip(t.leaves, inn): ins[iname] = lt; body[j] = body.get(j, '') + '%s = p%d%s; ' % (out(lt, iname), i, path)
        args.append(a)
        q = ''
        for path, lt, x in extra[k]: q += '%s = %s; ' % (out(lt, x), '(*x)' if not path else 'x' + path)
        path, lt, x = extra[k][-1]
        c = cnt.get(lt, 0); cnt[lt] = c + 1; w = p.slot('g', lt, c); ins[w] = lt
        q += '%s = %s; ' % ('*x' if not path else 'x' + path, w)
        selfout[(k, j)] = q; tail = '%s = %s%s; ' % (out(lt, w), exp[k], path)
        extra[k][-1] = (path, lt, w)
        t = methods[j][1]
        if t:
            rs, rx, rin = build(p, R.randrange(3), t, cnt, 90)
            body[j] = body.get(j, '') + rs; body[(j, 'r')] = 'ret %s; ' % rx
            r = 'let rv%d: %s = {call%d}; ' % (n, t.name, n)
            for (path, lt), (iname, _) in zip(t.leaves, rin): ins[iname] = lt; r += '%s = rv%d%s; ' % (out(lt, iname), n, path)
        else: r = '{call%d}; ' % n
        outs[n] = r + tail
    order = list(range(len(bases))); R.shuffle(order)
    for k in order:
        ms = list(range(len(methods))); R.shuffle(ms); x = ''
        for j in ms:
            f = 'dyn(I@F) fn %s(x: &%s%s): %s { tag = tag * 31 + %d; %s%s%s}\n' % (sub(j), bases[k].name, sig(j), rn(j), k * 16 + j + 1, selfout.get((k, j), ''), body.get(j, ''), body.get((j, 'r'), ''))
            if methods[j][1] and not body.get((j, 'r')): f = f[:-2] + 'let z: %s; ret z; }\n' % rn(j)
            x += f
        decl += 'namespace n%d@F { %s }\n' % (k, x)
    if other: decl += 'namespace nj@F { %s }\n' % ''.join('dyn(J@F) fn %s(x: &%s): i32 { tag = tag * 31 + 999; ret 1; }\n' % (sub(j), bases[-1].name) for j in range(len(methods)))
    call = {}
    k0, j0 = calls[0]; o = lambda n: exp[calls[n][0]]
    ap = lambda n: ', '.join(args[n])
    m = lambda n: sub(calls[n][1])
    for n in range(len(calls)): st += ''; call['call%d' % n] = 'd%d.%s(%s)' % (n, m(n), ap(n))
    rt0 = rn(j0); ret0 = 'ret ' if methods[j0][1] else ''; par = ', '.join('p%d' % i for i in range(len(methods[j0][0])))
    local = ''.join('let d%d: dyn I@F = &%s; ' % (n, o(n)) for n in range(len(calls)))
    if how in ('param', 'stack', 'two', 'through'):
        lead = R.choice([4, 5, 6, 7]) if how == 'stack' else 0
        fl = ''.join('l%d: i64, ' % i for i in range(lead)); al = ''.join('%d, ' % i for i in range(lead))
        if how == 'two': al = '&%s, ' % exp[len(bases) - 1]; fl = 'e: dyn I@F, '
        decl += 'fn via@F(%sd: dyn I@F%s): %s { let cy: i64 = 5; %sd.%s(%s); }\n' % (fl, sig(j0), rt0, ret0, m(0), par)
        if how == 'through': decl += 'fn via2@F(q: i32, d: dyn I@F%s): %s { let e = d; %svia@F(%s); }\n' % (sig(j0), rt0, ret0, ', '.join(['e'] + ([par] if par else [])))
        call['call0'] = ('via@F(%s&%s%s)' % (al, o(0), ', ' * bool(args[0]) + ap(0))) if how != 'through' else 'via2@F(1, &%s%s)' % (o(0), ', ' * bool(args[0]) + ap(0))
        st += ''.join('let d%d: dyn I@F = &%s; ' % (n, o(n)) for n in range(1, len(calls)))
    elif how == 'local' or how == 'reassign':
        st += local
        if how == 'reassign': call = {'call%d' % n: 'd.%s(%s)' % (m(n), ap(n)) for n in range(len(calls))}; st += 'let d: dyn I@F = &%s; ' % exp[len(bases) - 1]; outs = {n: 'd = d%d; ' % n + x for n, x in outs.items()}
    elif how == 'cast': st += ''.join('let d%d = (&%s: dyn I@F); ' % (n, o(n)) for n in range(len(calls)))
    elif how in ('member', 'array', 'index'):
        if how == 'member':
            decl += 'type H@F: struct { a: i8, d0: dyn I@F, d1: dyn I@F };\n'; st += 'let h: H@F; '; e = lambda n: 'h.d%d' % n
        elif how == 'array': decl += 'type D@F: dyn I@F;\n'; st += "let h: D@F 'c[2]; "; e = lambda n: 'h[%d]' % n
        else: decl += 'type D@F: dyn I@F;\n'; st += "let h: D@F 'c[3]; let i = one - one + 1; "; e = lambda n: 'h[i + %d]' % n
        for n in reversed(range(len(calls))): st += '%s = &%s; ' % (e(n), o(n)); call['call%d' % n] = '%s.%s(%s)' % (e(n), m(n), ap(n))
    elif how == 'global':
        for n in range(len(calls)): decl += 'let gd%d@F: dyn I@F;\n' % n; st += 'gd%d@F = &%s; ' % (n, o(n)); call['call%d' % n] = 'gd%d@F.%s(%s)' % (n, m(n), ap(n))
    elif how == 'ret':
        for n in range(len(calls)): decl += 'fn mk%d@F(x: &%s): dyn I@F { let q: i64 = 3; ret %s; }\n' % (n, bases[calls[n][0]].name, R.choice(['x', '(x: dyn I@F)'])); st += 'let d%d = mk%d@F(&%s); ' % (n, n, o(n))
    elif how == 'cond':
        for n in range(len(calls)): st += 'let d%d = if one == one => (&%s: dyn I@F) else (&%s: dyn I@F); ' % (n, o(n), exp[len(bases) - 1])
    elif how == 'fnptr':
        st += local
        for n in range(len(calls)): st += 'let f%d = d%d.%s; ' % (n, n, m(n)); call['call%d' % n] = 'f%d(%s)' % (n, ', '.join(['&' + o(n)] + args[n]))
    elif how == 'closure':
        st += local + 'let cl = |q: i32%s| %s => { %sd0.%s(%s); }; ' % (sig(j0), rt0, ret0, m(0), par); call['call0'] = 'cl(%s)' % ', '.join(['1'] + args[0])
    elif how == 'back':
        st += local + 'let pb: &%s = d0; ' % bases[k0].name
        path, lt, x = [l for l in extra[k0]][0]
        n = [q for q in T(bases[k0].name).leaves][0]
        on = p.slot('o', n[1], oc.get(n[1], 0)); oc[n[1]] = oc.get(n[1], 0) + 1
        st += '%s = %s; ' % (on, '*pb' if not n[0] else 'pb' + n[0])
        x0 = [v for v in ins if v.startswith('g_' + n[1])]
        pairs.append((on, p.slot('g', n[1], 0) if k0 == 0 else None, n[1])) if k0 == 0 else None
    want = 0
    for k, j in calls: want = (want * 31 + k * 16 + j + 1) % 2 ** 32
    o_ = {on: t for on, _, t in pairs}; o_['tag'] = 'i32'; ins['one'] = 'i32'
    pp = eq(pairs)
    p.b.case(key, 'tag = 0; let canary: i64 = 12345; let cy = canary; ' + st + ''.join(outs[n] for n in range(len(calls))).format(**call) + 'if canary != cy { tag = 0; }', None, ins=ins, outs=o_, helpers=decl,
             post=lambda e, o: pp(e, o) + [('tag', o['tag'] == want)])

def proto(name): p = P(name); p.b.decls += ['let tag: i32;']; return p
def positions():
    """every method position of interfaces with one to nine methods"""
    p = proto('dynpos'); R = random.Random('P14/pos')
    for n in range(1, 10):
        for j in range(n):
            ms = [([T('i32')] * (i % 3), T('i32') if i % 2 else None) for i in range(n)]
            dyncase(p, 'pos:%d:%d' % (n, j), ms, [T('i32'), T('i64')], [(j % 2, j)], HOW[(n + j) % 3], R)
    return p.unit()
def each(part, n):
    p = proto('dyneach%d' % part); i = 0
    for name in ALL:
        if name == 'f80': continue
        for a, r in ((True, False), (False, True)):
            i += 1
            R = random.Random('P14/%s/%d' % (name, a))
            if i % n == part: dyncase(p, '%s:%s' % ('arg' if a else 'ret', name), [([], None), ([T(name)] if a else [], T(name) if r else None)], [T(R.choice(BASES))], [(0, 1)], HOW[i // n % len(HOW)], R)
    for name in BASES:
        i += 1
        R = random.Random('P14/self/%s' % name)
        if i % n == part: dyncase(p, 'self:%s' % name, [([T('i64')], T('i32')), ([], None)], [T(name)], [(0, 0), (0, 1)], HOW[i // n % len(HOW)], R)
    return p.unit()
def rand(part, count):
    p = proto('dynrand%d' % part); R = random.Random('P14/%d/%d' % (SEED, part))
    pool0 = [x for x in ALL if x != 'f80']
    for c in range(count):
        nm = R.choice([1, 2, 3, 4, 6]); pool = R.choice([pool0, SC[:-1], SC[:-1] + list(ST), ['i64', 'f64', 'SLL', 'SLLL', 'SDD']])
        ms = [([T(R.choice(pool)) for _ in range(R.choice([0, 1, 2, 3, 5, 6, 8]))], R.choice([None, T(R.choice(pool))])) for _ in range(nm)]
        bs = [T(x) for x in R.sample(BASES, R.choice([1, 2, 3]))]
        js = R.sample(range(nm), min(nm, 2)); calls = [(R.randrange(len(bs)), j) for j in js]
        how = HOW[c % len(HOW)]
        dyncase(p, 'r%d:%s:%s' % (c, how, ','.join(t.name for t in ms[calls[0][1]][0])), ms, bs, calls, how, R)
    return p.unit()
def main():
    r = Report('P14', 'translation_validation')
    n = 4
    units = [positions()] + [each(i, n) for i in range(n)] + [rand(i, 80) for i in range(5 if not THOROUGH else 20)]
    for u in units:
        for c in u.cases: c.opts['align_calls'] = True
    r.run_units(units)
    r.finish()
if __name__ == '__main__': main()
