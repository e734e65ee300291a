"""P06: calls - arguments, results and struct values arrive unchanged, whatever the signature and the way of calling."""
import sys, os, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.lang import *

SC = ['i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'bool', 'f32', 'f64', 'f80']
ST = {'S4': ['i32'], 'S8': ['i64'], 'SF': ['f32'], 'SD': ['f64'], 'SLD': ['i64', 'f64'], 'SDL': ['f64', 'i64'], 'SDD': ['f64', 'f64'], 'SLL': ['i64', 'u64'],
      'SFFF': ['f32', 'f32', 'f32'], 'SFF': ['f32', 'f32'], 'SFI': ['f32', 'i32'], 'SIF': ['i32', 'f32'], 'SMIX': ['i8', 'i16', 'i32', 'i64'], 'SLb': ['i64', 'i8'], 'SDI': ['f64', 'i32'],
      'SDF': ['f64', 'f32'], 'S3': ['u8', 'u8', 'u8'], 'S5': ['i32', 'u8'], 'S12': ['i32', 'i32', 'i32'], 'SbD': ['i8', 'f64'], 'SLLL': ['i64', 'i64', 'i64'], 'SDDDD': ['f64'] * 4,
      'SBIG': ['i8', 'f64', 'i32', 'f32', 'i64', 'u16'], 'SFFb': ['f32', 'f32', 'u8'], 'SW': ['i32', 'f32', 'f64'], 'S17': ['i64', 'i64', 'i8']}
NEST = {'NFF': [('SF', None), ('SF', None)], 'NLD': [('S4', None), ('SD', None)], 'NAR': [('A', ('u8', 3))], 'NAF': [('A', ('f32', 2))], 'NAL': [('A', ('i64', 3))], 'NB': [('SLL', None), ('S4', None)],
        'NF3': [('A', ('f32', 3))], 'NW5': [('A', ('u16', 5))], 'NM': [('S4', None), ('A', ('u8', 7))]}
NEST.update({'NA%d' % n: [('A', ('u8', n))] for n in (1, 2, 6, 7, 9, 10, 11, 13, 14, 15, 19)})

CBACK = False      # programs for the C backend (P12): no structure literals and function values in memory
class T:
    """a type: leaves = [(path, scalar type)]"""
    def __init__(self, name):
        self.name = name
        if name in SC: self.leaves = [('', name)]
        elif name == '&': self.name = '&i32'; self.leaves = [('', 'ptr')]
        elif name in ST: self.leaves = [('.m%d' % i, t) for i, t in enumerate(ST[name])]
        else:
            self.leaves = []
            for i, (s, a) in enumerate(NEST[name]):
                if s == 'A': self.leaves += [('.m%d[%d]' % (i, j), a[0]) for j in range(a[1])]
                else: self.leaves += [('.m%d%s' % (i, p), t) for p, t in T(s).leaves]
    def scalar(self): return self.leaves[0][0] == ''
    def literal(self, vals):
        if self.scalar(): return vals[0]
        if self.name in ST: return '%s::{ %s }' % (self.name, ', '.join(vals))
        return None
ALL = SC + ['&'] + list(ST) + list(NEST)
def decl(n):
    if n in ST: return 'type %s: struct { %s };' % (n, ', '.join('m%d: %s' % (i, t) for i, t in enumerate(ST[n])))
    return 'type %s: struct { %s };' % (n, ', '.join('m%d: %s' % (i, s if s != 'A' else "%s 'c[%d]" % a) for i, (s, a) in enumerate(NEST[n])))
DECLS = [decl(n) for n in ST] + [decl(n) for n in NEST]
csp = lambda t: '&i32' if t == 'ptr' else t

class P:
    def __init__(self, name):
        self.name = name; self.need = {}; self.b = Prog(name, [], {}, {})
    def slot(self, pre, t, k):
        self.need.setdefault((pre, t), 0)
        self.need[(pre, t)] = max(self.need[(pre, t)], k + 1)
        return '%s_%s%d' % (pre, t, k)
    def unit(self):
        d = list(DECLS)
        for (pre, t), n in self.need.items():
            d += ['let %s_%s%d: %s;' % (pre, t, i, csp(t)) for i in range(n)]
        self.b.decls = d + ['let one: i32;'] + self.b.decls
        return self.b.unit()

def build(p, how, t, cnt, uid):
    """values for a parameter of type t: (statements, expression, [(input name, type)])"""
    ins = []
    for path, lt in t.leaves:
        n = cnt.get(lt, 0); cnt[lt] = n + 1
        ins.append((p.slot('g', lt, n), lt))
    names = [x for x, _ in ins]
    if t.scalar():
        if how == 1 and t.leaves[0][1] in INTS and t.leaves[0][1] not in ('bool', 'ptr'): return '', '(%s + (one - one%s))' % (names[0], '' if t.name == 'i32' else ': ' + t.name), ins
        if how == 2: return 'let v%d: %s = %s; ' % (uid, t.name, names[0]), 'v%d' % uid, ins
        return '', names[0], ins
    if how == 1 and not CBACK and t.literal(names): return '', t.literal(names), ins
    if how == 2: p.b.decls.append('let gs%s_%d: %s;' % (p.name, len(p.b.decls), t.name)); v = 'gs%s_%d' % (p.name, len(p.b.decls) - 1); s = ''
    else: v = 'v%d' % uid; s = 'let %s: %s; ' % (v, t.name)
    s += ''.join('%s%s = %s; ' % (v, path, n) for (path, _), n in zip(t.leaves, names))
    if how == 3: return s + 'let pv%d: &%s = &%s; ' % (uid, t.name, v), '*pv%d' % uid, ins
    return s, v, ins

def eq(pairs):
    def post(e, o):
        return [('%s = %s' % (on, i), same_bits(o[on], e[i], t)) for on, i, t in pairs]
    return post
def same_bits(a, b, t):
    if t in ('f32', 'f64', 'f80'): return z3.Or(a == b, z3.And(z3.fpIsNaN(a), z3.fpIsNaN(b)))
    return a == b

def callcase(p, key, sig, ret, hows, how='direct'):
    """one callee with parameter types sig that stores every part of every parameter into a global and returns
    a value of type ret built from further globals"""
    if CBACK and how in ('ptrglobal', 'member'): how = 'direct'
    cnt, oc = {}, {}
    st, args, pairs, body, ins = '', [], [], '', {}
    params = []
    for i, t in enumerate(sig):
        s, x, inn = build(p, hows[i], t, cnt, i)
        st += s; args.append(x); params.append('p%d: %s' % (i, t.name))
        for (path, lt), (n, _) in zip(t.leaves, inn):
            k = oc.get(lt, 0); oc[lt] = k + 1
            on = p.slot('o', lt, k)
            body += '%s = p%d%s; ' % (on, i, path)
            pairs.append((on, n, lt)); ins[n] = lt
    rt = ret.name if ret else 'void'
    call = 'cal@F(%s)' % ', '.join(args)
    fnty = 'fn<%s>(%s)' % (rt, ', '.join(t.name for t in sig))
    decl = ''
    if how == 'ptrlocal': st += ('let fp: %s = (cal@F: %s); ' % (fnty, fnty) if len(sig) % 2 and not CBACK else 'let fp: const %s = cal@F; ' % fnty); call = 'fp(%s)' % ', '.join(args)
    if how == 'ptrglobal': decl = 'let gfp@F: %s;\n' % fnty; st += 'gfp@F = (cal@F: %s); ' % fnty; call = 'gfp@F(%s)' % ', '.join(args)
    if how == 'member': decl = 'type FS@F: struct { q: i32, f: %s };\n' % fnty; st += 'let fs: FS@F; fs.f = (cal@F: %s); ' % fnty; call = 'fs.f(%s)' % ', '.join(args)
    if how == 'param':
        decl = ''
    if how == 'pushed': # something is already on the stack
        pass
    fin = ''
    if ret:
        rs, rx, rin = build(p, hows[-1], ret, cnt, 90)
        body += rs + 'ret %s; ' % rx
        outs = []
        for (path, lt), (n, _) in zip(ret.leaves, rin):
            k = oc.get(lt, 0); oc[lt] = k + 1
            on = p.slot('o', lt, k); outs.append((on, path, lt)); ins[n] = lt; pairs.append((on, n, lt))
        if ret.scalar(): fin = ('%s = %s; ' % (outs[0][0], call)) if hows[-1] != 2 else 'let rv: %s = %s; %s = rv; ' % (ret.name, call, outs[0][0])
        elif len(outs) == 1 and hows[-1] == 1: fin = '%s = %s%s; ' % (outs[0][0], call, outs[0][1])
        elif hows[-1] == 2: fin = 'let rv: %s; rv = %s; ' % (ret.name, call) + ''.join('%s = rv%s; ' % (on, path) for on, path, _ in outs)
        else: fin = 'let rv: %s = %s; ' % (ret.name, call) + ''.join('%s = rv%s; ' % (on, path) for on, path, _ in outs)
    else: fin = call + '; '
    # a local before and after that must survive
    c0 = p.slot('o', 'i64', oc.get('i64', 0)); oc['i64'] = oc.get('i64', 0) + 1
    st = 'let canary: i64 = 12345; ' + st; fin += '%s = canary; ' % c0
    outs = {on: t for on, _, t in pairs}; outs[c0] = 'i64'
    pp = eq(pairs)
    ins['one'] = 'i32'
    p.b.case(key, st + fin, None, ins=ins, outs=outs, helpers=decl + 'fn cal@F(%s): %s { let lc: i64 = 0; %s}\n' % (', '.join(params), rt, body if ret else body),
             post=lambda e, o: pp(e, o) + [('canary', o[c0] == 12345)])

def each(part, n):
    """every type alone, as result, and behind k integer and m float arguments"""
    p = P('each%d' % part); i = 0
    for name in ALL:
        t = T(name)
        for how in range(4):
            i += 1
            if i % n == part: callcase(p, 'arg:%s:%d' % (name, how), [t], None, [how])
            i += 1
            if i % n == part: callcase(p, 'ret:%s:%d' % (name, how), [], t, [how])
            i += 1
            if i % n == part: callcase(p, 'retarg:%s:%d' % (name, how), [T('i32'), t, T('f64')], t, [0, how, 1, (how + 1) % 4])
        for call in ('ptrlocal', 'ptrglobal', 'member'):
            i += 1
            if i % n == part: callcase(p, '%s:%s' % (call, name), [T('i16'), t], t, [0, i % 4, i % 3], call)
        for k in range(0, 8):
            for m in ((0, 7, 8) if not THOROUGH else range(0, 10)):
                i += 1
                if i % n != part: continue
                if k not in (4, 5, 6) and m == 0 and not THOROUGH and k: continue
                sig = [T('i64')] * k + [T('f64')] * m + [t, T('i32'), T('f32')]
                callcase(p, 'pos:%s:%d:%d' % (name, k, m), sig, None if (k + m) % 2 else t, [(k + j) % 4 for j in range(len(sig) + 1)])
    return p.unit()

def rand(part, count):
    p = P('rand%d' % part)
    R = random.Random(SEED * 1000 + part)
    for c in range(count):
        n = R.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16])
        pool = R.choice([ALL, SC, list(ST), SC + list(ST), ['f32', 'f64', 'i64', 'SDD', 'SLD', 'SDL', 'SLL']])
        sig = [T(R.choice(pool)) for _ in range(n)]
        ret = R.choice([None, T(R.choice(ALL))])
        callcase(p, 'r%d:%s->%s' % (c, ','.join(t.name for t in sig), ret.name if ret else 'void'), sig, ret, [R.randrange(4) for _ in range(n + 1)],
                 R.choice(['direct', 'direct', 'ptrlocal', 'ptrglobal', 'member']))
    return p.unit()

def nested():
    """calls as arguments of calls, operands, indices, conditions; recursion; results used in place"""
    b = Prog('nest', DECLS + ['let a: i32; let b: i32; let c: i64; let d: f64; let f: f32; let r: i32; let rl: i64; let rd: f64; let rf: f32; let t: i32;',
        'fn id(x: i32): i32 { ret x; }', 'fn dd(x: f64): f64 { ret x; }', 'fn ff(x: f32): f32 { ret x; }', 'fn tick(x: i32): i32 { t = t * 10 + x; ret x; }',
        'fn mk(x: i64, y: f64): SLD { ret SLD::{ x, y }; }', 'fn mk3(x: i64, y: i64, z: i64): SLLL { ret SLLL::{ x, y, z }; }', 'fn mkd(x: f64, y: f64): SDD { ret SDD::{ x, y }; }', 'fn mk4(x: i32): S4 { ret S4::{ x }; }',
        'fn sub(x: i32, y: i32): i32 { ret x - y; }', 'fn sub6(x: i32, y: i32, z: i32, u: i32, v: i32, w: i32, s1: i32, s2: i32): i32 { ret x - y * 2 - z * 3 - u * 4 - v * 5 - w * 6 - s1 * 7 - s2 * 8; }',
        'fn take(s: SLLL, y: i64): i64 { ret s.m0 - s.m1 * 2 - s.m2 * 3 - y * 5; }', 'fn taked(s: SDD, y: SDD): f64 { ret if y.m0 == s.m1 => s.m0 else y.m1; }',
        'fn fact(n: i32): i32 { if n <= 1 { ret 1; } ret n * fact(n - 1); }', 'fn fib(n: i32): i32 { ret if n < 2 => n else fib(n - 1) + fib(n - 2); }',
        'fn even(n: i32): bool { if n == 0 { ret true; } ret odd(n - 1); }', 'fn odd(n: i32): bool { if n == 0 { ret false; } ret even(n - 1); }',
        'fn swp(s: SLLL): SLLL { ret SLLL::{ s.m2, s.m0, s.m1 }; }', 'fn swl(s: SLD): SLD { let q: SLD; q.m0 = s.m0 + 1; q.m1 = s.m1; ret q; }',
        'fn set(s: SLLL): i64 { s.m0 = 7; s.m1 = 8; ret s.m0 + s.m1 + s.m2; }', 'fn setp(s: &SLLL): void { let q: SLLL = *s; q.m0 = 5; *s = q; }', 'fn prm(x: i32): i32 { x = x + 1; ret x; }',
        'fn pick(q: bool, s: SLLL, u: SLLL): SLLL { ret if q => s else u; }', 'fn deep(n: i32, s: SLLL): SLLL { if n <= 0 { ret s; } ret deep(n - 1, SLLL::{ s.m1, s.m2, s.m0 }); }',
        'fn apply(g: fn<i32>(i32, i32), x: i32, y: i32): i32 { ret g(x, y); }', 'fn getf(k: i32): fn<i32>(i32, i32) { ret if k > 0 => (sub: fn<i32>(i32, i32)) else (add: fn<i32>(i32, i32)); }', 'fn add(x: i32, y: i32): i32 { ret x + y; }',
        'fn compose(g: fn<f64>(f64), h: fn<f64>(f64), x: f64): f64 { ret g(h(x)); }', 'fn ng(x: f64): f64 { ret -x; }', 'fn tw(x: f64): f64 { ret x + x; }',
        'fn mkS(x: i32, y: u8): S5 { ret S5::{ x, y }; }', 'let ga: SLLL;', "let arr: i32 'c[4];", 'fn first(x: i64, s: SBIG, y: f32): i64 { ret if y == s.m3 => x else s.m4; }'],
        {'a': 'i32', 'b': 'i32', 'c': 'i64', 'd': 'f64', 'f': 'f32'}, {'r': 'i32'})
    c = lambda key, body, f, o='r', ty='i32', pre=None: b.case(key, body, None, outs={o: ty}, post=lambda e, x: same_bits(x[o], f(e), ty), pre=pre)
    c('ret-used', 'r = id(a) + id(b);', lambda e: e.a + e.b)
    c('sub-sub', 'r = sub(sub(a, b), sub(b, id(a)));', lambda e: (e.a - e.b) - (e.b - e.a))
    c('sub8', 'r = sub6(id(a), id(b), sub(a, b), 4, id(5), 6, id(a) + 1, sub(b, 1));', lambda e: e.a - e.b * 2 - (e.a - e.b) * 3 - 16 - 25 - 36 - (e.a + 1) * 7 - (e.b - 1) * 8)
    c('sub8-nest', 'r = 3 - sub6(a, b, 1, 2, 3, 4, sub6(b, a, 9, 8, 7, 6, 5, 4), 2);', lambda e: 3 - (e.a - e.b * 2 - 3 - 8 - 15 - 24 - (e.b - e.a * 2 - 27 - 32 - 35 - 36 - 35 - 32) * 7 - 16))
    c('push-call', 'r = a - (b - sub6(a, b, 1, 2, 3, 4, 5, 6));', lambda e: e.a - (e.b - (e.a - e.b * 2 - 3 - 8 - 15 - 24 - 35 - 48)))
    c('member', 'rl = mk(c, d).m0;', lambda e: e.c, 'rl', 'i64')
    c('memberd', 'rd = mk(c, d).m1;', lambda e: e.d, 'rd', 'f64')
    c('member3', 'rl = mk3(c, 5, 6).m0 - mk3(7, c, 8).m1;', lambda e: z3.BitVecVal(0, 64), 'rl', 'i64')
    c('member3b', 'rl = mk3(1, 2, c).m2 * 2 + mk3(c, 2, 3).m1;', lambda e: e.c * 2 + 2, 'rl', 'i64')
    c('member4', 'r = mk4(a).m0 - mk4(b).m0;', lambda e: e.a - e.b)
    c('take-mk3', 'rl = take(mk3(c, 1, 2), c);', lambda e: e.c - 2 - 6 - e.c * 5, 'rl', 'i64')
    c('take-swp', 'rl = take(swp(swp(mk3(c, 1, 2))), 4);', lambda e: 1 - z3.BitVecVal(4, 64) - e.c * 3 - 20, 'rl', 'i64')
    c('taked', 'rd = taked(mkd(d, 2.0), mkd(3.0, d));', lambda e: e.d, 'rd', 'f64')
    c('pick', 'let x = pick(a > b, mk3(c, 2, 3), mk3(9, c, 8)); rl = x.m0 - x.m1;', lambda e: z3.If(e.a > e.b, e.c - 2, 9 - e.c), 'rl', 'i64')
    c('deep', 'let x = deep(a, mk3(c, 2, 3)); rl = x.m0 * 3 - x.m1;', lambda e: z3.If(e.a <= 0, e.c * 3 - 2, z3.If(e.a == 1, 2 * 3 - 3, 9 - e.c)), 'rl', 'i64', pre=lambda e: [e.a <= 2])
    c('fact', 'r = fact(a);', lambda e: z3.If(e.a <= 1, 1, z3.If(e.a == 2, 2, z3.If(e.a == 3, 6, z3.If(e.a == 4, 24, z3.If(e.a == 5, 120, z3.BitVecVal(720, 32)))))), pre=lambda e: [e.a <= 6])
    c('fib', 'r = fib(a);', lambda e: z3.If(e.a < 2, e.a, z3.If(e.a == 2, 1, z3.If(e.a == 3, 2, z3.If(e.a == 4, 3, z3.BitVecVal(5, 32))))), pre=lambda e: [e.a <= 5])
    c('even', 'r = if even(a) => 1 else 2;', lambda e: z3.If(e.a & 1 == 0, z3.BitVecVal(1, 32), z3.BitVecVal(2, 32)), pre=lambda e: [e.a >= 0, e.a <= 6])
    c('byvalue', 'let s = mk3(1, 2, c); rl = set(s); rl = rl + s.m0 * 3 + s.m1;', lambda e: 15 + e.c + 5, 'rl', 'i64')
    c('byvalue-global', 'ga.m0 = c; ga.m1 = 2; ga.m2 = 3; set(ga); rl = ga.m0 + ga.m1;', lambda e: e.c + 2, 'rl', 'i64')
    c('byptr', 'ga.m0 = c; ga.m1 = c; setp(&ga); rl = ga.m0 + ga.m1;', lambda e: e.c + 5, 'rl', 'i64')
    c('byvalue-int', 'let x = a; r = prm(x) * 2 - x;', lambda e: (e.a + 1) * 2 - e.a)
    c('copy', 'let s = mk3(1, 2, c); let q = s; s.m2 = 5; rl = q.m2 - s.m2;', lambda e: e.c - 5, 'rl', 'i64')
    c('copy-l', 'let s = mk(c, d); let q = swl(s); s.m0 = 5; rl = q.m0 - s.m0;', lambda e: e.c + 1 - 5, 'rl', 'i64')
    c('two-bufs', 'let s = mk3(1, 2, c); let q = mk3(c, 8, 9); rl = s.m2 * 2 - q.m0 + s.m0 - q.m2;', lambda e: e.c - 8, 'rl', 'i64')
    c('loop-buf', 'rl = 0; for let i: i64 = 0; i < 3; i = i + 1; { let s = mk3(i, c, i); rl = rl * 2 + s.m0 + s.m1; }', lambda e: ((e.c * 2 + e.c + 1) * 2) + e.c + 2, 'rl', 'i64')
    c('apply', 'r = apply((sub: fn<i32>(i32, i32)), a, b) * 2 - apply((add: fn<i32>(i32, i32)), b, a);', lambda e: (e.a - e.b) * 2 - (e.a + e.b))
    c('getf', 'r = getf(a)(a, b);', lambda e: z3.If(e.a > 0, e.a - e.b, e.a + e.b))
    c('getf-l', 'let g = getf(b); r = g(g(a, 1), 2);', lambda e: z3.If(e.b > 0, e.a - 3, e.a + 3))
    c('compose', 'rd = compose((ng: fn<f64>(f64)), (tw: fn<f64>(f64)), d);', lambda e: z3.fpNeg(z3.fpAdd(z3.RNE(), e.d, e.d)), 'rd', 'f64')
    c('float-nest', 'rd = dd(d) - dd(ng(d));', lambda e: z3.fpSub(z3.RNE(), e.d, z3.fpNeg(e.d)), 'rd', 'f64')
    c('f32-nest', 'rf = ff(f) - ff(f + f);', lambda e: z3.fpSub(z3.RNE(), e.f, z3.fpAdd(z3.RNE(), e.f, e.f)), 'rf', 'f32')
    c('first', 'let s: SBIG; s.m3 = f; s.m4 = 9; rl = first(c, s, f);', lambda e: z3.If(z3.fpIsNaN(e.f), z3.BitVecVal(9, 64), e.c), 'rl', 'i64')
    c('index', 'arr[0] = 5; arr[1] = 6; arr[2] = a; r = arr[id(2)] - arr[sub(b, b)];', lambda e: e.a - 5)
    c('cond', 'r = if id(a) > id(b) => sub(a, b) else sub(b, a);', lambda e: z3.If(e.a > e.b, e.a - e.b, e.b - e.a))
    c('pipe', 'r = a |> id($) |> sub($, b);', lambda e: e.a - e.b)
    c('pipe2', 'r = a |> sub($, $ + b);', lambda e: -e.b)
    c('pipe-ins', 'r = a |> sub(b);', lambda e: e.a - e.b)
    c('pipe-ins2', 'r = a |> sub6(1, 2, 3, 4, 5, 6, b);', lambda e: e.a - 2 - 6 - 12 - 20 - 30 - 42 - e.b * 8)
    c('pipe-mix', 'r = (a |> sub(b)) - (b |> sub($, a));', lambda e: (e.a - e.b) - (e.b - e.a))
    c('pipe-nest', 'r = a |> sub(b |> sub(1));', lambda e: e.a - (e.b - 1))
    c('pipe-nest2', 'r = a |> sub($, b |> sub($, 1)) |> sub($, $);', lambda e: z3.BitVecVal(0, 32))
    c('pipe-nest3', 'r = a |> sub(b |> sub($, 3), $);', lambda e: (e.b - 3) - e.a)
    c('lambda', 'let g = |x: i32, y: i32| i32 => { ret x - y; }; r = g(a, b);', lambda e: e.a - e.b)
    c('lambda-arg', 'r = apply(|x: i32, y: i32| i32 => { ret x * 2 - y; }, a, b);', lambda e: e.a * 2 - e.b)
    c('lambda-two', 'let g = |x: i32, y: i32| i32 => { ret x - y; }; let h = |x: i32| i32 => { ret x + 1; }; r = g(h(a), h(h(b)));', lambda e: e.a + 1 - e.b - 2)
    c('lambda-fp', 'let g = |x: f64, y: i64, z: f64| f64 => { ret if y > 3 => x else z; }; rd = g(d, c, 1.0);', lambda e: z3.If(e.c > 3, e.d, z3.FPVal(1.0, z3.Float64())), 'rd', 'f64')
    c('lambda-loc', 'let g = |x: i32| i32 => { let q = x * 2; let w = q + 1; ret w - x; }; let k = 5; r = g(a) + k;', lambda e: e.a + 6)
    c('retvoid', 't = 5; r = t; tick(3); r = r * 100 + t;', lambda e: z3.BitVecVal(553, 32))
    c('sequence', 't = 0; tick(1); tick(2); let q = tick(3); r = t;', lambda e: z3.BitVecVal(123, 32))
    # function pointers as values
    d = ['let gp: fn<i32>(i32, i32);', 'type FT: struct { k: i32, f: fn<i32>(i32, i32), g: fn<i32>(i32, i32) };', 'let gt: FT;', "let ft: fn<i32>(i32, i32) 'c[3];", 'fn retm(t: FT): fn<i32>(i32, i32) { ret t.g; }', 'fn chs(q: bool, x: fn<i32>(i32, i32), y: fn<i32>(i32, i32)): fn<i32>(i32, i32) { ret if q => x else y; }',
         'fn mkl(x: i64): SLLL { let g = |y: i64| SLLL => { ret SLLL::{ y, x, y + x }; }; ret g(x * 2); }', 'fn rep(n: i32, g: fn<void>(i32)): void { for let i = 0; i < n; i++; g(i); }', 'fn rep2(g: fn<i32>(i32), x: i32): i32 { ret g(g(x)); }', 'fn viap(x: i32): i32 { ret x |> sub($, 3) |> sub(10, $); }']
    b.decls += d
    A, S = '(add: fn<i32>(i32, i32))', '(sub: fn<i32>(i32, i32))'
    c('fp-copy', 'let g = %s; let h: fn<i32>(i32, i32) = g; gp = h; let q = gp; r = q(a, b);' % S, lambda e: e.a - e.b)
    c('fp-member', 'gt.f = %s; gt.g = %s; gt.k = 5; let q = gt; r = q.f(a, b) * 3 - q.g(b, a) + gt.g(1, 2) + q.k;' % (S, A), lambda e: (e.a - e.b) * 3 - (e.a + e.b) + 8)
    c('fp-member-swap', 'gt.f = %s; gt.g = %s; let t = gt.f; gt.f = gt.g; gt.g = t; r = gt.g(a, b) - gt.f(1, 1);' % (S, A), lambda e: e.a - e.b - 2)
    c('fp-array', 'ft[0] = %s; ft[1] = %s; ft[2] = ft[0]; r = 0; for let i = 0; i < 3; i++; r = r * 5 + ft[i](a, b);' % (S, A), lambda e: ((e.a - e.b) * 5 + e.a + e.b) * 5 + e.a - e.b)
    c('fp-retm', 'gt.f = %s; gt.g = %s; r = retm(gt)(a, b);' % (A, S), lambda e: e.a - e.b)
    c('fp-chs', 'let g = chs(a > b, %s, %s); r = g(a, b) + chs(a > b, g, g)(b, a);' % (S, A), lambda e: z3.If(e.a > e.b, z3.BitVecVal(0, 32), 2 * (e.a + e.b)))
    c('fp-ternary', 'r = (if a > b => %s else %s)(a, b);' % (S, A), lambda e: z3.If(e.a > e.b, e.a - e.b, e.a + e.b))
    c('fp-eq', 'let g = %s; let h = %s; r = if (g: u64) == (h: u64) => 1 else if (g: u64) == (gp: u64) => 2 else 3; gp = h; r = r * 10 + (if (gp: u64) == (h: u64) => 1 else 2);' % (S, A), lambda e: z3.BitVecVal(31, 32))
    c('lambda-struct', 'let s = mkl(c); rl = s.m0 - s.m1 * 3 + s.m2;', lambda e: e.c * 2 - e.c * 3 + e.c * 3, 'rl', 'i64')
    c('lambda-capture', 'let k = 5; let g = |x: i32| => { k = k + x; }; g(a); g(b); r = k;', lambda e: e.a + e.b + 5)
    c('lambda-rep', 'let k = 1; rep(3, |i: i32| => { k = k * 3 + i + a; }); r = k;', lambda e: ((3 + e.a) * 3 + 1 + e.a) * 3 + 2 + e.a)
    c('lambda-early', 'let k = 1; r = rep2(|i: i32| i32 => { k = k + 1; if i > b { ret i - b; } k = k * 2; ret i + 1; }, a); r = r * 3 + k;', lambda e: early(e))
    c('lambda-expr', 'let k = 3; let g = |x: i32| i32 = x * 2 - k; r = g(a) + g(b);', lambda e: e.a * 2 + e.b * 2 - 6)
    c('pipe-float', 'rd = d |> dd($) |> ng($);', lambda e: z3.fpNeg(e.d), 'rd', 'f64')
    c('pipe-f32', 'rf = f |> ff($ + $);', lambda e: z3.fpAdd(z3.RNE(), e.f, e.f), 'rf', 'f32')
    c('pipe-struct', 'rl = mk3(c, 5, 6) |> take($, mk3(1, 2, 3).m2);', lambda e: e.c - 10 - 18 - 15, 'rl', 'i64')
    c('pipe-callee', 'r = a |> sub(viap(1), $ + viap(b));', lambda e: 12 - (e.a + 13 - e.b))
    c('pipe-if', 'r = a |> if $ > b => sub($, b) else sub(b, $);', lambda e: z3.If(e.a > e.b, e.a - e.b, e.b - e.a))
    c('pipe-loop', 'r = 0; for let i = 0; i < 3; i++; r = r + (a |> sub($, i |> sub(viap($), 1)));', lambda e: 3 * e.a - (13 - 0 - 1) - (12 - 1) - (11 - 1))
    return b.unit()
def early(e):
    def g(x, k):
        k1 = k + 1
        return z3.If(x > e.b, x - e.b, x + 1), z3.If(x > e.b, k1, k1 * 2)
    x, k = g(e.a, z3.BitVecVal(1, 32)); x, k = g(x, k)
    return x * 3 + k

def variadic(part):
    """arguments of variadic functions read back with va_arg"""
    p = P('var%d' % part)
    R = random.Random(SEED * 77 + part)
    VT = ['i32', 'i64', 'u64', 'u32', 'f64', 'f32', 'f80', '&', 'bool', 'u8', 'i16']
    sigs = []
    for t in VT:
        for k in (1, 7, 10): sigs.append(([T('i32')], [T(t)] * k))
    for i in range(20):
        sigs.append(([T(R.choice(SC + ['SLLL', 'SLD', 'SDD', 'S4'])) for _ in range(R.choice([1, 1, 2, 3, 7, 9]))], [T(R.choice(VT)) for _ in range(R.choice([1, 2, 4, 6, 9, 14]))]))
    for i, (named, var) in enumerate(sigs):
        if i % 2 != part % 2: continue
        cnt, oc, ins, pairs = {}, {}, {}, []
        st, args, params, body = '', [], [], ''
        for j, t in enumerate(named + var):
            s, x, inn = build(p, 0 if not t.scalar() else R.choice([0, 2]), t, cnt, j)
            st += s; args.append(x)
            if j < len(named): params.append('p%d: %s' % (j, t.name))
            else: body += 'let v%d: %s = va_arg!{ap, %s}; ' % (j, t.name, t.name)
            for (path, lt), (n, _) in zip(t.leaves, inn):
                k = oc.get(lt, 0); oc[lt] = k + 1; on = p.slot('o', lt, k)
                body += '%s = %s%d%s; ' % (on, 'p' if j < len(named) else 'v', j, path)
                pairs.append((on, n, lt)); ins[n] = lt
        ret = T(R.choice(['i32', 'SLLL', 'f64'])); rs, rx, rin = build(p, 0, ret, cnt, 90)
        fin = 'let rv: %s = cal@F(%s); ' % (ret.name, ', '.join(args))
        for (path, lt), (n, _) in zip(ret.leaves, rin):
            k = oc.get(lt, 0); oc[lt] = k + 1; on = p.slot('o', lt, k); fin += '%s = rv%s; ' % (on, path); pairs.append((on, n, lt)); ins[n] = lt
        p.b.case('var:%s...%s' % (','.join(t.name for t in named), ','.join(t.name for t in var)), st + fin, None, ins=ins, outs={on: t for on, _, t in pairs},
                 helpers='fn cal@F(%s, args: ...): %s { let ap: &std::VAList = &args; %s%s ret %s; }\n' % (', '.join(params), ret.name, body, rs, rx), post=eq(pairs))
    u = p.unit(); u.src = 'import "std.csp";\n' + u.src
    return u

def main():
    r = Report('P06', 'translation_validation')
    n = 8 if not THOROUGH else 24
    units = [each(i, n) for i in range(n)] + [rand(i, 60) for i in range(4 if not THOROUGH else 24)] + [nested(), variadic(0), variadic(1)]
    for u in units:
        for c in u.cases: c.opts['align_calls'] = True
    r.run_units(units)
    r.finish()
if __name__ == '__main__': main()
