"""P10: values computed at compile time (initial values of globals, enumeration values, array sizes) are those of the running program."""
import sys, os, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.lang import *
from vlib import snap
from vlib.stmts import *

R = Report('P10', 'other')
ALL = ALLI + ['f32', 'f64']
HARNESS = open(VERIF + '/vlib/h_const.c').read()
WRAPS = ['init_ast_node', 'init_ast_obj', 'throw_error', 'asm_print', 'asm_println', 'asm_codegen_pass']
INS = {'hi': ('i32', 8), 'hl': ('i64', 8), 'hu': ('u64', 8), 'hf': ('f32', 8), 'hc': ('char', 8)}

EXE = [None]
def build_harness():
    try: EXE[0] = snap.harness(HARNESS, WRAPS)
    except BuildError as e: print('P10: the harness cannot be built with this compiler, its cases are left out: ' + str(e)[:1500])
    return EXE[0]
def snapshot(u): return snap.snapshot(EXE[0], u.src)

class K:
    """constants of one expression: literal text by marker, value by hole"""
    def __init__(self, fno, e): self.f, self.e, self.n, self.used = fno, e, {'i32': 0, 'i64': 0, 'u64': 0, 'f32': 0, 'char': 0}, []
    def hole(self, ty):
        k = self.n[ty]; self.n[ty] += 1; self.used.append((ty, k))
        nm = {'i32': 'hi', 'i64': 'hl', 'u64': 'hu', 'f32': 'hf', 'char': 'hc'}[ty]
        m = self.f * 8 + k
        src = {'i32': lambda: str(1000000001 + m), 'i64': lambda: str(9000000000000000001 + m), 'u64': lambda: str(18000000000000000001 + m),
               'f32': lambda: '%d.0' % (16000001 + m), 'char': lambda: "'%c'" % (97 + k)}[ty]()
        return Ex(src, ty, getattr(self.e, nm)[k])
    def const(self, T, s=0):
        """a constant of type T, in several ways"""
        if T == 'i32': return [lambda: self.hole('i32'), lambda: unary('-', self.hole('i32')), lambda: cast(self.hole('u64'), 'i32')][s % 3]()
        if T == 'i64': return [lambda: self.hole('i64'), lambda: cast(self.hole('u64'), 'i64'), lambda: cast(unary('-', self.hole('i32')), 'i64')][s % 3]()
        if T == 'u64': return [lambda: self.hole('u64'), lambda: cast(self.hole('i64'), 'u64'), lambda: cast(self.hole('i32'), 'u64')][s % 3]()
        if T == 'f32': return [lambda: self.hole('f32'), lambda: unary('-', self.hole('f32')), lambda: cast(self.hole('i32'), 'f32')][s % 3]()
        if T == 'f64': return [lambda: cast(self.hole('f32'), 'f64'), lambda: cast(unary('-', self.hole('f32')), 'f64'), lambda: cast(self.hole('i32'), 'f64')][s % 3]()
        if T == 'char': return self.hole('char')
        if T == 'bool': return compare('<', self.hole('i32'), self.hole('i32'))
        return [lambda: cast(self.hole('i32'), T), lambda: cast(unary('-', self.hole('i32')), T), lambda: cast(self.hole('u64'), T)][s % 3]()

def pre_holes(e):
    """values that a literal can have"""
    out = []
    for k in range(8):
        out += [e.hi[k] >= 0, e.hl[k] > 0x7fffffff, z3.UGT(e.hu[k], (1 << 63) - 1), z3.And(e.hc[k] > 0, e.hc[k] < 127)]
        f = e.hf[k]
        out += [z3.Not(z3.fpIsNaN(f)), z3.Not(z3.fpIsInf(f)), z3.Not(z3.fpIsNegative(f))]
    return out

def bits(v, t):
    if t == 'bool': return z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
    return v

def value(o, t):
    """object of type t from the emitted bytes"""
    n = osz(t)
    b = z3.Concat(*[o.res[i] for i in range(n - 1, -1, -1)]) if n > 1 else o.res[0]
    return fp_from_bv(b, FLTS[t][0]) if is_float(t) else b

class U:
    def __init__(self, name, decls=()): self.name, self.decls, self.fns, self.cases = name, list(decls), [], []
    def add(self, key, build, to=None, run='run_init', timeout=None):
        """build(K) -> Ex; the initial value of an object of type `to` (None: of the expression's own type)"""
        n = len(self.fns)
        class Dummy:            # a first run, for the text
            def __getattr__(s, a):
                t, m = INS[a]; return fresh('d_' + a, INS[a])
        x = build(K(n, Dummy()))
        t = to or x.ty
        self.fns.append('fn f%d(%s): %s { ret %s; }' % (n, 'd: %s' % to if to else '', x.ty, x.src))
        def exprs(e):
            out = []
            for m in ('wrap', 'wrapu', 'int'):
                with mode(m): out.append(build(K(n, e)))
            return out
        def post(e, o):
            return z3.And(o.nres == osz(t), z3.Or(*[same(t, value(o, t), conv(x.v, x.ty, t)) for x in exprs(e)]))
        def pre(e): return pre_holes(e) + [c for x in exprs(e) for c in x.ok] + castok(build, n, e, to)
        if run == 'run_const':
            def post(e, o):
                x = exprs(e)
                return z3.And(z3.Or(*[o.ci == conv(y.v, y.ty, 'i64') for y in x]), z3.Or(*[o.cu == conv(y.v, y.ty, 'u64') for y in x]))
        outs = {'res': ('u8', 16), 'nres': 'u32'} if run == 'run_init' else {'ci': 'i64', 'cu': 'u64'}
        self.cases.append(Case('%s:%s' % (self.name, key), run, dict(INS), outs, post, pre, fixed={'fno': ('i32', n)}, prefix='',
                               desc=self.fns[n], timeout=timeout))
    def unit(self):
        src = '\n'.join(self.decls + self.fns) + '\nfn main(): i32 {\n' + ''.join('    f%d(%s);\n' % (i, '0' if '(d:' in f else '') for i, f in enumerate(self.fns)) + '    ret 0;\n}\n'
        return Unit(self.name, src, self.cases, build=snapshot)

CASTS = []
_cast0 = cast
def cast(e, ty, explicit=True):
    """float to integer only within the range of the integer type"""
    x = _cast0(e, ty, explicit)
    if is_float(e.ty) and ty in INTS and ty != 'bool':
        x = Ex(x.src, x.ty, x.v, x.ok + (fits(e.v, e.ty, ty),))
    return x
def fits(v, f, t):
    n, s = nbits(t), signed(t)
    S = FLTS[f][0]
    lo = z3.fpGT(v, z3.FPVal(-(2.0 ** (n - 1)) - (1 if n < 24 or (f == 'f64' and n < 53) else 0), S)) if s else z3.fpGT(v, z3.FPVal(-1.0, S))
    return z3.And(z3.Not(z3.fpIsNaN(v)), z3.Or(lo, z3.fpEQ(v, z3.FPVal(-(2.0 ** (n - 1)), S))) if s else lo, z3.fpLT(v, z3.FPVal(2.0 ** (n - 1 if s else n), S)))
def castok(build, n, e, to):
    if not to: return []
    x = build(K(n, e))
    return [fits(x.v, x.ty, to)] if is_float(x.ty) and to in INTS else []

# ------------------------------------------------------------------ functions evaluated at compile time
FN = []
bit = lambda v, i: X('((%s >> (%s)) & 1) == 1' % (v, i), lambda s: z3.Extract(0, 0, s[v] >> eval(i, {}, dict(s))) == 1)
lt = lambda c, lim: X('%s < %s' % (c, lim.src), lambda s: s[c] < lim.f(s))
inc = lambda c: ('set', c, X('%s + 1' % c, lambda s: s[c] + 1))
eqm = lambda mode, v, x: {'==': v == x, '<': v < x, '<=': v <= x, '>': v > x, '>=': v >= x}[mode]
LOOPS = ['while', 'loop', 'dowhile', 'for', 'fornc', 'forns']
def wrap(kind, d, lim, body, cond):
    c = 'c%d' % d; z = ('set', c, C(0))
    out = ('if', X('%s >= %s' % (c, lim.src), lambda s: s[c] >= lim.f(s)), ('break',), None)
    if kind == 'while': return ('seq', z, ('while', lt(c, lim), ('seq', inc(c), body)))
    if kind == 'loop': return ('seq', z, ('loop', ('seq', out, inc(c), body)))
    if kind == 'dowhile': return ('seq', z, ('dowhile', ('seq', inc(c), body), lt(c, lim)))
    if kind == 'for': return ('for', z, lt(c, lim), inc(c), body)
    if kind == 'fornc': return ('for', z, None, inc(c), ('seq', out, body))
    if kind == 'forns': return ('for', z, lt(c, lim), None, ('seq', inc(c), body))
    if kind == 'if': return ('if', cond, body, None)
    if kind == 'ifelse': return ('if', cond, ('tick', 40 + d), body)
    if kind == 'unless': return ('unless', cond, body)
    if kind == 'match': return ('match', X('(m & 3)', lambda s: s['m'] & 3), eqm, [('==', C(0), ('tick', 50 + d)), ('<', C(2), body), ('>=', C(3), ('seq', ('tick', 60 + d), body))], None)
    if kind == 'matchd': return ('match', X('(m & 3)', lambda s: s['m'] & 3), eqm, [('<=', C(0), body), ('>', C(2), ('tick', 70 + d))], body)
    return ('seq', body)
KINDS = LOOPS + ['if', 'ifelse', 'unless', 'match', 'matchd', 'block']
def esc(kind, cond):
    if kind == 'none': return ('tick', 3)
    return ('if', cond, ('ret', X('t + 5', lambda s: s['t'] + 5)) if kind == 'ret' else (kind,), None)

def stmt_case(u, key, tree, unroll=3):
    n = len(u.fns)
    u.decls.append('[constexpr] fn g%d(a: i32, b: i32, m: i32, n: i32): i32 { let t: i32 = 1; let c0: i32 = 0; let c1: i32 = 0; %s ret t ^ c0; }' % (n, src(tree)))
    def orc(k):
        v = [k.const('i32', s) for s in (0, 1, 0, 0)]
        st = dict(zip('abmn', [x.v for x in v]))
        st.update({'t': z3.BitVecVal(1, 32), 'c0': z3.BitVecVal(0, 32), 'c1': z3.BitVecVal(0, 32), 'ret': z3.BitVecVal(0, 32)})
        r = Run(st, unroll)
        _, _, _, g = r.run(tree, TRUE)
        st = r.st
        val = z3.If(g, st['ret'], st['t'] ^ st['c0'])
        return Ex('g%d(%s)' % (n, ', '.join(x.src for x in v)), 'i32', val, tuple(r.pre))
    u.add(key, orc)

def stmts():
    us = []; rnd = random.Random(5)
    lim = X('(n & 3)', lambda s: s['n'] & 3)
    u = U('stmt')
    for k in KINDS:
        for e in ('none', 'break', 'continue', 'ret'):
            if e == 'continue' and k not in LOOPS: continue
            if e == 'break' and k not in LOOPS and not k.startswith('match'): continue
            stmt_case(u, '%s:%s' % (k, e), ('seq', ('tick', 8), wrap(k, 0, lim, ('seq', ('tick', 1), esc(e, bit('a', 'c0')), ('tick', 2)), bit('b', '0')), ('tick', 9)), 4)
    us.append(u)
    for part in range(2):
        u = U('nest%d' % part); i = 0
        for o in KINDS:
            for k in KINDS:
                for e1 in ('none', 'break', 'continue', 'ret'):
                    for e2 in ('none', 'break', 'continue', 'ret'):
                        ok1 = e1 in ('none', 'ret') or (k in LOOPS or o in LOOPS) or (e1 == 'break' and (k.startswith('match') or o.startswith('match')))
                        ok2 = e2 in ('none', 'ret') or o in LOOPS or (e2 == 'break' and o.startswith('match'))
                        if not ok1 or not ok2 or (e1 == 'none' and e2 == 'none'): continue
                        i += 1
                        if i % 2 != part or (not THOROUGH and rnd.random() < .88): continue
                        inner = ('seq', ('tick', 1), esc(e1, bit('a', 'c0 * 3 + c1')), ('tick', 2))
                        mid = ('seq', ('tick', 4), wrap(k, 1, C(2), inner, bit('n', 'c0')), ('tick', 5), esc(e2, bit('b', 'c0')), ('tick', 7))
                        stmt_case(u, '%s/%s:%s,%s' % (o, k, e1, e2), ('seq', wrap(o, 0, C(2), mid, bit('n', '9')), ('tick', 9)), 3)
        us.append(u)
    # calls: conversion of arguments, results and assigned values, recursion
    u = U('call')
    for T in ALL:
        u.decls.append('[constexpr] fn par_%s(p: u8, x: %s, q: i64, y: %s): %s { ret x - y; }' % (T, T, T, T))
        u.add('par:' + T, lambda k, T=T: (lambda a, b: Ex('par_%s((1: u8), %s, (2: i64), %s)' % (T, a.src, b.src), T, arith('-', a, b).v))(k.const(T, 0), k.const(T, 1)))
        u.decls.append('[constexpr] fn loc_%s(x: %s): %s { let p: u8 = (7: u8); let y: %s = x; let q: i64 = 3; let z: %s = y; p = (9: u8); q = (p: i64); z = z + y; ret z; }' % (T, T, T, T, T))
        u.add('loc:' + T, lambda k, T=T: (lambda a: Ex('loc_%s(%s)' % (T, a.src), T, arith('+', a, a).v))(k.const(T, 1)))
        for S in ['i32', 'i64', 'u8', 'f32', 'u64', 'i16']:
            if S == T: continue
            if is_float(S) and not is_float(T): continue
            u.decls.append('[constexpr] fn cv_%s_%s(x: %s): %s { let y: %s = (x: %s); ret y; }' % (S, T, S, T, T, T))
            u.add('cast:%s-%s' % (S, T), lambda k, S=S, T=T: (lambda a: Ex('cv_%s_%s(%s)' % (S, T, a.src), T, conv(a.v, S, T)))(k.const(S, 1)))
    u.decls += ['[constexpr] fn fib(n: i32): i32 { if n < 2 { ret n; } ret fib(n - 1) + fib(n - 2); }',
                '[constexpr] fn ack(a: i32, b: i32): i32 { let r: i32 = b; if a > 0 { let s: i32 = ack(a - 1, b + 1); r = r * 3 + s; } ret r ^ a; }',
                '[constexpr] fn six(a: i32, b: i32, c: i32, d: i32, e: i32, f: i32): i32 { ret ((((a - b) ^ c) + d) ^ e) - f; }',
                'const K6: f64 = 3; const K2: i64 = K1 * 3; const K5: i64 = K4 - 5; const K4: i32 = -1; const K1: i32 = 12; const K3: f32 = 2.5; const K7: u64 = K4; const K8: i16 = K9 + K1; const K9: u8 = 250; type EN: enum { EA = 3, EB, EC = -7, ED, EE = K1 };']
    u.decls += ['[constexpr] fn sub(a: i32, b: i32): i32 { ret a - b; }', '[constexpr] fn pin(a: i32): i32 { ret 10 |> sub($, a); }',
                '[constexpr] fn sw(a: i32, b: i32): i32 { let p: &i32 = &a; let q: &i32 = &b; let t: i32 = *p; *p = *q; *q = t; ret a * 8 + b; }',
                '[constexpr] fn ca(a: i32): i32 { let x: i32 = a; x += 3; x ^= 2; x -= 1; x <<= 2; let y: i32 = 0; let z: i32 = (y = x + 1) - 5; ret (x + y) ^ z; }',
                '[constexpr] fn sh(a: i32): i32 { let x: i32 = a; { let x: i32 = 7; x = x + 1; } for let i: i32 = 0; i < 3; i = i + 1; { let y: i32 = i; x = (x ^ 1) + y; } ret x; }',
                '[constexpr] fn nar(a: i32): i64 { let c: u8 = (a: u8); let s: i8 = 0; s = (c: i8); let w: i64 = s; c += 200; ret w - (c: i64); }']
    u.decls += ['[constexpr] fn deep(n: i32, p: &i32): i32 { let a: i64 = n; let b: i64 = a + 1; let c: i64 = b; let d: i64 = c; let e: i64 = d; let f: i64 = e; let g: i64 = f; if n > 0 { deep(n - 1, p); } *p = *p + (a + g - e: i32); ret 0; }',
                '[constexpr] fn chain(n: i32): i32 { let x: i32 = 5; deep(n, &x); ret x; }',
                '[constexpr] fn inc(a: i32): i32 { ret a + 1; } [constexpr] fn dec(a: i32, b: i32): i32 { ret a - b; } [constexpr] fn two(): i32 { ret 2; }',
                '[constexpr] fn times(n: i32): i32 { let r: i32 = 0; for let i: i32 = 0; i < n; i = i + 1; { r = dec(inc(inc(r)), two()) + 3; } ret r; }',
                'const DEEP: i32 = chain(200); const MANY: i32 = times(1100);']
    def B32(v): return z3.BitVecVal(v, 32)
    def fib(v):
        r = B32(0)
        for i, x in enumerate([0, 1, 1, 2, 3, 5, 8, 13]): r = z3.If(v == i, B32(x), r)
        return z3.If(v < 2, v, r)
    u.add('fib', lambda k: (lambda a: Ex('fib(%s & 7)' % a.src, 'i32', fib(a.v & 7)))(k.const('i32', 2)))
    def ack(a, b, d=4):
        if d == 0: return b ^ a
        return z3.If(a > 0, b * 3 + ack(a - 1, b + 1, d - 1), b) ^ a
    u.add('ack', lambda k: (lambda a, b: Ex('ack(%s & 3, %s)' % (a.src, b.src), 'i32', ack(a.v & 3, b.v)))(k.const('i32', 2), k.const('i32', 1)))
    def six(a, b, c, d, e, f): return ((((a - b) ^ c) + d) ^ e) - f
    u.add('six', lambda k: (lambda v: Ex('six(%s)' % ', '.join(x.src for x in v), 'i32', six(*[x.v for x in v])))([k.const('i32', i % 2) for i in range(6)]))
    u.add('nestcall', lambda k: (lambda v: Ex('six(ack(1, %s), %s, fib(5), ack(0, %s), six(1, 2, %s, 4, 5, 6), %s)' % tuple(x.src for x in v), 'i32',
          six(ack(B32(1), v[0].v), v[1].v, B32(5), v[2].v, six(B32(1), B32(2), v[3].v, B32(4), B32(5), B32(6)), v[4].v)))([k.const('i32', i % 2) for i in range(5)]))
    u.add('const', lambda k: (lambda a: Ex('K1 + %s' % a.src, 'i32', a.v + 12))(k.const('i32', 1)))
    u.add('constl', lambda k: (lambda a: Ex('K2 * %s' % a.src, 'i64', a.v * 36))(k.const('i64', 2)))
    u.add('constf', lambda k: (lambda a: Ex('K3 + %s' % a.src, 'f32', z3.fpAdd(RNE, z3.FPVal(2.5, F32), a.v)))(k.const('f32', 1)))
    u.add('constk', lambda k: (lambda a: Ex('K6 + %s' % a.src, 'f64', z3.fpAdd(RNE, z3.FPVal(3.0, F64), a.v)))(k.const('f64', 1)))
    u.add('constn', lambda k: (lambda a: Ex('K5 + %s' % a.src, 'i64', a.v - 6))(k.const('i64', 1)))
    u.add('constu', lambda k: (lambda a: Ex('K7 - %s' % a.src, 'u64', -1 - a.v))(k.const('u64', 1)))
    u.add('consts', lambda k: (lambda a: Ex('K8 ^ %s' % a.src, 'i16', a.v ^ 262))(k.const('i16', 1)))
    for i, (m, x) in enumerate(zip(['EA', 'EB', 'EC', 'ED', 'EE'], [3, 4, -7, -6, 12])):
        u.add('enum%d' % i, lambda k, m=m, x=x: (lambda a: Ex('(EN::%s: i32) + %s' % (m, a.src), 'i32', a.v + x))(k.const('i32', 1)))
    u.add('sizeof', lambda k: (lambda a: Ex('((sizeof i16): i32) + %s' % a.src, 'i32', a.v + 2))(k.const('i32', 1)))
    u.add('closure', lambda k: (lambda a, b: Ex('(%s, %s)' % (a.src, b.src), 'i32', b.v))(k.const('i32', 1), k.const('i32', 0)))
    u.add('pipe', lambda k: (lambda a: Ex('(%s |> six(1, $, 3, 4, $, 6))' % a.src, 'i32', six(B32(1), a.v, B32(3), B32(4), a.v, B32(6))))(k.const('i32', 1)))
    for i, (t, f) in enumerate([('%s |> sub($, %s |> sub($, 1))', lambda a, b: a - (b - 1)), ('%s |> sub(%s |> sub($, 1), $)', lambda a, b: b - 1 - a), ('(%s |> sub(pin($), %s)) ', lambda a, b: 10 - a - b),
                                ('%s |> sub($, pin(%s) |> sub(pin($), $))', lambda a, b: a - (10 - (10 - b) - (10 - b))), ('sw(%s, %s)', lambda a, b: b * 8 + a), ('ca(%s) + %s', lambda a, b: (lambda x: ((x + x + 1) ^ (x - 4)))((((a + 3) ^ 2) - 1) << 2) + b),
                                ('sh(%s) ^ %s', lambda a, b: ((((a ^ 1) ^ 1) + 1 ^ 1) + 2) ^ b)]):
        u.add('mix%d' % i, lambda k, t=t, f=f: (lambda a, b: Ex('(%s)' % (t % (a.src, b.src)), 'i32', f(a.v, b.v)))(k.const('i32', 1), k.const('i32', 0)))
    u.add('deep', lambda k: (lambda a: Ex('(DEEP - %s)' % a.src, 'i32', B32(200 * 201 // 2 + 5) - a.v))(k.const('i32', 1)))
    u.add('many', lambda k: (lambda a: Ex('(MANY ^ %s)' % a.src, 'i32', B32(3300) ^ a.v))(k.const('i32', 1)))
    u.add('narrow', lambda k: (lambda a: Ex('nar(%s)' % a.src, 'i64', z3.SignExt(56, z3.Extract(7, 0, a.v)) - z3.ZeroExt(56, z3.Extract(7, 0, a.v) + 200)))(k.const('i32', 0)))
    u.add('and', lambda k: (lambda a, b: logic('&&', compare('<', a, b), compare('!=', a, lit(0))))(k.const('i32', 1), k.const('i32', 0)))
    u.add('or', lambda k: (lambda a, b: logic('||', compare('<', a, b), compare('==', b, lit(0))))(k.const('i32', 1), k.const('i32', 0)))
    us.append(u)
    # frames of compile-time calls: many parameters and locals of all sizes, none may overlap
    u = U('frame'); rnd = random.Random(9)
    for n in range(24 if not THOROUGH else 120):
        ps = [rnd.choice(ALLI) for _ in range(rnd.randrange(1, 6))]
        ls = [rnd.choice(ALLI) for _ in range(rnd.randrange(3, 10))]
        vs = [('p%d' % i, t) for i, t in enumerate(ps)] + [('v%d' % i, t) for i, t in enumerate(ls)]
        prog = []
        for i, t in enumerate(ls): prog.append(('v%d' % i, t, *rnd.choice(vs[:len(ps) + i]), rnd.randrange(1, 100), True))
        for _ in range(rnd.randrange(2, 6)): prog.append((*rnd.choice(vs), *rnd.choice(vs), rnd.randrange(1, 100), False))
        body = ''.join('%s%s = (%s: %s) + (%d: %s); ' % ('let ' if new else '', a + (': ' + ta if new else ''), b, ta, c, ta) for a, ta, b, tb, c, new in prog)
        body += 'let h: i64 = 0; ' + ''.join('h = h ^ (%s: i64); ' % v for v, _ in vs)
        u.decls.append('[constexpr] fn fr%d(%s): i64 { %sret h; }' % (n, ', '.join('p%d: %s' % (i, t) for i, t in enumerate(ps)), body))
        def orc(k, n=n, ps=ps, vs=vs, prog=prog):
            a = [k.const(t, i % 2 if INTS[t][0] < 33 else 0) for i, t in enumerate(ps)]
            st = {'p%d' % i: x.v for i, x in enumerate(a)}
            for v, tv, w, tw, c, new in prog: st[v] = conv(st[w], tw, tv) + c
            h = z3.BitVecVal(0, 64)
            for v, t in vs: h = h ^ conv(st[v], t, 'i64')
            return Ex('fr%d(%s)' % (n, ', '.join(x.src for x in a)), 'i64', h)
        u.add('r%d' % n, orc)
    us.append(u)
    return us

# ------------------------------------------------------------------ whole programs: globals with initial values, read at run time
def glob(part):
    """globals of generated types, read through every path, with symbolic indices"""
    rnd = random.Random(100 + part)
    decls = ['const K1: i32 = 12; const K2: i64 = K1 * 5; [constexpr] fn sq(x: i32): i32 { let y: i32 = x; ret y * x; }',
             'type En: enum { EA = 3, EB, EC = -7, ED = K1 }; type St: &char;', 'let i0: u64; let i1: u64; let i2: u64;']
    nty = [0]
    def scalar(t):
        """(source, value)"""
        if t == 'bool':
            return rnd.choice([('true', 1), ('false', 0), ('3 < 4', 1), ('K1 == 13', 0), ('!false', 1)])
        if t == 'char':
            return rnd.choice([("'a'", 97), ("'\\n'", 10), ("'\\\\'", 92), ("'Z'", 90), ("'0'", 48)])
        if t == 'En': return rnd.choice([('En::EA', 3), ('En::EB', 4), ('En::EC', -7), ('En::ED', 12)])
        if t == 'St':
            x = ''.join(rnd.choice('abcxyz019') for _ in range(rnd.randrange(1, 6))); return '"%s"' % x, x
        if is_float(t):
            v = rnd.choice([0, 1, 2, 0.5, 3.25, 100.75]); k = rnd.random()
            if k < .3: return str(int(v * 4)), float(int(v * 4))
            if k < .6: return '-%s' % float(v), -float(v)
            return str(float(v)), float(v)
        n, sg = nbits(t), signed(t)
        k = rnd.randrange(7)
        if k == 0: return 'K1', 12
        if k == 1: return '(K2: %s)' % t, 60
        if k == 2: return 'sq(%d)' % 5, 25
        if k == 3: return '7 / 2 + 1 << 2', 16
        if k == 4 and sg: return '-%d' % 100, -100
        v = rnd.choice([0, 1, 5, (1 << (n - 1)) - 1, rnd.randrange(1 << (n - 1))] + ([(1 << n) - 1] if not sg else []))
        return str(v), v
    def exact(t):
        """... of exactly that type (the elements of an array literal have the type of the first one)"""
        s, v = scalar(t)
        return ('(%s: %s)' % (s, t) if t not in ('bool', 'char', 'En', 'St') else s), v
    def gen(depth, sc=scalar):
        """a type: (name, make() -> (source, {path: value}))  path: tuple of '.m' and indices"""
        k = rnd.random()
        if depth == 0 or k < .25:
            t = rnd.choice(INTS_ + ['f32', 'f64', 'bool', 'char', 'En', 'St'])
            return t, lambda: (lambda s: (s[0], {(): (t, s[1])}))(sc(t)), 'scalar'
        if k < .6:
            ms = [gen(depth - 1) for _ in range(rnd.randrange(1, 5))]
            ms = [m for m in ms if m[2] != 'carr'] or [gen(0)]
            n = 'T%d' % nty[0]; nty[0] += 1
            decls.append('type %s: struct { %s };' % (n, ', '.join('m%d: %s' % (i, m[0]) for i, m in enumerate(ms))))
            def mk():
                src, leaves = [], {}
                for i, m in enumerate(ms):
                    x, l = m[1](); src.append(x)
                    for p, v in l.items(): leaves[('.m%d' % i,) + p] = v
                return '%s::{ %s }' % (n, ', '.join(src)), leaves
            return n, mk, 'struct'
        b = gen(depth - 1, exact)
        while b[2] == 'carr': b = gen(depth - 1, exact)
        cnt = rnd.randrange(1, 5); carr = depth == 3 and rnd.random() < .5
        dim = rnd.choice(['%d' % cnt, 'K1 - %d' % (12 - cnt), '%d / 2' % (2 * cnt + 1)]) if carr else '%d' % cnt
        def mk():
            src, leaves = [], {}
            for i in range(cnt):
                x, l = b[1](); src.append(x)
                for p, v in l.items(): leaves[(i,) + p] = v
            return '[' + ', '.join(src) + ']', leaves
        return b[0] + (" 'c[%s]" % dim if carr else '[%s]' % dim), mk, 'carr' if carr else 'arr'
    cases, funcs = [], []
    outs = {t: 'o_' + t for t in ALL + ['bool', 'char']}
    decls.append(' '.join('let %s: %s;' % (o, t) for t, o in outs.items()))
    for g in range(24 if THOROUGH else 12):
        t, mk, _ = gen(3 if g % 3 else 2)
        if g % 4 == 3: decls.append('let pad%d: u8 = 1;' % g)
        x, leaves = mk()
        decls.append('let g%d: %s = %s;' % (g, t, x))
        groups = {}
        for p, v in leaves.items(): groups.setdefault(tuple('i' if isinstance(q, int) else q for q in p), {})[tuple(q for q in p if isinstance(q, int))] = v
        for sk, vals in groups.items():
            txt, j = 'g%d' % g, 0
            for q in sk:
                if q == 'i': txt += '[i%d]' % j; j += 1
                else: txt += q
            lt = next(iter(vals.values()))[0]
            idx = list(vals)
            if lt == 'St':                      # the text the pointer points at, with one more index
                vals = {p + (c,): ('char', ord(ch)) for p, (_, s) in vals.items() for c, ch in enumerate(s + '\0')}
                txt += '[i%d]' % j; lt = 'char'
            ot = 'i32' if lt == 'En' else lt
            fn = 'r%d' % len(funcs)
            funcs.append('fn %s(): void { %s = %s; }' % (fn, outs[ot], '(%s: i32)' % txt if lt == 'En' else txt))
            def pre(e, vals=vals): return [z3.Or(*[z3.And(*([z3.BoolVal(True)] + [[e.i0, e.i1, e.i2, e.i3][n] == i for n, i in enumerate(p)])) for p in vals])]
            def post(e, o, vals=vals, ot=ot):
                c = []
                for p, (_, v) in vals.items():
                    w = z3.FPVal(v, FLTS[ot][0]) if is_float(ot) else z3.BitVecVal(int(v), 8 if ot in ('bool', 'char') else nbits(ot))
                    got = o[outs[ot]]
                    c.append(z3.Implies(z3.And(*([z3.BoolVal(True)] + [[e.i0, e.i1, e.i2, e.i3][n] == i for n, i in enumerate(p)])), z3.fpEQ(got, w) if is_float(ot) else got == w))
                return z3.And(*c)
            cases.append(Case('glob%d:g%d:%s' % (part, g, txt), fn, {'i%d' % n: 'u64' for n in range(4)}, {outs[ot]: ot}, post, pre, desc='let g%d: %s = %s; ... %s' % (g, t, x, txt)))
    decls[2] += ' let i3: u64;'
    src = '\n'.join(decls + funcs) + '\nfn main(): i32 {\n' + ''.join('    r%d();\n' % i for i in range(len(funcs))) + '    ret 0;\n}\n'
    return Unit('glob%d' % part, src, cases)
INTS_ = ['i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64']

def main():
    units = stmts()
    rnd = random.Random(7)
    # literals and their conversion to the declared type
    u = U('lit')
    for T in ['i32', 'i64', 'u64', 'f32', 'char', 'bool']:
        for s in range(3): u.add('%s%d' % (T, s), lambda k, T=T, s=s: k.const(T, s))
    units.append(u)
    u = U('decl')
    for S in ALL:
        for D in ALL:
            if S == D: continue
            u.add('%s-%s' % (S, D), lambda k, S=S, D=D: arith('+', k.const(S, 1), k.const(S, 0)) if not is_float(S) and not (is_float(D) and osz(S) >= 4) else k.const(S, 1), to=D)
    for D in ALL:
        for s in range(3):
            u.add('lit%d-%s' % (s, D), lambda k, s=s: k.const('i32', s % 2) if s < 2 else k.const('f32', 0), to=D)
    units.append(u)
    # binary operators
    for T in ALL:
        u = U('bin-' + T)
        ops = ['+', '-', '*', '/'] + ([] if is_float(T) else ['%', '<<', '>>', '&', '|', '^'])
        for op in ops:
            for s in range(3):
                if op in '*/%' and s and T in ('i64', 'u64', 'f64'): continue
                u.add('%s%d' % (op, s), lambda k, op=op, T=T, s=s: arith(op, k.const(T, s), cast(k.hole('i32'), T) if op in ('<<', '>>') else k.const(T, (s + 1) % 3)))
        for op in ['==', '!=', '<', '<=', '>', '>=']:
            for s in range(3):
                u.add('%s%d' % (op, s), lambda k, op=op, T=T, s=s: compare(op, k.const(T, s), k.const(T, (s + 1) % 3)))
        u.add('neg', lambda k, T=T: unary('-', k.const(T, 0)))
        if not is_float(T): u.add('inv', lambda k, T=T: unary('~', k.const(T, 1)))
        u.add('not', lambda k, T=T: unary('!', compare('!=', k.const(T, 1), k.const(T, 0))))
        u.add('tern', lambda k, T=T: ternary(compare('<', k.const(T, 0), k.const(T, 1)), k.const(T, 1), k.const(T, 2)))
        def els(k, T=T):
            a, b = k.const(T, 0), k.const(T, 1)
            z = z3.fpIsZero(a.v) if is_float(T) else a.v == 0
            return Ex('(%s else %s)' % (a.src, b.src), T, z3.If(z, b.v, a.v))
        u.add('else', els)
        units.append(u)
    # mixed operands
    u = U('mixed')
    for a in ALL:
        for b in ALL:
            if a == b or (osz(a) == osz(b) and is_float(a) == is_float(b)): continue
            if is_float(a) != is_float(b) and osz(a) >= osz(b) and not is_float(a): mixok = False
            else: mixok = True
            if (is_float(a) and not is_float(b) and osz(b) >= osz(a)) or (is_float(b) and not is_float(a) and osz(a) >= osz(b)): mixok = False
            for op in ['+', '-'] if mixok else []:
                u.add('%s%s%s' % (a, op, b), lambda k, a=a, b=b, op=op: arith(op, k.const(a, 1), k.const(b, 1)))
            for op in ['<', '==', '>=']:
                u.add('%s%s%s' % (a, op, b), lambda k, a=a, b=b, op=op: compare(op, k.const(a, 1), k.const(b, 1)))
    units.append(u)
    # casts
    u = U('cast')
    for a in ALL + ['bool', 'char']:
        for b in ALL + ['bool']:
            if a != b and not (b == 'bool' and is_float(a)): u.add('%s-%s' % (a, b), lambda k, a=a, b=b: cast(k.const(a, 1), b))
    units.append(u)
    if not build_harness(): units = []
    R.run_units([x.unit() for x in units] + [glob(i) for i in range(8 if THOROUGH else 4)])
    R.finish()

main()
