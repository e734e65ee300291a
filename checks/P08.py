"""P08: declarations, scopes, shadowing, deferred statements, `with`, namespaces."""
import sys, os, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.stmts import *
from vlib.lang import nbits, conv, same, is_float, INTS

NAMES = ['x', 'y', 'z']
TYPES = ['i32', 'i32', 'i64', 'i8', 'u16', 'u8', 'u32']
signed = lambda T: T[0] == 'i'
def widen(v, T):
    n = nbits(T)
    return v if n == 32 else z3.Extract(31, 0, v) if n > 32 else (z3.SignExt if signed(T) else z3.ZeroExt)(32 - n, v)
def narrow(v, T):
    """i32 -> T"""
    n = nbits(T)
    return v if n == 32 else z3.SignExt(n - 32, v) if n > 32 else z3.Extract(n - 1, 0, v)

class Gen:
    """random trees of statements; every declaration gets a key of its own, names are reused as much as possible"""
    def __init__(self, R, base):
        self.fixed = set()           # the variables of loops: their bodies leave them alone
        self.R, self.env, self.n, self.types, self.loop, self.left = R, [dict(base)], 0, dict(base.values()), 0, 4
    def look(self, name):
        for s in reversed(self.env):
            if name in s: return s[name]
    def visible(self, ban, w=0): return [n for n in NAMES + (['gx', 'gy'] if w else []) if self.look(n) and n not in ban] or ([] if w else self.visible(ban, 1))
    def read(self, name):
        key, T = self.look(name)
        return X(name if T == 'i32' else '(%s: i32)' % name, lambda s: widen(s[key], T))
    def expr(self, ban):
        v = self.visible(ban)
        a = self.read(self.R.choice(v)) if v else X('a', lambda s: s['a'])
        k = self.R.randrange(5)
        if k == 0: return a
        b = self.read(self.R.choice(v)) if v and self.R.random() < .6 else self.R.choice([X('a', lambda s: s['a']), X('b', lambda s: s['b'])])
        c = self.R.randrange(1, 90)
        if k == 1: return X('(%s * 2 + %d)' % (a.src, c), lambda s: a.f(s) * 2 + c)
        if k == 2: return X('(%s - %s)' % (a.src, b.src), lambda s: a.f(s) - b.f(s))
        if k == 3: return X('(%s + %s + %d)' % (a.src, b.src, c), lambda s: a.f(s) + b.f(s) + c)
        return X('(%s + %d)' % (b.src, c), lambda s: b.f(s) + c)
    def store(self, name, e):
        key, T = self.look(name)
        return ('raw', '%s = %s;' % (name, e.src if T == 'i32' else '(%s: %s)' % (e.src, T)), lambda r, g: r.set(g, key, narrow(e.f(r.st), T)))
    def tick(self, ban):
        v = self.visible(ban)
        if not v: return ('set', 't', X('t * 31 + %d' % (self.n * 7 + 3), lambda s, c=self.n * 7 + 3: s['t'] * 31 + c))
        a = self.read(self.R.choice(v))
        return ('set', 't', X('t * 31 + %s' % a.src, lambda s: s['t'] * 31 + a.f(s)))
    def let(self, name, ban):
        T = self.R.choice(TYPES); key = '%s#%d' % (name, self.n); self.n += 1
        if self.R.random() < .35:
            self.env[-1][name] = (key, T); self.types[key] = T
            return ('raw', 'let %s: %s;' % (name, T), None), key           # zero from the start of the block
        e = self.expr(ban | {name})
        self.env[-1][name] = (key, T); self.types[key] = T
        t = '' if T == 'i32' and self.R.random() < .5 else ': ' + T
        return ('raw', 'let %s%s = %s;' % (name, t, e.src if T == 'i32' else '(%s: %s)' % (e.src, T)), lambda r, g: r.set(g, key, narrow(e.f(r.st), T))), key
    def block(self, d, more=None, first=()):
        R = self.R
        self.env.append({})
        names = R.sample(NAMES, R.choice([0, 1, 1, 2, 3]))
        pend = set(names); out = list(first); keys = []
        order = names + [None] * R.randrange(1, 3)
        R.shuffle(order)
        for n in order:
            if n is None: out.append(self.stmt(d, frozenset(pend)))
            else:
                st, key = self.let(n, frozenset(pend)); pend.discard(n)
                out.append(st); keys.append(key)
                if R.random() < .5: out.append(self.tick(frozenset(pend)))
        if more: out += more(frozenset())
        out.append(self.tick(frozenset()))
        self.env.pop()
        T = self.types
        zero = ('raw', '', lambda r, g: [r.set(g, k, z3.BitVecVal(0, nbits(T[k]))) for k in keys] and None)
        return ('seq', zero) + tuple(('raw', x[1], lambda r, g: None) if x[0] == 'raw' and x[2] is None else x for x in out)
    def stmt(self, d, ban):
        R = self.R
        k = R.random()
        if d <= 0 or k < .2:
            v = [n for n in self.visible(ban, R.random() < .2) if self.look(n)[0] not in self.fixed]
            if v and R.random() < .6: return self.store(R.choice(v), self.expr(ban))
            return self.tick(ban)
        # names that are declared later in an enclosing block would already refer to that declaration
        self.env.append({n: None for n in ban})
        keep = self.env[-1]
        saved = self.visible
        self.visible = lambda b, w=0, sv=saved: sv(frozenset(b) | ban, w)
        try:
            if k < .4: return self.block(d - 1)
            if self.left <= 0: return self.block(d - 1)
            self.left -= 1 if k < .68 and not self.loop else 2
            c = bit(R.choice('ab'), R.randrange(32))
            if k < .55: return ('if', c, self.block(d - 1), self.block(d - 1) if R.random() < .6 else None)
            if k < .68:
                return ('match', X('(a & 3)', lambda s: s['a'] & 3), lambda m, v, x: v == x, [('==', C(i), self.block(d - 1)) for i in range(R.randrange(1, 3))], self.block(d - 1) if R.random() < .5 else None)
            if self.loop >= 2: return self.block(d - 1)
            self.loop += 1
            n = 'c%d' % self.loop
            try:
                if k < .8:
                    inc = lambda ban: [('set', n, X(n + ' + 1', lambda s: s[n] + 1))]
                    esc = []
                    if R.random() < .5: esc = [('if', bit('b', '%s + %d' % (n, R.randrange(20))), ('break',) if R.random() < .5 else ('seq', ('set', n, X(n + ' + 1', lambda s: s[n] + 1)), ('continue',)), None)]
                    kind = R.choice(['while', 'loop', 'dowhile'])
                    body = self.block(d - 1, lambda b: esc + inc(b), [('if', X(n + ' >= 2', lambda s: s[n] >= 2), ('break',), None)] if kind == 'loop' else ())
                    z = ('set', n, C(0)); lt = X(n + ' < 2', lambda s: s[n] < 2)
                    return ('seq', z, ('while', lt, body) if kind == 'while' else ('loop', body) if kind == 'loop' else ('dowhile', body, lt))
                # the variable of the loop shadows as well, and is in scope of condition, step and body
                name = R.choice(NAMES); key = '%s#%d' % (name, self.n); self.n += 1
                self.env.append({name: (key, 'i32')}); self.types[key] = 'i32'; self.fixed.add(key)
                body = self.block(d - 1)
                self.env.pop()
                return ('seq', ('for', ('raw', 'let %s = 0;' % name, lambda r, g: r.set(g, key, z3.BitVecVal(0, 32))), X('%s < 2' % name, lambda s: s[key] < 2), ('raw2', '%s = %s + 1' % (name, name), key), body))
            finally: self.loop -= 1
        finally:
            self.visible = saved
            self.env.pop()

def bit(v, i): return X('((%s >> (%s)) & 1) == 1' % (v, i), lambda s: z3.Extract(0, 0, s[v] >> eval(str(i), {}, dict(s))) == 1)
class Run2(Run):
    def run(self, t, g):
        if t[0] == 'raw2':
            if not z3.is_false(g): self.set(g, t[2], self.st[t[2]] + 1)
            return g, FALSE, FALSE, FALSE
        return super().run(t, g)
import vlib.stmts as ST
_src = ST.src
def src2(t, semi=True):
    if t[0] == 'raw2': return t[1] + (';' if semi else '')
    return _src(t, semi)
ST.src = src2

def oracle_case(b, key, tree, types, deferred=(), ret=None, unroll=3, decl=''):
    memo = {}
    def oracle(e):
        if id(e) not in memo:
            st = {k: z3.BitVecVal(0, nbits(T)) for k, T in types.items()}
            st.update({n: e[n] for n in ('a', 'b', 'gx', 'gy')})
            st.update({'t': z3.BitVecVal(1, 32), 'ret': z3.BitVecVal(77, 32), 'c1': z3.BitVecVal(0, 32), 'c2': z3.BitVecVal(0, 32)})
            st.update({'pa': e.a, 'pb': e.b})
            r = Run2(st, unroll); r.run(tree, TRUE)
            for d in deferred: r.run(d, TRUE)
            memo[id(e)] = (e, r)
        return memo[id(e)][1]
    def post(e, o):
        r = oracle(e)
        return [('result', o.r == r.st['ret']), ('trace', o.t == r.st['t']), ('globals', z3.And(o.gx == r.st['gx'], o.gy == r.st['gy'])), ('canary', o.k == 12345)][:3 if deferred else 4]
    d = ''.join(' defer ' + src2(x) for x in deferred)
    h = 'fn @Fg(pa: i32, pb: i32): i32 { let x1 = 12345; let c1 = 0; let c2 = 0; gx = gx; gy = gy;%s %s k = x1; ret 77; }\n' % (d, src2(tree))
    b.case(key, 't = 1; r = @Fg(a, b);', None, helpers=h, outs={'r': 'i32', 't': 'i32', 'gx': 'i32', 'gy': 'i32', 'k': 'i32'}, post=post, pre=lambda e: oracle(e).pre)

BASE = {'gx': ('gx', 'i32'), 'gy': ('gy', 'i32')}
def new(name, more=()): return Prog(name, ['let a: i32; let b: i32; let gx: i32; let gy: i32; let t: i32; let r: i32; let k: i32;'] + list(more), {x: 'i32' for x in ['a', 'b', 'gx', 'gy']}, {'r': 'i32'})

def scopes(part):
    b = new('scopes%d' % part)
    R = random.Random('%d/%d' % (SEED, part))
    for i in range(40 if THOROUGH else 12):
        g = Gen(R, BASE)
        tree = g.block(3 if not THOROUGH else 4)
        oracle_case(b, str(i), tree, g.types)
    return b.unit()

def families():
    """every kind of scope in which a name can be declared, with the same name used before, inside and after it"""
    b = new('families', ['fn id(x: i32): i32 { ret x; }', 'let p: &i32;'])
    a_, b_ = X('a', lambda s: s['a']), X('b', lambda s: s['b'])
    T = lambda s, f: ('set', 't', X('t * 31 + ' + s, lambda st: st['t'] * 31 + f(st)))
    one = lambda st: z3.BitVecVal(1, 32)
    def case(key, body, want, pre=None):
        h = 'fn @Fg(x: i32, y: i32): i32 { %s }\n' % body
        b.case(key, 't = 1; r = @Fg(a, b);', None, helpers=h, outs={'r': 'i32', 'gx': 'i32'}, post=lambda e, o: [('result', o.r == want(e)), ('global', o.gx == e.gx)], pre=pre)
    bit0 = lambda v: z3.Extract(0, 0, v) == 1
    If = z3.If
    case('arg-block', '{ let x = 5; x = x + y; } ret x;', lambda e: e.a)
    case('block-block', 'let q = x; { let q = y; { let q = 3; q++; } q = q + 1; gx = gx + q - y - 1; } ret q;', lambda e: e.a)
    case('after-loop', 'let q = x; for let q = 0; q < 3; q++; { noop; } let z = q + 1; ret z;', lambda e: e.a + 1)
    case('after-loop2', 'let q = x; while q > 0 { let w = 1; q = 0 - w; } let w = 9; ret w + q;', lambda e: If(e.a > 0, z3.BitVecVal(8, 32), 9 + e.a))
    case('after-if', 'if x & 1 == 1 { let w = y; y = y + w; } else { let w = 3; y = y + w; } let w = y; ret w;', lambda e: If(bit0(e.a), e.b + e.b, e.b + 3))
    case('if-single', 'let w = 1; if x & 1 == 1 { let w = y; w++; } w = w + x; ret w;', lambda e: e.a + 1)
    case('match', 'let w = 1; match x & 1 { 0 => { let w = y; w++; } _ => { let w = 7; w++; } } ret w + x;', lambda e: e.a + 1)
    case('match-use', 'let w = 0; match x & 1 { 0 => { let v = y; w = v; } _ => { let v = 7; w = v + 1; } } ret w;', lambda e: If(bit0(e.a), z3.BitVecVal(8, 32), e.b))
    case('global', 'let r = gx; { let gx = 5; gx = gx + 1; r = r + gx; } ret r + gx;', lambda e: e.gx * 2 + 6)
    case('global-arg', 'ret gy - x;', lambda e: e.gy - e.a)
    case('loop-fresh', 'let s = 0; for let i = 0; i < 3; i++; { let v: i32; v = v + x + i; s = s * 3 + v; } ret s;', lambda e: (e.a * 3 + e.a + 1) * 3 + e.a + 2)
    case('loop-fresh64', 'let s: i64 = 0; let i = 0; while i < 3 { let v: i64; let w: i8; v = v + (x: i64); w = w + 1; s = s * 3 + v + (w: i64); i++; } ret (s: i32);', lambda e: (e.a + 1) * 13)
    case('for-nest', 'let s = 0; for let i = 0; i < 2; i++; { for let i = 5; i < 7; i++; { s = s * 7 + i; } s = s * 3 + i + x; } ret s;', lambda e: ((((5 * 7 + 6) * 3 + e.a) * 7 + 5) * 7 + 6) * 3 + 1 + e.a)
    case('for-after', 'let i = y; for let i = 0; i < (x & 3); i++; { noop; } ret i;', lambda e: e.b)
    case('siblings', 'let s = 0; { let v = x; s = s + v; } { let v: i32; s = s * 2 + v; } { let w = y; s = s - w; } ret s;', lambda e: e.a * 2 - e.b)
    case('sibling-live', 'let p: &i32; let s = 3; { let v = x; p = &v; { let w = 77; s = s + w; } s = s + *p; } ret s;', lambda e: e.a + 80)
    case('closure', 'let f = |x: i32| i32 => { let y = x + 1; ret y; }; ret f(9) + x * 3 + y;', lambda e: 10 + e.a * 3 + e.b)
    case('closure-outer', 'let q = x; let f = |x: i32| i32 => { ret x + q; }; q = q + 1; ret f(y) - x;', lambda e: e.b + 1)
    case('closure-write', 'let q = x; let f = |v: i32| i32 => { q = q + v; ret q; }; f(1); f(y); ret q;', lambda e: e.a + 1 + e.b)
    case('closure-local', 'let q = x; let f = |v: i32| i32 => { let q = v * 2; q++; ret q; }; ret f(y) * 5 + q;', lambda e: (e.b * 2 + 1) * 5 + e.a)
    case('closure-two', 'let f = |v: i32| i32 => { let q = v * 2; ret q; }; let g = |v: i32| i32 => { let q = v * 3; let w = f(v); ret q + w; }; ret g(y) - f(x);', lambda e: e.b * 5 - e.a * 2)
    case('fn-same', 'let id = x; ret id;', lambda e: e.a)
    case('dirty', 'ret @Fz(x) + @Fy(y) + @Fz(x);', lambda e: e.b)
    b.funcs[-1] = (b.funcs[-1][0], b.funcs[-1][1].replace('fn %sg' % b.funcs[-1][0],
        'type %sS: struct { a: i8, b: i64, c: f32 }; fn %sz(k: i32): i32 { let i: i32; let j: i64; let s: %sS; let q: &i32; let c: i16 \'c[3]; let d: i32[3]; let f: f64; let u: u8; ret i + (j: i32) + (s.a: i32) + (s.b: i32) + (s.c: i32) + ((q: i64): i32) + (c[0]: i32) + (c[2]: i32) + d[0] + d[2] + (f: i32) + (u: i32); }\n'
        'fn %sy(k: i32): i32 { let i: i32 = k; let j: i64 = i; let s: %sS = %sS::{1, 2, 3.0}; let m: i64 = -1; let n: i64 = -1; let o: i64 = -1; let q: i64 = -1; let w: i64 = -1; let z: f64 = 5.0; ret ((j + m - n + o - q + w + 1): i32); }\nfn %sg' % ((b.funcs[-1][0],) * 7), 1))
    return b.unit()

def deferred():
    b = new('defer', ['type P: struct { a: i64, b: f64 }; type Q: struct { a: f32, b: f32, c: f32 }; type L: struct { a: i64, b: i64, c: i64 }; let df: f64; let dl: i64;', 'fn clobber(x: f64, y: f64): f64 { ret x * y + 1.0; } fn clob2(x: i64): i64 { dl = x / 3; ret x % 7; } fn ck(x: i32): i32 { t = t * 31 + x; ret t; }'])
    R = random.Random(SEED)
    X1 = lambda k: ('set', 't', X('t * 31 + %d' % k, lambda s: s['t'] * 31 + k))
    # order, early returns
    shapes = {
        'plain': lambda: ('seq', X1(1)),
        'ret': lambda: ('seq', ('if', bit('a', 0), ('ret', X('t + 5', lambda s: s['t'] + 5)), None), X1(2)),
        'rets': lambda: ('seq', ('if', bit('a', 0), ('seq', X1(4), ('ret', X('pa', lambda s: s['pa']))), ('seq', ('if', bit('a', 1), ('ret', X('pb', lambda s: s['pb'])), None), X1(3))), X1(2), ('ret', X('t', lambda s: s['t']))),
        'loop': lambda: ('seq', ('while', X('c1 < 3', lambda s: s['c1'] < 3), ('seq', ('set', 'c1', X('c1 + 1', lambda s: s['c1'] + 1)), ('if', bit('a', 'c1'), ('ret', X('c1', lambda s: s['c1'])), None), X1(5))), X1(2)),
        'match': lambda: ('seq', ('match', X('(a & 3)', lambda s: s['a'] & 3), lambda m, v, x: v == x, [('==', C(0), ('ret', C(4))), ('==', C(1), ('break',)), ('==', C(2), X1(8))], ('ret', C(9))), X1(2))}
    defs = {
        'one': lambda: [X1(10)],
        'three': lambda: [X1(10), X1(11), X1(12)],
        'block': lambda: [('seq', X1(10), ('if', bit('b', 0), X1(11), X1(12))), X1(13)],
        'locals': lambda: [('set', 't', X('t * 31 + c1', lambda s: s['t'] * 31 + s['c1'])), ('set', 'c1', X('c1 + 1', lambda s: s['c1'] + 1)), ('set', 't', X('t * 31 + c1 + pb', lambda s: s['t'] * 31 + s['c1'] + s['pb']))],
        'loop': lambda: [('seq', ('set', 'c2', C(0)), ('while', X('c2 < 2', lambda s: s['c2'] < 2), ('seq', ('set', 'c2', X('c2 + 1', lambda s: s['c2'] + 1)), ('if', bit('b', 'c2'), ('continue',), None), X1(14)))), X1(15)],
        'call': lambda: [('raw', 'ck(4);', lambda r, g: r.set(g, 't', r.st['t'] * 31 + 4)), ('raw', 'gx = ck(pa) - gx;', lambda r, g: (r.set(g, 't', r.st['t'] * 31 + r.st['pa']), r.set(g, 'gx', r.st['t'] - r.st['gx'])) and None)]}
    for s in shapes:
        for d in defs: oracle_case(b, '%s:%s' % (s, d), shapes[s](), {}, defs[d]())
    # the result is not changed, whatever its type
    clob = ['t = 5;', 'df = clobber(df, 3.0);', 'dl = clob2(dl);', '{ let v: f32 = 2.5; let w: i64 = 77; df = df + (v: f64) + (w: f64); }', 'if t > 3 { dl = dl / 5; df = df * 2.0; }']
    for T in ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f32', 'f64', 'f80', 'bool'):
        for i, c in enumerate(clob):
            n = '%s%d' % (T, i)
            b.decls.append('let v%s: %s; let o%s: %s;' % (n, T, n, T)) if i == 0 else None
            v = 'v%s0' % T; o_ = 'o%s0' % T
            b.case('result:' + n, '%s = @Fg(%s);' % (o_, v), None, helpers='fn @Fg(x: %s): %s { defer %s ret x; }\n' % (T, T, c), ins={v: T}, outs={o_: T},
                   post=lambda e, o, v=v, o_=o_, T=T: same(T, o[o_], e[v]), pre=(lambda e, v=v: [z3.Not(z3.fpIsNaN(e[v]))]) if is_float(T) else None)
    ins = {'q0': 'i64', 'q1': 'f64', 'q2': 'f32', 'q3': 'i64'}
    b.decls.append('let q0: i64; let q1: f64; let q2: f32; let q3: i64; let w0: i64; let w1: f64; let w2: f32; let w3: i64;')
    nan = lambda e: [z3.Not(z3.fpIsNaN(e.q1)), z3.Not(z3.fpIsNaN(e.q2))]
    for i, c in enumerate(clob):
        b.case('result:P%d' % i, 'let s = @Fg(q0, q1); w0 = s.a; w1 = s.b;', None, helpers='fn @Fg(x: i64, y: f64): P { defer %s ret P::{x, y}; }\n' % c, ins=ins, outs={'w0': 'i64', 'w1': 'f64'}, pre=nan, post=lambda e, o: [('integer', o.w0 == e.q0), ('float', same('f64', o.w1, e.q1))])
        b.case('result:Q%d' % i, 'let s = @Fg(q2); w1 = s.a; w2 = s.c;', None, helpers='fn @Fg(x: f32): Q { defer %s ret Q::{1.5, 2.5, x}; }\n' % c, ins=ins, outs={'w1': 'f64', 'w2': 'f32'}, pre=nan, post=lambda e, o: [('third', same('f32', o.w2, e.q2)), ('first', o.w1 == z3.FPVal(1.5, z3.Float64()))])
        b.case('result:L%d' % i, 'let s = @Fg(q0, q3); w0 = s.a; w3 = s.c;', None, helpers='fn @Fg(x: i64, y: i64): L { defer %s ret L::{x, 4, y}; }\n' % c, ins=ins, outs={'w0': 'i64', 'w3': 'i64'}, post=lambda e, o: [('first', o.w0 == e.q0), ('last', o.w3 == e.q3)])
        b.case('result:ptr%d' % i, 'w0 = *@Fg(&q0);', None, helpers='fn @Fg(x: &i64): &i64 { defer %s ret x; }\n' % c, ins=ins, outs={'w0': 'i64'}, post=lambda e, o: o.w0 == e.q0)
        b.case('result:nest%d' % i, 'w0 = @Fg(q0);', None, helpers='fn @Fh(x: i64): i64 { defer %s ret x + 1; } fn @Fg(x: i64): i64 { defer %s defer { w3 = @Fh(x); } let z = @Fh(x); ret z * 3; }\n' % (c, c), ins=ins, outs={'w0': 'i64', 'w3': 'i64'}, post=lambda e, o: [('result', o.w0 == (e.q0 + 1) * 3), ('deferred', o.w3 == e.q0 + 1)])
    b.case('closure', 'r = @Fg(a);', None, helpers='fn @Fg(x: i32): i32 { t = 1; let f = |v: i32| i32 => { defer ck(3); defer ck(v); ret v + 1; }; let q = f(x); ret q - x + t; }\n', outs={'r': 'i32'}, post=lambda e, o: o.r == 1 + (31 + 3) * 31 + e.a)
    return b.unit()

def withs():
    b = new('with', ['type R: struct { v: i32, open: i32 }; let g1: R; let g2: R;', '[drop] fn closeR(x: &R): void { t = t * 31 + 100 + x.open; x.open = 0; }',
                     'fn mk(c: i32, v: i32): &R { if (c & 1) == 0 { ret nil; } g1.v = v; g1.open = 1; t = t * 31 + 50; ret &g1; } fn mk2(c: i32, v: i32): &R { if (c & 1) == 0 { ret nil; } g2.v = v; g2.open = 2; t = t * 31 + 60; ret &g2; }'])
    ins = {'a': 'i32', 'b': 'i32'}
    T = lambda t, *ks: T(t * 31 + ks[0], *ks[1:]) if ks else t
    o1 = z3.BitVecVal(1, 32)
    if0 = lambda v: z3.Extract(0, 0, v) == 1
    def case(key, body, want): b.case(key, 't = 1; g1.open = 0; g2.open = 0; ' + body + ' r = g1.open + g2.open;', None, ins=ins, outs={'r': 'i32', 't': 'i32'}, post=lambda e, o: [('trace', o.t == want(e)), ('released', o.r == 0)])
    case('plain', 'with x = mk(a, b) { t = t * 31 + x.v; }', lambda e: z3.If(if0(e.a), T(o1, 50, e.b, 101), o1))
    case('else', 'with x = mk(a, b) { t = t * 31 + x.v; } else { t = t * 31 + 7; } t = t * 31 + 9;', lambda e: z3.If(if0(e.a), T(o1, 50, e.b, 101, 9), T(o1, 7, 9)))
    case('single', 'with x = mk(a, b) t = t * 31 + x.v; else t = t * 31 + 7;', lambda e: z3.If(if0(e.a), T(o1, 50, e.b, 101), T(o1, 7)))
    case('nested', 'with x = mk(a, b) { with y = mk2(b, a) { t = t * 31 + x.v + y.v; } else { t = t * 31 + 8; } t = t * 31 + 9; }',
         lambda e: z3.If(if0(e.a), z3.If(if0(e.b), T(o1, 50, 60, e.a + e.b, 102, 9, 101), T(o1, 50, 8, 9, 101)), o1))
    case('shadow', 'let x = 3; with x = mk(a, b) { t = t * 31 + x.v; } t = t * 31 + x;', lambda e: T(z3.If(if0(e.a), T(o1, 50, e.b, 101), o1), 3))
    case('loop', 'let i = 0; while i < 3 { with x = mk(a >> i, i) { if b & 1 == 1 { t = t * 31 + x.v; } } i++; }',
         lambda e: (lambda s: [s.append(z3.If(if0(e.a >> i), (lambda u: T(z3.If(if0(e.b), u * 31 + i, u), 101))(T(s[-1], 50)), s[-1])) for i in range(3)] and s[-1])([o1]))
    case('inner-loop', 'with x = mk(a, b) { let i = 0; while i < 3 { i++; if i == 2 { continue; } if i == 3 { break; } t = t * 31 + i; } }', lambda e: z3.If(if0(e.a), T(o1, 50, 1, 101), o1))
    case('typed', 'with x: &R = mk(a, b) { x.v = 3; t = t * 31 + g1.v; }', lambda e: z3.If(if0(e.a), T(o1, 50, 3, 101), o1))
    case('if-with', 'if b & 1 == 1 { with x = mk(a, b) { t = t * 31 + 2; } } else { with x = mk2(a, b) { t = t * 31 + 3; } }', lambda e: z3.If(if0(e.a), z3.If(if0(e.b), T(o1, 50, 2, 101), T(o1, 60, 3, 102)), o1))
    return b.unit()

def names():
    """namespaces and `using`: every name denotes the declaration it is qualified with, or the innermost one in scope"""
    decls = ['let a: i32; let b: i32; let c: i32; let r: i32; let w: i32;', 'let v: i32; fn f(x: i32): i32 { ret x + 1; }',
             'namespace N { let v: i32; fn f(x: i32): i32 { ret x * 3; } fn g(x: i32): i32 { ret f(x) + v; } fn h(x: i32): i32 { ret ::f(x) + ::v; } type T: struct { x: i32 }; const K: i32 = 21; '
             'namespace M { let v: i32; fn f(x: i32): i32 { ret x * 5; } fn g(x: i32): i32 { ret f(x) - v; } fn up(x: i32): i32 { ret N::f(x) - N::v; } fn up2(x: i32): i32 { ret late(x) + v; } type T: struct { y: i64, x: i32 }; const K: i32 = 22; fn sz(): i32 { ret (sizeof T: i32); } fn k(): i32 { ret K; } } '
             'fn late(x: i32): i32 { ret x + 1000; } fn d(x: i32): i32 { ret M::f(x) + M::v; } fn sz(): i32 { ret (sizeof T: i32); } fn k(): i32 { ret K; } fn sh(f: i32): i32 { let v = f + 1; ret v - f + M::k(); } }',
             'namespace O { fn f(x: i32): i32 { ret x - 7; } fn only(x: i32): i32 { ret f(x) - 5; } type E: enum { A, B, C }; let lone: i32; const J: i32 = 70; }',
             'namespace Q { type E: enum { A = 10, B, C }; fn cnt(): i32 { lone = lone + 1; ret lone; } let lone: i32; type S: struct { t: N::M::T, e: E }; }', 'const K: i32 = 20; type T: struct { z: i8, x: i16 }; fn k(): i32 { ret K; }']
    b = Prog('names', decls, {'a': 'i32', 'b': 'i32', 'c': 'i32', 'w': 'i32'}, {'r': 'i32'})
    set_ = '::v = b; N::v = c; N::M::v = w; O::lone = 5; Q::lone = 6; '
    def case(key, e, want): b.case(key, set_ + ('' if '@F' in e or 'r = ' in e else 'r = %s;' % e) + (e if 'r = ' in e else ''), None, outs={'r': 'i32'}, post=lambda en, o: o.r == want(en))
    case('global', 'f(a) - v', lambda e: e.a + 1 - e.b)
    case('one', 'N::f(a) - N::v', lambda e: e.a * 3 - e.c)
    case('two', 'N::M::f(a) - N::M::v', lambda e: e.a * 5 - e.w)
    case('abs', '::N::M::f(a) - ::v + ::N::v', lambda e: e.a * 5 - e.b + e.c)
    case('inside', 'N::g(a)', lambda e: e.a * 3 + e.c)
    case('outer-from-inside', 'N::h(a)', lambda e: e.a + 1 + e.b)
    case('inner', 'N::M::g(a)', lambda e: e.a * 5 - e.w)
    case('sibling-up', 'N::M::up(a)', lambda e: e.a * 3 - e.c)
    case('enclosing', 'N::M::up2(a)', lambda e: e.a + 1000 + e.w)
    case('relative', 'N::d(a)', lambda e: e.a * 5 + e.w)
    case('shadow-arg', 'N::sh(a)', lambda e: z3.BitVecVal(23, 32))
    case('types', '(sizeof T: i32) * 10000 + (sizeof N::T: i32) * 100 + (sizeof N::M::T: i32) + N::sz() * 1000000 + N::M::sz() * 10000000 + a', lambda e: 4 * 10000 + 400 + 16 + 4000000 + 160000000 + e.a)
    case('consts', 'k() * 10000 + N::k() * 100 + N::M::k() + (K + N::K * 2 + N::M::K * 4) * a', lambda e: 200000 + 2100 + 22 + (20 + 42 + 88) * e.a)
    case('enums', '(O::E::C: i32) * 100 + (Q::E::C: i32) + a', lambda e: e.a + 212)
    case('lone', 'r = Q::cnt() * 100; O::lone = O::lone * 2; r = r + Q::lone * 10 + O::lone + a;', lambda e: 700 + 70 + 10 + e.a)
    case('write', 'r = 0; { let v = a; v++; N::v = v; r = v + N::v * 2 + ::v * 4; }', lambda e: (e.a + 1) * 3 + e.b * 4)
    case('using', '{ using O; r = only(a) + lone + J; }', lambda e: e.a - 12 + 5 + 70)
    case('using-shadows', '{ using O; r = f(a); } r = r * 7 + f(a);', lambda e: (e.a - 7) * 7 + e.a + 1)
    case('using-body', 'using O for { r = f(a); } r = r * 7 + f(a);', lambda e: (e.a - 7) * 7 + e.a + 1)
    case('using-nested', '{ using N; r = f(a) + v; { using M; r = r * 2 + f(a) - v; } r = r * 2 + v; } r = r + v;', lambda e: ((e.a * 3 + e.c) * 2 + e.a * 5 - e.w) * 2 + e.c + e.b)
    case('using-qualified', '{ using N::M; r = f(a) - v + N::v; }', lambda e: e.a * 5 - e.w + e.c)
    case('using-then-qual', '{ using N; r = M::f(a) - M::v; }', lambda e: e.a * 5 - e.w)
    case('using-local', 'let v = a; { using N; r = v; } r = r * 3 + v;', lambda e: e.c * 3 + e.a)
    case('using-inner-local', '{ using N; { let v = a; r = v; } r = r * 3 + v; }', lambda e: e.a * 3 + e.c)
    case('using-type', '{ using N::M; { let s: T; s.y = 7; s.x = a; r = s.x + (sizeof T: i32); } }', lambda e: e.a + 16)
    case('pointer', 'let p = N::M::f; let q = f; r = p(a) - q(a);', lambda e: e.a * 4 - 1)
    case('infix', 'r = a `N::f` ;'.replace('a `N::f` ', 'N::f(N::M::f(f(a)))'), lambda e: (e.a + 1) * 15)
    case('pipe', 'r = a |> N::f($) |> N::M::f($) |> f($);', lambda e: e.a * 15 + 1)
    case('member-type', 'let s: Q::S; s.t.x = a; s.e = Q::E::B; r = s.t.x + (s.e: i32);', lambda e: e.a + 11)
    return b.unit()

def spaces(part, count=20):
    """random trees of namespaces that share few names; every name is looked up from the inside out, one part after the other"""
    R = random.Random('P08/spaces/%d/%d' % (SEED, part)); NM = ['A', 'B', 'C', 'D']
    b = Prog('spaces%d' % part, ['let a: i32;'] + ['let r%d: i32;' % k for k in range(90)], {'a': 'i32'}, {})
    for c in range(count):
        num = [0]; fns = []
        def tree(depth, path, up):
            n = {'path': path, 'up': up, 'kids': {}, 'own': {}, 'probe': []}
            for x in R.sample(NM, R.choice([1, 2, 2, 3])) if depth else []: n['kids'][x] = tree(depth - 1, path + [x], n)
            for x in ('f', 'v', 'T', 'K'):
                if R.random() < .6: num[0] += 1; n['own'][x] = num[0]
            return n
        root = tree(0, [], None)
        for x in R.sample(NM, 3): root['kids'][x] = tree(R.choice([1, 2, 3]), [x], root)
        for x in ('f', 'v', 'T', 'K'): num[0] += 1; root['own'][x] = num[0]
        nm = lambda n, x: x + ('@F' if n is root else '')      # global names are shared by the cases of the program
        def lookup(scopes, path):
            for s in scopes:
                if path[0] in s['kids'] or path[0] in s['own']:
                    q = s
                    for i, x in enumerate(path):
                        if i == len(path) - 1: return (q, x) if x in q['own'] else None
                        if x not in q['kids']: return None
                        q = q['kids'][x]
            return None
        def chain(n): return [n] + chain(n['up']) if n else []
        allpaths = []
        def walk(n):
            allpaths.append(n['path'])
            for k in n['kids'].values(): walk(k)
        walk(root)
        val = lambda n, x, e: {'f': e ^ (n['own'][x] * 7), 'v': (n['own'][x] * 11) ^ e, 'T': z3.BitVecVal(n['own'][x] + 1, 32), 'K': z3.BitVecVal(n['own'][x] * 13, 32)}[x]
        def refs(scopes, k):
            out = []
            for _ in range(200):
                full = list(R.choice(allpaths)) + [R.choice(['f', 'v', 'T', 'K'])]; path = full[R.randrange(len(full)):]
                t = lookup(scopes, path)
                if t and len(out) < k: out.append((path, t))
            return out
        def text(path, t, arg):
            p = '::'.join(path)
            first = path[0]
            # names of the global scope carry the number of the case
            if len(path) == 1 and t[0] is root: p = first + '@F'
            return {'f': '%s(%s)' % (p, arg), 'v': '%s' % p, 'T': '(sizeof %s: i32)' % p, 'K': p}[t[1]]
        sets = []
        def emit(n):
            o = ''; q = '::'.join(n['path'] + ['v']) if n is not root else 'v@F'
            items = []
            for x, k in n['own'].items():
                y = nm(n, x)
                items.append({'f': 'fn %s(x: i32): i32 { ret x ^ %d; } ' % (y, k * 7), 'v': 'let %s: i32; ' % y, 'T': "type %s: struct { x: u8 'c[%d] }; " % (y, k + 1), 'K': 'const %s: i32 = %d; ' % (y, k * 13)}[x])
                if x == 'v': sets.append('::%s = a ^ %d; ' % (q, k * 11))
            if n is not root and R.random() < .8:
                rs = refs(chain(n), R.choice([2, 3, 4])); name = 'g' + '_'.join(n['path'])
                if rs:
                    items.append('fn %s(x: i32): i32 { let s = 0; %sret s; } ' % (name, ''.join('s = (s << 1) ^ %s; ' % text(pp, t, 'x') for pp, t in rs))); fns.append((n, name, rs))
            for x, k in n['kids'].items(): items.append(('namespace %s { %s} ' % (x, emit(k))))
            R.shuffle(items); return ''.join(items)
        src = emit(root); calls = ''; want = []
        for n, name, rs in fns: calls += 'r%d = %s(a); ' % (len(want), '::'.join(n['path'] + [name])); want.append(rs)
        for _ in range(3):                  # using, in blocks
            p1 = R.choice([p for p in allpaths if p]); n1 = root
            for x in p1: n1 = n1['kids'][x]
            rs = refs([n1, root], 2)
            p2 = R.choice([p for p in allpaths if p]); inner = ''; rs2 = []
            t2 = None
            s0 = [s for s in (n1, root) if p2[0] in s['kids']]
            if s0:
                q = s0[0]
                for x in p2:
                    q = q['kids'].get(x) if q else None
                t2 = q
            if t2: rs2 = refs([t2, n1, root], 2); inner = '{ using %s; %s} ' % ('::'.join(p2), ''.join('r%d = (r%d << 1) ^ %s; ' % (len(want), len(want), text(pp, t, 'a')) for pp, t in rs2))
            rs3 = refs([n1, root], 1)
            calls += '{ using %s; %s%s%s} ' % ('::'.join(p1), ''.join('r%d = (r%d << 1) ^ %s; ' % (len(want), len(want), text(pp, t, 'a')) for pp, t in rs), inner, ''.join('r%d = (r%d << 1) ^ %s; ' % (len(want), len(want), text(pp, t, 'a')) for pp, t in rs3))
            want.append(rs + rs2 + rs3)
        out = refs([root], 3); calls += ''.join('r%d = (r%d << 1) ^ %s; ' % (len(want), len(want), text(pp, t, 'a')) for pp, t in out); want.append(out)
        def post(e, o, want=want):
            res = []
            for k, rs in enumerate(want):
                s = z3.BitVecVal(0, 32)
                for _, (n, x) in rs: s = (s << 1) ^ val(n, x, e.a)
                res.append((' '.join('::'.join(p) for p, _ in rs), o['r%d' % k] == s))
            return res
        import re
        fix = lambda t: re.sub(r'\b[ABCD]\b', lambda m: m[0] + 'n@F', t)
        b.case('tree%d' % c, fix(''.join(sets)) + ''.join('r%d = 0; ' % k for k in range(len(want))) + fix(calls), None, ins={'a': 'i32'}, outs={'r%d' % k: 'i32' for k in range(len(want))}, helpers=fix(src), post=post)
    return b.unit()

def reach():
    """a function and a global that are used at one single place, of every kind, belong to the program"""
    b = Prog('reach', ['let a: i32; let b: i32; let r: i32; let p: &i32;', 'type R: struct { v: i32, w: i32 };', 'fn id(x: i32): i32 { ret x; }', 'macro sum(x, y) { (x) + (y) }'], {'a': 'i32', 'b': 'i32'}, {'r': 'i32'})
    If = z3.If; K = lambda v: z3.BitVecVal(v, 32)
    def case(key, body, want, pre=None, helpers=''):
        # $(x): a call of the function that is used nowhere else; #: the global that is used nowhere else
        for how in ('fn', 'glob', 'ptr'):
            if '#' not in body and how != 'fn' and '$(a)' not in body: continue
            if how == 'fn':   t = body.replace('$', '@Fh'); h = 'fn @Fh(x: i32): i32 { ret x + 17; }\n'
            elif how == 'glob': t = body.replace('$(a)', '(a + @Fq + 17)').replace('$', 'id'); h = 'let @Fq: i32;\n'
            else: t = body.replace('$(a)', '@Fs.f(a)').replace('$', 'id'); h = 'fn @Fk(x: i32): i32 { ret x + 17; }\ntype @FS: struct { f: fn<i32>(i32) };\nlet @Fs: @FS = @FS::{(@Fk: fn<i32>(i32))};\n'
            b.case(key + ':' + how, 'r = 0; ' + t, None, ins={'a': 'i32', 'b': 'i32'}, outs={'r': 'i32'}, helpers=h + helpers.replace('$', '@Fh' if how == 'fn' else 'id'), pre=(lambda e: [pre(e)]) if pre else None, post=lambda e, o: o.r == want(e))
    P = lambda e: e.a + 17
    case('assign', 'r = $(a);', P)
    case('init', 'let v = $(a); r = v;', P)
    case('init-typed', 'let v: i32 = $(a); r = v;', P)
    case('const', 'const v = $(a); r = v;', P)
    case('add', 'r = b + $(a) - 1;', lambda e: e.b + P(e) - 1)
    case('compound', 'r = b; r += $(a); r -= 1; r ^= b;', lambda e: (e.b + P(e) - 1) ^ e.b)
    case('shift', 'r = b << ($(a) & 3);', lambda e: e.b << (P(e) & 3))
    case('compare', 'r = if $(a) < b => 1 else 2;', lambda e: If(P(e) < e.b, K(1), K(2)))
    case('ternary-then', 'r = if b > 3 => $(a) else 2;', lambda e: If(e.b > 3, P(e), K(2)))
    case('ternary-else', 'r = if b > 3 => 2 else $(a);', lambda e: If(e.b > 3, K(2), P(e)))
    case('and', 'r = if b > 3 && $(a) > 9 => 2 else 1;', lambda e: If(z3.And(e.b > 3, P(e) > 9), K(2), K(1)))
    case('or', 'r = if b > 3 || $(a) > 9 => 2 else 1;', lambda e: If(z3.Or(e.b > 3, P(e) > 9), K(2), K(1)))
    case('not', 'r = if !($(a) > 9) => 2 else 1;', lambda e: If(P(e) > 9, K(1), K(2)))
    case('neg', 'r = -$(a) + ~$(a);', lambda e: -P(e) + ~P(e))
    case('cast', 'r = (($(a): i64) + 1: i32);', lambda e: P(e) + 1)
    case('argument', 'r = id($(a));', P)
    case('arguments', 'r = id(id(b) - id($(a)));', lambda e: e.b - P(e))
    case('parens', 'r = (((($(a)))));', P)
    case('macro', 'r = sum!($(a), b);', lambda e: P(e) + e.b)
    case('pipe', 'r = $(a) |> id($) + 1;'.replace('($)', '(%)'), lambda e: P(e) + 1) if 0 else None
    case('infix', 'r = a `@Fi` b;', lambda e: P(e) - e.b, helpers='fn @Fi(x: i32, y: i32): i32 { ret $(x) - y; }\n') if 0 else None
    case('if-cond', 'if $(a) > b { r = 1; } else { r = 2; }', lambda e: If(P(e) > e.b, K(1), K(2)))
    case('if-then', 'if a > b { r = $(a); }', lambda e: If(e.a > e.b, P(e), K(0)))
    case('if-else', 'if a > b { r = 1; } else r = $(a);', lambda e: If(e.a > e.b, K(1), P(e)))
    case('else-if', 'if a > b { r = 1; } else if a > 5 { r = 3; } else { r = $(a); }', lambda e: If(e.a > e.b, K(1), If(e.a > 5, K(3), P(e))))
    two = lambda e: z3.And(e.a >= -17, e.a <= -14)
    case('while-cond', 'while r < $(a) { r++; }', P, two)
    case('while-body', 'while r < 30 { r = r + $(a); }', lambda e: K(34), lambda e: e.a == 0)
    case('loop', 'loop { r = r + $(a); if r > 20 { break; } }', lambda e: K(34), lambda e: e.a == 0)
    case('do-while-cond', 'do { r++; } while r < $(a);', lambda e: If(P(e) > 1, P(e), K(1)), two)
    case('do-while-body', 'do { r = r + $(a); } while r < 30;', lambda e: K(34), lambda e: e.a == 0)
    case('do-unless-cond', 'do r = 5 unless $(a) > 9;', lambda e: If(P(e) > 9, K(0), K(5)))
    case('do-unless-body', 'do r = $(a) unless b > 9;', lambda e: If(e.b > 9, K(0), P(e)))
    case('for-init', 'for let i = $(a); i < 5; i++; { r = r + i; }', lambda e: K(9), lambda e: e.a == -15)
    case('for-cond', 'for let i = 0; i < $(a); i++; { r = r + 2; }', lambda e: P(e) * 2, two)
    case('for-step', 'for let i = 0; i < 20; i = i + $(a); { r = r + 2; }', lambda e: K(4), lambda e: e.a == 0)
    case('for-body', 'for let i = 0; i < 2; i++; { r = r + $(a); }', lambda e: P(e) * 2)
    case('for-continue', 'for let i = 0; i < 3; i++; { if i == 1 { continue; } r = r + $(a); }', lambda e: P(e) * 2)
    case('match-cond', 'match $(a) { 17 => r = 1; 18 => r = 2; _ => r = 3; }', lambda e: If(e.a == 0, K(1), If(e.a == 1, K(2), K(3))))
    case('match-case', 'match b { 17 => r = $(a); 18 => r = 2; _ => r = 3; }', lambda e: If(e.b == 17, P(e), If(e.b == 18, K(2), K(3))))
    case('match-default', 'match b { 17 => r = 1; _ => r = $(a); }', lambda e: If(e.b == 17, K(1), P(e)))
    case('match-value', 'match b { $(a) => r = 1; _ => r = 2; }', lambda e: If(e.b == P(e), K(1), K(2)))
    case('block', '{ { r = $(a); } }', P)
    case('statement', 'let v = 1; p = &v; @Fst(a); r = v;', P, helpers='fn @Fst(x: i32) { *p = $(x); }\n')
    case('return', 'r = @Fr(a);', P, helpers='fn @Fr(x: i32): i32 { ret $(x); }\n')
    case('through', 'r = @Fr(a);', lambda e: P(e) + 1, helpers='fn @Fr(x: i32): i32 { ret @Fr2(x) + 1; }\nfn @Fr2(x: i32): i32 { ret $(x); }\n')
    case('recursion', 'r = @Fr(b & 3);', lambda e: If(e.b & 3 == 0, K(17), K(18)), helpers='fn @Fr(x: i32): i32 { if x == 0 { ret $(0); } ret @Fr2(x - 1); }\nfn @Fr2(x: i32): i32 { if x == 0 { ret $(1); } ret @Fr2(x - 1); }\n') if 0 else None
    case('lambda', 'let f = |x: i32| i32 => { ret $(a) + x; }; r = f(b);', lambda e: P(e) + e.b)
    case('lambda-expr', 'let f = |x: i32| i32 => { let w = x; ret w + $(a); }; r = id(f(b));', lambda e: P(e) + e.b)
    case('defer', 'let q = @Fd(a); r = r + q;', lambda e: P(e) + 3, helpers='fn @Fd(x: i32): i32 { defer r = $(x); ret 3; }\n')
    case('address', 'let f = @Fh; r = f(a);', P, helpers='') if 0 else None
    case('array', 'let v: i32[3] = [1, $(a), 3]; r = v[1] + v[2];', lambda e: P(e) + 3)
    case('struct', 'let v = R::{b, $(a)}; r = v.w - v.v;', lambda e: P(e) - e.b)
    case('index', 'let v: i32[4] = [5, 6, 7, 8]; r = v[$(a) & 3];', lambda e: 5 + (P(e) & 3))
    case('index-target', 'let v: i32[4] = [5, 6, 7, 8]; v[$(a) & 3] = 9; r = v[0] + v[1] * 10 + v[2] * 100 + v[3] * 1000;', lambda e: sum(If(P(e) & 3 == k, K(9), K(5 + k)) * 10 ** k for k in range(4)))
    case('member', 'r = @Fm(a).w;', P, helpers='fn @Fm(x: i32): R { let v: R; v.w = $(x); ret v; }\n')
    case('deref', 'r = *@Fm(a);', P, helpers='let @Fg: i32;\nfn @Fm(x: i32): &i32 { @Fg = $(x); ret &@Fg; }\n')
    case('deref-target', 'let v = 1; p = &v; *@Fm(a) = b; r = v + $(a);', lambda e: e.b + P(e), helpers='fn @Fm(x: i32): &i32 { ret p; }\n')
    case('else', 'let f = nil; r = (if b > 3 => $(a) else 0) + 1;', lambda e: If(e.b > 3, P(e), K(0)) + 1)
    case('with', 'with x = @Fw($(a)) { r = x.v; } else { r = 1; }', P, pre=lambda e: P(e) != 0, helpers='type @FW: struct { v: i32 };\nlet @Fo: @FW;\nfn @Fw(x: i32): &@FW { @Fo.v = x; ret &@Fo; }\nfn @Fx(x: &@FW) { noop; }\n') if 0 else None
    case('using', 'using @FN for { r = @Fin(a); }', P, helpers='namespace @FN { fn @Fin(x: i32): i32 { ret $(x); } }\n')
    case('namespace', 'r = @FN::@Fin(a);', P, helpers='namespace @FN { fn @Fin(x: i32): i32 { ret $(x); } }\n')
    case('interface', 'r = @Fv(&b, a);', lambda e: P(e) + e.b, helpers='type @FI: interface { fn m(self: &@FI, k: i32): i32 };\nnamespace @FN { dyn(@FI) fn m(x: &i32, k: i32): i32 { ret *x + $(k); } }\nfn @Fv(d: dyn @FI, x: i32): i32 { ret d.m(x); }\n')
    return b.unit()

def main():
    rp = Report('P08', 'translation_validation')
    rp.run_units([scopes(i) for i in range(24 if THOROUGH else 8)] + [families(), deferred(), withs(), names(), reach()] + [spaces(i) for i in range(10 if THOROUGH else 3)])
    rp.finish()
if __name__ == '__main__': main()
