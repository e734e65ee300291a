#!/usr/bin/env python3-vt
"""P07: objects in memory: reads give the value last written to that very place; sizes, lengths, addresses"""
import sys, os, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.lang import *
from vlib.core import *
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'
SEED = int(os.environ.get('VERIF_SEED', '1'))

# ------------------------------------------------------------------- types
ALIGN = {'f80': 8}
def size(t):
    if isinstance(t, str): return tsize(t)
    k = t[0]
    if k == 'C': return size(t[1]) * t[2]
    if k == 'H': return size(t[1]) * t[2] + 8
    if k == 'P': return 8
    if k == 'U': return (max(size(x) for _, x in t[2]) + align(t) - 1) // align(t) * align(t)
    o = 0
    for _, x in t[2]: o = (o + align(x) - 1) // align(x) * align(x) + size(x)
    return (o + align(t) - 1) // align(t) * align(t)
def align(t):
    if isinstance(t, str): return ALIGN.get(t) or tsize(t)
    k = t[0]
    if k == 'C': return align(t[1])
    if k in 'HP': return 8
    return max(align(x) for _, x in t[2])
def name(t):
    if isinstance(t, str): return t
    if t[0] == 'C': return "%s 'c[%d]" % (name(t[1]), t[2])
    if t[0] == 'H': return "%s[%d]" % (name(t[1]), t[2])
    if t[0] == 'P': return '&' + name(t[1])
    return t[1]
def decl(t): return 'type %s: struct { %s };' % (t[1], ', '.join('%s: %s' % (m, name(x)) for m, x in t[2]))
def leaves(t):
    if isinstance(t, str): return [(t, [])]
    if t[0] in 'CH': return [(lt, [i] + p) for i in range(t[2]) for lt, p in leaves(t[1])]
    return [(lt, [j] + p) for j, (_, x) in enumerate(t[2]) for lt, p in leaves(x)]

def get(v, p):
    for i, s in enumerate(p):
        if isinstance(s, int): v = v[s]
        else:
            r = get(v[-1], p[i + 1:])
            for k in reversed(range(len(v) - 1)): r = ite(s == k, get(v[k], p[i + 1:]), r)
            return r
    return v
def ite(c, a, b):
    if isinstance(a, list): return [ite(c, x, y) for x, y in zip(a, b)]
    return z3.If(c, a, b)
def put(v, p, x):
    if not p: return x
    s = p[0]
    if isinstance(s, int): return v[:s] + [put(v[s], p[1:], x)] + v[s + 1:]
    return [ite(s == k, put(e, p[1:], x), e) for k, e in enumerate(v)]

# ------------------------------------------------------------------- programs
IDX = [('na', 'i32'), ('nb', 'i32'), ('nc', 'u8'), ('nd', 'i64'), ('ne', 'i16'), ('nf', 'u32'), ('ng', 'u64'), ('nh', 'i8'), ('ni', 'u16')]
INPUTS = dict([('v%d' % i, 'i64') for i in range(6)] + [('d%d' % i, 'f64') for i in range(3)] + [('g%d' % i, 'f32') for i in range(2)] + [('b0', 'bool'), ('b1', 'bool')] + IDX)
SC = ['i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'bool', 'char', 'f32', 'f64', 'f80']

def rand_type(R, d, structs, leaf=SC):
    x = R.random()
    if d <= 0 or x < .3: return R.choice(leaf)
    if x < .5: return ('C', rand_type(R, d - 1, structs, leaf), R.randrange(2, 5))
    if x < .7: return ('H', rand_type(R, d - 1, structs, leaf), R.randrange(2, 5))
    if structs and x < .97: return R.choice(structs)
    return R.choice(leaf)

class Fn:
    """one function: statements and, side by side, their effect on a model of the objects"""
    def __init__(self, R, structs, glob):
        self.R, self.structs = R, structs
        self.out, self.roots, self.n, self.pre, self.steps = [], {}, 0, [], []
        self.glob = glob
        self.used = set(); self.ptrs = {}
        self.syms = set()
    # values are functions of the env, evaluated when the model runs
    def value(self, t, d=2):
        R = self.R
        if isinstance(t, str):
            if R.random() < .25 and d:
                l = self.find(t)
                if l: return l
            if t in FLTS:
                n = R.choice(['d0', 'd1', 'd2'] if t != 'f32' else ['g0', 'g1']); self.used.add(n)
                return ('(%s: f80)' % n if t == 'f80' else n), lambda e, m: conv(e[n], INPUTS[n], t)
            if t == 'bool':
                n = R.choice(['b0', 'b1']); self.used.add(n); return n, lambda e, m: e[n]
            n = 'v%d' % R.randrange(6); self.used.add(n)
            w = nbits(t)
            if t == 'i64': return n, lambda e, m: e[n]
            return '(%s: %s)' % (n, t), lambda e, m: z3.Extract(w - 1, 0, e[n])
        if R.random() < .3:
            l = self.find(t)
            if l: return l
        if t[0] == 'S':
            xs = [self.value(x, d) for _, x in t[2]]
            if None in xs: return None
            return '%s::{%s}' % (t[1], ', '.join(x[0] for x in xs)), lambda e, m: [f(e, m) for _, f in xs]
        if t[0] == 'H':
            xs = [self.value(t[1], d) for _ in range(t[2])]
            if None in xs: return None
            return '[%s]' % ', '.join(x[0] for x in xs), lambda e, m: [f(e, m) for _, f in xs]
        return None                     # no literal for a C array
    def index(self, n, allow_back=True):
        """an index expression for n elements: (source, step)"""
        R = self.R; x = R.random()
        if x < .45:
            k = R.randrange(n)
            if R.random() < .3 and allow_back: return '^%d' % (n - k), k
            return str(k), k
        if len(self.syms) >= 2: nm, ty = R.choice(sorted(self.syms))
        else: nm, ty = R.choice(IDX); self.syms.add((nm, ty))
        self.used.add(nm)
        S = lambda e: conv(e[nm], ty, 'i64')
        if x < .75:
            self.pre.append(lambda e: [S(e) >= 0, S(e) < n])
            return nm, lambda e: S(e)
        if x < .88 and n > 1:
            self.pre.append(lambda e: [S(e) >= 1, S(e) < n])
            return '%s - %s' % (nm, '1' if ty == 'i32' else '(1: %s)' % ty), lambda e: S(e) - 1
        if allow_back:
            self.pre.append(lambda e: [S(e) >= 1, S(e) < n])
            return '^%s' % nm, lambda e: n - S(e)
        self.pre.append(lambda e: [S(e) >= 0, S(e) < n])
        return nm, lambda e: S(e)
    def lvalue(self, stop=None, via=None):
        """a random place: (source, root, path, type)"""
        R = self.R
        cand = list(self.roots) + list(self.ptrs)
        r = via or R.choice(cand)
        if r in self.ptrs:
            root, path, t, room = self.ptrs[r]
            path = list(path)
            form = R.choice(['star', 'star', 'idx', 'mem', 'add', 'sub'])
            if form == 'mem' and not isinstance(t, str) and t[0] == 'S': src = r
            elif form == 'mem' and not isinstance(t, str): src = '(*%s)' % r
            elif form == 'idx':
                k, step = self.index(room[1]) if False else (None, None)
                k = R.randrange(room[0], room[1] + 1)
                src = '%s[%d]' % (r, k) if k >= 0 else '%s[%d]' % (r, 0); k = max(k, 0)
                if k: path = path[:-1] + [path[-1] + k]
            elif form == 'add' and room[1] > 0:
                k = R.randrange(0, room[1] + 1); src = '(*(%s + %d))' % (r, k)
                path = path[:-1] + [path[-1] + k]
            elif form == 'sub' and room[0] < 0:
                k = R.randrange(0, -room[0] + 1); src = '(*(%s - %d))' % (r, k)
                path = path[:-1] + [path[-1] - k]
            else: src = '(*%s)' % r
        else:
            root, path, src, t = r, [], r, self.roots[r]
        while not isinstance(t, str):
            if stop and (t == stop or R.random() < .1 and stop == 'any'): break
            if t[0] == 'S':
                j = R.randrange(len(t[2])); src += '.%s' % t[2][j][0]; path.append(j); t = t[2][j][1]
            else:
                s, step = self.index(t[2]); src += '[%s]' % s; path.append(step); t = t[1]
        return src, root, path, t
    def find(self, t):
        if not self.roots: return None
        for _ in range(12):
            src, root, path, u = self.lvalue(stop=t if not isinstance(t, str) else None)
            if u == t:
                return src, lambda e, m: get(m[root], self.ev(path, e))
        return None
    def ev(self, path, e): return [s if isinstance(s, int) else s(e) for s in path]
    def assign(self, root, path, f):
        def step(e, m): m[root] = put(m.get(root), self.ev(path, e), f(e, m))
        self.steps.append(step)
    def new(self, t, init=True):
        n = 'l%d' % self.n; self.n += 1
        if init:
            v = self.value(t)
            if v:
                self.out.append('let %s: %s = %s;' % (n, name(t), v[0])); self.roots[n] = t; self.assign(n, [], v[1]); return n
        self.out.append('let %s: %s;' % (n, name(t)))
        self.roots_pending(n, t); return n
    def roots_pending(self, n, t):
        """initialise an object leaf by leaf"""
        def blank(t): return None if isinstance(t, str) else [blank(t[1])] * t[2] if t[0] in 'CH' else [blank(x) for _, x in t[2]]
        self.steps.append(lambda e, m: m.__setitem__(n, blank(t)))
        for lt, p in leaves(t):
            v = self.value(lt)
            self.out.append('%s = %s;' % (self.path_src(n, t, p), v[0])); self.assign(n, p, v[1])
        if not isinstance(t, str): self.headers(n, t)
        self.roots[n] = t
    def headers(self, n, t): pass
    def path_src(self, n, t, p):
        s = n
        for k in p:
            if t[0] == 'S': s += '.%s' % t[2][k][0]; t = t[2][k][1]
            else: s += '[%d]' % k; t = t[1]
        return s
    def op(self):
        R = self.R; x = R.random()
        if x < .12 and len(self.ptrs) < 3:
            src, root, path, t = self.lvalue(stop='any')
            room = (0, 0)
            if path and isinstance(path[-1], int):
                # neighbours exist when the last step is an array index
                u = self.roots[root]
                for s in path[:-1]: u = u[2][s][1] if u[0] == 'S' else u[1]
                if u[0] in 'CH': room = (-path[-1], u[2] - 1 - path[-1])
            if not isinstance(t, str) and t[0] != 'S': return
            n = 'p%d' % self.n; self.n += 1
            self.out.append('let %s: &%s = &%s;' % (n, name(t), src)); self.ptrs[n] = (root, tuple(path), t, room)
            return
        if x < .22:
            t = R.choice(self.structs) if R.random() < .6 else ('H', R.choice(SC), R.randrange(2, 4))
            self.new(t); return
        if x < .45:
            src, root, path, t = self.lvalue(stop='any')
            if not isinstance(t, str):
                v = self.find(t) if R.random() < .5 else None
                if not v:
                    v = self.value(t)
                    if not v or '%s' % root in v[0]: return        # literals of an object's own parts have their own cases
                self.out.append('%s = %s;' % (src, v[0])); self.assign(root, path, v[1]); return
        src, root, path, t = self.lvalue()
        if not isinstance(t, str): return
        if x > .8 and t in INTS and t not in ('bool', 'char'):
            k = R.randrange(1, 100); w = nbits(t); o = R.choice(['+=', '-=', '^=', '++', '--'])
            if o in ('++', '--'):
                self.out.append('%s%s;' % (src, o)); d = 1 if o == '++' else -1
                self.assign(root, path, lambda e, m: get(m[root], self.ev(path, e)) + d)
            elif o == '^=':
                self.out.append('%s ^= (%d: %s);' % (src, k, t)); self.assign(root, path, lambda e, m: get(m[root], self.ev(path, e)) ^ k)
            else:
                self.out.append('%s %s (%d: %s);' % (src, o, k, t)); s = 1 if o == '+=' else -1
                self.assign(root, path, lambda e, m: get(m[root], self.ev(path, e)) + s * k)
            return
        v = self.value(t)
        self.out.append('%s = %s;' % (src, v[0])); self.assign(root, path, v[1])
    def reads(self, k):
        """read back places; alternately by random access paths and leaf by leaf"""
        outs, fs = {}, []
        ci = cf = 0
        for i in range(k):
            if i % 3 == 2: src, root, path, t = self.lvalue()
            else:
                root = self.R.choice(list(self.roots)); lt, path = self.R.choice(leaves(self.roots[root])); src, t = self.path_src(root, self.roots[root], path), lt
            if t in FLTS: o = 'q%d' % cf; cf += 1; ot = 'f64'
            else: o = 'r%d' % ci; ci += 1; ot = 'i64'
            self.out.append('%s = %s;' % (o, src if t == ot else '(%s: %s)' % (src, ot)))
            outs[o] = ot; fs.append((o, ot, t, root, path))
        return outs, fs

NR = 9
def rand_structs(R, k):
    out = []
    for i in range(R.randrange(2, 4)):
        ms = [('m%d' % j, rand_type(R, 2 if out else 1, out)) for j in range(R.randrange(1, 5))]
        t = ('S', 'S%d_%d' % (k, i), tuple(ms))
        if size(t) < 120: out.append(t)
    return out or [('S', 'S%d_0' % k, (('m0', 'u8'), ('m1', 'i64')))]

def random_unit(part, n):
    R = random.Random('%d/%d' % (SEED, part))
    b = Prog('mem%d' % part, ['let %s: %s;' % (n_, t) for n_, t in INPUTS.items()] + ['let r%d: i64; let q%d: f64;' % (i, i) for i in range(NR)], INPUTS, {})
    for i in range(n):
        structs = rand_structs(R, i)
        f = Fn(R, structs, None)
        b.decls += [decl(t) for t in structs]
        for j in range(R.randrange(0, 2)):      # global objects
            t = rand_type(R, 2, structs) if R.random() < .5 else R.choice(structs)
            g = 'g%d_%d' % (i, j); b.decls.append('let %s: %s;' % (g, name(t)))
            zero = lambda t: (z3.BitVecVal(0, nbits(t)) if t in INTS else z3.FPVal(0.0, FLTS[t][0])) if isinstance(t, str) else [zero(t[1])] * t[2] if t[0] in 'CH' else [zero(x) for _, x in t[2]]
            f.steps.append(lambda e, m, g=g, t=t, zero=zero: m.__setitem__(g, zero(t)))
            f.roots[g] = t
        f.new('i32'); f.new(R.choice(SC))
        f.new(R.choice(structs), init=R.random() < .5)
        if R.random() < .8: f.new((R.choice('CH'), rand_type(R, 1, structs), R.randrange(2, 5)), init=R.random() < .5)
        f.new(R.choice(SC))
        for _ in range(R.randrange(4, 10)): f.op()
        outs, fs = f.reads(NR)
        def post(e, o, f=f, fs=fs):
            m = {}
            for s in f.steps: s(e, m)
            return z3.And(*[same(ot, o[on], to_out(t, get(m[root], f.ev(path, e)))) for on, ot, t, root, path in fs])
        b.case(str(i), ' '.join(f.out), None, outs=outs, ins={k: INPUTS[k] for k in sorted(f.used)}, post=post, pre=lambda e, f=f: [c for p in f.pre for c in p(e)] + [c for k in f.used if k in ('b0', 'b1') for c in [z3.ULE(e[k], 1)]])
    for c in b.cases: c.opts = {'fork_mem': 16}
    return b.unit()

def to_out(t, v):
    if t in FLTS: return conv(v, t, 'f64')
    return conv(v, 'u8' if t == 'bool' else 'i8' if t == 'char' else t, 'i64')


def sub(o, ps): return z3.And(*[same(t, o[n], v) for n, t, v in ps])

def access(T):
    """one element access: container x index type x index form x read/write, with both neighbours"""
    st = T == 'S'
    S = ('S', 'E', (('p', 'u8'), ('v', 'i32'), ('q', 'i16'))) if st else None
    N = 'E' if st else T; L = 'i32' if st else T; dot = '.v' if st else ''
    b = Prog('access_' + T, ['let x: %s; let y: %s; let z: %s; let r: %s; let r0: %s; let r1: %s; let r2: %s;' % ((L,) * 7)] + ['let %s: %s;' % i for i in IDX] + ([decl(S)] if st else []) +
             ["type C: struct { a: u8, m: %s 'c[3], b: u8 }; type H: struct { a: u8, m: %s[3], b: u8 }; type W: struct { k: i16, c: C 'c[2], h: H[2] };" % (N, N),
              "let gc: %s 'c[3]; let gh: %s[3]; let gC: C; let gH: H; let gw: W; let gp: &%s;" % (N, N, N)], {}, {})
    cont = [('gc', '', 'gc', 1), ('gh', '', 'gh', 1), ('gC.m', '', 'gC.m', 1), ('gH.m', '', 'gH.m', 1), ('gw.c[1].m', '', 'gw.c[1].m', 1), ('gw.h[1].m', '', 'gw.h[1].m', 1),
            ('lc', "let lc: %s 'c[3]; " % N, 'lc', 1), ('lh', "let lh: %s[3]; " % N, 'lh', 1), ('lC.m', "let lC: C; ", 'lC.m', 1), ('lw.h[0].m', "let lw: W; ", 'lw.h[0].m', 1),
            ("(*q)", "let lh: %s[3]; let q: &H = &gH; " % N, '', 0), ('q.m', "let lC: C; let q: &C = &lC; ", 'q.m', 1), ('q', "let lc: %s 'c[3]; let q: &%s = &lc[0]; " % (N, N), 'q', 0),
            ('q', "let q: &%s = &gh[0]; " % N, 'q', 0), ('gp', 'gp = &gC.m[0]; ', 'gp', 0), ('q[1].m', 'let q: &C = &gw.c[0]; ', 'q[1].m', 1), ('(*(q + 1)).m', 'let q: &H = &gw.h[0]; ', '(*(q + 1)).m', 1),
            ('m', "let m: %s 'c[3][2]; " % N, 'm[1]', 1), ('m', "let m: %s[3] 'c[2]; " % N, 'm[1]', 1)]
    for ci, (cn, pre, c, back) in enumerate(cont):
        if not c: continue
        for ii, (nm, ty) in enumerate(IDX[1:]):
            forms = [('v', nm, lambda i: i, 0), ('e', '%s - %s' % (nm, '1' if ty == 'i32' else '(1: %s)' % ty), lambda i: i - 1, 1), ('k', '(%s + %s) - %s' % (nm, '1' if ty == 'i32' else '(1: %s)' % ty, '1' if ty == 'i32' else '(1: %s)' % ty), lambda i: i, 0)]
            if back: forms.append(('b', '^' + nm, lambda i: 3 - i, 1))
            if not THOROUGH: forms = [forms[(ci + ii + j) % len(forms)] for j in range(2)]
            for fk, fs, ff, lo in forms:
                idx = lambda e, ty=ty, nm=nm, ff=ff: ff(conv(e[nm], ty, 'i64'))
                init = '%s%s[0]%s = x; %s[1]%s = y; %s[2]%s = z; ' % (pre, c, dot, c, dot, c, dot)
                ins = {'x': L, 'y': L, 'z': L, nm: ty}
                P = lambda e, nm=nm, ty=ty, lo=lo: [conv(e[nm], ty, 'i64') >= lo, conv(e[nm], ty, 'i64') < 3 + lo]
                b.case('read:%d:%s:%s:%s' % (ci, cn, ty, fk), init + 'r = %s[%s]%s;' % (c, fs, dot), None, ins=ins, outs={'r': L}, pre=P,
                       post=lambda e, o, idx=idx: same(L, o.r, get([e.x, e.y, e.z], [idx(e)])))
                ins = dict(ins); 
                b.case('write:%d:%s:%s:%s' % (ci, cn, ty, fk), init + '%s[%s]%s = r; r0 = %s[0]%s; r1 = %s[1]%s; r2 = %s[2]%s;' % (c, fs, dot, c, dot, c, dot, c, dot), None,
                       ins=dict(ins, r=L), outs={'r0': L, 'r1': L, 'r2': L}, pre=P,
                       post=lambda e, o, idx=idx: z3.And(*[same(L, o['r%d' % k], v) for k, v in enumerate(put([e.x, e.y, e.z], [idx(e)], e.r))]))
    for c in b.cases: c.opts = {'fork_mem': 16}
    return b.unit()

def pointers(T):
    """pointer arithmetic over every element size"""
    Ts = {'S3': ('S', 'S3', (('a', ('C', 'u8', 3)),)), 'S12': ('S', 'S12', (('a', ('C', 'i32', 3)),)), 'P': ('P', 'u8')}
    t = Ts.get(T, T); sz = size(t)
    b = Prog('ptr_' + T, ['let k: i32; let l: i64; let m: u8; let s: i16; let u: u64; let c: i8; let r: i64; let t: i64; let rb: bool; let n: u32; let ix: i32;'] + ([decl(t)] if not isinstance(t, str) and t[0] == 'S' else []) +
             ["let a: %s 'c[8]; let w: &%s; type B: struct { f: u8, p: &%s }; let bb: B;" % (name(t), name(t), name(t)), 'fn idp(x: &%s): &%s { ret x; }' % (name(t), name(t))], {}, {})
    A = '(&a[0]: i64)'; TN = '&' + name(t)
    kk = [('k', 'i32'), ('l', 'i64'), ('m', 'u8'), ('s', 'i16'), ('u', 'u64'), ('c', 'i8'), ('n', 'u32')]
    rng_ = lambda nm, ty, lo, hi: (lambda e: [conv(e[nm], ty, 'i64') >= lo, conv(e[nm], ty, 'i64') <= hi])
    def off(key, body, ins, f, pre=None):
        b.case(key, body + ' r = (q: i64) - %s;' % A, None, ins=ins, outs={'r': 'i64'}, pre=pre, post=lambda e, o: o.r == f(e) * sz)
    for nm, ty in kk:
        V = lambda e, nm=nm, ty=ty: conv(e[nm], ty, 'i64')
        I = {nm: ty}; lo = -3 if signed(ty) else 0
        P = rng_(nm, ty, lo, 4)
        off('add:' + ty, 'let p: %s = &a[3]; let q: %s = p + %s;' % (TN, TN, nm), I, lambda e, V=V: 3 + V(e), P)
        off('sub:' + ty, 'let p: %s = &a[4]; let q: %s = p - %s;' % (TN, TN, nm), I, lambda e, V=V: 4 - V(e), P)
        off('addeq:' + ty, 'let q: %s = &a[3]; q += %s;' % (TN, nm), I, lambda e, V=V: 3 + V(e), P)
        off('subeq:' + ty, 'let q: %s = &a[4]; q -= %s;' % (TN, nm), I, lambda e, V=V: 4 - V(e), P)
        off('idx:' + ty, 'let p: %s = &a[3]; let q: %s = &p[%s];' % (TN, TN, nm), I, lambda e, V=V: 3 + V(e), P)
        off('addexpr:' + ty, 'let p: %s = &a[3]; let q: %s = p + (%s + (%s));' % (TN, TN, nm, nm), I, lambda e, V=V: 3 + 2 * V(e), rng_(nm, ty, -1 if signed(ty) else 0, 2))
        off('subexpr:' + ty, 'let p: %s = &a[3]; let q: %s = p - (%s - (%s));' % (TN, TN, nm, '1: ' + ty), I, lambda e, V=V: 4 - V(e), rng_(nm, ty, 1, 3))
        off('idxexpr:' + ty, 'let p: %s = &a[3]; let q: %s = &p[%s - (%s)];' % (TN, TN, nm, '2: ' + ty), I, lambda e, V=V: 1 + V(e), rng_(nm, ty, 0 if signed(ty) else 2, 4))
        off('member:' + ty, 'bb.p = &a[3]; let q: %s = bb.p + %s;' % (TN, nm), I, lambda e, V=V: 3 + V(e), P)
        off('call:' + ty, 'let q: %s = idp(&a[3]) + %s;' % (TN, nm), I, lambda e, V=V: 3 + V(e), P)
        off('chain:' + ty, 'let p: %s = &a[3]; let q: %s = p + %s - %s + 2;' % (TN, TN, nm, nm), I, lambda e, V=V: z3.BitVecVal(5, 64), P)
        off('ref:' + ty, 'let q: %s = &a[%s];' % (TN, nm), I, lambda e, V=V: V(e), rng_(nm, ty, 0, 7))
        off('deref:' + ty, 'let p: %s = &a[3]; let q: %s = &(*(p + %s));' % (TN, TN, nm), I, lambda e, V=V: 3 + V(e), P)
    C = lambda v: (lambda e: z3.BitVecVal(v, 64))
    off('inc', 'let q: %s = &a[3]; q++;' % TN, {}, C(4)); off('dec', 'let q: %s = &a[3]; q--;' % TN, {}, C(2))
    off('incval', 'let p: %s = &a[3]; let q: %s = p++;' % (TN, TN), {}, C(3)); off('decval', 'let p: %s = &a[3]; let q: %s = p--;' % (TN, TN), {}, C(3))
    off('ginc', 'w = &a[3]; w++; let q: %s = w;' % TN, {}, C(4)); off('minc', 'bb.p = &a[3]; bb.p++; let q: %s = bb.p;' % TN, {}, C(4))
    off('lit', 'let q: %s = &a[0] + 5;' % TN, {}, C(5)); off('litneg', 'let p: %s = &a[5]; let q: %s = p + -2;' % (TN, TN), {}, C(3)); off('litidx', 'let p: %s = &a[5]; let q: %s = &p[-2];' % (TN, TN), {}, C(3))
    D = {'k': 'i32', 'l': 'i64'}
    rg = lambda e: [e.k >= 0, e.k < 8, e.l >= 0, e.l < 8]
    K = lambda e: z3.SignExt(32, e.k)
    pq = 'let p: %s = &a[k]; let q: %s = &a[l]; ' % (TN, TN)
    b.case('diff', pq + 'r = (p - q: i64); t = (q - p: i64);', None, ins=D, outs={'r': 'i64', 't': 'i64'}, pre=rg, post=lambda e, o: z3.And(o.r == K(e) - e.l, o.t == e.l - K(e)))
    b.case('diffuse', pq + 'r = (p - q: i64) * 3 + 1; if (p - q) == (q - p) t = 1; else t = 2;', None, ins=D, outs={'r': 'i64', 't': 'i64'}, pre=rg, post=lambda e, o: z3.And(o.r == (K(e) - e.l) * 3 + 1, o.t == z3.If(K(e) == e.l, z3.BitVecVal(1, 64), z3.BitVecVal(2, 64))))
    for op, f in (('<', lambda x, y: x < y), ('>=', lambda x, y: x >= y), ('==', lambda x, y: x == y), ('!=', lambda x, y: x != y)):
        b.case('cmp' + op, pq + 'rb = p %s q;' % op, None, ins=D, outs={'rb': 'bool'}, pre=rg, post=lambda e, o, f=f: same('bool', o.rb, f(K(e), e.l)))
    for c in b.cases: c.opts = {'fork_mem': 16}
    return b.unit()

def layout(part):
    """sizeof, alignof, len and member addresses against the layout rules"""
    R = random.Random('layout%d/%d' % (SEED, part))
    b = Prog('layout%d' % part, ['let r%d: u64;' % i for i in range(8)] + ['let z: i32; type PI: &i32; type PU: &u8; type PP: &&char;'], {}, {})
    for i in range(60):
        ss = []
        for j in range(R.randrange(1, 4)):
            ms = [('m%d' % k, rand_type(R, 2 if ss else 1, ss, SC + [('U', 'PI', (('x', 'u64'),)), ('U', 'PU', (('x', 'u64'),))])) for k in range(R.randrange(1, 6))]
            ss.append(('S' if R.random() < .8 or not j else 'U', 'L%d_%d' % (i, j), tuple(ms)))
        if R.random() < .5: ss2 = list(reversed(ss))          # order of declaration does not matter
        else: ss2 = ss
        b.decls += [decl(t) if t[0] == 'S' else decl(t).replace(': struct', ': union') for t in ss2]
        t = ss[-1]; g = 'L%d' % i
        b.decls.append('let %sg: %s;' % (g, t[1]))
        k = R.randrange(len(t[2])); mt = t[2][k][1]
        if t[0] == 'U': off = 0
        else:
            off = 0
            for _, x in t[2][:k]: off = (off + align(x) - 1) // align(x) * align(x) + size(x)
            off = (off + align(mt) - 1) // align(mt) * align(mt)
        arr = ('C', t, 3)
        body = 'let l: %s; let q: %s \'c[3]; r0 = sizeof %s; r1 = alignof %s; r2 = (&%sg.%s: u64) - (&%sg: u64); r3 = (&l.%s: u64) - (&l: u64); r4 = (&q[2]: u64) - (&q[0]: u64); r5 = (&q[1].%s: u64) - (&q[1]: u64); r6 = (&l: u64) & (7: u64); r7 = (&%sg: u64) & (7: u64);' % (
            t[1], t[1], t[1], t[1], g, t[2][k][0], g, t[2][k][0], t[2][k][0], g)
        def post(e, o, t=t, off=off):
            return z3.And(o.r0 == size(t), o.r1 == align(t), o.r2 == off, o.r3 == off, o.r4 == 2 * size(t), o.r5 == off, z3.URem(o.r6, z3.BitVecVal(align(t), 64)) == 0, z3.URem(o.r7, z3.BitVecVal(align(t), 64)) == 0)
        b.case('%d:%s.%s' % (i, t[1], t[2][k][0]), body, None, ins={}, outs={'r%d' % j: 'u64' for j in range(8)}, post=post)
    prim = SC + ['PI', 'PP']
    for T in prim:
        n = 8 if T[0] == 'P' else size(T); al = 8 if T[0] == 'P' else align(T)
        b.case('prim:' + T, "type_%s" % T if False else "r0 = sizeof %s; r1 = alignof %s; let c: %s 'c[5]; let h: %s[7]; r2 = len c; r3 = len h; r4 = (&h[1]: u64) - (&h[0]: u64); r5 = (&h[0]: u64) - (&h: u64); r6 = (&c[0]: u64) - (&c: u64); r7 = (&c[1]: u64) - (&c[0]: u64);" % (T, T, T, T),
               None, ins={}, outs={'r%d' % j: 'u64' for j in range(8)}, post=lambda e, o, n=n, al=al: z3.And(o.r0 == n, o.r1 == al, o.r2 == 5, o.r3 == 7, o.r4 == n, o.r5 == 8, o.r6 == 0, o.r7 == n))
    return b.unit()

def literals(T):
    """array and struct literals: initialisers, assignments, arguments, unpacking, parts of the target itself"""
    b = Prog('lit_' + T, ['let %s: %s;' % (n, T) for n in 'abcd'] + ['let r%d: %s;' % (i, T) for i in range(8)] + ['let n: u64; let i: i32;',
             'type S: struct { x: %s, y: u8, z: %s }; type N: struct { k: i16, s: S, h: %s[2] }; let gh: %s[4]; let gs: S; let gn: N; let ga: S \'c[2];' % (T, T, T, T),
             'fn sum(h: %s[]): void { n = len h; r0 = h[0]; r1 = h[1]; r2 = h[^1]; r3 = h[^2]; h[1] = a; }' % T, 'fn snd(s: S): %s { ret s.z; }' % T, 'fn mk(p: %s, q: %s): S { ret S::{p, 7, q}; }' % (T, T),
             'fn mut(s: S): %s { s.x = s.z; ret s.x; }' % T],
             {n: T for n in 'abcd'}, {})
    def case(key, body, want, n=None, **kw):
        outs = {'r%d' % i: T for i in range(len(want(Env({k: None for k in 'abcd'}))))}
        if n is not None: outs['n'] = 'u64'
        b.case(key, body, None, outs=outs, post=lambda e, o: z3.And(*([same(T, o['r%d' % i], v) for i, v in enumerate(want(e))] + ([o.n == n] if n is not None else []))), **kw)
        b.cases[-1].opts = {'fork_mem': 16}
    R4 = lambda p: ''.join('r%d = %s[%d]; ' % (i, p, i) for i in range(4))
    W = lambda *ks: (lambda e: [e[k] for k in ks])
    for nm, pre, p in (('local', '', 'h'), ('global', '', 'gh'), ('member', '', 'gn')):
        if nm == 'member':
            case('arr:member', 'gn.h = [a, b]; r0 = gn.h[0]; r1 = gn.h[1]; gn.h = [gn.h[1], c]; r2 = gn.h[0]; r3 = gn.h[1];', W('a', 'b', 'b', 'c')); continue
        D = 'let h: %s[4]%s; ' % (T, '') if nm == 'local' else ''
        case('arr:assign:' + nm, D + '%s = [a, b, c, d]; %s n = len %s;' % (p, R4(p), p), W('a', 'b', 'c', 'd'), n=4)
        case('arr:unpack:' + nm, D + 'let u: %s[2] = [c, d]; %s = [...u, a, b]; %s' % (T, p, R4(p)), W('c', 'd', 'a', 'b'))
        case('arr:unpackrev:' + nm, D + 'let u: %s[2] = [c, d]; %s = [a, u..., b]; %s' % (T, p, R4(p)), W('a', 'd', 'c', 'b'))
        case('arr:unpackC:' + nm, D + "let u: %s 'c[2]; u[0] = c; u[1] = d; %s = [a, u..., b]; %s" % (T, p, R4(p)), W('a', 'd', 'c', 'b'))
        case('arr:self:' + nm, D + '%s = [a, b, c, d]; %s = [%s[3], %s[0], %s[1], %s[2]]; %s' % (p, p, p, p, p, p, R4(p)), W('d', 'a', 'b', 'c'))
        case('arr:selfunpack:' + nm, D + '%s = [a, b, c, d]; %s = [%s...]; %s' % (p, p, p, R4(p)), W('d', 'c', 'b', 'a'))
        case('arr:copy:' + nm, D + '%s = [a, b, c, d]; let q: %s[4] = %s; q[1] = a; %s[2] = b; r0 = q[1]; r1 = q[2]; r2 = %s[1]; r3 = %s[2]; n = len q;' % (p, T, p, p, p, p), W('a', 'c', 'b', 'b'), n=4)
    case('arr:init', 'let h: %s[4] = [a, b, c, d]; %s n = len h;' % (T, R4('h')), W('a', 'b', 'c', 'd'), n=4)
    case('arr:infer', 'let h = [a, b, c, d]; %s n = len h;' % R4('h'), W('a', 'b', 'c', 'd'), n=4)
    case('arr:initunpack', 'let u: %s[2] = [a, b]; let h: %s[5] = [u..., c, ...u]; r4 = h[4]; %s n = len h;' % (T, T, R4('h')), W('b', 'a', 'c', 'a', 'b'), n=5)
    case('arr:direct', 'r0 = [a, b, c][1]; i = 2; r1 = [a, b, c][i];', W('b', 'c'))
    case('vla:literal', 'sum([a, b, c]);', W('a', 'b', 'c', 'b'), n=3)
    case('vla:local', 'let h: %s[3] = [a, b, c]; sum(h); r4 = h[1]; r5 = h[2];' % T, W('a', 'b', 'c', 'b', 'a', 'c'), n=3)
    case('vla:global', 'gh = [a, b, c, d]; sum(gh); r4 = gh[1];', W('a', 'b', 'd', 'c', 'a'), n=4)
    case('vla:uninit', 'let h: %s[4]; h[0] = a; h[1] = b; h[2] = c; h[3] = d; sum(h);' % T, W('a', 'b', 'd', 'c'), n=4)
    for k, (pre, g) in enumerate((('', 'gn'), ('let m: N; ', 'm'), ('let m: N; let q: &N = &m; ', 'q'), ("let m: N 'c[2]; i = 1; ", 'm[i]'))):
        case('vla:nested%d' % k, pre + '%s.h[0] = c; %s.h[1] = d; sum(%s.h); r4 = %s.h[1];' % (g, g, g, g), W('c', 'd', 'd', 'c', 'a'), n=2)
    b.decls.append("let hh: %s[2] 'c[3];" % T)
    case('vla:nestedarr', 'i = 1; hh[1][0] = b; hh[1][1] = c; sum(hh[i]); r4 = hh[1][1];', W('b', 'c', 'c', 'b', 'a'), n=2)
    case('struct:init', 'let s: S = S::{a, 3, b}; r0 = s.x; r1 = s.z; n = (s.y: u64);', W('a', 'b'), n=3)
    case('struct:assign', 'let s: S; s = S::{a, 3, b}; r0 = s.x; r1 = s.z; s = S::{c, 4, s.z}; r2 = s.x; r3 = s.z; n = (s.y: u64);', W('a', 'b', 'c', 'b'), n=4)
    case('struct:self', 'gs = S::{a, 3, b}; gs = S::{gs.z, 4, gs.x}; r0 = gs.x; r1 = gs.z; let s: S = gs; s = S::{s.z, 1, s.x}; r2 = s.x; r3 = s.z;', W('b', 'a', 'a', 'b'))
    case('struct:selfcall', 'gs = S::{a, 3, b}; gs = S::{snd(gs), 4, mut(gs)}; r0 = gs.x; r1 = gs.z;', W('b', 'b'))
    case('struct:nested', 'let m: N = N::{1, S::{a, 2, b}, [c, d]}; r0 = m.s.x; r1 = m.s.z; r2 = m.h[0]; r3 = m.h[1]; let q: N = m; m.s = S::{d, 1, c}; r4 = q.s.x; r5 = m.s.x; r6 = q.h[1];', W('a', 'b', 'c', 'd', 'a', 'd', 'd'))
    case('struct:elem', "i = 1; ga[0] = S::{a, 1, b}; ga[i] = S::{c, 2, d}; r0 = ga[0].x; r1 = ga[0].z; r2 = ga[1].x; r3 = ga[1].z; ga[0] = ga[i]; ga[i].x = a; r4 = ga[0].x; r5 = ga[1].x;", W('a', 'b', 'c', 'd', 'c', 'a'))
    case('struct:arg', 'r0 = snd(S::{a, 1, b}); r1 = snd(mk(c, d)); r2 = mk(a, b).x; gs = mk(b, c); r3 = gs.z; r4 = mut(gs); r5 = gs.x;', W('b', 'd', 'a', 'c', 'c', 'b'))
    case('struct:ptr', 'let p: &S = &gs; *p = S::{a, 1, b}; r0 = gs.x; let s: S = *p; p.z = c; r1 = s.z; r2 = gs.z; let t: S = S::{d, 2, a}; *p = t; r3 = p.x; r4 = (*p).z; p = &s; p.x = b; r5 = s.x; r6 = gs.x;', W('a', 'b', 'c', 'd', 'a', 'b', 'd'))
    case('struct:swap', "ga[0] = S::{a, 1, b}; ga[1] = S::{c, 2, d}; let t: S = ga[0]; ga[0] = ga[1]; ga[1] = t; r0 = ga[0].x; r1 = ga[0].z; r2 = ga[1].x; r3 = ga[1].z;", W('c', 'd', 'a', 'b'))
    case('struct:list', 'let e2: L; let e1: L; let e0: L; e0.v = a; e1.v = b; e2.v = c; e0.n = &e1; e1.n = &e2; e2.n = &e0; r0 = e0.n.v; r1 = e0.n.n.v; r2 = e0.n.n.n.v; e0.n.n.v = d; r3 = e2.v; e0.n = e0.n.n; r4 = e0.n.v; e1.n.n.v = b; r5 = e0.v;', W('b', 'c', 'a', 'd', 'd', 'b'))
    b.decls.append('type L: struct { v: %s, n: &L };' % T)
    case('cond', 'let s: S = if a_ => S::{a, 1, b} else S::{c, 2, d}; r0 = s.x; r1 = s.z;', lambda e: [e.a, e.b] if e.a is None else [z3.If(e.a_ != 0, e.a, e.c) if not is_float(T) else z3.If(e.a_ != 0, e.a, e.c), z3.If(e.a_ != 0, e.b, e.d)], ins=dict({n: T for n in 'abcd'}, a_='bool'))
    b.decls.append('let a_: bool;')
    b.decls.append('type EM: struct { q: u8, embed S, w: %s }; let em: EM;' % T)
    case('embed', 'em.q = 9; em.x = a; em.z = b; em.w = c; em.y = 3; r0 = em.x; r1 = em.z; r2 = em.w; n = (em.q: u64); let e2: EM = em; em.z = d; r3 = e2.z; r4 = em.z;', W('a', 'b', 'c', 'b', 'd'), n=9)
    b.decls.append('type TU: {%s, u8, %s}; let tu: TU;' % (T, T))
    case('tuple', 'tu = TU::{a, 4, b}; r0 = tu._0; r1 = tu._2; n = (tu._1: u64); tu._0 = c; r2 = tu._0; r3 = tu._2;', W('a', 'b', 'c', 'b'), n=4)
    return b.unit()

def unions():
    b = Prog('union', ["type U: union { a: u32, b: u8 'c[4], c: i16, d: u64, e: i8, h: u16 'c[2] }; let u: U; let v: U; type W: struct { t: u8, u: U, z: u16 }; let w: W; let x: u32; let y: u64; let s: i16; let n: i32; let r0: u64; let r1: u64; let r2: u64; let r3: u64; let r4: i64; type F: union { f: f32, i: u32, d: f64, l: u64 }; let fl: F; let ff: f32; let fd: f64;"], {}, {})
    I = {'x': 'u32', 'y': 'u64', 's': 'i16', 'n': 'i32'}; O = {'r0': 'u64', 'r1': 'u64', 'r2': 'u64'}
    Z = lambda v: z3.ZeroExt(64 - v.size(), v) if v.size() < 64 else v
    by = lambda v, k: Z(z3.Extract(8 * k + 7, 8 * k, v))
    for U, pre in (('u', ''), ('l', 'let l: U; '), ('w.u', 'w.t = 1; w.z = 2; '), ('q.u', 'let k: W; k.t = 1; k.z = 2; let q: &W = &k; '), ("ar[1]", "let ar: U 'c[3]; ar[0].d = 0; ar[2].d = 0; ")):
        z = U.split('.')[0] if U in ('w.u', 'q.u') else None
        b.case('bytes:' + U, pre + '%s.d = y; %s.a = x; r0 = %s.d; r1 = (%s.b[n]: u64); r2 = (%s.h[1]: u64); %s' % (U, U, U, U, U, 'r3 = (%s.t: u64) + (%s.z: u64);' % (z, z) if z else 'r3 = 3;'), None, ins=I, outs=dict(O, r3='u64'), pre=lambda e: [e.n >= 0, e.n < 4],
               post=lambda e, o: z3.And(o.r0 == z3.Concat(z3.Extract(63, 32, e.y), e.x), o.r1 == get([by(e.x, k) for k in range(4)], [e.n]), o.r2 == Z(z3.Extract(31, 16, e.x)), o.r3 == 3))
        b.case('write:' + U, pre + '%s.d = y; %s.b[n] = (x: u8); %s.c = s; r0 = %s.d; r4 = (%s.e: i64);' % (U, U, U, U, U), None, ins=I, outs={'r0': 'u64', 'r4': 'i64'}, pre=lambda e: [e.n >= 0, e.n < 4],
               post=lambda e, o: z3.And(o.r0 == z3.Concat(z3.Extract(63, 32, e.y), z3.If(e.n == 3, z3.Extract(7, 0, e.x), z3.Extract(31, 24, e.y)), z3.If(e.n == 2, z3.Extract(7, 0, e.x), z3.Extract(23, 16, e.y)), e.s), o.r4 == z3.SignExt(56, z3.Extract(7, 0, e.s))))
    b.case('copy', 'u.d = y; v = u; u.a = x; r0 = v.d; let l: U = u; u.d = 0; r1 = l.d; w.u = l; r2 = w.u.d;', None, ins=I, outs=O, post=lambda e, o: z3.And(o.r0 == e.y, o.r1 == z3.Concat(z3.Extract(63, 32, e.y), e.x), o.r2 == o.r1))
    b.case('f32', 'fl.l = y; fl.f = ff; r0 = (fl.i: u64); fl.i = x; r1 = fl.l; fl.d = fd; r2 = fl.l;', None, ins=dict(I, ff='f32', fd='f64'), outs=O, pre=lambda e: [z3.Not(z3.fpIsNaN(e.ff)), z3.Not(z3.fpIsNaN(e.fd))],
           post=lambda e, o: z3.And(o.r0 == Z(z3.fpToIEEEBV(e.ff)), o.r1 == z3.Concat(z3.Extract(63, 32, e.y), e.x), o.r2 == z3.fpToIEEEBV(e.fd)))
    b.case('bits', 'fl.i = x; ff = fl.f; fl.l = y; fd = fl.d;', None, ins=I, outs={'ff': 'f32', 'fd': 'f64'}, post=lambda e, o: z3.And(same('f32', o.ff, z3.fpBVToFP(e.x, F32)), same('f64', o.fd, z3.fpBVToFP(e.y, F64))))
    for c in b.cases: c.opts = {'fork_mem': 16}
    return b.unit()

def copies(part):
    """copies of whole objects of every size: all bytes arrive, the neighbours stay"""
    decls = ['let i: i32; let j: i32; let k: i32; let v: u8; let w: u8; let x: u8; let y: u8; let n0: u64; let n1: u64; let n2: u64; let n3: u64;']
    b = Prog('copy%d' % part, decls, {}, {})
    I = {'i': 'i32', 'j': 'i32', 'k': 'i32', 'v': 'u8', 'w': 'u8', 'x': 'u8', 'y': 'u8'}
    Z = lambda t: z3.ZeroExt(56, t)
    for n in ([1, 2, 3, 5, 6, 7, 8, 9], [10, 11, 12, 13, 15, 16, 17], [18, 19, 20, 23, 24, 25], [30, 31, 33, 39, 40, 41])[part]:
        q = "S%d" % n
        b.decls.append("type S%d: struct { a: u8 'c[%d] }; type T%d: struct { b: u8, s: S%d, c: u8, d: u8, e: u16, f: u8 }; type V%d: struct { b: u16, s: S%d, c: u16 }; let sg%d: S%d; let sh%d: S%d; let tg%d: T%d; let th%d: T%d; let ag%d: S%d 'c[3]; let vg%d: V%d;" % ((n,) * 18))
        def case(key, src, dst, pre, around=(), stmt=None, helpers='', n=n):
            body = pre + ''.join(' %s.a[%d] = v + %d;' % (src, m, m * 5 + 1) for m in range(n)) + ' '
            body += ' '.join('%s = %s;' % (m, 'xy'[m_ % 2]) for m_, m in enumerate(around)) + ' ' + (stmt or '%s = %s;' % (dst, src))
            body += ' n0 = (%s.a[k]: u64); n1 = (%s.a[k]: u64); n2 = 0; ' % (dst, src) + ' '.join('n2 = (n2 << 8) | (%s: u64);' % m for m in around)
            want = lambda e: e.v + z3.Extract(7, 0, e.k) * 5 + 1
            def post(e, o):
                n2 = z3.BitVecVal(0, 64)
                for m in range(len(around)): n2 = (n2 << 8) | Z([e.x, e.y][m % 2])
                return [('copied byte', o.n0 == Z(want(e))), ('source', o.n1 == Z(want(e))), ('neighbours', o.n2 == n2)]
            b.case('%d:%s' % (n, key), body, None, ins=I, outs={'n0': 'u64', 'n1': 'u64', 'n2': 'u64'}, pre=lambda e: [e.k >= 0, e.k < n, e.i < 99], post=post, helpers=helpers)
        D = dict(n=n)
        ar = lambda t: ['%s.%s' % (t, m) for m in 'bcdef']
        case('member', 'sg%d' % n, 'tg%d.s' % n, '', ar('tg%d' % n))
        case('from-member', 'tg%d.s' % n, 'th%d.s' % n, '', ar('th%d' % n))
        case('local', 'sg%d' % n, 'l.s', 'let l: T%d;' % n, ar('l'))
        case('to-global', 'l', 'vg%d.s' % n, 'let l: S%d;' % n, ['vg%d.b' % n, 'vg%d.c' % n])
        case('pointer', 'sg%d' % n, 'q.s', 'let q = &tg%d;' % n, ar('tg%d' % n))
        case('deref', 'l.s', 'tg%d.s' % n, 'let l: T%d; let q = &l.s; let r = &tg%d.s;' % (n, n), ar('tg%d' % n), '*r = *q;')
        case('element', 'sg%d' % n, 'ag%d[1]' % n, '', ['ag%d[0].a[0]' % n, 'ag%d[0].a[%d]' % (n, n - 1), 'ag%d[2].a[0]' % n, 'ag%d[2].a[%d]' % (n, n - 1)][n == 1:][:4 - 2 * (n == 1)] if n > 1 else ['ag1[0].a[0]', 'ag1[2].a[0]'])
        case('initial', 'sg%d' % n, 'l', 'let z = x; let l: S%d; let y1: u8 = y; ' % n, ['z', 'y1'], '{ let m: u8 = x; let k2 = sg%d; l = k2; n3 = (m: u64); }' % n)
        case('array', 'ag%d[2]' % n, 'l[2]', "let l0 = x; let l: S%d 'c[3]; let l1 = y;" % n, ['l0', 'l1'], 'l = ag%d;' % n)
        case('temp', 'sg%d' % n, 'tg%d.s' % n, '', ar('tg%d' % n), 'tg%d.s = @Fi(sg%d);' % (n, n), 'fn @Fi(s: S%d): S%d { ret s; }\n' % (n, n))
        case('cond', 'sg%d' % n, 'tg%d.s' % n, '', ar('tg%d' % n), 'tg%d.s = if i < 99 => sg%d else sh%d;' % (n, n, n))
        case('chain', 'sg%d' % n, 'th%d.s' % n, '', ar('tg%d' % n) , 'th%d.s = tg%d.s = sg%d;' % (n, n, n)) if False else None
    for c in b.cases: c.opts = {'fork_mem': 64}
    return b.unit()

def main():
    r = Report('P07', 'translation_validation')
    TS = ['i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'bool', 'char', 'f32', 'f64', 'f80']
    r.run_units([access(T) for T in (['i8', 'i32', 'u64', 'f32', 'f80', 'S'] if not THOROUGH else TS + ['S'])] + [pointers(T) for T in ('u8', 'i16', 'i32', 'f64', 'f80', 'S3', 'S12', 'P')] +
                [layout(0), layout(1), unions()] + [copies(p) for p in range(4)] + [literals(T) for T in TS] + [random_unit(i, 25) for i in range(6 if not THOROUGH else 40)])
    r.finish()
if __name__ == '__main__': main()
