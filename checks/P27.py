"""P27: formatted output: the text of fmt::format, fmt::time and io::printf."""
import sys, os, itertools; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from vlib.core import *
from vlib.zs import b64, sel
PID = 'P27'
# ------------------------------------------------------------------ texts: (bytes, length term), at most len(bytes) long
V8 = lambda c: z3.BitVecVal(c, 8)
def lit(s): return [V8(ord(c)) for c in s], b64(len(s))
def cat(a, b):
    A, n = a; B, m = b
    if z3.is_bv_value(z3.simplify(n)) and z3.simplify(n).as_long() == len(A): return A + B, z3.simplify(n + m)
    L = len(A) + len(B)
    r = []
    for j in range(L):
        v = V8(0)
        for k in range(len(A) + 1):          # b starts at k
            if 0 <= j - k < len(B): v = z3.If(n == k, B[j - k], v)
        if j < len(A): v = z3.If(z3.ULT(j, n), A[j], v)
        r.append(v)
    return r, z3.simplify(n + m)
def ite(c, a, b):
    L = max(len(a[0]), len(b[0])); p = lambda x: x + [V8(0)] * (L - len(x))
    return [z3.If(c, x, y) for x, y in zip(p(a[0]), p(b[0]))], z3.If(c, a[1], b[1])
def num(v, base, hi, lo=0):
    """numeral of the unsigned v in lo..hi; constraints of the divisions go to CONS"""
    v = z3.simplify(v)
    w = v.size(); q = [v]; dg = []; n = 1; n0 = 1
    while base ** n <= hi: n += 1
    while base ** n0 <= lo: n0 += 1
    for i in range(n):
        a, b, c = x86.ldiv(q[-1], base, w)
        d = z3.Extract(7, 0, b); dg.append(z3.If(z3.ULE(d, 9), d + 48, d - 10 + 97)); q.append(a); CONS.extend(c)
    r = [dg[n0 - 1 - j] for j in range(n0)], b64(n0)
    for k in range(n0 + 1, n + 1): r = ite(q[k - 1] != 0, ([dg[k - 1 - j] for j in range(k)], b64(k)), r)
    return r
CONS = []
def snum(v, lo, hi):
    if lo >= 0: return num(v, 10, hi, lo)
    if hi <= 0: return cat(lit('-'), num(-v, 10, -lo, -hi))
    return ite(v < 0, cat(lit('-'), num(-v, 10, -lo)), num(v, 10, hi))
ESC = {7: 'a', 8: 'b', 9: 't', 11: 'v', 10: 'n', 13: 'r', 12: 'f', 39: "'", 0: '0'}
def cesc(c):
    r = [c], b64(1)
    for k, x in ESC.items(): r = ite(c == k, lit('\\' + x), r)
    return r
def string(bs):
    n = b64(len(bs))
    for i in reversed(range(len(bs))): n = z3.If(bs[i] == 0, b64(i), n)
    return bs, n
def sesc(bs):
    r = lit(''); n = string(bs)[1]
    for i, c in enumerate(bs): r = cat(r, ite(z3.UGT(n, i), cesc(c), lit('')))
    return r
def boolean(b): return ite(b, lit('true'), lit('false'))
def same(got, t, what=''):
    """the terminated bytes `got` are the text t"""
    B, n = t
    return [('byte %d' % j, z3.Implies(z3.UGT(n, j), got[j] == B[j])) for j in range(len(B))] + [('end', z3.Or(*[z3.And(n == j, got[j] == 0) for j in range(len(B) + 1)]))]

UNITS = []
class G:
    def __init__(self, name): self.name = name; self.src = ['import "std.csp";', 'let i: i32; let j: i32; let u: u32; let w: u64; let l: i64; let b: bool; let c: char; let d: char; let p: u64; let sp: &char; let tp: &char; let fp: &char; let dp: &char; let r: i32;']; self.cases = []
    def add(self, key, body, ins, text, pre=None, bufs=(), out=40, opts=None, timeout=20000, script=None, outs=None):
        fn = 'f%d' % len(self.cases)
        self.src.append('fn %s() { %s }' % (fn, body))
        def post(e, o):
            CONS.clear()
            t = text(e)
            cl = same(o.dst, t)
            k = list(CONS)
            return [(n, z3.Implies(z3.And(*k), f)) if k else (n, f) for n, f in cl]
        self.cases.append(Case(self.name + ':' + key, fn, ins, outs or {}, post, pre, bufs=[Buf('dst', out, ptr='dp', w=True), *bufs], opts=dict({'fork_mem': 32, 'lin_div': True, 'max_paths': 20000}, **(opts or {})), desc=body, timeout=timeout, script=script))
    def done(self):
        UNITS.append(Unit(self.name, '\n'.join(self.src) + '\nfn main(): i32 { ' + ' '.join(c.fn + '();' for c in self.cases) + ' <- 0; }\n', self.cases))
def fmt(f, *args): return 'let s = std::fmt::format(%s); std::c_str::strcpy(dp, s);' % ', '.join([f] + list(args))

g = G('one')
R = lambda x, lo, hi: z3.And(x >= lo, x <= hi)
UR = lambda x, lo, hi: z3.And(z3.UGE(x, lo), z3.ULE(x, hi))
for lo, hi in ((-120, 130), (2**31 - 10, 2**31 - 1), (-2**31, -2**31 + 10)):
    g.add('i:%d' % lo, fmt('"%i"', 'i'), {'i': 'i32'}, lambda e, lo=lo, hi=hi: snum(z3.SignExt(32, e.i), lo, hi), lambda e, lo=lo, hi=hi: R(e.i, lo, hi))
    g.add('l:%d' % lo, fmt('"%l"', 'l'), {'l': 'i64'}, lambda e, lo=lo, hi=hi: snum(e.l, lo, hi), lambda e, lo=lo, hi=hi: R(e.l, lo, hi))
for lo, hi in ((0, 130), (2**31 - 5, 2**31 + 5), (2**32 - 10, 2**32 - 1)):
    g.add('u:%d' % lo, fmt('"%u"', 'u'), {'u': 'u32'}, lambda e, lo=lo, hi=hi: num(z3.ZeroExt(32, e.u), 10, hi, lo), lambda e, lo=lo, hi=hi: UR(e.u, lo, hi))
for lo, hi in ((0, 130), (2**32 - 10, 2**32 + 10), (2**63 - 5, 2**63 + 5), (2**64 - 10, 2**64 - 1)):
    g.add('U:%d' % lo, fmt('"%U"', 'w'), {'w': 'u64'}, lambda e, lo=lo, hi=hi: num(e.w, 10, hi, lo), lambda e, lo=lo, hi=hi: UR(e.w, lo, hi))
    g.add('x:%d' % lo, fmt('"%x"', 'w'), {'w': 'u64'}, lambda e, lo=lo, hi=hi: num(e.w, 16, hi, lo), lambda e, lo=lo, hi=hi: UR(e.w, lo, hi))
    g.add('p:%d' % lo, fmt('"%p"', '(w: &void)'), {'w': 'u64'}, lambda e, lo=lo, hi=hi: cat(lit('0x'), num(e.w, 16, hi, lo)), lambda e, lo=lo, hi=hi: UR(e.w, lo, hi))
g.add('o', fmt('"%o"', 'l'), {'l': 'i64'}, lambda e: num(e.l, 8, 601), lambda e: R(e.l, 0, 600))
g.done()
g = G('text')
g.add('b', fmt('"%b"', 'b'), {'b': 'bool'}, lambda e: boolean(e.b == 1))
g.add('c', fmt('"%c"', 'c'), {'c': 'char'}, lambda e: string([e.c]))
g.add('C', fmt('"%C"', 'c'), {'c': 'char'}, lambda e: cesc(e.c))
S = lambda n=4: Buf('s', n, ptr='sp', w=False)
T = lambda n=4: Buf('t', n, ptr='tp', w=False)
E = lambda *ns: lambda e: z3.And(*[e[n][-1] == 0 for n in ns])
g.add('s', fmt('"%s"', 'sp'), {}, lambda e: string(e.s), E('s'), [S(6)])
g.add('S', fmt('"%S"', 'sp'), {}, lambda e: sesc(e.s[:-1]), E('s'), [S(4)])
g.add('nil', fmt('"%s%S"', 'nil', 'nil'), {}, lambda e: lit('(nil)(nil)'))
g.add('percent', fmt('"%%a%%"'), {}, lambda e: lit('%a%'))
g.add('empty', fmt('""'), {}, lambda e: lit(''))
g.add('plain', fmt('sp'), {}, lambda e: string(e.s), lambda e: z3.And(e.s[-1] == 0, *[x != 37 for x in e.s]), [S(6)])
g.add('e', 'let x = std::Error::{std::Errno::INVAL, sp}; ' + fmt('"<%e>"', '&x') + ' let y = std::error::str(std::Errno::INVAL); r = 0; while y[r] && y[r] == dp[r + 1] { r++; } if y[r] == 0 { std::c_str::strcpy(dp, &dp[r + 1]); } else { *dp = 0; }', {}, lambda e: cat(cat(lit(': '), string(e.s)), lit('>')), E('s'), [S(4)], out=80)
g.done()
g = G('mixed')
sm = lambda e: z3.And(R(e.i, -12, 12), R(e.j, 0, 12))
I = lambda v: snum(z3.SignExt(32, v), -13, 13)
def cats(*t):
    r = t[0]
    for x in t[1:]: r = cat(r, x)
    return r
g.add('isi', fmt('"a%i %s,%ib"', 'i', 'sp', 'j'), {'i': 'i32', 'j': 'i32'}, lambda e: cats(lit('a'), I(e.i), lit(' '), string(e.s), lit(','), I(e.j), lit('b')), lambda e: z3.And(sm(e), e.s[-1] == 0), [S(3)])
g.add('ssc', fmt('"%s%s%c"', 'sp', 'tp', 'c'), {'c': 'char'}, lambda e: cats(string(e.s), string(e.t), string([e.c])), E('s', 't'), [S(4), T(4)])
g.add('bxC', fmt('"%b %x%C%%"', 'b', 'w', 'c'), {'b': 'bool', 'w': 'u64', 'c': 'char'}, lambda e: cats(boolean(e.b == 1), lit(' '), num(e.w, 16, 301), cesc(e.c), lit('%')), lambda e: z3.ULE(e.w, 300))
# more arguments than registers
g.add('many', fmt('"%i%c%i%c%l%c%b%s%c"', 'i', 'c', 'j', 'd', 'l', 'c', 'b', 'sp', 'd'), {'i': 'i32', 'j': 'i32', 'l': 'i64', 'c': 'char', 'd': 'char', 'b': 'bool'},
      lambda e: cats(I(e.i), string([e.c]), I(e.j), string([e.d]), snum(e.l, 0, 9), string([e.c]), boolean(e.b == 1), string(e.s), string([e.d])), lambda e: z3.And(R(e.i, -3, 3), R(e.j, 0, 3), R(e.l, 0, 9), e.s[-1] == 0, e.c != 0, e.d != 0), [S(3)])
g.add('ceight', fmt('"%c%c%c%c%c%c%c%c"', *'cdcdccdd'), {'c': 'char', 'd': 'char'}, lambda e: string([e[x] for x in 'cdcdccdd']), lambda e: z3.And(e.c != 0, e.d != 0))
g.add('grow', fmt('"%s-%s-%s-%s"', 'sp', '"0123456789"', 'sp', '"x"'), {}, lambda e: cats(string(e.s), lit('-0123456789-'), string(e.s), lit('-x')), E('s'), [S(5)])
g.done()
# ------------------------------------------------------------------ the format itself is unknown
AL = '%cbiz'
def expected(f, e):
    out = lit(''); k = 0; a = [e.i, e.j, e.i, e.j]; p = 0
    while p < len(f):
        if f[p] != '%': out = cat(out, lit(f[p])); p += 1; continue
        p += 1
        if p == len(f): return None
        ch = f[p]; p += 1
        if ch == '%': out = cat(out, lit('%')); continue
        if ch == 'z': out = cat(out, lit('%z')); continue
        v = a[k]; k += 1
        out = cat(out, string([z3.Extract(7, 0, v)]) if ch == 'c' else boolean(z3.Extract(7, 0, v) != 0) if ch == 'b' else ([z3.Extract(7, 0, v) + 48], b64(1)))
    return out
for part, x in enumerate(AL):
    g = G('format%d' % part)
    for y in AL:
        for n in (2, 3, 4) if THOROUGH else (4,):
            tails = [''.join(t) for t in itertools.product(AL, repeat=n - 2)]
            tails = [t for t in tails if (t + x + y) and expected(x + y + t, type('X', (), {'i': z3.BitVec('i', 32), 'j': z3.BitVec('j', 32)})) is not None]
            if not tails: continue
            def pre(e, x=x, y=y, tails=tails, n=n):
                return z3.And(e.f[0] == ord(x), e.f[1] == ord(y), z3.Or(*[z3.And(*[e.f[2 + k] == ord(c) for k, c in enumerate(t)]) for t in tails]), e.f[n] == 0, z3.Or(e.i == 1, e.i == 7), z3.Or(e.j == 1, e.j == 0))
            def text(e, x=x, y=y, tails=tails):
                r = None
                for t in tails:
                    v = expected(x + y + t, e); m = z3.And(*[e.f[2 + k] == ord(c) for k, c in enumerate(t)])
                    r = v if r is None else ite(m, v, r)
                return r
            # (a %c of j == 0 ends the text for strcpy: j is 1 then)
            def pre2(e, pre=pre): return z3.And(pre(e), z3.Or(e.j == 1, z3.And(*[z3.Or(e.f[k] != 37, e.f[k + 1] != 99) for k in range(3)])))
            g.add('%s%s%d' % (x, y, n), fmt('fp', 'i', 'j', 'i', 'j'), {'i': 'i32', 'j': 'i32'}, text, pre2, [Buf('f', n + 1, ptr='fp', w=False)])
    g.done()
# ------------------------------------------------------------------ points in time
g = G('time')
TM = 'let t: std::Time; t.ts.tv_sec = l; t.year = i; t.month = (j: u8); t.day = (w: u8); t.hour = (u: u8); t.minute = (c: u8); t.second = (d: u8); '
def two(v): return ite(z3.ULT(v, 10), cat(lit('0'), num(v, 10, 10)), num(v, 10, 100))
Z = lambda v: z3.ZeroExt(64 - v.size(), v) if v.size() < 64 else v
TI = {'l': 'i64', 'i': 'i32', 'j': 'i32', 'w': 'u64', 'u': 'u32', 'c': 'char', 'd': 'char'}
tpre = lambda e: z3.And(e.l == 77, e.i == 2024, e.j == 5, e.w == 11, e.u == 3, e.c == 9, e.d == 14)
def only(**kw):
    base = {'l': 77, 'i': 2024, 'j': 5, 'w': 11, 'u': 3, 'c': 9, 'd': 14}
    return lambda e: z3.And(*[UR(e[k], *kw[k]) if k in kw else e[k] == v for k, v in base.items()])
tf = lambda f: TM + 'let s = std::fmt::time("%s", t); std::c_str::strcpy(dp, s);' % f
g.add('date', tf('%Y-%M-%D'), TI, lambda e: cats(num(Z(e.i), 10, 10000), lit('-'), two(Z(e.j)), lit('-'), two(e.w)), only(i=(1995, 2030), j=(1, 12)))
g.add('day', tf('%D.'), TI, lambda e: cats(two(e.w), lit('.')), only(w=(1, 31)))
g.add('clock', tf('%h:%m'), TI, lambda e: cats(two(Z(e.u)), lit(':'), two(Z(e.c))), only(u=(0, 23), c=(0, 59)))
g.add('second', tf('[%s]%s'), TI, lambda e: cats(lit('['), two(Z(e.d)), lit(']'), two(Z(e.d))), only(d=(0, 59)))
g.add('percent', tf('%%%M%%%q%%'), TI, lambda e: cats(lit('%'), two(Z(e.j)), lit('%%')), only(j=(1, 12)))
g.add('unix', tf('%u'), TI, lambda e: snum(e.l, 0, 1999), only(l=(0, 1999)))
for lo, hi in ((0, 120), (990, 1010), (1990, 2110), (9990, 10010), (65500, 65535)): g.add('year:%d' % lo, tf('%Y'), TI, lambda e, lo=lo, hi=hi: num(Z(e.i), 10, hi, lo), only(i=(lo, hi)))
g.done()
# ------------------------------------------------------------------ output
class W:
    def __init__(self): self.g = G('print')
    def add(self, key, body, ins, fd, text, pre=None, bufs=(), n=0):
        g = self.g; fn = 'f%d' % len(g.cases)
        g.src.append('fn %s() { %s }' % (fn, body))
        def post(e, o):
            CONS.clear()
            B, n = text(e)
            got = []; fds = []
            for t in o.trace:
                if t[0] == 'sys' and t[1] == 1: t = ('write', t[2][0], t[3])
                if t[0] != 'write': continue
                fds.append(z3.Extract(31, 0, bv(t[1], 64)) == fd); got += [bv(x, 8) for x in t[2]]
            if len(got) > len(B): return [('length', z3.BoolVal(False))]
            return [('stream', z3.And(*fds)), ('length', z3.Implies(z3.And(*CONS), n == len(got)))] + [('byte %d' % k, z3.Implies(z3.And(*CONS), B[k] == x)) for k, x in enumerate(got)]
        g.cases.append(Case('print:' + key, fn, ins, {}, post, pre, bufs=bufs, opts={'fork_mem': 32, 'lin_div': True}, desc=body, timeout=20000, script=[Sys(1, 1)] * n or None))
w = W()
w.add('printf', 'std::io::printf("%s=%i;", sp, i);', {'i': 'i32'}, 1, lambda e: cats(string(e.s), lit('='), I(e.i), lit(';')), lambda e: z3.And(R(e.i, -12, 12), e.s[-1] == 0), [S(4)])
w.add('fprintf', 'std::io::fprintf(1, "%c%s", c, sp);', {'c': 'char'}, 1, lambda e: cats(([e.c], b64(1)), string(e.s)), lambda e: z3.And(e.c != 0, e.s[-1] == 0), [S(4)])
w.add('puts', 'std::io::puts(sp);', {}, 1, lambda e: cats(string(e.s), lit('\n')), E('s'), [S(5)])
w.add('putc', 'std::io::putc(c);', {'c': 'char'}, 1, lambda e: ([e.c], b64(1)))
w.add('int', 'std::io::write_int(1, l);', {'l': 'i64'}, 1, lambda e: snum(e.l, -300, 300), lambda e: R(e.l, -300, 300))
w.add('newline', 'std::io::putc(c); std::io::newline();', {'c': 'char'}, 1, lambda e: ([e.c, V8(10)], b64(2)))
w.add('eprintf', 'std::io::eprintf("%s=%i;", sp, i);', {'i': 'i32'}, 2, lambda e: cats(string(e.s), lit('='), I(e.i), lit(';')), lambda e: z3.And(R(e.i, -12, 12), e.s[-1] == 0), [S(4)], n=1)
w.add('eputs', 'std::io::eputs(sp);', {}, 2, lambda e: cats(string(e.s), lit('\n')), E('s'), [S(5)], n=2)
w.add('eputc', 'std::io::eputc(c);', {'c': 'char'}, 2, lambda e: ([e.c], b64(1)), n=1)
w.add('fd', 'std::io::fprintf(i, "%c%s", c, sp);', {'c': 'char', 'i': 'i32'}, 7, lambda e: cats(([e.c], b64(1)), string(e.s)), lambda e: z3.And(e.c != 0, e.s[-1] == 0, e.i == 7), [S(4)], n=1)
w.g.done()

def main():
    R_ = Report(PID, 'other')
    R_.run_units(UNITS)
    R_.finish()
if __name__ == '__main__' or True: main()
