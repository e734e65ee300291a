"""P26: dates, delays, random sequences and UUIDs of the standard library."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from vlib.core import *
from vlib import zs
from vlib.zs import b64
PID = 'P26'
UNITS = []
class G:
    def __init__(self, name): self.name = name; self.src = ['import "std.csp";']; self.cases = []
    def add(self, key, body, ins, outs, post, pre=None, bufs=(), opts=None, timeout=20000, script=None):
        fn = 'f%d' % len(self.cases)
        self.src.append('fn %s() { %s }' % (fn, body))
        self.cases.append(Case(self.name + ':' + key, fn, ins, outs, post, pre, bufs=bufs, opts=dict({'fork_mem': 32}, **(opts or {})), desc=body, timeout=timeout, script=script))
    def done(self):
        UNITS.append(Unit(self.name, '\n'.join(self.src) + '\nfn main(): i32 { ' + ' '.join(c.fn + '();' for c in self.cases) + ' <- 0; }\n', self.cases))
le = lambda bs: z3.Concat(*reversed(bs))
# ---------------------------------------------------------------- calendar
def civil_days(y, m, d):
    """days from 1970-01-01 to the Gregorian date (32 bit terms, year after 0)"""
    import itertools
    y1 = y - 1
    leap = lambda q: z3.And(z3.URem(q, 4) == 0, z3.Or(z3.URem(q, 100) != 0, z3.URem(q, 400) == 0))
    before = z3.BitVecVal(0, 32)
    cum = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
    for k in range(12): before = z3.If(m == k + 1, z3.BitVecVal(cum[k], 32), before)
    return y1 * 365 + z3.UDiv(y1, 4) - z3.UDiv(y1, 100) + z3.UDiv(y1, 400) - 719162 + before + z3.If(z3.And(m > 2, leap(y)), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)) + d - 1
def mlen(y, m):
    leap = z3.And(z3.URem(y, 4) == 0, z3.Or(z3.URem(y, 100) != 0, z3.URem(y, 400) == 0))
    return z3.If(m == 2, z3.If(leap, z3.BitVecVal(29, 32), z3.BitVecVal(28, 32)), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), z3.BitVecVal(30, 32), z3.BitVecVal(31, 32)))
g = G('time')
g.src += ['let year: i32; let month: i32; let day: i32; let hour: i32; let minute: i32; let second: i32; let sec: i64; let usec: i64; let ms: i64; let r: i32;']
z32 = {k: 'i32' for k in ('year', 'month', 'day', 'hour', 'minute', 'second')}
OUT = dict(z32, sec='i64', usec='i64')
GET = 'let t = std::time::get(); year = t.year; month = t.month; day = t.day; hour = t.hour; minute = t.minute; second = t.second; sec = t.ts.tv_sec; usec = t.ts.tv_usec;'
def ts(e): return le(e.ts[:8]), le(e.ts[8:])
def getpost(e, o):
    s, ns = ts(e)
    lo = z3.Extract(63, 0, s)
    days = z3.Extract(31, 0, z3.UDiv(s, b64(86400))); rest = z3.Extract(31, 0, z3.URem(s, b64(86400)))
    return [('time of day', z3.And(o.hour * 3600 + o.minute * 60 + o.second == rest, o.minute >= 0, o.minute < 60, o.second >= 0, o.second < 60, o.hour < 24, o.hour >= 0)),
            ('month', z3.And(o.month >= 1, o.month <= 12)), ('day', z3.And(o.day >= 1, z3.ULE(o.day, mlen(o.year, o.month)))),
            ('date', civil_days(o.year, o.month, o.day) == days), ('seconds', o.sec == s), ('microseconds', o.usec == z3.UDiv(ns, b64(1000)))]
import datetime
def span(a, b): return int((datetime.datetime(*a) - datetime.datetime(1970, 1, 1)).total_seconds()), int((datetime.datetime(*b) - datetime.datetime(1970, 1, 1)).total_seconds())
W = [((1970, 1, 1), (1970, 1, 3)), ((1972, 2, 28), (1972, 3, 2)), ((1999, 12, 31), (2000, 1, 2)), ((2000, 2, 28), (2000, 3, 2)), ((2023, 2, 27), (2023, 3, 3)), ((2038, 1, 18), (2038, 1, 21)), ((2100, 2, 27), (2100, 3, 2))]
# whole days: every day of the span, at a fixed time of the day
def days_case(y0, y1):
    a, b = span((y0, 1, 1), (y1, 1, 1))
    n = (b - a) // 86400
    def pre(e):
        s, ns = ts(e)
        return z3.And(s == b64(a) + z3.ZeroExt(32, e.dayno) * 86400 + 43261, z3.ULT(e.dayno, n), ns == 999999999)
    return pre
YS = [(1972, 1973), (2000, 2001), (2025, 2026), (2100, 2101)] if not THOROUGH else [(y, y + 2) for y in range(1970, 2110, 2)]
for y0, y1 in YS:
    g.add('days:%d-%d' % (y0, y1), GET, {'ts': ('u8', 16), 'dayno': 'u32'}, OUT, getpost, days_case(y0, y1), script=[Sys(228, 0, (1, 'ts', False))], timeout=60000)
for a, b in W:
    lo, hi = span(a, b)
    g.add('get:%04d-%02d-%02d' % a, GET, {'ts': ('u8', 16)}, OUT, getpost, lambda e, lo=lo, hi=hi: z3.And(z3.ULE(lo, ts(e)[0]), z3.ULT(ts(e)[0], hi), z3.ULT(ts(e)[1], 10**9), z3.Extract(19, 0, ts(e)[1]) == 7), script=[Sys(228, 0, (1, 'ts', False))], timeout=60000)
# a kernel without clock_gettime: gettimeofday is used instead
g.add('fallback', 'let v = std::clock::get_time_of_day(); sec = v.tv_sec; usec = v.tv_usec;', {'ts': ('u8', 16)}, {'sec': 'i64', 'usec': 'i64'}, lambda e, o: [('sec', o.sec == ts(e)[0]), ('usec', o.usec == ts(e)[1])], lambda e: z3.ULT(ts(e)[1], 10**6), script=[Sys(228, -38), Sys(96, 0, (0, 'ts', False))])
g.add('secs', 'let v = std::time::unix::secs(); sec = v.tv_sec; usec = v.tv_usec;', {'now': 'i64'}, {'sec': 'i64', 'usec': 'i64'}, lambda e, o: [('sec', o.sec == e.now), ('usec', o.usec == 0)], lambda e: e.now > 0, script=[Sys(201, 'now')])
g.done()
# ---------------------------------------------------------------- random numbers
g = G('random')
g.src += ['let seed: u32; let x: u32; let y: u64; let r: u32; let q: u64; ' + ' '.join('let v%d: i64; let w%d: i64;' % (i, i) for i in range(6)), 'let st: &u32; let n: u64; let old: &u32; let same: bool;']
g.add('lcg32', 'r = std::random::lcg32(x);', {'x': 'u32'}, {'r': 'u32'}, lambda e, o: o.r == (e.x * 1103515245 + 12345) & 0x7fffffff)
g.add('lcg64', 'q = std::random::lcg64(y);', {'y': 'u64'}, {'q': 'u64'}, lambda e, o: o.q == e.y * 6364136223846793005 + 1)
def seq(seed, n, k, sep):
    """the first k numbers after seed(seed) of the additive generator of degree n"""
    if n == 0:
        out = []; s = seed
        for _ in range(k): s = (s * 1103515245 + 12345) & 0x7fffffff; out.append(z3.ZeroExt(32, s))
        return out
    s = z3.ZeroExt(32, seed); x = []
    for _ in range(n): s = s * 6364136223846793005 + 1; x.append(z3.Extract(63, 32, s))
    x[0] = x[0] | 1
    i, j, out = sep, 0, []
    for _ in range(k):
        x[i] = x[i] + x[j]; out.append(z3.ZeroExt(32, z3.LShR(x[i], 1))); i = (i + 1) % n; j = (j + 1) % n
    return out
K = 6
VS = {'v%d' % i: 'i64' for i in range(K)}
g.add('seed', 'std::random::seed(seed); ' + ' '.join('v%d = std::random::rand();' % i for i in range(K)), {'seed': 'u32'}, VS, lambda e, o: [('number %d' % (i + 1), o['v%d' % i] == t) for i, t in enumerate(seq(e.seed, 31, K, 3))])
g.add('range', 'std::random::seed(seed); ' + ' '.join('v%d = std::random::rand();' % i for i in range(K)), {'seed': 'u32'}, VS, lambda e, o: [('number %d' % (i + 1), z3.And(o['v%d' % i] >= 0, o['v%d' % i] < 2**31)) for i in range(K)])
g.add('wrap', 'std::random::seed(seed); for 0..30 std::random::rand(); ' + ' '.join('v%d = std::random::rand();' % i for i in range(4)), {'seed': 'u32'}, {'v%d' % i: 'i64' for i in range(4)}, lambda e, o: [('number %d' % (i + 31), o['v%d' % i] == t) for i, t in enumerate(seq(e.seed, 31, 34, 3)[30:])])
for size, deg, sep in ((8, 0, 0), (31, 0, 0), (32, 7, 3), (63, 7, 3), (64, 15, 1), (128, 31, 3)):
    g.add('init:%d' % size, 'std::random::init_state(seed, st, %d); ' % size + ' '.join('v%d = std::random::rand();' % i for i in range(4)), {'seed': 'u32'}, {'v%d' % i: 'i64' for i in range(4)},
          lambda e, o, deg=deg, sep=sep: [('number %d' % (i + 1), o['v%d' % i] == t) for i, t in enumerate(seq(e.seed, deg, 4, sep))], None, [Buf('sb', size & ~3, ptr='st')])
g.add('init:small', 'old = std::random::init_state(seed, st, 7); same = old == nil;', {'seed': 'u32'}, {'same': 'bool'}, lambda e, o: [('refused', o.same != 0)] + [('state untouched', o.sb[i] == e.sb[i]) for i in range(4)], None, [Buf('sb', 4, ptr='st')])
# switching between two states resumes each of them
g.add('resume', 'std::random::seed(seed); v0 = std::random::rand(); old = std::random::init_state(x, st, 32); w0 = std::random::rand(); w1 = std::random::rand(); let mine = std::random::set_state(old); v1 = std::random::rand(); v2 = std::random::rand(); std::random::set_state(mine); w2 = std::random::rand();',
      {'seed': 'u32', 'x': 'u32'}, {n: 'i64' for n in ('v0', 'v1', 'v2', 'w0', 'w1', 'w2')},
      lambda e, o: [('first sequence', z3.And(*[o['v%d' % i] == t for i, t in enumerate(seq(e.seed, 31, 3, 3))])), ('second sequence', z3.And(*[o['w%d' % i] == t for i, t in enumerate(seq(e.x, 7, 3, 3))]))], None, [Buf('sb', 32, ptr='st')])
# ... at any position of the state
for size, deg, sep, adv in ((64, 15, 1, 7), (64, 15, 1, 14), (128, 31, 3, 17), (128, 31, 3, 30), (32, 7, 3, 5)):
    g.add('resume:%d:%d' % (deg, adv), 'old = std::random::init_state(x, st, %d); for 0..%d std::random::rand(); let mine = std::random::set_state(old); std::random::rand(); std::random::set_state(mine); %s std::random::set_state(old);' % (size, adv, ' '.join('v%d = std::random::rand();' % i for i in range(4))),
          {'x': 'u32'}, {'v%d' % i: 'i64' for i in range(4)}, lambda e, o, deg=deg, sep=sep, adv=adv: [('number %d' % (adv + i + 1), o['v%d' % i] == t) for i, t in enumerate(seq(e.x, deg, adv + 4, sep)[adv:])], None, [Buf('sb', size, ptr='st')])
g.done()
# ---------------------------------------------------------------- UUIDs
g = G('uuid'); NF = {'fork_mem': 0}
g.src += ['let up: &std::Uuid; let tp: &char; let same: bool; let vp: &std::Uuid; let seed: u32;']
HDR = [16, 0, 0, 0, 0, 0, 0, 0]
def U(n, ptr, sym=True): return Buf(n, 24, ptr=ptr, init=HDR + [None] * 16)
hexd = lambda v: z3.If(z3.ULE(v, 9), v + 48, v + 87)
def text(u):
    out = []
    for i, b in enumerate(u):
        if i in (4, 6, 8, 10): out.append(z3.BitVecVal(45, 8))
        out += [hexd(z3.LShR(b, 4)), hexd(b & 15)]
    return out
def same(a, b): return z3.And(*[x == y for x, y in zip(a, b)])
g.add('serialize', 'std::uuid::serialize(up, tp);', {}, {}, lambda e, o: [('text', same(o.t[:36], text(e.u[8:]))), ('rest', o.t[36] == e.t[36])], None, [U('u', 'up'), Buf('t', 37, ptr='tp')], opts=NF)
nib = lambda c: z3.If(z3.ULE(c, 57), c - 48, z3.If(z3.ULE(c, 70), c - 55, c - 87))
def valid(e, upper):
    c = []
    for i in range(36):
        ch = e.t[i]
        if i in (8, 13, 18, 23): c.append(ch == 45)
        else:
            if i not in upper: c.append(ch == b'0123456789abcdef'[i * 7 % 16]); continue
            a = z3.And(z3.UGE(ch, 48), z3.ULE(ch, 57)); b = z3.And(z3.UGE(ch, 97), z3.ULE(ch, 102))
            c.append(z3.Or(a, b))
    return z3.And(*c)
for part in ((0,), (7,), (9,), (35,)) if not THOROUGH else [(i, i + 1 + (i in (7, 12, 17, 22))) for i in range(35) if i not in (8, 13, 18, 23)]:
    g.add('parse:%d' % part[0], 'std::uuid::parse(tp, vp);', {}, {}, lambda e, o: [('value', same(o.v[8:], [nib(a) << 4 | nib(b) for a, b in zip(*[iter([c for i, c in enumerate(e.t[:36]) if i not in (8, 13, 18, 23)])] * 2)]))], lambda e, part=part: z3.And(valid(e, part), e.t[36] == 0), [Buf('t', 37, ptr='tp', w=False), U('v', 'vp')])
g.add('copy', 'std::uuid::copy(up, vp);', {}, {}, lambda e, o: [('value', same(o.v, e.u))], None, [U('u', 'up'), U('v', 'vp')])
def genpost(e, o):
    ns = le(e.ts[8:]); s = z3.Extract(31, 0, z3.UDiv(ns, b64(1000)))
    r = seq(s, 31, 4, 3); return [('bytes', same(o.v[8:], [z3.Extract(8 * j + 7, 8 * j, x) for x in r for j in range(4)]))]
g.add('generate', 'std::uuid::generate(vp);', {'ts': ('u8', 16)}, {}, genpost, lambda e: z3.And(z3.ULT(le(e.ts[8:]), 10**9), le(e.ts[:8]) == 1700000000, z3.Extract(15, 0, le(e.ts[8:])) == 0), [U('v', 'vp')], script=[Sys(228, 0, (1, 'ts', False))], timeout=60000)
g.done()
# ---------------------------------------------------------------- delay
UNITS.append(Unit('delay', 'import "std.csp"; let ms: i64; fn f() { std::timer::delay(ms); } fn main(): i32 { f(); <- 0; }', [
    Case('delay:request', 'f', {'ms': 'i64'}, {}, lambda e, o: [('one sleep', len(o.trace) == 1)] + ([('request', z3.And(bv(o.trace[0][3][0], 64) * 1000 + z3.UDiv(bv(o.trace[0][3][1], 64), b64(1000000)) == e.ms, z3.URem(bv(o.trace[0][3][1], 64), b64(1000000)) == 0, z3.ULT(bv(o.trace[0][3][1], 64), 10**9)))] if len(o.trace) == 1 else []),
         lambda e: z3.And(e.ms >= 0, e.ms < 100000), script=[Sys(35, 0, read=(0, 16))], timeout=60000)]))
def main():
    r = Report(PID, 'model_checking')
    r.run_units(UNITS); r.finish()
if __name__ == '__main__': main()
