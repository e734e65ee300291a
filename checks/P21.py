"""P21: std::memory: allocation, copying, comparing and filling."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from vlib.core import *
from vlib import zs
from vlib.zs import b64, same
PID = 'P21'
M = 'std::memory::'
SRC = ['import "std.csp";', 'let sp: &u8;', 'let dp: &u8;', 'let n: u64;', 'let m: u64;', 'let k: u64;', 'let c: i32;', 'let r: i32;', 'let b: bool;',
       'let x1: u64;', 'let x2: u64;', 'let x3: u64;', 'let y1: u8;', 'let y2: u8;', 'let y3: u8;', 'let y4: u8;', 'let z: u64;', 'let aligned: bool;', 'let disjoint: bool;']
CASES = []
def add(key, body, post, bufs=(), ins=None, outs=None, pre=None, opts=None, timeout=None):
    fn = 'f%d' % len(CASES)
    SRC.append('fn %s() { %s }' % (fn, body))
    CASES.append(Case(key, fn, ins, outs, post, pre, bufs=bufs, opts=dict({'fork_mem': 16}, **(opts or {})), desc=body, timeout=timeout or 20000))
N = 6 if not THOROUGH else 10
S = lambda w=False, k=N: Buf('s', k, ptr='sp', w=w)
D = lambda k=N: Buf('d', k, ptr='dp')
upto = lambda e: z3.ULE(e.n, N)
def first(e, o, dst, f, k=N):
    return z3.And(*[o[dst][i] == z3.If(z3.UGT(e.n, i), f(i), e[dst][i]) for i in range(k)])
add('copy', 'r = %scopy(dp, sp, n);' % M, lambda e, o: [('bytes', first(e, o, 'd', lambda i: e.s[i])), ('source', same(e.s, o.s)), ('result', o.r == 0)], [S(), D()], {'n': 'u64'}, {'r': 'i32'}, upto)
add('move', 'z = (%smove(dp, sp, n): u64);' % M, lambda e, o: [('bytes', first(e, o, 'd', lambda i: e.s[i])), ('source', same(e.s, o.s)), ('result', o.z == e.dp)], [S(), D()], {'n': 'u64'}, {'z': 'u64'}, upto)
# overlapping moves inside of one object: any distance, any length
def ovl(e, o):
    r = []
    for i in range(N):
        src = zs.sel(e.s, e.m + (b64(i) - e.k))
        r.append(o.s[i] == z3.If(z3.And(z3.UGE(b64(i), e.k), z3.ULT(b64(i), e.k + e.n)), src, e.s[i]))
    return [('bytes', z3.And(*r))]
small = lambda e: z3.And(z3.ULE(e.n, N), z3.ULE(e.m, N), z3.ULE(e.k, N), z3.ULE(e.m + e.n, N), z3.ULE(e.k + e.n, N))
add('move:overlap', '%smove(&sp[k], &sp[m], n);' % M, ovl, [S(True)], {'n': 'u64', 'm': 'u64', 'k': 'u64'}, None, small)
def refuse(e, o):
    over = z3.And(z3.ULT(e.k, e.m + e.n), z3.ULT(e.m, e.k + e.n))
    r = []
    for i in range(N):
        src = zs.sel(e.s, e.m + (b64(i) - e.k))
        r.append(o.s[i] == z3.If(z3.And(z3.Not(over), z3.UGE(b64(i), e.k), z3.ULT(b64(i), e.k + e.n)), src, e.s[i]))
    return [('result', (o.r == 0) == z3.Not(over)), ('bytes', z3.And(*r))]
add('copy:overlap', 'r = %scopy(&sp[k], &sp[m], n);' % M, refuse, [S(True)], {'n': 'u64', 'm': 'u64', 'k': 'u64'}, {'r': 'i32'}, lambda e: z3.And(small(e), e.n != 0))
add('eq', 'b = %seq(sp, dp, n);' % M, lambda e, o: [('result', (o.b != 0) == z3.And(*[z3.Or(z3.ULE(e.n, i), e.s[i] == e.d[i]) for i in range(N)]))], [S(), Buf('d', N, ptr='dp', w=False)], {'n': 'u64'}, {'b': 'bool'}, upto)
add('set', '%sset(dp, c, n);' % M, lambda e, o: [('bytes', first(e, o, 'd', lambda i: z3.Extract(7, 0, e.c)))], [D()], {'n': 'u64', 'c': 'i32'}, None, upto)
add('zero', '%szero(dp, n);' % M, lambda e, o: [('bytes', first(e, o, 'd', lambda i: z3.BitVecVal(0, 8)))], [D()], {'n': 'u64'}, None, upto)
add('is_zero', 'b = %sis_zero(sp, n);' % M, lambda e, o: [('result', (o.b != 0) == z3.And(*[z3.Or(z3.ULE(e.n, i), e.s[i] == 0) for i in range(N)]))], [S()], {'n': 'u64'}, {'b': 'bool'}, upto)
add('ptr_overlap', 'b = %sptr_overlap((x1: &void), (x2: &void), n);' % M,
    lambda e, o: [('result', (o.b != 0) == z3.And(e.n != 0, z3.ULT(e.x1, e.x2 + e.n), z3.ULT(e.x2, e.x1 + e.n)))], (), {'x1': 'u64', 'x2': 'u64', 'n': 'u64'}, {'b': 'bool'},
    lambda e: z3.And(z3.ULE(e.n, 1 << 40), z3.ULE(e.x1, 1 << 47), z3.ULE(e.x2, 1 << 47)))
# --- allocation: sizes around the page size (the allocator maps pages), the first and the last byte are usable
EDGE = [(1, 9), (4084, 4092)] if not THOROUGH else [(1, 16), (4080, 4096), (8180, 8188)]
for lo, hi in EDGE:
    rng = lambda e, lo=lo, hi=hi: z3.And(z3.UGE(e.n, lo), z3.ULE(e.n, hi))
    add('alloc:%d' % lo, 'let p: &u8 = %salloc(n); let q: &u8 = %salloc(n); aligned = ((p: u64) & 7) == 0 && ((q: u64) & 7) == 0; disjoint = (p: u64) + n <= (q: u64) || (q: u64) + n <= (p: u64); p[0] = y1; p[n - 1] = y2; q[0] = y3; q[n - 1] = y4; y1 = p[0]; y2 = p[n - 1]; y3 = q[0]; y4 = q[n - 1]; %sfree(p); y3 = q[0]; %sfree(q);' % (M, M, M, M),
        lambda e, o: [('aligned', o.aligned != 0), ('disjoint', o.disjoint != 0), ('last byte', o.y2 == e.y2), ('last byte of the other', o.y4 == e.y4),
                      ('first byte', z3.Or(e.n == 1, o.y1 == e.y1)), ('first byte of the other', z3.Or(e.n == 1, o.y3 == e.y3)), ('released', released(o))],
        (), {'n': 'u64', 'y1': 'u8', 'y2': 'u8', 'y3': 'u8', 'y4': 'u8'}, {'aligned': 'bool', 'disjoint': 'bool', 'y1': 'u8', 'y2': 'u8', 'y3': 'u8', 'y4': 'u8'}, rng)
def released(o):
    """every mapping was unmapped with its whole length"""
    live = {}
    for t in o.trace:
        if t[0] == 'mmap': live[t[1]] = (t[2] + 4095) & ~4095
        elif t[0] == 'munmap':
            if live.get(t[1]) != (t[2] + 4095) & ~4095: return False
            del live[t[1]]
    return not live
def real(f): return f
add('calloc', 'let p: &u8 = %scalloc(n, m); b = (p == nil); if p != nil { y1 = p[0]; y2 = p[n * m - 1]; p[n * m - 1] = 1; }' % M,
    lambda e, o: [('zero', z3.And(o.b == 0, o.y1 == 0, o.y2 == 0))], (), {'n': 'u64', 'm': 'u64', 'y1': 'u8', 'y2': 'u8'}, {'y1': 'u8', 'y2': 'u8', 'b': 'bool'}, lambda e: z3.And(z3.UGE(e.n, 1), z3.ULE(e.n, 4), z3.UGE(e.m, 1), z3.ULE(e.m, 3)))
add('calloc:overflow', 'let p: &u8 = %scalloc(n, m); b = (p == nil);' % M,
    lambda e, o: [('refused', o.b != 0)], (), {'n': 'u64', 'm': 'u64'}, {'b': 'bool'},
    lambda e: z3.And(z3.Extract(127, 64, z3.ZeroExt(64, e.n) * z3.ZeroExt(64, e.m)) != 0, z3.Or(e.m == 8, e.m == 3, e.m == 0x100000001)), timeout=60000)
add('alloc:toobig', 'let p: &u8 = %salloc(n); b = (p == nil);' % M, lambda e, o: [('refused', o.b != 0)], (), {'n': 'u64'}, {'b': 'bool'}, lambda e: z3.UGT(e.n, 1 << 62))
add('alloc:nomem', 'let p: &u8 = %salloc(1u << 50); b = (p == nil);'.replace('1u << 50', '1125899906842624') % M, lambda e, o: [('refused', o.b != 0)], (), None, {'b': 'bool'})
add('free:nil', '%sfree(nil); r = 1;' % M, lambda e, o: [('ran', o.r == 1)], (), None, {'r': 'i32'})
for lo, hi, lo2, hi2 in [(1, 5, 1, 5), (1, 5, 4085, 4090), (4085, 4090, 1, 5), (1, 3, 8190, 8193)] + ([(4088, 4088, 4089, 4089)] if THOROUGH else []):
    if 1:
        add('realloc:%d:%d' % (lo, lo2), 'let p: &u8 = %salloc(n); let q: &u8 = %salloc(8); q[0] = y3; p[0] = y1; p[n - 1] = y2; let w: &u8 = %srealloc(p, m); w[m - 1] = 7; y4 = w[m - 1]; y1 = w[0]; if n < m y2 = w[n - 1]; y3 = q[0]; %sfree(w); %sfree(q);' % (M, M, M, M, M),
            lambda e, o: [('first byte', z3.Or(e.m == 1, o.y1 == z3.If(e.n == 1, e.y2, e.y1))), ('last old byte', z3.Or(z3.UGE(e.n, e.m), o.y2 == e.y2)), ('other block', o.y3 == e.y3), ('last byte', o.y4 == 7), ('released', released(o))],
            (), {'n': 'u64', 'm': 'u64', 'y1': 'u8', 'y2': 'u8', 'y3': 'u8'}, {'y1': 'u8', 'y2': 'u8', 'y3': 'u8', 'y4': 'u8'},
            lambda e, lo=lo, hi=hi, lo2=lo2, hi2=hi2: z3.And(z3.UGE(e.n, lo), z3.ULE(e.n, hi), z3.UGE(e.m, lo2), z3.ULE(e.m, hi2)))
add('realloc:nil', 'let p: &u8 = %srealloc(nil, n); p[0] = y1; p[n - 1] = y2; y2 = p[n - 1];' % M, lambda e, o: [('usable', o.y2 == e.y2)], (), {'n': 'u64', 'y1': 'u8', 'y2': 'u8'}, {'y2': 'u8'}, lambda e: z3.And(z3.UGE(e.n, 1), z3.ULE(e.n, 5)))
# --- arenas: blocks of one or several regions are aligned and disjoint, keep their contents, come back after reset, and are unmapped by free
AR = 'std::arena::'
IN4 = {'n': 'u64', 'm': 'u64', 'k': 'u64', 'y1': 'u8', 'y2': 'u8', 'y3': 'u8'}
for key, lo, hi in (('small', (1, 1, 1), (17, 9, 9)), ('full', (64761, 1, 1), (64768, 9, 2)), ('big', (64769, 1, 64768), (64776, 3, 64770)), ('late', (8, 64760, 16), (9, 64764, 17)), ('next', (40000, 40000, 40000), (40001, 40001, 40001))):
    chk = 'aligned = (((p: u64) | (q: u64) | (w: u64)) & 7) == 0; disjoint = ((p: u64) + n <= (q: u64) || (q: u64) + m <= (p: u64)) && ((p: u64) + n <= (w: u64) || (w: u64) + k <= (p: u64)) && ((q: u64) + m <= (w: u64) || (w: u64) + k <= (q: u64));'
    add('arena:' + key, 'let a: std::Arena = std::Arena::{std::ArenaBackend::MMAP, nil, nil}; let p: &u8 = %salloc(&a, n); let q: &u8 = %salloc(&a, m); let w: &u8 = %salloc(&a, k); ' % (AR, AR, AR) + chk +
        ' p[0] = 1; q[0] = 1; w[0] = 1; p[n - 1] = y1; q[m - 1] = y2; w[k - 1] = y3; y1 = p[n - 1]; y2 = q[m - 1]; y3 = w[k - 1]; %sreset(&a); let p2: &u8 = %salloc(&a, n); b = p2 == p; let q2: &u8 = %salloc(&a, m); let w2: &u8 = %salloc(&a, k); x1 = (q: u64) - (q2: u64); x2 = (w: u64) - (w2: u64); w2[k - 1] = y3; y4 = w2[k - 1]; %sfree(&a); c = if a.begin == nil && a.end == nil => 1 else 0;' % ((AR,) * 5),
        lambda e, o: [('aligned', o.aligned != 0), ('disjoint', o.disjoint != 0), ('last bytes', z3.And(o.y1 == e.y1, o.y2 == e.y2, o.y3 == e.y3)), ('first again after reset', o.b != 0), ('the same blocks', z3.And(o.x1 == 0, o.x2 == 0)),
                      ('after reset', o.y4 == e.y3), ('released', released(o)), ('empty', o.c == 1)],
        (), IN4, {'aligned': 'bool', 'disjoint': 'bool', 'b': 'bool', 'y1': 'u8', 'y2': 'u8', 'y3': 'u8', 'y4': 'u8', 'x1': 'u64', 'x2': 'u64', 'c': 'i32'},
        lambda e, lo=lo, hi=hi: z3.And(*[z3.And(z3.UGE(v, a), z3.ULE(v, b)) for v, a, b in zip((e.n, e.m, e.k), lo, hi)]), opts={'fork_mem': 64})
def main():
    r = Report(PID, 'model_checking')
    r.run_units([Unit('memory', '\n'.join(SRC) + '\nfn main(): i32 { ' + ' '.join(c.fn + '();' for c in CASES) + ' <- 0; }\n', CASES)])
    r.finish()
if __name__ == '__main__': main()
