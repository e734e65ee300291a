"""P20: the C string functions of std::c_str against the meaning string.h gives them."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from vlib.core import *
from vlib import zs
from vlib.zs import b64, strlen, same, unchanged
PID = 'P20'
SRC = ['import "std.csp";', 'let sp: &char;', 'let tp: &char;', 'let dp: &char;', 'let n: u64;', 'let c: i32;', 'let r: u64;', 'let q: &char;',
       'let v: i32;', 'let w: i64;', 'let w1: u64;', 'let w2: u64;', 'let b: bool;']
CASES = []
SYS = sysmodel()
def add(key, body, post, bufs=(), ins=(), outs=(('r', 'u64'),), pre=None, opts=None, name=None, fixed=None, extra=''):
    fn = 'f%d' % len(CASES)
    if extra: SRC.append(extra)
    SRC.append('fn %s() { %s }' % (fn, body))
    strs = [x for x in bufs if x.name in 'st']
    def pre2(e, pre=pre, strs=strs):
        l = [e[x.name][-1] == 0 for x in strs if x.init is None]
        if pre: l.append(pre(e))
        return z3.And(*l) if l else z3.BoolVal(True)
    CASES.append(Case(key, fn, dict(ins), dict(outs), post, pre2, bufs=bufs, opts=dict({'fork_mem': 16}, **(opts or {})), desc=body, timeout=20000, fixed=fixed))
NS = 5 if not THOROUGH else 8
NT = 3 if not THOROUGH else 4
def S(k=NS, w=False, off=0): return Buf('s', k, ptr='sp', w=w, off=off)
def T(k=NT, w=False): return Buf('t', k, ptr='tp', w=w)
def D(k): return Buf('d', k, ptr='dp')
C = 'std::c_str::'

add('strlen', 'r = %sstrlen(sp);' % C, lambda e, o: [('length', o.r == strlen(e.s))], [S(10)])
add('strnlen', 'r = %sstrnlen(sp, n);' % C, lambda e, o: [('length', o.r == zs.minu(strlen(e.s), e.n))], [S(8)], {'n': 'u64'}.items())
# no byte behind the n-th is read
add('strnlen:unterminated', 'r = %sstrnlen(sp, n);' % C, lambda e, o: [('length', o.r == zs.minu(strlen(e.s), e.n))],
    [Buf('s', 4, ptr='sp', w=False, init=None)], {'n': 'u64'}.items(), pre=None)
CASES[-1].pre = lambda e: z3.ULE(e.n, 4)
def copied(e, o, src, dst, dn, off=0):
    """dst holds src with its NUL; the bytes behind are unchanged"""
    l = strlen(src)
    return z3.And(*[o[dst][i] == z3.If(z3.ULE(b64(i), l), src[i] if i < len(src) else z3.BitVecVal(0, 8), e[dst][i]) for i in range(dn)])
for f in ('copy', 'strcpy'):
    add(f, '%s%s(dp, sp);' % (C, f), lambda e, o: [('copy', copied(e, o, e.s, 'd', NS + 2))] + unchanged(e, o, 's'), [S(), D(NS + 2)], outs=())
    add(f + ':exact', '%s%s(dp, sp);' % (C, f), lambda e, o: [('copy', copied(e, o, e.s, 'd', NS))], [S(), D(NS)], outs=())
def ncopied(e, o):
    l = strlen(e.s)
    return z3.And(*[o.d[i] == z3.If(z3.UGE(b64(i), e.n), e.d[i], z3.If(z3.ULT(b64(i), l), e.s[i] if i < len(e.s) else z3.BitVecVal(0, 8), z3.BitVecVal(0, 8))) for i in range(len(e.d))])
add('strncpy', 'r = (%sstrncpy(dp, sp, n): u64);' % C, lambda e, o: [('copy', ncopied(e, o)), ('dest returned', o.r == e.dp)], [S(), D(NS + 2)], {'n': 'u64'}.items(), pre=lambda e: z3.ULE(e.n, NS + 2))
def cat(e, o, lim=None):
    ld, ls = strlen(e.t), strlen(e.s)
    k = ls if lim is None else zs.minu(ls, lim)
    r = []
    for i in range(len(e.t)):
        x = e.t[i]
        x = z3.If(b64(i) == ld + k, z3.BitVecVal(0, 8), x)
        x = z3.If(z3.And(z3.UGE(b64(i), ld), z3.ULT(b64(i), ld + k)), zs.sel(e.s, b64(i) - ld), x)
        r.append(o.t[i] == x)
    return z3.And(*r)
for f, lim in (('strcat', None), ('strncat', 'n')):
    nn = ', n' if lim else ''
    add(f, 'r = (%s%s(tp, sp%s): u64);' % (C, f, nn), lambda e, o, lim=lim: [('appended', cat(e, o, e.n if lim else None)), ('dest returned', o.r == e.tp)],
        [Buf('s', 4, ptr='sp', w=False), Buf('t', 8, ptr='tp')], {'n': 'u64'}.items() if lim else (),
        pre=lambda e, lim=lim: z3.And(z3.ULE(strlen(e.t) + (zs.minu(strlen(e.s), e.n) if lim else strlen(e.s)), 7), z3.ULE(e.n, 6) if lim else True))
add('strcmp', 'v = %sstrcmp(sp, tp);' % C, lambda e, o: [('sign', zs.sgn(o.v) == zs.cmp(e.s, e.t))], [S(), T(NS)], outs={'v': 'i32'}.items())
add('strcmp:prefix', 'v = %sstrcmp(sp, tp);' % C, lambda e, o: [('sign', zs.sgn(o.v) == zs.cmp(e.s, e.t))], [S(), T(2)], outs={'v': 'i32'}.items())
add('strncmp', 'v = %sstrncmp(sp, tp, n);' % C, lambda e, o: [('sign', zs.sgn(o.v) == zs.cmp(e.s, e.t, e.n))], [S(), T(NS)], {'n': 'u64'}.items(), {'v': 'i32'}.items())
add('strncmp:unterminated', 'v = %sstrncmp(sp, tp, n);' % C, lambda e, o: [('sign', zs.sgn(o.v) == zs.cmp(e.s, e.t, e.n))], [S(3), T(3)], {'n': 'u64'}.items(), {'v': 'i32'}.items())
CASES[-1].pre = lambda e: z3.ULE(e.n, 3)
add('strstr', 'r = (%sstrstr(sp, tp): u64);' % C, lambda e, o: [('position', o.r == zs.strstr(e.s, e.t, e.sp))], [S(5), T(3)])
add('strspn', 'r = %sstrspn(sp, tp);' % C, lambda e, o: [('length', o.r == zs.spn(e.s, e.t))], [S(4), T(3)])
add('strcspn', 'r = %sstrcspn(sp, tp);' % C, lambda e, o: [('length', o.r == zs.spn(e.s, e.t, False))], [S(4), T(3)])
add('strpbrk', 'r = (%sstrpbrk(sp, tp): u64);' % C, lambda e, o: [('position', o.r == z3.If(zs.spn(e.s, e.t, False) == strlen(e.s), b64(0), e.sp + zs.spn(e.s, e.t, False)))], [S(4), T(3)])
low = lambda e: z3.Extract(7, 0, e.c)
add('strchr', 'r = (%sstrchr(sp, c): u64);' % C, lambda e, o: [('position', o.r == zs.chr_(e.s, low(e), e.sp))], [S()], {'c': 'i32'}.items(), pre=lambda e: z3.And(e.c >= 0, e.c <= 255))
add('strrchr', 'r = (%sstrrchr(sp, c): u64);' % C, lambda e, o: [('position', o.r == zs.rchr(e.s, low(e), e.sp))], [S()], {'c': 'i32'}.items(), pre=lambda e: z3.And(e.c >= 0, e.c <= 255))
for off in range(8):
    for k in ((10, 17) if not THOROUGH else (8, 10, 16, 17, 25)):
        add('memchr:%d:%d' % (k, off), 'r = (%smemchr(sp, c, n): u64);' % C, lambda e, o: [('position', o.r == zs.memchr(e.s, low(e), e.n, e.sp))],
            [Buf('s', k, ptr='sp', w=False, off=off)], {'c': 'i32', 'n': 'u64'}.items(), pre=lambda e, k=k: z3.ULE(e.n, k))
        CASES[-1].pre = lambda e, k=k: z3.And(z3.ULE(e.n, k), e.c >= 0, e.c <= 255)
add('rawmemchr', 'r = (%srawmemchr(sp, c): u64);' % C, lambda e, o: [('position', o.r == zs.memchr(e.s, low(e), b64(len(e.s)), e.sp))],
    [Buf('s', 6, ptr='sp', w=False)], {'c': 'i32'}.items())
CASES[-1].pre = lambda e: z3.And(e.c >= 0, e.c <= 255, z3.Or(*[x == low(e) for x in e.s]))
def rev(e, o):
    l = strlen(e.s)
    return z3.And(*[o.s[i] == z3.If(z3.ULT(b64(i), l), zs.sel(e.s, l - 1 - i), e.s[i]) for i in range(len(e.s))])
add('reverse', 'r = (%sreverse(sp): u64);' % C, lambda e, o: [('reversed', rev(e, o)), ('string returned', o.r == e.sp)], [S(7, w=True)])
# tokenisers: the whole history of calls until nil
def sep_post(k):
    """strsep called k times: tokens as in BSD/glibc: a token ends at the first delimiter or at the NUL"""
    def post(e, o):
        out = []; pos = b64(0); live = z3.BoolVal(True); s = list(e.s); L = len(s)
        for j in range(k):
            # first index >= pos that is a delimiter or NUL
            end = b64(L)
            for i in reversed(range(L)):
                end = z3.If(z3.And(z3.UGE(b64(i), pos), z3.Or(s[i] == 0, zs.isin(s[i], e.t))), b64(i), end)
            out.append(('token %d' % (j + 1), o['r%d' % (j + 1)] == z3.If(live, e.sp + pos, b64(0))))
            isnul = zs.sel(e.s, end) == 0
            s = [z3.If(z3.And(live, end == i), z3.BitVecVal(0, 8), s[i]) for i in range(L)]
            pos = z3.If(live, end + 1, pos); live = z3.And(live, z3.Not(isnul))
        out.append(('text', same(o.s, s)))
        return out
    return post
def tok_post(k):
    def post(e, o):
        out = []; pos = b64(0); s = list(e.s); L = len(s)
        for j in range(k):
            # skip delimiters
            st = b64(L)
            for i in reversed(range(L)):
                st = z3.If(z3.And(z3.UGE(b64(i), pos), z3.Or(s[i] == 0, z3.Not(zs.isin(s[i], e.t)))), b64(i), st)
            none = zs.sel(s, st) == 0
            end = b64(L)
            for i in reversed(range(L)):
                end = z3.If(z3.And(z3.UGE(b64(i), st), z3.Or(s[i] == 0, zs.isin(s[i], e.t))), b64(i), end)
            out.append(('token %d' % (j + 1), o['r%d' % (j + 1)] == z3.If(none, b64(0), e.sp + st)))
            last = zs.sel(s, end) == 0
            s2 = [z3.If(z3.And(z3.Not(none), end == i), z3.BitVecVal(0, 8), s[i]) for i in range(L)]
            pos = z3.If(none, st, z3.If(last, end, end + 1)); s = s2
        out.append(('text', same(o.s, s)))
        return out
    return post
K = 3
SRC += ['let r%d: u64;' % (i + 1) for i in range(K + 1)]
R = {'r%d' % (i + 1): 'u64' for i in range(K)}
add('strsep', 'q = sp; ' + ' '.join('r%d = (%sstrsep(&q, tp): u64);' % (i + 1, C) for i in range(K)), sep_post(K), [S(4, w=True), T(3)], outs=R.items())
add('strtok', 'r1 = (%sstrtok(sp, tp): u64); ' % C + ' '.join('r%d = (%sstrtok(nil: &char, tp): u64);' % (i + 1, C) for i in range(1, K)), tok_post(K), [S(4, w=True), T(3)], outs=R.items())
add('from_bool', 'r = (%sfrom_bool(b, dp): u64);' % C, lambda e, o: [('text', z3.If(e.b != 0, same(o.d, [z3.BitVecVal(x, 8) for x in b'true\0'] + e.d[5:]), same(o.d, [z3.BitVecVal(x, 8) for x in b'false\0'])))],
    [D(6)], {'b': 'bool'}.items())

def main():
    r = Report(PID, 'model_checking')
    r.run_units([Unit('cstr', '\n'.join(SRC) + '\nfn main(): i32 { ' + ' '.join(c.fn + '();' for c in CASES) + ' <- 0; }\n', CASES)])
    r.finish()
if __name__ == '__main__': main()
