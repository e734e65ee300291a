"""P19: numbers to text and back."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from vlib.core import *
from vlib import zs
from vlib.zs import b64, strlen
PID = 'P19'
C = 'std::c_str::'
SRC = ['import "std.csp";', 'let sp: &char;', 'let dp: &char;', 'let x: i64;', 'let u: u64;', 'let y: i32;', 'let f: f32;', 'let g: f64;', 'let r: u64;']
CASES = []
def add(key, body, post, bufs=(), ins=None, outs=None, pre=None, opts=None, timeout=20000):
    fn = 'f%d' % len(CASES)
    SRC.append('fn %s() { %s }' % (fn, body))
    CASES.append(Case(key, fn, ins, outs, post, pre, bufs=bufs, opts=dict({'fork_mem': 32, 'lin_div': True}, **(opts or {})), desc=body, timeout=timeout))
D = lambda n=68: Buf('d', n, ptr='dp')
def digit(v): return z3.If(z3.ULE(v, 9), v + ord('0'), v - 10 + ord('a'))
def numeral(d, v, base, maxlen, neg=None, keep=None, minlen=1):
    """d is the numeral of the unsigned v with an optional minus sign, terminated; the bytes behind are as in `keep`"""
    w = v.size()
    q = [z3.simplify(v)]; dg = []; cons = []
    for i in range(maxlen):
        a, b, c = x86.ldiv(q[-1], base, w)
        dg.append(z3.Extract(7, 0, b)); q.append(a); cons += c
    n = b64(1)
    for i in range(1, maxlen): n = z3.If(q[i] != 0, b64(i + 1), n)
    off = z3.If(neg, b64(1), b64(0)) if neg is not None else b64(0)
    out = [('sign', z3.Implies(neg, d[0] == ord('-')))] if neg is not None else []

    for L in range(minlen, maxlen + 1):
        for s in ((0, 1) if neg is not None and not z3.is_true(neg) else (1,) if neg is not None else (0,)):
            c = z3.And(n == L, off == s) if minlen < maxlen else off == s
            out.append(('%d digits' % L, z3.Implies(c, z3.And(*([d[s + k] == digit(dg[L - 1 - k]) for k in range(L)] + [d[s + L] == 0] + ([d[j] == keep[j] for j in range(s + L + 1, len(d))] if keep else []))))))
    return [(n, z3.Implies(z3.And(*cons), c)) for n, c in out]
def window(e, lo, n): return z3.And(z3.UGE(e, lo), z3.ULE(e, lo + n))
B10 = [(0, 1200), (9990, 20), (99990, 20), (2**31 - 10, 20), (2**32 - 10, 20), (10**15 - 5, 10), (2**63 - 8, 16), (2**64 - 16, 15)]
for lo, n in B10:
    add('from_uint:10:%d' % lo, 'r = (%sfrom_uint(u, dp, 10): u64);' % C, lambda e, o, lo=lo, n=n: [('string returned', o.r == e.dp)] + numeral(o.d, e.u, 10, len(str(lo + n)), keep=e.d, minlen=len(str(lo))), [D(24)], {'u': 'u64'}, {'r': 'u64'}, lambda e, lo=lo, n=n: window(e.u, lo, n))
    if lo < 2**63:
        m = min(n, 2**63 - 1 - lo)
        add('from_int:10:%d' % lo, 'r = (%sfrom_int(x, dp, 10): u64);' % C, lambda e, o, lo=lo, m=m: [('string returned', o.r == e.dp)] + numeral(o.d, e.x, 10, len(str(lo + m)), keep=e.d, minlen=len(str(lo))), [D(24)], {'x': 'i64'}, {'r': 'u64'}, lambda e, lo=lo, m=m: window(e.x, lo, m))
    if 0 < lo <= 2**63:
        m = min(n, 2**63 - lo)
        add('from_int:10:-%d' % lo, '%sfrom_int(x, dp, 10);' % C, lambda e, o, lo=lo, m=m: numeral(o.d, -e.x, 10, len(str(lo + m)), neg=z3.BoolVal(True), keep=e.d, minlen=len(str(lo))), [D(24)], {'x': 'i64'}, None, lambda e, lo=lo, m=m: window(-e.x, lo, m))
add('from_int:10:small', '%sfrom_int(x, dp, 10);' % C, lambda e, o: numeral(o.d, -e.x, 10, 3, neg=z3.BoolVal(True), keep=e.d), [D(24)], {'x': 'i64'}, None, lambda e: z3.And(e.x < 0, e.x > -300))
for base, ml in ((8, 22), (2, 64)):
    add('from_uint:%d' % base, '%sfrom_uint(u, dp, %d);' % (C, base), lambda e, o, base=base, ml=ml: numeral(o.d, e.u, base, ml, keep=e.d if base != 2 else None), [D()], {'u': 'u64'}, None, None if base != 2 else lambda e: z3.ULT(e.u, 1 << 20))
    add('from_int:%d' % base, '%sfrom_int(x, dp, %d);' % (C, base), lambda e, o, base=base, ml=ml: numeral(o.d, e.x, base, ml), [D()], {'x': 'i64'}, None, None if base != 2 else lambda e: z3.ULT(e.x, 1 << 20))
for nm, mask, pat in (('low', 0xfffff, 0), ('high', 0x0f00f0000000f0f0, 0xa0b209d4e5f60708), ('top', 0xff00000000000f00, 0x00123456789ab0de)):
    add('from_uint:16:' + nm, '%sfrom_uint(u, dp, 16);' % C, lambda e, o: numeral(o.d, e.u, 16, 16, keep=e.d), [D()], {'u': 'u64'}, None, lambda e, mask=mask, pat=pat: e.u & ~mask == pat)
    add('from_int:16:' + nm, '%sfrom_int(x, dp, 16);' % C, lambda e, o: numeral(o.d, e.x, 16, 16, keep=e.d), [D()], {'x': 'i64'}, None, lambda e, mask=mask, pat=pat: e.x & ~mask == pat)
for base in (3, 7, 11, 36):
    add('from_uint:%d' % base, '%sfrom_uint(u, dp, %d);' % (C, base), lambda e, o, base=base: numeral(o.d, e.u, base, 7), [D(24)], {'u': 'u64'}, None, lambda e: z3.ULT(e.u, 400))
# ------------------------------------------------------------------ text to number
def isspace(c): return z3.Or(c == 32, z3.And(z3.UGE(c, 9), z3.ULE(c, 13)))
def isdigit(c): return z3.And(z3.UGE(c, 48), z3.ULE(c, 57))
def parse(s, w):
    """value of: spaces, optional sign, digits; anything else ends it"""
    v = z3.BitVecVal(0, w); neg = z3.BoolVal(False); st = b64(0)        # 0 spaces, 1 digits, 2 done
    for c in s:
        sp = z3.And(st == 0, isspace(c)); sg = z3.And(st == 0, z3.Or(c == 43, c == 45)); dg = z3.And(st != 2, isdigit(c))
        v = z3.If(dg, v * 10 + z3.ZeroExt(w - 8, c - 48), v); neg = z3.If(sg, c == 45, neg)
        st = z3.If(sp, b64(0), z3.If(z3.Or(sg, dg), b64(1), b64(2)))
    return z3.If(neg, -v, v)
for fn, t, w in (('to_i32', 'y', 32), ('to_i64', 'x', 64)):
    ty = 'i%d' % w
    add('%s:any' % fn, '%s = %s%s(sp);' % (t, C, fn), lambda e, o, t=t, w=w: [('value', o[t] == parse(e.s, w))], [Buf('s', (6 if w == 32 else 5) if not THOROUGH else 8, ptr='sp', w=False)], None, {t: ty}, lambda e: e.s[-1] == 0)
    for m in (2**(w - 1) - 1, -2**(w - 1), 10**(9 if w == 32 else 18)):
        txt = str(m).encode(); k = 2
        lim = b'%d' % (m % 100 if m > 0 else -m % 100)
        init = [x for x in txt[:-k]] + [None] * k + [0]
        def pre(e, m=m, k=k):
            a = z3.ZeroExt(24, e.s[-3] - 48) * 10 + z3.ZeroExt(24, e.s[-2] - 48)
            return z3.And(isdigit(e.s[-3]), isdigit(e.s[-2]), z3.ULE(a, abs(m) % 100 if m not in (10**9, 10**18) else 99))
        add('%s:%d' % (fn, m), '%s = %s%s(sp);' % (t, C, fn), lambda e, o, t=t, w=w: [('value', o[t] == parse(e.s, w))], [Buf('s', len(init), ptr='sp', w=False, init=init)], None, {t: ty}, pre)
# ------------------------------------------------------------------ floating point
RTZ_ = z3.RTZ(); R = z3.RNE()
def flt(v, d, n, sort, neg, maxw):
    """[-]whole.digits: the truncated magnitude, then n digits each the truncated tenfold of the remaining fraction"""
    a = z3.fpNeg(v) if neg else v
    whole = z3.fpToSBV(RTZ_, a, z3.BitVecSort(64)); fr = z3.fpSub(R, a, z3.fpSignedToFP(R, whole, sort))
    dg = []
    for i in range(n):
        fr = z3.fpMul(R, fr, z3.FPVal(10.0, sort)); x = z3.fpToSBV(RTZ_, fr, z3.BitVecSort(32)); dg.append(z3.Extract(7, 0, x))
        fr = z3.fpSub(R, fr, z3.fpSignedToFP(R, x, sort))
    out = [('sign', d[0] == ord('-'))] if neg else []
    q = [whole]
    for i in range(maxw): q.append(z3.UDiv(q[-1], b64(10)))
    for s in (int(neg),):
        for L in range(1, maxw + 1):
            c = z3.And(q[L] == 0, q[L - 1] != 0 if L > 1 else True)
            t = [d[s + k] == z3.Extract(7, 0, z3.URem(q[L - 1 - k], b64(10))) + 48 for k in range(L)]
            if n: t += [d[s + L] == ord('.')] + [d[s + L + 1 + i] == dg[i] + 48 for i in range(n)] + [d[s + L + 1 + n] == 0]
            else: t += [d[s + L] == 0]
            out.append(('text%s' % (' of a negative number' if s else ''), z3.Implies(c, z3.And(*t))))
    if n: out.append(('digits', z3.And(*[z3.ULE(x, 9) for x in dg])))
    return out
for ty, nm, sort, mb in (('f32', 'f', F32, 23), ('f64', 'g', F64, 52)):
    # digits, range, free mantissa bits, digits of the whole part
    plan = [(0, 0.0, 40.0, mb, 2), (1, 0.0, 10.0, 8, 1), (2, 0.5, 1.0, 3, 1), (0, 3e9, 3.1e9, 6, 10)]
    if THOROUGH: plan += [(1, 0.0, 10.0, 12, 1), (2, 0.0, 40.0, 7, 2), (4, 0.0, 1.0, 6, 1), (1, 0.0, 40.0, mb if ty == 'f32' else 30, 2), (2, 0.0, 10.0, 14, 1), (6, 0.0, 2.0, 8, 1)]
    for n, lo, hi, free, mw in plan:
        for sg in (1, -1):
            def pre(e, nm=nm, sort=sort, lo=lo, hi=hi, sg=sg, free=free, mb=mb):
                v = e[nm]
                if sg < 0: v = z3.fpNeg(v)
                c = [z3.Not(z3.fpIsZero(v)) if sg < 0 else True, z3.fpGEQ(v, z3.FPVal(lo, sort)), z3.fpLT(v, z3.FPVal(hi, sort)), z3.Not(z3.fpIsSubnormal(v))]
                if free < mb: c += [z3.Extract(mb - free - 1, 0, z3.fpToIEEEBV(v)) == 0]
                if free < mb and lo == 0: c += [z3.Or(z3.fpIsZero(v), z3.fpGEQ(v, z3.FPVal(0.01, sort)))]
                return z3.And(*c)
            add('from_%s:%d:%s%g:%d' % (ty, n, '-' if sg < 0 else '', hi, free), '%sfrom_%s(%s, %d, dp);' % (C, ty, nm, n), lambda e, o, nm=nm, n=n, sort=sort, sg=sg, mw=mw: flt(e[nm], o.d, n, sort, sg < 0, mw), [D(20)], {nm: ty}, None, pre, timeout=60000)
def main():
    r = Report(PID, 'model_checking')
    per = 12
    r.run_units([Unit('numbers', '\n'.join(SRC) + '\nfn main(): i32 { ' + ' '.join(c.fn + '();' for c in CASES) + ' <- 0; }\n', CASES)])
    r.finish()
if __name__ == '__main__': main()
