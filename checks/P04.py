"""P04: conversions between the primitive types."""
import sys, os, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.lang import *

TS = ALLI + ['bool', 'char', 'f32', 'f64', 'f80']

def inrange(v, A, B):
    """the truncated value is representable (otherwise the conversion is undefined)"""
    n = nbits(B); s = FLTS[A][0]
    r = z3.fpRoundToIntegral(RTZ, v)
    lo = z3.fpSignedToFP(RNE, z3.BitVecVal(-(1 << (n - 1)) if signed(B) else 0, n + 2), s)
    hi = z3.fpSignedToFP(RNE, z3.BitVecVal(1 << (n - 1 if signed(B) else n), n + 2), s)
    return [z3.Not(z3.fpIsNaN(v)), z3.fpGEQ(r, lo), z3.fpLT(r, hi)]

def pre(A, B):
    def f(e):
        v = e.a
        if is_float(A) and B == 'bool': return [z3.Not(z3.fpIsNaN(v))]
        if is_float(A) and B in INTS: return inrange(v, A, B)
        return []
    return f

def val(e, A, B):
    v = e.a != 0 if A == 'bool' else e.a
    if is_float(A) and B in INTS and B != 'bool':
        # the form of the conversion instruction: a wider signed conversion gives the same value
        k = 64 if B in ('u32', 'i64', 'u64') else 32
        if B == 'u64': return z3.fpToUBV(RTZ, v, z3.BitVecSort(64))
        x = z3.fpToSBV(RTZ, v, z3.BitVecSort(k))
        return z3.Extract(nbits(B) - 1, 0, x) if nbits(B) < k else x
    return conv(v, A, B)

def unit(A):
    b = Prog('cast_' + A, ['let a: %s; let k: i32; let g: %s; let w: i64;' % (A, A), 'type AlA: %s;' % A, 'type S: struct { p: u8, x: %s };' % A, 'let s: S;'] +
             ['let r_%s: %s; type Al%s: %s;' % (B, B, B, B) for B in TS] + ['fn id_%s(x: %s): %s { ret x; }' % (B, B, B) for B in TS], {'a': A}, {})
    for B in TS:
        o_ = {'r_' + B: B}
        hard = {A, B} == {'f80', 'u64'} and not THOROUGH     # one context instead of nine
        def post(e, o, B=B): return same(B, o['r_' + B], val(e, A, B))
        c = lambda key, body, p=None, **kw: (key == 'local' or not hard) and b.case('%s:%s' % (B, key), body, None, outs=kw.pop('outs', o_), post=p or post, pre=kw.pop('pre', pre(A, B)), **kw)
        c('global', 'r_%s = (a: %s);' % (B, B))
        c('local', 'let x: %s = a; let y: %s = (x: %s); r_%s = y;' % (A, B, B, B))
        c('ret', 'r_%s = @Fg(a);' % B, helpers='fn @Fg(x: %s): %s { ret (x: %s); }\n' % (A, B, B))
        c('arg', 'r_%s = id_%s((a: %s));' % (B, B, B))
        c('member', 's.x = a; r_%s = (s.x: %s);' % (B, B))
        c('deref', 'let p: &%s = &a; r_%s = (*p: %s);' % (A, B, B))
        c('elem', "let v: %s 'c[3]; v[1] = a; r_%s = (v[1]: %s);" % (A, B, B))
        c('toalias', 'let x: Al%s = (a: Al%s); r_%s = x;' % (B, B, B))
        c('fromalias', 'let x: AlA = a; r_%s = (x: %s);' % (B, B))
        if A != 'bool' and B in INTS and A in INTS and B != 'char' and A != 'char':
            # a computed value is converted as if it had been stored in its type first
            ex = lambda e, B=B: cast(arith('+', var('a', A, e), var('g', A, e)), B, False)
            b.case('%s:sum' % B, 'r_%s = ((a + g): %s);' % (B, B), ex, outs=o_, ins={'a': A, 'g': A})
            # there and back
            b.case('%s:round' % B, 'g = ((a: %s): %s);' % (B, A), None, outs={'g': A}, post=lambda e, o, B=B: o.g == norm(conv(conv(e.a, A, B), B, A), A))
        if A in INTS and B in INTS:
            b.case('%s:triple' % B, 'w = ((a: %s): i64);' % B, None, outs={'w': 'i64'},
                   post=lambda e, o, B=B: o.w == conv(val(e, A, B), B, 'i64'))
            b.case('%s:implicit' % B, 'w = 1000; w = w + (a: %s);' % B if B not in ('bool', 'char') else 'w = 1000 + ((a: %s): i64);' % B, None, outs={'w': 'i64'},
                   post=lambda e, o, B=B: o.w == 1000 + conv(val(e, A, B), B, 'i64'))
    if A in INTS and A != 'bool':
        b.case('cond', 'k = 0; if (a: bool) { k = 1; }', None, outs={'k': 'i32'}, post=lambda e, o: o.k == z3.If(e.a != 0, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
    return b.unit()

def ptrs():
    b = Prog('cast_ptr', ['let p: &i32; let q: &u8; let u: u64; let i: i64; let x: u32; let r: bool;', 'type E: enum { E0, E1, E7 = 7, E8 };', 'let en: E;'],
             {'p': 'ptr', 'u': 'u64', 'x': 'u32'}, {})
    b.case('ptr->u64', 'u = (p: u64);', None, outs={'u': 'u64'}, post=lambda e, o: o.u == e.p)
    b.case('u64->ptr', 'p = (u: &i32);', None, outs={'p': 'ptr'}, post=lambda e, o: o.p == e.u)
    b.case('ptr->ptr', 'q = (p: &u8);', None, outs={'q': 'ptr'}, post=lambda e, o: o.q == e.p)
    b.case('ptr->i64', 'i = (p: i64);', None, outs={'i': 'i64'}, post=lambda e, o: o.i == e.p)
    b.case('u32->ptr', 'q = (x: &u8);', None, outs={'q': 'ptr'}, post=lambda e, o: o.q == z3.ZeroExt(32, e.x))
    b.case('ptr->bool', 'r = (p: bool);', None, outs={'r': 'bool'}, post=lambda e, o: same('bool', o.r, e.p != 0))
    b.case('enum', 'en = E::E7; x = (en: u32);', None, outs={'x': 'u32'}, post=lambda e, o: o.x == 7)
    b.case('enum+', 'x = (E::E8: u32) + x;', None, outs={'x': 'u32'}, post=lambda e, o: o.x == e.x + 8)
    return b.unit()

def main():
    r = Report('P04', 'translation_validation')
    r.run_units([unit(A) for A in TS] + [ptrs()])
    r.finish()
if __name__ == '__main__': main()
