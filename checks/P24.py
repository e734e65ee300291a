"""P24: arithmetic, bit, character and byte-order helpers of the standard library compute what they are documented to."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from vlib.core import *
from vlib import zs
from vlib.zs import b64
PID = 'P24'
GLOB = ['import "std.csp";', 'let a: i32; let b: i32; let r: i32; let x: i64; let y: i64; let q: i64; let u: u64; let v: u64; let m: u64; let w16: u16; let r16: u16; let w32: u32; let r32: u32;',
        'let f: f32; let g: f64; let h: f64; let k: f32; let p8: i8; let t: bool;']
UNITS = []
class G:
    def __init__(self, name): self.name = name; self.src = []; self.cases = []
    def add(self, key, body, ins, outs, post, pre=None, bufs=(), opts=None, timeout=20000, pres=''):
        fn = 'f%d' % len(self.cases)
        self.src.append('%s fn %s() { %s }' % (pres, fn, body))
        self.cases.append(Case(self.name + ':' + key, fn, ins, outs, post, pre, bufs=bufs, opts=dict({'fork_mem': 32, 'lin_div': True}, **(opts or {})), desc=body, timeout=timeout))
    def done(self, extra=''):
        UNITS.append(Unit(self.name, '\n'.join(GLOB + [extra] + self.src) + '\nfn main(): i32 { ' + ' '.join(c.fn + '();' for c in self.cases) + ' <- 0; }\n', self.cases))
I = lambda v, w=32: z3.BitVecVal(v, w)
T = lambda c, v: (v != 0) == c if not isinstance(c, bool) else (v != 0) == z3.BoolVal(c)
# ---------------------------------------------------------------- math
g = G('math')
A = {'a': 'i32', 'b': 'i32'}; X = {'x': 'i64', 'y': 'i64'}
g.add('abs', 'r = std::math::abs(a);', A, {'r': 'i32'}, lambda e, o: o.r == z3.If(e.a < 0, -e.a, e.a))
g.add('abs64', 'q = std::math::abs64(x);', X, {'q': 'i64'}, lambda e, o: o.q == z3.If(e.x < 0, -e.x, e.x))
g.add('div', 'let d = std::math::div(a, b); r = d.quot; r32 = (d.rem: u32);', A, {'r': 'i32', 'r32': 'u32'}, lambda e, o: [('quotient', o.r == e.a / e.b), ('remainder', o.r32 == z3.SRem(e.a, e.b))], lambda e: z3.And(e.b != 0, z3.Or(e.b != -1, e.a != -2**31)), opts={'lin_div': False})
g.add('div64', 'let d = std::math::div64(x, y); q = d.quot; u = (d.rem: u64);', X, {'q': 'i64', 'u': 'u64'}, lambda e, o: [('quotient', o.q == e.x / e.y), ('remainder', o.u == z3.SRem(e.x, e.y))], lambda e: z3.And(e.y != 0, z3.Or(e.y != -1, e.x != -2**63)), opts={'lin_div': False})
def zmod(x, d):
    r = z3.SRem(x, d)
    return z3.If(r < 0, z3.If(d < 0, r - d, r + d), r)
for d in (1, 2, 3, 7, 10, 60, 360, 2**31, 2**62, -1, -3, -10):
    g.add('mod:%d' % d, 'q = std::math::mod(x, y);', X, {'q': 'i64'}, lambda e, o, d=d: [('range', z3.And(o.q >= 0, o.q < abs(d)))] + ([('congruent', o.q == zmod(e.x, I(d, 64)))]), lambda e, d=d: z3.And(e.y == d, e.x > -2**63, *([e.x > -2**24, e.x < 2**24] if d not in (1, 2, 2**31, 2**62) else [])), opts={'lin_div': False})
g.add('mod:small', 'q = std::math::mod(x, y);', X, {'q': 'i64'}, lambda e, o: o.q == zmod(e.x, e.y), lambda e: z3.And(e.x >= -32, e.x < 32, e.y > -8, e.y < 8, e.y != 0), opts={'lin_div': False})
NP = 6 if not THOROUGH else 12
for n in range(NP):
    def pw(e, o, n=n):
        v = I(1, 64)
        for _ in range(n): v = v * z3.SignExt(32, e.a)
        return o.q == v
    g.add('pow:%d' % n, 'q = std::math::pow(a, b);', A, {'q': 'i64'}, pw, lambda e, n=n: e.b == n)
g.add('nan', 'k = std::math::nan();', {}, {'k': 'f32'}, lambda e, o: z3.fpIsNaN(o.k))
g.add('inf', 'k = std::math::inf();', {}, {'k': 'f32'}, lambda e, o: z3.And(z3.fpIsInf(o.k), z3.fpIsPositive(o.k)))
g.add('max', 'r = max![a, b];', A, {'r': 'i32'}, lambda e, o: o.r == z3.If(e.a > e.b, e.a, e.b))
g.add('min', 'r = min![a, b];', A, {'r': 'i32'}, lambda e, o: o.r == z3.If(e.a < e.b, e.a, e.b))
g.add('max64', 'q = max![x, y];', X, {'q': 'i64'}, lambda e, o: o.q == z3.If(e.x > e.y, e.x, e.y))
g.add('maxu', 'm = max![u, v];', {'u': 'u64', 'v': 'u64'}, {'m': 'u64'}, lambda e, o: o.m == z3.If(z3.UGT(e.u, e.v), e.u, e.v))
g.add('minu', 'm = min![u, v + 1];', {'u': 'u64', 'v': 'u64'}, {'m': 'u64'}, lambda e, o: o.m == z3.If(z3.ULT(e.u, e.v + 1), e.u, e.v + 1))
g.add('maxf', 'k = max![f, 1.5];', {'f': 'f32'}, {'k': 'f32'}, lambda e, o: o.k == z3.If(z3.fpGT(e.f, z3.FPVal(1.5, F32)), e.f, z3.FPVal(1.5, F32)))
g.add('absm', 'r = abs![a];', A, {'r': 'i32'}, lambda e, o: o.r == z3.If(e.a < 0, -e.a, e.a))
g.add('absm64', 'q = abs![x - 1];', X, {'q': 'i64'}, lambda e, o: o.q == z3.If(e.x - 1 < 0, 1 - e.x, e.x - 1))
g.add('absmf', 'h = abs![g];', {'g': 'f64'}, {'h': 'f64'}, lambda e, o: z3.Or(z3.fpIsNaN(e.g), z3.fpIsZero(e.g), o.h == z3.fpAbs(e.g)))
g.done()
# ---------------------------------------------------------------- characters
g = G('character')
up = lambda c: z3.And(c >= 65, c <= 90); lo = lambda c: z3.And(c >= 97, c <= 122); dg = lambda c: z3.And(c >= 48, c <= 57)
sp = lambda c: z3.Or(c == 32, z3.And(c >= 9, c <= 13)); gr = lambda c: z3.And(c >= 33, c <= 126)
CL = dict(isalnum=lambda c: z3.Or(up(c), lo(c), dg(c)), isalpha=lambda c: z3.Or(up(c), lo(c)), isascii=lambda c: z3.And(c >= 0, c <= 127), isblank=lambda c: z3.Or(c == 32, c == 9),
          isncntrl=lambda c: z3.Or(z3.And(c >= 0, c < 32), c == 127), isdigit=dg, isgraph=gr, islower=lo, isprint=lambda c: z3.And(c >= 32, c <= 126),
          ispunct=lambda c: z3.And(gr(c), z3.Not(z3.Or(up(c), lo(c), dg(c)))), isspace=sp, isupper=up)
for n, s in CL.items():
    g.add(n, 'r = std::character::%s(a);' % n, A, {'r': 'i32'}, lambda e, o, s=s: T(s(e.a), o.r))
    g.add(n + ':char', 't = std::character::%s((p8: char)) != 0;' % n, {'p8': 'i8'}, {'t': 'bool'}, lambda e, o, s=s: T(s(z3.SignExt(24, e.p8)), o.t))
g.add('toascii', 'r = std::character::toascii(a);', A, {'r': 'i32'}, lambda e, o: o.r == e.a & 127)
g.add('tolower', 'r = std::character::tolower(a);', A, {'r': 'i32'}, lambda e, o: o.r == z3.If(up(e.a), e.a + 32, e.a))
g.add('toupper', 'r = std::character::toupper(a);', A, {'r': 'i32'}, lambda e, o: o.r == z3.If(lo(e.a), e.a - 32, e.a))
g.done()
# ---------------------------------------------------------------- byte order, hashing
def rev(v):
    n = v.size() // 8
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(n)])
g = G('bytes')
for fn, i, o_, w in (('bswap_16', 'w16', 'r16', 16), ('bswap_32', 'w32', 'r32', 32), ('bswap_64', 'u', 'm', 64), ('hton_16', 'w16', 'r16', 16), ('hton_32', 'w32', 'r32', 32), ('ntoh_16', 'w16', 'r16', 16), ('ntoh_32', 'w32', 'r32', 32)):
    g.add(fn, '%s = std::algorithm::%s(%s);' % (o_, fn, i), {i: 'u%d' % w}, {o_: 'u%d' % w}, lambda e, o, i=i, o_=o_: o[o_] == rev(e[i]))
def jenkins(bs):
    h = b64(0)
    for c in bs:
        h = h + z3.ZeroExt(56, c); h = h + (h << 10); h = h ^ z3.LShR(h, 6)
    h = h + (h << 3); h = h ^ z3.LShR(h, 11)
    return h ^ (h << 15)
def pick(n, vals):
    r = vals[0]
    for k in range(1, len(vals)): r = z3.If(n == k, vals[k], r)
    return r
H = 5
g.add('hash_bytes', 'm = std::algorithm::hash_bytes(sp, u);', {'u': 'u64'}, {'m': 'u64'}, lambda e, o: o.m == pick(e.u, [jenkins(e.s[:k]) for k in range(H + 1)]), lambda e: z3.ULE(e.u, H), [Buf('s', H, ptr='sp', w=False)])
g.add('hash_string', 'm = std::algorithm::hash_string(sp);', {}, {'m': 'u64'}, lambda e, o: o.m == pick(zs.strlen(e.s), [jenkins(e.s[:k]) for k in range(H + 1)]), lambda e: e.s[-1] == 0, [Buf('s', H + 1, ptr='sp', w=False)])
g.done('let sp: &char;')
# ---------------------------------------------------------------- bits
g = G('bits')
U = {'u': 'u64', 'b': 'i32'}
inr = lambda e: z3.And(e.b >= 0, e.b < 64)
bit = lambda e: b64(1) << z3.ZeroExt(32, e.b)
g.add('check_bit', 't = check_bit![u, b] != 0;', U, {'t': 'bool'}, lambda e, o: T(e.u & bit(e) != 0, o.t), inr)
g.add('toggle_bit', 'toggle_bit![u, b];', U, {'u': 'u64'}, lambda e, o: o.u == e.u ^ bit(e), inr)
g.add('set_bit:1', 'set_bit![u, b, 1];', U, {'u': 'u64'}, lambda e, o: o.u == e.u | bit(e), inr)
g.add('set_bit:0', 'set_bit![u, b, 0];', U, {'u': 'u64'}, lambda e, o: o.u == e.u & ~bit(e), inr)
g.add('set_bit:var', 'set_bit![u, b, a];', dict(U, a='i32'), {'u': 'u64'}, lambda e, o: o.u == z3.If(e.a == 1, e.u | bit(e), e.u & ~bit(e)), lambda e: z3.And(inr(e), z3.Or(e.a == 0, e.a == 1)))
for ty, v1, v2 in (('i32', 'a', 'b'), ('i64', 'x', 'y'), ('u16', 'w16', 'r16')):
    g.add('swap:' + ty, 'swap![%s, %s];' % (v1, v2), {v1: ty, v2: ty}, {v1: ty, v2: ty}, lambda e, o, v1=v1, v2=v2: [('first', o[v1] == e[v2]), ('second', o[v2] == e[v1])])
    g.add('xor_swap:' + ty, 'xor_swap![%s, %s];' % (v1, v2), {v1: ty, v2: ty}, {v1: ty, v2: ty}, lambda e, o, v1=v1, v2=v2: [('first', o[v1] == e[v2]), ('second', o[v2] == e[v1])])
g.add('swap:f64', 'swap![g, h];', {'g': 'f64', 'h': 'f64'}, {'g': 'f64', 'h': 'f64'}, lambda e, o: z3.Or(z3.fpIsNaN(e.g), z3.fpIsNaN(e.h), z3.And(o.g == e.h, o.h == e.g)))
g.add('either', 'r = either![a, b];', A, {'r': 'i32'}, lambda e, o: o.r == z3.If(e.a != 0, e.a, e.b))
g.add('either64', 'q = either![x, y];', X, {'q': 'i64'}, lambda e, o: o.q == z3.If(e.x != 0, e.x, e.y))
g.add('range', 'r = 0; for range![2, a]; { r += i; }', A, {'r': 'i32'}, lambda e, o: o.r == z3.If(e.a <= 2, I(0), (e.a - 2) * (e.a + 1) / 2), lambda e: z3.And(e.a > -3, e.a < 9))
g.add('range:named', 'r = 0; for range![z, b, a]; { r += z * 10; }', A, {'r': 'i32'}, lambda e, o: o.r == z3.If(e.a <= e.b, I(0), (e.a - e.b) * (e.a + e.b - 1) * 5), lambda e: z3.And(e.a > -3, e.a < 4, e.b >= -3, e.b < 4))
g.done()
# ---------------------------------------------------------------- sums over arrays
g = G('sum')
for ty in ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64'):
    w = int(ty[1:]); ext = (lambda v, w=w, s=ty[0] == 'i': v if w == 64 else (z3.SignExt if s else z3.ZeroExt)(64 - w, v))
    GLOB.append('let %s0: %s; let %s1: %s; let %s2: %s;' % ((ty + 'v', ty) * 3))
    vs = [ty + 'v%d' % i for i in range(3)]
    g.add(ty, 'let l = [%s]; q = sum![l];' % ', '.join(vs), {x: ty for x in vs}, {'q': 'i64'}, lambda e, o, vs=vs, ext=ext: o.q == ext(e[vs[0]]) + ext(e[vs[1]]) + ext(e[vs[2]]))
    g.add(ty + ':fn', 'let l = [%s]; q = (std::array::sum_%s(&l[0], u): i64);' % (', '.join(vs), ty), dict({x: ty for x in vs}, u='u64'), {'q': 'i64'}, lambda e, o, vs=vs, ext=ext: o.q == pick(e.u, [b64(0), ext(e[vs[0]]), ext(e[vs[0]]) + ext(e[vs[1]]), ext(e[vs[0]]) + ext(e[vs[1]]) + ext(e[vs[2]])]), lambda e: z3.ULE(e.u, 3))
    g.add(ty + ':first-last', 'let l = [%s]; q = (first![l]: i64); x = (last![l]: i64);' % ', '.join(vs), {x: ty for x in vs}, {'q': 'i64', 'x': 'i64'}, lambda e, o, vs=vs, ext=ext: z3.And(o.q == ext(e[vs[0]]), o.x == ext(e[vs[2]])))
g.add('two', 'r = sum![a, b];', A, {'r': 'i32'}, lambda e, o: o.r == e.a + e.b)
g.add('six', 'r = sum![a, b, a, b, 1, a - b];', A, {'r': 'i32'}, lambda e, o: o.r == 3 * e.a + e.b + 1)
g.done()
# ---------------------------------------------------------------- optional values and limits
g = G('option')
pres = 'fn mk(c: bool, n: i64): Opt { if c { <- some![n]; } <- none![i64]; }'
g.add('option', 'let z = mk(a > 0, x); t = is_some![z]; q = unwrap_or![z, y];', dict(A, x='i64', y='i64'), {'t': 'bool', 'q': 'i64'}, lambda e, o: [('is_some', T(e.a > 0, o.t)), ('value', o.q == z3.If(e.a > 0, e.x, e.y))])
g.add('none', 'let z = mk(a > 0, x); t = is_none![z]; if is_some![z] { q = unwrap![z]; }', dict(A, x='i64', q='i64'), {'t': 'bool', 'q': 'i64'}, lambda e, o: [('is_none', T(e.a <= 0, o.t)), ('value', o.q == z3.If(e.a > 0, e.x, e.q))])
g.done('type Opt: option![i64]; ' + pres)
g = G('limits')
for ty in ('i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64'):
    w = int(ty[1:]); hi = 2**w - 1 if ty[0] == 'u' else 2**(w - 1) - 1; l = 0 if ty[0] == 'u' else -2**(w - 1)
    g.add(ty, 'let l = %s_min!; let h = %s_max!; q = (l: i64); m = (h: u64);' % (ty, ty), {}, {'q': 'i64', 'm': 'u64'}, lambda e, o, l=l, hi=hi: [('min', o.q == l), ('max', o.m == hi)])
g.done()
def main():
    r = Report(PID, 'model_checking')
    r.run_units(UNITS); r.finish()
if __name__ == '__main__': main()
