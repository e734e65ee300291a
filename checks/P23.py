"""P23: std::hashmap behaves as a finite map for every history of puts and gets."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from vlib.core import *
from vlib import zs
from vlib.zs import b64
PID = 'P23'
UNITS = []
def jenkins(bs):
    h = 0
    M = (1 << 64) - 1
    for x in bs:
        h = (h + x) & M; h = (h + (h << 10)) & M; h ^= h >> 6
    h = (h + (h << 3)) & M; h ^= h >> 11; h = (h ^ (h << 15)) & M
    return h
def colliding(n, mod=32):
    """n byte-order-little keys of 4 bytes whose home slots collide, and one that lands right behind them"""
    by = {}
    for k in range(1, 4000):
        by.setdefault(jenkins(k.to_bytes(4, 'little')) % mod, []).append(k)
    for s in sorted(by):
        if len(by[s]) >= n and (s + 1) % mod in by: return by[s][:n] + [by[(s + 1) % mod][0]]
W = {'i32': 32, 'i64': 64, 'u8': 8, 'i16': 16, 'u16': 16, 'u32': 32, 'u64': 64, 'i8': 8}
def ext(v, w): return v
def hist(kt, vt, keys, k, tag=None):
    """k operations (put / get) with keys out of `keys`, symbolic values"""
    name = tag or 'map-%s-%s%s' % (kt, vt, '-last' if 31 in [jenkins(x.to_bytes(W[kt] // 8, 'little')) % 32 for x in keys] else '')
    wv = W[vt]
    src = ['import "std.csp";'] + ['let op%d: u8; let key%d: %s; let val%d: %s; let got%d: %s;' % (i, i, kt, i, vt, i, vt) for i in range(k)]
    src += ['let q%d: %s;' % (i, vt) for i in range(len(keys))]
    src.append('fn history() { let map = hashmap_init![%s, %s]; ' % (kt, vt))
    for i in range(k): src.append('if op%d == 0 { hashmap_put![map, key%d, val%d]; } else { got%d = hashmap_get![map, key%d]; }' % (i, i, i, i, i))
    for i, x in enumerate(keys): src.append('q%d = hashmap_get![map, %d];' % (i, x))
    src.append('hashmap_free![map]; }')
    def post(e, o):
        cur = [z3.BitVecVal(0, wv) for _ in keys]; res = []
        for j in range(k):
            op, key, val = e['op%d' % j], e['key%d' % j], e['val%d' % j]
            g = z3.BitVecVal(0, wv)
            for x, c in zip(keys, cur): g = z3.If(key == x, c, g)
            res.append(('value got by operation %d' % (j + 1), o['got%d' % j] == z3.If(op == 0, e['got%d' % j], g)))
            cur = [z3.If(z3.And(op == 0, key == x), val, c) for x, c in zip(keys, cur)]
        return res + [('final value of key %d' % x, o['q%d' % i] == cur[i]) for i, x in enumerate(keys)]
    ins = {}
    for i in range(k): ins.update({'op%d' % i: 'u8', 'key%d' % i: kt, 'val%d' % i: vt, 'got%d' % i: vt})
    outs = dict([('got%d' % i, vt) for i in range(k)] + [('q%d' % i, vt) for i in range(len(keys))])
    cs = []
    for a in range(2):
        for i0 in range(len(keys)):
            def pre(e, a=a, i0=i0):
                return z3.And(e.op0 == a, e.key0 == keys[i0], *([z3.ULE(e['op%d' % i], 1) for i in range(k)] + [z3.Or(*[e['key%d' % i] == x for x in keys]) for i in range(k)]))
            cs.append(Case('%s:%s-%d' % (name, ['put', 'get'][a], i0), 'history', ins, outs, post, pre, opts={'fork_mem': 64}, timeout=30000, desc='%d operations on keys %s' % (k, keys)))
    UNITS.append(Unit(name, '\n'.join(src) + '\nfn main(): i32 { history(); <- 0; }\n', cs))
COL = colliding(2)
K = 3 if not THOROUGH else 4
hist('i32', 'i32', COL, K)
hist('i32', 'i32', [0, 121], 2, 'map-zerokey')
hist('i64', 'u8', COL[:2], 2)
hist('u8', 'i64', [3, 9, 200], K)
hist('i16', 'i32', [257, 1], K)
# keys whose home is the last slot: probing wraps around
last = [k for k in range(1, 4000) if jenkins(k.to_bytes(4, 'little')) % 32 == 31][:2]
hist('i32', 'u16', last, 2)
# every key value, every value
def anykey(kt, vt, other):
    name = 'any-%s-%s' % (kt, vt)
    src = ['import "std.csp";', 'let key: %s; let val: %s; let val2: %s; let key2: %s; let r1: %s; let r2: %s; let r3: %s; let n: u64;' % (kt, vt, vt, kt, vt, vt, vt),
           'fn history() { let map = hashmap_init![%s, %s]; r3 = hashmap_get![map, key]; hashmap_put![map, %d, val2]; hashmap_put![map, key, val]; r1 = hashmap_get![map, key]; r2 = hashmap_get![map, %d]; }' % (kt, vt, other, other)]
    def post(e, o):
        return [('absent', o.r3 == 0), ('put', o.r1 == e.val), ('other key', o.r2 == z3.If(e.key == other, e.val, e.val2))]
    c = Case(name, 'history', {'key': kt, 'val': vt, 'val2': vt}, {'r1': vt, 'r2': vt, 'r3': vt}, post, None, opts={'fork_mem': 64}, timeout=30000, desc='any key next to %d' % other)
    UNITS.append(Unit(name, '\n'.join(src) + '\nfn main(): i32 { history(); <- 0; }\n', [c]))
anykey('u8', 'i32', 17); anykey('i16', 'u8', 5)
# growth: many keys, any of them is found again
def grow(n, stride, kt='i32', vt='i32'):
    name = 'grow-%d-%d' % (n, stride)
    src = ['import "std.csp";', 'let x: %s; let n: u64; let got: %s; let count: u64; let r: %s;' % (vt, vt, vt),
           'fn history() { let map = hashmap_init![%s, %s]; for let i: %s = 1; i <= %d; i++; { hashmap_put![map, (i * %d), ((i: %s) ^ x)]; }' % (kt, vt, kt, n, stride, vt)]
    src.append(' '.join('if n == %d { got = hashmap_get![map, %d]; }' % (i, i * stride) for i in range(1, n + 1)) + ' r = hashmap_get![map, %d]; count = std::vec::size(hashmap_values![map]); }' % (n * stride + stride))
    c = Case(name, 'history', {'x': vt, 'n': 'u64'}, {'got': vt, 'count': 'u64', 'r': vt},
             lambda e, o: [('value', o.got == (z3.Extract(31, 0, e.n) ^ e.x)), ('absent', o.r == 0), ('number of values', o.count == n)], lambda e: z3.And(z3.UGE(e.n, 1), z3.ULE(e.n, n)), opts={'fork_mem': 64, 'max_steps': 4000000}, timeout=30000, desc='%d keys' % n)
    UNITS.append(Unit(name, '\n'.join(src) + '\nfn main(): i32 { history(); <- 0; }\n', [c]))
grow(34, 7)
if THOROUGH: grow(70, 64)
# string keys: compared by content
def strkeys():
    src = ['import "std.csp";', 'let sp: &char; let tp: &char; let v: i32; let w: i32; let r1: i32; let r2: i32;',
           'fn history() { let map = hashmap_init![&char, i32]; hashmap_put![map, sp, v]; hashmap_put![map, tp, w]; r1 = hashmap_get![map, sp]; r2 = hashmap_get![map, tp]; }']
    def post(e, o):
        eq = zs.cmp(e.s, e.t) == 0
        return [('first', o.r1 == z3.If(eq, e.w, e.v)), ('second', o.r2 == e.w)]
    c = Case('strings', 'history', {'v': 'i32', 'w': 'i32'}, {'r1': 'i32', 'r2': 'i32'}, post, lambda e: z3.And(e.s[-1] == 0, e.t[-1] == 0, e.s[0] & 0x9c == 0, e.t[0] & 0x9c == 0), bufs=[Buf('s', 2, ptr='sp', w=False), Buf('t', 2, ptr='tp', w=False)],
             opts={'fork_mem': 64}, timeout=30000, desc='string keys')
    UNITS.append(Unit('strings', '\n'.join(src) + '\nfn main(): i32 { history(); <- 0; }\n', [c]))
strkeys()
def main():
    r = Report(PID, 'model_checking')
    r.run_units(UNITS)
    r.finish()
if __name__ == '__main__': main()
