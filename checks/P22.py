"""P22: std::vec and std::string: every history of operations gives the contents that list and text semantics say."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from vlib.core import *
from vlib import zs
from vlib.zs import b64, same, strlen
PID = 'P22'
UNITS = []
K = 4 if not THOROUGH else 5
# ------------------------------------------------------------------ vectors
def vec_unit(ty, w, initial, ops, k, dup=False):
    name = 'vec-%s-%s' % (ty, initial or 'empty')
    decl = ['import "std.csp";', 'let v: &%s;' % ty, 'let u: &%s;' % ty, 'let size: u64;', 'let got: %s;' % ty, 'let usize_: u64;', 'let capok: bool;']
    for i in range(k): decl += ['let op%d: u8;' % i, 'let pos%d: u64;' % i, 'let val%d: %s;' % (i, ty)]
    for i in range(k + 2): decl += ['let e%d: %s;' % (i, ty)]
    body = {'add': '{ vec_add![v, val]; }', 'push': '{ vec_push![v, val]; }',
            'insert': '{ if pos > vec_size![v] { pos = vec_size![v]; } vec_insert![v, pos, val]; }',
            'remove': '{ if vec_size![v] > 0 { if pos >= vec_size![v] { pos = vec_size![v] - 1; } vec_remove![v, pos]; } }',
            'erase': '{ let m = vec_size![v]; if pos > m { pos = m; } let c = (val: u64) & 3; if pos + c > m { c = m - pos; } vec_erase![v, pos, c]; }',
            'pop': '{ got = vec_pop![v]; }',
            'last': '{ if vec_size![v] > 0 got = vec_last![v]; }',
            'copy': '{ let w: &%s = vec_copy![v]; if vec_size![v] > 0 v[0] = val; vec_free![v]; v = w; }' % ty}
    src = decl + ['fn step(op: u8, pos: u64, val: %s) { ' % ty + ' else '.join('if op == %d %s' % (i, body[o] if body[o].startswith('{') else body[o] + ';') for i, o in enumerate(ops)) + ' }']
    mk = 'vec![%s]' % ty if not initial else 'vec![%s, %s]' % (ty, initial)
    src.append('fn history() { v = %s; %s size = vec_size![v]; %s vec_free![v]; }' % (mk, ' '.join('step(op%d, pos%d, val%d);' % (i, i, i) for i in range(k)),
               ' '.join('if size > %d e%d = v[%d];' % (i, i, i) for i in range(k))))
    def post(e, o):
        L = [z3.BitVecVal(0, w)] * (k + 1); n = b64(0); got = e.got
        for j in range(k):
            op, pos, val = e['op%d' % j], e['pos%d' % j], e['val%d' % j]
            nl, nn, ng = L, n, got
            for i, name_ in enumerate(ops):
                c = op == i
                if name_ in ('add', 'push'):
                    l2 = [z3.If(n == x, val, L[x]) for x in range(k + 1)]; n2 = n + 1; g2 = got
                elif name_ == 'insert':
                    p = zs.minu(pos, n)
                    l2 = [z3.If(p == x, val, z3.If(z3.ULT(p, x), L[x - 1] if x else L[0], L[x])) for x in range(k + 1)]; n2 = n + 1; g2 = got
                elif name_ == 'remove':
                    p = z3.If(z3.ULT(pos, n), pos, n - 1)
                    l2 = [z3.If(z3.And(n != 0, z3.UGE(b64(x), p)), L[x + 1] if x < k else L[x], L[x]) for x in range(k + 1)]; n2 = z3.If(n == 0, n, n - 1); g2 = got
                elif name_ == 'erase':
                    p = zs.minu(pos, n); c2 = z3.ZeroExt(64 - w, val) & 3 if w < 64 else val & 3
                    c2 = z3.If(z3.UGT(p + c2, n), n - p, c2)
                    l2 = [z3.If(z3.UGE(b64(x), p), zs.sel(L, b64(x) + c2), L[x]) for x in range(k + 1)]; n2 = n - c2; g2 = got
                elif name_ == 'pop':
                    l2 = L; n2 = z3.If(n == 0, n, n - 1); g2 = z3.If(n == 0, z3.BitVecVal(0, w), zs.sel(L, n - 1))
                elif name_ == 'last':
                    l2 = L; n2 = n; g2 = z3.If(n == 0, got, zs.sel(L, n - 1))
                else:
                    l2 = L; n2 = n; g2 = got
                nl = [z3.If(c, a, b) for a, b in zip(l2, nl)]; nn = z3.If(c, n2, nn); ng = z3.If(c, g2, ng)
            L, n, got = nl, nn, ng
        return [('size', o.size == n)] + ([('read element', o.got == got)] if 'pop' in ops or 'last' in ops else []) + [('element %d' % x, z3.Implies(z3.UGT(n, x), o['e%d' % x] == L[x])) for x in range(k)]
    ins = {'got': ty}
    for i in range(k): ins.update({'op%d' % i: 'u8', 'pos%d' % i: 'u64', 'val%d' % i: ty})
    outs = dict([('size', 'u64')] + ([('got', ty)] if 'pop' in ops or 'last' in ops else []) + [('e%d' % i, ty) for i in range(k)])
    pre = lambda e: z3.And(*[z3.And(z3.ULT(e['op%d' % i], len(ops)), z3.ULE(e['pos%d' % i], k)) for i in range(k)])
    cs = []
    for a in range(len(ops)):
        for b in range(len(ops)):
            p2 = lambda e, a=a, b=b: z3.And(e.op0 == a, e.op1 == b, pre(e))
            cs.append(Case('%s:%s-%s' % (name, ops[a], ops[b]), 'history', ins, outs, post, p2, opts={'fork_mem': 16}, desc='all histories of %d operations out of %s that begin with %s, %s' % (k, ', '.join(ops), ops[a], ops[b]), timeout=30000))
    UNITS.append(Unit(name, '\n'.join(src) + '\nfn main(): i32 { history(); <- 0; }\n', cs))
vec_unit('i32', 32, None, ['add', 'insert', 'remove', 'pop'], K)
vec_unit('i64', 64, '1', ['add', 'insert', 'remove', 'copy'], K - 1)
vec_unit('u8', 8, '2', ['push', 'insert', 'pop', 'last'], K - 1)
if THOROUGH: vec_unit('i32', 32, '3', ['add', 'insert', 'remove', 'copy', 'erase'], 4)
# erasing any range of a vector, and adding again
def erase(ty, w, n):
    src = ['import "std.csp";', 'let pos: u64; let length: u64; let x: %s; let size: u64;' % ty] + ['let a%d: %s; let e%d: %s;' % (i, ty, i, ty) for i in range(n + 1)] + [
           'fn history() { let v = vec![%s]; %s vec_erase![v, pos, length]; vec_add![v, x]; size = vec_size![v]; %s }' % (ty, ' '.join('vec_add![v, a%d];' % i for i in range(n)), ' '.join('if size > %d e%d = v[%d];' % (i, i, i) for i in range(n + 1)))]
    def post(e, o):
        L = [e['a%d' % i] for i in range(n)]; m = n - e.length
        return [('size', o.size == m + 1)] + [('element %d' % i, z3.If(z3.ULT(b64(i), z3.If(z3.ULT(e.pos, m), e.pos, m)), o['e%d' % i] == L[i] if i < n else z3.BoolVal(True), z3.If(z3.ULT(b64(i), m), o['e%d' % i] == zs.sel(L, b64(i) + e.length), z3.Implies(b64(i) == m, o['e%d' % i] == e.x)))) for i in range(n + 1)]
    ins = dict([('pos', 'u64'), ('length', 'u64'), ('x', ty)] + [('a%d' % i, ty) for i in range(n)])
    UNITS.append(Unit('erase-' + ty, '\n'.join(src) + '\nfn main(): i32 { history(); <- 0; }\n', [Case('erase-%s' % ty, 'history', ins, dict([('size', 'u64')] + [('e%d' % i, ty) for i in range(n + 1)]), post,
        lambda e: z3.And(z3.ULE(e.pos, n), z3.ULE(e.length, n), z3.ULE(e.pos + e.length, n)), opts={'fork_mem': 16}, timeout=30000, desc='any range of %d elements is erased and an element added' % n)]))
erase('i16', 16, 4); erase('i64', 64, 5)
# concrete growth, symbolic element looked at
def grow(ty, w, initial, count):
    name = 'grow-%s-%s' % (ty, initial)
    src = ['import "std.csp";', 'let n: u64;', 'let got: %s;' % ty, 'let size: u64;', 'let x: %s;' % ty,
           'fn history() { let v = vec![%s, %s]; let w = vec![%s, %s]; for let i: u64 = 0; i < %d; i++; { vec_add![v, (i: %s) + x]; vec_add![w, x]; } size = vec_size![v]; got = v[n]; }' % (ty, initial, ty, initial, count, ty)]
    c = Case(name, 'history', {'n': 'u64', 'x': ty}, {'got': ty, 'size': 'u64'},
             lambda e, o: [('size', o.size == count), ('element', o.got == (z3.Extract(w - 1, 0, e.n) if w < 64 else e.n) + e.x)], lambda e: z3.ULT(e.n, count), opts={'fork_mem': 64}, timeout=30000,
             desc='%d elements are added to a vector made for %s' % (count, initial))
    UNITS.append(Unit(name, '\n'.join(src) + '\nfn main(): i32 { history(); <- 0; }\n', [c]))
grow('i64', 64, '4', 10); grow('u8', 8, '1', 14); grow('i32', 32, '3', 34)
# ------------------------------------------------------------------ strings
S = ['import "std.csp";', 'let sp: &char;', 'let tp: &char;', 'let c: char;', 'let d: char;', 'let g: char;', 'let op0: u8;', 'let op1: u8;', 'let op2: u8;', 'let size: u64;', 'let b: bool;', 'let n: u64;', 'let from: i64;', 'let to: i64;', 'let nilr: bool;', 'let q: u64;']
S += ['let o%d: char;' % i for i in range(16)]
CASES = []
def add(key, body, post, bufs=(), ins=None, outs=None, pre=None, timeout=20000, opts=None):
    fn = 'f%d' % len(CASES)
    S.append('fn %s() { %s }' % (fn, body))
    def pre2(e):
        l = [e[x.name][-1] == 0 for x in bufs if x.name in 'st']
        if pre: l.append(pre(e))
        return z3.And(*l) if l else z3.BoolVal(True)
    CASES.append(Case(key, fn, ins, outs, post, pre2, bufs=bufs, opts=dict({'fork_mem': 16}, **(opts or {})), desc=body, timeout=timeout))
def show(var, k): return ' '.join('if size >= %d o%d = %s[%d];' % (i, i, var, i) for i in range(k))
def outs_(k): return dict([('size', 'u64')] + [('o%d' % i, 'char') for i in range(k)])
def text(o, t, n, k): return [('length', o.size == n)] + [('character %d' % i, z3.Implies(z3.UGT(n, i), o['o%d' % i] == t[i])) for i in range(k)] + [('terminated', z3.And(*[z3.Implies(n == i, o['o%d' % i] == 0) for i in range(k)]))]
def catz(a, la, b, lb, k):
    """text a (length la) followed by b (length lb), k characters"""
    z = z3.BitVecVal(0, 8)
    at = lambda l, i: zs.sel(l, i)
    return [z3.If(z3.ULT(b64(i), la), a[i] if i < len(a) else z, z3.If(z3.ULT(b64(i), la + lb), at(b, b64(i) - la), z)) for i in range(k)]
def sb(k, n='s'): return Buf(n, k, ptr=n + 'p', w=False)
add('init', 'let x = str![sp]; size = len x; %s' % show('x', 5), lambda e, o: text(o, e.s, strlen(e.s), 5), [sb(5)], None, outs_(5))
add('copy', 'let x = str![sp]; let y = std::string::copy(x); if size_gt0(x) x[0] = c; std::string::free(x); size = std::string::size(y); %s' % show('y', 5), lambda e, o: text(o, e.s, strlen(e.s), 5), [sb(5)], {'c': 'char'}, outs_(5))
S.append('fn size_gt0(x: &char): bool = (len x) > 0;')
def hist(e, o):
    a, la = list(e.s), strlen(e.s)
    KK = 10
    a = a + [z3.BitVecVal(0, 8)] * (KK - len(a))
    for op in (e.op0, e.op1, e.op2):
        ap = catz(a, la, [e.c], b64(1), KK); cc = catz(a, la, e.t, strlen(e.t), KK); cs = catz(a, la, [e.d], b64(1), KK)
        a = [z3.If(op == 0, x, z3.If(op == 1, y, z)) for x, y, z in zip(ap, cc, cs)]
        la = la + z3.If(op == 1, strlen(e.t), b64(1))
    return text(o, a, la, KK)
S.append('fn step(x: &std::String, op: u8) { if op == 0 std::string::append(x, c); else if op == 1 std::string::concat(x, tp); else std::string::append(x, d); }')
for init, nm, extra in (('str![sp]', 'history', None), ('str!{nil}', 'history-nil', lambda e: e.s[0] == 0)):
    add(nm, 'let x = %s; step(&x, op0); step(&x, op1); step(&x, op2); size = len x; %s std::string::free(x);' % (init, show('x', 10)), hist, [sb(3), sb(3, 't')],
        {'op0': 'u8', 'op1': 'u8', 'op2': 'u8', 'c': 'char', 'd': 'char'}, outs_(10),
        lambda e, extra=extra: z3.And(z3.ULT(e.op0, 3), z3.ULT(e.op1, 3), z3.ULT(e.op2, 3), e.c != 0, e.d != 0, extra(e) if extra else True))
add('append:page', 'let x = std::string::init_sized_with(4068, d); let y = str![sp]; for let i: u64 = 0; i < 24; i++; std::string::append(&x, c); size = len x; g = x[4067]; o0 = x[4068]; o1 = x[4091]; o2 = x[4092]; o3 = y[0];',
    lambda e, o: [('length', o.size == 4092), ('old', o.g == e.d), ('new', z3.And(o.o0 == e.c, o.o1 == e.c, o.o2 == 0)), ('other string', o.o3 == e.s[0])], [sb(2)], {'c': 'char', 'd': 'char'}, {'size': 'u64', 'g': 'char', 'o0': 'char', 'o1': 'char', 'o2': 'char', 'o3': 'char'},
    lambda e: z3.And(e.c != 0, e.d != 0), opts={'max_steps': 3000000})
add('append:many', 'let x = str!{nil}; for let i: u64 = 0; i < 40; i++; std::string::append(&x, if i == n => d else c); size = len x; g = x[n]; o0 = x[39];',
    lambda e, o: [('length', o.size == 40), ('character', o.g == e.d), ('last', z3.Implies(e.n != 39, o.o0 == e.c))], (), {'c': 'char', 'd': 'char', 'n': 'u64'}, {'size': 'u64', 'g': 'char', 'o0': 'char'}, lambda e: z3.And(z3.ULT(e.n, 40), e.c != 0, e.d != 0), opts={'fork_mem': 64})
add('contains', 'b = std::string::contains(sp, tp);', lambda e, o: [('result', (o.b != 0) == (zs.strstr(e.s, e.t, e.sp) != 0))], [sb(4), sb(3, 't')], None, {'b': 'bool'})
add('equal', 'b = std::string::equal(sp, tp);', lambda e, o: [('result', (o.b != 0) == (zs.cmp(e.s, e.t) == 0))], [sb(4), sb(4, 't')], None, {'b': 'bool'})
add('equal:prefix', 'b = std::string::equal(sp, tp);', lambda e, o: [('result', (o.b != 0) == (zs.cmp(e.s, e.t) == 0))], [sb(4), sb(2, 't')], None, {'b': 'bool'})
add('equal:nil', 'b = std::string::equal(sp, nil) || std::string::equal(nil, sp);', lambda e, o: [('result', o.b == 0)], [sb(2)], None, {'b': 'bool'})
add('contains_char', 'b = std::string::contains_char(sp, c);', lambda e, o: [('result', (o.b != 0) == zs.isin(e.c, e.s))], [sb(5)], {'c': 'char'}, {'b': 'bool'})
add('find_char', 'let r = std::string::find_char(sp, c); b = is_none!(r); if !b n = unwrap!(r);', lambda e, o: [('found', (o.b == 0) == zs.isin(e.c, e.s)), ('position', z3.Implies(zs.isin(e.c, e.s), o.n == zs.chr_(e.s, e.c, e.sp) - e.sp))], [sb(5)], {'c': 'char', 'n': 'u64'}, {'b': 'bool', 'n': 'u64'})
def sub(e, o):
    n = e.to - e['from']
    t = [zs.sel(e.s, e['from'] + i) for i in range(5)]
    return [('given', o.nilr == 0)] + text(o, t, n, 5)
add('substr', 'let x = std::string::substr(sp, from, to); nilr = x == nil; if x != nil { size = len x; %s }' % show('x', 5), sub, [sb(5)], {'from': 'i64', 'to': 'i64'}, dict(outs_(5), nilr='bool'),
    lambda e: z3.And(e['from'] >= 0, e['from'] <= e.to, e.to <= strlen(e.s), e.to - e['from'] < strlen(e.s)))
def isspace(c): return z3.Or(c == 32, z3.And(z3.UGE(c, 9), z3.ULE(c, 13)))
def trim(e, o):
    L = len(e.s); n = strlen(e.s)
    a = b64(L)
    for i in reversed(range(L)): a = z3.If(z3.Not(isspace(e.s[i])), b64(i), a)
    z = b64(0)
    for i in range(L): z = z3.If(z3.And(z3.ULT(b64(i), n), z3.Not(isspace(e.s[i]))), b64(i + 1), z)
    m = z3.If(z3.ULT(z, a), b64(0), z - a)
    return [('start', o.q == e.sp + a)] + text(o, [zs.sel(e.s, a + i) for i in range(5)], m, 5)
add('trim', 'let x = std::string::trim(sp); q = (x: u64); size = len x; %s' % show('x', 5), trim, [Buf('s', 5, ptr='sp', off=8)], None, dict(outs_(5), q='u64'))
add('from_char', 'let x = std::string::from_char(c); size = len x; %s' % show('x', 2), lambda e, o: text(o, [e.c, z3.BitVecVal(0, 8)], z3.If(e.c == 0, b64(0), b64(1)), 2), (), {'c': 'char'}, outs_(2))
UNITS.append(Unit('string', '\n'.join(S) + '\nfn main(): i32 { ' + ' '.join(c.fn + '();' for c in CASES) + ' <- 0; }\n', CASES))
def main():
    r = Report(PID, 'model_checking')
    r.run_units(UNITS)
    r.finish()
if __name__ == '__main__': main()
