"""P02: comparisons, logical operators, conditional expressions."""
import sys, os, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.lang import *

CMP = ['==', '!=', '<', '<=', '>', '>=']

def cmp_unit(T):
    ops = CMP if T != 'bool' else CMP[:2]
    R = random.Random('%s%s' % (T, SEED))
    b = Prog('cmp_' + T, ['let a: %s; let b: %s; let c: %s; let d: %s; let r: bool; let k: i32; let n: i32; let x64: i64;' % (T, T, T, T), "let arr: %s 'c[4];" % T,
          'type S: struct { p: u8, x: %s, q: u8, y: %s };' % (T, T), 'let s: S;', 'type Al: %s;' % T],
          {x: T for x in 'abcd'}, {'r': 'bool'})
    V = lambda e: [var(x, T, e) for x in 'abcd']
    for op in ops:
        ex = lambda e, op=op: compare(op, *V(e)[:2])
        b.case('global' + op, 'r = a %s b;' % op, ex)
        b.case('local' + op, 'let x: %s = a; let pad: u8 = 3; let y: %s = b; let z: bool = x %s y; r = z;' % (T, T, op), ex)
        b.case('param' + op, 'r = @Fg(a, b);', ex, helpers='fn @Fg(x: %s, y: %s): bool { ret x %s y; }\n' % (T, T, op))
        b.case('elem' + op, "arr[1] = a; arr[2] = b; r = arr[1] %s arr[2];" % op, ex)
        b.case('member' + op, "s.x = a; s.y = b; r = s.x %s s.y;" % op, ex)
        b.case('deref' + op, "let p: &%s = &a; let q: &%s = &b; r = *p %s *q;" % (T, T, op), ex)
        b.case('alias' + op, 'let x: Al = a; let y: Al = b; r = x %s y;' % op, ex)
        b.case('not' + op, 'r = !(a %s b);' % op, lambda e, op=op: unary('!', compare(op, *V(e)[:2])))
        cnd = lambda e, op=op: compare(op, *V(e)[:2]).v
        b.case('if' + op, 'k = 5; if a %s b { k = 9; }' % op, None, outs={'k': 'i32'}, post=lambda e, o, c=cnd: o.k == z3.If(c(e), z3.BitVecVal(9, 32), z3.BitVecVal(5, 32)))
        b.case('ifelse' + op, 'if a %s b k = 9; else k = 5;' % op, None, outs={'k': 'i32'}, post=lambda e, o, c=cnd: o.k == z3.If(c(e), z3.BitVecVal(9, 32), z3.BitVecVal(5, 32)))
        b.case('ternary' + op, 'k = if a %s b => 9 else 5;' % op, None, outs={'k': 'i32'}, post=lambda e, o, c=cnd: o.k == z3.If(c(e), z3.BitVecVal(9, 32), z3.BitVecVal(5, 32)))
        b.case('ternval' + op, 'c = if a %s b => a else b;' % op, lambda e, op=op: ternary(compare(op, *V(e)[:2]), *V(e)[:2]), outs={'c': T})
        for lo in ('&&', '||'):
            b.case('%s%s' % (lo, op), 'r = a %s b %s c %s d;' % (op, lo, op), lambda e, op=op, lo=lo: logic(lo, compare(op, *V(e)[:2]), compare(op, *V(e)[2:])))
        if T != 'bool':
            for ao in ('+', '-'):
                b.case('expr%s%s' % (ao, op), 'r = (a %s b) %s (c %s d);' % (ao, op, ao), lambda e, op=op, ao=ao: compare(op, arith(ao, *V(e)[:2]), arith(ao, *V(e)[2:])))
            b.case('self' + op, 'r = a %s a;' % op, lambda e, op=op: compare(op, V(e)[0], V(e)[0]))
    if T == 'i32':
        for op in ops:
            for n in (0, 1, 127, 128, 255, 65535, 2147483647):
                b.case('lit%s%d' % (op, n), 'r = a %s %d;' % (op, n), lambda e, op=op, n=n: compare(op, V(e)[0], lit(n)))
                b.case('lneg%s%d' % (op, n), 'r = a %s -%d;' % (op, n), lambda e, op=op, n=n: compare(op, V(e)[0], Ex('', 'i32', z3.BitVecVal(-n, 32))))
    return b.unit()

def logic_unit():
    """truth values, evaluation count and order of the logical operators"""
    b = Prog('logic', ['let a: bool; let b: bool; let c: bool; let d: bool; let r: bool; let n: u32; let i: i32; let j: i32; let r64: i64;',
                    'fn ta(): bool { n = n * 8 + 1; ret a; }', 'fn tb(): bool { n = n * 8 + 2; ret b; }',
                    'fn tc(): bool { n = n * 8 + 3; ret c; }', 'fn td(): bool { n = n * 8 + 4; ret d; }',
                    'fn vi(): i32 { n = n * 8 + 5; ret i; }', 'fn vj(): i32 { n = n * 8 + 6; ret j; }'],
          {'a': 'bool', 'b': 'bool', 'c': 'bool', 'd': 'bool', 'i': 'i32', 'j': 'i32'}, {'r': 'bool'})
    V = lambda e: [var(x, 'bool', e) for x in 'abcd']
    # the evaluation trace of an expression tree: (value, trace)
    def ev(t, e, tr):
        if isinstance(t, str):
            k = 'abcd'.index(t) + 1
            return e[t] != 0, tr * 8 + k
        if t[0] == '!':
            v, tr = ev(t[1], e, tr); return z3.Not(v), tr
        if t[0] == '?':
            v, tr = ev(t[1], e, tr)
            x, t1 = ev(t[2], e, tr); y, t2 = ev(t[3], e, tr)
            return z3.If(v, x, y), z3.If(v, t1, t2)
        v, tr = ev(t[1], e, tr); w, t2 = ev(t[2], e, tr)
        if t[0] == '&&': return z3.And(v, w), z3.If(v, t2, tr)
        return z3.Or(v, w), z3.If(v, tr, t2)
    def src(t):
        if isinstance(t, str): return 't%s()' % t
        if t[0] == '!': return '(! %s)' % src(t[1])
        if t[0] == '?': return '(if %s => %s else %s)' % tuple(src(x) for x in t[1:])
        return '(%s %s %s)' % (src(t[1]), t[0], src(t[2]))
    R = random.Random(SEED)
    trees = []
    for o in ('&&', '||'):
        trees += [(o, 'a', 'b'), ('!', (o, 'a', 'b')), (o, ('!', 'a'), 'b')]
        for o2 in ('&&', '||'):
            trees += [(o, (o2, 'a', 'b'), 'c'), (o, 'a', (o2, 'b', 'c')), (o, (o2, 'a', 'b'), (o2, 'c', 'd')), ('?', (o, 'a', 'b'), 'c', 'd'),
                      (o, ('?', 'a', 'b', 'c'), 'd'), ('?', 'a', (o, 'b', 'c'), (o2, 'c', 'd'))]
    def rt(d):
        if d == 0: return R.choice('abcd')
        k = R.random()
        if k < .2: return ('!', rt(d - 1))
        if k < .35: return ('?', rt(d - 1), rt(d - 1), rt(d - 1))
        return (R.choice(['&&', '||']), rt(d - 1), rt(d - 1))
    for _ in range(40 if THOROUGH else 12): trees.append(rt(3))
    zero = lambda: z3.BitVecVal(0, 32)
    for t in trees:
        s = src(t)
        p = lambda e, o, t=t: [('value', same('bool', o.r, ev(t, e, zero())[0])), ('evaluation', o.n == ev(t, e, zero())[1])]
        b.case('assign ' + s, 'n = 0; r = %s;' % s, None, outs={'r': 'bool', 'n': 'u32'}, post=p)
        b.case('if ' + s, 'n = 0; r = false; if %s { r = true; }' % s, None, outs={'r': 'bool', 'n': 'u32'}, post=p)
        b.case('call ' + s, 'n = 0; r = @Fg(%s);' % s, None, outs={'r': 'bool', 'n': 'u32'}, post=p, helpers='fn @Fg(x: bool): bool { ret x; }\n')
        b.case('neg ' + s, 'n = 0; r = ! (%s);' % s, None, outs={'r': 'bool', 'n': 'u32'}, post=lambda e, o, t=t: [('value', same('bool', o.r, z3.Not(ev(t, e, zero())[0]))), ('evaluation', o.n == ev(t, e, zero())[1])])
        if not isinstance(t, str):
            b.case('while ' + s, 'n = 0; r = false; while %s { r = true; break; }' % s, None, outs={'r': 'bool', 'n': 'u32'}, post=p)
    # conditional expressions select exactly one branch
    b.case('tern once', 'n = 0; i = if ta() => vi() else vj();', None, outs={'i': 'i32', 'n': 'u32'},
           post=lambda e, o: [o.i == z3.If(e.a != 0, e.i, e.j), o.n == z3.If(e.a != 0, z3.BitVecVal(13, 32), z3.BitVecVal(14, 32))])
    b.case('tern sum', 'n = 0; i = i + (if a => vi() else vj()) + j;', None, outs={'i': 'i32', 'n': 'u32'},
           post=lambda e, o: [o.i == z3.If(e.a != 0, e.i, e.j) + e.i + e.j, o.n == z3.If(e.a != 0, z3.BitVecVal(5, 32), z3.BitVecVal(6, 32))])
    b.case('tern nest', 'i = if a => (if b => 1 else 2) else (if c => 3 else 4);', None, outs={'i': 'i32'},
           post=lambda e, o: o.i == z3.If(e.a != 0, z3.If(e.b != 0, z3.BitVecVal(1, 32), z3.BitVecVal(2, 32)), z3.If(e.c != 0, z3.BitVecVal(3, 32), z3.BitVecVal(4, 32))))
    b.case('and local', 'let x = a && b; let y = x || c; r = y && !d;', None, post=lambda e, o: same('bool', o.r, z3.And(z3.Or(z3.And(e.a != 0, e.b != 0), e.c != 0), e.d == 0)))
    # `x else y`: y only if x is zero
    el = lambda e: z3.If(e.i == 0, e.j, e.i)
    b.case('else value', 'i = i else j;', None, outs={'i': 'i32'}, post=lambda e, o: o.i == el(e))
    b.case('else sum', 'let x = i; let y = j; i = x + (x else y) * 3 + y;', None, outs={'i': 'i32'}, post=lambda e, o: o.i == e.i + el(e) * 3 + e.j)
    b.case('else arg', 'i = @Fg(i, i else j, j);', None, outs={'i': 'i32'}, post=lambda e, o: o.i == e.i * 2 + el(e) * 5 - e.j,
           helpers='fn @Fg(x: i32, y: i32, z: i32): i32 { ret x * 2 + y * 5 - z; }\n')
    b.case('else once', 'n = 0; i = vi() else vj();', None, outs={'i': 'i32', 'n': 'u32'},
           post=lambda e, o: [o.i == el(e), o.n == z3.If(e.i == 0, z3.BitVecVal(46, 32), z3.BitVecVal(5, 32))])
    # short circuit protects the right operand
    b.case('guard div', 'r = i != 0 && j / i > 2;', None, pre=lambda e: [z3.Not(z3.And(e.i == -1, e.j == 1 << 31))],
           post=lambda e, o: same('bool', o.r, z3.And(e.i != 0, e.j / e.i > 2)))
    b.case('guard or div', 'r = i == 0 || j / i > 2;', None, pre=lambda e: [z3.Not(z3.And(e.i == -1, e.j == 1 << 31))],
           post=lambda e, o: same('bool', o.r, z3.Or(e.i == 0, e.j / e.i > 2)))
    b.case('guard tern div', 'i = if i == 0 => j else j % i;', None, outs={'i': 'i32'}, pre=lambda e: [z3.Not(z3.And(e.i == -1, e.j == 1 << 31))],
           post=lambda e, o: o.i == z3.If(e.i == 0, e.j, z3.SRem(e.j, e.i)))
    return b.unit()

def ptr_unit():
    b = Prog('ptr', ['let p: &i32; let q: &i32; let r: bool; let k: i32; let o: &i32;', 'fn dr(x: &i32): i32 { ret *x; }'], {'p': 'ptr', 'q': 'ptr', 'k': 'i32'}, {'r': 'bool'})
    for op in ('==', '!=', '<', '<=', '>', '>='):
        f = {'==': lambda x, y: x == y, '!=': lambda x, y: x != y, '<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE}[op]
        if op in ('==', '!='):
            b.case('ptr' + op, 'r = p %s q;' % op, None, post=lambda e, o, f=f: same('bool', o.r, f(e.p, e.q)))
            b.case('nil' + op, 'r = p %s nil;' % op, None, post=lambda e, o, f=f: same('bool', o.r, f(e.p, z3.BitVecVal(0, 64))))
            b.case('lnil' + op, 'let x: &i32 = p; r = nil %s x;' % op, None, post=lambda e, o, f=f: same('bool', o.r, f(e.p, z3.BitVecVal(0, 64))))
            b.case('if' + op, 'r = false; if p %s q { r = true; }' % op, None, post=lambda e, o, f=f: same('bool', o.r, f(e.p, e.q)))
            b.case('guard' + op, 'let x: &i32 = if k > 0 => &k else (nil: &i32); r = x %s nil %s *x > 7;' % (op, '&&' if op == '!=' else '||'), None,
                   post=lambda e, o, op=op: same('bool', o.r, z3.And(e.k > 0, e.k > 7) if op == '!=' else z3.Or(e.k <= 0, e.k > 7)))
        else:     # ordering of addresses inside one address range half
            b.case('ptr' + op, 'r = p %s q;' % op, None, pre=lambda e: [e.p > 0, e.q > 0], post=lambda e, o, f=f: same('bool', o.r, f(e.p, e.q)))
    return b.unit()

def shapes_unit(T):
    b = Prog('shape_' + T, shape_decls(T), shape_ins(T), {'sq': 'bool'})
    d = Env({n: z3.BitVec(n, nbits(t)) for n, t in shape_ins(T).items()})
    for i, (x, y) in enumerate(shape_pairs()):
        pre = shape(T, 'a', x, d)[0] + shape(T, 'b', y, d)[0]
        sx, sy = shape(T, 'a', x, d)[1].src, shape(T, 'b', y, d)[1].src
        for op in CMP if THOROUGH else [CMP[(i + i // 12) % 6], CMP[2 + (i + i // 12) % 4]]:
            b.case('%s%s%s' % (x, op, y), '%ssq = %s %s %s;' % (pre, sx, op, sy), lambda e, op=op, x=x, y=y: compare(op, shape(T, 'a', x, e)[1], shape(T, 'b', y, e)[1]))
    return b.unit()

def mixed_unit():
    TS = ALLI + ['char', 'f32', 'f64']
    b = Prog('mixed', ['let r: bool;'] + ['let x_%s: %s; let y_%s: %s;' % (t, t, t, t) for t in TS], {}, {'r': 'bool'})
    for A in TS:
        for B in TS:
            if A == B or (osz(A) == osz(B) and is_float(A) == is_float(B)) or 'u64' in (A, B) and (is_float(A) or is_float(B)): continue
            for op in CMP:
                b.case('%s%s%s' % (A, op, B), 'r = x_%s %s x_%s;' % (A, op, B), lambda e, A=A, B=B, op=op: compare(op, var('x_' + A, A, e), var('x_' + B, B, e)),
                       ins={'x_' + A: A, 'x_' + B: B})
                if A in ALLI and B in ALLI:
                    b.case('%s%s%s expr' % (A, op, B), 'r = x_%s %s (x_%s - y_%s);' % (A, op, B, B),
                           lambda e, A=A, B=B, op=op: compare(op, var('x_' + A, A, e), arith('-', var('x_' + B, B, e), var('y_' + B, B, e))),
                           ins={'x_' + A: A, 'x_' + B: B, 'y_' + B: B})
    return b.unit()

def main():
    r = Report('P02', 'translation_validation')
    r.run_units([cmp_unit(T) for T in ALLI + ['bool', 'char']] + [logic_unit(), ptr_unit(), mixed_unit()] + [shapes_unit(T) for T in ('i64', 'i32', 'u8', 'u64', 'i16')])
    r.finish()
if __name__ == '__main__': main()
