"""P03: floating point arithmetic and comparison."""
import sys, os, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.lang import *

CMP = ['==', '!=', '<', '<=', '>', '>=']

def unit(T):
    R = random.Random('%s%s' % (T, SEED))
    b = Prog('flt_' + T, ['let a: %s; let b: %s; let c: %s; let d: %s; let r: %s; let q: bool; let k: i32;' % (T, T, T, T, T), "let arr: %s 'c[4];" % T,
             'type S: struct { p: u8, x: %s, z: u8, y: %s };' % (T, T), 'let s: S;', 'type Al: %s;' % T, 'fn idf(x: %s): %s { ret x; }' % (T, T)],
             {x: T for x in 'abcd'}, {'r': T})
    V = lambda e: [var(x, T, e) for x in 'abcd']
    for op in '+-*/':
        ex = lambda e, op=op: arith(op, *V(e)[:2])
        b.case('global' + op, 'r = a %s b;' % op, ex)
        b.case('local' + op, 'let x: %s = a; let pad: u8 = 3; let y: %s = b; let z: %s = x %s y; r = z;' % (T, T, T, op), ex)
        b.case('param' + op, 'r = @Fg(a, b);', ex, helpers='fn @Fg(x: %s, y: %s): %s { ret x %s y; }\n' % (T, T, T, op))
        b.case('elem' + op, 'arr[1] = a; arr[3] = b; arr[2] = arr[1] %s arr[3]; r = arr[2];' % op, ex)
        b.case('member' + op, 's.x = a; s.y = b; s.x = s.x %s s.y; r = s.x;' % op, ex)
        b.case('deref' + op, 'let x: %s = a; let p: &%s = &x; let y: &%s = &b; *p = *p %s *y; r = x;' % (T, T, T, op), ex)
        b.case('compound' + op, 'r = a; r %s= b;' % op, ex)
        b.case('compoundlocal' + op, 'let x: %s = a; x %s= b; r = x;' % (T, op), ex)
        b.case('compoundmember' + op, 's.y = a; s.y %s= b; r = s.y;' % op, ex)
        b.case('alias' + op, 'let x: Al = a; let y: Al = b; let z: Al = x %s y; r = z;' % op, ex)
        b.case('call' + op, 'r = idf(a) %s idf(b);' % op, ex)
        b.case('self' + op, 'r = a %s a;' % op, lambda e, op=op: arith(op, V(e)[0], V(e)[0]))
        for op2 in '+-*/':
            b.case('lnest%s%s' % (op, op2), 'r = (a %s b) %s c;' % (op2, op), lambda e, op=op, op2=op2: arith(op, arith(op2, *V(e)[:2]), V(e)[2]))
            b.case('rnest%s%s' % (op, op2), 'r = a %s (b %s c);' % (op, op2), lambda e, op=op, op2=op2: arith(op, V(e)[0], arith(op2, V(e)[1], V(e)[2])))
            b.case('both%s%s' % (op, op2), 'r = (a %s b) %s (c %s d);' % (op2, op, op2), lambda e, op=op, op2=op2: arith(op, arith(op2, *V(e)[:2]), arith(op2, *V(e)[2:])))
        # integer operands are converted
        for I in ALLI:
            if osz(I) > osz(T): continue
        b.case('neg' + op, 'r = -(a %s b);' % op, lambda e, op=op: unary('-', arith(op, *V(e)[:2])))
        b.case('nega' + op, 'r = (-a) %s b;' % op, lambda e, op=op: arith(op, unary('-', V(e)[0]), V(e)[1]))
    b.case('neg', 'r = -a;', lambda e: unary('-', V(e)[0]))
    b.case('neglocal', 'let x = -a; r = x;', lambda e: unary('-', V(e)[0]))
    b.case('copy', 'let x = a; let y = x; arr[0] = y; s.x = arr[0]; r = s.x;', lambda e: V(e)[0])
    b.case('tern', 'r = if k > 3 => a else b;', None, ins=dict({x: T for x in 'ab'}, k='i32'), post=lambda e, o: same(T, o.r, z3.If(e.k > 3, e.a, e.b)))
    b.case('neighbours', 'arr[0] = a; arr[1] = b; arr[2] = c; arr[1] = d; s.p = 7; s.z = 9; s.x = a; s.y = b; k = (s.p: i32) + (s.z: i32) * 256;', None, outs={'arr': (T, 4), 'k': 'i32'},
           post=lambda e, o: [('0', same(T, o.arr[0], e.a)), ('1', same(T, o.arr[1], e.d)), ('2', same(T, o.arr[2], e.c)), ('pz', o.k == 9 * 256 + 7)])
    for op in CMP:
        ex = lambda e, op=op: compare(op, *V(e)[:2])
        q = {'q': 'bool'}
        pq = lambda e, o, op=op: same('bool', o.q, compare(op, *V(e)[:2]).v)
        b.case('cmp' + op, 'q = a %s b;' % op, None, outs=q, post=pq)
        b.case('cmplocal' + op, 'let x = a; let y = b; let z = x %s y; q = z;' % op, None, outs=q, post=pq)
        b.case('cmpif' + op, 'q = false; if a %s b { q = true; }' % op, None, outs=q, post=pq)
        b.case('cmpwhile' + op, 'q = false; while a %s b { q = true; break; }' % op, None, outs=q, post=pq)
        b.case('cmpnot' + op, 'q = ! (a %s b);' % op, None, outs=q, post=lambda e, o, op=op: same('bool', o.q, z3.Not(compare(op, *V(e)[:2]).v)))
        b.case('cmpand' + op, 'q = a %s b && c %s d;' % (op, op), None, outs=q, post=lambda e, o, op=op: same('bool', o.q, z3.And(compare(op, *V(e)[:2]).v, compare(op, *V(e)[2:]).v)))
        b.case('cmpself' + op, 'q = a %s a;' % op, None, outs=q, post=lambda e, o, op=op: same('bool', o.q, compare(op, V(e)[0], V(e)[0]).v))
        b.case('cmpexpr' + op, 'q = a + b %s c;' % op, None, outs=q, post=lambda e, o, op=op: same('bool', o.q, compare(op, arith('+', *V(e)[:2]), V(e)[2]).v))
        b.case('select' + op, 'r = if a %s b => c else d;' % op, None, post=lambda e, o, op=op: same(T, o.r, z3.If(compare(op, *V(e)[:2]).v, e.c, e.d)))
    def tree(e, rng, d):
        if d == 0 or rng.random() < .1: return rng.choice(V(e))
        if rng.random() < .15: return unary('-', tree(e, rng, d - 1))
        x = tree(e, rng, d - 1); y = tree(e, rng, d - 1)
        return arith(rng.choice('+-*/'), x, y)
    dummy = make_dummy(T)
    for k in range(30 if THOROUGH else 8):
        sd = R.random()
        b.case('tree%d' % k, 'r = %s;' % tree(dummy, random.Random(sd), 3 + k % 2).src, lambda e, sd=sd, k=k: tree(e, random.Random(sd), 3 + k % 2))
    return b.unit()

def make_dummy(T): return Env({x: z3.FP(x, FLTS[T][0]) for x in 'abcd'})

def shapes_unit(T):
    b = Prog('shape_' + T, shape_decls(T), shape_ins(T), {'sr': T})
    d = Env({n: z3.FP(n, FLTS[T][0]) if t == T else z3.BitVec(n, 32) for n, t in shape_ins(T).items()})
    for i, (x, y) in enumerate(shape_pairs()):
        pre = shape(T, 'a', x, d)[0] + shape(T, 'b', y, d)[0]
        sx, sy = shape(T, 'a', x, d)[1].src, shape(T, 'b', y, d)[1].src
        for op in '+-*/' if THOROUGH else '-' + '/+*'[(i + i // 12) % 3]:
            b.case('%s%s%s' % (x, op, y), '%ssr = %s %s %s;' % (pre, sx, op, sy), lambda e, op=op, x=x, y=y: arith(op, shape(T, 'a', x, e)[1], shape(T, 'b', y, e)[1]))
        for op in CMP if THOROUGH else [CMP[(i + i // 12) % 6], CMP[2 + (i + i // 12) % 4]]:
            b.case('%s%s%s' % (x, op, y), '%ssq = %s %s %s;' % (pre, sx, op, sy), None, outs={'sq': 'bool'},
                   post=lambda e, o, op=op, x=x, y=y: same('bool', o.sq, compare(op, shape(T, 'a', x, e)[1], shape(T, 'b', y, e)[1]).v))
    return b.unit()

def mixed():
    TS = ALLI + ['f32', 'f64']
    b = Prog('flt_mixed', ['let x_%s: %s;' % (t, t) for t in TS], {}, {})
    for A in TS:
        for B in TS:
            if A == B or not (is_float(A) or is_float(B)): continue
            for op in '+-*/':
                t = B if osz(A) < osz(B) else A
                if not is_float(t) or 'u64' in (A, B): continue     # (i64 op f32 is an integer operation: conversion of a float to an integer, see casts)
                b.decls.append('let o_%s_%s_%d: %s;' % (A, B, '+-*/'.index(op), t))
                o_ = 'o_%s_%s_%d' % (A, B, '+-*/'.index(op))
                b.case('%s%s%s' % (A, op, B), '%s = x_%s %s x_%s;' % (o_, A, op, B),
                       lambda e, A=A, B=B, op=op: arith(op, var('x_' + A, A, e), var('x_' + B, B, e)), outs={o_: t}, ins={'x_' + A: A, 'x_' + B: B})
    return b.unit()

def main():
    r = Report('P03', 'translation_validation')
    r.run_units([unit(T) for T in ('f32', 'f64', 'f80')] + [mixed()] + [shapes_unit(T) for T in ('f32', 'f64', 'f80')])
    r.finish()
if __name__ == '__main__': main()
