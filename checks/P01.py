"""P01: integer arithmetic, bitwise operators, compound assignment, increments."""
import sys, os, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.lang import *

OPS = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^']
COMPOUND = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^']

def unit_for(T, seed):
    rng = random.Random('%s/%s' % (seed, T))
    decls = ['let a: %s; let b: %s; let c: %s; let r: %s;' % (T, T, T, T), "let arr: %s 'c[4];" % T,
             'type S: struct { p: u8, x: %s, q: u8, y: %s };' % (T, T), 'let s: S;', 'let k: i32; let r64: i64; let rb: bool;', 'type Al: %s;' % T, 'let ga: Al; let gb: Al;']
    funcs = []; cases = []
    ins = {'a': T, 'b': T, 'c': T}
    V = lambda e: (var('a', T, e), var('b', T, e), var('c', T, e))
    def case(key, body, expr, pre_extra=None, ins=ins, outs=None, post=None, helpers=''):
        fn = 'f%d' % len(funcs)
        funcs.append((fn, helpers.replace('@F', fn) + 'fn %s(): void { %s }' % (fn, body.replace('@F', fn))))
        def pre(e):
            return [c for x in either(lambda: expr(e)) for c in x.ok] + (pre_extra(e) if pre_extra else [])
        cases.append(Case('%s:%s' % (T, key), fn, ins, outs or {'r': T}, post or (lambda e, o: z3.Or(*[same(T, o.r, x.v) for x in either(lambda: expr(e))])), pre,
                          desc=body))
    for op in OPS:
        ex = lambda e, op=op: arith(op, *V(e)[:2])
        case('global%s' % op, 'r = a %s b;' % op, ex)
        case('local%s' % op, 'let x: %s = a; let pad: u8 = 3; let y: %s = b; let z: %s = x %s y; r = z;' % (T, T, T, op), ex)
        case('param%s' % op, 'r = @Fg(a, b);', ex, helpers='fn @Fg(x: %s, y: %s): %s { ret x %s y; }\n' % (T, T, T, op))
        case('elem%s' % op, "let v: %s 'c[3]; v[2] = a; v[1] = b; v[0] = v[2] %s v[1]; r = v[0];" % (T, op), ex)
        case('deref%s' % op, 'let x: %s = a; let p: &%s = &x; let q: &%s = &b; *p = *p %s *q; r = x;' % (T, T, T, op), ex)
        case('member%s' % op, 's.x = a; s.y = b; s.x = s.x %s s.y; r = s.x;' % op, ex)
        case('compound%s' % op, 'r = a; r %s= b;' % op, ex)
        case('compoundlocal%s' % op, 'let x: %s = a; x %s= b; r = x;' % (T, op), ex)
        case('compoundelem%s' % op, 'arr[1] = a; arr[1] %s= b; r = arr[1];' % op, ex)
        case('alias%s' % op, 'let x: Al = a; let y: Al = b; let z: Al = x %s y; r = z;' % op, ex)
        case('aliasglobal%s' % op, 'ga = a; gb = b; ga = ga %s gb; r = ga;' % op, ex)
        case('aliascompound%s' % op, 'let x: Al = a; x %s= b; r = x;' % op, ex)
        case('const%s' % op, 'const x: %s = a; const y: %s = b; r = x %s y;' % (T, T, op), ex)
        # the result used directly in a wider operation, in a comparison and in a division
        case('widened%s' % op, 'r64 = ((a %s b): i64);' % op, lambda e, op=op: cast(arith(op, *V(e)[:2]), 'i64'), outs={'r64': 'i64'},
             post=lambda e, o, op=op: z3.Or(*[same('i64', o.r64, x.v) for x in either(lambda: cast(arith(op, *V(e)[:2]), 'i64'))]))
        case('compared%s' % op, 'rb = (a %s b) < c;' % op, lambda e, op=op: compare('<', arith(op, *V(e)[:2]), V(e)[2]), outs={'rb': 'bool'},
             post=lambda e, o, op=op: z3.Or(*[same('bool', o.rb, x.v) for x in either(lambda: compare('<', arith(op, *V(e)[:2]), V(e)[2]))]))
        case('self%s' % op, 'r = a %s a;' % op, lambda e, op=op: arith(op, V(e)[0], V(e)[0]))
    # nested expressions: both shapes and random trees
    for op in OPS:
        for op2 in ['+', '-', '&'] if T not in ('i32', 'u32') else ['+', '-', '&', '^', '|']:
            case('lnest%s%s' % (op, op2), 'r = (a %s b) %s c;' % (op2, op), lambda e, op=op, op2=op2: arith(op, arith(op2, *V(e)[:2]), V(e)[2]))
            case('rnest%s%s' % (op, op2), 'r = a %s (b %s c);' % (op, op2), lambda e, op=op, op2=op2: arith(op, V(e)[0], arith(op2, V(e)[1], V(e)[2])))
    def tree(e, rng, d):
        if d == 0 or rng.random() < .15: return rng.choice(V(e))
        op = rng.choice(['+', '-', '*', '&', '|', '^', '+', '-'])
        if rng.random() < .15: return unary(rng.choice('-~'), tree(e, rng, d - 1))
        x = tree(e, rng, d - 1); y = tree(e, rng, d - 1)
        return arith(op, x, y)
    dummy = Env({'a': z3.BitVec('a', nbits(T)), 'b': z3.BitVec('b', nbits(T)), 'c': z3.BitVec('c', nbits(T))})
    for k in range(30 if THOROUGH else 8):
        sd = rng.random()
        src = tree(dummy, random.Random(sd), 3 + k % 2).src
        case('tree%d' % k, 'r = %s;' % src, lambda e, sd=sd, k=k: tree(e, random.Random(sd), 3 + k % 2))
    for op in '-~':
        case('un%s' % op, 'r = %sa;' % op, lambda e, op=op: unary(op, V(e)[0]))
        case('unnest%s' % op, 'r = %s(a + b);' % op, lambda e, op=op: unary(op, arith('+', *V(e)[:2])))
    # literals
    for op, n in [('+', 1), ('-', 7), ('*', 3), ('*', 8), ('/', 2), ('/', 3), ('/', 100), ('+', 100), ('-', 127)]:
        case('lit%s%d' % (op, n), 'r = a %s %d;' % (op, n), lambda e, op=op, n=n: cast(arith(op, V(e)[0], lit(n)), T))
        case('litl%s%d' % (op, n), 'r = %d %s a;' % (n, op), lambda e, op=op, n=n: cast(arith(op, lit(n), V(e)[0]), T))
    for op, d in (('++', 1), ('--', -1)):
        t = lambda e, d=d: Ex('', T, V(e)[0].v + d)
        case('inc%s' % op, 'r = a; r%s;' % op, t)
        case('inclocal%s' % op, 'let x: %s = a; x%s; r = x;' % (T, op), t)
        case('incelem%s' % op, 'arr[2] = a; arr[2]%s; r = arr[2];' % op, t)
        case('incmember%s' % op, 's.y = a; s.y%s; r = s.y;' % op, t)
    # neighbours of the assigned object keep their value
    case('neigh', 'arr[0] = a; arr[1] = b; arr[2] = a; arr[1] += c; r = arr[1];', lambda e: arith('+', V(e)[1], V(e)[2]),
         outs={'r': T, 'arr': (T, 4)}, post=lambda e, o: [('r', o.r == e.b + e.c), ('n', conj([o.arr[0] == e.a, o.arr[2] == e.a]))])
    case('neighs', 's.p = 17; s.q = 29; s.x = a; s.y = b; s.x -= c; s.y *= c; r = s.x; ', lambda e: arith('-', V(e)[0], V(e)[2]),
         outs={'r': T, 's': ('u8', tsize(T) * 4)},
         post=lambda e, o: [('r', o.r == e.a - e.c), ('p', o.s[0] == 17), ('q', o.s[2 * tsize(T)] == 29)])
    return Unit('int_' + T, program(decls, funcs), cases)

def shapes_unit(T):
    """every pair of operand shapes"""
    ops = ['-', '/', '+', '*', '<<', '^', '%', '&', '>>', '|']
    b = Prog('shape_' + T, shape_decls(T), shape_ins(T), {'sr': T})
    pairs = shape_pairs()
    for i, (x, y) in enumerate(pairs):
        for op in ops if THOROUGH else ['-'] + [ops[1 + (i + i // 12) % 9]]:
            if op in '/%' and (x in 'bkat' or y in 'bkat'): op = '*'
            def ex(e, op=op, x=x, y=y): return arith(op, shape(T, 'a', x, e)[1], shape(T, 'b', y, e)[1])
            d = Env({n: z3.BitVec(n, nbits(t)) for n, t in shape_ins(T).items()})
            pre = shape(T, 'a', x, d)[0] + shape(T, 'b', y, d)[0]
            b.case('%s%s%s' % (x, op, y), '%ssr = %s %s %s;' % (pre, shape(T, 'a', x, d)[1].src, op, shape(T, 'b', y, d)[1].src), ex)
    return b.unit()

def mixed_unit():
    decls = ['let r64: i64;']; funcs = []; cases = []
    for A in ALLI:
        decls.append('let x_%s: %s; let y_%s: %s;' % (A, A, A, A))
    for A in ALLI:
        for B in ALLI:
            if A == B: continue
            for op in '+-*/%&|^':
                if op in '%&|^' and osz(A) == osz(B): continue
                t = B if osz(A) < osz(B) else A
                fn = 'm%d' % len(funcs)
                decls.append('let o_%s: %s;' % (fn, t))
                funcs.append((fn, 'fn %s(): void { o_%s = x_%s %s x_%s; }' % (fn, fn, A, op, B)))
                def ex(e, A=A, B=B, op=op): return arith(op, var('x_' + A, A, e), var('x_' + B, B, e))
                cases.append(Case('mixed:%s%s%s' % (A, op, B), fn, {'x_' + A: A, 'x_' + B: B}, {'o_' + fn: t},
                             lambda e, o, ex=ex, fn=fn, t=t: z3.Or(*[same(t, o['o_' + fn], x.v) for x in either(lambda: ex(e))]), lambda e, ex=ex: list(ex(e).ok)))
            if osz(A) == osz(B): continue
            for op in '+-*/%&|^':       # the right operand is the result of another operation
                if op in '/%' and max(osz(A), osz(B)) < 4: continue     # division of 16-bit intermediates: too hard for the solver
                t = B if osz(A) < osz(B) else A
                fn = 'm%d' % len(funcs)
                decls.append('let o_%s: %s;' % (fn, t))
                funcs.append((fn, 'fn %s(): void { o_%s = x_%s %s (x_%s - y_%s); }' % (fn, fn, A, op, B, B)))
                def ex2(e, A=A, B=B, op=op): return arith(op, var('x_' + A, A, e), arith('-', var('x_' + B, B, e), var('y_' + B, B, e)))
                cases.append(Case('mixedexpr:%s%s%s' % (A, op, B), fn, {'x_' + A: A, 'x_' + B: B, 'y_' + B: B}, {'o_' + fn: t},
                             lambda e, o, ex=ex2, fn=fn, t=t: z3.Or(*[same(t, o['o_' + fn], x.v) for x in either(lambda: ex(e))]), lambda e, ex=ex2: [c for x in either(lambda: ex(e)) for c in x.ok]))
            for op in '+-*%&|^':
                fn = 'm%d' % len(funcs)
                funcs.append((fn, 'fn %s(): void { x_%s %s= x_%s; }' % (fn, A, op, B)))
                def ex3(e, A=A, B=B, op=op): return cast(arith(op, var('x_' + A, A, e), var('x_' + B, B, e)), A)
                cases.append(Case('mixedcompound:%s%s%s' % (A, op, B), fn, {'x_' + A: A, 'x_' + B: B}, {'x_' + A: A},
                             lambda e, o, ex=ex3, A=A: z3.Or(*[same(A, o['x_' + A], x.v) for x in either(lambda: ex(e))]), lambda e, ex=ex3: [c for x in either(lambda: ex(e)) for c in x.ok]))
            for op in ('<<', '>>'):
                fn = 'm%d' % len(funcs)
                decls.append('let o_%s: %s;' % (fn, A))
                funcs.append((fn, 'fn %s(): void { o_%s = x_%s %s x_%s; }' % (fn, fn, A, op, B)))
                def ex4(e, A=A, B=B, op=op): return arith(op, var('x_' + A, A, e), Ex('', A, conv(e['x_' + B], B, A)))
                cases.append(Case('mixedshift:%s%s%s' % (A, op, B), fn, {'x_' + A: A, 'x_' + B: B}, {'o_' + fn: A},
                             lambda e, o, ex=ex4, A=A, fn=fn: z3.Or(*[same(A, o['o_' + fn], x.v) for x in either(lambda: ex(e))]),
                             lambda e, A=A, B=B: [z3.ULT(e['x_' + B], nbits(A))]))
    return Unit('mixed', program(decls, funcs), cases)

def main():
    r = Report('P01', 'translation_validation')
    units = [unit_for(T, SEED) for T in ALLI] + [mixed_unit()] + [shapes_unit(T) for T in ('i64', 'i32', 'u8', 'u64')]
    r.run_units(units)
    r.finish()
if __name__ == '__main__': main()
