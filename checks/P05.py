"""P05: statements (if, while, for, for-range, loop, do-while, do-unless, match, break, continue, ret)."""
import sys, os, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.stmts import *

LOOPS = ['while', 'loop', 'dowhile', 'for', 'range', 'forlet']
LOOPS2 = LOOPS + ['fornc', 'forns', 'forni']
KINDS = LOOPS + ['if', 'ifelse', 'unless', 'match', 'matchd', 'block']
ESC = ['none', 'break', 'continue', 'ret']
ROT = [0]           # conditions are written in rotating shapes
def shaped(p, n, f, k=None):
    """p: a comparison, n: the opposite comparison; both sources"""
    if k is None: ROT[0] += 1; k = ROT[0]
    return X(['%s' % p, '!(%s)' % n, '%s && k == 12345' % p, 'k != 12345 || %s' % p, '(%s)' % p, 'idb(%s)' % p, '(if %s => true else false)' % p, '(%s) == true' % p,
              'k == 12345 && (%s || k == 1)' % p, '!(%s || k == 1)' % n, '(if %s => 0 else k) != 0' % n][k % 11], f)
bit = lambda v, i: shaped('((%s >> (%s)) & 1) == 1' % (v, i), '((%s >> (%s)) & 1) != 1' % (v, i), lambda s: z3.Extract(0, 0, s[v] >> ev(i, s)) == 1)
def ev(i, s):
    """tiny evaluator for counter expressions such as 'c0 * 2 + c1' """
    return eval(i, {}, {k: v for k, v in s.items() if k != 'ret'})
eqmatch = lambda mode, v, x: {'==': v == x, '<': v < x, '<=': v <= x, '>': v > x, '>=': v >= x}[mode]
ueqmatch = lambda mode, v, x: {'==': v == x, '<': z3.ULT(v, x), '<=': z3.ULE(v, x), '>': z3.UGT(v, x), '>=': z3.UGE(v, x)}[mode]
def inc(c): return ('set', c, X('%s + 1' % c, lambda s: s[c] + 1))
def plusplus(c): return ('raw', '%s++' % c, lambda r, g: r.set(g, c, r.st[c] + 1))
def lt(c, lim): return shaped('%s < %s' % (c, lim.src), '%s >= %s' % (c, lim.src), lambda s: s[c] < lim.f(s))

def wrap(kind, d, lim, body, cond):
    """statement `kind` at depth d around body; loops run lim times with counter c<d> = 1, 2, ..."""
    c = 'c%d' % d
    z = ('set', c, C(0))
    if kind == 'while': return ('seq', z, ('while', lt(c, lim), ('seq', inc(c), body)))
    if kind == 'loop': return ('seq', z, ('loop', ('seq', ('if', X('%s >= %s' % (c, lim.src), lambda s: s[c] >= lim.f(s)), ('break',), None), inc(c), body)))
    if kind == 'dowhile': return ('seq', z, ('dowhile', ('seq', inc(c), body), lt(c, lim)))
    if kind == 'for': return ('for', z, lt(c, lim), plusplus(c), body)
    if kind == 'forlet':
        v = 'q%d' % d
        return ('for', ('raw', 'let %s = 0;' % v, lambda r, g: r.set(TRUE, v, z3.BitVecVal(0, 32))), lt(v, lim), ('set', v, X('%s + 1' % v, lambda s: s[v] + 1)), ('seq', ('set', c, V(v)), body))
    if kind in ('fornc', 'forns', 'forni'):     # without condition, without step, without initialiser
        v = 'q%d' % d
        ini = ('raw', 'let %s = 0;' % v, lambda r, g: r.set(TRUE, v, z3.BitVecVal(0, 32)))
        if kind == 'fornc': return ('for', ini, None, ('set', v, X('%s + 1' % v, lambda s: s[v] + 1)), ('seq', ('if', X('%s >= %s' % (v, lim.src), lambda s: s[v] >= lim.f(s)), ('break',), None), ('set', c, V(v)), body))
        if kind == 'forns': return ('for', ini, lt(v, lim), None, ('seq', ('set', c, V(v)), ('set', v, X('%s + 1' % v, lambda s: s[v] + 1)), body))
        return ('seq', z, ('for', None, lt(c, lim), plusplus(c), body))
    if kind == 'range': return ('seq', z, ('range', C(0), lim, ('seq', inc(c), body)))
    if kind == 'if': return ('if', cond, body, None)
    if kind == 'ifelse': return ('if', cond, ('tick', 40 + d), body)
    if kind == 'unless': return ('unless', cond, body)
    if kind == 'match': return ('match', X('(m & 3)', lambda s: s['m'] & 3), eqmatch, [('==', C(0), ('tick', 50 + d)), ('==', C(1), body), ('==', C(2), ('seq', ('tick', 60 + d), body))], None)
    if kind == 'matchd': return ('match', X('(m & 3)', lambda s: s['m'] & 3), eqmatch, [('<', C(1), body), ('==', C(2), ('tick', 70 + d))], body)
    return ('seq', body)

def esc(kind, cond):
    if kind == 'none': return ('tick', 3)
    return ('if', cond, ('ret', X('t + 5', lambda s: s['t'] + 5)) if kind == 'ret' else (kind,), None)

def case_of(b, key, tree, unroll=3, ins=None, decl=''):
    memo = {}
    def oracle(e):
        if id(e) not in memo:
            st = {n: e[n] for n in 'abmn'}
            st.update({'t': z3.BitVecVal(1, 32), 'ret': z3.BitVecVal(77, 32)})
            for i in range(4): st['c%d' % i] = z3.BitVecVal(0, 32); st['q%d' % i] = z3.BitVecVal(0, 32)
            r = Run(st, unroll)
            r.run(tree, TRUE)
            memo[id(e)] = (e, r)
        return memo[id(e)][1]
    def post(e, o):
        r = oracle(e)
        return [('return value', o.r == r.st['ret']), ('trace', o.t == r.st['t']), ('canary', o.k == 12345)]
    pre = lambda e: oracle(e).pre
    h = 'fn @Fg(): i32 { let x1 = 12345; let c0 = 0; let c1 = 0; let c2 = 0; let c3 = 0; %s k = x1; ret 77; }\n' % src(tree)
    b.case(key, 't = 1; k = 12345; r = @Fg();', None, helpers=h, outs={'r': 'i32', 't': 'i32', 'k': 'i32'}, post=post, pre=pre)

def new(name):
    return Prog(name, ['let a: i32; let b: i32; let m: i32; let n: i32; let t: i32; let r: i32; let k: i32;', 'fn idb(x: bool): bool { ret x; }'], {x: 'i32' for x in 'abmn'}, {'r': 'i32'})

def single():
    b = new('single')
    lim = X('(n & 3)', lambda s: s['n'] & 3)
    for k in KINDS + LOOPS2[6:]:
        for e1 in ESC:
            if e1 == 'continue' and k not in LOOPS2: continue
            if e1 == 'break' and k not in LOOPS2 and not k.startswith('match'): continue
            body = ('seq', ('tick', 1), esc(e1, bit('a', 'c0')), ('tick', 2))
            case_of(b, '%s:%s' % (k, e1), ('seq', wrap(k, 0, lim, body, bit('b', '0')), ('tick', 9)), unroll=4)
    # a loop whose limits are any values (restricted to runs of at most 3 iterations)
    for k in LOOPS2:
        case_of(b, k + ':anylimit', ('seq', wrap(k, 0, V('n'), ('tick', 2), bit('b', '0')), ('tick', 9)), unroll=3)
    case_of(b, 'range:both', ('seq', ('range', V('a'), V('b'), ('tick', 2)), ('tick', 9)), unroll=3)
    case_of(b, 'range:expr', ('seq', ('range', X('a - b', lambda s: s['a'] - s['b']), X('n + m', lambda s: s['n'] + s['m']), ('tick', 2)), ('tick', 9)), unroll=3)
    for ops in (['==', '<'], ['<', '<=', '=='], ['>', '>=', '<'], ['>=', '==', '<='], ['==', '==', '=='], ['<=', '>']):
        for d in (False, True):
            for nest in (False, True):
                cs = [(o, [V('a'), V('b'), X('m + 1', lambda s: s['m'] + 1)][i], ('tick', 10 + i) if not nest else
                       ('if', bit('m', '0'), ('seq', ('tick', 20 + i), ('if', bit('m', '1'), ('tick', 5), ('tick', 6))), ('tick', 10 + i))) for i, o in enumerate(ops)]
                case_of(b, 'match%s%s%s' % (''.join(ops), d, nest), ('seq', ('match', V('n'), eqmatch, cs, ('tick', 33) if d else None), ('tick', 9)))
    return b.unit()

def nested(part):
    b = new('nested%d' % part)
    i = 0
    R = random.Random(SEED)
    two = C(2)
    for o in KINDS:
        for k in KINDS:
            for e1 in ESC:
                for e2 in ESC:
                    ok1 = e1 in ('none', 'ret') or (k in LOOPS or o in LOOPS) or (e1 == 'break' and (k.startswith('match') or o.startswith('match')))
                    ok2 = e2 in ('none', 'ret') or o in LOOPS or (e2 == 'break' and o.startswith('match'))
                    if not ok1 or not ok2 or (e1 == 'none' and e2 == 'none'): continue
                    i += 1
                    if i % 8 != part: continue
                    if not THOROUGH and not (e1 in ('break', 'continue') and k in LOOPS and e2 == 'none') and R.random() < .75: continue
                    inner = ('seq', ('tick', 1), esc(e1, bit('a', 'c0 * 3 + c1')), ('tick', 2))
                    mid = ('seq', ('tick', 4), wrap(k, 1, two, inner, bit('n', 'c0')), ('tick', 5), esc(e2, bit('b', 'c0')), ('tick', 7))
                    case_of(b, '%s/%s:%s,%s' % (o, k, e1, e2), ('seq', wrap(o, 0, two, mid, bit('n', '9')), ('tick', 9)), unroll=3)
    return b.unit()

BR = {'tick': ('tick', 3), 'break': ('break',), 'continue': ('continue',), 'ret': ('ret', C(5)), 'block': ('seq', ('tick', 8), ('tick', 11)), 'empty': ('seq',)}
def chains():
    """if / else if / else chains with every kind of branch, inside each kind of loop"""
    b = new('chains')
    i = 0
    for x in BR:
        for y in BR:
            for z in list(BR) + [None]:
                i += 1
                for k in (LOOPS if THOROUGH else [LOOPS[i % 6]]):
                    c = ('if', bit('a', 'c0'), BR[x], ('if', bit('b', 'c0'), BR[y], BR[z] if z else None))
                    case_of(b, '%s:%s,%s,%s' % (k, x, y, z), ('seq', wrap(k, 0, C(2), ('seq', ('tick', 1), c, ('tick', 2)), TRUE), ('tick', 9)), unroll=3)
    for x in BR:
        for y in list(BR) + [None]:
            for k in LOOPS2:     # as the whole body of the loop, as a branch of a match, as the body of unless
                body = ('if', bit('a', 'c0'), BR[x], BR[y] if y else None)
                case_of(b, 'body:%s:%s,%s' % (k, x, y), ('seq', wrap(k, 0, C(2), body if k in ('for', 'forlet') else ('seq', body, ('tick', 4)), TRUE), ('tick', 9)), unroll=3)
            cs = [('==', C(1), BR[x]), ('>', C(1), BR[y] if y else ('seq', ('if', bit('a', '1'), ('break',), None), ('tick', 5)))]
            case_of(b, 'match:%s,%s' % (x, y), ('seq', wrap('while', 0, C(2), ('seq', ('match', X('(m >> c0 & 3)', lambda s: (s['m'] >> s['c0']) & 3), eqmatch, cs, ('tick', 6) if y else None), ('tick', 7)), TRUE), ('tick', 9)), unroll=3)
        if x not in ('block', 'empty'): case_of(b, 'unless:%s' % x, ('seq', wrap('while', 0, C(2), ('seq', ('tick', 1), ('unless', bit('a', 'c0'), BR[x]), ('tick', 2)), TRUE), ('tick', 9)), unroll=3)
    return b.unit()

def condshapes():
    """every loop with every shape of condition"""
    b = new('condshapes')
    for k in LOOPS:
        for i in range(11):
            for e1 in ('none', 'continue', 'break'):
                ROT[0] = i - (1 if k != 'forlet' else 1)
                body = ('seq', ('tick', 1), esc(e1, bit('a', 'c0')), ('tick', 2))
                ROT[0] = i - 1
                case_of(b, '%s:%d:%s' % (k, i, e1), ('seq', wrap(k, 0, X('(n & 3)', lambda s: s['n'] & 3), body, TRUE), ('tick', 9)), unroll=4)
    return b.unit()

def rand_tree(R, d, loops, brk, cd):
    x = R.random()
    if d == 0 or x < .12:
        y = R.random()
        if y < .2 and brk: return ('if', bit('a', '%d + c0' % R.randrange(20)), ('break',), None)
        if y < .4 and loops: return ('if', bit('b', '%d + c0' % R.randrange(20)), ('continue',), None)
        if y < .56 and brk: return ('break',)
        if y < .6 and loops: return ('continue',)
        if y < .65: return ('if', bit('m', '%d' % R.randrange(30)), ('ret', C(R.randrange(100))), None)
        return ('tick', R.randrange(100))
    if x < .3 and cd < 3:
        k = R.choice(LOOPS)
        return wrap(k, cd, C(2), rand_tree(R, d - 1, True, True, cd + 1), TRUE)
    if x < .45:
        cs = [(R.choice(['==', '<', '>=']), C(R.randrange(4)), rand_tree(R, d - 1, loops, True, cd)) for _ in range(R.randrange(1, 3))]
        return ('match', X('(n >> c0 & 3)', lambda s: (s['n'] >> s['c0']) & 3), eqmatch, cs, rand_tree(R, d - 1, loops, True, cd) if R.random() < .5 else None)
    if x < .6: return ('if', bit('n', '%d' % R.randrange(30)), rand_tree(R, d - 1, loops, brk, cd), rand_tree(R, d - 1, loops, brk, cd) if R.random() < .6 else None)
    if x < .68: return ('unless', bit('n', '%d' % R.randrange(30)), ('seq', rand_tree(R, d - 1, loops, brk, cd)))
    return ('seq',) + tuple(rand_tree(R, d - 1, loops, brk, cd) for _ in range(R.randrange(2, 4)))

def random_unit(part):
    b = new('random%d' % part)
    R = random.Random('%d/%d' % (SEED, part))
    for i in range(60 if THOROUGH else 10):
        tree = ('seq', wrap(R.choice(LOOPS), 0, C(2), ('seq', rand_tree(R, 3, True, True, 1), rand_tree(R, 2, True, True, 1)), TRUE), ('tick', 9))
        case_of(b, str(i), tree, unroll=3)
    return b.unit()

def typed(T):
    """conditions and match subjects of every type"""
    b = Prog('typed_' + T, ['let x: %s; let y: %s; let z: %s; let t: i32; let k: i32;' % (T, T, T)], {'x': T, 'y': T, 'z': T}, {'t': 'i32'})
    one = lambda c, p, q: z3.If(c, z3.BitVecVal(p, 32), z3.BitVecVal(q, 32))
    nz = (lambda v: z3.Not(z3.fpIsZero(v))) if is_float(T) else (lambda v: v != 0)
    pre = (lambda e: [z3.Not(z3.fpIsNaN(e.x))]) if is_float(T) else None
    for key, s, want in [
            ('if', 't = 2; if x { t = 7; }', lambda e: one(nz(e.x), 7, 2)),
            ('ifelse', 'if x t = 7; else t = 2;', lambda e: one(nz(e.x), 7, 2)),
            ('while', 't = 2; while x { t = 7; break; }', lambda e: one(nz(e.x), 7, 2)),
            ('for', 't = 2; for ; x; ; { t = 7; break; }', lambda e: one(nz(e.x), 7, 2)),
            ('dowhile', 't = 2; do { if t == 7 break; t = t + 5; } while x;', lambda e: z3.BitVecVal(7, 32)),
            ('dowhile2', 't = 2; do { t = t + 5; if t == 12 break; } while x;', lambda e: one(nz(e.x), 12, 7)),
            ('unless', 't = 2; do { t = 7; } unless x;', lambda e: one(nz(e.x), 2, 7))]:
        b.case(key, s, None, ins={'x': T}, post=lambda e, o, want=want: o.t == want(e), pre=pre)
    if not is_float(T) and T != 'bool' and T != 'ptr':
        U = {'i8': 'u16', 'u8': 'i16', 'i16': 'u32', 'u16': 'i64', 'i32': 'i64', 'u32': 'u64', 'i64': 'i16', 'u64': 'u8'}.get(T)
        if U: b.decls.append('let v: %s; let w: %s;' % (U, U))
        def want(e, ops, d, sub, cs):
            """the case chosen: the first whose comparison holds"""
            r = z3.BitVecVal(33 if d else 2, 32)
            for i, (m, x) in reversed(list(enumerate(zip(ops, cs)))):
                r = z3.If(compare(m, sub, x).v, z3.BitVecVal(i + 10, 32), r)
            return r
        for ops in (['==', '<'], ['<', '>='], ['>', '<='], ['<='], ['==', '==']):
            for d in (False, True):
                for skey, sub in (('x', lambda e: var('x', T, e)), ('sum', lambda e: arith('+', var('x', T, e), var('z', T, e))), ('lit', lambda e: var('x', T, e)), ('mixed', lambda e: var('x', T, e))):
                    if skey == 'mixed' and not U or T == 'char' and skey in ('sum', 'lit'): continue
                    def cases(e, skey=skey, ops=ops):
                        if skey == 'lit':
                            l = [Ex('-3' if signed(T) else '200', T, z3.BitVecVal(-3 if signed(T) else 200, nbits(T))), Ex('7', T, z3.BitVecVal(7, nbits(T)))]
                        elif skey == 'mixed': l = [Ex(n, T, conv(e[n], U, T)) for n in 'vw']
                        else: l = [var('y', T, e), arith('-', var('z', T, e), var('y', T, e)) if skey == 'sum' else var('z', T, e)]
                        return l[:len(ops)]
                    ins = {'x': T, 'y': T, 'z': T} if skey != 'mixed' else {'x': T, 'v': U, 'w': U}
                    dm = Env({n: z3.BitVec(n, nbits(t)) for n, t in ins.items()})
                    cs = ' '.join('%s%s => t = %d;' % ('' if m == '==' else m + ' ', x.src, i + 10) for i, (m, x) in enumerate(zip(ops, cases(dm))))
                    b.case('match-%s%s%s' % (skey, ''.join(ops), d), 't = 2; match %s { %s%s }' % (sub(dm).src, cs, ' _ => t = 33;' if d else ''), None, ins=ins,
                           post=lambda e, o, ops=ops, d=d, sub=sub, cases=cases: z3.Or(*[o.t == w for w in either(lambda: want(e, ops, d, sub(e), cases(e)))]))
        if not signed(T) or T in ('i64', 'i32', 'i16', 'i8'):
            b.case('range', 't = 1; for x .. y { t++; }', None, ins={'x': T, 'y': T},
                   pre=lambda e: [z3.If(e.x < e.y if signed(T) else z3.ULT(e.x, e.y), z3.ULE(e.y - e.x, 3), True)] + ([e.x >= 0, e.y >= 0] if T == 'u64' else []),
                   post=lambda e, o: o.t == 1 + z3.If(e.x < e.y if signed(T) else z3.ULT(e.x, e.y), conv(e.y - e.x, T, 'i32'), z3.BitVecVal(0, 32)))
    return b.unit()

def calls():
    """values that live across statements and calls inside loops; recursion"""
    b = Prog('calls', ['let a: i32; let b: i32; let n: i32; let t: i32; let r: i32;', 'fn g(x: i32): i32 { t = t * 31 + x; ret x + 1; }',
                       'fn sum(x: i32): i32 { if x <= 0 ret 0; ret x + sum(x - 1); }', 'fn ev(x: i32): bool { if x == 0 { ret true; } ret od(x - 1); }',
                       'fn od(x: i32): bool { if x == 0 { ret false; } ret ev(x - 1); }', 'fn fib(x: i32): i32 { match x { <= 0 => ret 0; 1 => ret 1; } ret fib(x - 1) + fib(x - 2); }',
                       'fn ack(x: i32, y: i32): i32 { if x == 0 { ret y + 1; } if y == 0 { ret ack(x - 1, 1); } ret ack(x - 1, ack(x, y - 1)); }'],
             {'a': 'i32', 'b': 'i32', 'n': 'i32'}, {'r': 'i32'})
    def tr(*xs):
        v = z3.BitVecVal(1, 32)
        for x in xs: v = v * 31 + x
        return v
    b.case('sum', 'r = sum(n);', None, pre=lambda e: [e.n <= 6, e.n >= -3], post=lambda e, o: o.r == z3.If(e.n > 0, z3.UDiv(e.n * (e.n + 1), z3.BitVecVal(2, 32)), z3.BitVecVal(0, 32)))
    b.case('even', 'r = if ev(n) => 1 else 2;', None, pre=lambda e: [e.n <= 8, e.n >= 0], post=lambda e, o: o.r == 1 + (e.n & 1))
    b.case('fib', 'r = fib(n);', None, pre=lambda e: [e.n <= 6], post=lambda e, o: o.r == z3.If(e.n <= 0, 0, z3.If(e.n <= 2, 1, z3.If(e.n == 3, 2, z3.If(e.n == 4, 3, z3.If(e.n == 5, z3.BitVecVal(5, 32), z3.BitVecVal(8, 32)))))))
    b.case('ack', 'r = ack(a, b);', None, pre=lambda e: [e.a >= 0, e.a <= 1, e.b >= 0, e.b <= 3], post=lambda e, o: o.r == z3.If(e.a == 0, e.b + 1, e.b + 2))
    b.case('whilecall', 't = 1; r = 0; while r < 3 && g(r + a) != b { r++; } ', None, outs={'r': 'i32', 't': 'i32'},
           post=lambda e, o: z3.Or(*[z3.And(o.r == k, o.t == tr(*[e.a + j for j in range(min(k + 1, 3))]), *[e.a + j + 1 != e.b for j in range(k)], *([e.a + k + 1 == e.b] if k < 3 else [])) for k in range(4)]))
    b.case('forcall', 't = 1; for let i = g(a); i != g(b) && i < a + 3; i = g(i); { t = t + n; }', None, outs={'t': 'i32'}, pre=lambda e: [e.a < 100, e.a > -100, e.b < 200, e.b > -200, e.n < 100, e.n > -100],
           post=lambda e, o: o.t == forcall(e))
    def forcall(e):
        t = z3.BitVecVal(1, 32) * 31 + e.a; i = e.a + 1; live = z3.BoolVal(True)
        for _ in range(4):
            tc = t * 31 + e.b
            t = z3.If(live, tc, t)
            live = z3.And(live, i != e.b + 1, i < e.a + 3)
            t2 = (t + e.n) * 31 + i
            t = z3.If(live, t2, t); i = z3.If(live, i + 1, i)
        return z3.simplify(t)
    b.case('matchcall', 't = 1; r = 2; match g(a) { g(b) => r = 10; g(n) => r = 11; _ => r = 12; }', None, outs={'r': 'i32', 't': 'i32'},
           post=lambda e, o: z3.And(o.r == z3.If(e.a == e.b, 10, z3.If(e.a == e.n, z3.BitVecVal(11, 32), z3.BitVecVal(12, 32))), o.t == z3.If(e.a == e.b, tr(e.a, e.b), tr(e.a, e.b, e.n))))
    b.case('rangecall', 't = 1; for (g(a): i64) .. (g(b): i64) { t = t + 1; }', None, outs={'t': 'i32'}, pre=lambda e: [e.b - e.a <= 3, e.b >= -1000, e.b < 1000, e.a >= -1000, e.a < 1000],
           post=lambda e, o: o.t == tr(e.a, e.b) + z3.If(e.b > e.a, e.b - e.a, z3.BitVecVal(0, 32)))
    b.case('accum', 'let s: i64 = 0; for let i = 0; i < 4; i++; { let q = g(a + i); for let j = 0; j < 2; j++; { s = s + (q: i64) * (j: i64); } } r = (s: i32);', None,
           post=lambda e, o: o.r == e.a * 4 + 10)
    b.case('shadow', 'let i = a; r = 0; for let i = 0; i < 3; i++; { let a = i * 2; r = r + a; { let a = 100; r = r + a; } r = r + a; } r = r + i + a;', None,
           post=lambda e, o: o.r == 312 + e.a + e.a)
    return b.unit()

def main():
    r = Report('P05', 'translation_validation')
    r.run_units([single(), calls(), chains(), condshapes()] + [nested(i) for i in range(8)] + [random_unit(i) for i in range(4)] +
                [typed(T) for T in ('i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'bool', 'char', 'f32', 'f64', 'f80')])
    r.finish()
if __name__ == '__main__': main()
