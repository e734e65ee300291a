"""Reference semantics of CSpydr expressions, as z3 terms.  Every node carries its CSpydr source
text, its type and its value; the text goes through the real compiler, the value is the oracle."""
import z3
from .core import Case, Unit, INTS, FLTS, F32, F64, F80, RNE, RTZ, nbits, signed, is_float
from . import x86

SINTS = ['i8', 'i16', 'i32', 'i64']
UINTS = ['u8', 'u16', 'u32', 'u64']
ALLI = SINTS + UINTS

# 8 and 16 bit operands are computed with at 32 bits by both back ends (as in C); whether an
# intermediate result is wrapped to its own type before the next operator is not specified, so
# the oracle has two modes and a result is right if it agrees with one of them.
MODE = ['wrap']
def narrow(t): return t in INTS and t != 'bool' and nbits(t) < 32
class mode:
    def __init__(self, m): self.m = m
    def __enter__(self): self.o = MODE[0]; MODE[0] = self.m
    def __exit__(self, *a): MODE[0] = self.o
def either(build):
    """build() under both modes -> list of expressions"""
    out = []
    for m in ('wrap', 'wrapu', 'int'):   # wrapu: the same values as wrap, unsigned operators written as such
        with mode(m): out.append(build())
    return out
def wide(v, t):
    """32-bit working value of a narrow operand"""
    if v.size() == 32: return v
    return z3.SignExt(32 - v.size(), v) if signed(t) else z3.ZeroExt(32 - v.size(), v)
def norm(v, t):
    """value as stored in an object of type t"""
    if t in INTS and z3.is_bv(v) and v.size() != nbits(t): return z3.Extract(nbits(t) - 1, 0, v)
    return v

class Ex:
    """src text, type, value (BV/FP; bool: z3 Bool), ok: definedness condition"""
    __slots__ = ('src', 'ty', 'v', 'ok')
    def __init__(self, src, ty, v, ok=()):
        self.src, self.ty, self.v, self.ok = src, ty, v, tuple(ok)

def var(name, ty, env=None, val=None):
    v = val if val is not None else env[name]
    if ty == 'bool': v = v != 0
    return Ex(name, ty, v)

def lit(n, ty='i32'):
    if ty in INTS: return Ex(str(n), ty, z3.BitVecVal(n, nbits(ty)))
    raise ValueError

def conv(v, a, b):
    """value conversion a -> b (the language's casts)"""
    if a == b: return v
    if a == 'bool':
        if b in INTS: return z3.If(v, z3.BitVecVal(1, nbits(b)), z3.BitVecVal(0, nbits(b)))
        return z3.If(v, z3.FPVal(1.0, FLTS[b][0]), z3.FPVal(0.0, FLTS[b][0]))
    if b == 'bool':
        return v != 0 if a in INTS else z3.Not(z3.fpIsZero(v))
    if a in INTS and b in INTS:
        if z3.is_bv(v) and v.size() != nbits(a): a = 'i32'
        n, m = nbits(a), nbits(b)
        if m == n: return v
        if m < n: return z3.Extract(m - 1, 0, v)
        return z3.SignExt(m - n, v) if signed(a) else z3.ZeroExt(m - n, v)
    if a in INTS:
        s = FLTS[b][0]
        if v.size() != nbits(a): a = 'i32'
        if a != 'u64':       # a wider signed integer has the same value, and this is the form the machine code gives
            k = 64 if a in ('u32', 'i64') else 32
            if k > v.size(): v = z3.simplify(z3.SignExt(k - v.size(), v) if signed(a) else z3.ZeroExt(k - v.size(), v))
            return z3.fpSignedToFP(RNE, v, s)
        return z3.fpSignedToFP(RNE, v, s) if signed(a) else z3.fpUnsignedToFP(RNE, v, s)
    if b in INTS:
        return z3.fpToSBV(RTZ, v, z3.BitVecSort(nbits(b))) if signed(b) else z3.fpToUBV(RTZ, v, z3.BitVecSort(nbits(b)))
    return z3.fpFPToFP(RNE, v, FLTS[b][0])

def cast(e, ty, explicit=True):
    return Ex('(%s: %s)' % (e.src, ty) if explicit else e.src, ty, conv(e.v, e.ty, ty), e.ok)

def osz(t): return {'f32': 4, 'f64': 8, 'f80': 16}.get(t) or (1 if t == 'bool' else nbits(t) // 8)

def divok(a, b, n, sg):
    c = [b != 0]
    if sg: c.append(z3.Not(z3.And(a == (1 << (n - 1)), b == x86.mask(n))))
    return c

def canon(f, a, b):
    if a.get_id() > b.get_id(): a, b = b, a
    return f(a, b)

def arith(op, a, b, paren=True):
    """+ - * /: the wider operand's type wins; % << >> & | ^: operands of one type"""
    if op in '+-*/%&|^' and a.ty != b.ty:
        t = b.ty if osz(a.ty) < osz(b.ty) else a.ty
        x, y = conv(a.v, a.ty, t), conv(b.v, b.ty, t)
    else:
        t = a.ty; x, y = a.v, b.v
        assert a.ty == b.ty, (op, a.ty, b.ty)
    ok = a.ok + b.ok
    if is_float(t):
        f = {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}[op]
        x, y = z3.simplify(x), z3.simplify(y)
        v = z3.simplify(canon(lambda p, q: f(RNE, p, q), x, y) if op in '+*' else f(RNE, x, y))
    else:
        n, s = nbits(t), signed(t)
        nar = narrow(t)
        if nar:
            x, y = wide(x, t), wide(y, t)
        if op in '/%':
            ok += (y != 0,)
            if s: ok += (z3.Not(z3.And(x == (1 << 31 if nar else 1 << (n - 1)), y == -1)),)
            if s and nar: ok += (z3.Not(z3.And(x == -(1 << (n - 1)), y == -1)),)
        if op in ('<<', '>>'): ok += (z3.ULT(y, n),)
        us = not s and (not nar or MODE[0] == 'wrapu')         # unsigned operation
        v = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: canon(lambda p, q: p * q, x, y),
             '/': lambda: z3.UDiv(x, y) if us else x / y, '%': lambda: z3.URem(x, y) if us else z3.SRem(x, y),
             '<<': lambda: x << y, '>>': lambda: z3.LShR(x, y) if us else x >> y,
             '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y}[op]()
        if nar and MODE[0] != 'int': v = z3.Extract(n - 1, 0, v)
    src = '%s %s %s' % (a.src, op, b.src)
    return Ex('(%s)' % src if paren else src, t, v, ok)

def unary(op, a):
    if op == '!': return Ex('(!%s)' % a.src, 'bool', z3.Not(a.v), a.ok)
    if is_float(a.ty): v = z3.fpNeg(a.v)
    elif narrow(a.ty):
        v = -wide(a.v, a.ty) if op == '-' else ~wide(a.v, a.ty)
        if MODE[0] != 'int': v = z3.Extract(nbits(a.ty) - 1, 0, v)
    else: v = -a.v if op == '-' else ~a.v
    return Ex('(%s%s)' % (op, a.src), a.ty, v, a.ok)

def compare(op, a, b, paren=True):
    if a.ty != b.ty:        # the wider type, a float before an integer
        assert osz(a.ty) != osz(b.ty) or is_float(a.ty) != is_float(b.ty)
        fa, fb = is_float(a.ty), is_float(b.ty)
        t = (b.ty if fb else a.ty) if fa != fb else (b.ty if osz(b.ty) > osz(a.ty) else a.ty)
        a, b = Ex(a.src, t, conv(a.v, a.ty, t), a.ok), Ex(b.src, t, conv(b.v, b.ty, t), b.ok)
    x, y = a.v, b.v
    if is_float(a.ty):
        v = {'==': z3.fpEQ, '!=': lambda p, q: z3.Not(z3.fpEQ(p, q)), '<': z3.fpLT, '<=': z3.fpLEQ, '>': z3.fpGT, '>=': z3.fpGEQ}[op](x, y)
    elif a.ty == 'bool':
        v = {'==': x == y, '!=': x != y}[op]
    else:
        s = signed(a.ty)
        if narrow(a.ty): x, y = wide(x, a.ty), wide(y, a.ty); s = True
        v = {'==': lambda: x == y, '!=': lambda: x != y,
             '<': lambda: x < y if s else z3.ULT(x, y), '<=': lambda: x <= y if s else z3.ULE(x, y),
             '>': lambda: x > y if s else z3.UGT(x, y), '>=': lambda: x >= y if s else z3.UGE(x, y)}[op]()
    src = '%s %s %s' % (a.src, op, b.src)
    return Ex('(%s)' % src if paren else src, 'bool', v, a.ok + b.ok)

def logic(op, a, b, paren=True):
    """&& and || short-circuit: the right side only has to be defined when it is evaluated"""
    v = z3.And(a.v, b.v) if op == '&&' else z3.Or(a.v, b.v)
    g = a.v if op == '&&' else z3.Not(a.v)
    ok = a.ok + tuple(z3.Implies(g, c) for c in b.ok)
    src = '%s %s %s' % (a.src, op, b.src)
    return Ex('(%s)' % src if paren else src, 'bool', v, ok)

def ternary(c, a, b):
    assert a.ty == b.ty
    ok = c.ok + tuple(z3.Implies(c.v, x) for x in a.ok) + tuple(z3.Implies(z3.Not(c.v), x) for x in b.ok)
    return Ex('(if %s => %s else %s)' % (c.src, a.src, b.src), a.ty, z3.If(c.v, a.v, b.v), ok)

def same(ty, got, want):
    """equality of a stored value with the oracle"""
    if ty == 'bool':
        return got == z3.If(want, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if isinstance(want, z3.BoolRef) else got == want
    if is_float(ty):
        return z3.Or(got == want, z3.And(z3.fpIsNaN(got), z3.fpIsNaN(want)))
    return got == norm(want, ty)

def program(decls, funcs, imports=()):
    """a complete program: main calls every function so that none is dead"""
    names = [n for n, _ in funcs]
    return ''.join('import "%s";\n' % i for i in imports) + '\n'.join(decls) + '\n' + '\n'.join(b for _, b in funcs) + \
        '\nfn main(): i32 {\n' + ''.join('    %s();\n' % n for n in names) + '    <- 0;\n}\n'

class Prog:
    """program builder"""
    def __init__(self, name, decls, ins, outs):
        self.name, self.decls, self.funcs, self.cases, self.ins, self.outs = name, list(decls), [], [], ins, outs
    def case(self, key, body, expr, outs=None, post=None, helpers='', ins=None, pre=None):
        fn = 'f%d' % len(self.funcs)
        self.funcs.append((fn, helpers.replace('@F', fn) + 'fn %s(): void { %s }' % (fn, body.replace('@F', fn))))
        outs = outs or self.outs
        rn = list(outs)[0]
        def pr(e):
            return ([c for x in either(lambda: expr(e)) for c in x.ok] if expr else []) + (list(pre(e)) if pre else [])
        self.cases.append(Case('%s:%s' % (self.name, key), fn, ins or self.ins, outs,
            post or (lambda e, o: z3.Or(*[same(outs[rn], o[rn], x.v) for x in either(lambda: expr(e))])), pr, desc=body))
    def unit(self, **kw): return Unit(self.name, program(self.decls, self.funcs), self.cases, **kw)

# ------------------------------------------------------------------ operand shapes
SHAPES = 'glcpnmdektba'
def shape_decls(T):
    return ['let sa: %s; let sb: %s; let sc: %s; let sk: i32; let sarr: %s \'c[4]; let si: i32; let sr: %s; let sq: bool;' % (T, T, T, T, T),
            'type SS: struct { p: u8, x: %s, q: u8, y: %s }; let ss: SS; let sps: &SS;' % (T, T),
            'fn sid(x: %s): %s { ret x; }' % (T, T), 'fn sid2(k: i32, x: %s, y: %s): %s { if k > 3 { ret x; } ret y; }' % (T, T, T)]
def shape_ins(T): return {'sa': T, 'sb': T, 'sc': T, 'sk': 'i32'}
def shape(T, x, k, e):
    """operand number x ('a' or 'b') in shape k -> (statements before, expression)"""
    v = var('s' + x, T, e); c = var('sc', T, e); kk = e.sk
    if k == 'g': return '', v
    if k == 'l': return 'let l%s: %s = s%s; ' % (x, T, x), Ex('l' + x, T, v.v)
    if k == 'c': return '', Ex('sid(s%s)' % x, T, v.v)
    if k == 'a': return '', Ex('sid2(sk, s%s, sc)' % x, T, z3.If(kk > 3, v.v, c.v))
    if k == 'p': return '', Ex('(s%s)' % x, T, v.v)
    if k == 'n': return '', unary('-', v) if T != 'bool' else unary('!', v)
    if k == 'm': return 'ss.%s = s%s; ' % ('x' if x == 'a' else 'y', x), Ex('ss.%s' % ('x' if x == 'a' else 'y'), T, v.v)
    if k == 'd': return 'let p%s: &%s = &s%s; ' % (x, T, x), Ex('*p%s' % x, T, v.v)
    if k == 'e': return 'sarr[%d] = s%s; si = 1; ' % ('ab'.index(x) + 1, x), Ex('sarr[%s]' % ('si' if x == 'a' else 'si + 1'), T, v.v)
    if k == 'k':
        W = {'i8': 'i64', 'i16': 'i64', 'i32': 'i64', 'u8': 'u32', 'u16': 'u64', 'u32': 'u64', 'i64': 'u64', 'u64': 'i64', 'f32': 'f64', 'f64': 'f80', 'f80': 'f80'}[T]
        if W == T: return '', v
        return 'let w%s: %s = (s%s: %s); ' % (x, W, x, W), Ex('(w%s: %s)' % (x, T), T, conv(conv(v.v, T, W), W, T) if is_float(T) else v.v)
    if k == 't': return '', Ex('(if sk > 3 => s%s else sc)' % x, T, z3.If(kk > 3, v.v, c.v))
    if k == 'b': return '', arith('+', v, c)
def shape_pairs(): return [(a, b) for a in SHAPES for b in SHAPES]
