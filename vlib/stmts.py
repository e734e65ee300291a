"""Statement oracle: CSpydr statements with a reference interpretation over z3 terms.

A program fragment is a tree of tuples; src() prints it, run() executes it symbolically (predicated
execution: every assignment is guarded by the condition under which it is reached)."""
import z3
from .lang import *

class X:
    """an expression: source and its meaning in a state (name -> term)"""
    def __init__(self, src, f): self.src, self.f = src, f
def V(n): return X(n, lambda s: s[n])
def C(k, t='i32'): return X(str(k) if t == 'i32' else '(%d: %s)' % (k, t), lambda s: z3.BitVecVal(k, nbits(t)))

def S(x): return z3.simplify(x)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

class Run:
    def __init__(self, st, unroll):
        self.st = dict(st); self.unroll = unroll; self.pre = []     # pre: the inputs stay within the unrolling
        self.ret = None

    def set(self, g, n, v):
        self.st[n] = S(z3.If(g, v, self.st[n])) if not z3.is_true(g) else S(v)

    def run(self, t, g):
        """-> (normal, break, continue, return) guards"""
        if z3.is_false(g): return FALSE, FALSE, FALSE, FALSE
        k = t[0]
        if k == 'set': self.set(g, t[1], t[2].f(self.st)); return g, FALSE, FALSE, FALSE
        if k == 'tick': self.set(g, 't', self.st['t'] * 31 + t[1]); return g, FALSE, FALSE, FALSE
        if k == 'raw': t[2](self, g); return g, FALSE, FALSE, FALSE
        if k == 'noop': return g, FALSE, FALSE, FALSE
        if k == 'seq':
            b = c = r = FALSE
            for x in t[1:]:
                g, b1, c1, r1 = self.run(x, g)
                b, c, r = S(z3.Or(b, b1)), S(z3.Or(c, c1)), S(z3.Or(r, r1))
            return g, b, c, r
        if k == 'if':
            v = t[1].f(self.st)
            return self.join(self.run(t[2], S(z3.And(g, v))), self.run(t[3], S(z3.And(g, z3.Not(v)))) if t[3] else (S(z3.And(g, z3.Not(v))), FALSE, FALSE, FALSE))
        if k == 'unless':
            v = t[1].f(self.st)
            n, b, c, r = self.run(t[2], S(z3.And(g, z3.Not(v))))
            return S(z3.Or(n, z3.And(g, v))), b, c, r
        if k == 'break': return FALSE, g, FALSE, FALSE
        if k == 'continue': return FALSE, FALSE, g, FALSE
        if k == 'ret':
            if t[1] is not None: self.set(g, 'ret', t[1].f(self.st))
            return FALSE, FALSE, FALSE, g
        if k == 'match':
            v = t[1].f(self.st)
            out = (FALSE, FALSE, FALSE, FALSE)
            for mode, x, body in t[3]:
                m = S(z3.And(g, t[2](mode, v, x.f(self.st))))
                g = S(z3.And(g, z3.Not(m)))
                out = self.join(out, self.run(body, m))
            if t[4]: out = self.join(out, self.run(t[4], g))
            else: out = self.join(out, (g, FALSE, FALSE, FALSE))
            n, b, c, r = out
            return S(z3.Or(n, b)), FALSE, c, r
        if k in ('while', 'loop', 'dowhile', 'for', 'range'):
            init = cond = step = None
            if k == 'while': cond, body = t[1], t[2]
            elif k == 'loop': body = t[1]
            elif k == 'dowhile': body, cond = t[1], t[2]
            elif k == 'for': init, cond, step, body = t[1:5]
            else:
                lo, hi, body = t[1].f(self.st), t[2].f(self.st), t[3]
            if init: self.run(init, g)
            leave, ret = FALSE, FALSE
            for n in range(self.unroll + 1):
                if k == 'range':
                    v = lo + n < hi; leave = S(z3.Or(leave, z3.And(g, z3.Not(v)))); g = S(z3.And(g, v))
                elif cond is not None and (k != 'dowhile' or n):
                    v = cond.f(self.st); leave = S(z3.Or(leave, z3.And(g, z3.Not(v)))); g = S(z3.And(g, v))
                if n == self.unroll:
                    self.pre.append(S(z3.Not(g))); break
                nn, b, c, r = self.run(body, g)
                leave, ret = S(z3.Or(leave, b)), S(z3.Or(ret, r))
                g = S(z3.Or(nn, c))
                if step: self.run(step, g)
                if z3.is_false(g): break
            return leave, FALSE, FALSE, ret
        raise ValueError(k)
    @staticmethod
    def join(a, b): return tuple(S(z3.Or(x, y)) for x, y in zip(a, b))

def src(t, semi=True):
    k = t[0]
    if k == 'set': return '%s = %s%s' % (t[1], t[2].src, ';' if semi else '')
    if k == 'tick': return 't = t * 31 + %d%s' % (t[1], ';' if semi else '')
    if k == 'raw': return t[1]
    if k == 'noop': return 'noop;'
    if k == 'seq': return '{ ' + ' '.join(src(x) for x in t[1:]) + ' }'
    if k == 'if':
        b = src(t[2])
        if t[3] and t[2][0] not in ('set', 'tick', 'raw', 'break', 'continue', 'ret', 'seq'): b = '{ %s }' % b      # (no dangling else)
        return 'if %s %s%s' % (t[1].src, b, (' else ' + src(t[3])) if t[3] else '')
    if k == 'unless': return 'do %s unless %s;' % (src(t[2], False), t[1].src)
    if k == 'break': return 'break' + (';' if semi else '')
    if k == 'continue': return 'continue' + (';' if semi else '')
    if k == 'ret': return ('ret %s' % t[1].src if t[1] is not None else 'ret') + (';' if semi else '')
    if k == 'match':
        return 'match %s { ' % t[1].src + ' '.join('%s%s => %s' % ('' if m == '==' else m + ' ', x.src, src(b)) for m, x, b in t[3]) + \
            (' _ => %s' % src(t[4]) if t[4] else '') + ' }'
    if k == 'while': return 'while %s %s' % (t[1].src, src(t[2]))
    if k == 'loop': return 'loop %s' % src(t[1])
    if k == 'dowhile': return 'do %s while %s;' % (src(t[1], False), t[2].src)
    if k == 'for': return 'for %s %s; %s; %s' % (src(t[1]) if t[1] else ';', t[2].src if t[2] else '', src(t[3], False) if t[3] else '', src(t[4]))
    if k == 'range': return 'for %s .. %s %s' % (t[1].src, t[2].src, src(t[3]))
    raise ValueError(k)
