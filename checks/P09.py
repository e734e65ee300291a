"""P09: grouping of expressions written without parentheses (precedence and associativity of every operator)."""
import sys, os, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.lang import *

# binding strength, weakest first; operators of one level group from the left, assignments from the right
LEVELS = [['='], ['|>'], ['<+>'], ['||'], ['&&'], ['`sub2`', 'else'], [':'], ['|'], ['^'], ['&'], ['==', '!='], ['<', '<=', '>', '>='], ['<<', '>>'],
          ['+', '-'], ['*', '/'], ['%'], ['un'], ['pow'], ['post']]
PREC = {o: i for i, l in enumerate(LEVELS) for o in l}
ATOM = len(LEVELS)
INTB = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '<+>', '`sub2`', 'else']
CMP = ['==', '!=', '<', '<=', '>', '>=']
LOG = ['&&', '||']
VARS = 'abcdefgh'
BOOLS = ['p', 'q', 's', 't']

class N:
    """tree node: op, children, type; src(): with as few parentheses as the table allows"""
    def __init__(self, op, ty, *kids, txt=None):
        self.op, self.ty, self.kids, self.txt = op, ty, kids, txt
        self.prec = {'var': ATOM, 'lit': ATOM, 'if': 0, '-': None, '~': None}.get(op, PREC.get(op))
        if op in ('neg', 'not', 'inv', '<~>', 'deref'): self.prec = PREC['un']
        if op in ('²', '³'): self.prec = PREC['pow']
        if op in ('idx', 'mem', 'call', 'closure'): self.prec = PREC['post']
        if op in ('-',): self.prec = PREC['-']
    def tail(self):
        """does the text end in an open ternary (which would swallow whatever follows)?"""
        if self.op == 'if': return True
        if self.op in ('var', 'lit', ':', '²', '³', 'idx', 'mem', 'call', 'closure'): return False
        if self.op == '|>': return False
        k = self.kids[-1]
        need = PREC['un'] if self.prec == PREC['un'] else self.prec + 1
        return k.tail() and (k.op == 'if' or k.prec >= need)
    def sub(self, k, need):
        s = k.src()
        return s if k.prec >= need else '(%s)' % s
    def left(self, k, need): return '(%s)' % k.src() if k.tail() else self.sub(k, need)
    def right(self, k, need): return k.src() if k.op == 'if' else self.sub(k, need)
    def src(self):
        k = self.kids; o = self.op
        if o in ('var', 'lit'): return self.txt
        if o in ('neg', 'not', 'inv', '<~>', 'deref'):
            c = {'neg': '-', 'not': '!', 'inv': '~', '<~>': '<~>', 'deref': '*'}[o]
            return c + ' ' + self.right(k[0], PREC['un'])
        if o in ('²', '³'): return self.left(k[0], PREC['pow']) + o
        if o == 'idx': return 'arr[%s]' % k[0].src()
        if o == 'mem': return 'st.x'
        if o == 'call': return 'one(%s)' % k[0].src()
        if o == ':': return '%s: %s' % (self.left(k[0], PREC[':']), self.ty)
        if o == 'if': return 'if %s => %s else %s' % (k[0].src(), self.sub(k[1], PREC['else'] + 1) if k[1].op != 'if' else '(%s)' % k[1].src(), k[2].src())
        if o == '|>': return '%s |> %s' % (self.left(k[0], PREC['|>']), self.txt)
        return '%s %s %s' % (self.left(k[0], self.prec), o, self.right(k[1], self.prec + 1))
    def val(self, e):
        k = [x.val(e) for x in self.kids]; o = self.op
        if o == 'var': return var(self.txt, self.ty, e)
        if o == 'lit': return lit(int(self.txt))
        if o in ('neg', 'not', 'inv'): return unary({'neg': '-', 'not': '!', 'inv': '~'}[o], k[0])
        if o == '<~>': return arith('+', arith('*', k[0], lit(7)), lit(1))
        if o == '²': return arith('*', k[0], k[0])
        if o == '³': return arith('*', k[0], arith('*', k[0], k[0]))
        if o == 'deref': return var('h', 'i32', e)
        if o == 'idx':
            i = k[0]; return Ex('', 'i32', zs_sel(e.arr, i.v), i.ok + (z3.ULT(i.v, 4),))
        if o == 'mem': return var('c', 'i32', e)
        if o == 'call': return arith('^', k[0], lit(85))
        if o == ':': return cast(k[0], self.ty)
        if o == 'if': return ternary(*k)
        if o == 'else': return Ex('', k[0].ty, z3.If(k[0].v != 0, k[0].v, k[1].v), k[0].ok + tuple(z3.Implies(k[0].v == 0, x) for x in k[1].ok))
        if o == '|>': return arith('^', k[0], lit(85)) if self.txt == 'one($)' else arith('-', arith('*', k[0], lit(2)), lit(9))
        if o in CMP: return compare(o, *k)
        if o in LOG: return logic(o, *k)
        if o == '<+>': return arith('-', arith('*', k[0], lit(3)), k[1])
        if o == '`sub2`': return arith('-', arith('*', k[0], lit(2)), k[1])
        return arith(o, *k)

def zs_sel(b, i):
    v = b[0]
    for j in range(1, 4): v = z3.If(i == j, b[j], v)
    return v

DECL = ['let ' + ' '.join('%s: i32;%s' % (v, ' let' if v != 'h' else '') for v in VARS), 'let p: bool; let q: bool; let s: bool; let t: bool; let w: i64; let v: i64;',
        "let arr: i32 'c[4]; type ST: struct { y: i32, x: i32 }; let st: ST; let r: i32; let r64: i64; let rb: bool; let ptr: &i32;",
        'operator <+>(x: i32, y: i32): i32 { ret x * 3 - y; }', 'operator <~>(x: i32): i32 { ret x * 7 + 1; }', 'fn sub2(x: i32, y: i32): i32 { ret x * 2 - y; }', 'fn one(x: i32): i32 { ret x ^ 85; }',
        'fn two(x: i32, y: i32): i32 { ret x * 2 - y; }']
INS = dict({v: 'i32' for v in VARS}, **{b: 'bool' for b in BOOLS}, w='i64', v='i64', arr=('i32', 4))
OUTS = {'i32': 'r', 'i64': 'r64', 'bool': 'rb'}

class Gen:
    def __init__(self, R): self.R = R; self.n = 0; self.div = 0
    def leaf(self, ty):
        self.n += 1
        if ty == 'bool': return N('var', 'bool', txt=BOOLS[self.n % 4])
        if ty == 'i64': return N('var', 'i64', txt='wv'[self.n % 2])
        if self.R.random() < .12: return N('lit', 'i32', txt=str(self.R.choice([1, 2, 3, 5, 8, 13])))
        return N('var', 'i32', txt=VARS[self.n % 8])
    def gen(self, ty, d):
        R = self.R
        if d <= 0 or self.n and R.random() < .1: return self.leaf(ty)
        x = R.random()
        if x < .06 and ty != 'i64' or x < .03:
            c, a, b = self.gen('bool', d - 1), self.gen(ty, d - 1), self.gen(ty, d - 1)
            return N('if', ty, c, a, b)
        if ty == 'bool':
            x = R.random()
            if x < .45: t = R.choice(['i32', 'i32', 'i64']); return N(R.choice(CMP), 'bool', self.gen(t, d - 1), self.gen(t, d - 1))
            if x < .85: return N(R.choice(LOG), 'bool', self.gen('bool', d - 1), self.gen('bool', d - 1))
            if x < .9: return N(R.choice(['==', '!=']), 'bool', self.gen('bool', d - 1), self.gen('bool', d - 1))
            return N('not', 'bool', self.gen('bool', d - 1))
        if x < .2: return N(R.choice(['neg', 'inv'] + (['<~>', 'deref'] if ty == 'i32' else [])), ty, self.gen(ty, d - 1))._fix()
        if x < .25 and d < 3: return N(R.choice('²³'), ty, self.gen(ty, d - 1))
        if x < .35: return N(':', ty, self.gen(R.choice([y for y in ('i32', 'i64', 'bool') if y != ty]), d - 1))
        if ty == 'i32' and x < .38: return N('call', ty, self.gen(ty, d - 1))
        if ty == 'i32' and x < .40: return N('mem', ty)
        if ty == 'i32' and x < .42: return N('idx', ty, N('&', ty, self.gen(ty, d - 1), N('lit', 'i32', txt='3')))
        o = R.choice(INTB if ty == 'i32' else INTB[:10] + ['else'])
        if o in '/%':
            if self.div >= 1: o = '-'
            else: self.div += 1
        if o in ('<<', '>>'): return N(o, ty, self.gen(ty, d - 1), N('&', ty, self.gen(ty, d - 2), N('lit', 'i32', txt='7')) if ty == 'i32' else self.leaf(ty))
        return N(o, ty, self.gen(ty, d - 1), self.gen(ty, d - 1))
def _fix(self):
    if self.op == 'deref': self.kids = (N('var', 'i32', txt='ptr'),)
    return self
N._fix = _fix

_oval = N.val
def val(self, e):
    if self.op == 'deref': return var('h', 'i32', e)
    return _oval(self, e)
N.val = val

SETUP = 'ptr = &h; st.x = c; '
def add(b, key, n, pre=''):
    o = OUTS[n.ty]
    b.case(key, SETUP + '%s = %s;' % (o, n.src()), n.val, outs={o: n.ty})

def V(i, ty='i32'):
    return N('var', ty, txt={'i32': VARS, 'bool': 'pqst', 'i64': 'wv'}[ty][i])
def sig(o):
    """(operand type, result type)"""
    return ('i32', 'bool') if o in CMP else ('bool', 'bool') if o in LOG else ('i32', 'i32')

def pairs():
    """x o1 y o2 z, grouped both ways, for every pair of binary operators whose types fit"""
    b = Prog('pairs', DECL, INS, None)
    ops = INTB + CMP + LOG
    for o1 in ops:
        for o2 in ops:
            i1, r1 = sig(o1); i2, r2 = sig(o2)
            l1 = lambda i, ty: V(i, ty)
            if r1 == i2: add(b, 'l%s,%s' % (o1, o2), N(o2, r2, N(o1, r1, V(0, i1), V(1, i1)), V(2, i2)))
            elif r1 == 'bool' and o2 in CMP[:2]: add(b, 'l%s,%s' % (o1, o2), N(o2, r2, N(o1, r1, V(0, i1), V(1, i1)), V(2, 'bool')))
            if r2 == i1: add(b, 'r%s,%s' % (o1, o2), N(o1, r1, V(0, i1), N(o2, r2, V(1, i2), V(2, i2))))
            elif r2 == 'bool' and o1 in CMP[:2]: add(b, 'r%s,%s' % (o1, o2), N(o1, r1, V(0, 'bool'), N(o2, r2, V(1, i2), V(2, i2))))
    # casts against every operator
    for o in ops:
        i, r = sig(o)
        other = {'i32': 'i64', 'bool': 'i32'}[r]
        add(b, 'cast:%s' % o, N(':', other, N(o, r, V(0, i), V(1, i))))
        if i == 'i32':
            add(b, 'castl:%s' % o, N(o, r, N(':', 'i32', V(0, 'i64')), V(1)))
            add(b, 'castr:%s' % o, N(o, r, V(0), N(':', 'i32', V(1, 'i64'))))
        else: add(b, 'castr:%s' % o, N(o, r, V(0, i), N(':', 'bool', V(1))))
        add(b, 'ternl:%s' % o, N(o, r, N('if', i, V(3, 'bool'), V(0, i), V(1, i)), V(2, i)))
        add(b, 'ternr:%s' % o, N(o, r, V(2, i), N('if', i, V(3, 'bool'), V(0, i), V(1, i))))
        add(b, 'ternc:%s' % o, N('if', 'i32', N(o, r, V(0, i), V(1, i)) if r == 'bool' else N('!=', 'bool', N(o, r, V(0, i), V(1, i)), V(2)), V(3), V(4)))
        if o != 'else': add(b, 'ternt:%s' % o, N('if', r, V(3, 'bool'), N(o, r, V(0, i), V(1, i)), N(o, r, V(1, i), V(0, i))))
    add(b, 'cast2', N(':', 'i64', N(':', 'i8', N('+', 'i32', V(0), V(1)))))
    add(b, 'cast3', N('+', 'i64', N(':', 'i64', N(':', 'u8', N('+', 'i32', V(0), V(1)))), V(0, 'i64')))
    return b.unit()

def prefix():
    """prefix and postfix operators next to every binary operator and to each other"""
    b = Prog('prefix', DECL, INS, None)
    ops = INTB + CMP + LOG
    pre = {'i32': ['neg', 'inv', '<~>', 'deref'], 'bool': ['not']}
    mk = {'neg': lambda x: N('neg', 'i32', x), 'inv': lambda x: N('inv', 'i32', x), '<~>': lambda x: N('<~>', 'i32', x), 'deref': lambda x: N('deref', 'i32', N('var', 'i32', txt='ptr')),
          '²': lambda x: N('²', 'i32', x), '³': lambda x: N('³', 'i32', x), 'call': lambda x: N('call', 'i32', x), 'mem': lambda x: N('mem', 'i32'), 'idx': lambda x: N('idx', 'i32', N('&', 'i32', x, N('lit', 'i32', txt='3'))),
          'not': lambda x: N('not', 'bool', x)}
    for o in ops:
        i, r = sig(o)
        for u in pre[i] + (['²', '³', 'call', 'mem', 'idx'] if i == 'i32' else []):
            if o in '/%' and u in ('²', '³', 'idx'): continue
            add(b, '%s.l:%s' % (u, o), N(o, r, mk[u](V(0, i)), V(1, i)))
            add(b, '%s.r:%s' % (u, o), N(o, r, V(0, i), mk[u](V(1, i))))
        for u in pre[r] + (['²', '³'] if r == 'i32' else []):
            if u == 'deref' or o in ('/', '%', '>>') and u in '²³': continue
            add(b, '%s.o:%s' % (u, o), mk[u](N(o, r, V(0, i), V(1, i))))
    for u in ['neg', 'inv', '<~>']:
        for x in ['neg', 'inv', '<~>', 'deref', '²', '³', 'call', 'mem', 'idx']:
            add(b, '%s.%s' % (u, x), mk[u](mk[x](V(0))))
            if x in '²³': add(b, '%s.%s' % (x, u), mk[x](mk[u](V(0))))
    for u in ['neg', 'inv', '<~>', '²', 'call']: add(b, 'cast.%s' % u, N(':', 'i64', mk[u](V(0)))); add(b, '%s.cast' % u, mk[u](N(':', 'i32', V(0, 'i64'))))
    add(b, 'not.not', mk['not'](mk['not'](V(0, 'bool'))))
    add(b, 'not.cmp', mk['not'](N('<', 'bool', V(0), V(1))))
    return b.unit()

def chains(part):
    """three and more operators of neighbouring levels, every combination of three integer operators"""
    b = Prog('chains%d' % part, DECL, INS, None)
    ops = ['+', '-', '*', '%', '<<', '&', '|', '^', '<+>', '`sub2`']
    k = 0
    for o1 in ops:
        for o2 in ops:
            for o3 in ops:
                k += 1
                if k % 4 != part or (not THOROUGH and (k // 4) % 4 != SEED % 4): continue
                if [o1, o2, o3].count('%') > 1: continue
                toks = [o1, o2, o3]
                add(b, '%s,%s,%s' % (o1, o2, o3), group([V(0), V(1), V(2), V(3)], toks))
    return b.unit()

def group(xs, ops):
    """the tree of x0 o0 x1 o1 x2 ... without parentheses: split at the weakest operator, the rightmost one of its level"""
    if not ops: return xs[0]
    w = min(PREC[o] for o in ops)
    i = max(j for j, o in enumerate(ops) if PREC[o] == w)
    l, r = group(xs[:i + 1], ops[:i]), group(xs[i + 1:], ops[i + 1:])
    return N(ops[i], sig(ops[i])[1], l, r)

def long_chains():
    """flat chains of 4 to 7 operators: comparisons of sums joined by logical operators, and pure integer chains"""
    b = Prog('long', DECL, INS, None)
    R = random.Random('long%s' % SEED)
    A = ['+', '-', '*', '<<', '>>', '&', '|', '^', '+', '-']
    for k in range(400 if THOROUGH else 100):
        n = R.randint(4, 7)
        ops = [R.choice(A) for _ in range(n)]
        if R.random() < .3: ops[R.randrange(n)] = R.choice('/%')
        add(b, 'int%d' % k, group([V(i) for i in range(n + 1)], ops))
    AR = ['+', '-', '*', '<<']       # tighter than comparisons
    for k in range(300 if THOROUGH else 80):
        xs, ops = [], []
        for j in range(R.randint(2, 3)):
            if j: ops.append(R.choice(LOG))
            m = R.randint(0, 2)
            for i in range(m): xs.append(V(R.randrange(8))); ops.append(R.choice(AR))
            xs.append(V(R.randrange(8))); ops.append(R.choice(CMP)); xs.append(V(R.randrange(8)))
        add(b, 'bool%d' % k, group(xs, ops))
    return b.unit()

def rand(part):
    b = Prog('rand%d' % part, DECL, INS, None)
    n = 250 if THOROUGH else 50
    for i in range(n):
        R = random.Random('%s/%d/%d' % (SEED, part, i))
        g = Gen(R)
        t = g.gen(R.choice(['i32', 'i32', 'bool', 'i64']), R.choice([2, 3, 3, 4]))
        add(b, '%d' % i, t)
    return b.unit()

def assign():
    """assignments, compound assignments and pipes against the other operators"""
    b = Prog('assign', DECL + ['let r2: i32;'], INS, None)
    ops = INTB
    for o in ops:
        n = N(o, 'i32', V(0), V(1))
        two = {'r': 'i32', 'r2': 'i32'}
        b.case('chain:%s' % o, SETUP + 'r = r2 = %s;' % n.src(), n.val, outs=two, post=lambda e, o_, n=n: [('r', o_.r == n.val(e).v), ('r2', o_.r2 == n.val(e).v)])
        for c in ['+', '-', '*', '<<', '>>', '&', '|', '^', '%', '/']:
            if c in '/%' and o in '/%': continue
            m = N(c, 'i32', V(2), n)
            b.case('%s=:%s' % (c, o), SETUP + 'r = c; r %s= %s;' % (c, n.src()), m.val, outs={'r': 'i32'})
        for f in ('one($)', 'two($, 9)', 'two(9)'):
            m = N('|>', 'i32', n, txt=f)
            add(b, 'pipe:%s:%s' % (o, f), m)
        m = N('|>', 'i32', N('|>', 'i32', n, txt='one($)'), txt='two($, 9)')
        add(b, 'pipe2:%s' % o, m)
        add(b, 'piperight:%s' % o, N(o, 'i32', V(2), N('|>', 'i32', n, txt='two($, 9)')))
        for c in CMP:
            m = N(c, 'bool', n, V(3))
            b.case('bassign:%s:%s' % (c, o), SETUP + 'rb = %s;' % m.src(), m.val, outs={'rb': 'bool'})
        b.case('deref:%s' % o, 'ptr = &r; *ptr = %s;' % n.src(), n.val, outs={'r': 'i32'})
        b.case('elem:%s' % o, "let la: i32 'c[4]; la[a & 1 + 1] = %s; r = la[a & 2];" % n.src(), n.val, outs={'r': 'i32'})
        b.case('arg:%s' % o, 'r = sub2(%s, c);' % n.src(), lambda e, n=n: N('`sub2`', 'i32', n, V(2)).val(e), outs={'r': 'i32'})
        b.case('init:%s' % o, 'let z: i32 = %s; r = z;' % n.src(), n.val, outs={'r': 'i32'})
        b.case('ret:%s' % o, 'r = @Fg();', n.val, outs={'r': 'i32'}, helpers='fn @Fg(): i32 { ret %s; }\n' % n.src())
        b.case('incs:%s' % o, 'let z = a; z++; r = - z + %s;' % n.src(), lambda e, n=n: N('-', 'i32', N('neg', 'i32', N('+', 'i32', V(0), N('lit', 'i32', txt='1'))), N('lit', 'i32', txt='0')).val(e) if 0 else
               arith('+', unary('-', arith('+', V(0).val(e), lit(1))), n.val(e)) if PREC[n.op] > PREC['+'] else group_lead(n, e), outs={'r': 'i32'})
    return b.unit()

def group_lead(n, e):
    """- z + x o y, where z = a + 1"""
    class Z(N):
        def val(self, e): return unary('-', arith('+', V(0).val(e), lit(1)))
    z = Z('neg', 'i32', V(0))
    return group([z, n.kids[0], n.kids[1]], ['+', n.op]).val(e)

def main():
    r = Report('P09', 'translation_validation')
    units = [pairs(), prefix(), assign(), long_chains()] + [chains(i) for i in range(4)] + [rand(i) for i in range(20 if THOROUGH else 6)]
    r.run_units(units)
    r.finish()
if __name__ == '__main__': main()
