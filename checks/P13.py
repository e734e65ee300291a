"""P13: source text is read as the tokens of the documented lexical grammar: the compiler's lexer against a second lexer, both
executed symbolically on texts with symbolic bytes."""
import sys, os, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.lang import *
from vlib import snap

R = Report('P13', 'other')
HARNESS = open(VERIF + '/vlib/h_lex.c').read()
WRAPS = ['throw_error', 'lexer_pass', 'sprintf', 'snprintf']
EXE = [None]
def snapshot(u): return snap.snapshot(EXE[0], u.src)

KEYWORDS = 'alignof asm break const continue defer do dyn else embed enum extern false fn for if import interface len let loop macro match namespace nil noop operator ret sizeof struct true type typeof union unless using while with'.split()
NL = '\x0e'
H = ['\1', '\2', '\3', '\4']

ANY = lambda c: z3.And(c != 0, c != 10, c != 255)
def cls(s): return lambda c: z3.Or(*[c == ord(x) for x in s])
HEX = cls('0123456789abcdefABCDEF_')
DIG = cls('0123456789')
NUM = cls('0123456789._')
OPS = cls('+-*/%=&^<>|!?.:~')
QUO = cls('"\\a\'')
ALPH = cls('a0_x"\'\\#[].-> !;\x20')
COM = cls('#[]a')
WRD = cls("azAZ059_?'!")

def show(t): return t.replace(NL, '\\n').replace('\1', '{0}').replace('\2', '{1}').replace('\3', '{2}').replace('\4', '{3}')

class U:
    def __init__(self, name): self.name, self.t, self.cases = name, [], []
    def add(self, text, *classes, timeout=None):
        n = len(self.t)
        k = sum(h in text for h in H)
        classes = list(classes) or [ANY] * k
        assert k == len(classes), text
        self.t.append(text)
        def pre(e): return [c(e.h[i]) for i, c in enumerate(classes)] + [e.h[i] == 0 for i in range(k, 8)]
        self.cases.append(Case('%s:%d:%s' % (self.name, n, ''.join(c if 32 < ord(c) < 127 and c not in '`"\'\\' else '%%%02x' % ord(c) for c in text)), 'run_lex', {'h': ('u8', 8)}, {'ok': 'i32', 'ntok': 'i32', 'where': 'i32'},
                               lambda e, o: o.ok == 1, pre, fixed={'tno': ('i32', n)}, prefix='', opts={'slicing': True, 'max_paths': 20000}, desc='the tokens of  ' + show(text), timeout=timeout))
    def unit(self): return Unit(self.name, '\n'.join(self.t) + '\n', self.cases, build=snapshot)

units = []
def unit(name):
    u = U(name); units.append(u); return u

def build():
    a, b, c, d = H
    # one arbitrary byte in many contexts
    for part, ctx in enumerate([
        [a, 'a' + a, 'a' + a + 'b', a + 'b', a + a, ' ' + a + ' ', 'let x' + a + ' = 1;', 'f(' + a + ');' + NL + 'g', 'a' + NL + a + NL + 'b', a + NL + a, 'x' + a + a + 'y'],
        ['1' + a, '1' + a + '2', a + '1', '0' + a, '0' + a + '1', '0x' + a, '0xf' + a + '1', '0b' + a, '0b1' + a + '1', '0o' + a, '0o7' + a + '3', '1.' + a, '1.5' + a, '1' + a + '.', '1_' + a, '12' + a + NL + '7', '0x' + a + NL + '3'],
        ['"' + a + '"', '"' + a, '"a' + a + 'b"', '"\\' + a + '"', '"\\\\' + a + '"', '"\\\\\\' + a + '"', '""' + a, '"a"' + a + '"b"', '"a' + NL + a + '" x', '"\\"' + a + '" x', "\"'" + a + '"'],
        ["'" + a, "'" + a + "'", "'\\" + a, "'\\" + a + "'", "'" + a + ' x', "''" + a, "'a'" + a, "'c" + a, "'C" + a, "[2]'" + a + '[3]', "a'" + a, "'c" + a + "c'", "'" + a + NL + "'"],
        ['_' + a, '_' + a + 'x', 'a_' + a, '_' + a + NL, '__' + a, '_1' + a, "a?" + a, 'a!' + a, 'if' + a, '$' + a, '@' + a, '`' + a + '`', '\xc2' + a, '\xcd' + a, '\xc2\xb2' + a, a + '\xb2', a + '\xbe', '_'+NL+a],
        ['#' + a, '#' + a + NL + 'x', '#[' + a, '#[' + a + ']#', '#[' + a + ']# x', '#[#' + a + ']# ]# x', '#[ #[ ]' + a + ' ]# x', '#[' + NL + a + NL + ']# x', '# a' + a + 'b' + NL + 'c', '#[ ]#' + a, 'x#' + a + NL + '#' + a + NL + 'y', '#[]' + a + '#]#', '#[ a ]#[ ' + a + ' ]#', '#[#[]#[]#' + a + ']# y', 'x #[' + a + '#] y ]# z'],
        ['+' + a, '+' + a + '+', '.' + a, '..' + a, '...' + a, '.' + a + '.', '<' + a, '<' + a + '-', '-' + a, '=' + a, '=' + a + '>', '>' + a, ':' + a + ':', '!' + a, '?' + a, a + '-', a + '>', '<-' + a, '=>' + a, 'a' + a + '=b'],
    ]):
        u = unit('one%d' % part)
        for t in ctx: u.add(t)
    # two arbitrary bytes
    for part, ctx in enumerate([
        [a + b] + ([a + NL + b] if THOROUGH else []), ['a' + a + b + ' '], ['1' + a + b + '1'], ['0' + a + b], ['"' + a + b + '" z'], ["'" + a + b + "' z"], ['-' + a + b], ['.' + a + b],
        ['_' + a + b], ['#' + a + b + NL + 'x'], ['#[' + a + b + ']# x'], ['(' + a + 'x' + b + ')'], [a + 'b' + b], ['"\\' + a + b + '"'], ["'" + a + b], ['<' + a + b + '>'],
    ] + ([['x ' + a + ' 1' + b + ' y'], [a + ' ' + b]] if THOROUGH else [])):
        u = unit('two%d' % part)
        for t in ctx: u.add(t, *([ANY, ANY] if THOROUGH else [ANY, ALPH]))
    # keywords: one byte replaced, one byte added
    rnd = random.Random(5)
    for part in range(8):
        u = unit('kw%d' % part)
        for w in KEYWORDS[part::8]:
            u.add(w + a)
            i = rnd.randrange(len(w))
            u.add(w[:i] + a + w[i + 1:] + ' ')
            if THOROUGH:
                for i in range(len(w)): u.add(w[:i] + a + w[i + 1:] + '(')
                u.add(a + w); u.add(w + a + w)
    # several bytes of one class
    for part, (pre, suf, k, k2) in enumerate([('0x', '', HEX, 0), ('0x', ' ', HEX, 0), ('0b', ';', cls('01_2'), 0), ('0o', ';', cls('017_8'), 0), ('', '', NUM, 0), ('3', '.', NUM, 0), ('', '', OPS, 0), ('a', '.b', OPS, 0),
                                     ('"', '" + "', QUO, 0), ('"\\', '" y', QUO, 0), ("'", "' + '", QUO, 0), ('#[', ']# x', COM, 0), ('#[#[', ']#]#]# x', COM, 0), ('', ' ', WRD, 0), ('_', '', WRD, 0)]):
        u = unit('cls%d' % part)
        if len(suf) > 2 or k in (QUO, COM) or k is NUM: u.add(pre + a + b + c + d + suf, k, k, k, k) if THOROUGH or k in (QUO, COM) else u.add(pre + a + b + c + suf, k, k, k)
        else: u.add(pre + a + b + c + suf, k, k, k) if THOROUGH else u.add(pre + a + b + suf, k, k)
    # long tokens: buffers have to grow
    u = unit('long0')
    for n in (29, 30, 31, 32, 33, 62, 63, 64, 65, 100):
        u.add('x' * n + a, WRD)
        u.add('5' * n + a, NUM)
    u = unit('long1')
    for n in (29, 30, 31, 32, 33, 34, 62, 63, 64, 65, 100):
        u.add('+' * n + a, OPS)
        u.add('"' + 's' * n + a + '" t', QUO)
    u = unit('long2')
    for n in (30, 31, 32, 63): u.add('0x' + '0' * n + a + b, HEX, HEX)
    u.add('0x' + a + '23456789abcdef' + b, HEX, HEX); u.add('0b' + '10' * 30 + a + b, cls('01_'), cls('01'))
    u.add('0o' + '7' * 19 + a + b, cls('01234567_'), cls('012_'))

def main():
    try: EXE[0] = snap.harness(HARNESS, WRAPS)
    except BuildError as e: print('P13: the harness cannot be built with this compiler, its cases are left out: ' + str(e)[:1500])
    else: build()
    R.run_units([u.unit() for u in units])
    R.finish()

if __name__ == '__main__' or True: main()
