"""P15: macros are expanded into the tokens of their definitions: the compiler's preprocessor against a second macro expander, both
executed symbolically on token sequences with symbolic tokens."""
import sys, os, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.lang import *
from vlib import snap

R = Report('P15', 'other')
HARNESS = open(VERIF + '/vlib/h_pp.c').read()
WRAPS = ['throw_error', 'lexer_pass', 'sprintf', 'snprintf']
EXE = [None]
def snapshot(u): return snap.snapshot(EXE[0], u.src)
NL = '\x0e'

NAMES = {'(': 'LPAREN', ')': 'RPAREN', '[': 'LBRACKET', ']': 'RBRACKET', '{': 'LBRACE', '}': 'RBRACE', ',': 'COMMA', ';': 'SEMICOLON', '@': 'AT', '+': 'OPERATOR', '?': 'IF', 'id': 'ID', 'call': 'MACRO_CALL', 'int': 'INT', '#': 'MACRO'}
TY = {}
def enumerators():
    d = copy_sources() + '/compiler'
    f = work() + '/enum.c'
    open(f, 'w').write('#include "lexer/token.h"\n#include <stdio.h>\nint main() { %s }\n' % ' '.join('printf("%%d\\n", (int) TOKEN_%s);' % v for v in NAMES.values()))
    r = run(['gcc', '-w', '-I' + d, f, '-o', f[:-2]])
    if r.returncode: raise BuildError(r.stdout)
    TY.update(zip(NAMES, map(int, run([f[:-2]]).stdout.split())))

def kind(c):
    if len(c) == 2: return kind(c[0]) + (ord(c[1]),)
    return (TY['id'], 0x7e) if c == '~' else (TY['call'], ord(c.lower())) if c.isupper() else (TY['id'], ord(c)) if c.islower() else (TY['int'], ord(c)) if c.isdigit() else (TY[c], ord(c))

class U:
    def __init__(self, name): self.name, self.t, self.cases = name, [], []
    def add(self, text, *classes, timeout=None):
        n = len(self.t)
        k = sum(chr(i) in text for i in range(1, 9))
        assert k == len(classes), text
        self.t.append(text)
        def pre(e): return [z3.Or(*[z3.And(e.ty[i] == k[0], e.h[i] == k[1], e.h2[i] == (k[2] if k[2:] else 0)) for k in map(kind, c)]) for i, c in enumerate(classes)] + [z3.And(e.h[i] == 0, e.h2[i] == 0, e.ty[i] == 0) for i in range(k, 8)]
        show = text.replace(NL, ' \\n ')
        for i, c in enumerate(classes): show = show.replace(chr(i + 1), '<' + (c if isinstance(c, str) else ' '.join(c)) + '>')
        key = '%s:%d:%s' % (self.name, n, ''.join(c if 32 < ord(c) < 127 and c not in '`"\'\\' else '%%%02x' % ord(c) for c in text))
        self.cases.append(Case(key, 'run_pp', {'ty': ('u32', 8), 'h': ('u8', 8), 'h2': ('u8', 8)}, {'ok': 'i32', 'ntok': 'i32', 'how': 'i32'}, lambda e, o: o.ok == 1, pre,
                               fixed={'tno': ('i32', n)}, prefix='', opts={'slicing': True, 'max_paths': 40000}, desc='the expansion of  ' + show, timeout=timeout))
    def unit(self): return Unit(self.name, '\n'.join(self.t) + '\n', self.cases, build=snapshot)

units = []
def unit(name):
    u = U(name); units.append(u); return u

def build():
    a, b, c, d, e = map(chr, range(1, 6))
    BODY = 'abx+,@1?'
    u = unit('body')           # what stands in the body of a macro
    u.add('#m(a,b){' + a + b + '} y M(p+,q) z M(r,s;) w', BODY, BODY)
    u.add('#m(a){' + a + b + c + '} y M(p) z', 'ax@+', 'ax@?1', 'ax@')
    u.add('#m{' + a + b + '} M ' + c + ' M() y', 'mx;', 'mx+', 'x;+')
    u.add('#m(a,b,c){' + a + b + c + '} M(p,q,r) M[1,2,3]', 'abc', 'abcx', 'abc')
    u = unit('args')           # what stands between the brackets of a call
    u.add('#m(a){[a]} #m{0} #m(a,b){b;a} M(' + a + b + c + ') z', 'pq,', 'p,+', 'pq,')
    u.add('#m(a){[a]} #m{0} #m(a,b){b;a} M(' + a + b + c + d + ') z', 'p(,', 'p,)', 'p(,', 'p,)')
    u.add('#m(a){[a]} #m{0} #m(a,b){b;a} M' + a + b + c + 'z', '([{x', 'pq,+', ')]}')
    u.add('#m(a){[a]} #m(a,b){b;a} M{x' + a + 'p,q' + b + c + '}', '([{,', ')]},', 'x,;')
    u.add('#m(a,b,c){cba} M(' + a + 'p' + b + 'q' + c + 'r)', 'x(', ',)+', ',)')
    u = unit('names')          # which macro a call means
    u.add('#' + a + '{1} #' + b + '{2} #' + c + '{3} ' + d + ';', 'lm', 'mn', 'kn', 'KLMN')
    u.add('#' + a + '(a){1a} #' + b + '{2} #' + c + '(a,b){3ab} M ' + d + ' x,y ' + e + ' M ', 'mn', 'mn', 'mn', '([;', ')];')
    u.add('#m(' + a + ',' + b + '){' + c + d + '} M(p,q)', 'abm', 'abc', 'abcm', 'abcm')
    u.add('#m(' + a + b + c + '){+} M(' + d + ')', 'ab', ',)+', 'abc', 'pq')
    u = unit('nest')           # calls in arguments and in bodies
    u.add('#n(a){<a>} #m(a){(a)}'.replace('<', '[').replace('>', ']') + 'M(' + a + '(' + b + '))', 'MNx', 'xyN')
    u.add('#n{5} #l(a){a;a} #m(a,b){' + a + '(' + b + ')' + c + '} M(p,q+) M(1,2)', 'LMNx', 'abxN', 'abN')
    u.add('#n{5} #l(a){a;a} #m(a,b){' + a + b + '} M(p,q+) z', 'LMNab', 'LMNab')
    u.add('#n(a){a+} #l(a){a@a} #m(a){' + a + '(' + b + '(' + c + '))}M(p)', 'LMN', 'LNx', 'aNx')
    u.add('#n(a){a+} #l(a){a@z} #m(a,b){b a} M(' + a + '(p),' + b + '(' + c + '(q)))', 'LNx', 'LNx', 'LNM')
    u.add('#n{p,q} #l(a,b){b-a} #l(a){a} #m(a){L(a)} M('.replace('-', '+') + a + ') L(' + b + ')', 'Nx', 'Nx')
    u.add('#n{5} #n(a){a;} #m(a){[a]} #m{7} M(N' + a + b + c + ')', '([{x', ')]}x', 'xN+')
    u.add('#n{5} #n(a){a;} #m(a,b){[ab]} #l{3} M(' + a + b + c + ',N' + d + e + ')', 'NLx', '([x', ')]x', '([x', ')]x')
    u = unit('join')           # @
    u.add('#m(a){x@' + a + b + '} M(p) M(q) M(q)', 'axm1?+', 'ax@')
    u.add('#m(a,b){a@b' + a + b + '} M(p,q) M(' + c + ',r) p', 'ab@', 'ab', 'p1+')
    u.add('#m(a){a' + a + 'a' + b + 'a} #n(a){M(a)a} N(p) N(q) p q', '@+x', '@+x')
    u.add('#n{y+z} #m(a){x@' + a + '@' + b + '} M(p) M(' + c + ')', 'Na', 'Na1', 'Np')
    u = unit('line')           # __line__ and lines
    u.add('#m(a){~a~} #n{' + NL + '~} ' + NL + a + NL + '(' + b + NL + ') M(' + NL + c + ')', 'MNx', 'xN', 'xN')
    u.add('#m(a){' + a + ';' + b + '} #n{~}' + NL + 'M(x)' + NL + NL + 'M(N)', 'axN', 'aNM')
    u.add('#m{^%' + a + '} #n(a){a^' + b + '%} M N(' + c + ')', 'xN', 'xa', 'px')
    u.add('#~' + a + 'x' + b + '{x} ' + c, '({', '),', 'xM')
    u.add('#~(a){+a} #%(x,y){y} #~{' + a + '} M', 'xy')
    u = unit('brace')          # braces in bodies, text around
    u.add('#m{' + a + b + c + d + '} x;M;', '{x', '}x', '{}x', '}x')
    u.add('x#m{' + a + '}y#n' + b + '1}M' + c + 'N', 'x+N', '{(', '+,x')
    u.add(a + '#m(a){a}' + b + 'M(' + c + ')' + d, 'xM', 'x;', 'xy', ';(,')
    u = unit('long')           # names that begin or end with another one
    u.add("#m(" + a + ',' + b + '){' + c + d + '} M(p,q)', ['a', 'ab'], ['ab', 'b', 'ac'], ['a', 'ab', 'b', 'abc'[:2]], ['ac', 'b', 'ba'])
    u.add("#" + a + '(x){1x} #' + b + '(x){2} #' + c + '{3} ' + d + '(p) ' + e + ';', ['m', 'mn'], ['mn', 'n', 'mm'], ['m', 'mn'], ['M', 'Mn', 'Mm'], ['M', 'Mn', 'N'])
    u.add("#m'n'o(a'b,a){a'b'a;a@" + a + ';' + b + '@a} M\'n\'o(p,' + c + '@' + d + ')', ['a', 'ab', 'ba'], ['a', 'ab', 'x'], ['p', 'pq'], ['a', '12'])
    u = unit('rec')            # recursion ends with an error
    u.add('#n(a){' + a + '(a)} #m(a){' + b + '(a)} ' + c + '(x)', 'MNx', 'MNx', 'MN')
    u.add('#n{' + a + '} #m{' + b + b.replace(b, '') + '} #l{' + c + '} L', 'LMNx', 'LMNx', 'LMNx')

def main():
    try:
        enumerators()
        EXE[0] = snap.harness(HARNESS, WRAPS)
    except BuildError as e: print('P15: the harness cannot be built with this compiler, its cases are left out: ' + str(e)[:1500])
    else: build()
    R.run_units([u.unit() for u in units])
    R.finish()

if __name__ == '__main__' or True: main()
