"""Reference models of byte-string functions as z3 terms over fixed-size symbolic byte lists."""
import z3
BV = z3.BitVecVal
def b64(x): return BV(x, 64)
def eq0(b): return b == 0
def strlen(s):
    """index of the first NUL (s contains one)"""
    r = b64(len(s))
    for i in reversed(range(len(s))): r = z3.If(s[i] == 0, b64(i), r)
    return r
def has_nul(s): return z3.Or(*[x == 0 for x in s])
def ends(s): return s[-1] == 0
def sel(s, i):
    """s[i] for a symbolic index"""
    r = s[-1]
    for k in reversed(range(len(s) - 1)): r = z3.If(i == k, s[k], r)
    return r
def minu(a, b): return z3.If(z3.ULT(a, b), a, b)
def sext(b, n=32): return z3.SignExt(n - b.size(), b)
def cmp(a, b, n=None):
    """-1/0/1 of the C comparison as unsigned bytes over the first n (symbolic) bytes -> Int"""
    r = z3.IntVal(0)
    for i in reversed(range(min(len(a), len(b)))):
        x = z3.If(a[i] != b[i], z3.If(z3.ULT(a[i], b[i]), z3.IntVal(-1), z3.IntVal(1)), z3.If(a[i] == 0, z3.IntVal(0), r))
        r = z3.If(z3.UGT(n, i), x, z3.IntVal(0)) if n is not None else x
    return r
def sgn(v): return z3.If(v == 0, z3.IntVal(0), z3.If(v < 0, z3.IntVal(-1), z3.IntVal(1)))
def isin(c, acc):
    """c is one of the characters before the NUL of acc"""
    r = z3.BoolVal(False); live = z3.BoolVal(True)
    for x in acc:
        live = z3.And(live, x != 0)
        r = z3.Or(r, z3.And(live, x == c))
    return r
def spn(s, acc, want=True):
    """length of the initial segment of s (up to its NUL) whose characters are (not) in acc"""
    r = b64(len(s))
    for i in reversed(range(len(s))):
        stop = z3.Or(s[i] == 0, z3.Not(isin(s[i], acc)) if want else isin(s[i], acc))
        r = z3.If(stop, b64(i), r)
    return r
def chr_(s, c, base, nul_found=True):
    """address of the first c in s (its NUL included), 0 when there is none"""
    r = b64(0); 
    for i in reversed(range(len(s))):
        r = z3.If(s[i] == c, base + i, z3.If(s[i] == 0, b64(0), r))
    return r
def rchr(s, c, base):
    r = b64(0); live = z3.BoolVal(True)
    for i in range(len(s)):
        r = z3.If(z3.And(live, s[i] == c), base + i, r)
        live = z3.And(live, s[i] != 0)
    return r
def prefix_at(s, i, t):
    """t (up to its NUL) is found in s at position i (positions behind the NUL of s do not count)"""
    r = z3.BoolVal(True)
    for k in reversed(range(len(t))):
        hit = s[i + k] == t[k] if i + k < len(s) else z3.BoolVal(False)
        r = z3.Or(t[k] == 0, z3.And(hit, r))
    return r
def strstr(s, t, base):
    r = b64(0)
    for i in reversed(range(len(s))):
        r = z3.If(prefix_at(s, i, t), base + i, z3.If(s[i] == 0, b64(0), r))
    return r
def memchr(s, c, n, base):
    r = b64(0)
    for i in reversed(range(len(s))):
        r = z3.If(z3.And(z3.UGT(n, i), s[i] == c), base + i, r)
    return r
def same(a, b): return z3.And(*[x == y for x, y in zip(a, b)])
def unchanged(e, o, *names): return [(n + ' unchanged', same(e[n], o[n])) for n in names]
