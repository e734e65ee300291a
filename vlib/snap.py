"""Symbolic execution of the compiler's own C functions, from a state that the real front end has prepared: all of its C files are
compiled from /repo's current sources together with a harness; the program runs natively (lexer, preprocessor, parser, validator on a
given CSpydr source) up to a pass that the harness intercepts, and its memory becomes the initial state of the symbolic execution."""
import os, re, struct, subprocess
from . import core
from .core import work, run, compile_c, c_sources, copy_sources, BuildError, CompileError, pkg_flags, std_path, VERIF

CFLAGS = ['-O1', '-fno-pie', '-fno-pic', '-fno-builtin', '-fno-tree-vectorize', '-fno-stack-protector', '-fcf-protection=none', '-fno-tree-loop-distribute-patterns',
          '-mno-avx', '-U_FORTIFY_SOURCE', '-fno-jump-tables', '-D__NO_CTYPE', '-DLEXER_TMP_BUFFER_DEFAULT_SIZE=32']
_objs = None
_harness = {}
def objects():
    global _objs
    if _objs is None:
        src = [s for s in c_sources() if not s.endswith('/compiler/main.c')]
        main = [s for s in c_sources() if s.endswith('/compiler/main.c')]
        _objs = compile_c(src, work() + '/snapobj', CFLAGS) + compile_c(main, work() + '/snapobj', CFLAGS + ['-Dmain=cspc_main'])
    return _objs

def harness(c_text, wraps=()):
    """the executable: compiler + harness (built once per harness text)"""
    if c_text in _harness: return _harness[c_text]
    objs = objects()
    n = len(_harness)
    d = copy_sources() + '/compiler'
    f = work() + '/h%d.c' % n
    open(f, 'w').write(c_text)
    ho = compile_c([f], work() + '/snapobj/h%d' % n, CFLAGS, ['-I' + d])
    so = work() + '/snapobj/snap.o'
    if not os.path.exists(so):
        r = run(['gcc', *CFLAGS, '-w', '-c', VERIF + '/vlib/snap.c', '-o', so])
        if r.returncode: raise BuildError(r.stdout[:2000])
    exe = work() + '/snap%d' % n
    w = ['fprintf', 'printf', 'fputc', 'exit', '__assert_fail', *wraps]
    r = run(['gcc', '-static', '-no-pie', '-z', 'muldefs', '-o', exe, so, *ho, *objs, *['-Wl,--wrap=' + x for x in w], *pkg_flags()[1], '-lm'])
    if r.returncode: raise BuildError(r.stdout[-3000:])
    _harness[c_text] = exe
    return exe

_n = [0]
def snapshot(exe, csp, args=(), files=None):
    """run exe on the CSpydr source up to the snapshot; path of an ELF file with that memory"""
    _n[0] += 1
    d = work() + '/snap_%d_%d' % (os.getpid(), _n[0])
    os.makedirs(d + '/.cache')
    open(d + '/p.csp', 'w').write(csp)
    for f, t in (files or {}).items(): open(d + '/' + f, 'w').write(t)
    try:
        r = run([exe, d + '/dump', 'build', 'p.csp', '-p', std_path(), '-o', d + '/p.out', '--silent', *args], timeout=60, cwd=d, env={'HOME': d, 'PATH': os.environ.get('PATH', '/usr/bin:/bin')})
    except subprocess.TimeoutExpired: raise CompileError('the front end does not terminate', csp)
    if r.returncode or not os.path.exists(d + '/dump'):
        raise CompileError('front end exit %d: %s' % (r.returncode, re.sub(r'\x1b\[[0-9;]*[mK]', '', r.stdout)[-1500:]), csp)
    data = bytearray(open(exe, 'rb').read())
    e_phoff, = struct.unpack_from('<Q', data, 32)
    e_phentsize, e_phnum = struct.unpack_from('<HH', data, 54)
    ph = []
    for i in range(e_phnum):
        p = struct.unpack_from('<IIQQQQQQ', data, e_phoff + i * e_phentsize)
        if p[0] == 1 and p[1] & 1: ph.append(p)
    dump = open(d + '/dump', 'rb').read(); os.unlink(d + '/dump')
    segs = []
    for o in range(0, len(dump), 4096 + 16):
        a, w = struct.unpack_from('<QQ', dump, o)
        pg = dump[o + 16:o + 16 + 4096]
        if segs and segs[-1][0] + len(segs[-1][2]) == a and segs[-1][1] == w: segs[-1][2].extend(pg)
        else: segs.append([a, w, bytearray(pg)])
    while len(data) % 4096: data.append(0)
    for a, w, b in segs:
        off = len(data); n = len(b)
        z = len(b.rstrip(b'\0'))
        data += b[:z]
        while len(data) % 4096: data.append(0)
        ph.append((1, 4 | (2 if w else 0), off, a, a, z, n, 4096))
    struct.pack_into('<Q', data, 32, len(data)); struct.pack_into('<H', data, 56, len(ph))
    for p in ph: data += struct.pack('<IIQQQQQQ', *p)
    out = d + '/p.elf'
    open(out, 'wb').write(data)
    open(out + '.base', 'w').write(exe)
    return out
