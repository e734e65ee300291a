"""Driver shared by all checks: builds the compiler from /repo, compiles CSpydr programs,
executes the produced machine code symbolically (vlib/x86.py), discharges the obligations
with z3, and replays every counterexample on the real machine code before reporting it."""
import os, sys, re, json, time, shutil, subprocess, tempfile, atexit, hashlib, random, traceback, glob, signal
import multiprocessing as mp
import z3
from . import x86
from .x86 import (Image, Engine, State, Region, Stats, Unsupported, EngineLimit, Fault, is_c, bv, simp,
                  F32, F64, F80, RNE, RTZ, fp_to_bv, fp_from_bv, f80_bits, RET_MAGIC, RSP, RBP, RDI, RSI, RDX, RCX, RAX)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
THOROUGH = TIER == 'thorough'
NPROC = int(os.environ.get('VERIF_JOBS', '8'))

class BuildError(Exception): pass
class CompileError(Exception):
    def __init__(self, msg, src=''):
        super().__init__(msg); self.msg = msg; self.src = src

# ------------------------------------------------------------------- scratch
_work = None
def work():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix='csverif-')
        pid = os.getpid()
        def rm():
            if os.getpid() == pid: shutil.rmtree(_work, ignore_errors=True)
        atexit.register(rm)
        def bye(sig, frm): sys.exit(3)
        signal.signal(signal.SIGTERM, bye)
        os.makedirs(_work + '/home/.cache')
    return _work

def run(cmd, timeout=120, **kw):
    return subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=timeout, text=True, errors='replace', **kw)

# --------------------------------------------------------------------- build
_pc = None
def pkg_flags():
    global _pc
    if _pc is None:
        def q(a):
            r = subprocess.run(['pkg-config', a, 'libpkgconf', 'json-c'], capture_output=True, text=True)
            return r.stdout.split() if r.returncode == 0 else None
        _pc = (q('--cflags') or ['-I/usr/include/pkgconf', '-I/usr/include/json-c'], q('--libs') or ['-lpkgconf', '-ljson-c'])
    return _pc

def copy_sources():
    """/repo/src (current working tree) -> scratch"""
    dst = work() + '/src'
    if os.path.isdir(dst): return dst
    shutil.copytree(REPO + '/src', dst, symlinks=True)
    v = open(dst + '/compiler/version.h.in').read()
    for k, x in (('version-x', '0'), ('version-y', '1'), ('version-z', '1'), ('git-hash', 'verif')):
        v = v.replace('@%s@' % k, x)
    open(dst + '/compiler/version.h', 'w').write(v)
    subprocess.run(['bash', './generate.sh'], cwd=dst + '/std', stdin=subprocess.DEVNULL,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return dst

def c_sources():
    d = copy_sources() + '/compiler'
    return sorted(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f.endswith('.c'))

def compile_c(srcs, outdir, cflags, extra_inc=()):
    d = copy_sources() + '/compiler'
    os.makedirs(outdir, exist_ok=True)
    procs, objs = [], []
    for s in srcs:
        o = os.path.join(outdir, os.path.relpath(s, d).replace('/', '_').replace('..', '') + '.o')
        objs.append(o)
        procs.append((s, subprocess.Popen(['gcc', '-I' + d, *extra_inc, *cflags, '-w', *pkg_flags()[0],
                      '-DDEFAULT_STD_PATH="%s"' % (copy_sources() + '/std'), '-c', s, '-o', o],
                      stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d)))
    for s, p in procs:
        out, _ = p.communicate()
        if p.returncode: raise BuildError('%s: %s' % (s, out.decode(errors='replace')[:2000]))
    return objs

_cspc = None
def cspc():
    """the compiler, built from /repo's current sources"""
    global _cspc
    if _cspc is None:
        objs = compile_c(c_sources(), work() + '/obj', ['-fPIC'])
        out = work() + '/cspc'
        r = run(['gcc', *objs, '-o', out, '-lm', *pkg_flags()[1]])
        if r.returncode: raise BuildError(r.stdout[:2000])
        _cspc = out
    return _cspc

def std_path(): return copy_sources() + '/std'

_native = None
def native_runner():
    global _native
    if _native is None:
        _native = work() + '/native'
        r = run(['gcc', '-O1', '-w', '-o', _native, VERIF + '/vlib/native.c'])
        if r.returncode: raise BuildError(r.stdout)
    return _native

_n = [0]
def csp_compile(src, flags=(), name=None, files=None, timeout=60, want='exe'):
    """compile CSpydr source text with the real compiler; path of the executable"""
    _n[0] += 1
    base = '%s_%d_%d' % (name or 'p', os.getpid(), _n[0])
    d = work() + '/' + base
    os.makedirs(d + '/.cache')
    open(d + '/p.csp', 'w').write(src)
    for f, t in (files or {}).items(): open(d + '/' + f, 'w').write(t)
    try:
        r = run([cspc(), 'build', 'p.csp', '-p', std_path(), '-o', d + '/p.out', '--silent', *flags],
                timeout=timeout, cwd=d, env={'HOME': d, 'PATH': os.environ.get('PATH', '/usr/bin:/bin')})
    except subprocess.TimeoutExpired:
        raise CompileError('the compiler does not terminate', src)
    if r.returncode or not os.path.exists(d + '/p.out'):
        raise CompileError('compiler exit %d: %s' % (r.returncode, re.sub(r'\x1b\[[0-9;]*[mK]', '', r.stdout)[:1500]), src)
    return d + '/p.out'

# --------------------------------------------------------------------- types
INTS = {'i8': (8, True), 'i16': (16, True), 'i32': (32, True), 'i64': (64, True),
        'u8': (8, False), 'u16': (16, False), 'u32': (32, False), 'u64': (64, False),
        'bool': (8, False), 'char': (8, True), 'ptr': (64, False)}
FLTS = {'f32': (F32, 32), 'f64': (F64, 64), 'f80': (F80, 80)}
def is_float(t): return t in FLTS
def tsize(t):
    if isinstance(t, tuple): return tsize(t[0]) * t[1]          # ('i32', 4): array
    if t in INTS: return INTS[t][0] // 8
    return {'f32': 4, 'f64': 8, 'f80': 10}[t]
def nbits(t): return INTS[t][0]
def signed(t): return INTS[t][1]

def fresh(name, t):
    if isinstance(t, tuple): return [fresh('%s[%d]' % (name, i), t[0]) for i in range(t[1])]
    if t in INTS: return z3.BitVec(name, INTS[t][0])
    return z3.FP(name, FLTS[t][0])

def type_pre(v, t):
    if isinstance(t, tuple): return [c for x in v for c in type_pre(x, t[0])]
    if t == 'bool': return [z3.ULE(v, 1)]
    return []

def write_val(eng, st, addr, v, t):
    if isinstance(t, tuple):
        k = tsize(t[0])
        for i, x in enumerate(v): write_val(eng, st, addr + i * k, x, t[0])
    elif t in INTS:
        s = x86.simp(v) if not is_c(v) else v & x86.mask(INTS[t][0])
        eng.wr(st, addr, s, INTS[t][0] // 8)
    elif t == 'f80':
        eng.wr(st, addr, v, 10)
    else:
        eng.wr(st, addr, fp_to_bv(v), tsize(t))

def read_val(eng, st, addr, t):
    if isinstance(t, tuple):
        k = tsize(t[0])
        return [read_val(eng, st, addr + i * k, t[0]) for i in range(t[1])]
    if t in INTS:
        return bv(eng.rd(st, addr, INTS[t][0] // 8), INTS[t][0])
    if t == 'f80':
        c = st.mem.get(addr)
        if type(c) is tuple and z3.is_fp(c[0]) and c[1] == 0 and all(
                type(st.mem.get(addr + i)) is tuple and st.mem[addr + i][0] is c[0] and st.mem[addr + i][1] == i for i in range(10)):
            return c[0]
        return x86.f80_from_bits(eng.rd(st, addr, 10))
    return fp_from_bv(eng.rd(st, addr, tsize(t)), FLTS[t][0])

def val_bytes(v, t):
    """concrete z3 value -> memory image"""
    if isinstance(t, tuple): return b''.join(val_bytes(x, t[0]) for x in v)
    if t in INTS:
        x = v if is_c(v) else z3.simplify(v).as_long()
        return (x & x86.mask(INTS[t][0])).to_bytes(INTS[t][0] // 8, 'little')
    f = z3.simplify(v)
    if t == 'f80':
        if z3.simplify(z3.fpIsNaN(f)).eq(z3.BoolVal(True)): x = 0x7fffc000000000000000
        else: x = z3.simplify(f80_bits(f)).as_long()
        return x.to_bytes(10, 'little')
    n = tsize(t)
    if z3.is_true(z3.simplify(z3.fpIsNaN(f))): x = {4: 0x7fc00000, 8: 0x7ff8000000000000}[n]
    else: x = z3.simplify(z3.fpToIEEEBV(f)).as_long()
    return x.to_bytes(n, 'little')

def bytes_val(b, t):
    if isinstance(t, tuple):
        k = tsize(t[0])
        return [bytes_val(b[i * k:(i + 1) * k], t[0]) for i in range(t[1])]
    if t in INTS: return z3.BitVecVal(int.from_bytes(b[:INTS[t][0] // 8], 'little'), INTS[t][0])
    if t == 'f80': return x86.f80_from_bits(int.from_bytes(b[:10], 'little'))
    return fp_from_bv(int.from_bytes(b[:tsize(t)], 'little'), FLTS[t][0])

def show_val(v, t=None):
    if isinstance(v, list):
        if v and all(z3.is_bv_value(z3.simplify(x)) and x.size() == 8 for x in v):
            return repr(bytes(z3.simplify(x).as_long() for x in v))
        return '[%s]' % ', '.join(show_val(x) for x in v)
    v = z3.simplify(v)
    if z3.is_bv_value(v): return '%d (0x%x)' % (v.as_signed_long(), v.as_long())
    return str(v)

class Env:
    """named values; attribute access"""
    def __init__(self, d=None): self.__dict__.update(d or {})
    def __getitem__(self, k): return self.__dict__[k]
    def items(self): return self.__dict__.items()

# ---------------------------------------------------------------------- cases
class Buf:
    """a guarded memory object: n symbolic (or given) bytes, readable (and writable) and
    nothing mapped behind it; `ptr` is the global that receives its address"""
    def __init__(self, name, n, ptr=None, init=None, w=True, off=0):
        self.name, self.n, self.ptr, self.init, self.w, self.off = name, n, ptr, init, w, off

class Sys:
    """the answer to one system call: result (number or name of an input) and output data (argument number, name of a byte
    input, True if only the first `ret` bytes are written)"""
    def __init__(self, nr, ret=0, *out, read=None): self.nr, self.ret, self.out, self.read = nr, ret, out, read
    # read: (argument number, n): the trace shows the n bytes (as 8 byte words) the argument points to

class Case:
    """One obligation family: for all inputs satisfying pre, running `fn` ends normally and post holds."""
    def __init__(self, key, fn, ins=None, outs=None, post=None, pre=None, fault=None, bufs=(), fixed=None,
                 args=None, prefix='.', timeout=None, opts=None, desc=None, ret=None, post_ex=None, sys=None, setup=None, script=None):
        self.key, self.fn = key, fn
        self.ins, self.outs = ins or {}, outs or {}
        self.post, self.pre, self.fault = post, pre, fault
        self.bufs, self.fixed = list(bufs), fixed or {}
        self.args = args            # register arguments: list of (name,type) instead of globals
        self.prefix, self.timeout, self.opts, self.desc, self.ret = prefix, timeout, opts or {}, desc, ret
        self.sys = sys
        self.script = script        # answers to system calls, in order per number: Sys(...)
        self.setup = setup

class Unit:
    """one program (compiled once) with its cases"""
    def __init__(self, name, src, cases, flags=(), files=None, build=None):
        self.name, self.src, self.cases, self.flags, self.files = name, src, cases, tuple(flags), files
        self.exe = None; self.img = None; self.build = build

BUF_BASE = 0x10000000000
IARGS = [RDI, RSI, RDX, RCX, 8, 9]

def concrete_reg(eng, st, r, what):
    """None when register r is concrete, otherwise the states with each of its values, about to repeat the system call"""
    n = st.regs[r]
    if is_c(n): return None
    vals = eng.concretizations(st, n, 64)
    if vals is None: raise EngineLimit(what + ' of unbounded size')
    outs = []
    for v in vals:
        o = st.fork(); o.pc.append(n == v); o.regs[r] = v; o.rip = eng.next - 2; outs.append(o)
    return outs

def scripted(eng, st, nr, a, env, script):
    mine = [s for s in script if s.nr == nr]
    if not mine: return False
    if nr == 1:
        outs = concrete_reg(eng, st, RDX, 'write')
        if outs is not None: st.regs[RAX] = nr; return outs
    k = sum(1 for t in st.trace if t[0] == 'sys' and t[1] == nr)
    if k >= len(mine): raise EngineLimit('more system calls %d than scripted' % nr)
    s = mine[k]
    data = [eng.load(st, x86.add(a[1], i, 64), 1) for i in range(a[2])] if nr == 1 else []
    if s.read: data = [eng.load(st, x86.add(a[s.read[0]], 8 * i, 64), 8) for i in range(s.read[1] // 8)]
    st.trace.append(('sys', nr, list(a), data))
    ret = env[s.ret] if isinstance(s.ret, str) else s.ret
    for argi, name, part in s.out:
        if not is_c(a[argi]): raise Unsupported('system call writes to a symbolic address')
        if a[argi] == 0: continue
        for i, x in enumerate(env[name]):
            addr = a[argi] + i
            if part:
                c = z3.simplify(bv(ret, 64) > i)
                if z3.is_false(c): continue
                if not z3.is_true(c):
                    if eng.check(st.pc, (c,)) != 'sat': continue
                    if argi == 1 and nr == 0 and is_c(a[2]) and i >= a[2]: raise Unsupported('system call result larger than asked for')
                    old = eng.load(st, addr, 1)
                    x = simp(z3.If(c, bv(x, 8), bv(old, 8)))
            eng.store(st, addr, x if is_c(x) else simp(x), 1)
    st.regs[RAX] = ret & x86.M64 if is_c(ret) else simp(bv(ret, 64))

def sysmodel(extra=None, env=None, script=None):
    """Linux system calls the generated programs use, as stand-ins: memory mapping, write, exit."""
    def hook(eng, st):
        nr = st.regs[RAX]
        if not is_c(nr): raise Unsupported('symbolic system call number')
        nr &= 0xffffffff            # (the kernel looks at 32 bits of the number)
        a = [st.regs[i] for i in (RDI, RSI, RDX, 10, 8, 9)]
        st.regs[RCX] = st.rip; st.regs[11] = 0x246
        if extra:
            r = extra(eng, st, nr, a)
            if r is not False: return r
        if script:
            r = scripted(eng, st, nr, a, env, script)
            if r is not False: return r
        if nr == 9:         # mmap
            n = a[1]
            if not is_c(n):
                vals = eng.concretizations(st, n, 64)
                if vals is None: raise EngineLimit('mmap of unbounded size')
                if len(vals) > 1:
                    outs = []
                    for v in vals:
                        o = st.fork(); o.pc.append(n == v); o.regs[RSI] = v; o.rip = eng.next - 2; outs.append(o)
                    return outs
                n = vals[0]
            if n == 0: st.regs[RAX] = (-22) & x86.M64; return
            if n > 1 << 40: st.regs[RAX] = (-12) & x86.M64; return
            lo = st.brk
            k = (n + 4095) & ~4095
            st.regions = st.regions + [Region(lo, lo + k, True, 'mmap%x' % n, zero=True)]
            st.brk = lo + k + 0x100000
            st.regs[RAX] = lo
            st.trace.append(('mmap', lo, n))
            return
        if nr == 11:        # munmap
            if not is_c(a[0]): raise Unsupported('munmap of symbolic address')
            n = a[1]
            if not is_c(n):
                vals = eng.concretizations(st, n, 64)
                if vals is None or len(vals) != 1: raise Unsupported('munmap of symbolic size')
                n = vals[0]
            lo = a[0]; hi = lo + ((n + 4095) & ~4095)
            new = []
            for r in st.regions:
                if r.hi <= lo or r.lo >= hi: new.append(r); continue
                if r.name.startswith('stack'): raise Fault('munmap of the stack', lo, n)
                if r.lo < lo: new.append(Region(r.lo, lo, r.w, r.name, r.zero))
                if r.hi > hi: new.append(Region(hi, r.hi, r.w, r.name, r.zero))
            for b in [b for b in st.mem if lo <= b < hi]: del st.mem[b]
            st.regions = new
            st.regs[RAX] = 0
            st.trace.append(('munmap', lo, n))
            return
        if nr == 1:         # write
            fd, p, n = a[0], a[1], a[2]
            if not is_c(n):
                vals = eng.concretizations(st, n, 64)
                if vals is None: raise EngineLimit('write of unbounded size')
                if len(vals) > 1:
                    outs = []
                    for v in vals:
                        o = st.fork(); o.pc.append(n == v); o.regs[RDX] = v; o.rip = eng.next - 2; outs.append(o)
                    return outs
                n = vals[0]
            data = [eng.load(st, x86.add(p, i, 64), 1) for i in range(n)]
            st.trace.append(('write', fd, data))
            st.regs[RAX] = n
            return
        if nr in (60, 231):
            st.status = 'exit'; st.info = a[0]
            return
        raise Unsupported('system call %d' % nr)
    return hook

class Outcome:
    def __init__(self, key):
        self.key = key; self.status = 'ok'; self.reason = ''; self.paths = 0; self.queries = 0; self.stime = 0.0
        self.oblig = 0; self.trivial = 0; self.validated = 0; self.insns = 0; self.cex = None; self.known = []
        self.sample = None; self.wall = 0.0; self.funcs = 0; self.undecided = 0

def buf_layout(case):
    """[(buf, addr)]; each ends at a page boundary with nothing mapped after it"""
    out = []
    for i, b in enumerate(case.bufs):
        page = BUF_BASE + i * 0x100000
        span = (b.n + 4095) & ~4095 or 4096
        out.append((b, page + span - b.n - b.off))
    return out

def initial(unit, case, eng, env, values=None):
    """state at the entry of case.fn; inputs from env"""
    img = eng.img
    st = State()
    top = x86.STACK_TOP
    st.regions = [Region(top - (1 << 20), top + 8, True, 'stack')]
    for b, a in buf_layout(case):
        st.regions.append(Region(a, a + b.n, b.w, b.name))
    st.regs = [0x5151515151510000 + i for i in range(16)]
    st.regs[RSP] = top
    st.xmm = [(0x4049505142495051 + i, 0x4049505142495053 + i) for i in range(16)]
    eng.wr(st, top, RET_MAGIC, 8)
    regs_used = 0; x_used = 0
    if case.args is not None:
        for n, t in case.args:
            v = env[n]
            if is_float(t):
                st.xmm[x_used] = (fp_to_bv(v) if t == 'f64' else x86.zext(fp_to_bv(v), 32, 64), st.xmm[x_used][1]); x_used += 1
            else:
                w, s = INTS[t]
                v = simp(bv(v, w)) if not is_c(v) else v & x86.mask(w)
                st.regs[IARGS[regs_used]] = (x86.sext if s else x86.zext)(v, w, 64); regs_used += 1
    for b, a in buf_layout(case):
        if not b.w:
            for r in st.regions:
                if r.name == b.name: r.w = True
        vals = env[b.name]
        for i, x in enumerate(vals): eng.wr(st, a + i, simp(x) if not is_c(x) else x, 1)
        if not b.w:
            for r in st.regions:
                if r.name == b.name: r.w = False
    argn = {n for n, _ in (case.args or [])}
    for n, t in case.ins.items():
        if n in argn or case.prefix + n not in img.syms: continue       # (an input no function uses)
        write_val(eng, st, sym(img, case, n), env[n], t)
    for n, (t, v) in case.fixed.items():
        write_val(eng, st, sym(img, case, n), v, t)
    for b, a in buf_layout(case):
        if b.ptr and b.ptr not in argn: write_val(eng, st, sym(img, case, b.ptr), a, 'ptr')
    st.rip = img.syms[case.prefix + case.fn] if not case.fn.startswith('=') else img.syms[case.fn[1:]]
    return st

def sym(img, case, n):
    k = case.prefix + n
    if k not in img.syms: raise CompileError('symbol %s is missing from the executable' % k)
    return img.syms[k]

def make_env(case):
    d = {}
    for n, t in case.ins.items(): d[n] = fresh(n, t)
    for n, t in (case.args or []):
        d[n] = fresh(n, t)
    for b, a in buf_layout(case):
        d[b.name] = [z3.BitVec('%s[%d]' % (b.name, i), 8) if b.init is None or b.init[i] is None else z3.BitVecVal(b.init[i], 8)
                     for i in range(b.n)]
        if b.ptr: d[b.ptr] = z3.BitVecVal(a, 64)
    for n, (t, v) in case.fixed.items():
        if n not in d: d[n] = v if not is_c(v) else (z3.BitVecVal(v, INTS[t][0]) if t in INTS else v)
    return Env(d)

def env_types(case):
    d = dict(case.ins)
    for n, t in (case.args or []): d[n] = t
    for b in case.bufs:
        d[b.name] = ('u8', b.n)
        if b.ptr: d[b.ptr] = 'ptr'
    return d

def read_outs(case, eng, st):
    d = {}
    for n, t in case.outs.items(): d[n] = read_val(eng, st, sym(eng.img, case, n), t)
    for b, a in buf_layout(case):
        d[b.name] = [bv(eng.rd(st, a + i, 1), 8) for i in range(b.n)]
    if case.ret:
        if is_float(case.ret):
            lo = st.xmm[0][0]
            d['ret'] = fp_from_bv(lo if case.ret == 'f64' else x86.trunc(lo, 64, 32), FLTS[case.ret][0])
        else:
            d['ret'] = bv(x86.trunc(st.regs[RAX], 64, INTS[case.ret][0]), INTS[case.ret][0])
    d['trace'] = st.trace
    d['status'] = st.status
    d['info'] = st.info
    return Env(d)

def concrete_env(case, env, model):
    d = {}
    ty = env_types(case)
    for n, v in env.items():
        f = lambda x: x if is_c(x) else z3.simplify(model.eval(x, model_completion=True))
        d[n] = [f(x) for x in v] if isinstance(v, list) else f(v)
    return Env(d)

class NativeResult: pass

def run_native(unit, case, cenv):
    """call the real machine code with concrete inputs"""
    img = unit.img
    ty = env_types(case)
    L = ['elf ' + unit.exe]
    for b, a in buf_layout(case):
        lo = a & ~4095; hi = (a + b.n + 4095) & ~4095
        if b.off: hi = max(hi, lo + 4096)
        L.append('map %x %x' % (lo, max(hi - lo, 4096)))
        if b.n: L.append('poke %x %s' % (a, val_bytes(cenv[b.name], ('u8', b.n)).hex()))
        if b.ptr and b.ptr not in {n for n, _ in (case.args or [])}:
            L.append('poke %x %s' % (sym(img, case, b.ptr), a.to_bytes(8, 'little').hex()))
    argn = {n for n, _ in (case.args or [])}
    for n, t in case.ins.items():
        if n in argn or case.prefix + n not in img.syms: continue
        L.append('poke %x %s' % (sym(img, case, n), val_bytes(cenv[n], t).hex()))
    for n, (t, v) in case.fixed.items():
        L.append('poke %x %s' % (sym(img, case, n), val_bytes(v, t).hex()))
    if case.args:
        i = f = 0
        for n, t in case.args:
            if is_float(t):
                L.append('farg %d %x' % (f, int.from_bytes(val_bytes(cenv[n], t), 'little'))); f += 1
            else:
                x = int.from_bytes(val_bytes(cenv[n], t), 'little'); w, s = INTS[t]
                if s: x = x86.sx(x, w) & x86.M64
                L.append('arg %d %x' % (i, x)); i += 1
    L.append('call %x' % (img.syms[case.prefix + case.fn] if not case.fn.startswith('=') else img.syms[case.fn[1:]]))
    for n, t in case.outs.items(): L.append('dump %x %x' % (sym(img, case, n), tsize(t)))
    for b, a in buf_layout(case):
        if b.n: L.append('dump %x %x' % (a, b.n))
    for y in case.script or ():
        ret = val_int(cenv[y.ret]) if isinstance(y.ret, str) else y.ret
        l = 'sys %x %x' % (y.nr, ret & x86.M64)
        if y.read: l += ' r%d %d' % y.read
        for argi, name, part in y.out:
            bs = val_bytes(cenv[name], ('u8', len(cenv[name])))
            if part: bs = bs[:max(0, ret)]
            l += ' %d %s' % (argi, bs.hex() or '-')
        L.append(l)
    if case.opts.get('align_calls'): L.append('align')
    L.append('go')
    res = NativeResult()
    res.script = L
    try:
        p = subprocess.run([native_runner()], input=('\n'.join(L) + '\n').encode(), capture_output=True, timeout=30, cwd=work())
    except subprocess.TimeoutExpired:
        res.status = 'timeout'; return res
    if p.returncode < 0:
        res.status = 'timeout' if p.returncode == -signal.SIGALRM else 'signal'
        res.sig = -p.returncode
        res.stdout = p.stdout
        return res
    if b'\nRESULT ' not in p.stdout:
        res.status = 'exit'; res.code = p.returncode; res.stdout = p.stdout; res.stderr = p.stderr
        if p.returncode in (90, 91, 92, 93, 94): raise RuntimeError('native runner: %r' % p.stderr)
        return res
    i = p.stdout.rindex(b'\nRESULT ')
    res.stdout = p.stdout[:i]
    tr = []
    if case.script:
        sl = [l for l in res.stdout.split(b'\n') if re.fullmatch(rb'SYS( [0-9a-f]+){7} ([0-9a-f]*|-)', l)]
        for l in sl:
            w = l.split(b' ')
            data = bytes.fromhex(w[8].decode()) if w[8] != b'-' else b''
            nr = int(w[1], 16)
            if any(y.nr == nr and y.read for y in case.script): data = [int.from_bytes(data[i:i + 8], 'little') for i in range(0, len(data), 8)]
            tr.append(('sys', nr, [int(x, 16) for x in w[2:8]], list(data)))
        if sl: res.stdout = b''
    lines = p.stdout[i + 1:].decode().split('\n')
    res.status = 'ret'
    m = re.match(r'RESULT rax=(\w+) rdx=(\w+) xmm0=(\w+) xmm1=(\w+)', lines[0])
    res.rax, res.rdx, res.xmm0, res.xmm1 = (int(x, 16) for x in m.groups())
    dumps = [bytes.fromhex(l.split()[2]) for l in lines[1:] if l.startswith('DUMP') and len(l.split()) > 2]
    d = {}
    k = 0
    for n, t in case.outs.items(): d[n] = bytes_val(dumps[k], t); k += 1
    for b, a in buf_layout(case):
        if b.n: d[b.name] = bytes_val(dumps[k], ('u8', b.n)); k += 1
        else: d[b.name] = []
    if case.ret:
        if is_float(case.ret): d['ret'] = bytes_val(res.xmm0.to_bytes(8, 'little'), case.ret)
        else: d['ret'] = z3.BitVecVal(res.rax & x86.mask(INTS[case.ret][0]), INTS[case.ret][0])
    d['status'] = 'ret'
    d['info'] = None
    d['trace'] = [('write', 1, list(res.stdout))] if res.stdout else tr
    res.out = Env(d)
    return res

def val_int(v):
    v = z3.simplify(v) if not is_c(v) else v
    return v if is_c(v) else v.as_signed_long()

def truth(t):
    """concrete truth value of a z3 Bool / python bool, None if not decided by simplification"""
    if isinstance(t, bool): return t
    t = z3.simplify(t)
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    s = z3.Solver(); s.set('timeout', 20000)
    s.add(t)
    r = s.check()
    if r == z3.unsat: return False
    s2 = z3.Solver(); s2.set('timeout', 20000); s2.add(z3.Not(t))
    if s2.check() == z3.unsat: return True
    return None

def posts(case, env, out):
    r = case.post(env, out)
    if not isinstance(r, (list, tuple)): r = [('result', r)]
    return [(x if isinstance(x, tuple) else ('result', x)) for x in r]

def conj(l):
    l = [x for x in l if not (isinstance(x, bool) and x)]
    if any(isinstance(x, bool) for x in l): return z3.BoolVal(False)
    return z3.And(*l) if len(l) > 1 else (l[0] if l else z3.BoolVal(True))

def has_fp(t, seen=None, depth=[0]):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_fp(x) or z3.is_fprm(x): return True
        stack.extend(x.children())
    return False

CORN = [0, 1, 2, 3, 5, 7, 8, -1, -2, -3, -7, 10, 16, 31, 32, 33, 63, 64, 100, 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 65535, 65536,
        2147483647, -2147483648, 4294967295, 4294967296, 9223372036854775807, -9223372036854775808, 0x123456789abcdef0, 0x80808080]
def corner_model(goal, vars_, rng, tries=60):
    """cheap search for a satisfying assignment before the solver is asked (the solver still has the last word)"""
    for _ in range(tries):
        sub = []
        for v in vars_:
            s = v.sort()
            if z3.is_bv_sort(s):
                n = s.size()
                x = rng.choice(CORN) if rng.random() < .8 else rng.getrandbits(n)
                sub.append((v, z3.BitVecVal(x & x86.mask(n), n)))
            elif z3.is_fp_sort(s):
                n = s.ebits() + s.sbits()
                c = rng.choice([0.0, -0.0, 1.0, -1.0, 1.5, -2.5, 1e10, -1e10, 1e30, 3e9, 1.8e19, 255.9, 0.1, float('inf'), float('-inf'), float('nan')])
                sub.append((v, z3.FPVal(c, s)))
            else: return None
        if z3.is_true(z3.simplify(z3.substitute(goal, *sub))): return sub
    return None

class SubModel:
    def __init__(self, sub): self.sub = sub
    def eval(self, t, model_completion=True):
        t = z3.simplify(z3.substitute(t, *self.sub)) if self.sub else z3.simplify(t)
        rest = []
        for c in consts_of(t):
            s = c.sort()
            if z3.is_bv_sort(s): rest.append((c, z3.BitVecVal(0, s.size())))
            elif z3.is_fp_sort(s): rest.append((c, z3.FPVal(0.0, s)))
            elif s == z3.BoolSort(): rest.append((c, z3.BoolVal(False)))
        return z3.simplify(z3.substitute(t, *rest)) if rest else t

def consts_of(t):
    seen, out, stack = set(), [], [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        stack.extend(x.children())
    return out

def resolve_ifs(pc, t, limit=60):
    """replace the conditions of if-then-else terms in t that pc decides"""
    s = z3.Solver(); s.set('timeout', 1000); s.add(*pc)
    seen = {}
    for _ in range(limit):
        # innermost if-then-else term whose condition has not been tried
        cand, visited, stack = None, set(), [t]
        while stack:
            x = stack.pop()
            if x.get_id() in visited: continue
            visited.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and x.arg(0).get_id() not in seen: cand = x.arg(0)
            stack.extend(x.children())
        if cand is None: break
        seen[cand.get_id()] = cand
        for c, v in ((z3.Not(cand), True), (cand, False)):
            if s.check(c) == z3.unsat:
                t = z3.simplify(z3.substitute(t, (cand, z3.BoolVal(v)))); break
    return t

def decide(goal, stats, timeout_ms, rng, pc=None, body=None):
    """satisfiability of goal -> ('unsat', None) | ('sat', model) | ('unknown', None)"""
    if goal is None: goal = z3.And(*pc, body)
    g = z3.simplify(goal)
    if z3.is_false(g):
        stats.trivial += 1
        return 'unsat', None
    if z3.is_true(g):
        return 'sat', SubModel([])
    t0 = time.time()
    try:
        def attempt(mk, ms):
            s = mk(); s.set('timeout', int(ms)); s.add(g)
            stats.queries += 1
            r = s.check()
            return r, (s.model() if r == z3.sat else None)
        fp = has_fp(g)
        r, m = attempt(z3.Solver, min(2000, timeout_ms))
        if r != z3.unknown: return str(r), m
        if pc is not None:
            body2 = resolve_ifs(pc, z3.simplify(body))
            g = z3.simplify(z3.And(*pc, body2))
            if z3.is_false(g): return 'unsat', None
            r, m = attempt(z3.Solver, min(3000, timeout_ms))
            if r != z3.unknown: return str(r), m
        cm = corner_model(g, consts_of(g), rng)
        if cm is not None: return 'sat', SubModel(cm)
        if fp: mk = lambda: z3.Then('simplify', 'propagate-values', 'fpa2bv', 'simplify', 'propagate-values', 'ctx-simplify', 'bit-blast', 'sat').solver()
        else: mk = lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'bit-blast', 'sat').solver()
        r, m = attempt(mk, timeout_ms)
        if r != z3.unknown: return str(r), m
        r, m = attempt(z3.Solver, timeout_ms)
        if r != z3.unknown: return str(r), m
        stats.unknown += 1
        return 'unknown', None
    except z3.Z3Exception as e:
        stats.unknown += 1
        return 'unknown', None
    finally:
        stats.solver_time += time.time() - t0

def check_case(unit, case, deadline, known):
    o = Outcome(case.key)
    t0 = time.time()
    stats = Stats()
    rng = random.Random(SEED * 7919 + int(hashlib.sha1(case.key.encode()).hexdigest()[:8], 16))
    opts = dict(max_paths=4000, max_steps=300000, timeout_ms=20000)
    opts.update(case.opts)
    tmo = case.timeout or (60000 if THOROUGH else 20000)
    try:
        if unit.img is None: unit.img = Image(unit.exe)
        eng = Engine(unit.img, stats, deadline=deadline, **opts)
        env = make_env(case)
        eng.syscall_hook = sysmodel(case.sys, env, case.script)
        if case.setup: case.setup(eng)
        pre = []
        for n, t in env_types(case).items(): pre += type_pre(env[n], t)
        if case.pre: 
            p = case.pre(env)
            pre += list(p) if isinstance(p, (list, tuple)) else [p]
        pre = [x if not isinstance(x, bool) else z3.BoolVal(x) for x in pre]
        st = initial(unit, case, eng, env)
        st.pc = [z3.simplify(x) for x in pre]
        st.pc = [x for x in st.pc if not z3.is_true(x)]
        if eng.check(st.pc) != 'sat': raise RuntimeError('precondition of %s is not satisfiable' % case.key)
        whens = []
        for k in known:
            w = k['when']
            whens.append((k, z3.BoolVal(True) if w == '*' else eval(w, {'z3': z3, 'e': env, **z3.__dict__})))
        excl = [z3.Not(w) for _, w in whens]
        validated = False
        limit_reason = None
        gen = eng.run(st)
        while True:
            try: s = next(gen)
            except StopIteration: break
            except EngineLimit as e:
                limit_reason = str(e)
                if 'step budget' in limit_reason and getattr(eng, 'limit_state', None) is not None:
                    ls = eng.limit_state
                    if eng.check(ls.pc, tuple(excl)) == 'sat':
                        cenv = concrete_env(case, env, eng._model)
                        res = run_native(unit, case, cenv)
                        if res.status == 'timeout':
                            fail(o, unit, case, cenv, 'does not terminate', res)
                            return o
                break
            o.paths += 1
            if s.status == 'fault':
                cond = case.fault(env) if case.fault else False
                cond = z3.BoolVal(cond) if isinstance(cond, bool) else cond
                o.oblig += 1
                r, m = decide(z3.And(*s.pc, z3.Not(cond), *excl), stats, tmo, rng)
                if r == 'sat':
                    cenv = concrete_env(case, env, m)
                    res = run_native(unit, case, cenv)
                    if res.status in ('signal', 'timeout'):
                        fail(o, unit, case, cenv, 'crashes: %s' % s.info, res); return o
                    if res.status == 'ret':
                        # the fault may have been harmless on this machine (e.g. a read past an object):
                        # judge the result as well
                        bad = [n for n, c in posts(case, cenv, res.out) if truth(c) is False]
                        if bad:
                            fail(o, unit, case, cenv, 'wrong result (%s) after %s' % (', '.join(bad), s.info), res); return o
                    o.status = 'undecided'; o.undecided += 1
                    o.reason = 'fault %s not reproduced natively (%s) at %x' % (s.info, res.status, s.rip)
                elif r == 'unknown':
                    o.status = 'undecided'; o.undecided += 1; o.reason = 'fault feasibility unknown'
                for k, w in whens:
                    if eng.check(s.pc, (w,)) == 'sat':
                        cenv = concrete_env(case, env, eng._model)
                        res = run_native(unit, case, cenv)
                        if res.status != 'ret': o.known.append(k['what'])
                continue
            out = read_outs(case, eng, s)
            if s.status == 'exit' and not case.opts_get('exit_ok'):
                good = z3.BoolVal(False); items = [('exit', False)]
            else:
                items = posts(case, env, out)
                good = conj([c for _, c in items])
            o.oblig += 1
            neg = z3.Not(good)
            r, m = decide(None, stats, tmo, rng, list(s.pc) + excl, neg)
            if r == 'unsat': pass
            elif r == 'sat':
                cenv = concrete_env(case, env, m)
                res = run_native(unit, case, cenv)
                if res.status == 'ret':
                    bad = [n for n, c in posts(case, cenv, res.out) if truth(c) is False]
                    if bad:
                        fail(o, unit, case, cenv, 'wrong: ' + ', '.join(bad), res); return o
                elif res.status in ('signal', 'timeout') or (res.status == 'exit' and s.status == 'exit'):
                    fail(o, unit, case, cenv, 'ends with ' + res.status, res); return o
                o.status = 'undecided'; o.undecided += 1; o.reason = 'counterexample not reproduced natively: ' + \
                    ', '.join('%s=%s' % (n, show_val(v)) for n, v in cenv.items() if n in env_types(case))[:300] + ' native ' + res.status
            else:
                o.status = 'undecided'; o.undecided += 1; o.reason = 'solver gave no answer in time'
            for k, w in whens:
                if k['what'] in o.known: continue
                r, m = decide(z3.And(*s.pc, neg, w), stats, tmo, rng)
                if r == 'sat':
                    cenv = concrete_env(case, env, m)
                    res = run_native(unit, case, cenv)
                    if res.status != 'ret' or any(truth(c) is False for _, c in posts(case, cenv, res.out)):
                        o.known.append(k['what'])
            # the engine against the hardware, on a concrete input of this path
            if not validated and s.status == 'ret' and (eng.check(s.pc, tuple(excl) + tuple(plain_floats(case, env))) == 'sat' or eng.check(s.pc, tuple(excl)) == 'sat'):
                cenv = concrete_env(case, env, eng._model)
                res = run_native(unit, case, cenv)
                if res.status == 'ret':
                    ok = True
                    for n in case.outs:
                        f = lambda x: eng._m.eval(x, model_completion=True)
                    o.validated += compare_native(case, env, out, eng, cenv, res)
                    validated = True
                    if o.sample is None:
                        o.sample = {'case': case.key, 'inputs': {n: show_val(v) for n, v in cenv.items() if n in env_types(case)},
                                    'outputs': {n: show_val(v) for n, v in res.out.items() if n in case.outs or n == 'ret'}}
        if limit_reason:
            o.status = 'undecided'; o.undecided += 1; o.reason = limit_reason
        if o.paths == 0 and o.status == 'ok':
            o.status = 'undecided'; o.reason = 'no path reached the end'
    except CompileError as e:
        o.status = 'violation'; o.cex = {'what': str(e)}
    except (Unsupported, EngineLimit) as e:
        o.status = 'undecided'; o.undecided += 1; o.reason = '%s: %s' % (type(e).__name__, e)
    except Exception as e:
        o.status = 'error'; o.reason = traceback.format_exc()
    finally:
        o.queries = stats.queries; o.stime = stats.solver_time; o.trivial = stats.trivial
        o.insns = stats.insns; o.funcs = len(stats.funcs) + 1
        o.wall = time.time() - t0
    return o

def nan_bits(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_FPA_TO_IEEE_BV: return True
        stack.extend(x.children())
    return False

def plain_floats(case, env):
    """constraints that keep float inputs ordinary numbers (for the validation run only)"""
    out = []
    for n, t in env_types(case).items():
        b = t[0] if isinstance(t, tuple) else t
        if b in FLTS:
            for x in (env[n] if isinstance(env[n], list) else [env[n]]):
                out += [z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsInf(x))]
    return out

def compare_native(case, env, out, eng, cenv, res):
    """1 if the symbolic outputs, evaluated at cenv, equal what the hardware produced"""
    sub = []
    for n, v in env.items():
        for a, b in (zip(v, cenv[n]) if isinstance(v, list) else [(v, cenv[n])]):
            if not is_c(a) and z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED: sub.append((a, b))
    for n in list(case.outs) + (['ret'] if case.ret else []):
        a, b = out[n], res.out[n]
        for x, y in (zip(a, b) if isinstance(a, list) else [(a, b)]):
            x = z3.simplify(z3.substitute(x, *sub)) if sub else z3.simplify(x)
            if consts_of(x): continue            # depends on uninitialised memory
            if nan_bits(x): continue             # NaN payloads are not modelled
            if z3.is_fp(x):
                same = z3.is_true(z3.simplify(x == y)) or z3.is_true(z3.simplify(z3.And(z3.fpIsNaN(x), z3.fpIsNaN(y))))
            else: same = z3.is_true(z3.simplify(x == y))
            if not same:
                raise Unsupported('engine and hardware disagree on %s: %s vs %s for %s' % (n, x, y, {k: show_val(v) for k, v in cenv.items()}))
    return 1

def fail(o, unit, case, cenv, what, res):
    o.status = 'violation'
    ins = {n: show_val(v) for n, v in cenv.items() if n in env_types(case)}
    observed = {}
    if res.status == 'ret':
        observed = {n: show_val(v) for n, v in res.out.items() if n in case.outs or n == 'ret' or any(b.name == n for b in case.bufs)}
    o.cex = {'what': what, 'case': case.key, 'desc': case.desc, 'function': case.fn, 'inputs': ins, 'observed': observed,
             'native': res.status if res.status != 'signal' else 'signal %d' % res.sig,
             'flags': list(unit.flags), 'program': unit.src, 'native_script': getattr(res, 'script', [])}

def opts_get(self, k): return self.opts2.get(k) if hasattr(self, 'opts2') else None
Case.opts_get = opts_get

# --------------------------------------------------------------- known findings
def load_known(pid):
    out = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'^known: property=(\S+) case=(\S+) when=`(.*?)` what=(.*)$', line.strip())
            if m and m.group(1) == pid:
                out.append({'case': m.group(2), 'when': m.group(3), 'what': m.group(4)})
    return out

# ---------------------------------------------------------------------- runner
_units = None
def _compile_unit(i):
    u = _units[i]
    try:
        if u.build: return i, u.build(u), None
        return i, csp_compile(u.src, u.flags, name=re.sub(r'\W', '_', u.name)[:30], files=u.files), None
    except CompileError as e:
        return i, None, e.msg
    except BuildError: raise

def _task(t):
    i, j, deadline, known = t
    return (i, j, check_case(_units[i], _units[i].cases[j], deadline, known))

def _worker(fn, conn):
    """serves chunks of tasks; a result per task"""
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        try: chunk = conn.recv()
        except EOFError: os._exit(0)
        if chunk is None: os._exit(0)
        for k, t in chunk:
            try: r = (k, fn(t), None)
            except BaseException: r = (k, None, traceback.format_exc()[-1500:])
            conn.send(r)

def pmap(fn, tasks, chunk=1, hard=None):
    """like Pool.imap_unordered, yields (index, result, error). A worker that dies (the solver library can crash) or
    overruns `hard` (epoch seconds) is replaced; the task it was at is tried once more, then reported with an error."""
    from multiprocessing.connection import wait
    ctx = mp.get_context('fork')
    todo = [(k, t) for k, t in enumerate(tasks)][::-1]; tries = {}; live = {}
    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(fn, b), daemon=True); p.start(); b.close()
        live[a] = [p, []]
        return a
    def feed(a):
        c = [todo.pop() for _ in range(min(chunk, len(todo)))]
        if c and tries.get(c[0][0]): todo.extend(c[1:][::-1]); c = c[:1]
        live[a][1] = c
        if c: a.send(c)
    for _ in range(min(NPROC, len(todo))): feed(spawn())
    try:
        while any(l[1] for l in live.values()):
            ready = wait([a for a, l in live.items() if l[1]], 5)
            late = hard is not None and time.time() > hard
            for a in list(live):
                p, pend = live[a]
                if not pend: continue
                r = None
                if a in ready:
                    try: r = a.recv()
                    except (EOFError, OSError): r = 'dead'
                elif late: r = 'late'
                if r is None: continue
                if isinstance(r, tuple):
                    live[a][1] = pend = [x for x in pend if x[0] != r[0]]
                    yield r
                    if not pend: feed(a)
                    continue
                p.kill(); p.join(); a.close(); del live[a]
                k, t = pend[0]; tries[k] = tries.get(k, 0) + 1
                if late:
                    for k, t in pend + todo[::-1]: yield (k, None, 'time ran out')
                    todo.clear()
                    continue
                todo.extend(pend[1:][::-1])
                if tries[k] < 2: todo.append((k, t))
                else: yield (k, None, 'worker process died (exit code %s)' % p.exitcode)
                feed(spawn())
    finally:
        for a, (p, _) in live.items(): p.kill(); p.join()

class Report:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.violations = []        # (key, dict)
        self.known = []             # (key, what)
        self.undecided = []
        self.errors = []
        self.counts = dict(programs=0, cases=0, paths=0, queries=0, obligations=0, trivial=0, validated=0, instructions=0)
        self.solver_time = 0.0
        self.samples = []
        self.extra = {}
        self.assumptions = []

    def violation(self, key, cex):
        self.violations.append((key, cex))

    def add(self, unit, o, case):
        c = self.counts
        c['cases'] += 1; c['paths'] += o.paths; c['queries'] += o.queries; c['obligations'] += o.oblig
        c['trivial'] += o.trivial; c['validated'] += o.validated; c['instructions'] += o.insns
        self.solver_time += o.stime
        for w in o.known: self.known.append((o.key, w))
        if o.status == 'violation': self.violation(o.key, o.cex)
        elif o.status == 'undecided': self.undecided.append((o.key, o.reason))
        elif o.status == 'error': self.errors.append((o.key, o.reason))
        if o.sample and len(self.samples) < 6 and random.Random(o.key).random() < .3: self.samples.append(o.sample)
        elif o.sample and not self.samples: self.samples.append(o.sample)
        if os.environ.get('VERIF_VERBOSE'):
            print('  %-50s %-10s paths=%d q=%d %.1fs %s' % (o.key, o.status, o.paths, o.queries, o.wall, o.reason[:300]), flush=True)

    def run_units(self, units, budget=None):
        global _units
        budget = budget or (700 if THOROUGH else 240)
        deadline = self.t0 + budget
        known = load_known(self.pid)
        _units = units
        cspc(); native_runner()
        exes = [None] * len(units)
        for k, r, err in pmap(_compile_unit, range(len(units))):
            if err is not None: raise BuildError(err)
            exes[k] = r
        ok = []
        for i, exe, err in exes:
            u = units[i]
            if err is not None:
                ks = [k for k in known if k['case'] == 'compile:' + u.name]
                if ks: self.known.append(('compile:' + u.name, ks[0]['what']))
                else: self.violation('compile:' + u.name, {'what': 'a valid program is not compiled: ' + err, 'program': u.src, 'flags': list(u.flags)})
                continue
            u.exe = exe
            try: u.img = Image(exe)
            except Exception as e:
                self.errors.append((u.name, 'cannot load: %r' % e)); continue
            ok.append(i)
        self.counts['programs'] += len(ok)
        base = os.environ.get('VERIF_BASE')      # (development, tools/mutate.py: only what is compiled differently)
        if base:
            h = {}
            for i in ok:
                subprocess.run(['objcopy', '-O', 'binary', '-R', '.note*', units[i].exe, units[i].exe + '.raw'], check=True)
                h[units[i].name] = hashlib.sha1(open(units[i].exe + '.raw', 'rb').read()).hexdigest()
            f = '%s/%s.json' % (base, self.pid)
            if not os.path.exists(f): json.dump(h, open(f, 'w')); sys.exit(0)
            old = json.load(open(f)); ok = [i for i in ok if old.get(units[i].name) != h[units[i].name]]
            print('changed units:', [units[i].name for i in ok])
            if self.violations: sys.exit(1)
        tasks = []
        for i in ok:
            for j, c in enumerate(units[i].cases):
                if os.environ.get('VERIF_ONLY') and not re.match(os.environ['VERIF_ONLY'], c.key): continue      # (development)
                kn = [k for k in known if re.fullmatch(k['case'], c.key)]
                tasks.append((i, j, deadline, kn))
        _units = units
        for k, r, err in pmap(_task, tasks, max(1, min(8, len(tasks) // (NPROC * 6))), deadline + 60):
            i, j = tasks[k][:2]
            if err is not None:
                o = Outcome(units[i].cases[j].key); o.reason = err
                o.status = 'undecided' if err.startswith(('worker process died', 'time ran out')) else 'error'
            else: o = r[2]
            self.add(units[i], o, units[i].cases[j])
            if base and self.violations: print('caught by', o.key, flush=True); os._exit(1)

    def finish(self, explanation=None, **cov):
        d = {'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': self.level, 'wall_s': round(time.time() - self.t0, 2)}
        c = dict(self.counts)
        coverage = {}
        if self.level == 'translation_validation':
            coverage = {'programs': c['programs'], 'disagreements_checked': c['obligations']}
        elif self.level == 'model_checking':
            coverage = {'states': c['paths'], 'transitions': c['instructions'], 'traces_validated_against_impl': c['validated']}
        coverage['samples'] = self.samples or [{'note': 'no sample'}]
        coverage.update({'cases': c['cases'], 'solver_queries': c['queries'], 'solver_time_s': round(self.solver_time, 2),
                         'closed_by_simplification': c['trivial'], 'undecided': [list(x) for x in self.undecided[:40]],
                         'undecided_count': len(self.undecided)})
        if self.level != 'model_checking':
            coverage.update({'symbolic_paths': c['paths'], 'native_validations': c['validated'], 'instructions_executed_symbolically': c['instructions']})
        coverage.update(self.extra)
        coverage.update(cov)
        if explanation: coverage['explanation'] = explanation
        d['coverage'] = coverage
        d['assumptions'] = self.assumptions
        d['violations'] = len(self.violations)
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(d, open(VERIF + '/evidence/%s.json' % self.pid, 'w'), indent=1)
        for key, what in sorted(set(self.known)):
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, key, what))
        rd = VERIF + '/evidence/replay'
        for n, (key, cex) in enumerate(self.violations[:20]):
            os.makedirs(rd, exist_ok=True)
            path = '%s/%s-%d.json' % (rd, self.pid, n)
            json.dump({'property': self.pid, 'case': key, **(cex or {})}, open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('  %s: %s %s' % (key, (cex or {}).get('what', '')[:600], json.dumps((cex or {}).get('inputs', {}))[:600]))
        for key, r in self.errors[:10]: print('ERROR in %s: %s' % (key, r))
        print('%s %s: %d programs, %d cases, %d paths, %d obligations, %d solver queries (%.1f s), %d native validations, '
              '%d undecided, %d violations, %.1f s' % (self.pid, TIER, c['programs'], c['cases'], c['paths'], c['obligations'], c['queries'],
              self.solver_time, c['validated'], len(self.undecided), len(self.violations), time.time() - self.t0))
        for key, r in self.undecided[:10]: print('  undecided %s: %s' % (key, r[:400]))
        sys.stdout.flush()
        if self.violations: sys.exit(1)
        if self.errors: sys.exit(2)
        sys.exit(0)
