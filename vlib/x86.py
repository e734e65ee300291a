"""Symbolic executor for x86-64 machine code (user-level subset), on top of z3.

The code executed is whatever the real tool chain produced: the ELF file is
disassembled with objdump and every instruction is interpreted over values that
are Python ints (concrete) or z3 bit-vector / floating-point terms (symbolic).
Paths fork on feasible branch directions; a state carries its path condition.

Anything that is not modelled raises Unsupported: it is never skipped.
"""
import os, re, struct, subprocess, bisect, time
import z3

class Unsupported(Exception): pass
class EngineLimit(Exception): pass

M64 = (1 << 64) - 1
RNE = z3.RNE()
RTZ = z3.RTZ()
F32 = z3.Float32()
F64 = z3.Float64()
F80 = z3.FPSort(15, 64)

def mask(n): return (1 << n) - 1

# ---------------------------------------------------------------- bit-vectors
def is_c(v): return type(v) is int

def bv(v, n):
    """as z3 term of n bits"""
    if type(v) is int:
        return z3.BitVecVal(v, n)
    return v

def simp(t):
    """simplify; constants come back as ints"""
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_long()
    return t

def sx(v, n):
    """signed python value of an n-bit int"""
    return v - (1 << n) if v >> (n - 1) & 1 else v

def zext(v, n, m):
    if n == m: return v
    if is_c(v): return v
    return simp(z3.ZeroExt(m - n, v))

def sext(v, n, m):
    if n == m: return v
    if is_c(v): return sx(v, n) & mask(m)
    return simp(z3.SignExt(m - n, v))

def trunc(v, n, m):
    """n bits -> low m bits"""
    if n == m: return v
    if is_c(v): return v & mask(m)
    return simp(z3.Extract(m - 1, 0, v))

def extract(v, hi, lo):
    if is_c(v): return (v >> lo) & mask(hi - lo + 1)
    return simp(z3.Extract(hi, lo, v))

def concat(parts):
    """[(value, nbits)] most significant first"""
    if all(is_c(v) for v, _ in parts):
        r = 0
        for v, n in parts: r = (r << n) | v
        return r
    return simp(z3.Concat(*[bv(v, n) for v, n in parts])) if len(parts) > 1 else parts[0][0]

def is_b(v): return type(v) is bool

def bsimp(t):
    if type(t) is bool: return t
    t = z3.simplify(t)
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return t

def b_not(a): return (not a) if is_b(a) else bsimp(z3.Not(a))
def b_and(a, b):
    if is_b(a): return b if a else False
    if is_b(b): return a if b else False
    return bsimp(z3.And(a, b))
def b_or(a, b):
    if is_b(a): return True if a else b
    if is_b(b): return True if b else a
    return bsimp(z3.Or(a, b))
def b_xor(a, b):
    if is_b(a) and is_b(b): return a != b
    if is_b(a): return b_not(b) if a else b
    if is_b(b): return b_not(a) if b else a
    return bsimp(z3.Xor(a, b))
def b2bv(b, n):
    if is_b(b): return 1 if b else 0
    return simp(z3.If(b, z3.BitVecVal(1, n), z3.BitVecVal(0, n)))
def ite(c, a, b, n):
    if is_b(c): return a if c else b
    if is_c(a) and is_c(b) and a == b: return a
    return simp(z3.If(c, bv(a, n), bv(b, n)))
def bool_term(b):
    return z3.BoolVal(b) if is_b(b) else b

def order(a, b):
    """canonical operand order for commutative operations"""
    if is_c(a) and not is_c(b): return b, a
    if is_c(b): return a, b
    if a.get_id() > b.get_id(): return b, a
    return a, b

def add(a, b, n):
    if is_c(a) and is_c(b): return (a + b) & mask(n)
    if is_c(b) and b == 0: return a
    if is_c(a) and a == 0: return b
    return simp(bv(a, n) + bv(b, n))
def sub(a, b, n):
    if is_c(a) and is_c(b): return (a - b) & mask(n)
    if is_c(b) and b == 0: return a
    return simp(bv(a, n) - bv(b, n))
def mul(a, b, n):
    if is_c(a) and is_c(b): return (a * b) & mask(n)
    a, b = order(a, b)
    return simp(bv(a, n) * bv(b, n))
def band(a, b, n):
    if is_c(a) and is_c(b): return a & b
    if is_c(a): a, b = b, a
    if is_c(b):
        if b == 0: return 0
        if b == mask(n): return a
    return simp(bv(a, n) & bv(b, n))
def bor(a, b, n):
    if is_c(a) and is_c(b): return a | b
    return simp(bv(a, n) | bv(b, n))
def bxor(a, b, n):
    if is_c(a) and is_c(b): return a ^ b
    if not is_c(a) and not is_c(b) and a.eq(b): return 0
    return simp(bv(a, n) ^ bv(b, n))
def bnot(a, n):
    if is_c(a): return a ^ mask(n)
    return simp(~a)
def neg(a, n):
    if is_c(a): return (-a) & mask(n)
    return simp(-a)
def eq(a, b, n):
    if is_c(a) and is_c(b): return a == b
    return bsimp(bv(a, n) == bv(b, n))
def ult(a, b, n):
    if is_c(a) and is_c(b): return a < b
    return bsimp(z3.ULT(bv(a, n), bv(b, n)))
def slt(a, b, n):
    if is_c(a) and is_c(b): return sx(a, n) < sx(b, n)
    return bsimp(bv(a, n) < bv(b, n))
def bit(a, i):
    if is_c(a): return bool(a >> i & 1)
    return bsimp(z3.Extract(i, i, a) == 1)

# ------------------------------------------------------------ floating point
_fp_of_bv = {}      # bv ast id -> (bv term kept alive, fp term)

def fp_from_bv(v, sort):
    n = sort.ebits() + sort.sbits()
    if is_c(v):
        return z3.simplify(z3.fpBVToFP(z3.BitVecVal(v, n), sort))
    r = _fp_of_bv.get(v.get_id())
    if r is not None and r[1].sort() == sort:
        return r[1]
    return z3.fpBVToFP(v, sort)

def fp_to_bv(f):
    """IEEE bits of f. NaN payloads are not tracked: every NaN is the same value."""
    f = z3.simplify(f)
    t = z3.simplify(z3.fpToIEEEBV(f))
    if z3.is_bv_value(t): return t.as_long()
    _fp_of_bv[t.get_id()] = (t, f)
    return t

def fp_bin(op, a, b):
    if op in ('add', 'mul') and a.get_id() > b.get_id():
        a, b = b, a
    if op == 'add': r = z3.fpAdd(RNE, a, b)
    elif op == 'sub': r = z3.fpSub(RNE, a, b)
    elif op == 'mul': r = z3.fpMul(RNE, a, b)
    elif op == 'div': r = z3.fpDiv(RNE, a, b)
    else: raise Unsupported(op)
    return r

# ------------------------------------------------------------------ ELF image
_shared = {}
class Image:
    def __init__(self, path):
        self.path = path
        data = open(path, 'rb').read()
        assert data[:4] == b'\x7fELF'
        self.segs = []          # (lo, hi, bytes, writable)
        e_phoff, e_shoff = struct.unpack_from('<QQ', data, 32)
        e_phentsize, e_phnum = struct.unpack_from('<HH', data, 54)
        e_shentsize, e_shnum, e_shstrndx = struct.unpack_from('<HHH', data, 58)
        self.entry = struct.unpack_from('<Q', data, 24)[0]
        for i in range(e_phnum):
            p_type, p_flags, p_off, p_va, _, p_fsz, p_msz, _ = struct.unpack_from('<IIQQQQQQ', data, e_phoff + i * e_phentsize)
            if p_type == 1 and p_msz:
                end = (p_va + p_msz + 4095) & ~4095         # (the rest of the last page is readable)
                self.segs.append((p_va, end, data[p_off:p_off + p_fsz] + b'\0' * (end - p_va - p_fsz), bool(p_flags & 2)))
        self.syms = {}
        self.symsize = {}
        secs = []
        for i in range(e_shnum):
            secs.append(struct.unpack_from('<IIQQQQIIQQ', data, e_shoff + i * e_shentsize))
        for s in secs:
            if s[1] == 2:       # SYMTAB
                stro = secs[s[6]][4]
                for k in range(s[5] // 24):
                    n, info, oth, shn, val, sz = struct.unpack_from('<IBBHQQ', data, s[4] + 24 * k)
                    end = data.index(b'\0', stro + n)
                    name = data[stro + n:end].decode('latin1')
                    if name and shn and (info & 15) != 4:
                        self.syms.setdefault(name, val)
                        self.symsize.setdefault(name, sz)
        self.insns = {}
        self._disasm()

    def _disasm(self):
        if os.path.exists(self.path + '.base'):      # snapshots of one executable share its instructions
            b = open(self.path + '.base').read()
            if b in _shared: self.insns, self.decoded = _shared[b]; return
        out = subprocess.run(['objdump', '-d', '-w', '-M', 'intel', self.path],
                             capture_output=True, text=True, check=True).stdout
        rows = []
        for line in out.split('\n'):
            m = re.match(r'^\s*([0-9a-f]+):\t((?:[0-9a-f]{2} )+)\s*(?:\t(.*))?$', line)
            if not m: continue
            rows.append((int(m.group(1), 16), len(m.group(2).split()), (m.group(3) or '').strip()))
        for a, n, text in rows:
            self.insns[a] = (text, a + n)
        self.decoded = {}
        if os.path.exists(self.path + '.base'): _shared[b] = (self.insns, self.decoded)

    def __contains__(self, sym): return sym in self.syms

REG64 = ['rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi'] + ['r%d' % i for i in range(8, 16)]
REGS = {}       # name -> (index, bits, shift)
for i, r in enumerate(REG64):
    REGS[r] = (i, 64, 0)
for i, r in enumerate(['eax', 'ecx', 'edx', 'ebx', 'esp', 'ebp', 'esi', 'edi'] + ['r%dd' % i for i in range(8, 16)]):
    REGS[r] = (i, 32, 0)
for i, r in enumerate(['ax', 'cx', 'dx', 'bx', 'sp', 'bp', 'si', 'di'] + ['r%dw' % i for i in range(8, 16)]):
    REGS[r] = (i, 16, 0)
for i, r in enumerate(['al', 'cl', 'dl', 'bl', 'spl', 'bpl', 'sil', 'dil'] + ['r%db' % i for i in range(8, 16)]):
    REGS[r] = (i, 8, 0)
for i, r in enumerate(['ah', 'ch', 'dh', 'bh']):
    REGS[r] = (i, 8, 8)
RAX, RCX, RDX, RBX, RSP, RBP, RSI, RDI = range(8)

SIZES = {'BYTE': 8, 'WORD': 16, 'DWORD': 32, 'QWORD': 64, 'TBYTE': 80, 'XMMWORD': 128, 'FWORD': 48, 'OWORD': 128}

def parse_operand(s):
    s = s.strip()
    s = s.split('#')[0].strip()
    if s in REGS: return ('r',) + REGS[s]
    m = re.match(r'^xmm(\d+)$', s)
    if m: return ('x', int(m.group(1)))
    m = re.match(r'^st(?:\((\d)\))?$', s)
    if m: return ('st', int(m.group(1) or 0))
    m = re.match(r'^(?:(\w+) PTR )?(?:(\ws):)?(?:\[(.*)\]|(0x[0-9a-f]+))$', s)
    if m and (m.group(3) is not None or m.group(2)):
        size = SIZES[m.group(1)] if m.group(1) else None
        seg = m.group(2)
        base = idx = None; scale = 1; disp = 0; rip = False
        if m.group(3) is None:
            return ('m', size, None, None, 1, int(m.group(4), 16), False, seg)
        e = m.group(3)
        for t in re.findall(r'[+-]?[^+-]+', e):
            sign = 1
            if t[0] in '+-':
                sign = -1 if t[0] == '-' else 1
                t = t[1:]
            t = t.strip()
            if t == 'rip': rip = True
            elif '*' in t:
                r, sc = t.split('*')
                if r in ('riz', 'eiz'): continue
                idx = REGS[r][0]; scale = int(sc, 0)
            elif t in REGS:
                if REGS[t][1] != 64: raise Unsupported('addr reg ' + s)
                if base is None: base = REGS[t][0]
                else: idx = REGS[t][0]
            elif t in ('riz', 'eiz'): pass
            else: disp += sign * int(t, 0)
        return ('m', size, base, idx, scale, disp, rip, seg)
    m = re.match(r'^(-?)(0x[0-9a-f]+|\d+)$', s)
    if m: return ('i', int(m.group(1) + m.group(2), 0))
    m = re.match(r'^([0-9a-f]+) <', s)
    if m: return ('i', int(m.group(1), 16))
    raise Unsupported('operand ' + repr(s))

def decode(text):
    text = re.sub(r'\s*#.*$', '', text)
    toks = text.split(None, 1)
    pre = []
    while toks[0] in ('rep', 'repz', 'repnz', 'lock', 'cs', 'ds', 'bnd', 'notrack', 'data16', 'repe', 'repne'):
        pre.append(toks[0])
        if len(toks) == 1: break
        toks = toks[1].split(None, 1)
    mn = toks[0]
    ops = []
    if len(toks) > 1:
        rest = re.sub(r'\s<[^>]*>$', '', toks[1])
        depth = 0; cur = ''
        for ch in rest:
            if ch in '[(': depth += 1
            if ch in '])': depth -= 1
            if ch == ',' and depth == 0:
                ops.append(cur); cur = ''
            else: cur += ch
        ops.append(cur)
    if mn in ('call', 'jmp') or (mn[0] == 'j' and mn != 'j'):
        s = ops[0].strip()
        if re.match(r'^[0-9a-f]+$', s) and s not in REGS:
            return pre, mn, [('i', int(s, 16))]
    if mn in ('movs', 'stos', 'cmps', 'scas', 'lods') or (mn[:4] in ('stos', 'scas', 'cmps', 'lods') and len(mn) == 5):
        pass
    try:
        pops = [parse_operand(o) for o in ops]
    except Unsupported as e:
        pops = [('?', str(e))]
    return pre, mn, pops

CC = {'o': 0, 'no': 1, 'b': 2, 'c': 2, 'nae': 2, 'ae': 3, 'nb': 3, 'nc': 3, 'e': 4, 'z': 4, 'ne': 5, 'nz': 5,
      'be': 6, 'na': 6, 'a': 7, 'nbe': 7, 's': 8, 'ns': 9, 'p': 10, 'pe': 10, 'np': 11, 'po': 11,
      'l': 12, 'nge': 12, 'ge': 13, 'nl': 13, 'le': 14, 'ng': 14, 'g': 15, 'nle': 15}

class Region:
    __slots__ = ('lo', 'hi', 'w', 'name', 'zero')
    def __init__(self, lo, hi, w, name, zero=False):
        self.lo, self.hi, self.w, self.name, self.zero = lo, hi, w, name, zero

class State:
    __slots__ = ('regs', 'xmm', 'st', 'flags', 'mem', 'pc', 'rip', 'regions', 'trace', 'steps', 'cqo', 'status', 'info', 'cw', 'brk', 'sub')
    def __init__(self):
        self.regs = [0] * 16
        self.xmm = [(0, 0)] * 16
        self.st = []
        self.flags = None
        self.mem = {}
        self.pc = []
        self.rip = 0
        self.regions = []
        self.trace = []
        self.steps = 0
        self.cqo = None
        self.status = 'run'
        self.info = None
        self.cw = 0x37f
        self.brk = 0x700000000
        self.sub = None
    def fork(self):
        s = State.__new__(State)
        s.regs = list(self.regs); s.xmm = list(self.xmm); s.st = list(self.st)
        s.flags = self.flags; s.mem = dict(self.mem); s.pc = list(self.pc)
        s.rip = self.rip; s.regions = self.regions; s.trace = list(self.trace)
        s.steps = self.steps; s.cqo = self.cqo; s.status = self.status; s.info = self.info
        s.cw = self.cw; s.brk = self.brk; s.sub = self.sub
        return s

STACK_LO = 0x7ffe00000000
STACK_HI = 0x7fff00000000
STACK_TOP = 0x7ffef0000008    # at a function entry, as the calling convention requires
RET_MAGIC = 0xdead0000

class Stats:
    def __init__(self):
        self.queries = 0; self.solver_time = 0.0; self.unknown = 0; self.paths = 0; self.insns = 0
        self.obligations = 0; self.trivial = 0
        self.funcs = set()

LDIV = {}
def ldiv(x, c, n):
    """(quotient, remainder, constraints) of an unsigned term by a constant; the same terms for the same division"""
    if c & (c - 1) == 0:
        k = c.bit_length() - 1
        return simp(z3.LShR(x, k)), simp(x & (c - 1)), []
    k = (x.get_id(), c, n)
    if k not in LDIV:
        i = len(LDIV)
        q, r = z3.BitVec('quot!%d' % i, n), z3.BitVec('rem!%d' % i, n)
        LDIV[k] = (q, r, [q * c + r == x, z3.ULT(r, c), z3.ULE(q, ((1 << n) - 1) // c), z3.ULE(q * c, x)], x)
    return LDIV[k][:3]

class Engine:
    def __init__(self, image, stats=None, max_paths=4000, max_steps=400000, fork_mem=0, timeout_ms=60000, max_enum=300, deadline=None, lin_div=False, slicing=False, align_calls=False):
        self.lin_div = lin_div
        self.img = image
        self.stats = stats or Stats()
        self.max_paths = max_paths
        self.max_steps = max_steps; self.fork_mem = fork_mem
        self.max_enum = max_enum
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.asserted = []
        self.slicing = slicing
        self.align_calls = align_calls
        self.slice_solver = z3.Solver(); self.slice_solver.set('timeout', timeout_ms)
        self._vars = {}; self._answers = {}; self._slice = []; self._keep = []
        self.hooks = {}         # addr -> fn(engine, state) -> list of states | None
        self.syscall_hook = None
        self.segs = sorted(image.segs) if image else []
        self.seg_lo = [s[0] for s in self.segs]
        self.faults_ok = False
        self.dispatch = {}
        if image:
            self.sym_addrs = sorted((a, n) for n, a in image.syms.items())

    # ---------------------------------------------------------------- solver
    def _sync(self, pc):
        k = 0
        n = min(len(pc), len(self.asserted))
        while k < n and self.asserted[k] is pc[k]: k += 1
        if k < len(self.asserted):
            self.solver.pop(len(self.asserted) - k)
            del self.asserted[k:]
        for c in pc[k:]:
            self.solver.push(); self.solver.add(c); self.asserted.append(c)

    def check(self, pc, extra=()):
        """'sat' | 'unsat' | 'unknown' for pc + extra"""
        if self.deadline and time.time() > self.deadline: raise EngineLimit('time budget')
        t0 = time.time()
        self._sync(pc)
        self.stats.queries += 1
        if extra:
            self.solver.push()
            for e in extra: self.solver.add(e)
        r = self.solver.check()
        self._model = self.solver.model() if r == z3.sat else None
        if extra: self.solver.pop()
        self.stats.solver_time += time.time() - t0
        if r == z3.unknown: self.stats.unknown += 1
        return str(r)

    def feasible(self, st, cond):
        if is_b(cond): return cond
        if self.slicing: return self.sliced(st.pc, cond)
        return self.check(st.pc, (cond,)) != 'unsat'

    # Independent parts of the path condition: the path condition is satisfiable, so cond is feasible iff it is together with
    # the constraints that (transitively) share variables with it.  Answers are remembered.
    def vars_of(self, t):
        i = t.get_id()
        r = self._vars.get(i)
        if r is None:
            vs = set(); seen = set(); todo = [t]
            while todo:
                x = todo.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_const(x):
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: vs.add(x.get_id())
                else: todo.extend(x.children())
            r = self._vars[i] = frozenset(vs); self._keep.append(t)
        return r

    def sliced(self, pc, cond):
        if self.deadline and time.time() > self.deadline: raise EngineLimit('time budget')
        vs = self.vars_of(cond)
        cs = [(c, self.vars_of(c)) for c in pc]
        take = [False] * len(cs)
        while True:
            more = False
            for k, (c, v) in enumerate(cs):
                if not take[k] and v & vs: take[k] = True; more = more or not v <= vs; vs = vs | v
            if not more: break
        part = [c for k, (c, v) in enumerate(cs) if take[k]]
        key = (cond.get_id(), frozenset(c.get_id() for c in part))
        r = self._answers.get(key)
        if r is None:
            t0 = time.time()
            s = self.slice_solver
            k = 0; n = min(len(part), len(self._slice))
            while k < n and self._slice[k].get_id() == part[k].get_id(): k += 1
            if k < len(self._slice): s.pop(len(self._slice) - k); del self._slice[k:]
            for c in part[k:]: s.push(); s.add(c); self._slice.append(c)
            s.push(); s.add(cond)
            r = self._answers[key] = s.check() != z3.unsat
            s.pop()
            self._keep.append(cond)
            self.stats.queries += 1; self.stats.solver_time += time.time() - t0
        return r

    def assume(self, st, cond):
        if is_b(cond):
            if not cond: st.status = 'dead'
            return
        st.pc.append(cond)

    def concretizations(self, st, v, n, limit=None):
        """all feasible values of term v under the path condition"""
        if is_c(v): return [v]
        limit = limit or self.max_enum
        vals = []
        self._sync(st.pc)
        self.solver.push()
        try:
            while True:
                if self.deadline and time.time() > self.deadline: raise EngineLimit('time budget')
                t0 = time.time()
                self.stats.queries += 1
                r = self.solver.check()
                self.stats.solver_time += time.time() - t0
                if r == z3.unsat: break
                if r == z3.unknown: raise EngineLimit('unknown while enumerating')
                x = self.solver.model().eval(v, model_completion=True).as_long()
                vals.append(x)
                if len(vals) > limit: return None if limit else vals
                self.solver.add(v != x)
        finally:
            self.solver.pop()
        return vals

    # ---------------------------------------------------------------- memory
    def region_of(self, st, a, n, write):
        for r in st.regions:
            if r.lo <= a and a + n <= r.hi:
                return r.w or not write
        i = bisect.bisect_right(self.seg_lo, a) - 1
        if i >= 0:
            lo, hi, _, w = self.segs[i]
            if lo <= a and a + n <= hi: return w or not write
            # segments are page granular for the hardware; adjacent bytes of the page are not ours
        return False

    def init_byte(self, st, a):
        i = bisect.bisect_right(self.seg_lo, a) - 1
        if i >= 0:
            lo, hi, data, _ = self.segs[i]
            if a < hi: return data[a - lo]
        for r in st.regions:
            if r.zero and r.lo <= a < r.hi: return 0
        # uninitialised memory: an arbitrary (but stable) byte
        t = z3.BitVec('mem_%x' % a, 8)
        return (t, 0, 1)

    def rd(self, st, a, n):
        """n bytes at concrete address"""
        if not self.region_of(st, a, n, False):
            raise Fault('read', a, n)
        mem = st.mem
        cells = []
        for i in range(n):
            c = mem.get(a + i)
            if c is None:
                c = self.init_byte(st, a + i)
                if type(c) is not int: mem[a + i] = c
            cells.append(c)
        return self.join(cells)

    @staticmethod
    def join(cells):
        n = len(cells)
        c0 = cells[0]
        if type(c0) is int:
            if all(type(c) is int for c in cells):
                r = 0
                for i, c in enumerate(cells): r |= c << (8 * i)
                return r
        else:
            t, k, tn = c0
            if k == 0 and tn == n and all(type(c) is tuple and c[0] is t and c[1] == i for i, c in enumerate(cells)):
                return t
        # group runs of the same term
        parts = []
        i = 0
        while i < n:
            c = cells[i]
            if type(c) is int:
                parts.append((c, 8)); i += 1
            else:
                t, k, tn = c
                j = i + 1
                while j < n and type(cells[j]) is tuple and cells[j][0] is t and cells[j][1] == k + (j - i): j += 1
                if z3.is_fp(t):
                    t2 = f80_bits(t)
                else: t2 = t
                m = j - i
                parts.append((t2 if (k == 0 and m == tn) else extract(t2, 8 * (k + m) - 1, 8 * k), 8 * m))
                i = j
        parts.reverse()
        return concat(parts)

    def wr(self, st, a, v, n):
        if not self.region_of(st, a, n, True):
            raise Fault('write', a, n)
        mem = st.mem
        if type(v) is int:
            for i in range(n):
                mem[a + i] = (v >> (8 * i)) & 255
        else:
            for i in range(n):
                mem[a + i] = (v, i, n)

    def load(self, st, addr, n):
        """n bytes at a possibly symbolic address"""
        if is_c(addr): return self.rd(st, addr & M64, n)
        vals = self.addresses(st, addr, n, False)
        if len(vals) == 1: return self.rd(st, vals[0], n)
        r = None
        for a in sorted(vals):
            v = self.rd(st, a, n)
            r = bv(v, 8 * n) if r is None else z3.If(addr == a, bv(v, 8 * n), r)
        return simp(r)

    def store(self, st, addr, v, n):
        if is_c(addr): return self.wr(st, addr & M64, v, n)
        vals = self.addresses(st, addr, n, True)
        if len(vals) == 1: return self.wr(st, vals[0], v, n)
        if not is_c(v) and z3.is_fp(v): v = f80_bits(v)
        olds = {}
        touched = sorted({a + i for a in vals for i in range(n)})
        new = {}
        for b in touched:
            t = bv(self.rd(st, b, 1), 8)
            for a in vals:
                if a <= b < a + n:
                    k = b - a
                    t = z3.If(addr == a, bv(extract(v, 8 * k + 7, 8 * k), 8), t)
            new[b] = simp(t)
        for b, t in new.items(): self.wr(st, b, t, 1)

    def addresses(self, st, addr, n, write):
        vals = self.concretizations(st, addr, 64)
        if vals is None:
            # unbounded address: pick one outside every region, report as a fault
            conds = []
            for r in st.regions: conds.append(z3.Not(z3.And(z3.UGE(addr, r.lo), z3.ULE(addr, r.hi - n))))
            for lo, hi, _, w in self.segs: conds.append(z3.Not(z3.And(z3.UGE(addr, lo), z3.ULE(addr, hi - n))))
            if self.check(st.pc, tuple(conds)) == 'sat':
                m = self._model
                raise SymFault('write' if write else 'read', addr, n, z3.And(*conds))
            raise EngineLimit('too many feasible addresses')
        if not vals:
            st.status = 'dead'; raise Dead()
        bad = [a for a in vals if not self.region_of(st, a, n, write)]
        if bad:
            if len(bad) == len(vals): raise Fault('write' if write else 'read', bad[0], n)
            cond = z3.Or(*[addr == a for a in bad])
            raise SymFault('write' if write else 'read', addr, n, cond)
        if 1 < len(vals) <= self.fork_mem: raise ForkMem(addr, sorted(vals))
        return vals

    def ea(self, st, op):
        _, size, base, idx, scale, disp, rip, seg = op
        if seg in ('fs', 'gs'): raise Unsupported('segment ' + seg)
        a = disp & M64
        if rip: a = (a + self.next) & M64
        if base is not None: a = add(st.regs[base], a, 64)
        if idx is not None:
            t = st.regs[idx]
            if scale != 1: t = mul(t, scale, 64)
            a = add(a, t, 64)
        return a

    # --------------------------------------------------------------- operands
    def get(self, st, op, size=None):
        k = op[0]
        if k == 'r':
            _, i, n, sh = op
            v = st.regs[i]
            if n == 64: return v
            if is_c(v): return (v >> sh) & mask(n)
            return extract(v, sh + n - 1, sh)
        if k == 'i':
            return op[1] & mask(size)
        if k == 'm':
            return self.load(st, self.ea(st, op), (op[1] or size) // 8)
        raise Unsupported('get %r' % (op,))

    def put(self, st, op, v):
        k = op[0]
        if k == 'r':
            _, i, n, sh = op
            if n == 64: st.regs[i] = v
            elif n == 32: st.regs[i] = zext(v, 32, 64)
            else:
                old = st.regs[i]
                if is_c(old) and is_c(v):
                    st.regs[i] = (old & ~(mask(n) << sh)) | (v << sh)
                else:
                    parts = [(extract(old, 63, sh + n), 64 - sh - n), (v, n)]
                    if sh: parts.append((extract(old, sh - 1, 0), sh))
                    st.regs[i] = concat(parts)
            return
        if k == 'm':
            self.store(st, self.ea(st, op), v, op[1] // 8)
            return
        raise Unsupported('put %r' % (op,))

    @staticmethod
    def osize(*ops):
        for o in ops:
            if o[0] == 'r': return o[2]
        for o in ops:
            if o[0] == 'm' and o[1]: return o[1]
        raise Unsupported('operand size')

    # ------------------------------------------------------------------ flags
    # flags: tuple (kind, ...)
    def fl(self, st, name):
        f = st.flags
        if f is None: raise Unsupported('flags undefined')
        k = f[0]
        if k == 'cmp':          # a - b
            _, a, b, r, n = f
            if name == 'z': return eq(a, b, n)
            if name == 'c': return ult(a, b, n)
            if name == 's': return bit(r, n - 1)
            if name == 'o':
                return b_and(b_xor(bit(a, n - 1), bit(b, n - 1)), b_xor(bit(r, n - 1), bit(a, n - 1)))
            if name == 'p': return self.parity(r)
        elif k == 'add':
            _, a, b, r, n = f
            if name == 'z': return eq(r, 0, n)
            if name == 'c': return ult(r, a, n)
            if name == 's': return bit(r, n - 1)
            if name == 'o':
                return b_and(b_not(b_xor(bit(a, n - 1), bit(b, n - 1))), b_xor(bit(r, n - 1), bit(a, n - 1)))
            if name == 'p': return self.parity(r)
        elif k == 'logic':
            _, r, n = f
            if name == 'z': return eq(r, 0, n)
            if name == 's': return bit(r, n - 1)
            if name in 'co': return False
            if name == 'p': return self.parity(r)
        elif k == 'x':
            v = f[1].get(name)
            if v is None: raise Unsupported('flag %s undefined' % name)
            return v() if callable(v) else v
        raise Unsupported('flag')

    def parity(self, r):
        if is_c(r): return bin(r & 255).count('1') % 2 == 0
        x = z3.Extract(7, 0, r)
        p = z3.Extract(0, 0, x)
        for i in range(1, 8): p = p ^ z3.Extract(i, i, x)
        return bsimp(p == 0)

    def cond(self, st, cc):
        c = CC[cc]
        neg_ = c & 1
        c &= 14
        f = st.flags
        if c == 12 and f[0] == 'cmp': r = slt(f[1], f[2], f[4])
        elif c == 14 and f[0] == 'cmp': r = b_not(slt(f[2], f[1], f[4]))
        elif c == 6 and f[0] == 'cmp': r = b_not(ult(f[2], f[1], f[4]))
        elif c == 0: r = self.fl(st, 'o')
        elif c == 2: r = self.fl(st, 'c')
        elif c == 4: r = self.fl(st, 'z')
        elif c == 6: r = b_or(self.fl(st, 'c'), self.fl(st, 'z'))
        elif c == 8: r = self.fl(st, 's')
        elif c == 10: r = self.fl(st, 'p')
        elif c == 12: r = b_xor(self.fl(st, 's'), self.fl(st, 'o'))
        else: r = b_or(self.fl(st, 'z'), b_xor(self.fl(st, 's'), self.fl(st, 'o')))
        return b_not(r) if neg_ else r

    # ------------------------------------------------------------------- run
    def run(self, st):
        """explore every path from st; yields finished states (status: ret/exit/fault/dead)"""
        work = [st]
        done = 0
        while work:
            s = work.pop()
            r = self.run_path(s, work)
            if r is None: continue
            if r.status == 'dead': continue
            done += 1
            self.stats.paths += 1
            if done > self.max_paths: raise EngineLimit('path budget')
            yield r

    def run_path(self, st, work):
        dec = self.img.decoded
        insns = self.img.insns
        while True:
            a = st.rip
            if a == RET_MAGIC:
                st.status = 'ret'; return st
            h = self.hooks.get(a)
            if h is not None:
                try:
                    r = h(self, st)
                except Fault as f:
                    st.status = 'fault'; st.info = f; return st
                if st.status not in ('run',): return st
                if r:
                    work.extend(r)
                    return None
                continue
            d = dec.get(a)
            if d is None:
                if a not in insns:
                    st.status = 'fault'; st.info = Fault('exec', a, 1); return st
                text, nxt = insns[a]
                pre, mn, ops = decode(text)
                fn = getattr(self, 'i_' + mn, None)
                if fn is None:
                    fn = self.generic(mn)
                d = (fn.__func__ if hasattr(fn, '__func__') else fn, pre, mn, ops, nxt, text)
                dec[a] = d
            fn, pre, mn, ops, nxt, text = d
            self.next = nxt
            st.rip = nxt
            st.steps += 1
            self.stats.insns += 1
            if st.steps > self.max_steps:
                self.limit_state = st
                raise EngineLimit('step budget')
            if self.deadline and (st.steps & 1023) == 0 and time.time() > self.deadline: raise EngineLimit('time budget')
            self.mn, self.pre = mn, pre
            snap = None
            try:
                r = fn(self, st, ops)
            except Fault as f:
                st.status = 'fault'; st.info = f; st.rip = a; return st
            except SymFault as f:
                # split: the faulting part, and the rest
                bad = st.fork(); bad.rip = a
                bad.pc.append(f.cond); bad.status = 'fault'
                bad.info = Fault(f.kind, f.addr, f.n)
                st.rip = a
                st.pc.append(z3.Not(f.cond)); st.steps -= 1
                if self.check(st.pc) != 'unsat':
                    work.append(st)
                return bad
            except ForkMem as f:
                # one path per address
                st.steps -= 1; st.rip = a
                offs = []
                for i, v in enumerate(st.regs):
                    if not is_c(v):
                        k = simp(v - f.addr)
                        if is_c(k): offs.append((i, k))
                for v in f.vals:
                    o = st.fork(); o.pc.append(f.addr == v)
                    for i, k in offs: o.regs[i] = (v + k) & M64
                    work.append(o)
                return None
            except Dead:
                return None
            except Unsupported as e:
                raise Unsupported('%s at %x: %s' % (e, a, text))
            if st.status != 'run': return st
            if r is not None:
                # list of successor states
                work.extend(r)
                return None

    def branch(self, st, cond, target):
        if is_b(cond):
            if cond: st.rip = target
            return None
        t = self.feasible(st, cond)
        nc = bsimp(z3.Not(cond))
        f = self.feasible(st, nc) if t else True
        if t and f:
            o = st.fork()
            o.pc.append(cond); o.rip = target
            st.pc.append(nc)
            return [o, st]
        if t: st.rip = target
        return None

    def fault_if(self, st, cond, kind):
        """split off a faulting state; returns list for run_path or None"""
        if is_b(cond):
            if cond: raise Fault(kind, 0, 0)
            return
        if self.feasible(st, cond):
            raise SymFault(kind, 0, 0, cond)

    # ----------------------------------------------------------- instructions
    def generic(self, mn):
        if mn[0] == 'j' and mn[1:] in CC:
            cc = mn[1:]
            def f(self, st, ops):
                return self.branch(st, self.cond(st, cc), ops[0][1])
            return f
        if mn.startswith('set') and mn[3:] in CC:
            cc = mn[3:]
            def f(self, st, ops):
                self.put(st, ops[0], b2bv(self.cond(st, cc), 8))
            return f
        if mn.startswith('cmov') and mn[4:] in CC:
            cc = mn[4:]
            def f(self, st, ops):
                n = ops[0][2]
                v = self.get(st, ops[1], n)
                self.put(st, ops[0], ite(self.cond(st, cc), v, self.get(st, ops[0]), n))
            return f
        m = re.match(r'^(add|sub|mul|div|min|max|sqrt)(ss|sd|ps|pd)$', mn)
        if m:
            op, ty = m.groups()
            sort, n = (F32, 32) if ty[1] == 's' else (F64, 64)
            packed = ty[0] == 'p'
            def f(self, st, ops):
                dst = ops[0][1]
                lo, hi = st.xmm[dst]
                if packed:
                    s = self.getx128(st, ops[1])
                    d = concat([(hi, 64), (lo, 64)]); s = concat([(s[1], 64), (s[0], 64)])
                    out = []
                    for k in range(128 // n):
                        a = extract(d, n * k + n - 1, n * k); b = extract(s, n * k + n - 1, n * k)
                        out.append((fp_to_bv(self.fop(op, fp_from_bv(a, sort), fp_from_bv(b, sort))), n))
                    out.reverse()
                    v = concat(out)
                    st.xmm[dst] = (extract(v, 63, 0), extract(v, 127, 64))
                    return
                b = self.getx(st, ops[1], n)
                a = lo if n == 64 else trunc(lo, 64, 32)
                r = fp_to_bv(self.fop(op, fp_from_bv(a, sort), fp_from_bv(b, sort)))
                st.xmm[dst] = (r if n == 64 else concat([(extract(lo, 63, 32), 32), (r, 32)]), hi)
            return f
        def bad(self, st, ops): raise Unsupported('instruction ' + mn)
        return bad

    def fop(self, op, a, b):
        if op == 'sqrt': return z3.fpSqrt(RNE, b)
        if op == 'min': return z3.If(z3.fpLT(a, b), a, b)
        if op == 'max': return z3.If(z3.fpGT(a, b), a, b)
        return fp_bin(op, a, b)

    def i_nop(self, st, ops): pass
    def i_nopw(self, st, ops): pass
    def i_nopl(self, st, ops): pass
    def i_endbr64(self, st, ops): pass
    def i_cld(self, st, ops): pass
    def i_emms(self, st, ops): pass
    def i_int3(self, st, ops): raise Fault('trap', st.rip, 1)
    def i_ud2(self, st, ops): raise Fault('trap', st.rip, 1)
    def i_hlt(self, st, ops): raise Fault('trap', st.rip, 1)

    def i_mov(self, st, ops):
        n = self.osize(*ops)
        self.put(st, ops[0], self.get(st, ops[1], n))
    i_movabs = i_mov
    def i_movzx(self, st, ops):
        n = ops[0][2]; m = self.osize(ops[1])
        self.put(st, ops[0], zext(self.get(st, ops[1]), m, n))
    def i_movsx(self, st, ops):
        n = ops[0][2]; m = self.osize(ops[1])
        self.put(st, ops[0], sext(self.get(st, ops[1]), m, n))
    i_movsxd = i_movsx
    def i_lea(self, st, ops):
        n = ops[0][2]
        self.put(st, ops[0], trunc(self.ea(st, ops[1]), 64, n))
    def i_push(self, st, ops):
        n = 64
        if ops[0][0] == 'i': v = ops[0][1] & M64
        else:
            n = self.osize(*ops); v = self.get(st, ops[0], n)
            if n != 64: raise Unsupported('push16')
        st.regs[RSP] = sub(st.regs[RSP], 8, 64)
        self.store(st, st.regs[RSP], v, 8)
    def i_pop(self, st, ops):
        v = self.load(st, st.regs[RSP], 8)
        st.regs[RSP] = add(st.regs[RSP], 8, 64)
        self.put(st, ops[0], v)
    def i_leave(self, st, ops):
        st.regs[RSP] = st.regs[RBP]
        st.regs[RBP] = self.load(st, st.regs[RSP], 8)
        st.regs[RSP] = add(st.regs[RSP], 8, 64)
    def i_xchg(self, st, ops):
        n = self.osize(*ops)
        a = self.get(st, ops[0], n); b = self.get(st, ops[1], n)
        self.put(st, ops[0], b); self.put(st, ops[1], a)

    def i_add(self, st, ops):
        n = self.osize(*ops)
        a = self.get(st, ops[0], n); b = self.get(st, ops[1], n)
        r = add(a, b, n); st.flags = ('add', a, b, r, n); self.put(st, ops[0], r)
    def i_sub(self, st, ops):
        n = self.osize(*ops)
        a = self.get(st, ops[0], n); b = self.get(st, ops[1], n)
        r = sub(a, b, n); st.flags = ('cmp', a, b, r, n); self.put(st, ops[0], r)
    def i_cmp(self, st, ops):
        n = self.osize(*ops)
        a = self.get(st, ops[0], n); b = self.get(st, ops[1], n)
        st.flags = ('cmp', a, b, sub(a, b, n), n)
    def i_adc(self, st, ops):
        n = self.osize(*ops)
        c = b2bv(self.fl(st, 'c'), n)
        a = self.get(st, ops[0], n); b = self.get(st, ops[1], n)
        w = add(add(zext(a, n, n + 1), zext(b, n, n + 1), n + 1), zext(c, n, n + 1), n + 1)
        r = trunc(w, n + 1, n)
        st.flags = ('x', {'c': bit(w, n), 'z': lambda: eq(r, 0, n), 's': lambda: bit(r, n - 1),
                          'o': lambda: b_and(b_not(b_xor(bit(a, n - 1), bit(b, n - 1))), b_xor(bit(r, n - 1), bit(a, n - 1)))})
        self.put(st, ops[0], r)
    def i_sbb(self, st, ops):
        n = self.osize(*ops)
        c = b2bv(self.fl(st, 'c'), n)
        a = self.get(st, ops[0], n); b = self.get(st, ops[1], n)
        w = sub(sub(zext(a, n, n + 1), zext(b, n, n + 1), n + 1), zext(c, n, n + 1), n + 1)
        r = trunc(w, n + 1, n)
        st.flags = ('x', {'c': bit(w, n), 'z': lambda: eq(r, 0, n), 's': lambda: bit(r, n - 1),
                          'o': lambda: b_and(b_xor(bit(a, n - 1), bit(b, n - 1)), b_xor(bit(r, n - 1), bit(a, n - 1)))})
        self.put(st, ops[0], r)
    def logic(self, st, ops, fn, store=True):
        n = self.osize(*ops)
        a = self.get(st, ops[0], n); b = self.get(st, ops[1], n)
        r = fn(a, b, n); st.flags = ('logic', r, n)
        if store: self.put(st, ops[0], r)
    def i_and(self, st, ops): self.logic(st, ops, band)
    def i_or(self, st, ops): self.logic(st, ops, bor)
    def i_xor(self, st, ops):
        if ops[0] == ops[1] and ops[0][0] == 'r':
            n = ops[0][2]; st.flags = ('logic', 0, n); self.put(st, ops[0], 0); return
        self.logic(st, ops, bxor)
    def i_test(self, st, ops):
        self.logic(st, ops, band, False)
    def i_not(self, st, ops):
        n = self.osize(*ops); self.put(st, ops[0], bnot(self.get(st, ops[0], n), n))
    def i_neg(self, st, ops):
        n = self.osize(*ops); a = self.get(st, ops[0], n)
        r = neg(a, n); st.flags = ('cmp', 0, a, r, n); self.put(st, ops[0], r)
    def incdec(self, st, ops, d):
        n = self.osize(*ops); a = self.get(st, ops[0], n)
        old = st
        try: c = self.fl(st, 'c') if st.flags is not None else None
        except Unsupported: c = None
        r = add(a, d & mask(n), n)
        st.flags = ('x', {'c': c, 'z': lambda: eq(r, 0, n), 's': lambda: bit(r, n - 1),
                          'o': lambda: eq(r, (1 << (n - 1)) if d == 1 else mask(n - 1), n)})
        self.put(st, ops[0], r)
    def i_inc(self, st, ops): self.incdec(st, ops, 1)
    def i_dec(self, st, ops): self.incdec(st, ops, -1)

    def i_imul(self, st, ops):
        if len(ops) == 1:
            n = self.osize(*ops)
            a = self.get(st, ('r', RAX, n, 0)); b = self.get(st, ops[0], n)
            w = mul(sext(a, n, 2 * n), sext(b, n, 2 * n), 2 * n)
            self.wide(st, w, n); st.flags = None
            return
        n = ops[0][2]
        if len(ops) == 2: a = self.get(st, ops[0], n); b = self.get(st, ops[1], n)
        else: a = self.get(st, ops[1], n); b = self.get(st, ops[2], n)
        def ov(a=a, b=b, n=n):
            w = mul(sext(a, n, 2 * n), sext(b, n, 2 * n), 2 * n)
            return b_not(eq(sext(trunc(w, 2 * n, n), n, 2 * n), w, 2 * n))
        st.flags = ('x', {'c': ov, 'o': ov})
        self.put(st, ops[0], mul(a, b, n))
    def i_mul(self, st, ops):
        n = self.osize(*ops)
        a = self.get(st, ('r', RAX, n, 0)); b = self.get(st, ops[0], n)
        w = mul(zext(a, n, 2 * n), zext(b, n, 2 * n), 2 * n)
        self.wide(st, w, n)
        hi = extract(w, 2 * n - 1, n)
        st.flags = ('x', {'c': lambda: b_not(eq(hi, 0, n)), 'o': lambda: b_not(eq(hi, 0, n))})
    def wide(self, st, w, n):
        if n == 8: self.put(st, ('r', RAX, 16, 0), w); return
        self.put(st, ('r', RAX, n, 0), trunc(w, 2 * n, n))
        self.put(st, ('r', RDX, n, 0), extract(w, 2 * n - 1, n))

    def i_cdq(self, st, ops):
        a = self.get(st, ('r', RAX, 32, 0)); d = extract(sext(a, 32, 64), 63, 32)
        self.put(st, ('r', RDX, 32, 0), d); st.cqo = (a, st.regs[RDX], 32)
    def i_cqo(self, st, ops):
        a = st.regs[RAX]; st.regs[RDX] = extract(sext(a, 64, 128), 127, 64); st.cqo = (a, st.regs[RDX], 64)
    def i_cwd(self, st, ops):
        a = self.get(st, ('r', RAX, 16, 0)); d = extract(sext(a, 16, 32), 31, 16)
        self.put(st, ('r', RDX, 16, 0), d); st.cqo = None
    def i_cbw(self, st, ops): self.put(st, ('r', RAX, 16, 0), sext(self.get(st, ('r', RAX, 8, 0)), 8, 16))
    def i_cwde(self, st, ops): self.put(st, ('r', RAX, 32, 0), sext(self.get(st, ('r', RAX, 16, 0)), 16, 32))
    def i_cdqe(self, st, ops): self.put(st, ('r', RAX, 64, 0), sext(self.get(st, ('r', RAX, 32, 0)), 32, 64))

    def divide_const(self, st, x, c, n, signed):
        """division by a constant without a division circuit"""
        if not signed:
            q, r, cons = ldiv(x, c, n); st.pc.extend(cons)
            return q, r
        neg = bit(x, n - 1)
        if self.check(st.pc, (eq(neg, 1, 1),)) == 'unsat':
            return self.divide_const(st, x, c, n, False)
        q, r, cons = ldiv(simp(z3.If(eq(neg, 1, 1), -x, x)), c, n); st.pc.extend(cons)
        return simp(z3.If(eq(neg, 1, 1), -q, q)), simp(z3.If(eq(neg, 1, 1), -r, r))
    def divide(self, st, ops, signed):
        n = self.osize(*ops)
        b = self.get(st, ops[0], n)
        if n == 8:
            w = self.get(st, ('r', RAX, 16, 0)); lo = hi = None
        else:
            lo = self.get(st, ('r', RAX, n, 0)); hi = self.get(st, ('r', RDX, n, 0))
        self.fault_if(st, eq(b, 0, n), 'div0')
        if self.lin_div and lo is not None and is_c(b) and not is_c(lo) and 1 < b < 1 << (n - 1) and \
                (self.same(hi, extract(sext(lo, n, 2 * n), 2 * n - 1, n)) if signed else is_c(hi) and hi == 0):
            q, r = self.divide_const(st, lo, b, n, signed)
            self.put(st, ('r', RAX, n, 0), q); self.put(st, ('r', RDX, n, 0), r); st.flags = None
            return
        if lo is not None:
            if signed and (self.same(hi, extract(sext(lo, n, 2 * n), 2 * n - 1, n))):
                ov = b_and(eq(lo, 1 << (n - 1), n), eq(b, mask(n), n))
                self.fault_if(st, ov, 'divov')
                if is_c(lo) and is_c(b): q, r = tdiv(sx(lo, n), sx(b, n)); q &= mask(n); r &= mask(n)
                else: q = simp(bv(lo, n) / bv(b, n)); r = simp(z3.SRem(bv(lo, n), bv(b, n)))
                self.put(st, ('r', RAX, n, 0), q); self.put(st, ('r', RDX, n, 0), r); st.flags = None
                return
            if not signed and is_c(hi) and hi == 0:
                if is_c(lo) and is_c(b): q, r = lo // b, lo % b
                else: q = simp(z3.UDiv(bv(lo, n), bv(b, n))); r = simp(z3.URem(bv(lo, n), bv(b, n)))
                self.put(st, ('r', RAX, n, 0), q); self.put(st, ('r', RDX, n, 0), r); st.flags = None
                return
            w = concat([(hi, n), (lo, n)])
        if signed:
            bb = sext(b, n, 2 * n)
            if is_c(w) and is_c(bb):
                q, r = tdiv(sx(w, 2 * n), sx(bb, 2 * n)); q &= mask(2 * n); r &= mask(2 * n)
            else: q = simp(bv(w, 2 * n) / bv(bb, 2 * n)); r = simp(z3.SRem(bv(w, 2 * n), bv(bb, 2 * n)))
            self.fault_if(st, b_not(eq(sext(trunc(q, 2 * n, n), n, 2 * n), q, 2 * n)), 'divov')
        else:
            bb = zext(b, n, 2 * n)
            if is_c(w) and is_c(bb): q, r = w // bb, w % bb
            else: q = simp(z3.UDiv(bv(w, 2 * n), bv(bb, 2 * n))); r = simp(z3.URem(bv(w, 2 * n), bv(bb, 2 * n)))
            self.fault_if(st, b_not(eq(extract(q, 2 * n - 1, n), 0, n)), 'divov')
        q = trunc(q, 2 * n, n); r = trunc(r, 2 * n, n)
        if n == 8:
            self.put(st, ('r', RAX, 16, 0), concat([(r, 8), (q, 8)]))
        else:
            self.put(st, ('r', RAX, n, 0), q); self.put(st, ('r', RDX, n, 0), r)
        st.flags = None
    @staticmethod
    def same(a, b):
        if is_c(a) and is_c(b): return a == b
        if is_c(a) or is_c(b): return False
        return a.eq(b)
    def i_div(self, st, ops): self.divide(st, ops, False)
    def i_idiv(self, st, ops): self.divide(st, ops, True)

    def shift(self, st, ops, kind):
        n = self.osize(ops[0])
        a = self.get(st, ops[0], n)
        c = self.get(st, ops[1], 8) if len(ops) > 1 else 1
        m = 63 if n == 64 else 31
        if is_c(c):
            c &= m
            if c == 0: return
            if is_c(a):
                r = {'shl': (a << c) & mask(n), 'shr': a >> c, 'sar': (sx(a, n) >> c) & mask(n)}[kind]
            else:
                cc = z3.BitVecVal(c, n) if c < n else z3.BitVecVal(n, n) if n < 8 else z3.BitVecVal(c, n)
                r = simp({'shl': lambda: a << cc, 'shr': lambda: z3.LShR(a, cc), 'sar': lambda: a >> cc}[kind]())
            if kind == 'shl': cf = bit(a, n - c) if c <= n else False
            else: cf = bit(a, min(c - 1, n - 1)) if c <= n or kind == 'sar' else False
            st.flags = ('x', {'c': cf, 'z': lambda: eq(r, 0, n), 's': lambda: bit(r, n - 1), 'p': lambda: self.parity(r)})
        else:
            cc = simp(c & m)
            ca = zext(cc, 8, n) if n > 8 else cc
            A = bv(a, n); ca = bv(ca, n)
            r = simp({'shl': lambda: A << ca, 'shr': lambda: z3.LShR(A, ca), 'sar': lambda: A >> ca}[kind]())
            st.flags = None
        self.put(st, ops[0], r)
    def i_shl(self, st, ops): self.shift(st, ops, 'shl')
    i_sal = i_shl
    def i_shr(self, st, ops): self.shift(st, ops, 'shr')
    def i_sar(self, st, ops): self.shift(st, ops, 'sar')
    def i_rol(self, st, ops):
        n = self.osize(ops[0]); a = self.get(st, ops[0], n); c = self.get(st, ops[1], 8) if len(ops) > 1 else 1
        if not is_c(c): raise Unsupported('rol')
        c %= n
        r = a if c == 0 else concat([(extract(a, n - c - 1, 0), n - c), (extract(a, n - 1, n - c), c)])
        st.flags = None; self.put(st, ops[0], r)
    def i_ror(self, st, ops):
        n = self.osize(ops[0]); a = self.get(st, ops[0], n); c = self.get(st, ops[1], 8) if len(ops) > 1 else 1
        if not is_c(c): raise Unsupported('ror')
        c %= n
        r = a if c == 0 else concat([(extract(a, c - 1, 0), c), (extract(a, n - 1, c), n - c)])
        st.flags = None; self.put(st, ops[0], r)
    def i_shld(self, st, ops):
        n = self.osize(ops[0]); c = self.get(st, ops[2], 8)
        if not is_c(c): raise Unsupported('shld')
        c &= 63 if n == 64 else 31
        w = concat([(self.get(st, ops[0], n), n), (self.get(st, ops[1], n), n)])
        if c: self.put(st, ops[0], extract(w, 2 * n - 1 - c, n - c))
        st.flags = None
    def i_shrd(self, st, ops):
        n = self.osize(ops[0]); c = self.get(st, ops[2], 8)
        if not is_c(c): raise Unsupported('shrd')
        c &= 63 if n == 64 else 31
        w = concat([(self.get(st, ops[1], n), n), (self.get(st, ops[0], n), n)])
        if c: self.put(st, ops[0], extract(w, n - 1 + c, c))
        st.flags = None
    def i_bt(self, st, ops):
        n = self.osize(ops[0])
        if ops[0][0] != 'r': raise Unsupported('bt mem')
        a = self.get(st, ops[0], n); c = self.get(st, ops[1], n)
        c = band(c, n - 1, n)
        cf = bit(a, c) if is_c(c) else bsimp(z3.Extract(0, 0, z3.LShR(bv(a, n), c)) == 1)
        st.flags = ('x', {'c': cf})
    def bitop(self, st, ops, f):
        n = self.osize(ops[0])
        a = self.get(st, ops[0], n); c = band(self.get(st, ops[1], n), n - 1, n)
        self.i_bt(st, ops)
        m = 1 << c if is_c(c) else simp(z3.BitVecVal(1, n) << bv(c, n))
        self.put(st, ops[0], f(a, m, n))
    def i_btc(self, st, ops): self.bitop(st, ops, bxor)
    def i_bts(self, st, ops): self.bitop(st, ops, bor)
    def i_btr(self, st, ops): self.bitop(st, ops, lambda a, m, n: band(a, bnot(m, n), n))
    def i_bswap(self, st, ops):
        n = ops[0][2]; a = self.get(st, ops[0])
        self.put(st, ops[0], concat([(extract(a, 8 * i + 7, 8 * i), 8) for i in range(n // 8)]))
    def i_bsr(self, st, ops):
        n = ops[0][2]; a = self.get(st, ops[1], n)
        if is_c(a):
            st.flags = ('x', {'z': a == 0})
            if a: self.put(st, ops[0], a.bit_length() - 1)
            return
        r = bv(self.get(st, ops[0]), n)
        for i in range(n): r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(i, n), r)
        st.flags = ('x', {'z': eq(a, 0, n)}); self.put(st, ops[0], simp(r))
    def i_bsf(self, st, ops):
        n = ops[0][2]; a = self.get(st, ops[1], n)
        if is_c(a):
            st.flags = ('x', {'z': a == 0})
            if a: self.put(st, ops[0], (a & -a).bit_length() - 1)
            return
        r = bv(self.get(st, ops[0]), n)
        for i in range(n - 1, -1, -1): r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(i, n), r)
        st.flags = ('x', {'z': eq(a, 0, n)}); self.put(st, ops[0], simp(r))

    def target(self, st, op):
        if op[0] == 'i': return op[1]
        v = self.get(st, op, 64)
        if not is_c(v):
            vals = self.concretizations(st, v, 64)
            if vals is None: raise EngineLimit('symbolic jump')
            if len(vals) != 1:
                outs = []
                for x in vals:
                    o = st.fork(); o.pc.append(v == x); outs.append((o, x))
                return outs
            v = vals[0]
        return v
    def i_jmp(self, st, ops):
        t = self.target(st, ops[0])
        if type(t) is list:
            for o, x in t: o.rip = x
            return [o for o, _ in t]
        st.rip = t
    def i_call(self, st, ops):
        t = self.target(st, ops[0])
        nxt = self.next
        if type(t) is list:
            for o, x in t:
                o.regs[RSP] = sub(o.regs[RSP], 8, 64); self.store(o, o.regs[RSP], nxt, 8); o.rip = x
            return [o for o, _ in t]
        st.regs[RSP] = sub(st.regs[RSP], 8, 64)
        if self.align_calls and is_c(st.regs[RSP]) and st.regs[RSP] & 15 != 8: raise Fault('stack not aligned at a call', st.regs[RSP], 8)
        self.store(st, st.regs[RSP], nxt, 8)
        self.stats.funcs.add(t)
        st.rip = t
    def i_ret(self, st, ops):
        v = self.load(st, st.regs[RSP], 8)
        st.regs[RSP] = add(st.regs[RSP], 8 + (ops[0][1] if ops else 0), 64)
        if not is_c(v): raise Fault('retaddr', 0, 8)
        st.rip = v
    i_retw = i_ret

    def i_stos(self, st, ops):
        n = self.osize(ops[0]) if ops and ops[0][0] == 'm' else self.osize(*ops)
        v = self.get(st, ('r', RAX, n, 0))
        if 'rep' in self.pre:
            c = st.regs[RCX]
            if not is_c(c):
                vals = self.concretizations(st, c, 64)
                if vals is None: raise Fault('repcount', 0, 0)
                if len(vals) > 1:
                    outs = []
                    for x in vals:
                        o = st.fork(); o.pc.append(c == x); o.regs[RCX] = x; o.rip = st.rip
                        o.rip = self.next - 2 - (1 if n == 64 or n == 16 else 0)
                        outs.append(o)
                    return outs
                c = vals[0]
            if c > 1 << 20: raise Fault('repcount', 0, c)
        else: c = 1
        a = st.regs[RDI]
        for i in range(c):
            self.store(st, add(a, i * (n // 8), 64), v, n // 8)
        st.regs[RDI] = add(a, c * (n // 8), 64)
        if 'rep' in self.pre: st.regs[RCX] = 0
    def i_movs(self, st, ops):
        if ops and ops[0][0] == 'x': return self.generic('movs')(self, st, ops)
        n = self.osize(ops[0])
        if 'rep' in self.pre:
            c = st.regs[RCX]
            if not is_c(c):
                vals = self.concretizations(st, c, 64)
                if vals is None or len(vals) > 1: raise Unsupported('rep movs with symbolic count')
                c = vals[0]
            if c > 1 << 20: raise Fault('repcount', 0, c)
        else: c = 1
        a, b = st.regs[RDI], st.regs[RSI]
        k = n // 8
        for i in range(c):
            self.store(st, add(a, i * k, 64), self.load(st, add(b, i * k, 64), k), k)
        st.regs[RDI] = add(a, c * k, 64); st.regs[RSI] = add(b, c * k, 64)
        if 'rep' in self.pre: st.regs[RCX] = 0
    def i_scas(self, st, ops):
        # repnz scas: used as strlen
        n = self.osize(*[o for o in ops if o[0] == 'm'])
        k = n // 8
        v = self.get(st, ('r', RAX, n, 0))
        if not ('repnz' in self.pre or 'repne' in self.pre):
            m = self.load(st, st.regs[RDI], k)
            st.flags = ('cmp', v, m, sub(v, m, n), n)
            st.regs[RDI] = add(st.regs[RDI], k, 64)
            return
        here = None
        c = st.regs[RCX]
        if not is_c(c): raise Unsupported('repnz scas symbolic count')
        if c == 0: return
        m = self.load(st, st.regs[RDI], k)
        e = eq(v, m, n)
        start = self.cur_start(st)
        if is_b(e):
            st.regs[RDI] = add(st.regs[RDI], k, 64); st.regs[RCX] = (c - 1) & M64
            st.flags = ('cmp', v, m, sub(v, m, n), n)
            if not e and st.regs[RCX]: st.rip = start
            return
        outs = []
        if self.feasible(st, e):
            o = st.fork(); o.pc.append(e)
            o.regs[RDI] = add(st.regs[RDI], k, 64); o.regs[RCX] = (c - 1) & M64
            o.flags = ('x', {'z': True}); outs.append(o)
        ne = b_not(e)
        if self.feasible(st, ne):
            o = st.fork(); o.pc.append(ne)
            o.regs[RDI] = add(st.regs[RDI], k, 64); o.regs[RCX] = (c - 1) & M64
            o.flags = ('x', {'z': False})
            if o.regs[RCX]: o.rip = start
            outs.append(o)
        return outs
    def cur_start(self, st):
        nxt = self.next
        for d in range(1, 16):
            x = self.img.insns.get(nxt - d)
            if x and x[1] == nxt: return nxt - d
        raise Unsupported('insn start')
    def i_syscall(self, st, ops):
        if self.syscall_hook is None: raise Unsupported('syscall')
        return self.syscall_hook(self, st)
    def i_rdtsc(self, st, ops): raise Unsupported('rdtsc')

    # ------------------------------------------------------------------- SSE
    def getx(self, st, op, n):
        """low n bits of an xmm register or memory"""
        if op[0] == 'x':
            lo = st.xmm[op[1]][0]
            return lo if n == 64 else trunc(lo, 64, n)
        return self.load(st, self.ea(st, op), n // 8)
    def getx128(self, st, op):
        if op[0] == 'x': return st.xmm[op[1]]
        a = self.ea(st, op)
        return (self.load(st, a, 8), self.load(st, add(a, 8, 64), 8))
    def movscalar(self, st, ops, n):
        d, s = ops
        if d[0] == 'x':
            v = self.getx(st, s, n)
            lo, hi = st.xmm[d[1]]
            if s[0] == 'x':
                st.xmm[d[1]] = (v if n == 64 else self.low32(lo, v), hi)
            else:
                st.xmm[d[1]] = (v if n == 64 else zext(v, 32, 64), 0)
        else:
            self.store(st, self.ea(st, d), self.getx(st, s, n), n // 8)
    def low32(self, lo, v):
        return concat([(extract(lo, 63, 32), 32), (v, 32)])
    def i_movss(self, st, ops): self.movscalar(st, ops, 32)
    def i_movsd(self, st, ops):
        if not ops or ops[0][0] == 'm' and len(ops) > 1 and ops[1][0] == 'm': return self.i_movs(st, ops)
        self.movscalar(st, ops, 64)
    def i_movaps(self, st, ops):
        d, s = ops
        v = self.getx128(st, s)
        if d[0] == 'x': st.xmm[d[1]] = v
        else:
            a = self.ea(st, d)
            self.store(st, a, v[0], 8); self.store(st, add(a, 8, 64), v[1], 8)
    i_movups = i_movapd = i_movupd = i_movdqa = i_movdqu = i_movaps
    def i_movq(self, st, ops):
        d, s = ops
        if d[0] == 'x':
            v = self.getx(st, s, 64) if s[0] != 'r' else self.get(st, s)
            st.xmm[d[1]] = (v, 0)
        elif s[0] == 'x':
            v = st.xmm[s[1]][0]
            if d[0] == 'r': self.put(st, d, v)
            else: self.store(st, self.ea(st, d), v, 8)
        else: self.i_mov(st, ops)
    def i_movd(self, st, ops):
        d, s = ops
        if d[0] == 'x':
            v = self.get(st, s, 32) if s[0] == 'r' else self.load(st, self.ea(st, s), 4)
            st.xmm[d[1]] = (zext(v, 32, 64), 0)
        else:
            v = trunc(st.xmm[s[1]][0], 64, 32)
            if d[0] == 'r': self.put(st, d, v)
            else: self.store(st, self.ea(st, d), v, 4)
    def i_movhps(self, st, ops):
        d, s = ops
        if d[0] == 'x': st.xmm[d[1]] = (st.xmm[d[1]][0], self.load(st, self.ea(st, s), 8))
        else: self.store(st, self.ea(st, d), st.xmm[s[1]][1], 8)
    i_movhpd = i_movhps
    def i_movlps(self, st, ops):
        d, s = ops
        if d[0] == 'x': st.xmm[d[1]] = (self.load(st, self.ea(st, s), 8), st.xmm[d[1]][1])
        else: self.store(st, self.ea(st, d), st.xmm[s[1]][0], 8)
    i_movlpd = i_movlps
    def xlogic(self, st, ops, fn):
        a = st.xmm[ops[0][1]]; b = self.getx128(st, ops[1])
        st.xmm[ops[0][1]] = (fn(a[0], b[0], 64), fn(a[1], b[1], 64))
    def i_xorps(self, st, ops):
        if ops[0] == ops[1]: st.xmm[ops[0][1]] = (0, 0); return
        # sign flips of a tracked float keep the float term
        a = st.xmm[ops[0][1]]; b = self.getx128(st, ops[1])
        if is_c(b[0]) and not is_c(a[0]):
            r = self.signflip(a[0], b[0])
            if r is not None:
                st.xmm[ops[0][1]] = (r, bxor(a[1], b[1], 64)); return
        self.xlogic(st, ops, bxor)
    def signflip(self, a, k):
        if k == 1 << 63 and a.get_id() in _fp_of_bv and _fp_of_bv[a.get_id()][1].sort() == F64:
            f = z3.fpNeg(_fp_of_bv[a.get_id()][1])
            return fp_to_bv(f)
        if k == 1 << 31:
            l = trunc(a, 64, 32)
            if not is_c(l) and l.get_id() in _fp_of_bv and _fp_of_bv[l.get_id()][1].sort() == F32:
                g = fp_to_bv(z3.fpNeg(_fp_of_bv[l.get_id()][1]))
                return concat([(extract(a, 63, 32), 32), (g, 32)])
        return None
    i_xorpd = i_pxor = i_xorps
    def i_andps(self, st, ops): self.xlogic(st, ops, band)
    i_andpd = i_pand = i_andps
    def i_orps(self, st, ops): self.xlogic(st, ops, bor)
    i_orpd = i_por = i_orps
    def i_andnps(self, st, ops): self.xlogic(st, ops, lambda a, b, n: band(bnot(a, n), b, n))
    i_andnpd = i_pandn = i_andnps
    def i_unpcklps(self, st, ops):
        a = st.xmm[ops[0][1]]; b = self.getx128(st, ops[1])
        st.xmm[ops[0][1]] = (concat([(trunc(b[0], 64, 32), 32), (trunc(a[0], 64, 32), 32)]),
                             concat([(extract(b[0], 63, 32), 32), (extract(a[0], 63, 32), 32)]))
    i_punpckldq = i_unpcklps
    def i_unpcklpd(self, st, ops):
        a = st.xmm[ops[0][1]]; b = self.getx128(st, ops[1])
        st.xmm[ops[0][1]] = (a[0], b[0])
    i_punpcklqdq = i_unpcklpd
    i_movlhps = i_unpcklpd
    def i_unpckhpd(self, st, ops):
        a = st.xmm[ops[0][1]]; b = self.getx128(st, ops[1])
        st.xmm[ops[0][1]] = (a[1], b[1])
    def ucom(self, st, ops, sort, n):
        a = fp_from_bv(self.getx(st, ops[0], n), sort); b = fp_from_bv(self.getx(st, ops[1], n), sort)
        self.fcmpflags(st, a, b)
    def fcmpflags(self, st, a, b):
        un = bsimp(z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b)))
        st.flags = ('x', {'p': un, 'z': lambda: b_or(un, bsimp(z3.fpEQ(a, b))), 'c': lambda: b_or(un, bsimp(z3.fpLT(a, b))),
                          'o': False, 's': False})
    def i_ucomiss(self, st, ops): self.ucom(st, ops, F32, 32)
    def i_ucomisd(self, st, ops): self.ucom(st, ops, F64, 64)
    i_comiss = i_ucomiss
    i_comisd = i_ucomisd
    def setlow(self, st, d, v, n):
        lo, hi = st.xmm[d]
        st.xmm[d] = (v if n == 64 else self.low32(lo, v), hi)
    def i_cvtsi2ss(self, st, ops): self.cvtsi(st, ops, F32, 32)
    def i_cvtsi2sd(self, st, ops): self.cvtsi(st, ops, F64, 64)
    def cvtsi(self, st, ops, sort, n):
        m = self.osize(ops[1])
        v = self.get(st, ops[1])
        f = z3.fpSignedToFP(RNE, bv(v, m), sort)
        self.setlow(st, ops[0][1], fp_to_bv(f), n)
    def i_cvtss2sd(self, st, ops):
        f = fp_from_bv(self.getx(st, ops[1], 32), F32)
        self.setlow(st, ops[0][1], fp_to_bv(z3.fpFPToFP(RNE, f, F64)), 64)
    def i_cvtsd2ss(self, st, ops):
        f = fp_from_bv(self.getx(st, ops[1], 64), F64)
        self.setlow(st, ops[0][1], fp_to_bv(z3.fpFPToFP(RNE, f, F32)), 32)
    def i_cvtps2pd(self, st, ops):
        v = self.getx(st, ops[1], 64)
        f = fp_from_bv(trunc(v, 64, 32), F32); g = fp_from_bv(extract(v, 63, 32), F32)
        st.xmm[ops[0][1]] = (fp_to_bv(z3.fpFPToFP(RNE, f, F64)), fp_to_bv(z3.fpFPToFP(RNE, g, F64)))
    def i_cvtpd2ps(self, st, ops):
        a = self.getx128(st, ops[1])
        f = fp_to_bv(z3.fpFPToFP(RNE, fp_from_bv(a[0], F64), F32)); g = fp_to_bv(z3.fpFPToFP(RNE, fp_from_bv(a[1], F64), F32))
        st.xmm[ops[0][1]] = (concat([(g, 32), (f, 32)]), 0)
    def cvtt(self, st, ops, sort, n, rm=RTZ):
        m = ops[0][2]
        f = fp_from_bv(self.getx(st, ops[1], n), sort)
        self.put(st, ops[0], fp_to_int(f, m, rm))
    def i_cvttss2si(self, st, ops): self.cvtt(st, ops, F32, 32)
    def i_cvttsd2si(self, st, ops): self.cvtt(st, ops, F64, 64)
    def i_cvtss2si(self, st, ops): self.cvtt(st, ops, F32, 32, RNE)
    def i_cvtsd2si(self, st, ops): self.cvtt(st, ops, F64, 64, RNE)

    # ------------------------------------------------------------------- x87
    def fpush(self, st, f):
        if len(st.st) >= 8: raise Fault('x87 stack overflow', 0, 0)
        st.st.insert(0, z3.simplify(f))
    def fpop(self, st):
        if not st.st: raise Fault('x87 stack underflow', 0, 0)
        return st.st.pop(0)
    def stget(self, st, i):
        if i >= len(st.st): raise Fault('x87 stack underflow', 0, 0)
        return st.st[i]
    def fldmem(self, st, op):
        n = op[1]
        a = self.ea(st, op)
        if n == 32: return z3.fpFPToFP(RNE, fp_from_bv(self.load(st, a, 4), F32), F80)
        if n == 64: return z3.fpFPToFP(RNE, fp_from_bv(self.load(st, a, 8), F64), F80)
        if n == 80:
            if is_c(a):
                c = st.mem.get(a)
                if type(c) is tuple and c[2] == 10 and c[1] == 0 and z3.is_fp(c[0]) and \
                   all(type(st.mem.get(a + i)) is tuple and st.mem[a + i][0] is c[0] and st.mem[a + i][1] == i for i in range(10)):
                    return c[0]
            v = self.load(st, a, 10)
            if not is_c(v) and z3.is_fp(v): return v
            return f80_from_bits(v)
        raise Unsupported('fld size')
    def i_fld(self, st, ops):
        self.fpush(st, self.stget(st, ops[0][1]) if ops[0][0] == 'st' else self.fldmem(st, ops[0]))
    def fst(self, st, ops, pop):
        o = ops[0]
        f = self.stget(st, 0)
        if o[0] == 'st':
            st.st[o[1]] = f
        else:
            a = self.ea(st, o)
            if o[1] == 32: self.store(st, a, fp_to_bv(z3.fpFPToFP(RNE, f, F32)), 4)
            elif o[1] == 64: self.store(st, a, fp_to_bv(z3.fpFPToFP(RNE, f, F64)), 8)
            elif o[1] == 80:
                if not pop: raise Unsupported('fst m80')
                self.store(st, a, f, 10)
            else: raise Unsupported('fst')
        if pop: self.fpop(st)
    def i_fst(self, st, ops): self.fst(st, ops, False)
    def i_fstp(self, st, ops): self.fst(st, ops, True)
    def i_fild(self, st, ops):
        n = ops[0][1]
        v = self.load(st, self.ea(st, ops[0]), n // 8)
        self.fpush(st, z3.fpSignedToFP(RNE, bv(v, n), F80))
    def fist(self, st, ops, pop, trunc_):
        n = ops[0][1]
        rc = st.cw >> 10 & 3 if is_c(st.cw) else None
        if rc is None: raise Unsupported('symbolic control word')
        rm = RTZ if trunc_ else [RNE, z3.RTN(), z3.RTP(), RTZ][rc]
        v = fp_to_int(self.stget(st, 0), n, rm)
        self.store(st, self.ea(st, ops[0]), v, n // 8)
        if pop: self.fpop(st)
    def i_fistp(self, st, ops): self.fist(st, ops, True, False)
    def i_fist(self, st, ops): self.fist(st, ops, False, False)
    def i_fisttp(self, st, ops): self.fist(st, ops, True, True)
    def i_fnstcw(self, st, ops): self.store(st, self.ea(st, ops[0]), st.cw, 2)
    def i_fldcw(self, st, ops):
        v = self.load(st, self.ea(st, ops[0]), 2)
        st.cw = v
    def i_fldz(self, st, ops): self.fpush(st, z3.FPVal(0.0, F80))
    def i_fld1(self, st, ops): self.fpush(st, z3.FPVal(1.0, F80))
    def i_fchs(self, st, ops): st.st[0] = z3.simplify(z3.fpNeg(self.stget(st, 0)))
    def i_fabs(self, st, ops): st.st[0] = z3.simplify(z3.fpAbs(self.stget(st, 0)))
    def i_fxch(self, st, ops):
        i = ops[0][1] if ops else 1
        if ops and len(ops) == 2: i = ops[1][1] or ops[0][1]
        a, b = self.stget(st, 0), self.stget(st, i)
        st.st[0], st.st[i] = b, a
    def farith(self, st, ops, op, rev, pop):
        if len(ops) == 1 and ops[0][0] == 'm':
            a, b, d = self.stget(st, 0), self.fldmem(st, ops[0]), 0
        elif len(ops) == 0:
            d = 1; a, b = self.stget(st, 1), self.stget(st, 0)
        elif len(ops) == 1:
            d = ops[0][1]; a, b = self.stget(st, d), self.stget(st, 0)
        else:
            d = ops[0][1]; a, b = self.stget(st, d), self.stget(st, ops[1][1])
        if rev: a, b = b, a
        st.st[d] = z3.simplify(fp_bin(op, a, b))
        if pop: self.fpop(st)
    def i_fadd(self, st, ops): self.farith(st, ops, 'add', False, False)
    def i_faddp(self, st, ops): self.farith(st, ops, 'add', False, True)
    def i_fmul(self, st, ops): self.farith(st, ops, 'mul', False, False)
    def i_fmulp(self, st, ops): self.farith(st, ops, 'mul', False, True)
    # Intel syntax (objdump -M intel): fsubp st(i),st : st(i) = st(i) - st ; fsubrp: st(i) = st - st(i)
    def i_fsub(self, st, ops): self.farith(st, ops, 'sub', False, False)
    def i_fsubp(self, st, ops): self.farith(st, ops, 'sub', False, True)
    def i_fsubr(self, st, ops): self.farith(st, ops, 'sub', True, False)
    def i_fsubrp(self, st, ops): self.farith(st, ops, 'sub', True, True)
    def i_fdiv(self, st, ops): self.farith(st, ops, 'div', False, False)
    def i_fdivp(self, st, ops): self.farith(st, ops, 'div', False, True)
    def i_fdivr(self, st, ops): self.farith(st, ops, 'div', True, False)
    def i_fdivrp(self, st, ops): self.farith(st, ops, 'div', True, True)
    def fcom(self, st, ops, pop):
        i = ops[-1][1] if len(ops) > 1 else (ops[0][1] if ops else 1)
        self.fcmpflags(st, self.stget(st, 0), self.stget(st, i))
        if pop: self.fpop(st)
    def i_fucomip(self, st, ops): self.fcom(st, ops, True)
    def i_fucomi(self, st, ops): self.fcom(st, ops, False)
    i_fcomip = i_fucomip
    i_fcomi = i_fucomi

class Fault(Exception):
    def __init__(self, kind, addr, n):
        super().__init__('%s fault at %s (%d bytes)' % (kind, hex(addr) if is_c(addr) else 'symbolic', n))
        self.kind, self.addr, self.n = kind, addr, n
class SymFault(Exception):
    def __init__(self, kind, addr, n, cond):
        self.kind, self.addr, self.n, self.cond = kind, addr, n, cond
class ForkMem(Exception):
    def __init__(self, addr, vals): self.addr, self.vals = addr, vals
class Dead(Exception): pass

def tdiv(a, b):
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0): q = -q
    return q, a - q * b

def fp_to_int(f, m, rm):
    """x86 conversion: out of range and NaN give the integer indefinite value"""
    sort = f.sort()
    r = z3.fpRoundToIntegral(rm, f)
    lo = z3.fpSignedToFP(RNE, z3.BitVecVal(1 << (m - 1), m), sort)      # -2^(m-1), exact
    ok = z3.And(z3.Not(z3.fpIsNaN(f)), z3.Not(z3.fpIsInf(f)), z3.fpGEQ(r, lo), z3.fpLT(r, z3.fpNeg(lo)))
    return simp(z3.If(ok, z3.fpToSBV(rm, f, z3.BitVecSort(m)), z3.BitVecVal(1 << (m - 1), m)))

def f80_bits(f):
    b = z3.simplify(z3.fpToIEEEBV(f))       # 79 bits: s, e15, m63
    e = z3.Extract(77, 63, b)
    integer = z3.If(e == 0, z3.BitVecVal(0, 1), z3.BitVecVal(1, 1))
    return z3.simplify(z3.Concat(z3.Extract(78, 78, b), e, integer, z3.Extract(62, 0, b)))

def f80_from_bits(v):
    """80-bit memory image -> FP80 (only canonical encodings are modelled)"""
    v = bv(v, 80)
    return z3.simplify(z3.fpBVToFP(z3.simplify(z3.Concat(z3.Extract(79, 64, v), z3.Extract(62, 0, v))), F80))
