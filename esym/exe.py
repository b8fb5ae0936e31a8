"""Symbolic executor for LLVM IR (flat 64-bit addresses, typed cells,
copy-on-write path forking)."""
import math
import os
import sys
import struct
import time
from fractions import Fraction
from . import llvm as lv
from . import terms as tm
from .terms import T
from .smt import Feas

M64 = (1 << 64) - 1
OFFM = 0xffffffff


class Undef(object):
    def __repr__(self):
        return 'undef'

    def __deepcopy__(self, m):
        return self


UNDEF = Undef()
FORKS = bool(os.environ.get('ESYM_FORKS'))


class PathError(Exception):
    """a defect of the program under test on this path (memory error, abort)"""

    def __init__(self, kind, msg):
        Exception.__init__(self, kind + ': ' + msg)
        self.kind = kind
        self.msg = msg


class Unsupported(Exception):
    pass


class Stop(Exception):
    """path ends normally"""

    def __init__(self, why):
        self.why = why


class Concretise(Exception):
    def __init__(self, term, how='bv', limit=64):
        self.term = term
        self.how = how
        self.limit = limit


class ForkBool(Exception):
    def __init__(self, cond):
        self.cond = cond


class Obj(object):
    __slots__ = ('id', 'size', 'cells', 'owner', 'kind', 'alive', 'name', 'fill', 'gran', 'ro')

    def clone(self, owner):
        o = Obj()
        o.id = self.id
        o.size = self.size
        o.cells = dict(self.cells)
        o.owner = owner
        o.kind = self.kind
        o.alive = self.alive
        o.name = self.name
        o.fill = self.fill
        o.gran = self.gran
        o.ro = self.ro
        return o


class Code(object):
    __slots__ = ('name', 'ops', 'regs0', 'params', 'vararg', 'nret', 'texts', 'ninstr')


class Frame(object):
    __slots__ = ('code', 'regs', 'ip', 'dst', 'cont', 'unw', 'allocas', 'hook')

    def copy(self):
        f = Frame()
        f.code = self.code
        f.regs = list(self.regs)
        f.ip = self.ip
        f.dst = self.dst
        f.cont = self.cont
        f.unw = self.unw
        f.allocas = list(self.allocas)
        f.hook = self.hook
        return f


class State(object):
    _n = [0]

    def __init__(self):
        self.frames = []
        self.objs = {}
        self.pc = []
        self.conc = {}
        self.dec = {}
        self.caught = []
        self.exc = None
        self.inputs = []      # (name, term or value, kind)
        self.names = {}
        self.toks = []        # number tokens written to text streams
        self.ext = {}         # per-path storage of extensions (must be copied)
        self.track = None     # access tracking (threads)
        self.labels = ()
        self.nobj = 0
        self.steps = 0
        self.newid()

    def newid(self):
        State._n[0] += 1
        self.id = State._n[0]

    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.objs = dict(self.objs)
        s.pc = list(self.pc)
        s.conc = dict(self.conc)
        s.dec = dict(self.dec)
        s.caught = list(self.caught)
        s.exc = self.exc
        s.inputs = list(self.inputs)
        s.names = dict(self.names)
        s.toks = list(self.toks)
        s.ext = {k: (v.copy() if hasattr(v, 'copy') else v) for k, v in self.ext.items()}
        s.track = [x.copy() if hasattr(x, 'copy') else x for x in self.track] if self.track is not None else None
        s.labels = self.labels
        s.nobj = self.nobj
        s.steps = self.steps
        s.newid()
        self.newid()
        return s


RET = ('ret',)
CALL = ('call',)
THROW = ('throw',)


class Engine(object):
    def __init__(self, module, mode='real', feas_timeout=2000, max_steps=20000000, max_paths=100000,
                 deadline=None):
        self.mod = module
        self.mode = mode
        self.real = mode == 'real'
        self.codes = {}
        self.shape = None
        self.shape_keys = {}
        self.nextid = 1
        self.addr_of = {}          # global/function name -> address
        self.func_at = {}          # address -> function name
        self.ginit = {}            # object id -> initial Obj (shared)
        self.ext = {}
        self.feas = Feas(timeout=feas_timeout)
        self.obls = []
        self.reach = {}
        self.paths = 0
        self.steps = 0
        self.forks = 0
        self.max_steps = max_steps
        self.path_steps = 0
        self.max_paths = max_paths
        self.deadline = deadline
        self.unsupported = []
        self.encoded = {}
        self.typeids = {}
        self.uniq = 0
        self.endings = {}
        self.path_witness = []
        self.check_div = False
        self.merge = False     # both sides of a branch at once
        self.sel_fork = False  # split the path at a selection of numbers
        self.free_div = False
        self.params = []
        self.conc_limit = 64
        self.ptr_ty = None
        from . import lib
        lib.install(self)

    # ================================================================ memory
    def newaddr(self):
        i = self.nextid
        self.nextid += 1
        return i << 32

    def alloc(self, st, size, kind, name='', fill=None):
        # object ids are allocated per path so that equal paths get equal ids
        i = (1 << 24) + st.nobj
        st.nobj += 1
        o = Obj()
        o.id = i
        o.size = size
        o.cells = {}
        o.owner = st.id
        o.kind = kind
        o.alive = True
        o.name = name
        o.fill = fill
        o.gran = None
        o.ro = False
        st.objs[i] = o
        return i << 32

    def obj(self, st, addr, size, write):
        i = addr >> 32
        o = st.objs.get(i)
        if o is None:
            o = self.ginit.get(i)
            if o is None:
                o = self.materialise(i)
            if o is None:
                if addr < 4096:
                    raise PathError('memory', 'null pointer access (address %d)' % addr)
                raise PathError('memory', 'access to an unmapped address %#x' % addr)
        off = addr & OFFM
        if not o.alive:
            raise PathError('memory', 'use of released memory (%s)' % o.kind)
        if off + size > o.size:
            raise PathError('memory', 'out-of-bounds %s: offset %d size %d in %s object %s of %d bytes'
                            % ('write' if write else 'read', off if off < (1 << 31) else off - (1 << 32), size,
                               o.kind, o.name, o.size))
        if write:
            if o.ro:
                raise PathError('memory', 'write to constant %s' % o.name)
            if o.owner != st.id:
                o = o.clone(st.id)
                st.objs[i] = o
        if st.track is not None:
            self.on_access(st, o, off, size, write)
        return o

    def on_access(self, st, o, off, size, write):
        pass

    def at_end(self, st):
        pass

    def load(self, st, addr, size):
        if type(addr) is not int:
            return self.load_sym(st, addr, size)
        o = st.objs.get(addr >> 32)
        if o is None or st.track is not None:
            o = self.obj(st, addr, size, False)
        c = o.cells.get(addr & OFFM)
        if c is not None and c[0] == size and o.alive:
            return c[1]
        o = self.obj(st, addr, size, False)
        return self.load_slow(o, addr & OFFM, size)

    def load_slow(self, o, off, size):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        # assemble from bytes
        i = 0
        parts = []
        while i < size:
            p = off + i
            c = cells.get(p)
            if c is not None:
                n = c[0]
                if n <= size - i:
                    v = self.asbits(c[1], n)
                    if v is UNDEF:
                        return UNDEF
                    parts.append((v, n))
                    i += n
                    continue
                v = self.asbits(c[1], n)
                if v is UNDEF:
                    return UNDEF
                k = size - i
                parts.append((tm.extract(v, 8 * k - 1, 0), k))
                i += k
                continue
            hit = None
            for k in range(1, 16):
                c = cells.get(p - k)
                if c is not None:
                    if c[0] > k:
                        hit = (k, c)
                    break
            if hit is not None:
                k, c = hit
                v = self.asbits(c[1], c[0])
                if v is UNDEF:
                    return UNDEF
                n = min(c[0] - k, size - i)
                parts.append((tm.extract(v, 8 * (k + n) - 1, 8 * k), n))
                i += n
                continue
            if o.fill is None:
                return UNDEF
            parts.append((o.fill, 1))
            i += 1
        v, n = parts[-1]
        for w, m in reversed(parts[:-1]):
            v = tm.concat(v, 8 * n, w, 8 * m)
            n += m
        return v

    def asbits(self, v, size):
        """the value of a cell as a bit pattern"""
        t = type(v)
        if t is int:
            return v
        if t is bool:
            return int(v)
        if t is T:
            if v.sort == 'B':
                return tm.ite(v, 1, 0, 8 * size)
            if type(v.sort) is int:
                if v.sort < 8 * size:
                    return tm.zext(v, v.sort, 8 * size)
                return v
            if v.sort == 'F' and v.op == 'bits2f':
                return v.args[0]
            raise Unsupported('bit pattern of a symbolic floating-point value')
        if t is Fraction:
            f = float(v)
            if size == 4:
                return struct.unpack('<I', struct.pack('<f', f))[0]
            if size == 16 or size == 10:
                raise Unsupported('bit pattern of long double')
            return tm.f2bits(f)
        if t is float:
            if size == 4:
                return struct.unpack('<I', struct.pack('<f', v))[0]
            return tm.f2bits(v)
        if v is UNDEF:
            return UNDEF
        raise Unsupported('bit pattern of %r' % (v,))

    def clear(self, o, off, size):
        """remove the cells in [off, off+size), splitting partial overlaps"""
        cells = o.cells
        if o.gran and off % o.gran == 0 and size % o.gran == 0:
            if size == o.gran:
                cells.pop(off, None)
            else:
                for p in range(off, off + size, o.gran):
                    cells.pop(p, None)
            return
        for k in range(1, 16):
            c = cells.get(off - k)
            if c is not None:
                if c[0] > k:
                    self.split(o, off - k, c)
                break
        p = off
        end = off + size
        if size > 64 and len(cells) < size:
            for q in [q for q in cells if off <= q < end]:
                c = cells[q]
                if q + c[0] > end:
                    self.split(o, q, c)
                    for z in range(q, end):
                        cells.pop(z, None)
                else:
                    del cells[q]
            return
        while p < end:
            c = cells.pop(p, None)
            if c is None:
                p += 1
                continue
            if p + c[0] > end:
                cells[p] = c
                self.split(o, p, c)
                while p < end:
                    cells.pop(p, None)
                    p += 1
                return
            p += c[0]

    def split(self, o, p, c):
        del o.cells[p]
        o.gran = 0
        if c[1] is UNDEF:
            for i in range(c[0]):
                o.cells[p + i] = (1, UNDEF)
            return
        v = self.asbits(c[1], c[0])
        for i in range(c[0]):
            o.cells[p + i] = (1, tm.extract(v, 8 * i + 7, 8 * i))

    def store(self, st, addr, size, val):
        if type(addr) is not int:
            return self.store_sym(st, addr, size, val)
        o = self.obj(st, addr, size, True)
        off = addr & OFFM
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            o.cells[off] = (size, val)
            return
        g = o.gran
        if g is None:
            if off % size == 0:
                o.gran = size
            else:
                o.gran = 0
        elif g != size or off % size:
            o.gran = 0
            self.clear(o, off, size)
        o.cells[off] = (size, val)

    def candidates(self, st, addr, size, write):
        vals = self.feas.values_bv(st.pc, addr, 700)
        if vals is None or not vals:
            if vals is not None:
                raise Stop('infeasible')
            raise Unsupported('symbolic address with too many values')
        return sorted(vals)

    def load_sym(self, st, addr, size):
        if addr is UNDEF:
            raise PathError('memory', 'use of an uninitialised pointer')
        v = st.conc.get(addr.id)
        if v is not None:
            return self.load(st, v, size)
        if self.mode == 'forkptr':
            raise Concretise(addr)
        vals = self.candidates(st, addr, size, False)
        if len(vals) == 1:
            return self.load(st, vals[0], size)
        if len({x >> 32 for x in vals}) > 1:
            raise Concretise(addr)
        try:
            loaded = [(x, self.load(st, x, size)) for x in vals]
        except PathError:
            raise Concretise(addr, limit=len(vals) + 1)
        if any(w is UNDEF for _, w in loaded):
            raise Concretise(addr, limit=len(vals) + 1)
        sorts = set()
        for _, w in loaded:
            if type(w) is T:
                sorts.add(w.sort)
            elif isinstance(w, Fraction):
                sorts.add('R')
            elif type(w) is float:
                sorts.add('F')
            else:
                sorts.add(8 * size)
        if len(sorts) > 1:
            if self.real and 'R' in sorts:
                loaded = [(x, self.tofp(w)) for x, w in loaded]
                sorts = {'R'}
            else:
                raise Concretise(addr, limit=len(vals) + 1)
        s = sorts.pop()
        r = loaded[-1][1]
        for x, w in reversed(loaded[:-1]):
            r = tm.ite(tm.bvcmp('eq', addr, x, 64), w, r, s)
        return r

    def store_sym(self, st, addr, size, val):
        if addr is UNDEF:
            raise PathError('memory', 'use of an uninitialised pointer')
        v = st.conc.get(addr.id)
        if v is not None:
            return self.store(st, v, size, val)
        vals = self.candidates(st, addr, size, True)
        if len(vals) == 1:
            return self.store(st, vals[0], size, val)
        raise Concretise(addr, limit=len(vals) + 1)

    def memcpy(self, st, dst, src, n):
        if n == 0:
            return
        so = self.obj(st, src, n, False)
        soff = src & OFFM
        items = []
        cells = so.cells
        # partial cells at the borders are turned into bytes
        need_lo = need_hi = False
        for k in range(1, 16):
            c = cells.get(soff - k)
            if c is not None:
                if c[0] > k:
                    need_lo = True
                break
        if not need_lo:
            if n <= 64 or len(cells) > n:
                p = soff
                end = soff + n
                while p < end:
                    c = cells.get(p)
                    if c is None:
                        p += 1
                        continue
                    if p + c[0] > end:
                        need_hi = True
                        break
                    items.append((p - soff, c))
                    p += c[0]
            else:
                end = soff + n
                for p, c in cells.items():
                    if soff <= p < end:
                        if p + c[0] > end:
                            need_hi = True
                            break
                        items.append((p - soff, c))
        if need_lo or need_hi:
            items = [(i, (1, self.load_slow(so, soff + i, 1))) for i in range(n)]
            items = [(i, c) for i, c in items if c[1] is not UNDEF]
        do = self.obj(st, dst, n, True)
        doff = dst & OFFM
        whole = doff == 0 and n == do.size
        fill = so.fill
        if whole:
            do.cells.clear()
            do.gran = None
        else:
            self.clear(do, doff, n)
        g = do.gran
        dc = do.cells
        for i, c in items:
            dc[doff + i] = c
            if g is None:
                g = c[0] if (doff + i) % c[0] == 0 else 0
            elif g and (g != c[0] or (doff + i) % g):
                g = 0
        do.gran = g
        if fill is not None:
            if whole:
                do.fill = fill
            elif do.fill != fill:
                # materialise filled bytes
                cov = set()
                for i, c in items:
                    cov.update(range(i, i + c[0]))
                for i in range(n):
                    if i not in cov:
                        dc[doff + i] = (1, fill)
                        do.gran = 0
        elif do.fill is not None:
            cov = set()
            for i, c in items:
                cov.update(range(i, i + c[0]))
            for i in range(n):
                if i not in cov:
                    dc[doff + i] = (1, UNDEF)
                    do.gran = 0
        return

    def memset(self, st, dst, val, n):
        if n == 0:
            return
        o = self.obj(st, dst, n, True)
        off = dst & OFFM
        if type(val) is int and off == 0 and n == o.size:
            o.cells.clear()
            o.fill = val
            o.gran = None
            return
        self.clear(o, off, n)
        if type(val) is int and o.fill == val:
            return
        if type(val) is int and n % 8 == 0 and off % 8 == 0:
            w = val * 0x0101010101010101
            for p in range(off, off + n, 8):
                o.cells[p] = (8, w)
            if o.gran is None:
                o.gran = 8
            elif o.gran != 8:
                o.gran = 0
            return
        for p in range(off, off + n):
            o.cells[p] = (1, val)
        o.gran = 1 if o.gran in (None, 1) else 0

    def read_bytes(self, st, addr, n):
        """n bytes as a list of ints/terms"""
        if n == 0:
            return []
        o = self.obj(st, addr, n, False)
        off = addr & OFFM
        out = []
        for i in range(n):
            c = o.cells.get(off + i)
            if c is not None and c[0] == 1:
                v = c[1]
            else:
                v = self.load_slow(o, off + i, 1)
            out.append(v)
        return out

    def write_bytes(self, st, addr, bs):
        for i, b in enumerate(bs):
            self.store(st, addr + i, 1, b)

    def cstr(self, st, addr):
        out = []
        while True:
            b = self.load(st, addr, 1)
            if type(b) is not int:
                raise Unsupported('symbolic C string')
            if b == 0:
                return ''.join(map(chr, out))
            out.append(b)
            addr += 1

    # ================================================================ numbers
    def tofp(self, v):
        """bit pattern (int) or fp value -> fp value of the current mode"""
        t = type(v)
        if t is Fraction:
            return v
        if t is T:
            if v.sort == 'R' or v.sort == 'F':
                return v
            if not self.real and v.sort == 64:
                return tm.mk('bits2f', 'F', v)
            raise Unsupported('symbolic bits used as a floating-point number')
        if t is float:
            if self.real and v == v and v not in (math.inf, -math.inf):
                return Fraction(v)
            return v
        if t is int:
            f = tm.bits2f(v)
            return self.tofp(f)
        if v is UNDEF:
            raise PathError('uninitialised', 'use of an uninitialised floating-point value')
        raise Unsupported('fp of %r' % (v,))

    def fpbin(self, op, a, b, st=None):
        if type(a) is tuple:
            return tuple(self.fpbin(op, x, y, st) for x, y in zip(a, b))
        if a is UNDEF or b is UNDEF:
            return UNDEF
        a = self.tofp(a)
        b = self.tofp(b)
        if not self.real:
            return tm.fop(op, a, b)
        if type(a) is float or type(b) is float:
            return self.special(op, a, b, st)
        if op == 'fadd':
            return tm.radd(a, b)
        if op == 'fsub':
            return tm.rsub(a, b)
        if op == 'fmul':
            return tm.rmul(a, b)
        if op == 'fdiv':
            if type(b) is not T:
                if b == 0:
                    if type(a) is not T:
                        if a == 0:
                            return math.nan
                        return math.inf if a > 0 else -math.inf
                    # symbolic / 0: inf, -inf or nan
                    if self.free_div:
                        return tm.ruf('div0', a)
                    raise ForkDiv0(a)
                return tm.rdiv(a, b)
            self.denominator(st, b)
            return tm.rdiv(a, b)
        raise Unsupported(op)

    def denominator(self, st, b):
        if st is None:
            return
        key = ('nz', b.id)
        if key in st.dec:
            return
        st.dec[key] = True
        c = tm.bnot(tm.req(b, tm.ZERO))
        if c is True:
            return
        if self.check_div:
            self.oblige(st, c, 'division by zero')
        st.pc.append(c)

    def special(self, op, a, b, st):
        """arithmetic with an infinity or nan operand in real mode"""
        def isnan(x):
            return type(x) is float and x != x
        if isnan(a) or isnan(b):
            return math.nan
        if type(a) is not T and type(b) is not T:
            r = tm.fop(op, float(a), float(b))
            return self.tofp(r)
        if op in ('fadd', 'fsub'):
            if type(a) is float:
                return a
            return b if op == 'fadd' else -b
        if op == 'fdiv' and type(b) is float:
            return tm.ZERO
        # inf * term or inf / term: needs the sign of the term
        if type(a) is float:
            f, t = a, b
        else:
            f, t = b, a
        if st is not None:
            if self.decide(st, tm.rlt(tm.ZERO, t)):
                return f
            if self.decide(st, tm.rlt(t, tm.ZERO)):
                return -f
            return math.nan if op == 'fmul' else f
        raise Unsupported('infinity times a symbolic value')

    def fpcmp(self, pred, a, b):
        """predicate name without the o/u prefix handled by the caller"""
        if self.real:
            if type(a) is float or type(b) is float:
                fa = a if type(a) is float else None
                fb = b if type(b) is float else None
                if (fa is not None and fa != fa) or (fb is not None and fb != fb):
                    return None   # unordered
                x = fa if fa is not None else (0.0 if type(a) is T else float(a))
                y = fb if fb is not None else (0.0 if type(b) is T else float(b))
                return {'eq': x == y, 'lt': x < y, 'le': x <= y}[pred]
            return {'eq': tm.req, 'lt': tm.rlt, 'le': tm.rle}[pred](a, b)
        return tm.fcmp('f' + pred, a, b)

    def fcmp(self, p, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        a = self.tofp(a)
        b = self.tofp(b)
        if p == 0:
            return False
        if p == 15:
            return True
        # 1 oeq 2 ogt 3 oge 4 olt 5 ole 6 one 7 ord 8 uno 9 ueq 10 ugt 11 uge 12 ult 13 ule 14 une
        if p in (7, 8):
            if self.real:
                un = (type(a) is float and a != a) or (type(b) is float and b != b)
            else:
                un = tm.bor(tm.fisnan(a), tm.fisnan(b))
            return tm.bnot(un) if p == 7 else un
        base, neg, sw = {1: ('eq', 0, 0), 2: ('lt', 0, 1), 3: ('le', 0, 1), 4: ('lt', 0, 0), 5: ('le', 0, 0),
                         14: ('eq', 1, 0), 13: ('lt', 1, 1), 12: ('le', 1, 1), 11: ('lt', 1, 0),
                         10: ('le', 1, 0), 6: ('one', 0, 0), 9: ('one', 1, 0)}[p]
        if base == 'one':
            r = self.fpcmp('eq', a, b)
            if self.real:
                if r is None:
                    r = False        # one is ordered
                else:
                    r = tm.bnot(r)
            else:
                r = tm.band(tm.bnot(r), tm.bnot(tm.bor(tm.fisnan(a), tm.fisnan(b))))
            return tm.bnot(r) if neg else r
        if sw:
            a, b = b, a
        r = self.fpcmp(base, a, b)
        if r is None:
            r = False
        return tm.bnot(r) if neg else r

    # ================================================================ decisions
    def conc_(self, st, v, limit=None):
        """force a bit-vector value to be concrete (forks)"""
        if type(v) is not T:
            if v is UNDEF:
                raise PathError('uninitialised', 'use of an uninitialised value')
            return v
        c = st.conc.get(v.id)
        if c is not None:
            return c
        raise Concretise(v, limit=limit or self.conc_limit)

    def decide(self, st, cond):
        if type(cond) is not T:
            if cond is UNDEF:
                raise PathError('uninitialised', 'decision on an uninitialised value')
            return bool(cond)
        d = st.dec.get(cond.id)
        if d is None:
            d = self.known(st, cond)
        if d is not None:
            return d
        raise ForkBool(cond)

    def shape_key(self, cond):
        """(key, polarity) of a comparison of reals that does not depend on how
        its sides are grouped and ordered; key None when it is constant"""
        r = self.shape_keys.get(cond.id)
        if r is None:
            pol, t = True, cond
            while t.op == 'not' and type(t.args[0]) is T:
                pol, t = not pol, t.args[0]
            r = (cond, None, None)
            if t.op in ('lt', 'eq') and any(type(x) is T and x.sort == 'R' for x in t.args) \
                    and not any(isinstance(x, float) for x in t.args):
                r = (cond,) + self._shape_key(t, pol)
            self.shape_keys[cond.id] = r
        return r[1], r[2]

    def _shape_key(self, t, pol):
        if self.shape is None:
            from .nf import Shape
            self.shape = Shape()
        try:
            c, m = self.shape.of(tm.rsub(t.args[0], t.args[1]))
        except (ZeroDivisionError, RecursionError, TypeError):
            return None, None
        if c == 0:
            return None, (t.op == 'eq') == pol
        if t.op == 'lt':
            d = self.shape.terms((c, m))
            if () in d and all((x > 0) == (d[()] > 0) and not any(e % 2 for _, e in k) for k, x in d.items()):
                # a constant and squares of the same sign
                return None, (d[()] < 0) == pol
            return ('lt', c > 0, m), pol
        return ('eq', m), pol

    def known(self, st, cond):
        if not self.real:
            return None
        k, pol = self.shape_key(cond)
        if k is None:
            return pol
        d = st.dec.get(k)
        if d is None and k[0] == 'lt' and st.dec.get(('lt', not k[1], k[2])):
            d = False
        return None if d is None else d == pol

    def note(self, st, cond, d):
        st.dec[cond.id] = d
        if self.real:
            k, pol = self.shape_key(cond)
            if k is not None:
                st.dec[k] = d == pol

    # ================================================================ obligations
    def oblige(self, st, goal, label, info=None):
        self.obls.append(Obligation(list(st.pc), goal, label, info, list(st.inputs)))

    # ================================================================ globals
    def gaddr(self, name):
        a = self.addr_of.get(name)
        if a is None:
            if name in self.mod.aliases:
                v = self.mod.aliases[name]
                a = self.const(v)
                self.addr_of[name] = a
                return a
            a = self.newaddr()
            self.addr_of[name] = a
            if name in self.mod.funcs:
                self.func_at[a] = name
            else:
                self.gnames = getattr(self, 'gnames', {})
                self.gnames[a >> 32] = name
        return a

    def materialise(self, i):
        name = getattr(self, 'gnames', {}).get(i)
        if name is None:
            return None
        g = self.mod.globals[name]
        ty = self.mod.ty(lv.GlobTy(g))
        o = Obj()
        o.id = i
        o.size = ty.size
        o.cells = {}
        o.owner = None
        o.kind = 'global'
        o.alive = True
        o.name = name
        o.fill = None
        o.gran = 0
        init = lv.Initz(g)
        o.ro = bool(lv.IsConstGl(g)) and bool(init)
        if init:
            self.put_const(o, 0, init, ty)
        else:
            o.fill = 0
            o.size = max(o.size, 8)
            if name in ('__dso_handle',):
                o.size = 8
            elif name.startswith('_ZTV'):
                o.size = 256       # vtable of a class defined elsewhere
        self.ginit[i] = o
        return o

    def put_const(self, o, off, v, ty):
        k = lv.VK[lv.ValueKind(v)]
        if k in ('undef', 'poison'):
            return
        if lv.IsNull(v) or k == 'aggzero':
            if ty.size == o.size:
                o.fill = 0
                return
            if o.fill == 0:
                return
            if ty.kind in ('int', 'ptr', 'double', 'float'):
                o.cells[off] = (ty.store, 0)
                return
            p = off
            while p < off + ty.size:
                if p % 8 == 0 and p + 8 <= off + ty.size:
                    o.cells[p] = (8, 0)
                    p += 8
                else:
                    o.cells[p] = (1, 0)
                    p += 1
            return
        if ty.kind in ('array', 'vec'):
            es = ty.el.size
            for i in range(ty.n):
                self.put_const(o, off + i * es, lv.AggEl(v, i), ty.el)
            return
        if ty.kind == 'struct':
            for i, e in enumerate(ty.els):
                self.put_const(o, off + ty.offs[i], lv.AggEl(v, i), e)
            return
        c = self.const(v)
        if type(c) is bool:
            c = int(c)
        o.cells[off] = (ty.store, c)

    def const(self, v):
        """Python value of an LLVM constant"""
        k = lv.VK[lv.ValueKind(v)]
        ty = self.mod.ty(lv.TypeOf(v))
        if k == 'cint':
            if ty.w == 1:
                return bool(lv.ZExt(v) & 1)
            if ty.w > 64:
                s = self.mod.text(v).split()[-1]
                return int(s) & tm.mask(ty.w)
            return lv.ZExt(v) & tm.mask(ty.w)
        if k == 'cfp':
            lossy = lv.I()
            d = lv.RealVal(v, lossy)
            if ty.kind == 'x86_fp80' and lossy.value:
                pass
            return self.tofp(d) if self.real else d
        if k == 'cnull':
            return 0
        if k in ('undef', 'poison'):
            if ty.kind == 'struct':
                return tuple(UNDEF for _ in ty.els)
            if ty.kind in ('array', 'vec'):
                return tuple(UNDEF for _ in range(ty.n))
            return UNDEF
        if k in ('func', 'gvar', 'alias'):
            return self.gaddr(self.mod.name(v))
        if k == 'aggzero':
            return self.zero(ty)
        if k in ('carray', 'cdataarr', 'cdatavec', 'cvector'):
            return tuple(self.const(lv.AggEl(v, i)) for i in range(ty.n))
        if k == 'cstruct':
            return tuple(self.const(lv.AggEl(v, i)) for i in range(len(ty.els)))
        if k == 'cexpr':
            op = lv.OPC[lv.ConstOp(v)]
            ops = [lv.Operand(v, i) for i in range(lv.NumOps(v))]
            if op == 'gep':
                base = self.const(ops[0])
                t = self.mod.ty(lv.GEPTy(v))
                return (base + self.const_gep(t, ops[1:])) & M64
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                return self.const(ops[0])
            if op in ('add', 'sub', 'xor', 'and', 'or', 'shl', 'lshr', 'mul'):
                m = {'add': 'bvadd', 'sub': 'bvsub', 'xor': 'bvxor', 'and': 'bvand', 'or': 'bvor',
                     'shl': 'bvshl', 'lshr': 'bvlshr', 'mul': 'bvmul'}[op]
                return tm.bv(m, self.const(ops[0]), self.const(ops[1]), ty.w)
            if op == 'trunc':
                return self.const(ops[0]) & tm.mask(ty.w)
            raise Unsupported('constant expression ' + op)
        if k == 'md':
            return None
        raise Unsupported('constant kind ' + k)

    def zero(self, ty):
        if ty.kind == 'struct':
            return tuple(self.zero(e) for e in ty.els)
        if ty.kind in ('array', 'vec'):
            return tuple(self.zero(ty.el) for _ in range(ty.n))
        if ty.kind in ('double', 'float', 'x86_fp80'):
            return Fraction(0) if self.real else 0.0
        if ty.kind == 'int' and ty.w == 1:
            return False
        return 0

    def const_gep(self, t, idx):
        off = 0
        first = True
        for i in idx:
            n = self.const(i)
            w = self.mod.ty(lv.TypeOf(i)).w
            n = tm._s(n, w)
            if first:
                off += n * t.size
                first = False
            elif t.kind == 'struct':
                off += t.offs[n]
                t = t.els[n]
            else:
                t = t.el
                off += n * t.size
        return off

    # ================================================================ calls
    def code(self, name):
        c = self.codes.get(name)
        if c is None:
            from .comp import Compiler
            v = self.mod.funcs.get(name)
            if v is None or lv.CountBB(v) == 0:
                return None
            c = Compiler(self, v, name).run()
            self.codes[name] = c
        return c

    def push(self, st, name, args, dst, cont, unw, hook=None):
        c = self.code(name)
        if c is None:
            raise Unsupported('call of undefined function ' + name)
        f = Frame()
        f.code = c
        f.regs = list(c.regs0)
        for p, a in zip(c.params, args):
            f.regs[p] = a
        f.ip = 0
        f.dst = dst
        f.cont = cont
        f.unw = unw
        f.allocas = []
        f.hook = hook
        st.frames.append(f)
        if len(st.frames) > 3000:
            raise PathError('stack', 'call depth exceeds 3000 (unbounded recursion)')
        return f

    def typeid(self, ti):
        r = self.typeids.get(ti)
        if r is None:
            r = len(self.typeids) + 1
            self.typeids[ti] = r
        return r

    def bases(self, ti):
        """typeinfo addresses of all bases (inclusive)"""
        out = [ti]
        todo = [ti]
        while todo:
            t = todo.pop()
            name = getattr(self, 'gnames', {}).get(t >> 32)
            if name is None:
                continue
            g = self.mod.globals.get(name)
            init = lv.Initz(g) if g else None
            if not init:
                continue
            ty = self.mod.ty(lv.GlobTy(g))
            if ty.kind != 'struct' or len(ty.els) < 3:
                continue
            txt = self.mod.text(lv.AggEl(init, 0))
            if '__si_class_type_info' in txt:
                b = self.const(lv.AggEl(init, 2))
                out.append(b)
                todo.append(b)
            elif '__vmi_class_type_info' in txt:
                for i in range(4, len(ty.els), 2):
                    b = self.const(lv.AggEl(init, i))
                    out.append(b)
                    todo.append(b)
        return out

    def unwind(self, st):
        """st.exc = (object address, typeinfo address); pops frames"""
        ptr, ti = st.exc
        bases = self.bases(ti)
        while st.frames:
            f = st.frames.pop()
            for a in f.allocas:
                st.objs.pop(a, None)
            if not st.frames:
                break
            if f.unw is not None:
                clauses, cleanup, moves_ip = f.unw
                sel = None
                for k, c in clauses:
                    if k == 'catch':
                        if c == 0 or c in bases:
                            sel = self.typeid(c)
                            break
                    else:
                        if not any(x in bases for x in c):
                            sel = -1
                            break
                if sel is None and cleanup:
                    sel = 0
                if sel is not None:
                    st.ext['lp'] = (ptr, sel & 0xffffffff)
                    g = st.frames[-1]
                    g.ip = moves_ip(st, g.regs)
                    return
        raise PathError('abort', 'uncaught exception of type %s'
                        % getattr(self, 'gnames', {}).get(ti >> 32, '?'))

    # ================================================================ main loop
    def start(self, entry, args=()):
        st = State()
        # dynamic initialisers
        ctors = []
        g = self.mod.globals.get('llvm.global_ctors')
        if g:
            init = lv.Initz(g)
            ty = self.mod.ty(lv.GlobTy(g))
            n = ty.n or 0
            for i in range(n):
                e = lv.AggEl(init, i)
                ctors.append((lv.ZExt(lv.AggEl(e, 0)), i, self.mod.name(lv.AggEl(e, 1))))
        ctors.sort()
        self.push(st, entry, args, None, None, None)
        for _, _, name in reversed(ctors):
            # executed before the entry function (frames are a stack)
            self.push(st, name, (), None, 'resume', None)
        return st

    def run(self, entry):
        t0 = time.time()
        work = [self.start(entry)]
        while work:
            if self.paths >= self.max_paths:
                raise Unsupported('more than %d paths' % self.max_paths)
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit of the exploration')
            st = work.pop()
            try:
                more = self.run_path(st)
            except Stop as e:
                self.endings[e.why] = self.endings.get(e.why, 0) + 1
                if e.why not in ('assume', 'infeasible'):
                    self.paths += 1
                    self.at_end(st)
                continue
            except PathError as e:
                self.paths += 1
                loc = st.frames[-1].code.name if st.frames else '?'
                self.obls.append(Obligation(list(st.pc), False, '%s in %s' % (e, demangle(loc)), {'kind': e.kind},
                                            list(st.inputs)))
                self.endings['error'] = self.endings.get('error', 0) + 1
                continue
            work.extend(more)
        self.wall = time.time() - t0

    def report_forks(self):
        if FORKS:
            for k, c in sorted(getattr(self, "fork_count", {}).items(), key=lambda x: -x[1][0])[:25]:
                sys.stderr.write('%6d %s  %s\n' % (c[0], k, c[1]))

    def trace(self, st):
        return ' <- '.join(demangle(f.code.name)[:90] for f in reversed(st.frames[-6:]))

    def run_path(self, st):
        fr = st.frames[-1]
        ops = fr.code.ops
        r = fr.regs
        ip = fr.ip
        steps = 0
        try:
            while True:
                a = ops[ip](st, r)
                steps += 1
                if a is None:
                    ip += 1
                    continue
                if type(a) is int:
                    ip = a
                    if steps > 20000:
                        self.steps += steps
                        st.steps += steps
                        steps = 0
                        if self.path_steps and st.steps > self.path_steps:
                            raise PathError('termination', 'more than %d steps' % self.path_steps)
                        if self.steps > self.max_steps:
                            raise Unsupported('step limit')
                        if self.deadline and time.time() > self.deadline:
                            raise Unsupported('time limit of the exploration')
                    continue
                fr.ip = ip
                k = a[0]
                if k == 'ret':
                    f = st.frames.pop()
                    for x in f.allocas:
                        st.objs.pop(x, None)
                    if not st.frames:
                        raise Stop('return')
                    fr = st.frames[-1]
                    if f.hook is not None:
                        h = f.hook(self, st, a[1] if len(a) > 1 else None)
                        fr = st.frames[-1]
                        if h is not None:
                            ops = fr.code.ops
                            r = fr.regs
                            ip = fr.ip
                            continue
                    if f.cont == 'resume':
                        pass
                    else:
                        if f.dst is not None:
                            fr.regs[f.dst] = a[1]
                        c = f.cont
                        fr.ip = c if type(c) is int else c(st, fr.regs)
                elif k == 'call':
                    fr = st.frames[-1]
                elif k == 'throw':
                    self.unwind(st)
                    fr = st.frames[-1]
                elif k == 'fork':
                    cond = a[1]
                    if cond is UNDEF:
                        raise PathError('uninitialised', 'branch on an uninitialised value')
                    d = st.dec.get(cond.id)
                    if d is None:
                        d = self.known(st, cond)
                    if d is None:
                        nc = tm.bnot(cond)
                        if FORKS:
                            k = ' <- '.join('%s:%s' % (demangle(f.code.name)[:60], '') for f in reversed(st.frames[-3:]))
                            self.fork_count = getattr(self, 'fork_count', {})
                            c = self.fork_count.setdefault(k, [0, str(cond)[:160]])
                            c[0] += 1
                        t_ok = self.feas.check(st.pc, cond)
                        f_ok = self.feas.check(st.pc, nc) if t_ok else True
                        if t_ok and f_ok:
                            self.forks += 1
                            self.steps += steps
                            steps = 0
                            s2 = st.fork()
                            st.pc.append(cond)
                            self.note(st, cond, True)
                            s2.pc.append(nc)
                            self.note(s2, cond, False)
                            g = s2.frames[-1]
                            g.ip = a[3](s2, g.regs)
                            g = st.frames[-1]
                            g.ip = a[2](st, g.regs)
                            return [s2, st]
                        d = t_ok
                        self.note(st, cond, d)
                    fr.ip = a[2](st, r) if d else a[3](st, r)
                elif k == 'jump':
                    fr = st.frames[-1]
                else:
                    raise Unsupported('action %r' % (k,))
                ops = fr.code.ops
                r = fr.regs
                ip = fr.ip
        except ForkBool as e:
            fr.ip = ip
            cond = e.cond
            nc = tm.bnot(cond)
            if FORKS:
                k = ' <- '.join('%s:%s' % (demangle(f.code.name)[:60], '') for f in reversed(st.frames[-3:]))
                self.fork_count = getattr(self, 'fork_count', {})
                c = self.fork_count.setdefault(k, [0, str(cond)[:160]])
                c[0] += 1
            t_ok = self.feas.check(st.pc, cond)
            f_ok = self.feas.check(st.pc, nc) if t_ok else True
            if t_ok and f_ok:
                self.forks += 1
                s2 = st.fork()
                st.pc.append(cond)
                self.note(st, cond, True)
                s2.pc.append(nc)
                self.note(s2, cond, False)
                return [s2, st]
            self.note(st, cond, t_ok)
            return [st]
        except Concretise as e:
            fr.ip = ip
            t = e.term
            if e.how == 'bv':
                vals = self.feas.values_bv(st.pc, t, e.limit)
            else:
                vals = self.feas.values_trunc(st.pc, t, e.limit)
            if vals is None:
                raise Unsupported('more than %d values for a value that must be concrete (%s) at %s'
                                  % (e.limit, e.how, self.trace(st)))
            out = []
            for v in sorted(vals):
                s2 = st.fork()
                if e.how == 'bv':
                    c = tm.bvcmp('eq', t, v, t.sort)
                else:
                    q = Fraction(v)
                    if v > 0:
                        c = tm.band(tm.rle(q, t), tm.rlt(t, q + 1))
                    elif v < 0:
                        c = tm.band(tm.rle(t, q), tm.rlt(q - 1, t))
                    else:
                        c = tm.band(tm.rlt(Fraction(-1), t), tm.rlt(t, Fraction(1)))
                if len(vals) > 1:
                    s2.pc.append(c)
                s2.conc[t.id if e.how == 'bv' else ('trunc', t.id)] = v
                out.append(s2)
            self.forks += max(0, len(out) - 1)
            return out
        finally:
            self.steps += steps
            st.steps += steps
            try:
                fr.ip = ip if fr.ip is None else fr.ip
            except Exception:
                pass


class ForkDiv0(Unsupported):
    def __init__(self, a):
        Unsupported.__init__(self, 'symbolic value divided by zero')


class Obligation(object):
    __slots__ = ('pc', 'goal', 'label', 'info', 'inputs')

    def __init__(self, pc, goal, label, info, inputs):
        self.pc = pc
        self.goal = goal
        self.label = label
        self.info = info
        self.inputs = inputs


_dem = {}


def demangle(n):
    r = _dem.get(n)
    if r is None:
        import subprocess
        try:
            r = subprocess.run(['c++filt', n], capture_output=True, text=True, timeout=5).stdout.strip() or n
        except Exception:
            r = n
        _dem[n] = r
    return r
