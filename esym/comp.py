"""Compiles LLVM functions into lists of Python closures."""
import math
from fractions import Fraction
from . import llvm as lv
from . import terms as tm
from .terms import T
from . import exe
from .exe import UNDEF, M64, Code, PathError, Unsupported, CALL, THROW, Stop

INTBIN = {'add': 'bvadd', 'sub': 'bvsub', 'mul': 'bvmul', 'udiv': 'bvudiv', 'sdiv': 'bvsdiv',
          'urem': 'bvurem', 'srem': 'bvsrem', 'shl': 'bvshl', 'lshr': 'bvlshr', 'ashr': 'bvashr',
          'and': 'bvand', 'or': 'bvor', 'xor': 'bvxor'}


MERGED = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'icmp', 'trunc', 'zext', 'sext', 'gep', 'freeze',
          'select'}


class Compiler(object):
    def __init__(self, eng, fnv, name):
        self.e = eng
        self.mod = eng.mod
        self.v = fnv
        self.name = name
        self.reg = {}
        self.regs0 = []
        self.consts = {}
        self.ops = []
        self.fix = []
        self.bstart = {}
        self.phis = {}

    def newreg(self, val=UNDEF):
        self.regs0.append(val)
        return len(self.regs0) - 1

    def op(self, v):
        r = self.reg.get(v)
        if r is not None:
            return r
        k = lv.VK[lv.ValueKind(v)]
        if k in ('inst', 'arg'):
            r = self.newreg()
            self.reg[v] = r
            return r
        c = self.consts.get(v)
        if c is None:
            c = self.newreg(self.e.const(v))
            self.consts[v] = c
        return c

    def run(self):
        for i in range(lv.CountParams(self.v)):
            self.op(lv.Param(self.v, i))
        params = list(range(lv.CountParams(self.v)))
        blocks = []
        b = lv.FirstBB(self.v)
        while b:
            blocks.append(b)
            b = lv.NextBB(b)
        insts = {}
        n = 0
        for b in blocks:
            l = []
            i = lv.FirstI(b)
            ph = []
            while i:
                o = lv.OPC[lv.Opcode(i)]
                if o == 'phi':
                    ph.append(i)
                else:
                    l.append((o, i))
                n += 1
                i = lv.NextI(i)
            insts[b] = l
            self.phis[b] = ph
        self.insts = insts
        self.preds = {}
        for b in blocks:
            self.bstart[b] = None
            o, i = insts[b][-1]
            if o == 'br':
                for k in range(1 if lv.NumOps(i) == 1 else 2):
                    self.preds.setdefault(lv.Succ(i, k), []).append(b)
            else:
                # more than one
                for k in range(lv.NumSucc(i)):
                    self.preds.setdefault(lv.Succ(i, k), []).extend([b, b])
        self.edges = []
        self.opof = {}
        for b in blocks:
            self.bstart[b] = len(self.ops)
            for o, i in insts[b]:
                self.cur = b
                f = getattr(self, 'i_' + o)(i)
                self.opof[i] = f
                self.ops.append(f)
        for e in self.edges:
            e.resolve(self)
        c = Code()
        c.name = self.name
        c.ops = self.ops
        c.regs0 = self.regs0
        c.params = params
        c.ninstr = n
        self.e.encoded[self.name] = n
        return c

    # ------------------------------------------------------------ edges
    def edge(self, frm, to):
        """callable (st, regs) -> ip performing the phi moves"""
        moves = []
        for p in self.phis[to]:
            for k in range(lv.NumInc(p)):
                if lv.IncB(p, k) == frm:
                    moves.append((self.op(p), self.op(lv.IncV(p, k))))
                    break
        E = Edge(to, moves)
        self.edges.append(E)
        return E

    # ------------------------------------------------------------ helpers
    def ty(self, v):
        return self.mod.ty(lv.TypeOf(v))

    def dst(self, i):
        return self.op(i)

    # ------------------------------------------------------------ terminators
    def i_ret(self, i):
        if lv.NumOps(i) == 0:
            a = ('ret', None)
            return lambda st, r: a
        s = self.op(lv.Operand(i, 0))
        return lambda st, r: ('ret', r[s])

    def i_br(self, i):
        if lv.NumOps(i) == 1:
            return self.edge(self.cur, lv.Succ(i, 0)).go
        c = self.op(lv.Operand(i, 0))
        et = self.edge(self.cur, lv.Succ(i, 0)).go
        ef = self.edge(self.cur, lv.Succ(i, 1)).go

        m = self.join(lv.Succ(i, 0), lv.Succ(i, 1)) if self.e.merge else None

        def br(st, r):
            v = r[c]
            if v is True:
                return et(st, r)
            if v is False:
                return ef(st, r)
            if m is not None and v is not UNDEF and st.dec.get(v.id) is None:
                x = self.both(st, r, v, m)
                if x is not None:
                    return x
            return ('fork', v, et, ef)
        return br

    # both sides of a branch at once, when they only compute and store integers
    def side(self, b):
        """(instructions, successor) of a block that can be merged, or None"""
        if len(self.preds.get(b, ())) != 1 or self.phis[b]:
            return None
        out = []
        for o, i in self.insts[b][:-1]:
            if o == 'store':
                t = self.ty(lv.Operand(i, 0))
                if t.kind != 'int' or t.w % 8:
                    return None
                out.append((o, i, t.store, self.op(lv.Operand(i, 0)), self.op(lv.Operand(i, 1))))
            elif o == 'load':
                if self.ty(i).kind != 'int':
                    return None
                out.append((o, i, 0, 0, self.op(lv.Operand(i, 0))))
            elif o in MERGED:
                out.append((o, i, 0, 0, 0))
            else:
                return None
        o, i = self.insts[b][-1]
        if o != 'br' or lv.NumOps(i) != 1:
            return None
        return out, lv.Succ(i, 0)

    def join(self, a, b):
        if a == b:
            return None
        x, y = self.side(a), self.side(b)
        if x and y and x[1] == y[1]:
            j, fa, fb = x[1], a, b
        elif x and x[1] == b:
            j, fa, fb, y = b, a, self.cur, None
        elif y and y[1] == a:
            j, fa, fb, x = a, self.cur, b, None
        else:
            return None
        phis = []
        for p in self.phis[j]:
            t = self.ty(p)
            if t.kind != 'int':
                return None
            s = {}
            for k in range(lv.NumInc(p)):
                s[lv.IncB(p, k)] = self.op(lv.IncV(p, k))
            phis.append((self.op(p), s[fa], s[fb], 'B' if t.w == 1 else t.w))
        return (x[0] if x else []), (y[0] if y else []), j, phis

    def both(self, st, r, v, m):
        xs, ys, j, phis = m
        if j not in self.bstart or self.bstart[j] is None:
            return None
        e = self.e
        todo = []
        no = e.obls and len(e.obls)
        try:
            for side, g in ((xs, True), (ys, False)):
                mine = False
                for o, i, n, s, a in side:
                    if o == 'store':
                        ad, w = r[a], 8 * n
                        if type(ad) is not int:
                            return None
                        new, old = r[s], e.load(st, ad, n)
                        for z in (new, old):
                            if not (type(z) is int or type(z) is T and z.sort == w):
                                return None
                        todo.append((ad, n, g, new))
                        mine = True
                    else:
                        if o == 'load' and (mine or type(r[a]) is not int):
                            return None
                        self.opof[i](st, r)
            vals = []
            for d, a, b, w in phis:
                x, y = r[a], r[b]
                for z in (x, y):
                    if not (type(z) in (int, bool) or type(z) is T and z.sort == w):
                        return None
                vals.append((d, tm.ite(v, x, y, w)))
        except Exception:
            if len(e.obls or ()) != (no or 0):
                raise
            return None
        for ad, n, g, new in todo:
            old = e.load(st, ad, n)
            e.store(st, ad, n, tm.ite(v, new, old, 8 * n) if g else tm.ite(v, old, new, 8 * n))
        for d, z in vals:
            r[d] = z
        return self.bstart[j]

    def i_switch(self, i):
        c = self.op(lv.Operand(i, 0))
        w = self.ty(lv.Operand(i, 0)).w
        n = lv.NumSucc(i)
        cases = []
        d = self.edge(self.cur, lv.Succ(i, 0)).go
        tab = {}
        for k in range(1, n):
            val = self.e.const(lv.Operand(i, 2 * k))
            tab[val] = self.edge(self.cur, lv.Succ(i, k)).go
        eng = self.e

        def sw(st, r):
            v = r[c]
            if type(v) is int:
                return tab.get(v, d)(st, r)
            if type(v) is bool:
                return tab.get(v, d)(st, r)
            if v is UNDEF:
                raise PathError('uninitialised', 'switch on an uninitialised value')
            for val, e in tab.items():
                if eng.decide(st, tm.bvcmp('eq', v, val, w)):
                    return e(st, r)
            return d(st, r)
        return sw

    def i_unreachable(self, i):
        def un(st, r):
            raise PathError('unreachable', 'unreachable code reached')
        return un

    def i_resume(self, i):
        return lambda st, r: THROW

    def i_landingpad(self, i):
        d = self.dst(i)

        def lp(st, r):
            r[d] = st.ext['lp']
        return lp

    def i_fence(self, i):
        return lambda st, r: None

    # ------------------------------------------------------------ integers
    def _bin(self, i, o):
        ty = self.ty(i)
        a, b, d = self.op(lv.Operand(i, 0)), self.op(lv.Operand(i, 1)), self.dst(i)
        if ty.kind == 'vec':
            w = ty.el.w

            def vop(st, r):
                r[d] = tuple(ibin(o, x, y, w) for x, y in zip(r[a], r[b]))
            return vop
        w = ty.w
        m = (1 << w) - 1
        if w == 1:
            def b1(st, r):
                r[d] = ibin(o, r[a], r[b], 1)
            return b1
        if o == 'add':
            def f(st, r):
                x, y = r[a], r[b]
                r[d] = (x + y) & m if type(x) is int and type(y) is int else ibin('add', x, y, w)
        elif o == 'sub':
            def f(st, r):
                x, y = r[a], r[b]
                r[d] = (x - y) & m if type(x) is int and type(y) is int else ibin('sub', x, y, w)
        elif o == 'mul':
            def f(st, r):
                x, y = r[a], r[b]
                r[d] = (x * y) & m if type(x) is int and type(y) is int else ibin('mul', x, y, w)
        elif o == 'and':
            def f(st, r):
                x, y = r[a], r[b]
                r[d] = x & y if type(x) is int and type(y) is int else ibin('and', x, y, w)
        elif o == 'or':
            def f(st, r):
                x, y = r[a], r[b]
                r[d] = x | y if type(x) is int and type(y) is int else ibin('or', x, y, w)
        elif o in ('udiv', 'sdiv', 'urem', 'srem'):
            eng = self.e

            def f(st, r):
                x, y = r[a], r[b]
                if type(y) is int:
                    if y == 0:
                        raise PathError('arithmetic', 'integer division by zero')
                elif type(y) is T:
                    if eng.decide(st, tm.bvcmp('eq', y, 0, w)):
                        raise PathError('arithmetic', 'integer division by zero')
                r[d] = ibin(o, x, y, w)
        elif o in ('shl', 'lshr', 'ashr'):
            def f(st, r):
                x, y = r[a], r[b]
                if type(y) is int and y >= w:
                    raise PathError('arithmetic', 'shift by %d of a %d-bit value' % (y, w))
                r[d] = ibin(o, x, y, w)
        else:
            def f(st, r):
                r[d] = ibin(o, r[a], r[b], w)
        return f

    def i_icmp(self, i):
        p = lv.ICmpP(i)
        a, b, d = self.op(lv.Operand(i, 0)), self.op(lv.Operand(i, 1)), self.dst(i)
        t = self.ty(lv.Operand(i, 0))
        if t.kind == 'vec':
            w = t.el.w or 64

            def vc(st, r):
                r[d] = tuple(icmp(p, x, y, w) for x, y in zip(r[a], r[b]))
            return vc
        w = t.w or 64
        if p == 32:
            def f(st, r):
                x, y = r[a], r[b]
                r[d] = x == y if type(x) is int and type(y) is int else icmp(32, x, y, w)
        elif p == 33:
            def f(st, r):
                x, y = r[a], r[b]
                r[d] = x != y if type(x) is int and type(y) is int else icmp(33, x, y, w)
        elif p == 36:
            def f(st, r):
                x, y = r[a], r[b]
                r[d] = x < y if type(x) is int and type(y) is int else icmp(36, x, y, w)
        elif p == 34:
            def f(st, r):
                x, y = r[a], r[b]
                r[d] = x > y if type(x) is int and type(y) is int else icmp(34, x, y, w)
        else:
            def f(st, r):
                r[d] = icmp(p, r[a], r[b], w)
        return f

    def i_trunc(self, i):
        a, d = self.op(lv.Operand(i, 0)), self.dst(i)
        t = self.ty(i)
        if t.kind == 'vec':
            w = t.el.w

            def tv(st, r):
                r[d] = tuple(trunc(x, w) for x in r[a])
            return tv
        w = t.w

        def f(st, r):
            r[d] = trunc(r[a], w)
        return f

    def i_zext(self, i):
        a, d = self.op(lv.Operand(i, 0)), self.dst(i)
        t0, t = self.ty(lv.Operand(i, 0)), self.ty(i)
        if t.kind == 'vec':
            w0, w = t0.el.w, t.el.w

            def tv(st, r):
                r[d] = tuple(zext(x, w0, w) for x in r[a])
            return tv
        w0, w = t0.w, t.w

        def f(st, r):
            x = r[a]
            r[d] = x if type(x) is int else zext(x, w0, w)
        return f

    def i_sext(self, i):
        a, d = self.op(lv.Operand(i, 0)), self.dst(i)
        t0, t = self.ty(lv.Operand(i, 0)), self.ty(i)
        if t.kind == 'vec':
            w0, w = t0.el.w, t.el.w

            def tv(st, r):
                r[d] = tuple(sext(x, w0, w) for x in r[a])
            return tv
        w0, w = t0.w, t.w

        def f(st, r):
            r[d] = sext(r[a], w0, w)
        return f

    def _copy(self, i):
        a, d = self.op(lv.Operand(i, 0)), self.dst(i)

        def f(st, r):
            r[d] = r[a]
        return f

    i_inttoptr = _copy
    i_addrspacecast = _copy

    def i_ptrtoint(self, i):
        w = self.ty(i).w
        if w == 64:
            return self._copy(i)
        return self.i_trunc(i)

    def i_bitcast(self, i):
        a, d = self.op(lv.Operand(i, 0)), self.dst(i)
        t0, t1 = self.ty(lv.Operand(i, 0)), self.ty(i)
        e = self.e
        if t0.kind == t1.kind and t0.kind != 'vec':
            return self._copy(i)
        if t1.kind == 'int' and t0.kind == 'double':
            def f(st, r):
                v = r[a]
                r[d] = v        # dynamically typed: bits are taken on demand
            return f
        if t1.kind == 'double' and t0.kind == 'int':
            def f(st, r):
                r[d] = e.tofp(r[a])
            return f
        if t0.kind == 'vec' and t1.kind == 'int':
            w = t0.el.size * 8

            def f(st, r):
                v = 0
                n = 0
                for x in r[a]:
                    x = e.asbits(x, w // 8)
                    v = tm.concat(x, w, v, n) if n else x
                    n += w
                r[d] = v
            return f
        if t0.kind == 'vec' and t1.kind == 'vec' and t0.n == t1.n:
            fp = t1.el.kind == 'double'

            def f(st, r):
                r[d] = tuple(e.tofp(x) if fp else x for x in r[a])
            return f

        def bad(st, r):
            raise Unsupported('bitcast %s -> %s' % (t0, t1))
        return bad

    # ------------------------------------------------------------ floating point
    def _fbin(self, i, o):
        a, b, d = self.op(lv.Operand(i, 0)), self.op(lv.Operand(i, 1)), self.dst(i)
        e = self.e
        if e.real:
            fast = {'fadd': lambda x, y: x + y, 'fsub': lambda x, y: x - y, 'fmul': lambda x, y: x * y}.get(o)
            slow = {'fadd': tm.radd, 'fsub': tm.rsub, 'fmul': tm.rmul}.get(o)
            if fast:
                def f(st, r):
                    x, y = r[a], r[b]
                    tx, ty = type(x), type(y)
                    if tx is Fraction and ty is Fraction:
                        r[d] = fast(x, y)
                    elif (tx is T and x.sort == 'R' or tx is Fraction) and (ty is T and y.sort == 'R' or ty is Fraction):
                        r[d] = slow(x, y)
                    else:
                        r[d] = e.fpbin(o, x, y, st)
                return f

        def g(st, r):
            r[d] = e.fpbin(o, r[a], r[b], st)
        return g

    def i_frem(self, i):
        a, b, d = self.op(lv.Operand(i, 0)), self.op(lv.Operand(i, 1)), self.dst(i)
        e = self.e

        def f(st, r):
            x, y = e.tofp(r[a]), e.tofp(r[b])
            if type(x) is T or type(y) is T:
                raise Unsupported('symbolic frem')
            r[d] = e.tofp(math.fmod(float(x), float(y)))
        return f

    def i_fneg(self, i):
        a, d = self.op(lv.Operand(i, 0)), self.dst(i)
        e = self.e

        def neg(x):
            if type(x) is tuple:
                return tuple(neg(y) for y in x)
            if x is UNDEF:
                return x
            x = e.tofp(x)
            if type(x) is float:
                return -x
            return tm.rneg(x) if e.real else tm.fneg(x)

        def f(st, r):
            r[d] = neg(r[a])
        return f

    def i_fcmp(self, i):
        p = lv.FCmpP(i)
        a, b, d = self.op(lv.Operand(i, 0)), self.op(lv.Operand(i, 1)), self.dst(i)
        e = self.e

        def f(st, r):
            x = r[a]
            if type(x) is tuple:
                r[d] = tuple(e.fcmp(p, u, v) for u, v in zip(x, r[b]))
            else:
                r[d] = e.fcmp(p, x, r[b])
        return f

    def _itof(self, i, signed):
        a, d = self.op(lv.Operand(i, 0)), self.dst(i)
        t = self.ty(lv.Operand(i, 0))
        w = t.w if t.kind == 'int' else t.el.w
        e = self.e
        fkind = self.ty(i).kind

        def conv(x):
            if type(x) is tuple:
                return tuple(conv(y) for y in x)
            if type(x) is bool:
                x = int(x)
            if type(x) is int:
                if signed:
                    x = tm._s(x, w)
                if fkind == 'x86_fp80':
                    return Fraction(x) if e.real else float(x)
                return Fraction(float(x)) if e.real else float(x)
            if x is UNDEF:
                return x
            if x.sort == 'B':
                x = tm.ite(x, 1, 0, 32)
                return conv_t(tm.zext(x, 32, 64), False)
            return conv_t(x, signed)

        def conv_t(x, signed):
            if e.real:
                if x.op == 'ite' and type(x.args[1]) is not T and type(x.args[2]) is not T:
                    c, p, q = x.args
                    if signed:
                        p, q = tm._s(p, w), tm._s(q, w)
                    return tm.ite(c, Fraction(p), Fraction(q), 'R')
                return tm.mk('bv2r_s' if signed else 'bv2r_u', 'R', x)
            return tm.mk('bv2f_s' if signed else 'bv2f_u', 'F', x)

        def f(st, r):
            r[d] = conv(r[a])
        return f

    def _ftoi(self, i, signed):
        a, d = self.op(lv.Operand(i, 0)), self.dst(i)
        w = self.ty(i).w
        e = self.e

        def f(st, r):
            x = e.tofp(r[a])
            if type(x) is T:
                if not e.real:
                    raise Unsupported('symbolic IEEE to integer conversion')
                if x.op in ('bv2r_u', 'bv2r_s') and x.args[0].sort <= w:
                    y = x.args[0]
                    r[d] = tm.zext(y, y.sort, w) if x.op == 'bv2r_u' else tm.sext(y, y.sort, w)
                    return
                c = st.conc.get(('trunc', x.id))
                if c is None:
                    raise exe.Concretise(x, 'trunc', e.conc_limit)
                v = c
            else:
                if type(x) is float and (x != x or abs(x) == math.inf):
                    raise PathError('arithmetic', 'conversion of a non-finite number to an integer')
                v = int(x)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            if v < lo or v > hi:
                raise PathError('arithmetic', 'conversion of %s to a %d-bit integer overflows' % (v, w))
            r[d] = v & tm.mask(w)
        return f

    # ------------------------------------------------------------ memory
    def i_alloca(self, i):
        d = self.dst(i)
        t = self.mod.ty(lv.AllocTy(i))
        n = self.op(lv.Operand(i, 0))
        e = self.e
        sz = t.size

        def f(st, r):
            c = e.conc_(st, r[n])
            a = e.alloc(st, sz * c, 'stack')
            st.frames[-1].allocas.append(a >> 32)
            r[d] = a
        return f

    def i_load(self, i):
        g = self.plain_load(i)
        if not lv.Ordering(i):
            return g
        a = self.op(lv.Operand(i, 0))
        e = self.e

        def f(st, r):
            if not st.track:
                return g(st, r)
            e.quiet(st, g, st, r)
            e.acquire(e, st, r[a])
        return f

    def i_store(self, i):
        g = self.plain_store(i)
        if not lv.Ordering(i):
            return g
        a = self.op(lv.Operand(i, 1))
        e = self.e

        def f(st, r):
            if not st.track:
                return g(st, r)
            e.quiet(st, g, st, r)
            e.release(e, st, r[a])
        return f

    def plain_load(self, i):
        a, d = self.op(lv.Operand(i, 0)), self.dst(i)
        t = self.ty(i)
        e = self.e
        n = t.store
        load = e.load
        if t.kind == 'double' or t.kind == 'float':
            tofp = e.tofp

            def f(st, r):
                v = load(st, r[a], n)
                if type(v) is int:
                    if n == 4:
                        import struct
                        v = struct.unpack('<f', struct.pack('<I', v))[0]
                    v = tofp(v)
                elif type(v) is T and type(v.sort) is int:
                    v = tofp(v)
                r[d] = v
            return f
        if t.kind == 'int' and t.w == 1:
            def f(st, r):
                r[d] = trunc(load(st, r[a], 1), 1)
            return f
        if t.kind in ('int', 'ptr'):
            def f(st, r):
                r[d] = load(st, r[a], n)
            return f
        if t.kind == 'x86_fp80':
            def f(st, r):
                r[d] = load(st, r[a], 16)
            return f

        def f(st, r):
            r[d] = self.load_agg(st, r[a], t)
        return f

    def load_agg(self, st, addr, t):
        e = self.e
        if t.kind == 'struct':
            return tuple(self.load_agg(st, addr + o, x) for o, x in zip(t.offs, t.els))
        if t.kind in ('array', 'vec'):
            return tuple(self.load_agg(st, addr + k * t.el.size, t.el) for k in range(t.n))
        v = e.load(st, addr, t.store)
        if t.kind == 'double' and v is not UNDEF:
            v = e.tofp(v)
        if t.kind == 'int' and t.w == 1:
            v = trunc(v, 1)
        return v

    def store_agg(self, st, addr, t, v):
        if t.kind == 'struct':
            for o, x, y in zip(t.offs, t.els, v):
                self.store_agg(st, addr + o, x, y)
        elif t.kind in ('array', 'vec'):
            for k in range(t.n):
                self.store_agg(st, addr + k * t.el.size, t.el, v[k])
        else:
            if type(v) is bool:
                v = int(v)
            elif type(v) is T and v.sort == 'B':
                v = tm.ite(v, 1, 0, 8)
            self.e.store(st, addr, t.store, v)

    def plain_store(self, i):
        s, a = self.op(lv.Operand(i, 0)), self.op(lv.Operand(i, 1))
        t = self.ty(lv.Operand(i, 0))
        n = t.store
        store = self.e.store
        if t.kind == 'int' and t.w == 1:
            def f(st, r):
                store(st, r[a], 1, zext(r[s], 1, 8))
            return f
        if t.kind == 'x86_fp80':
            def f(st, r):
                store(st, r[a], 16, r[s])
            return f
        if t.kind in ('int', 'ptr', 'double', 'float'):
            def f(st, r):
                store(st, r[a], n, r[s])
            return f

        def f(st, r):
            self.store_agg(st, r[a], t, r[s])
        return f

    def i_gep(self, i):
        d = self.dst(i)
        b = self.op(lv.Operand(i, 0))
        t = self.mod.ty(lv.GEPTy(i))
        n = lv.NumOps(i)
        const = 0
        var = []
        first = True
        for k in range(1, n):
            o = lv.Operand(i, k)
            if first:
                scale = t.size
                first = False
            elif t.kind == 'struct':
                f = lv.ZExt(o)
                const += t.offs[f]
                t = t.els[f]
                continue
            else:
                t = t.el
                scale = t.size
            if lv.VK[lv.ValueKind(o)] == 'cint':
                w = self.ty(o).w
                const += tm._s(lv.ZExt(o) & tm.mask(w), w) * scale
            else:
                var.append((self.op(o), scale, self.ty(o).w))
        if self.ty(lv.Operand(i, 0)).kind == 'vec':
            raise Unsupported('vector gep')
        const &= M64
        if not var:
            def f(st, r):
                x = r[b]
                r[d] = (x + const) & M64 if type(x) is int else ibin('add', x, const, 64)
            return f
        if len(var) == 1:
            s, sc, w = var[0]

            def f(st, r):
                x, y = r[b], r[s]
                if type(x) is int and type(y) is int:
                    if w != 64:
                        y = tm._s(y, w)
                    r[d] = (x + y * sc + const) & M64
                else:
                    if y is UNDEF or x is UNDEF:
                        r[d] = UNDEF
                        return
                    y = tm.sext(y, w, 64) if w < 64 else y
                    r[d] = tm.bv('bvadd', tm.bv('bvadd', x, tm.bv('bvmul', y, sc, 64), 64), const, 64)
            return f

        def f(st, r):
            x = r[b]
            if x is UNDEF:
                r[d] = UNDEF
                return
            for s, sc, w in var:
                y = r[s]
                if y is UNDEF:
                    r[d] = UNDEF
                    return
                y = tm.sext(y, w, 64) if w < 64 else y
                x = tm.bv('bvadd', x, tm.bv('bvmul', y, sc, 64), 64)
            r[d] = tm.bv('bvadd', x, const, 64)
        return f

    def i_atomicrmw(self, i):
        d = self.dst(i)
        a, v = self.op(lv.Operand(i, 0)), self.op(lv.Operand(i, 1))
        t = self.ty(lv.Operand(i, 1))
        op = lv.RMWOp(i)
        e = self.e
        if op not in (0, 1, 2, 3, 5, 6):
            raise Unsupported('atomicrmw %d' % op)
        m = {1: 'add', 2: 'sub', 3: 'and', 5: 'or', 6: 'xor'}.get(op)

        def f(st, r):
            tr, st.track = st.track, None
            try:
                old = e.load(st, r[a], t.store)
                e.store(st, r[a], t.store, r[v] if op == 0 else ibin(m, old, r[v], t.w))
            finally:
                st.track = tr
            if tr:
                e.acquire(e, st, r[a])
                e.release(e, st, r[a])
            r[d] = old
        return f

    def i_cmpxchg(self, i):
        d = self.dst(i)
        a, c, v = (self.op(lv.Operand(i, k)) for k in range(3))
        t = self.ty(lv.Operand(i, 1))
        e = self.e

        def f(st, r):
            tr, st.track = st.track, None
            try:
                old = e.load(st, r[a], t.store)
                eq = e.decide(st, icmp(32, old, r[c], t.w or 64))
                if eq:
                    e.store(st, r[a], t.store, r[v])
            finally:
                st.track = tr
            if tr:
                e.acquire(e, st, r[a])
                if eq:
                    e.release(e, st, r[a])
            r[d] = (old, eq)
        return f

    # ------------------------------------------------------------ aggregates
    def i_extractvalue(self, i):
        a, d = self.op(lv.Operand(i, 0)), self.dst(i)
        idx = [lv.Idx(i)[k] for k in range(lv.NumIdx(i))]

        def f(st, r):
            v = r[a]
            for k in idx:
                v = v[k] if v is not UNDEF else UNDEF
            r[d] = v
        return f

    def i_insertvalue(self, i):
        a, b, d = self.op(lv.Operand(i, 0)), self.op(lv.Operand(i, 1)), self.dst(i)
        idx = [lv.Idx(i)[k] for k in range(lv.NumIdx(i))]

        def ins(v, idx, x):
            k = idx[0]
            l = list(v)
            l[k] = x if len(idx) == 1 else ins(l[k], idx[1:], x)
            return tuple(l)

        def f(st, r):
            r[d] = ins(r[a], idx, r[b])
        return f

    def i_extractelement(self, i):
        a, b, d = self.op(lv.Operand(i, 0)), self.op(lv.Operand(i, 1)), self.dst(i)

        def f(st, r):
            r[d] = r[a][self.e.conc_(st, r[b])]
        return f

    def i_insertelement(self, i):
        a, b, c, d = (self.op(lv.Operand(i, 0)), self.op(lv.Operand(i, 1)), self.op(lv.Operand(i, 2)), self.dst(i))

        def f(st, r):
            l = list(r[a])
            l[self.e.conc_(st, r[c])] = r[b]
            r[d] = tuple(l)
        return f

    def i_shufflevector(self, i):
        a, b, d = self.op(lv.Operand(i, 0)), self.op(lv.Operand(i, 1)), self.dst(i)
        mk = [lv.MaskVal(i, k) for k in range(lv.NumMask(i))]

        def f(st, r):
            l = tuple(r[a]) + tuple(r[b])
            r[d] = tuple(l[k] if k >= 0 else UNDEF for k in mk)
        return f

    def i_select(self, i):
        c, a, b, d = (self.op(lv.Operand(i, 0)), self.op(lv.Operand(i, 1)), self.op(lv.Operand(i, 2)), self.dst(i))
        t = self.ty(i)
        e = self.e

        def sel(st, v, x, y, t):
            if v is True:
                return x
            if v is False:
                return y
            if v is UNDEF:
                return UNDEF
            dd = st.dec.get(v.id)
            if dd is not None:
                return x if dd else y
            if x is y:
                return x
            if x is UNDEF or y is UNDEF:
                return x if e.decide(st, v) else y
            if t.kind == 'int' or t.kind == 'ptr':
                w = t.w or 64
                # values that carry fp terms as bits
                if (type(x) is Fraction or type(x) is T and x.sort in ('R', 'F')) or \
                   (type(y) is Fraction or type(y) is T and y.sort in ('R', 'F')):
                    return tm.ite(v, e.tofp(x), e.tofp(y), 'R' if e.real else 'F')
                if w == 1:
                    return tm.ite(v, x, y, 'B')
                if t.kind == 'ptr' and (type(x) is int and type(y) is int and x >> 32 != y >> 32):
                    return x if e.decide(st, v) else y
                return tm.ite(v, x, y, w)
            if t.kind in ('double', 'float', 'x86_fp80'):
                x, y = e.tofp(x), e.tofp(y)
                if e.real and (e.sel_fork or type(x) is float or type(y) is float):
                    return x if e.decide(st, v) else y
                return tm.ite(v, x, y, 'R' if e.real else 'F')
            return x if e.decide(st, v) else y

        def f(st, r):
            v = r[c]
            if type(v) is tuple:
                r[d] = tuple(sel(st, q, x, y, t.el) for q, x, y in zip(v, r[a], r[b]))
            else:
                r[d] = sel(st, v, r[a], r[b], t)
        return f

    i_freeze = _copy

    # ------------------------------------------------------------ calls
    def i_call(self, i):
        return self._call(i, None, None)

    def i_invoke(self, i):
        cont = self.edge(self.cur, lv.NormalDest(i)).go
        ub = lv.UnwindDest(i)
        ue = self.edge(self.cur, ub).go
        # the landing pad's clauses
        j = lv.FirstI(ub)
        while lv.OPC[lv.Opcode(j)] == 'phi':
            j = lv.NextI(j)
        clauses = []
        for k in range(lv.NumClauses(j)):
            c = lv.Clause(j, k)
            t = self.ty(c)
            if t.kind == 'array':
                clauses.append(('filter', [self.e.const(lv.AggEl(c, q)) for q in range(t.n)]))
            else:
                clauses.append(('catch', self.e.const(c)))
        return self._call(i, cont, (clauses, bool(lv.IsCleanup(j)), ue))

    def _call(self, i, cont, unw):
        e = self.e
        t = self.ty(i)
        d = self.dst(i) if t.kind != 'void' else None
        cv = lv.Called(i)
        n = lv.NumArg(i)
        args = []
        k = lv.VK[lv.ValueKind(cv)]
        name = None
        if k == 'func':
            name = self.mod.name(cv)
        elif k == 'alias':
            a = e.const(cv)
            name = e.func_at.get(a)
        ct = (lambda ip: ip)
        here = len(self.ops)
        cont_ip = cont if cont is not None else here + 1

        if name is not None:
            if name.startswith('llvm.'):
                base = name
                for p in ('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.donothing',
                          'llvm.invariant', 'llvm.stackrestore', 'llvm.prefetch', 'llvm.var.annotation'):
                    if name.startswith(p):
                        return (lambda st, r: None) if cont is None else (lambda st, r: cont(st, r))
            args = [self.op(lv.Operand(i, q)) for q in range(n)
                    if lv.VK[lv.ValueKind(lv.Operand(i, q))] not in ('md',)]
            x = e.ext.get(name)
            if x is None and name.startswith('llvm.'):
                parts = name.split('.')
                for q in range(len(parts), 1, -1):
                    x = e.ext.get('.'.join(parts[:q]))
                    if x is not None:
                        break
            if x is not None:
                tys = [self.ty(lv.Operand(i, q)) for q in range(n)]
                e.stub_used.add(name)

                def fx(st, r):
                    v = x(e, st, [r[q] for q in args])
                    if type(v) is Action:
                        if v.kind == 'throw':
                            # make this call the innermost frame for unwinding
                            f = exe.Frame()
                            f.code = st.frames[-1].code
                            f.regs = []
                            f.ip = None
                            f.dst = None
                            f.cont = None
                            f.unw = unw
                            f.allocas = []
                            f.hook = None
                            st.frames.append(f)
                            return THROW
                        if v.kind == 'call':
                            fr = st.frames[-1]
                            e.push(st, v.name, v.args, d, cont_ip, unw, v.hook)
                            return CALL
                        raise Unsupported('action ' + v.kind)
                    if d is not None:
                        r[d] = v
                    if cont is not None:
                        return cont(st, r)
                    return None
                return fx

            def fc(st, r):
                c = e.code(name)
                if c is None:
                    raise Unsupported('call of external function %s (%s)' % (exe.demangle(name), name))
                f = exe.Frame()
                f.code = c
                f.regs = rs = list(c.regs0)
                p = 0
                for q in args:
                    rs[p] = r[q]
                    p += 1
                f.ip = 0
                f.dst = d
                f.cont = cont_ip
                f.unw = unw
                f.allocas = []
                f.hook = None
                st.frames.append(f)
                if len(st.frames) > 3000:
                    raise PathError('stack', 'call depth exceeds 3000 (unbounded recursion)')
                return CALL
            if self.mod.funcs[name] and lv.IsVarArg(lv.FnTy(self.mod.funcs[name])):
                np = lv.CountParams(self.mod.funcs[name])
                if np != len(args):
                    args = args[:np]
            return fc
        if k == 'asm':
            txt = self.mod.text(i)
            if '"=r,0' in txt or '=*m' in txt or 'asm sideeffect ""' in txt:
                return lambda st, r: None

            def fa(st, r):
                raise Unsupported('inline assembly')
            return fa
        fp = self.op(cv)
        args = [self.op(lv.Operand(i, q)) for q in range(n)]

        def fi(st, r):
            a = e.conc_(st, r[fp])
            nm = e.func_at.get(a)
            if nm is None:
                raise PathError('memory', 'call through an invalid function pointer %#x' % a)
            x = e.ext.get(nm)
            if x is not None:
                v = x(e, st, [r[q] for q in args])
                if type(v) is Action:
                    raise Unsupported('indirect call of ' + nm)
                if d is not None:
                    r[d] = v
                return cont(st, r) if cont is not None else None
            e.push(st, nm, [r[q] for q in args], d, cont_ip, unw)
            return CALL
        return fi


for _o in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
    setattr(Compiler, 'i_' + _o, (lambda o: lambda self, i: self._bin(i, o))(_o))
for _o in ('fadd', 'fsub', 'fmul', 'fdiv'):
    setattr(Compiler, 'i_' + _o, (lambda o: lambda self, i: self._fbin(i, o))(_o))
Compiler.i_uitofp = lambda self, i: self._itof(i, False)
Compiler.i_sitofp = lambda self, i: self._itof(i, True)
Compiler.i_fptoui = lambda self, i: self._ftoi(i, False)
Compiler.i_fptosi = lambda self, i: self._ftoi(i, True)


def _fpconv(self, i):
    a, d = self.op(lv.Operand(i, 0)), self.dst(i)
    e = self.e
    src, dst = self.ty(lv.Operand(i, 0)).kind, self.ty(i).kind

    def f(st, r):
        x = r[a]
        if x is not UNDEF:
            x = e.tofp(x)
            if dst == 'float' and type(x) is not T:
                import struct
                try:
                    x = e.tofp(struct.unpack('<f', struct.pack('<f', float(x)))[0])
                except OverflowError:
                    x = math.inf
            elif dst == 'double' and type(x) is Fraction:
                x = Fraction(float(x))
            elif dst == 'float' and not e.real:
                raise Unsupported('symbolic single precision')
        r[d] = x
    return f


Compiler.i_fptrunc = _fpconv
Compiler.i_fpext = _fpconv


class Action(object):
    __slots__ = ('kind', 'name', 'args', 'hook')

    def __init__(self, kind, name=None, args=(), hook=None):
        self.kind = kind
        self.name = name
        self.args = args
        self.hook = hook


class Edge(object):
    __slots__ = ('to', 'moves', 'ip')

    def __init__(self, to, moves):
        self.to = to
        self.moves = moves
        self.ip = None

    def resolve(self, comp):
        self.ip = comp.bstart[self.to]

    def go(self, st, r):
        m = self.moves
        if m:
            if len(m) == 1:
                r[m[0][0]] = r[m[0][1]]
            else:
                vals = [r[s] for _, s in m]
                k = 0
                for d, _ in m:
                    r[d] = vals[k]
                    k += 1
        return self.ip


def fixint(x, w):
    """an integer register may carry a concrete double (bits on demand)"""
    t = type(x)
    if t is Fraction:
        return tm.f2bits(float(x))
    if t is float:
        return tm.f2bits(x)
    if t is T and x.sort in ('R', 'F'):
        if x.op == 'bits2f':
            return x.args[0]
        raise Unsupported('integer operation on the bits of a symbolic floating-point value')
    return x


undefs = 0


def ibin(o, x, y, w):
    if x is UNDEF or y is UNDEF:
        if o in ('and',) and (x == 0 or y == 0):
            return 0
        k = y if x is UNDEF else x
        if o in ('and', 'or') and type(k) is int and w > 1 and k != (1 << w) - 1 and k != 0:
            # a word that is initialised bit by bit
            global undefs
            undefs += 1
            return tm.bv(INTBIN[o], tm.var('undef!%d' % undefs, w), k, w)
        return UNDEF
    if w == 1:
        if o == 'and':
            return tm.band(x, y)
        if o == 'or':
            return tm.bor(x, y)
        if o in ('xor', 'add', 'sub'):
            return tm.bxor(x, y)
        if o == 'mul':
            return tm.band(x, y)
        raise Unsupported('i1 ' + o)
    if type(x) is not int:
        x = fixint(x, w)
    if type(y) is not int:
        y = fixint(y, w)
    return tm.bv(INTBIN[o], x, y, w)


ICMP = {32: ('eq', 0, 0), 33: ('eq', 0, 1), 34: ('ult', 1, 0), 35: ('ule', 1, 0), 36: ('ult', 0, 0),
        37: ('ule', 0, 0), 38: ('slt', 1, 0), 39: ('sle', 1, 0), 40: ('slt', 0, 0), 41: ('sle', 0, 0)}


def icmp(p, x, y, w):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if type(x) is tm.T and x.op == 'bvand' and x.args[0].op == 'var' and str(x.args[0].args[0]).startswith('undef!'):
        return UNDEF
    op, sw, neg = ICMP[p]
    if w == 1:
        if op == 'eq':
            c = tm.beq(x, y)
            return tm.bnot(c) if neg else c
        # unsigned compare of booleans
        if sw:
            x, y = y, x
        if op == 'ult':
            return tm.band(tm.bnot(x), y)
        if op == 'ule':
            return tm.bor(tm.bnot(x), y)
        if op == 'slt':
            return tm.band(x, tm.bnot(y))
        return tm.bor(x, tm.bnot(y))
    if type(x) is not int:
        x = fixint(x, w)
    if type(y) is not int:
        y = fixint(y, w)
    if sw:
        x, y = y, x
    c = tm.bvcmp(op, x, y, w)
    return tm.bnot(c) if neg else c


def trunc(x, w):
    if x is UNDEF:
        return x
    if type(x) is not int:
        if type(x) is bool:
            x = int(x)
        else:
            x = fixint(x, 64)
    if w == 1:
        if type(x) is int:
            return bool(x & 1)
        if x.op == 'ite' and type(x.args[1]) is not T and type(x.args[2]) is not T:
            return tm.ite(x.args[0], bool(x.args[1] & 1), bool(x.args[2] & 1), 'B')
        if x.op == 'zext' and x.args[0].sort == 'B':
            return x.args[0]
        return tm.bvcmp('eq', tm.extract(x, 0, 0), 1, 1)
    if type(x) is int:
        return x & ((1 << w) - 1)
    return tm.extract(x, w - 1, 0)


def zext(x, w0, w):
    if x is UNDEF:
        return x
    if w0 == 1:
        if type(x) is bool:
            return int(x)
        return tm.ite(x, 1, 0, w)
    if type(x) is not int:
        x = fixint(x, w0)
    if type(x) is T and x.op == 'ite' and type(x.args[1]) is not T and type(x.args[2]) is not T:
        return tm.ite(x.args[0], x.args[1], x.args[2], w)
    return tm.zext(x, w0, w)


def sext(x, w0, w):
    if x is UNDEF:
        return x
    if w0 == 1:
        if type(x) is bool:
            return tm.mask(w) if x else 0
        return tm.ite(x, tm.mask(w), 0, w)
    if type(x) is not int:
        x = fixint(x, w0)
    return tm.sext(x, w0, w)
