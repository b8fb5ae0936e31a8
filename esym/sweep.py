"""Equivalence of large bit-vector terms by sweeping: terms that agree under a
few random assignments are candidate equals; candidates are proved equal by
local SMT queries (cut at a bounded depth, cut points are free variables, so
that unsat is sound) from the inputs upwards and merged."""
import random
import time
import z3
from . import terms as tm
from .terms import T
from .comp import ibin

BV2 = {'bvadd', 'bvsub', 'bvmul', 'bvand', 'bvor', 'bvxor', 'bvshl', 'bvlshr', 'bvashr', 'bvudiv', 'bvurem',
       'bvsdiv', 'bvsrem'}
SUPPORTED = BV2 | {'var', 'bvconst', 'not', 'and', 'or', 'xor', 'ite', 'eq', 'bvult', 'bvule', 'bvslt', 'bvsle',
                   'zext', 'sext', 'extract', 'concat'}
NV = 24
DBG = False


class Sweep(object):
    def __init__(self, seed=1):
        self.rng = random.Random(seed)
        self.val = {}     # term id -> tuple of concrete values
        self.rep = {}     # term id -> representative
        self.keep = []    # keeps terms alive
        self.table = {}   # values -> [terms]
        self.inputs = {}
        self.ctx = z3.Context()
        self.queries = 0
        self.proved = 0
        self.time = 0.0

    # ---- concrete evaluation
    def v(self, x):
        if type(x) is T:
            return self.val[x.id]
        return (x,) * NV

    def evaluate(self, t):
        r = self.val.get(t.id)
        if r is not None:
            return r
        for s in self.order(t, self.val):
            self.val[s.id] = self._ev(s)
            self.keep.append(s)
        return self.val[t.id]

    def order(self, root, done):
        """subterms of root that are not in done, arguments first"""
        out = []
        seen = set()
        stack = [(root, False)]
        while stack:
            t, post = stack.pop()
            if post:
                out.append(t)
                continue
            if t.id in seen or t.id in done:
                continue
            seen.add(t.id)
            stack.append((t, True))
            for x in t.args:
                if type(x) is T and x.id not in seen and x.id not in done:
                    stack.append((x, False))
        return out

    def _ev(self, t):
        op, a = t.op, t.args
        if op == 'var':
            w = 1 if t.sort == 'B' else t.sort
            vs = tuple(self.rng.getrandbits(w) for _ in range(NV))
            if t.sort == 'B':
                vs = tuple(bool(x) for x in vs)
            self.inputs[a[0]] = vs
            return vs
        if op == 'bvconst':
            return (a[0],) * NV
        if op in BV2:
            x, y = self.v(a[0]), self.v(a[1])
            return tuple(self._b2(op, p, q, t.sort) for p, q in zip(x, y))
        if op == 'not':
            return tuple(not p for p in self.v(a[0]))
        if op in ('and', 'or', 'xor'):
            x, y = self.v(a[0]), self.v(a[1])
            f = {'and': lambda p, q: p and q, 'or': lambda p, q: p or q, 'xor': lambda p, q: p != q}[op]
            return tuple(bool(f(p, q)) for p, q in zip(x, y))
        if op == 'ite':
            c, x, y = self.v(a[0]), self.v(a[1]), self.v(a[2])
            return tuple(p if k else q for k, p, q in zip(c, x, y))
        if op in ('eq', 'bvult', 'bvule', 'bvslt', 'bvsle'):
            w = a[0].sort if type(a[0]) is T else a[1].sort
            if w in ('R', 'F'):
                raise KeyError(w)
            x, y = self.v(a[0]), self.v(a[1])
            if w == 'B':
                return tuple(p == q for p, q in zip(x, y))
            o = {'eq': 'eq', 'bvult': 'ult', 'bvule': 'ule', 'bvslt': 'slt', 'bvsle': 'sle'}[op]
            return tuple(tm.bvcmp(o, p, q, w) for p, q in zip(x, y))
        if op == 'zext':
            return self.v(a[0])
        if op == 'sext':
            return tuple(tm.sext(p, a[0].sort, t.sort) for p in self.v(a[0]))
        if op == 'extract':
            return tuple((p >> a[2]) & ((1 << (a[1] - a[2] + 1)) - 1) for p in self.v(a[0]))
        if op == 'concat':
            wb = t.sort - (a[0].sort if type(a[0]) is T else t.sort - a[1].sort)
            return tuple((p << wb) | q for p, q in zip(self.v(a[0]), self.v(a[1])))
        raise KeyError(op)

    def _b2(self, op, p, q, w):
        if op in ('bvudiv', 'bvsdiv') and q == 0:
            return (1 << w) - 1
        if op in ('bvurem', 'bvsrem') and q == 0:
            return p
        return tm.bv(op, p, q, w)

    # ---- rebuilding with representatives
    def r(self, x):
        return self.rep.get(x.id, x) if type(x) is T else x

    def rebuild(self, t):
        op = t.op
        if op in ('var', 'bvconst'):
            return t
        a = tuple(self.r(x) if type(x) is T else x for x in t.args)
        if all(p is q for p, q in zip(a, t.args)):
            return t
        if op in BV2:
            return tm.bv(op, a[0], a[1], t.sort)
        if op == 'not':
            return tm.bnot(a[0])
        if op == 'and':
            return tm.band(a[0], a[1])
        if op == 'or':
            return tm.bor(a[0], a[1])
        if op == 'xor':
            return tm.bxor(a[0], a[1])
        if op == 'ite':
            return tm.ite(a[0], a[1], a[2], t.sort)
        if op in ('eq', 'bvult', 'bvule', 'bvslt', 'bvsle'):
            w = t.args[0].sort if type(t.args[0]) is T else t.args[1].sort
            if w == 'B':
                return tm.beq(a[0], a[1])
            o = {'eq': 'eq', 'bvult': 'ult', 'bvule': 'ule', 'bvslt': 'slt', 'bvsle': 'sle'}[op]
            return tm.bvcmp(o, a[0], a[1], w)
        if op == 'zext':
            return tm.zext(a[0], t.args[0].sort, t.sort)
        if op == 'sext':
            return tm.sext(a[0], t.args[0].sort, t.sort)
        if op == 'extract':
            return tm.extract(a[0], a[1], a[2])
        if op == 'concat':
            wa = t.args[0].sort if type(t.args[0]) is T else t.sort - t.args[1].sort
            return tm.concat(a[0], wa, a[1], t.sort - wa)
        raise KeyError(op)

    def narrow(self, t):
        """zext of the low half when the upper half is provably zero"""
        w = t.sort
        if type(w) is not int or w <= 32 or t.op in ('zext', 'bvconst', 'var'):
            return t
        if max(self.val[t.id]) >> 32 or min(self.val[t.id]) >= 1 << 32:
            return t
        lo = tm.extract(t, 31, 0)
        z = tm.zext(lo, 32, w)
        if z is t or type(lo) is not T:
            return z
        if self.prove(t, z):
            self.evaluate(z)
            return z
        return t

    def canon(self, root):
        """merges the terms below root; returns the representative"""
        for t in self.order(root, self.rep):
            if t.id in self.rep:
                continue
            self.evaluate(t)
            n = self.rebuild(t)
            self.keep.append(t)
            if type(n) is not T:
                self.rep[t.id] = n
                continue
            if n is not t:
                q = self.rep.get(n.id)
                if q is not None:
                    self.rep[t.id] = q
                    continue
                self.evaluate(n)
                self.keep.append(n)
            if n.sort == 'B' or n.op in ('var',):
                self.rep[t.id] = n
                self.rep[n.id] = n
                continue
            m = self.narrow(n)
            key = self.val[n.id]
            if len(set(key)) == 1 and type(m) is T:
                pass
            if type(m) is T:
                base = m.args[0] if m.op == 'zext' else m
                cl = self.table.setdefault(key, [])
                done = False
                for c in cl[:3]:
                    if c is base:
                        done = True
                        break
                    x = self._fit(c, m.sort)
                    if x is m:
                        done = True
                        m = x
                        break
                    if x is not None and self.prove(m, x):
                        m = x
                        done = True
                        break
                if not done:
                    cl.append(base)
            self.rep[t.id] = m
            self.rep[n.id] = m
            if type(m) is T:
                self.evaluate(m)
                self.rep.setdefault(m.id, m)
                self.keep.append(m)
        return self.rep[root.id]

    def _fit(self, c, w):
        if c.sort == w:
            return c
        if c.sort < w:
            return tm.zext(c, c.sort, w)
        return tm.extract(c, w - 1, 0)

    # ---- local proofs
    def prove(self, a, b):
        for d in (7, 14):
            r = self._prove(a, b, d)
            if r is not None:
                return r
        return False

    def _prove(self, a, b, depth):
        t0 = time.time()
        self.queries += 1
        ctx = self.ctx
        dist = {}
        layer = [a, b]
        cut = False
        for k in range(depth + 1):
            nxt = []
            for t in layer:
                if type(t) is not T or t.id in dist:
                    continue
                dist[t.id] = (t, k < depth)
                if k < depth:
                    nxt.extend(t.args)
                elif t.op not in ('var', 'bvconst'):
                    cut = True
            layer = nxt
        memo = {}

        def zz(t, w):
            if type(t) is not T:
                if w == 'B':
                    return z3.BoolVal(bool(t), ctx)
                return z3.BitVecVal(t, w, ctx)
            e = memo.get(t.id)
            if e is not None:
                return e
            _, inside = dist.get(t.id, (t, False))
            if not inside or t.op == 'var':
                e = z3.Bool('v%d' % t.id, ctx) if t.sort == 'B' else z3.BitVec('v%d' % t.id, t.sort, ctx)
            else:
                op, x = t.op, t.args
                if op == 'bvconst':
                    e = z3.BitVecVal(x[0], t.sort, ctx)
                elif op in BV2:
                    p, q = zz(x[0], t.sort), zz(x[1], t.sort)
                    e = {'bvadd': lambda: p + q, 'bvsub': lambda: p - q, 'bvmul': lambda: p * q,
                         'bvand': lambda: p & q, 'bvor': lambda: p | q, 'bvxor': lambda: p ^ q,
                         'bvshl': lambda: p << q, 'bvlshr': lambda: z3.LShR(p, q), 'bvashr': lambda: p >> q,
                         'bvudiv': lambda: z3.UDiv(p, q), 'bvurem': lambda: z3.URem(p, q),
                         'bvsdiv': lambda: p / q, 'bvsrem': lambda: z3.SRem(p, q)}[op]()
                elif op == 'not':
                    e = z3.Not(zz(x[0], 'B'))
                elif op == 'and':
                    e = z3.And(zz(x[0], 'B'), zz(x[1], 'B'))
                elif op == 'or':
                    e = z3.Or(zz(x[0], 'B'), zz(x[1], 'B'))
                elif op == 'xor':
                    e = z3.Xor(zz(x[0], 'B'), zz(x[1], 'B'))
                elif op == 'ite':
                    e = z3.If(zz(x[0], 'B'), zz(x[1], t.sort), zz(x[2], t.sort))
                elif op == 'zext':
                    e = z3.ZeroExt(t.sort - x[0].sort, zz(x[0], x[0].sort))
                elif op == 'sext':
                    e = z3.SignExt(t.sort - x[0].sort, zz(x[0], x[0].sort))
                elif op == 'extract':
                    e = z3.Extract(x[1], x[2], zz(x[0], x[0].sort))
                elif op == 'concat':
                    wa = x[0].sort if type(x[0]) is T else t.sort - x[1].sort
                    e = z3.Concat(zz(x[0], wa), zz(x[1], t.sort - wa))
                else:
                    s = x[0].sort if type(x[0]) is T else x[1].sort
                    p, q = zz(x[0], s), zz(x[1], s)
                    e = {'eq': lambda: p == q, 'bvult': lambda: z3.ULT(p, q), 'bvule': lambda: z3.ULE(p, q),
                         'bvslt': lambda: p < q, 'bvsle': lambda: p <= q}[op]()
            memo[t.id] = e
            return e
        s = z3.SolverFor('QF_BV', ctx=ctx)
        s.set('timeout', 1500)
        w = a.sort if type(a) is T else b.sort
        s.add(zz(a, w) != zz(b, w))
        r = s.check()
        if DBG: print(r, depth, tm.show(a,5), '==', tm.show(b,5), time.time()-t0, flush=True)
        self.time += time.time() - t0
        if r == z3.unsat:
            self.proved += 1
            return True
        if r == z3.sat and not cut:
            return False
        return None

    # ---- decision of a goal
    def decide(self, goal):
        """True (valid), a counterexample (dictionary), or None"""
        for s in self.order(goal, self.val):
            if s.op not in SUPPORTED or s.sort in ('R', 'F'):
                return None
        try:
            vals = self.evaluate(goal)
        except KeyError:
            return None
        if not all(vals):
            k = [i for i, x in enumerate(vals) if not x][0]
            return {n: vs[k] for n, vs in self.inputs.items()}
        c = self.canon(goal)
        if c is True:
            return True
        return None
