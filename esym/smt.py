"""SMT-LIB printing and the in-process feasibility solver."""
from fractions import Fraction
import z3
from . import terms as tm
from .terms import T
from .nf import NF, TooBig

BVOPS = {'bvadd', 'bvsub', 'bvmul', 'bvand', 'bvor', 'bvxor', 'bvshl', 'bvlshr', 'bvashr', 'bvudiv',
         'bvurem', 'bvsdiv', 'bvsrem'}


def rnum(q):
    q = Fraction(q)
    if q.denominator == 1:
        s = '%d.0' % abs(q.numerator)
    else:
        s = '(/ %d.0 %d.0)' % (abs(q.numerator), q.denominator)
    return '(- %s)' % s if q < 0 else s


def sortname(s):
    if s == 'B':
        return 'Bool'
    if s == 'R':
        return 'Real'
    if s == 'F':
        return '(_ FloatingPoint 11 53)'
    return '(_ BitVec %d)' % s


RM = 'RNE'


class Printer(object):
    """prints a set of boolean terms as SMT-LIB2 text"""

    def __init__(self, nf=None, axioms=True):
        self.nf = nf or NF()
        self.axioms = axioms
        self.lines = []
        self.names = {}
        self.vars = {}      # printed name -> T
        self.ufs = {}       # fn -> list of (argnames, name, arg terms)
        self.ufkey = {}
        self.cnt = 0
        self.uses_fp = False
        self.uses_nl = False

    def const(self, v, sort):
        if sort == 'B':
            return 'true' if v else 'false'
        if sort == 'R':
            return rnum(v)
        if sort == 'F':
            return self.ref(tm.fnum(v))
        return '(_ bv%d %d)' % (v, sort)

    def ref(self, t, sort=None):
        if type(t) is not T:
            if sort is None:
                if type(t) is bool:
                    sort = 'B'
                elif isinstance(t, Fraction):
                    sort = 'R'
                elif isinstance(t, float):
                    sort = 'F'
                else:
                    raise ValueError('constant without sort %r' % (t,))
            return self.const(t, sort)
        n = self.names.get(t.id)
        if n is None:
            for s in tm.subterms([t]):
                if s.id not in self.names:
                    self.names[s.id] = self._emit(s)
            n = self.names[t.id]
        return n

    def _def(self, t, body):
        n = 'n%d' % t.id
        self.lines.append('(define-fun %s () %s %s)' % (n, sortname(t.sort), body))
        return n

    def _emit(self, t):
        op, a = t.op, t.args
        if op == 'var':
            n = '|%s|' % a[0]
            if n not in self.vars:
                self.vars[n] = t
                self.lines.append('(declare-const %s %s)' % (n, sortname(t.sort)))
            return n
        if op == 'bvconst':
            return '(_ bv%d %d)' % (a[0], t.sort)
        if op == 'fconst':
            self.uses_fp = True
            b = a[0]
            return '(fp #b%d #b%s #b%s)' % (b >> 63, format((b >> 52) & 0x7ff, '011b'),
                                            format(b & ((1 << 52) - 1), '052b'))
        if op == 'not':
            return self._def(t, '(not %s)' % self.ref(a[0], 'B'))
        if op in ('and', 'or', 'xor'):
            return self._def(t, '(%s %s %s)' % (op, self.ref(a[0], 'B'), self.ref(a[1], 'B')))
        if op == 'ite':
            return self._def(t, '(ite %s %s %s)' % (self.ref(a[0], 'B'), self.ref(a[1], t.sort),
                                                    self.ref(a[2], t.sort)))
        if op == 'eq':
            s = a[0].sort if type(a[0]) is T else a[1].sort
            return self._def(t, '(= %s %s)' % (self.ref(a[0], s), self.ref(a[1], s)))
        if op == 'lt':
            return self._def(t, '(< %s %s)' % (self.ref(a[0], 'R'), self.ref(a[1], 'R')))
        if op in ('add', 'sub', 'mul'):
            if op == 'mul' and type(a[0]) is T and type(a[1]) is T:
                self.uses_nl = True
            return self._def(t, '(%s %s %s)' % ({'add': '+', 'sub': '-', 'mul': '*'}[op],
                                                self.ref(a[0], 'R'), self.ref(a[1], 'R')))
        if op == 'div':
            self.uses_nl = True
            n = 'q%d' % t.id
            self.lines.append('(declare-const %s Real)' % n)
            x, y = self.ref(a[0], 'R'), self.ref(a[1], 'R')
            self.lines.append('(assert (=> (not (= %s 0.0)) (= (* %s %s) %s)))' % (y, n, y, x))
            return n
        if op == 'uf':
            return self._uf(t)
        if op in BVOPS:
            return self._def(t, '(%s %s %s)' % (op, self.ref(a[0], t.sort), self.ref(a[1], t.sort)))
        if op in ('bvult', 'bvule', 'bvslt', 'bvsle'):
            s = a[0].sort if type(a[0]) is T else a[1].sort
            return self._def(t, '(%s %s %s)' % (op, self.ref(a[0], s), self.ref(a[1], s)))
        if op == 'zext':
            return self._def(t, '((_ zero_extend %d) %s)' % (t.sort - a[0].sort, self.ref(a[0])))
        if op == 'sext':
            return self._def(t, '((_ sign_extend %d) %s)' % (t.sort - a[0].sort, self.ref(a[0])))
        if op == 'extract':
            return self._def(t, '((_ extract %d %d) %s)' % (a[1], a[2], self.ref(a[0])))
        if op == 'concat':
            return self._def(t, '(concat %s %s)' % (self.ref(a[0]), self.ref(a[1])))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            self.uses_fp = True
            return self._def(t, '(fp.%s RNE %s %s)' % (op[1:], self.ref(a[0], 'F'), self.ref(a[1], 'F')))
        if op == 'fneg':
            return self._def(t, '(fp.neg %s)' % self.ref(a[0], 'F'))
        if op == 'fabs':
            return self._def(t, '(fp.abs %s)' % self.ref(a[0], 'F'))
        if op == 'fsqrt':
            return self._def(t, '(fp.sqrt RNE %s)' % self.ref(a[0], 'F'))
        if op == 'fuf':
            key = (a[0],) + tuple(self.ref(x, 'F') for x in a[1:])
            n = self.ufkey.get(key)
            if n is None:
                n = 'fu%d' % t.id
                self.lines.append('(declare-const %s %s)' % (n, sortname('F')))
                self.ufkey[key] = n
            return n
        if op in ('feq', 'flt', 'fle'):
            return self._def(t, '(%s %s %s)' % ({'feq': 'fp.eq', 'flt': 'fp.lt', 'fle': 'fp.leq'}[op],
                                                self.ref(a[0], 'F'), self.ref(a[1], 'F')))
        if op == 'fisnan':
            return self._def(t, '(fp.isNaN %s)' % self.ref(a[0], 'F'))
        if op == 'fsame':
            return self._def(t, '(= %s %s)' % (self.ref(a[0], 'F'), self.ref(a[1], 'F')))
        if op == 'bv2f_u':
            self.uses_fp = True
            return self._def(t, '((_ to_fp_unsigned 11 53) RNE %s)' % self.ref(a[0]))
        if op == 'bv2f_s':
            self.uses_fp = True
            return self._def(t, '((_ to_fp 11 53) RNE %s)' % self.ref(a[0]))
        if op == 'bits2f':
            self.uses_fp = True
            return self._def(t, '((_ to_fp 11 53) %s)' % self.ref(a[0]))
        if op == 'bv2r_u':
            return self._def(t, '(to_real (bv2nat %s))' % self.ref(a[0]))
        if op == 'bv2r_s':
            w = a[0].sort
            x = self.ref(a[0])
            return self._def(t, '(to_real (- (bv2nat %s) (ite (= ((_ extract %d %d) %s) #b1) %d 0)))'
                             % (x, w - 1, w - 1, x, 1 << w))
        raise NotImplementedError('print ' + op)

    def _uf(self, t):
        name = t.args[0]
        args = t.args[1:]
        try:
            p = self.nf.of(t)
        except Exception:
            p = None
        key = None
        if p is not None and len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                key = m
        if p is not None and (not p or (len(p) == 1 and () in p)):
            return rnum(p.get((), 0))
        if key is not None and key in self.ufkey:
            return self.ufkey[key]
        n = 'u%d' % t.id
        if key is not None:
            self.ufkey[key] = n
        an = [self.ref(x, 'R') for x in args]
        self.lines.append('(declare-const %s Real)' % n)
        A = self.lines.append
        if self.axioms:
            x = an[0] if an else None
            if name == 'sqrt':
                self.uses_nl = True
                A('(assert (and (>= %s 0.0) (=> (>= %s 0.0) (= (* %s %s) %s)) (=> (> %s 0.0) (> %s 0.0))))'
                  % (n, x, n, n, x, x, n))
            elif name == 'exp':
                A('(assert (and (> %s 0.0) (>= %s (+ 1.0 %s)) (=> (not (= %s 0.0)) (> %s (+ 1.0 %s)))))'
                  % (n, n, x, x, n, x))
                A('(assert (= (< %s 0.0) (< %s 1.0)))' % (x, n))
            elif name == 'log':
                A('(assert (=> (> %s 0.0) (and (<= %s (- %s 1.0)) (= (< %s 1.0) (< %s 0.0)) (= (> %s 1.0) (> %s 0.0)))))'
                  % (x, n, x, x, n, x, n))
            elif name == 'cosh':
                A('(assert (and (>= %s 1.0) (=> (not (= %s 0.0)) (> %s 1.0))))' % (n, x, n))
            elif name == 'erf':
                A('(assert (and (> %s (- 1.0)) (< %s 1.0) (= (< %s 0.0) (< %s 0.0)) (= (> %s 0.0) (> %s 0.0))))'
                  % (n, n, x, n, x, n))
            elif name in ('cos', 'sin', 'tanh'):
                A('(assert (and (>= %s (- 1.0)) (<= %s 1.0)))' % (n, n))
        lst = self.ufs.setdefault(name, [])
        if len(lst) <= 40:
            for (bn, m2, bargs) in lst:
                if name in ('exp', 'log', 'sqrt', 'erf', 'tanh', 'sinh') and self.axioms:
                    A('(assert (and (= (< %s %s) (< %s %s)) (= (= %s %s) (= %s %s))))'
                      % (an[0], bn[0], n, m2, an[0], bn[0], n, m2))
                    if name == 'exp' and self.nf.is_zero(tm.radd(args[0], bargs[0])):
                        A('(assert (= (* %s %s) 1.0))' % (n, m2))
                elif len(bn) == len(an):
                    A('(assert (=> (and %s true) (= %s %s)))'
                      % (' '.join('(= %s %s)' % (u, v) for u, v in zip(an, bn)), n, m2))
        lst.append((an, n, args))
        return n

    def assert_(self, t):
        self.lines.append('(assert %s)' % self.ref(t, 'B'))

    def text(self, getvals=None):
        out = ['(set-option :produce-models true)', '(set-logic ALL)']
        out += self.lines
        return '\n'.join(out) + '\n'


class Feas(object):
    """incremental feasibility checks with a linear abstraction of the real
    part: nonlinear monomials and function applications are free variables (an
    over-approximation, so pruning is sound)"""

    def __init__(self, timeout=2000, nl=False):
        self.nf = NF(limit=400)
        self.ctx = z3.Context()
        self.s = z3.Solver(ctx=self.ctx)
        self.s.set('timeout', timeout)
        self.stack = []
        self.memo = {}
        self.facts = {}
        self.queries = 0
        self.height = {}
        self.monos = {}
        self.nl = nl
        self.time = 0.0
        self.mfacts = {}

    # --- translation
    def z(self, t, sort=None):
        if type(t) is not T:
            if sort == 'B' or type(t) is bool:
                return z3.BoolVal(bool(t), self.ctx)
            if sort == 'R' or isinstance(t, Fraction):
                return z3.RealVal(str(Fraction(t)), self.ctx)
            if sort == 'F' or isinstance(t, float):
                return self.z(tm.fnum(t))
            return z3.BitVecVal(t, sort, self.ctx)
        r = self.memo.get(t.id)
        if r is None:
            # reals are translated through the normal form
            self._walk(t)
            r = self.memo[t.id]
        return r

    def tall(self, t):
        """nested multiplications or very deep terms are not worth bit-blasting
        for pruning"""
        h = self.height
        if t.id not in h:
            stack = [(t, False)]
            while stack:
                x, done = stack.pop()
                if x.id in h:
                    continue
                if done:
                    a = b = 0
                    for y in x.args:
                        if type(y) is T:
                            p, q = h[y.id]
                            a = max(a, p)
                            b = max(b, q)
                    if x.op in ('bvmul', 'bvudiv', 'bvurem', 'bvsdiv', 'bvsrem') and x.sort > 16:
                        y = x.args[1]
                        if type(y) is T or (y & (y - 1)) and not 0 < y < 4096:
                            b += 1
                    h[x.id] = (a + 1, b)
                    continue
                stack.append((x, True))
                for y in x.args:
                    if type(y) is T and y.id not in h:
                        stack.append((y, False))
        a, b = h[t.id]
        return a > 400 or b > 2

    def _walk(self, t):
        stack = [(t, False)]
        while stack:
            x, done = stack.pop()
            if x.id in self.memo:
                continue
            if done:
                self.memo[x.id] = self._tr(x)
                continue
            if x.sort == 'R':
                self.memo[x.id] = self._real(x)
                continue
            if type(x.sort) is int and self.tall(x):
                # abstracted by a free variable (an over-approximation)
                self.memo[x.id] = z3.BitVec('opaque!%d' % x.id, x.sort, self.ctx)
                continue
            stack.append((x, True))
            for a in x.args:
                if type(a) is T and a.id not in self.memo:
                    stack.append((a, False))

    def _mono(self, m):
        v = self.monos.get(m)
        if v is not None:
            return v
        at = self.nf.atoms
        if len(m) == 1 and m[0][1] == 1 and at[m[0][0]][0] == 'var':
            v = z3.Real(at[m[0][0]][1].args[0], self.ctx)
        else:
            v = z3.Real('mono!%d' % len(self.monos), self.ctx)
        self.monos[m] = v
        facts = self.mfacts[m] = []
        pos = strict = True
        for a, e in m:
            k = at[a]
            if k[0] in ('exp', 'sqrt') or (k[0] == 'uf' and k[1] == 'cosh'):
                if k[0] == 'sqrt':
                    strict = False
                continue
            if e % 2 == 0:
                strict = False
                continue
            pos = False
        if pos:
            facts.append((v > 0) if strict else (v >= 0))
        if len(m) == 1 and m[0][1] == 1:
            k = at[m[0][0]]
            if k[0] == 'ite':
                t = k[4]
                facts.append(v == z3.If(self.z(t.args[0], 'B'), self.z(t.args[1], 'R'), self.z(t.args[2], 'R')))
            elif k[0] == 'term' and k[1].op in ('bv2r_u', 'bv2r_s'):
                x = self.z(k[1].args[0])
                facts.append(v == z3.ToReal(z3.BV2Int(x, k[1].op == 'bv2r_s')))
            elif k[0] == 'uf' and k[1] in ('cos', 'sin', 'erf', 'tanh'):
                facts.append(z3.And(v >= -1, v <= 1))
        return v

    def _real(self, t):
        p = self.nf.of(t)
        terms = []
        c0 = Fraction(0)
        for m, c in p.items():
            if not m:
                c0 = c
                continue
            v = self._mono(m)
            terms.append(v if c == 1 else z3.RealVal(str(c), self.ctx) * v)
        terms.append(z3.RealVal(str(c0), self.ctx))
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def _tr(self, t):
        op, a = t.op, t.args
        z = self.z
        if op == 'var':
            if t.sort == 'B':
                return z3.Bool(a[0], self.ctx)
            if t.sort == 'F':
                return z3.FP(a[0], z3.FPSort(11, 53, self.ctx))
            return z3.BitVec(a[0], t.sort, self.ctx)
        if op == 'bvconst':
            return z3.BitVecVal(a[0], t.sort, self.ctx)
        if op == 'fconst':
            return z3.fpBVToFP(z3.BitVecVal(a[0], 64, self.ctx), z3.FPSort(11, 53, self.ctx))
        if op == 'not':
            return z3.Not(z(a[0], 'B'))
        if op == 'and':
            return z3.And(z(a[0], 'B'), z(a[1], 'B'))
        if op == 'or':
            return z3.Or(z(a[0], 'B'), z(a[1], 'B'))
        if op == 'xor':
            return z3.Xor(z(a[0], 'B'), z(a[1], 'B'))
        if op == 'ite':
            return z3.If(z(a[0], 'B'), z(a[1], t.sort), z(a[2], t.sort))
        if op in ('eq', 'bvult', 'bvule', 'bvslt', 'bvsle'):
            s = a[0].sort if type(a[0]) is T else a[1].sort
            x, y = z(a[0], s), z(a[1], s)
            if op == 'eq':
                return x == y
            if op == 'bvult':
                return z3.ULT(x, y)
            if op == 'bvule':
                return z3.ULE(x, y)
            if op == 'bvslt':
                return x < y
            return x <= y
        if op == 'lt':
            return z(a[0], 'R') < z(a[1], 'R')
        if op in BVOPS:
            x, y = z(a[0], t.sort), z(a[1], t.sort)
            return {'bvadd': lambda: x + y, 'bvsub': lambda: x - y, 'bvmul': lambda: x * y,
                    'bvand': lambda: x & y, 'bvor': lambda: x | y, 'bvxor': lambda: x ^ y,
                    'bvshl': lambda: x << y, 'bvlshr': lambda: z3.LShR(x, y), 'bvashr': lambda: x >> y,
                    'bvudiv': lambda: z3.UDiv(x, y), 'bvurem': lambda: z3.URem(x, y),
                    'bvsdiv': lambda: x / y, 'bvsrem': lambda: z3.SRem(x, y)}[op]()
        if op == 'zext':
            return z3.ZeroExt(t.sort - a[0].sort, z(a[0]))
        if op == 'sext':
            return z3.SignExt(t.sort - a[0].sort, z(a[0]))
        if op == 'extract':
            return z3.Extract(a[1], a[2], z(a[0]))
        if op == 'concat':
            return z3.Concat(z(a[0]), z(a[1]))
        if t.sort == 'F' or op in ('feq', 'flt', 'fle', 'fisnan', 'fsame'):
            # abstracted: IEEE terms are not interpreted for pruning
            if t.sort == 'F':
                return z3.FP('fabs!%d' % t.id, z3.FPSort(11, 53, self.ctx))
            return z3.Bool('fpred!%d' % t.id, self.ctx)
        raise NotImplementedError('feas ' + op)

    # --- queries
    def sync(self, pc):
        k = 0
        n = min(len(pc), len(self.stack))
        while k < n and self.stack[k] is pc[k]:
            k += 1
        if len(self.stack) > k:
            self.s.pop(len(self.stack) - k)
            del self.stack[k:]
        for t in pc[k:]:
            self.s.push()
            self._assert(t)
            self.stack.append(t)

    def _assert(self, t):
        self.s.add(self.z(t, 'B'))
        for f in self._facts(t):
            self.s.add(f)

    def _facts(self, t):
        """axioms about the atoms of t"""
        r = self.facts.get(t.id)
        if r is None:
            r = []
            done = set()
            for s in tm.subterms([t]):
                if s.op in ('lt', 'eq'):
                    xs = s.args
                elif s.op == 'ite' and s.sort == 'R':
                    xs = s.args[1:]
                else:
                    continue
                for x in xs:
                    if type(x) is T and x.sort == 'R':
                        self.z(x)
                        for m in self.nf.of(x):
                            if m and m not in done:
                                done.add(m)
                                self._mono(m)
                                r.extend(self.mfacts[m])
            self.facts[t.id] = r
        return r

    def check(self, pc, extra=None):
        import time
        t0 = time.time()
        self.sync(pc)
        self.queries += 1
        if extra is None:
            r = self.s.check()
        else:
            self.s.push()
            self._assert(extra)
            r = self.s.check()
            self.s.pop()
        self.time += time.time() - t0
        return r != z3.unsat

    def values_bv(self, pc, t, limit):
        """all values of a bit-vector term under pc (None if more than limit)"""
        self.sync(pc)
        out = []
        x = self.z(t)
        self.s.push()
        try:
            while True:
                self.queries += 1
                r = self.s.check()
                if r == z3.unsat:
                    return out
                if r != z3.sat:
                    return None
                v = self.s.model().eval(x, model_completion=True).as_long()
                out.append(v)
                if len(out) > limit:
                    return None
                self.s.add(x != v)
        finally:
            self.s.pop()

    def values_trunc(self, pc, t, limit):
        """all values of trunc(t), t real"""
        self.sync(pc)
        out = []
        x = self.z(t, 'R')
        self.s.push()
        try:
            for f in self._facts(tm.mk('lt', 'B', t, Fraction(0))):
                self.s.add(f)
            while True:
                self.queries += 1
                r = self.s.check()
                if r == z3.unsat:
                    return out
                if r != z3.sat:
                    return None
                v = self.s.model().eval(x, model_completion=True)
                if not z3.is_rational_value(v):
                    return None
                q = Fraction(v.numerator_as_long(), v.denominator_as_long())
                k = int(q)   # truncation
                out.append(k)
                if len(out) > limit:
                    return None
                if k > 0:
                    self.s.add(z3.Or(x < k, x >= k + 1))
                elif k < 0:
                    self.s.add(z3.Or(x > k, x <= k - 1))
                else:
                    self.s.add(z3.Or(x <= -1, x >= 1))
        finally:
            self.s.pop()
