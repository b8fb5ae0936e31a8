"""Polynomial normal form for real terms over atoms.

A polynomial is a dict {monomial: Fraction}; a monomial is a sorted tuple of
(atom id, exponent) with non-zero integer exponents.  Atoms are variables,
applications of uninterpreted functions to normalised arguments, if-then-else
terms, opaque terms and reciprocal polynomials.  Rules built in (valid for
defined operations over the reals): sqrt(p)^2 = p, exp(p)exp(q) = exp(p+q),
exp(0) = 1.
"""
import time
from fractions import Fraction
from . import terms as tm
from .terms import T

LIMIT = 6000
ONE = {(): Fraction(1)}


class TooBig(Exception):
    pass


class NF(object):
    def __init__(self, limit=LIMIT):
        self.limit = limit
        self.seconds = 0      # for one question, 0 without a limit
        self.deadline = 0
        self.memo = {}
        self.atoms = []       # id -> tuple describing the atom
        self.index = {}

    # ------------------------------------------------------------ atoms
    def atom(self, key):
        i = self.index.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(key)
            self.index[key] = i
        return i

    @staticmethod
    def key(p):
        return tuple(sorted(p.items()))

    # ------------------------------------------------------------ arithmetic
    def add(self, p, q, c=1):
        if len(p) < len(q) and c == 1:
            p, q = q, p
        r = dict(p)
        for m, v in q.items():
            w = r.get(m, 0) + v * c
            if w == 0:
                r.pop(m, None)
            else:
                r[m] = w
        if len(r) > self.limit:
            raise TooBig()
        return r

    def monomul(self, m, n):
        """product of two monomials as a polynomial (rules may expand it)"""
        d = dict(m)
        for a, e in n:
            e2 = d.get(a, 0) + e
            if e2 == 0:
                d.pop(a, None)
            else:
                d[a] = e2
        # exp rule
        exps = [(a, e) for a, e in d.items() if self.atoms[a][0] == 'exp']
        if len(exps) > 1 or (exps and exps[0][1] != 1):
            s = {}
            for a, e in exps:
                s = self.add(s, dict(self.atoms[a][1]), e)
                d.pop(a)
            if s:
                a = self.atom(('exp', self.key(s)))
                d[a] = 1
        # sqrt rule
        extra = None
        for a, e in list(d.items()):
            if self.atoms[a][0] == 'sqrt' and (e >= 2 or e <= -1):
                k = e // 2
                p = dict(self.atoms[a][1])
                pk = self.power(p, k)
                extra = pk if extra is None else self.mul(extra, pk)
                if e - 2 * k:
                    d[a] = e - 2 * k
                else:
                    d.pop(a)
        mono = tuple(sorted(d.items()))
        if extra is None:
            return {mono: Fraction(1)}
        return self.mul({mono: Fraction(1)}, extra)

    def mul(self, p, q):
        if len(p) * len(q) > self.limit * 4:
            raise TooBig()
        r = {}
        if self.deadline and len(p) * len(q) > 100 and time.time() > self.deadline:
            raise TooBig()
        for m, a in p.items():
            for n, b in q.items():
                if not m:
                    it = ((n, 1),)
                elif not n:
                    it = ((m, 1),)
                else:
                    it = self.monomul(m, n).items()
                ab = a * b
                for mm, c in it:
                    w = r.get(mm, 0) + ab * c
                    if w == 0:
                        r.pop(mm, None)
                    else:
                        r[mm] = w
        if len(r) > self.limit:
            raise TooBig()
        return r

    def power(self, p, k):
        if k < 0:
            return self.power(self.inverse(p), -k)
        r = ONE
        for _ in range(k):
            r = self.mul(r, p)
        return r

    def inverse(self, p):
        if not p:
            raise ZeroDivisionError
        if len(p) == 1:
            (m, c), = p.items()
            r = {(): 1 / c}
            for a, e in m:
                k = self.atoms[a][0]
                if k == 'sqrt':
                    # 1/s = s/p
                    q = self.mul({((a, 1),): Fraction(1)},
                                 self.inverse(dict(self.atoms[a][1])))
                    r = self.mul(r, self.power(q, e) if e > 0 else self.power({((a, 1),): Fraction(1)}, -e))
                elif k == 'exp':
                    s = self.add({}, dict(self.atoms[a][1]), -e)
                    r = self.mul(r, {((self.atom(('exp', self.key(s))), 1),): Fraction(1)})
                else:
                    r = self.mul(r, {((a, -e),): Fraction(1)})
            return r
        # factor the monomial content, then normalise the leading coefficient
        common = None
        for m in p:
            d = dict(m)
            if common is None:
                common = dict(d)
            else:
                for a in list(common):
                    e = d.get(a, 0)
                    if common[a] > 0:
                        common[a] = max(0, min(common[a], e))
                    else:
                        common[a] = min(common[a], e)
                    if common[a] == 0:
                        del common[a]
                for a, e in d.items():
                    if e < 0 and a not in common:
                        common[a] = e
        common = {a: e for a, e in (common or {}).items() if self.atoms[a][0] not in ('exp', 'sqrt')}
        if common:
            inv = {tuple(sorted((a, -e) for a, e in common.items())): Fraction(1)}
            q = self.mul(p, inv)
            return self.mul(self.inverse(q), inv)
        k = self.key(p)
        lead = k[-1][1]
        q = {m: c / lead for m, c in p.items()}
        a = self.atom(('poly', self.key(q)))
        return {((a, -1),): 1 / lead}

    # ------------------------------------------------------------ terms
    def of(self, t):
        if type(t) is not T:
            return {(): Fraction(t)} if t != 0 else {}
        r = self.memo.get(t.id)
        if r is not None:
            return r
        for s in tm.subterms([t]):
            if s.sort == 'R' and s.id not in self.memo:
                self.memo[s.id] = self._of(s)
        return self.memo[t.id]

    def opaque(self, t):
        return {((self.atom(('term', t)), 1),): Fraction(1)}

    def _of(self, t):
        op = t.op
        try:
            if op == 'var':
                return {((self.atom(('var', t)), 1),): Fraction(1)}
            if op == 'add':
                return self.add(self.of(t.args[0]), self.of(t.args[1]))
            if op == 'sub':
                return self.add(self.of(t.args[0]), self.of(t.args[1]), -1)
            if op == 'mul':
                return self.mul(self.of(t.args[0]), self.of(t.args[1]))
            if op == 'div':
                q = self.of(t.args[1])
                if not q:
                    return self.opaque(t)
                return self.mul(self.of(t.args[0]), self.inverse(q))
            if op == 'uf':
                name = t.args[0]
                args = [self.of(a) for a in t.args[1:]]
                if name == 'exp':
                    if not args[0]:
                        return ONE
                    return {((self.atom(('exp', self.key(args[0]))), 1),): Fraction(1)}
                if name == 'sqrt':
                    if not args[0]:
                        return {}
                    return {((self.atom(('sqrt', self.key(args[0]))), 1),): Fraction(1)}
                if name == 'log' and args[0] == ONE:
                    return {}
                return {((self.atom(('uf', name) + tuple(self.key(a) for a in args)), 1),): Fraction(1)}
            if op == 'ite':
                c, a, b = t.args
                pa, pb = self.of(a), self.of(b)
                if pa == pb:
                    return pa
                return {((self.atom(('ite', self.ckey(c), self.key(pa), self.key(pb), t)), 1),): Fraction(1)}
        except TooBig:
            pass
        return self.opaque(t)

    def ckey(self, c):
        return c.id

    def expand_polys(self, p):
        """multiply away the reciprocal polynomial atoms (p == 0 iff result
        == 0 when all denominators are non-zero)"""
        for _ in range(40):
            worst = {}
            for m in p:
                for a, e in m:
                    if e < 0 and self.atoms[a][0] == 'poly':
                        worst[a] = min(worst.get(a, 0), e)
            # positive powers of poly atoms are expanded as well
            pos = [a for m in p for a, e in m if e > 0 and self.atoms[a][0] == 'poly']
            if not worst and not pos:
                return p
            if worst:
                a, e = next(iter(worst.items()))
                p = self._scale_atom(p, a, -e)
            else:
                p = self._scale_atom(p, pos[0], 0)
        raise TooBig()

    def _scale_atom(self, p, a, k):
        base = dict(self.atoms[a][1])
        r = {}
        pw = [ONE]
        for m, c in p.items():
            e = 0
            rest = []
            for b, f in m:
                if b == a:
                    e = f
                else:
                    rest.append((b, f))
            n = e + k
            while len(pw) <= n:
                pw.append(self.mul(pw[-1], base))
            self.add_to(r, self.mul({tuple(rest): c}, pw[n]))
            if self.deadline and time.time() > self.deadline:
                raise TooBig()
        return r

    def add_to(self, r, q):
        """r += q in place"""
        for m, v in q.items():
            w = r.get(m, 0) + v
            if w == 0:
                r.pop(m, None)
            else:
                r[m] = w
        if len(r) > self.limit:
            raise TooBig()

    def is_zero(self, t):
        self.deadline = self.seconds and time.time() + self.seconds
        try:
            p = self.of(t)
            if not p:
                return True
            return not self.expand_polys(p)
        except (TooBig, ZeroDivisionError, RecursionError):
            return False


EPS = Fraction(1, 10 ** 11)


def _skeleton(k, out):
    if isinstance(k, Fraction):
        out.append(k)
        return None
    if isinstance(k, tuple):
        return tuple(_skeleton(x, out) for x in k)
    return k


class NFT(NF):
    """normal form that identifies coefficients which agree within a relative
    error of 1e-11 (rounding of constant expressions)"""

    def __init__(self, limit=LIMIT):
        NF.__init__(self, limit)
        self.skel = {}

    def atom(self, key):
        i = self.index.get(key)
        if i is not None:
            return i
        v = []
        s = _skeleton(key, v)
        if v:
            for w, j in self.skel.get(s, ()):
                if all(a == b or abs(a - b) <= EPS * abs(a) for a, b in zip(v, w)):
                    self.index[key] = j
                    return j
        i = len(self.atoms)
        self.atoms.append(key)
        self.index[key] = i
        if v:
            self.skel.setdefault(s, []).append((v, i))
        return i

    def add(self, p, q, c=1):
        if len(p) < len(q) and c == 1:
            p, q = q, p
        r = dict(p)
        for m, v in q.items():
            o = r.get(m, 0)
            w = o + v * c
            if w == 0 or abs(w) <= EPS * abs(o):
                r.pop(m, None)
            else:
                r[m] = w
        if len(r) > self.limit:
            raise TooBig()
        return r

    def add_to(self, r, q):
        for m, v in q.items():
            o = r.get(m, 0)
            w = o + v
            if w == 0 or abs(w) <= EPS * abs(o):
                r.pop(m, None)
            else:
                r[m] = w
        if len(r) > self.limit:
            raise TooBig()

    def _clean(self, r, mag):
        for m in [m for m, v in r.items() if abs(v) <= EPS * mag[m]]:
            del r[m]
        return r

    def mul(self, p, q):
        if len(p) * len(q) > self.limit * 4:
            raise TooBig()
        r = {}
        mag = {}
        if self.deadline and len(p) * len(q) > 100 and time.time() > self.deadline:
            raise TooBig()
        for m, a in p.items():
            for n, b in q.items():
                if not m:
                    it = ((n, 1),)
                elif not n:
                    it = ((m, 1),)
                else:
                    it = self.monomul(m, n).items()
                ab = a * b
                for mm, c in it:
                    r[mm] = r.get(mm, 0) + ab * c
                    mag[mm] = max(mag.get(mm, 0), abs(ab * c))
        self._clean(r, mag)
        if len(r) > self.limit:
            raise TooBig()
        return r

    def same(self, x, y):
        """are two terms equal up to rounding of their coefficients?"""
        self.deadline = self.seconds and time.time() + self.seconds
        try:
            p, q = self.of(x), self.of(y)
            if self._near(p, q):
                return True
            d = self.add(p, q, -1)
            if not d:
                return True
            return not self.expand_polys(d)
        except (TooBig, ZeroDivisionError, RecursionError):
            return False

    def _near(self, p, q):
        return set(p) == set(q) and all(abs(v - q[m]) <= EPS * abs(v) for m, v in p.items())


class Shape(object):
    """Equality up to the order of sums and products, without distribution of
    products over sums: cheap, and enough when two computations differ in
    grouping only. Rules: commutativity, associativity, a/b = a b^-1,
    collection of equal summands and factors, scaling of sums."""

    def __init__(self):
        self.memo = {}
        self.ids = {}
        self.sums = {}

    def id(self, key):
        i = self.ids.get(key)
        if i is None:
            i = self.ids[key] = len(self.ids)
        return i

    def sum_of(self, d):
        """value of a sum {monomial: coefficient}"""
        d = {m: c for m, c in d.items() if c != 0}
        if not d:
            return Fraction(0), ()
        if len(d) == 1:
            (m, c), = d.items()
            return c, m
        ms = sorted(d)
        c = d[ms[0]]
        key = ('sum',) + tuple((m, self.digits(d[m] / c)) for m in ms)
        i = self.id(key)
        self.sums[i] = {m: d[m] / c for m in ms}
        return c, ((i, 1),)

    @staticmethod
    def digits(x):
        """a key of a number to 12 digits: constants of a program are rounded"""
        try:
            f = float(x)
        except OverflowError:
            return x
        return '%.11e' % f if f else x

    @staticmethod
    def close(x, y):
        return x == y or abs(x - y) <= Fraction(1, 10 ** 11) * max(abs(x), abs(y))

    def terms(self, v):
        c, m = v
        if c == 0:
            return {}
        if len(m) == 1 and m[0][1] == 1 and m[0][0] in self.sums:
            return {k: c * x for k, x in self.sums[m[0][0]].items()}
        return {m: c}

    def times(self, v, w, e=1):
        d = dict(v[1])
        for a, k in w[1]:
            k = d.get(a, 0) + e * k
            if k:
                d[a] = k
            else:
                d.pop(a)
        c = v[0] * w[0] if e == 1 else v[0] / w[0]
        return (c, tuple(sorted(d.items()))) if c else (c, ())

    def of(self, t):
        if type(t) is not T:
            return (Fraction(t), ()) if not isinstance(t, (bool, float)) else (Fraction(1), ((self.id(('c', repr(t))), 1),))
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self._of(t)
        return r

    def _of(self, t):
        o, a = t.op, t.args
        if t.sort == 'R':
            if o in ('add', 'sub'):
                d = dict(self.terms(self.of(a[0])))
                for m, c in self.terms(self.of(a[1])).items():
                    if o == 'sub':
                        c = -c
                    b = d.get(m)
                    d[m] = c if b is None else 0 if self.close(b, -c) else b + c
                return self.sum_of(d)
            if o == 'mul':
                return self.times(self.of(a[0]), self.of(a[1]))
            if o == 'div':
                return self.times(self.of(a[0]), self.of(a[1]), -1)
        if o == 'var' or not a:
            k = ('t', t.id)
        elif o in ('lt', 'eq') and any(type(x) is T and x.sort == 'R' for x in a) and not any(isinstance(x, float) for x in a):
            c, m = self.of(tm.rsub(*a))
            k = (o, 'B', (c > 0) - (c < 0) if o == 'lt' or not c else 1, m)
        else:
            k = (o, t.sort) + tuple(self.part(x) for x in a)
        return Fraction(1), ((self.id(k), 1),)

    def part(self, x):
        if type(x) is T:
            c, m = self.of(x)
            return (self.digits(c), m) if x.sort == 'R' else (c, m)
        if isinstance(x, Fraction):
            return self.digits(x), ()
        return x

    def same(self, x, y):
        try:
            x, y = self.of(x), self.of(y)
            return x[1] == y[1] and self.close(x[0], y[0])
        except (ZeroDivisionError, RecursionError, TypeError):
            return False
