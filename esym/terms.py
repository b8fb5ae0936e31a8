"""Hash-consed symbolic terms.

Sorts: 'B' boolean, 'R' mathematical real, 'F' IEEE-754 binary64, or an int w
(bit-vector of w bits).  Constants are plain Python values: bool, Fraction,
float (only for sort F), int (unsigned, masked).
"""
from fractions import Fraction
import math
import struct

_tab = {}
_cnt = [0]


class T(object):
    __slots__ = ('op', 'args', 'sort', 'id')

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError('symbolic term used as a Python bool')


def mk(op, sort, *args):
    key = (op, sort, args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        _cnt[0] += 1
        t.id = _cnt[0]
        _tab[key] = t
    return t


def show(t, depth=6):
    if not isinstance(t, T):
        return str(t)
    if t.op == 'var':
        return t.args[0]
    if depth == 0:
        return '..'
    return '(%s %s)' % (t.op, ' '.join(show(a, depth - 1) for a in t.args))


def var(name, sort):
    return mk('var', sort, name)


def isT(x):
    return type(x) is T


def nonneg(t, depth=200):
    """syntactically non-negative reals: sums and products of squares, roots, ..."""
    if type(t) is not T:
        return t >= 0
    if depth == 0:
        return False
    op = t.op
    if op == 'add':
        return nonneg(t.args[0], depth - 1) and nonneg(t.args[1], depth - 1)
    if op == 'mul':
        return t.args[0] is t.args[1] or nonneg(t.args[0], depth - 1) and nonneg(t.args[1], depth - 1)
    if op == 'div':
        return nonneg(t.args[0], depth - 1) and nonneg(t.args[1], depth - 1)
    if op == 'uf':
        return t.args[0] in ('sqrt', 'exp')
    if op == 'ite':
        return nonneg(t.args[1], depth - 1) and nonneg(t.args[2], depth - 1)
    return False


# ---------------------------------------------------------------- booleans
def bnot(a):
    if type(a) is not T:
        return not a
    if a.op == 'not':
        return a.args[0]
    return mk('not', 'B', a)


def band(a, b):
    if type(a) is not T:
        return b if a else False
    if type(b) is not T:
        return a if b else False
    if a is b:
        return a
    if (a.op == 'not' and a.args[0] is b) or (b.op == 'not' and b.args[0] is a):
        return False
    return mk('and', 'B', a, b)


def bor(a, b):
    if type(a) is not T:
        return True if a else b
    if type(b) is not T:
        return True if b else a
    if a is b:
        return a
    if (a.op == 'not' and a.args[0] is b) or (b.op == 'not' and b.args[0] is a):
        return True
    return mk('or', 'B', a, b)


def bxor(a, b):
    if type(a) is not T:
        return bnot(b) if a else b
    if type(b) is not T:
        return bnot(a) if b else a
    if a is b:
        return False
    return mk('xor', 'B', a, b)


def beq(a, b):
    return bnot(bxor(a, b))


def conj(xs):
    r = True
    for x in xs:
        r = band(r, x)
        if r is False:
            return False
    return r


def ite(c, a, b, sort):
    if type(c) is not T:
        return a if c else b
    if a is b:
        return a
    if type(a) is not T and type(b) is not T and type(a) is type(b) and a == b \
            and sort != 'F':
        return a
    if sort == 'B':
        if a is True and b is False:
            return c
        if a is False and b is True:
            return bnot(c)
        if a is True:
            return bor(c, b)
        if a is False:
            return band(bnot(c), b)
        if b is True:
            return bor(bnot(c), a)
        if b is False:
            return band(c, a)
    if c.op == 'not':
        return ite(c.args[0], b, a, sort)
    if type(a) is T and a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if type(b) is T and b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if sort == 'F':
        a, b = fnum(a), fnum(b)
    elif type(sort) is int and sort > 8:
        # x ^ m on one side only: factor x out
        if type(b) is T and b.op == 'bvxor':
            if b.args[0] is a:
                return bv('bvxor', a, ite(c, 0, b.args[1], sort), sort)
            if b.args[1] is a:
                return bv('bvxor', a, ite(c, 0, b.args[0], sort), sort)
        if type(a) is T and a.op == 'bvxor':
            if a.args[0] is b:
                return bv('bvxor', b, ite(c, a.args[1], 0, sort), sort)
            if a.args[1] is b:
                return bv('bvxor', b, ite(c, a.args[0], 0, sort), sort)
        # narrow values stay narrow
        za = type(a) is T and a.op == 'zext'
        zb = type(b) is T and b.op == 'zext'
        if za and zb and a.args[0].sort == b.args[0].sort:
            return zext(ite(c, a.args[0], b.args[0], a.args[0].sort), a.args[0].sort, sort)
        if za and type(b) is int and b >> a.args[0].sort == 0:
            return zext(ite(c, a.args[0], b, a.args[0].sort), a.args[0].sort, sort)
        if zb and type(a) is int and a >> b.args[0].sort == 0:
            return zext(ite(c, a, b.args[0], b.args[0].sort), b.args[0].sort, sort)
    return mk('ite', sort, c, a, b)


# ---------------------------------------------------------------- reals
ZERO = Fraction(0)
ONE = Fraction(1)


def radd(a, b):
    ta, tb = type(a) is T, type(b) is T
    if not ta:
        if not tb:
            return a + b
        if a == 0:
            return b
        a, b = b, a
        ta, tb = True, False
    if not tb:
        if b == 0:
            return a
        if a.op == 'add' and type(a.args[1]) is not T:
            return radd(a.args[0], a.args[1] + b)
        return mk('add', 'R', a, b)
    return mk('add', 'R', a, b)


def rneg(a):
    if type(a) is not T:
        return -a
    return rmul(Fraction(-1), a)


def rsub(a, b):
    if type(b) is not T:
        return radd(a, -b)
    if a is b:
        return ZERO
    if type(a) is not T and a == 0:
        return rneg(b)
    return mk('sub', 'R', a, b)


def rmul(a, b):
    ta, tb = type(a) is T, type(b) is T
    if not ta:
        if not tb:
            return a * b
        if a == 0:
            return ZERO
        if a == 1:
            return b
        if b.op == 'mul' and type(b.args[0]) is not T:
            return rmul(a * b.args[0], b.args[1])
        return mk('mul', 'R', a, b)
    if not tb:
        return rmul(b, a)
    return mk('mul', 'R', a, b)


def rdiv(a, b):
    if type(b) is not T:
        if b == 0:
            raise ZeroDivisionError
        return rmul(ONE / b, a)
    if type(a) is not T and a == 0:
        return ZERO
    return mk('div', 'R', a, b)


def rlt(a, b):
    if type(a) is not T and type(b) is not T:
        return a < b
    if a is b:
        return False
    return mk('lt', 'B', a, b)


def rle(a, b):
    if type(a) is not T and type(b) is not T:
        return a <= b
    if a is b:
        return True
    return bnot(mk('lt', 'B', b, a))


def req(a, b):
    if type(a) is not T and type(b) is not T:
        return a == b
    if a is b:
        return True
    return mk('eq', 'B', a, b)


# transcendental functions of constants are evaluated to this many digits when
# it is not zero (job option num=), otherwise they stay symbolic
NUM = 0


def numeric(name, x):
    import decimal
    with decimal.localcontext() as c:
        c.prec = NUM + 25
        c.Emax = decimal.MAX_EMAX
        c.Emin = decimal.MIN_EMIN
        D = decimal.Decimal
        v = D(x.numerator) / D(x.denominator)
        if name == 'exp':
            r = v.exp()
        elif name == 'log':
            r = v.ln()
        elif name == 'sqrt':
            r = v.sqrt()
        elif name == 'erf':
            if abs(v) > 15:
                return Fraction(1 if v > 0 else -1)
            c.prec = NUM + 60 + int(v * v)
            t = s = v
            n = 0
            while abs(t) > D(10) ** (-(NUM + 20)):
                n += 1
                t = -t * v * v / n
                s += t / (2 * n + 1)
            # sqrt(pi) from the arctangent formula of Machin
            def at(k):
                u = D(1) / k
                a, p, m = u, u, 1
                while abs(p) > D(10) ** (-c.prec):
                    p = -p / (k * k)
                    m += 2
                    a += p / m
                return a
            r = 2 * s / (16 * at(5) - 4 * at(239)).sqrt()
        else:
            return None
        c.prec = NUM
        return Fraction(+r)


_num = {}


def ruf(name, *args):
    if NUM and len(args) == 1 and isinstance(args[0], Fraction):
        k = (name, args[0])
        if k not in _num:
            _num[k] = numeric(name, args[0])
        if _num[k] is not None:
            return _num[k]
    return mk('uf', 'R', name, *args)


# ---------------------------------------------------------------- bit-vectors
def _s(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def mask(w):
    return (1 << w) - 1


def bv(op, a, b, w):
    m = (1 << w) - 1
    if type(a) is not T and type(b) is not T:
        if op == 'bvadd':
            return (a + b) & m
        if op == 'bvsub':
            return (a - b) & m
        if op == 'bvmul':
            return (a * b) & m
        if op == 'bvand':
            return a & b
        if op == 'bvor':
            return a | b
        if op == 'bvxor':
            return a ^ b
        if op == 'bvshl':
            return (a << b) & m if b < w else 0
        if op == 'bvlshr':
            return a >> b if b < w else 0
        if op == 'bvashr':
            return (_s(a, w) >> min(b, w - 1)) & m
        if op == 'bvudiv':
            return a // b
        if op == 'bvurem':
            return a % b
        if op == 'bvsdiv':
            x, y = _s(a, w), _s(b, w)
            q = abs(x) // abs(y)
            return (q if (x < 0) == (y < 0) else -q) & m
        if op == 'bvsrem':
            x, y = _s(a, w), _s(b, w)
            r = abs(x) % abs(y)
            return (r if x >= 0 else -r) & m
        raise NotImplementedError(op)
    if op in ('bvadd', 'bvor', 'bvxor', 'bvand', 'bvmul') and type(a) is not T:
        a, b = b, a
    if type(b) is not T:
        if b == 0:
            if op in ('bvadd', 'bvsub', 'bvor', 'bvxor', 'bvshl', 'bvlshr',
                      'bvashr'):
                return a
            if op in ('bvand', 'bvmul'):
                return 0
        if b == m:
            if op == 'bvand':
                return a
            if op == 'bvor':
                return m
        if b == 1 and op in ('bvmul', 'bvudiv', 'bvsdiv'):
            return a
        if op == 'bvand':
            if a.op == 'bvand' and type(a.args[1]) is not T:
                return bv(op, a.args[0], a.args[1] & b, w)
            if a.op == 'bvor' and type(a.args[1]) is not T:
                return bv('bvor', bv('bvand', a.args[0], b & ~a.args[1] & m, w), a.args[1] & b, w)
        if op == 'bvor':
            if a.op == 'bvor' and type(a.args[1]) is not T:
                return bv(op, a.args[0], a.args[1] | b, w)
            if a.op == 'bvand' and type(a.args[1]) is not T and a.args[1] & b:
                return bv('bvor', bv('bvand', a.args[0], a.args[1] & ~b & m, w), b, w)
        if op == 'bvlshr' and a.op in ('bvand', 'bvor') and type(a.args[1]) is not T:
            return bv(a.op, bv(op, a.args[0], b, w), a.args[1] >> b if b < w else 0, w)
        if op == 'bvsub':
            op, b = 'bvadd', (-b) & m
        if op == 'bvadd' and a.op == 'bvadd' and type(a.args[1]) is not T:
            return bv('bvadd', a.args[0], (a.args[1] + b) & m, w)
        if a.op == 'zext':
            iw = a.args[0].sort
            if op == 'bvand':
                return zext(bv('bvand', a.args[0], b & mask(iw), iw), iw, w)
            if op in ('bvor', 'bvxor') and b >> iw == 0:
                return zext(bv(op, a.args[0], b, iw), iw, w)
            if op == 'bvlshr':
                return zext(bv(op, a.args[0], b, iw), iw, w) if b < iw else 0
        elif op == 'bvand' and w == 64 and b < 1 << 32:
            return zext(bv('bvand', extract(a, 31, 0), b, 32), 32, w)
        if op in ('bvshl', 'bvlshr') and a.op == op and type(a.args[1]) is not T:
            k = a.args[1] + b
            return bv(op, a.args[0], k, w) if k < w else 0
    else:
        if type(a) is T and a.op == 'zext' and b.op == 'zext' and op in ('bvand', 'bvor', 'bvxor') \
                and a.args[0].sort == b.args[0].sort:
            return zext(bv(op, a.args[0], b.args[0], b.args[0].sort), b.args[0].sort, w)
        if a is b:
            if op in ('bvsub', 'bvxor'):
                return 0
            if op in ('bvand', 'bvor'):
                return a
        if op in ('bvadd', 'bvor', 'bvxor', 'bvand', 'bvmul') and type(a) is T and b.id < a.id:
            a, b = b, a
    return mk(op, w, a, b)


def bvcmp(op, a, b, w):
    """op in eq ult ule slt sle"""
    if type(a) is not T and type(b) is not T:
        if op == 'eq':
            return a == b
        if op == 'ult':
            return a < b
        if op == 'ule':
            return a <= b
        if op == 'slt':
            return _s(a, w) < _s(b, w)
        if op == 'sle':
            return _s(a, w) <= _s(b, w)
    if a is b:
        return op in ('eq', 'ule', 'sle')
    if op == 'eq':
        if type(a) is not T:
            a, b = b, a
        if type(b) is not T:
            if a.op == 'bvadd' and type(a.args[1]) is not T:
                return bvcmp('eq', a.args[0], (b - a.args[1]) & mask(w), w)
            if a.op == 'ite':
                c, x, y = a.args
                if type(x) is not T and type(y) is not T:
                    if x == b:
                        return c if y != b else True
                    return bnot(c) if y == b else False
            if a.op == 'zext':
                iw = a.args[0].sort
                if b >> iw:
                    return False
                return bvcmp('eq', a.args[0], b, iw)
            if a.op == 'sext':
                iw = a.args[0].sort
                lo = b & mask(iw)
                if sext(lo, iw, w) != b:
                    return False
                return bvcmp('eq', a.args[0], lo, iw)
        return mk('eq', 'B', a, b)
    if op == 'ule':
        return bnot(bvcmp('ult', b, a, w))
    if op == 'sle':
        return bnot(bvcmp('slt', b, a, w))
    if op == 'ult':
        if type(b) is not T:
            if b == 0:
                return False
            if b == 1:
                return bvcmp('eq', a, 0, w)
        if type(a) is not T and a == mask(w):
            return False
        if type(a) is not T and a == 0:
            return bnot(bvcmp('eq', b, 0, w))
    return mk('bv' + op, 'B', a, b)


def zext(a, w0, w):
    if type(a) is not T:
        return a
    if w0 == w:
        return a
    if a.op == 'zext':
        return mk('zext', w, a.args[0])
    return mk('zext', w, a)


def sext(a, w0, w):
    if w0 == w:
        return a
    if type(a) is not T:
        return _s(a, w0) & mask(w)
    if a.op == 'zext':
        return mk('zext', w, a.args[0])
    return mk('sext', w, a)


def extract(a, hi, lo):
    w = hi - lo + 1
    if type(a) is not T:
        return (a >> lo) & mask(w)
    if lo == 0 and w == a.sort:
        return a
    if a.op in ('zext', 'sext'):
        iw = a.args[0].sort
        if hi < iw:
            return extract(a.args[0], hi, lo)
        if a.op == 'zext' and lo >= iw:
            return 0
        if lo == 0:
            return (zext if a.op == 'zext' else sext)(a.args[0], iw, w)
    if a.op == 'extract':
        return extract(a.args[0], hi + a.args[2], lo + a.args[2])
    if a.op == 'concat':
        x, y = a.args
        yw = y.sort if type(y) is T else None
        if yw is None:
            yw = a.sort - x.sort
        if hi < yw:
            return extract(y, hi, lo)
        if lo >= yw:
            return extract(x, hi - yw, lo - yw)
    if a.op == 'ite' and type(a.args[1]) is not T and type(a.args[2]) is not T:
        return ite(a.args[0], extract(a.args[1], hi, lo),
                   extract(a.args[2], hi, lo), w)
    if lo == 0 and a.op in ('bvand', 'bvor', 'bvxor', 'bvadd', 'bvmul',
                            'bvsub', 'bvshl'):
        key = (a.id, hi)
        r = _extr.get(key)
        if r is not None:
            return r[0]
        if a.op == 'bvshl':
            if type(a.args[1]) is not T:
                k = a.args[1]
                r = bv('bvshl', extract(a.args[0], hi, 0), k, w) if k < w else 0
            else:
                r = mk('extract', w, a, hi, lo)
        else:
            r = bv(a.op, extract(a.args[0], hi, 0), extract(a.args[1], hi, 0),
                   w)
        _extr[key] = (r, a)
        return r
    return mk('extract', w, a, hi, lo)


_extr = {}


def concat(a, wa, b, wb):
    """a is the high part"""
    if type(a) is not T and type(b) is not T:
        return (a << wb) | b
    if type(a) is not T and a == 0:
        return zext(b, wb, wa + wb)
    if type(a) is T and type(b) is T and a.op == 'extract' \
            and b.op == 'extract' and a.args[0] is b.args[0] \
            and a.args[2] == b.args[1] + 1:
        return extract(a.args[0], a.args[1], b.args[2])
    if type(a) is T and type(b) is T and a.op == 'extract' \
            and a.args[0] is b and a.args[2] == wb:
        return extract(b, a.args[1], 0) if a.args[1] < b.sort else mk('concat', wa + wb, a, b)
    # constants need an explicit width for printing
    if type(a) is not T:
        a = mk('bvconst', wa, a)
    if type(b) is not T:
        b = mk('bvconst', wb, b)
    return mk('concat', wa + wb, a, b)


# ---------------------------------------------------------------- IEEE double
def f2bits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def bits2f(x):
    return struct.unpack('<d', struct.pack('<Q', x))[0]


def fnum(x):
    """hash-consable IEEE constant (keeps -0.0 and nan apart)"""
    if type(x) is T:
        return x
    return mk('fconst', 'F', f2bits(x))


def fop(op, a, b):
    if type(a) is not T and type(b) is not T:
        try:
            if op == 'fadd':
                return a + b
            if op == 'fsub':
                return a - b
            if op == 'fmul':
                return a * b
            if op == 'fdiv':
                if b == 0:
                    if a != a or a == 0:
                        return math.nan
                    return math.copysign(math.inf, a) * math.copysign(1.0, b)
                return a / b
        except OverflowError:
            return math.inf
    return mk(op, 'F', fnum(a), fnum(b))


def fneg(a):
    if type(a) is not T:
        return -a
    return mk('fneg', 'F', a)


def fabs_(a):
    if type(a) is not T:
        return abs(a)
    return mk('fabs', 'F', a)


def fcmp(op, a, b):
    """op in feq flt fle (ordered)"""
    if type(a) is not T and type(b) is not T:
        if op == 'feq':
            return a == b
        if op == 'flt':
            return a < b
        return a <= b
    return mk(op, 'B', fnum(a), fnum(b))


def fisnan(a):
    if type(a) is not T:
        return a != a
    if a.op in ('bv2f_u', 'bv2f_s'):
        return False
    return mk('fisnan', 'B', a)


# ---------------------------------------------------------------- traversal
def subterms(roots):
    seen = set()
    out = []
    stack = [(r, False) for r in roots if type(r) is T]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for a in t.args:
            if type(a) is T and a.id not in seen:
                stack.append((a, False))
    return out


def variables(roots):
    return [t for t in subterms(roots) if t.op == 'var']
