"""Concretisation of refuted obligations. The solvers treat exp, log, sqrt, ...
as functions about which only some facts are known, so that their
counterexamples need not be ones of the true functions. This searches, from
the counterexample, for values of the real variables with which the path
condition is true and the goal false under the true functions. The result is
only a candidate: what is reported is what the real code does with it."""
import math
import random
import time
from fractions import Fraction
from . import terms as tm
from .terms import T

NAN = float('nan')


def _div(a, b):
    return a / b if b else NAN


def _fn(f):
    def g(x):
        try:
            return f(x)
        except OverflowError:
            return math.inf
        except ValueError:
            return NAN
    return g


def _uf(name):
    # the same function as that of the native harnesses
    h = 0.0
    for c in name:
        h = h * 1.37 + ord(c)
    a0, s0 = math.sin(h), 0.3 * math.cos(1.7 * h)

    def g(*x):
        a, s = a0, s0
        for i, v in enumerate(x):
            a += (0.7 + 0.31 * i) * v
            s += 0.05 * (i + 1) * v * v
        try:
            return math.sin(a) + math.exp(-abs(s)) + 0.3 * math.cos(s)
        except (ValueError, OverflowError):
            return NAN
    return g


FUNCS = {'exp', 'log', 'sqrt', 'erf', 'erfc', 'cos', 'sin', 'tan', 'cosh', 'sinh', 'tanh', 'acos', 'asin', 'atan'}
INFIX = {'add': '+', 'sub': '-', 'mul': '*', 'lt': '<', 'eq': '==', 'and': 'and', 'or': 'or', 'xor': '!='}


class Unsupported(Exception):
    pass


def compile_terms(roots, limit=30000):
    env = {'_div': _div, 'math': math}
    lines = []
    vs = []
    names = {}

    def ref(x):
        if type(x) is T:
            return names[x.id]
        if isinstance(x, bool):
            return repr(x)
        try:
            return repr(float(x)) if x >= 0 else '(%r)' % float(x)
        except OverflowError:
            raise Unsupported('constant')
    # post-order
    seen = set()
    stack = [(r, False) for r in roots if type(r) is T]
    while stack:
        t, done = stack.pop()
        if done:
            if t.id in names:
                continue
            n = 'v%d' % t.id
            o = t.op
            if o == 'var':
                vs.append(t)
                names[t.id] = 'x[%d]' % (len(vs) - 1)
                continue
            if t.sort not in ('R', 'B') or any(type(x) is T and x.sort not in ('R', 'B') for x in t.args):
                raise Unsupported(o)
            a = [ref(x) for x in t.args if not isinstance(x, str)]
            if o in INFIX:
                e = (' %s ' % INFIX[o]).join(a)
            elif o == 'div':
                e = '_div(%s, %s)' % tuple(a)
            elif o == 'not':
                e = 'not ' + a[0]
            elif o == 'ite':
                e = '%s if %s else %s' % (a[1], a[0], a[2])
            elif o == 'uf':
                f = t.args[0]
                k = 'f_' + f
                if k not in env:
                    if f in FUNCS:
                        env[k] = _fn(getattr(math, f))
                    elif f.startswith('f_'):
                        env[k] = _uf(f[2:])
                    else:
                        raise Unsupported(f)
                e = '%s(%s)' % (k, ', '.join(a))
            else:
                raise Unsupported(o)
            lines.append('    %s = %s' % (n, e))
            names[t.id] = n
            if len(lines) > limit:
                raise Unsupported('size')
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for x in t.args:
            if type(x) is T and x.id not in seen:
                stack.append((x, False))
    src = 'def ev(x):\n%s\n    return (%s,)\n' % ('\n'.join(lines) or '    pass', ', '.join(ref(r) for r in roots))
    exec(compile(src, 'terms', 'exec'), env)
    return env['ev'], vs


def refine(ob, starts, seconds=4.0, seed=1):
    """an assignment (dictionary) that refutes the obligation, or None"""
    pc = [p for p in ob.pc if isinstance(p, T)]
    eq = (ob.info or {}).get('eq') if ob.info else None
    roots = [ob.goal] + list(eq or ()) + pc
    if not isinstance(ob.goal, T):
        return None
    try:
        ev, vs = compile_terms(roots)
    except (Unsupported, RecursionError, MemoryError, SyntaxError):
        return None
    if not vs or any(v.sort not in ('R', 'B') for v in vs):
        return None
    rng = random.Random(seed)
    k = 3 if eq else 1

    consts = set()
    for t in tm.subterms(roots):
        for x in t.args:
            if type(x) is Fraction and x and abs(x) < 10 ** 12:
                consts.add(float(x))
    consts = sorted(consts)[:400]

    def score(x):
        try:
            r = ev(x)
        except (OverflowError, ZeroDivisionError, TypeError, ValueError):
            return None
        s = sum(1 for p in r[k:] if not p)
        if eq:
            a, b = r[1], r[2]
            if a != a or b != b or math.isinf(a) or math.isinf(b):
                return s + 1.0, 0
            d = abs(a - b) / (1e-9 + 1e-7 * max(abs(a), abs(b)))
            return s + (0.0 if d > 3 else 1 - d / 6), d
        return s + (0.0 if r[0] is False else 1.0), 0

    def draw(v):
        if v.sort == 'B':
            return rng.random() < 0.5
        c = rng.random()
        if c < 0.15 and consts:
            return rng.choice(consts) * (1 + rng.choice((0.0, 0.0, 1e-6, -1e-6, 1e-2, -1e-2)))
        if c < 0.3:
            return float(rng.randint(-6, 6))
        if c < 0.6:
            return rng.uniform(-10, 10)
        return math.copysign(10.0 ** rng.uniform(-9, 9), rng.random() - 0.3)

    def start(m):
        x = []
        for v in vs:
            w = m.get(v.args[0])
            try:
                x.append(bool(w) if v.sort == 'B' else float(w))
            except (TypeError, ValueError, OverflowError):
                x.append(draw(v))
        return x
    t0 = time.time()
    n = len(vs)
    begin = [start(m) for m in starts]
    while time.time() < t0 + seconds:
        x = begin.pop(0) if begin else [draw(v) for v in vs]
        b = score(x)
        if b is None:
            continue
        for it in range(400):
            if b[0] == 0.0:
                return {v.args[0]: (y if v.sort == 'B' else Fraction(y)) for v, y in zip(vs, x)}
            if time.time() > t0 + seconds:
                break
            y = list(x)
            for _ in range(1 if rng.random() < 0.7 else 2):
                i = rng.randrange(n)
                v = vs[i]
                if v.sort == 'B' or rng.random() < 0.4:
                    y[i] = draw(v)
                else:
                    c = rng.random()
                    if c < 0.4:
                        y[i] *= 1 + rng.gauss(0, 1) * 10.0 ** rng.uniform(-4, 0)
                    elif c < 0.7:
                        y[i] *= 10.0 ** rng.uniform(-3, 3)
                    elif c < 0.85:
                        y[i] += rng.gauss(0, 1)
                    else:
                        # next to another variable
                        w = rng.randrange(n)
                        if vs[w].sort == 'R':
                            y[i] = x[w] + (rng.gauss(0, 1) if rng.random() < 0.5 else 0.0)
                if v.sort == 'R' and not abs(y[i]) < 1e15:
                    y[i] = draw(v)
            s = score(y)
            if s is not None and s[0] <= b[0]:
                x, b = y, s
    return None
