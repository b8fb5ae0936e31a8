"""Discharges obligations with a portfolio of SMT solvers (separate processes
with hard time limits)."""
import os
import math
import re
import subprocess
import tempfile
import time
from fractions import Fraction
from . import terms as tm
from .terms import T
from .smt import Printer
from .nf import NFT, Shape

Z3N = 'z3-new'
CVC5 = 'cvc5'
Z3O = '/usr/bin/z3'


def run_solver(cmd, text, timeout):
    fd, path = tempfile.mkstemp(suffix='.smt2', prefix='esym')
    os.write(fd, text.encode())
    os.close(fd)
    t0 = time.time()
    try:
        try:
            p = subprocess.run(cmd + [path], capture_output=True, text=True, timeout=timeout + 2)
            out = p.stdout
        except subprocess.TimeoutExpired:
            out = 'timeout'
        except FileNotFoundError:
            out = 'missing'
    finally:
        os.unlink(path)
    return out, time.time() - t0


def verdict(out):
    first = out.strip().split('\n', 1)[0].strip()
    if first in ('sat', 'unsat'):
        # an error before the verdict makes the answer meaningless
        return first
    return 'unknown'


class Result(object):
    def __init__(self):
        self.verdict = 'unknown'
        self.solver = ''
        self.time = 0.0
        self.queries = 0
        self.model = None
        self.how = ''


def strategies(real, fp, budget):
    if fp:
        return [('z3', [Z3N, '-T:%d' % max(2, budget // 3)], None, budget // 3 + 1),
                ('cvc5', [CVC5, '--produce-models', '--fp-exp', '--tlimit=%d' % (budget * 1000)], None, budget),
                ('z3', [Z3N, '-T:%d' % budget], None, budget)]
    if real:
        return [('z3', [Z3N, '-T:%d' % 4], None, 4),
                ('z3-nlsat', [Z3N, '-T:%d' % 8], '(check-sat-using (then simplify solve-eqs purify-arith qfnra-nlsat))', 8),
                ('cvc5', [CVC5, '--produce-models', '--tlimit=%d' % 8000], None, 8),
                ('z3-old', [Z3O, '-T:%d' % 8], None, 8),
                ('z3', [Z3N, '-T:%d' % budget], None, budget),
                ('cvc5-cov', [CVC5, '--produce-models', '--nl-ext=none', '--nl-cov', '--tlimit=%d' % (budget * 1000)], None, budget)]
    return [('z3', [Z3N, '-T:%d' % max(2, budget // 4)], None, max(2, budget // 4)),
            ('cvc5', [CVC5, '--produce-models', '--tlimit=%d' % (budget * 1000)], None, budget),
            ('z3', [Z3N, '-T:%d' % budget], None, budget)]


def parse_value(s):
    s = s.strip()
    if s in ('true', 'false'):
        return s == 'true'
    if s.startswith('#b'):
        return int(s[2:], 2)
    if s.startswith('#x'):
        return int(s[2:], 16)
    m = re.match(r'\(_ bv(\d+) \d+\)', s)
    if m:
        return int(m.group(1))
    m = re.match(r'\(fp #b(\d) #b(\d+) #(b|x)([0-9a-f]+)\)', s)
    if m:
        mant = int(m.group(4), 2 if m.group(3) == 'b' else 16)
        bits = (int(m.group(1)) << 63) | (int(m.group(2), 2) << 52) | mant
        return tm.bits2f(bits)
    m = re.match(r'\(_ ([-+]?)(zero|oo|NaN) ', s)
    if m:
        v = {'zero': 0.0, 'oo': float('inf'), 'NaN': float('nan')}[m.group(2)]
        return -v if m.group(1) == '-' else v
    return sexpr_num(s)


def tokenize(s):
    return re.findall(r'\(|\)|[^\s()]+', s)


def sexpr_num(s):
    toks = tokenize(s)
    pos = [0]

    def rd():
        t = toks[pos[0]]
        pos[0] += 1
        if t == '(':
            l = []
            while toks[pos[0]] != ')':
                l.append(rd())
            pos[0] += 1
            return l
        return t

    def ev(x):
        if isinstance(x, str):
            x = x.rstrip('?')
            try:
                return Fraction(x)
            except ValueError:
                return None
        if x and x[0] == '-':
            v = [ev(y) for y in x[1:]]
            if None in v:
                return None
            return -v[0] if len(v) == 1 else v[0] - v[1]
        if x and x[0] == '/':
            a, b = ev(x[1]), ev(x[2])
            if a is None or b is None or b == 0:
                return None
            return a / b
        if x and x[0] == '+':
            return sum(ev(y) for y in x[1:])
        if x and x[0] == '*':
            r = Fraction(1)
            for y in x[1:]:
                r *= ev(y)
            return r
        return None
    try:
        return ev(rd())
    except Exception:
        return None


def parse_model(out):
    """((|a| v) (|b| v)...)"""
    i = out.find('\n')
    body = out[i + 1:]
    vals = {}
    # split top-level pairs
    depth = 0
    cur = ''
    inbar = False
    for ch in body:
        if ch == '|':
            inbar = not inbar
        if not inbar:
            if ch == '(':
                depth += 1
                if depth == 2:
                    cur = ''
                    continue
            elif ch == ')':
                depth -= 1
                if depth == 1:
                    m = re.match(r'\s*(\|[^|]*\||\S+)\s+(.*)$', cur, re.S)
                    if m:
                        vals[m.group(1)] = parse_value(m.group(2))
                    cur = ''
                    continue
                if depth == 0:
                    break
        if depth >= 2:
            cur += ch
    return vals


def printer_for(asserts, nf=None):
    pr = Printer(nf)
    for a in asserts:
        pr.assert_(a)
    return pr


def query(asserts, nf=None, budget=20, extra_lines=(), want_model=True, only=None):
    """satisfiability of a conjunction"""
    r = Result()
    t0 = time.time()
    asserts = [a for a in asserts if a is not True]
    if any(a is False for a in asserts):
        r.verdict = 'unsat'
        r.how = 'constant'
        return r
    if not asserts:
        r.verdict = 'sat'
        r.how = 'constant'
        r.model = {}
        return r
    pr = printer_for(asserts, nf)
    sorts = {t.sort for t in tm.subterms(asserts)}
    real = 'R' in sorts
    text = pr.text() + '\n'.join(extra_lines) + '\n'
    names = sorted(pr.vars)
    gv = '(get-value (%s))\n' % ' '.join(names) if names and want_model else ''
    if real:
        text = '(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 20)\n' + text
    for k, (nm, cmd, cs, tmo) in enumerate(strategies(real, pr.uses_fp or 'F' in sorts, budget)):
        if only is not None and k not in only:
            continue
        t = text
        if cmd[0] == CVC5 or cmd[0] == Z3O:
            t = t.replace('(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 20)\n', '')
        out, dt = run_solver(cmd, t + (cs or '(check-sat)') + '\n' + gv, tmo)
        r.queries += 1
        v = verdict(out)
        if '(error' in out and not (v == 'unsat' and out.strip().split('\n', 1)[0] == 'unsat'):
            if v != 'sat':
                v = 'unknown'
        if v != 'unknown':
            r.verdict = v
            r.solver = nm
            if v == 'sat':
                r.model = {n: x for n, x in ((n.strip('|'), x) for n, x in parse_model(out).items())}
            break
    r.time = time.time() - t0
    return r


def slice_pc(pc, goal):
    """conjuncts of the path condition connected to the goal by variables"""
    if goal is False:
        return list(pc)
    cache = {}

    def vs(t):
        r = cache.get(t.id)
        if r is None:
            r = cache[t.id] = frozenset(v.id for v in tm.variables([t]))
        return r
    want = set(vs(goal)) if isinstance(goal, T) else set()
    rest = [p for p in pc if isinstance(p, T)]
    out = []
    changed = True
    while changed:
        changed = False
        keep = []
        for p in rest:
            if vs(p) & want:
                out.append(p)
                want |= vs(p)
                changed = True
            else:
                keep.append(p)
        rest = keep
    return out


def bv_max(t, depth=12):
    """an upper bound of a bit-vector term"""
    if type(t) is not T:
        return int(t)
    if depth == 0 or t.sort == 'B':
        return (1 << (1 if t.sort == 'B' else t.sort)) - 1
    depth -= 1
    m = (1 << t.sort) - 1
    o, x = t.op, t.args
    if o == 'zext':
        return bv_max(x[0], depth)
    if o == 'bvlshr' and type(x[1]) is not T:
        return bv_max(x[0], depth) >> x[1]
    if o == 'bvand':
        return min(bv_max(x[0], depth), bv_max(x[1], depth))
    if o == 'ite':
        return max(bv_max(x[1], depth), bv_max(x[2], depth))
    if o in ('bvor', 'bvxor'):
        return min(m, (1 << max(bv_max(x[0], depth).bit_length(), bv_max(x[1], depth).bit_length())) - 1)
    if o == 'bvadd':
        return min(m, bv_max(x[0], depth) + bv_max(x[1], depth))
    if o == 'bvmul':
        return min(m, bv_max(x[0], depth) * bv_max(x[1], depth))
    if o == 'bvudiv' and type(x[1]) is not T and x[1]:
        return bv_max(x[0], depth) // x[1]
    if o == 'bvurem' and type(x[1]) is not T and x[1]:
        return min(bv_max(x[0], depth), x[1] - 1)
    if o == 'bvshl' and type(x[1]) is not T:
        return min(m, bv_max(x[0], depth) << x[1])
    if o == 'extract':
        k = bv_max(x[0], depth)
        return min(m, k >> x[2])
    return m


def fp_bounds(t, memo):
    """bounds of an IEEE term by interval arithmetic with the same rounding
    (rounding to nearest is monotonic), or None"""
    if type(t) is not T:
        return (t, t) if t == t else None
    r = memo.get(t.id, 0)
    if r != 0:
        return r
    r = None
    if t.op == 'fconst':
        v = tm.bits2f(t.args[0])
        r = (v, v) if v == v and abs(v) < 1e300 else None
    elif t.op == 'bv2f_u':
        r = (0.0, float(bv_max(t.args[0])))
    elif t.op in ('fadd', 'fsub', 'fmul', 'fdiv'):
        a, b = fp_bounds(t.args[0], memo), fp_bounds(t.args[1], memo)
        if a and b and not (t.op == 'fdiv' and b[0] <= 0.0 <= b[1]):
            c = [tm.fop(t.op, x, y) for x in a for y in b]
            if all(x == x and abs(x) < 1e300 for x in c):
                r = (min(c), max(c))
    elif t.op == 'fneg':
        a = fp_bounds(t.args[0], memo)
        r = a and (-a[1], -a[0])
    memo[t.id] = r
    return r


def fp_abstract(g):
    """replaces the bounded IEEE operands of comparisons by free variables with
    their bounds; None when nothing can be replaced"""
    memo = {}
    facts = []
    new = {}

    def leaf(x):
        if type(x) is not T or x.op in ('fconst', 'var'):
            return x
        b = fp_bounds(x, memo)
        if b is None:
            return x
        v = new.get(x.id)
        if v is None:
            v = new[x.id] = tm.var('fp!%d' % x.id, 'F')
            facts.append(tm.fcmp('fle', b[0], v))
            facts.append(tm.fcmp('fle', v, b[1]))
        return v

    def walk(t):
        if type(t) is not T:
            return t
        if t.op in ('feq', 'flt', 'fle'):
            return tm.fcmp(t.op, leaf(t.args[0]), leaf(t.args[1]))
        if t.op == 'not':
            return tm.bnot(walk(t.args[0]))
        if t.op == 'and':
            return tm.band(walk(t.args[0]), walk(t.args[1]))
        if t.op == 'or':
            return tm.bor(walk(t.args[0]), walk(t.args[1]))
        return t
    g2 = walk(g)
    return (g2, facts) if facts else None


def real_abstract(g):
    """replaces conversions of large words to reals by bounded free reals"""
    hit = [t for t in tm.subterms([g]) if t.op == 'bv2r_u' and type(t.args[0]) is T and t.args[0].op not in ('var',)]
    if not hit or any(t.sort == 'F' for t in tm.subterms([g])):
        return None
    new = {}
    facts = []
    for t in hit:
        v = new[t.id] = tm.var('word!%d' % t.id, 'R')
        facts.append(tm.rle(Fraction(0), v))
        facts.append(tm.rle(v, Fraction(bv_max(t.args[0]))))
    memo = {}
    for t in tm.subterms([g]):
        if t.id in new:
            memo[t.id] = new[t.id]
            continue
        a = [memo.get(x.id, x) if type(x) is T else x for x in t.args]
        memo[t.id] = t if all(x is y for x, y in zip(a, t.args)) else tm.mk(t.op, t.sort, *a)
    return memo[g.id], facts


def specialise(pc, x, y):
    """x and y with the values that the path condition gives to their parts, or None"""
    fixed = {}
    for p in pc:
        if isinstance(p, T) and p.op == 'eq':
            a, b = p.args
            if type(a) is not T:
                a, b = b, a
            if type(a) is T and type(b) is not T and isinstance(b, (int, Fraction)) and not isinstance(b, bool):
                fixed[a.id] = b
            elif type(a) is T and type(b) is T and a.sort == b.sort and a.op == 'var' and b.op == 'var':
                if a.id < b.id:
                    a, b = b, a
                fixed.setdefault(a.id, b)
    roots = [t for t in (x, y) if type(t) is T]
    if not fixed or not any(t.id in fixed for t in tm.subterms(roots)):
        return None
    R = {'add': tm.radd, 'sub': tm.rsub, 'mul': tm.rmul, 'div': tm.rdiv, 'lt': tm.rlt, 'not': tm.bnot, 'and': tm.band, 'or': tm.bor}
    memo = {}
    for t in tm.subterms(roots):
        if t.id in fixed:
            memo[t.id] = fixed[t.id]
            continue
        a = [memo.get(z.id, z) if type(z) is T else z for z in t.args]
        if all(z is w for z, w in zip(a, t.args)):
            continue
        o = t.op
        if o in R and not (o in ('lt',) and any(type(z) is int for z in a)):
            r = R[o](*a)
        elif o == 'zext':
            r = tm.zext(a[0], t.args[0].sort, t.sort)
        elif o == 'bv2r_u' and type(a[0]) is int:
            r = Fraction(a[0])
        elif o == 'bv2r_s' and type(a[0]) is int:
            r = Fraction(tm._s(a[0], t.args[0].sort))
        elif o == 'uf':
            r = tm.ruf(*a)
        elif o == 'ite':
            r = tm.ite(a[0], a[1], a[2], t.sort)
        elif o == 'eq' and t.args[0].sort == 'R':
            r = tm.req(*a)
        elif o.startswith('bv') and o not in ('bv2r_u', 'bv2r_s') and t.sort != 'B' and len(a) == 2:
            r = tm.bv(o, a[0], a[1], t.sort)
        else:
            return None
        memo[t.id] = r
    return [memo.get(t.id, t) if type(t) is T else t for t in (x, y)]


def discharge(ob, nf, budget=20, sweep=None):
    """returns Result; verdict 'unsat' = the obligation holds"""
    r = Result()
    g = ob.goal
    if g is True:
        r.verdict, r.how = 'unsat', 'constant'
        return r
    if isinstance(g, T) and ob.info and 'eq' in ob.info:
        x, y = ob.info['eq']
        if not hasattr(nf, 'shape'):
            nf.shape = Shape()
        if nf.shape.same(x, y):
            r.verdict, r.how = 'unsat', 'normal form'
            return r
        if nf.is_zero(tm.rsub(x, y)):
            r.verdict, r.how = 'unsat', 'normal form'
            return r
        if not hasattr(nf, 'tolerant'):
            nf.tolerant = NFT(nf.limit)
            nf.tolerant.seconds = nf.seconds
        if nf.tolerant.same(x, y):
            r.verdict, r.how = 'unsat', 'normal form'
            return r
        try:
            xy = specialise(ob.pc, x, y)
        except ZeroDivisionError:
            xy = None
        if xy is not None and (nf.shape.same(*xy) or nf.tolerant.same(*xy)):
            r.verdict, r.how = 'unsat', 'normal form'
            return r
    if isinstance(g, T):
        fa = fp_abstract(g) or real_abstract(g)
        if fa is not None:
            q = query([tm.bnot(fa[0])] + fa[1], nf, budget=5, want_model=False)
            r.queries += q.queries
            r.time += q.time
            if q.verdict == 'unsat':
                r.verdict, r.how, r.solver = 'unsat', 'smt', q.solver
                return r
    if sweep is not None and isinstance(g, T) and g.op == 'eq':
        n0, t0 = sweep.queries, time.time()
        c = sweep.decide(g)
        r.queries += sweep.queries - n0
        r.time += time.time() - t0
        if c is True:
            r.verdict, r.how = 'unsat', 'sweep'
            return r
        if c is not None and not [p for p in ob.pc if isinstance(p, T)]:
            r.verdict, r.how, r.model = 'sat', 'sweep', c
            return r
    ng = tm.bnot(g)
    if ng is not True and isinstance(ng, T):
        # without the path condition first: most goals do not need it
        sl = slice_pc(ob.pc, ng)
        if len(sl) > 3:
            q = query([ng], nf, budget=min(5, budget), want_model=False, only=(0,))
            r.queries += q.queries
            r.time += q.time
            if q.verdict == 'unsat':
                r.verdict, r.how, r.solver = 'unsat', 'smt', q.solver
                return r
        q = query(sl + [ng], nf, budget)
    else:
        q = query(list(ob.pc), nf, budget)
    r.queries += q.queries
    r.time += q.time
    r.verdict = q.verdict
    r.solver = q.solver
    r.how = 'smt'
    r.model = q.model
    return r


def models(ob, nf, budget=10):
    """candidate counterexample models, nicest first"""
    ng = tm.bnot(ob.goal)
    base = [p for p in ob.pc if isinstance(p, T)]
    if isinstance(ng, T):
        base.append(ng)
    out = []
    rv = [v for v in tm.variables(base) if v.sort == 'R']
    for lo, hi, margin in ((-10, 10, Fraction(1, 10)), (-1000, 1000, Fraction(1, 1000)), (-10, 10, None), (None, None, None)):
        cons = list(base)
        if lo is not None:
            if not rv:
                continue
            for v in rv:
                cons.append(tm.rle(Fraction(lo), v))
                cons.append(tm.rle(v, Fraction(hi)))
        if margin is not None:
            if not (ob.info and 'eq' in ob.info):
                continue
            x, y = ob.info['eq']
            d = tm.rsub(x, y)
            cons.append(tm.bor(tm.rlt(margin, d), tm.rlt(d, -margin)))
        q = query(cons, nf, budget)
        if q.verdict == 'sat' and q.model is not None:
            out.append(q.model)
            if len(out) >= 3:
                break
    return out


def number(t, model, memo):
    """the value of a real or boolean term under a model, with the true transcendental functions; None if unknown"""
    if type(t) is not T:
        return t
    if t.id in memo:
        return memo[t.id]
    r = None
    o = t.op
    try:
        if o == 'var':
            r = model.get(t.args[0])
            if t.sort == 'R' and r is not None:
                r = Fraction(r)
        elif o == 'ite':
            c = number(t.args[0], model, memo)
            if c is not None:
                r = number(t.args[1] if c else t.args[2], model, memo)
        elif o in ('add', 'sub', 'mul', 'div', 'lt', 'eq', 'not', 'and', 'or', 'xor'):
            v = [number(x, model, memo) for x in t.args]
            if None not in v:
                if o == 'add':
                    r = v[0] + v[1]
                elif o == 'sub':
                    r = v[0] - v[1]
                elif o == 'mul':
                    r = v[0] * v[1]
                elif o == 'div':
                    r = v[0] / v[1]
                elif o == 'lt':
                    r = v[0] < v[1]
                elif o == 'eq':
                    r = v[0] == v[1]
                elif o == 'not':
                    r = not v[0]
                elif o == 'and':
                    r = all(v)
                elif o == 'or':
                    r = any(v)
                else:
                    r = v[0] != v[1]
                if isinstance(r, Fraction) and r.denominator.bit_length() > 4000:
                    r = Fraction(float(r))
        elif o == 'uf' and len(t.args) == 2:
            x = number(t.args[1], model, memo)
            f = getattr(math, t.args[0], None)
            if x is not None and f is not None:
                r = Fraction(f(float(x)))
    except (ValueError, OverflowError, ZeroDivisionError, ArithmeticError):
        r = None
    memo[t.id] = r
    return r


def function_table(model, applied):
    """values of the arbitrary functions (vs_obj) under a model: {'@0': 'name n x.. value', ..}"""
    out = {}
    memo = {}
    for sym, (name, args) in applied.items():
        v = model.get(sym)
        if v is None or not args:
            continue
        xs = [number(x, model, memo) for x in args]
        if None in xs:
            continue
        try:
            row = [repr(float(x)) for x in xs] + [repr(float(v))]
        except OverflowError:
            continue
        out['@%d' % len(out)] = '%s %d %s' % (name, len(xs), ' '.join(row))
        if len(out) >= 400:
            break
    return out
