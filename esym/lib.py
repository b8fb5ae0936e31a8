"""Environment of the symbolic executor: intrinsics of the harnesses (vs_*),
run-time support and mathematical functions."""
import math
import re
import struct
from fractions import Fraction
from . import terms as tm
from .terms import T
from . import exe
from .exe import UNDEF, PathError, Unsupported, Stop, OFFM
from .comp import Action, ibin

F0 = Fraction(0)


def install(eng):
    X = eng.ext
    eng.stub_used = set()

    def reg(*names):
        def d(f):
            for n in names:
                X[n] = f
            return f
        return d

    # ------------------------------------------------------------ intrinsics
    def fresh(e, st, name, sort):
        k = st.names.get(name, 0)
        st.names[name] = k + 1
        full = name if k == 0 else '%s#%d' % (name, k)
        v = tm.var(full, sort)
        st.inputs.append((full, v))
        return v

    eng.fresh = fresh

    def sname(e, st, p):
        return e.cstr(st, p)

    @reg('vs_real', 'vs_real_in')
    def vs_real(e, st, a):
        return fresh(e, st, sname(e, st, a[0]), 'R' if e.real else 'F')

    @reg('vs_word')
    def vs_word(e, st, a):
        b = a[1]
        v = fresh(e, st, sname(e, st, a[0]), b)
        return tm.zext(v, b, 64)

    @reg('vs_int')
    def vs_int(e, st, a):
        lo, hi = tm._s(a[1], 64), tm._s(a[2], 64)
        v = fresh(e, st, sname(e, st, a[0]), 64)
        if lo == hi:
            st.pc.append(tm.bvcmp('eq', v, lo & exe.M64, 64))
            return lo & exe.M64
        st.pc.append(tm.bvcmp('sle', lo & exe.M64, v, 64))
        st.pc.append(tm.bvcmp('sle', v, hi & exe.M64, 64))
        return v

    @reg('vs_concrete')
    def vs_concrete(e, st, a):
        return e.conc_(st, a[0], 4096)

    @reg('vs_param')
    def vs_param(e, st, a):
        return e.params[a[0]] & exe.M64

    @reg('vs_symbolic')
    def vs_symbolic(e, st, a):
        return 1

    @reg('vs_assume')
    def vs_assume(e, st, a):
        c = tobool(a[0])
        if c is UNDEF:
            raise PathError('uninitialised', 'assumption on an uninitialised value')
        if c is True:
            return None
        if c is False or not e.feas.check(st.pc, c):
            raise Stop('assume')
        st.pc.append(c)
        e.note(st, c, True)
        return None

    @reg('vs_decide')
    def vs_decide(e, st, a):
        return e.decide(st, tobool(a[0]))

    @reg('vs_stop')
    def vs_stop(e, st, a):
        raise Stop('stop')

    @reg('vs_assert')
    def vs_assert(e, st, a):
        c = tobool(a[0])
        if c is UNDEF:
            raise PathError('uninitialised', 'assertion on an uninitialised value')
        e.oblige(st, c, sname(e, st, a[1]))
        return None

    @reg('vs_assert_eq')
    def vs_assert_eq(e, st, a):
        x, y = a[0], a[1]
        lab = sname(e, st, a[2])
        if x is UNDEF or y is UNDEF:
            raise PathError('uninitialised', 'assertion on an uninitialised value: ' + lab)
        x, y = e.tofp(x), e.tofp(y)
        if e.real:
            if type(x) is float or type(y) is float:
                ok = type(x) is float and type(y) is float and (x == y or (x != x and y != y))
                e.oblige(st, ok, lab)
                return None
            if type(x) is Fraction and type(y) is Fraction and x != y:
                # decimal constants are rounded to doubles
                e.oblige(st, abs(x - y) * 10 ** 11 <= max(abs(x), abs(y)), lab)
                return None
            e.oblige(st, tm.req(x, y), lab, {'eq': (x, y)})
        else:
            if type(x) is not T and type(y) is not T:
                e.oblige(st, x == y or (x != x and y != y), lab)
            elif x is y:
                e.oblige(st, True, lab)
            else:
                e.oblige(st, tm.mk('fsame', 'B', tm.fnum(x), tm.fnum(y)), lab)
        return None

    @reg('vs_assert_word')
    def vs_assert_word(e, st, a):
        if a[0] is UNDEF or a[1] is UNDEF:
            raise PathError('uninitialised', 'assertion on an uninitialised value')
        e.oblige(st, tm.bvcmp('eq', a[0], a[1], 64), sname(e, st, a[2]))
        return None

    @reg('vs_reach')
    def vs_reach(e, st, a):
        lab = sname(e, st, a[0])
        r = e.reach.setdefault(lab, [0, None])
        r[0] += 1
        if r[1] is None or len(r) < 6:
            w = (list(st.pc), list(st.inputs))
            if r[1] is None:
                r[1] = w
            else:
                r.append(w)
        return None

    @reg('vs_uf')
    def vs_uf(e, st, a):
        name = sname(e, st, a[0])
        n = a[1]
        args = [e.tofp(e.load(st, a[2] + 8 * i, 8)) for i in range(n)]
        if not e.real:
            return tm.mk('fuf', 'F', 'f_' + name, *[tm.fnum(x) for x in args])
        if any(type(x) is float for x in args):
            raise Unsupported('uninterpreted function of a non-finite argument')
        return tm.ruf('f_' + name, *args)

    @reg('vs_obj')
    def vs_obj(e, st, a):
        # an arbitrary function of its arguments: one symbol for each tuple of
        # arguments, where equal normal forms are equal arguments
        name = sname(e, st, a[0])
        args = [e.tofp(e.load(st, a[2] + 8 * i, 8)) for i in range(a[1])]
        if any(type(x) is float for x in args):
            raise Unsupported('function of a non-finite argument')
        from .nf import NF, TooBig
        if not hasattr(e, 'obj_nf'):
            e.obj_nf = NF(limit=20000)
            e.obj_names = {}
            e.obj_memo = {}
            e.obj_args = {}
        raw = (name,) + tuple(x.id if type(x) is T else ('c', x) for x in args)
        v = e.obj_memo.get(raw)
        if v is None:
            try:
                k = (name,) + tuple(NF.key(e.obj_nf.of(x)) for x in args)
            except TooBig:
                raise Unsupported('function of a large expression')
            v = e.obj_names.get(k)
            if v is None:
                v = e.obj_names[k] = tm.var('f!%s!%d' % (name, len(e.obj_names)), 'R')
                e.obj_args[v.args[0]] = (name, args)
            e.obj_memo[raw] = v
        return v

    @reg('vs_trace')
    def vs_trace(e, st, a):
        print('TRACE', sname(e, st, a[0]), [show(x) for x in a[1:]])
        return None

    def show(x):
        if type(x) is Fraction:
            return float(x)
        return x

    @reg('vs_forget_pc')
    def vs_forget_pc(e, st, a):
        return None

    @reg('vs_is_const')
    def vs_is_const(e, st, a):
        return type(a[0]) is not T

    # ---- number tokens in text streams
    @reg('vs_tok_write')
    def vs_tok_write(e, st, a):
        st.toks.append((e.tofp(a[0]) if a[0] is not UNDEF else UNDEF, a[1], a[2], a[3]))
        return len(st.toks) - 1

    @reg('vs_tok_value')
    def vs_tok_value(e, st, a):
        return st.toks[a[0]][0]

    @reg('vs_tok_prec')
    def vs_tok_prec(e, st, a):
        return st.toks[a[0]][1]

    @reg('vs_tok_flags')
    def vs_tok_flags(e, st, a):
        return st.toks[a[0]][2]

    @reg('vs_tok_width')
    def vs_tok_width(e, st, a):
        return st.toks[a[0]][3]

    @reg('vs_text_double')
    def vs_text_double(e, st, a):
        """value of a numeric literal (pointer, length)"""
        bs = e.read_bytes(st, a[0], a[1])
        if any(type(b) is not int for b in bs):
            raise Unsupported('symbolic digits %s' % [str(b) for b in bs if type(b) is not int][:2])
        s = ''.join(chr(b) for b in bs)
        try:
            return e.tofp(float(s))
        except ValueError:
            return e.tofp(0.0)

    # ---- files (the model of the file system used by the fstream model)
    @reg('vs_file_id')
    def vs_file_id(e, st, a):
        return e.cstr(st, a[0]).__hash__() & 0x7fffffff

    # ------------------------------------------------------------ memory
    def new(e, st, a):
        n = e.conc_(st, a[0])
        if n > (1 << 31):
            raise PathError('memory', 'allocation of %d bytes' % n)
        return e.alloc(st, n, 'heap')

    X['_Znwm'] = X['_Znam'] = X['malloc'] = new
    X['_ZnwmSt11align_val_t'] = new
    X['_ZnwmRKSt9nothrow_t'] = X['_ZnamRKSt9nothrow_t'] = new

    @reg('calloc')
    def calloc(e, st, a):
        n = e.conc_(st, a[0]) * e.conc_(st, a[1])
        return e.alloc(st, n, 'heap', fill=0)

    @reg('realloc')
    def realloc(e, st, a):
        n = e.conc_(st, a[1])
        p = e.alloc(st, n, 'heap')
        q = e.conc_(st, a[0])
        if q:
            o = e.obj(st, q, 0, False)
            e.memcpy(st, p, q, min(n, o.size))
            free(e, st, [q])
        return p

    def free(e, st, a):
        p = e.conc_(st, a[0])
        if p == 0:
            return None
        i = p >> 32
        o = st.objs.get(i)
        if o is None or o.kind != 'heap' or (p & OFFM):
            raise PathError('memory', 'release of an address that was not allocated (%#x)' % p)
        if not o.alive:
            raise PathError('memory', 'double release')
        if st.track is not None:
            e.on_access(st, o, 0, max(1, o.size), True)
        o = o.clone(st.id)
        o.alive = False
        o.cells = {}
        st.objs[i] = o
        return None

    for n in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvRKSt9nothrow_t'):
        X[n] = free

    @reg('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')
    def memcpy(e, st, a):
        d, s, n = e.conc_(st, a[0]), e.conc_(st, a[1]), e.conc_(st, a[2], 300)
        e.memcpy(st, d, s, n)
        return d

    @reg('llvm.memset', 'memset')
    def memset(e, st, a):
        d, n = e.conc_(st, a[0]), e.conc_(st, a[2], 300)
        v = a[1]
        if type(v) is int:
            v &= 255
        else:
            v = tm.extract(v, 7, 0)
        e.memset(st, d, v, n)
        return d

    @reg('memcmp', 'bcmp')
    def memcmp(e, st, a):
        n = e.conc_(st, a[2])
        x = e.read_bytes(st, e.conc_(st, a[0]), n)
        y = e.read_bytes(st, e.conc_(st, a[1]), n)
        for p, q in zip(x, y):
            if type(p) is int and type(q) is int:
                if p != q:
                    return 1 if p > q else 0xffffffff
                continue
            if not e.decide(st, tm.bvcmp('eq', p, q, 8)):
                return 0xffffffff if e.decide(st, tm.bvcmp('ult', p, q, 8)) else 1
        return 0

    @reg('strcmp')
    def strcmp(e, st, a):
        x, y = e.conc_(st, a[0]), e.conc_(st, a[1])
        while True:
            p, q = e.load(st, x, 1), e.load(st, y, 1)
            if not e.decide(st, tm.bvcmp('eq', p, q, 8)):
                return 0xffffffff if e.decide(st, tm.bvcmp('ult', p, q, 8)) else 1
            if e.decide(st, tm.bvcmp('eq', p, 0, 8)):
                return 0
            x += 1
            y += 1

    @reg('memchr')
    def memchr(e, st, a):
        p, n = e.conc_(st, a[0]), e.conc_(st, a[2])
        c = a[1] & 255 if type(a[1]) is int else tm.extract(a[1], 7, 0)
        for i in range(n):
            if e.decide(st, tm.bvcmp('eq', e.load(st, p + i, 1), c, 8)):
                return p + i
        return 0

    @reg('strlen')
    def strlen(e, st, a):
        p = e.conc_(st, a[0])
        n = 0
        while not e.decide(st, tm.bvcmp('eq', e.load(st, p + n, 1), 0, 8)):
            n += 1
        return n

    @reg('strtod')
    def strtod(e, st, a):
        p = e.conc_(st, a[0])
        s = e.cstr(st, p)
        m = re.match(r'[ \t\n\v\f\r]*[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?|inf(inity)?|nan)', s, re.I)
        if a[1]:
            e.store(st, e.conc_(st, a[1]), 8, p + (m.end() if m else 0))
        return e.tofp(float(m.group(0))) if m else e.tofp(0.0)

    def strtol_(e, st, a):
        p = e.conc_(st, a[0])
        s = e.cstr(st, p)
        m = re.match(r'[ \t\n\v\f\r]*[-+]?\d+', s)
        if len(a) > 1 and a[1]:
            e.store(st, e.conc_(st, a[1]), 8, p + (m.end() if m else 0))
        return (int(m.group(0)) if m else 0)

    X['strtol'] = X['strtoul'] = X['strtoll'] = X['strtoull'] = lambda e, st, a: strtol_(e, st, a) & exe.M64
    X['__isoc23_strtol'] = X['__isoc23_strtoul'] = X['strtol']
    X['atoi'] = lambda e, st, a: strtol_(e, st, [a[0]]) & 0xffffffff

    @reg('__errno_location')
    def errno(e, st, a):
        p = st.ext.get('errno')
        if p is None:
            p = e.alloc(st, 4, 'global', 'errno', fill=0)
            st.ext['errno'] = p
        return p

    def ctype(chars):
        s = sorted(chars)

        def f(e, st, a):
            c = a[0]
            if type(c) is not T:
                if c is UNDEF:
                    raise PathError('uninitialised', 'character classification of an uninitialised value')
                return 1 if c in chars else 0
            r = False
            for k in s:
                r = tm.bor(r, tm.bvcmp('eq', c, k, 32))
            return 1 if e.decide(st, r) else 0
        return f

    def cset(f):
        return frozenset(i for i in range(128) if f(chr(i)))

    X['isspace'] = ctype(frozenset(map(ord, ' \t\n\v\f\r')))
    X['isblank'] = ctype(frozenset(map(ord, ' \t')))
    X['isdigit'] = ctype(cset(lambda c: c in '0123456789'))
    X['isalpha'] = ctype(cset(str.isalpha))
    X['isalnum'] = ctype(cset(str.isalnum))
    X['isupper'] = ctype(cset(str.isupper))
    X['islower'] = ctype(cset(str.islower))
    X['isprint'] = ctype(cset(lambda c: ' ' <= c <= '~'))
    X['isgraph'] = ctype(cset(lambda c: '!' <= c <= '~'))
    X['ispunct'] = ctype(cset(lambda c: '!' <= c <= '~' and not c.isalnum()))
    X['tolower'] = lambda e, st, a: ord(chr(e.conc_(st, a[0], 300)).lower()) if e.conc_(st, a[0], 300) < 128 else a[0]
    X['toupper'] = lambda e, st, a: ord(chr(e.conc_(st, a[0], 300)).upper()) if e.conc_(st, a[0], 300) < 128 else a[0]

    # ------------------------------------------------------------ C++ runtime
    @reg('__cxa_atexit', 'atexit')
    def atexit(e, st, a):
        return 0

    @reg('__cxa_guard_acquire')
    def guard(e, st, a):
        return 1 if e.load(st, a[0], 1) in (0, UNDEF) else 0

    @reg('__cxa_guard_release')
    def guard_rel(e, st, a):
        e.store(st, a[0], 1, 1)

    X['__cxa_guard_abort'] = lambda e, st, a: None

    @reg('__cxa_allocate_exception')
    def alloc_exc(e, st, a):
        return e.alloc(st, e.conc_(st, a[0]), 'exception')

    X['__cxa_free_exception'] = lambda e, st, a: None

    @reg('__cxa_throw')
    def throw(e, st, a):
        st.exc = (a[0], a[1])
        return Action('throw')

    @reg('__cxa_begin_catch')
    def begin(e, st, a):
        st.caught.append(st.exc)
        return a[0]

    @reg('__cxa_end_catch')
    def end(e, st, a):
        st.caught.pop()

    @reg('__cxa_rethrow')
    def rethrow(e, st, a):
        if not st.caught:
            raise PathError('abort', 'rethrow without an exception')
        st.exc = st.caught[-1]
        return Action('throw')

    # std::exception_ptr: a pointer to the exception object (never freed here)
    @reg('_ZSt17current_exceptionv')
    def current_exception(e, st, a):
        o, ti = st.caught[-1] if st.caught else (0, 0)
        if o:
            types = dict(st.ext.get('exc_types', {}))
            types[o] = ti
            st.ext['exc_types'] = types
        e.store(st, a[0], 8, o)

    @reg('_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE')
    def rethrow_exception(e, st, a):
        o = e.conc_(st, e.load(st, a[0], 8))
        if o == 0:
            raise PathError('abort', 'rethrow of a null exception pointer')
        st.exc = (o, st.ext['exc_types'][o])
        return Action('throw')

    X['_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv'] = lambda e, st, a: None
    X['_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv'] = lambda e, st, a: None
    X['_ZNSt15__exception_ptr13exception_ptrC1ERKS0_'] = X['_ZNSt15__exception_ptr13exception_ptrC2ERKS0_'] = \
        lambda e, st, a: e.store(st, a[0], 8, e.load(st, a[1], 8))
    X['_ZNSt15__exception_ptr13exception_ptrC1Ev'] = X['_ZNSt15__exception_ptr13exception_ptrC2Ev'] = \
        lambda e, st, a: e.store(st, a[0], 8, 0)
    X['_ZNSt15__exception_ptr13exception_ptrD1Ev'] = X['_ZNSt15__exception_ptr13exception_ptrD2Ev'] = \
        lambda e, st, a: None
    X['_ZNKSt15__exception_ptr13exception_ptrcvbEv'] = lambda e, st, a: int(e.conc_(st, e.load(st, a[0], 8)) != 0)

    @reg('_ZNSt15__exception_ptr13exception_ptraSERKS0_')
    def assign_exception(e, st, a):
        e.store(st, a[0], 8, e.load(st, a[1], 8))
        return a[0]

    @reg('__cxa_get_exception_ptr')
    def getp(e, st, a):
        return a[0]

    @reg('llvm.eh.typeid.for')
    def typeid(e, st, a):
        return e.typeid(a[0])

    def terminate(e, st, a):
        raise PathError('abort', 'terminate called')

    X['__clang_call_terminate'] = X['_ZSt9terminatev'] = X['abort'] = terminate
    X['__cxa_pure_virtual'] = terminate
    X['llvm.trap'] = X['llvm.ubsantrap'] = terminate

    @reg('exit', '_exit', 'quick_exit')
    def exit_(e, st, a):
        raise PathError('exit', 'exit called')

    X['_ZNSt8ios_base4InitC1Ev'] = X['_ZNSt8ios_base4InitD1Ev'] = lambda e, st, a: None

    @reg('__dynamic_cast')
    def dyncast(e, st, a):
        p = e.conc_(st, a[0])
        if p == 0:
            return 0
        vt = e.load(st, p, 8)
        ti = e.load(st, vt - 8, 8)
        return p if a[2] in e.bases(ti) else 0

    # ------------------------------------------------------------ llvm intrinsics
    def un(f):
        def g(e, st, a):
            v = a[0]
            if type(v) is tuple:
                return tuple(f(e, st, x) for x in v)
            return f(e, st, v)
        return g

    def fabs(e, st, x):
        if x is UNDEF:
            return x
        x = e.tofp(x)
        if type(x) is not T:
            return abs(x)
        if e.real:
            d = tm.rlt(x, F0)
            return tm.ite(d, tm.rneg(x), x, 'R')
        return tm.fabs_(x)

    X['llvm.fabs'] = X['fabs'] = un(fabs)

    def sqrt(e, st, x):
        x = e.tofp(x)
        if e.real:
            if type(x) is T:
                if not tm.nonneg(x) and e.decide(st, tm.rlt(x, F0)):
                    return math.nan
                return tm.ruf('sqrt', x)
            if type(x) is float:
                return math.inf if x > 0 else math.nan
            if x < 0:
                return math.nan
            n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator:
                return Fraction(n, d)
            return tm.ruf('sqrt', x)
        if type(x) is T:
            return tm.mk('fsqrt', 'F', x)
        return math.sqrt(x) if x >= 0 else math.nan

    X['llvm.sqrt'] = X['sqrt'] = un(sqrt)

    def rexp(e, st, x):
        if type(x) is float:
            return x if x > 0 else (F0 if x < 0 else x)
        if type(x) is not T and x == 0:
            return Fraction(1)
        return tm.ruf('exp', x)

    def sign_of(x):
        """a simpler term of the same sign (denominators are non-zero)"""
        while type(x) is T:
            if x.op == 'div' and tm.nonneg(x.args[1]):
                x = x.args[0]
            elif x.op == 'mul' and type(x.args[0]) is not T and x.args[0] > 0:
                x = x.args[1]
            elif x.op == 'mul' and type(x.args[1]) is not T and x.args[1] > 0:
                x = x.args[0]
            else:
                break
        return x

    def rlog(e, st, x):
        if type(x) is float:
            return x if x > 0 else math.nan
        if type(x) is T:
            y = x if e.check_div else sign_of(x)
            if not e.decide(st, tm.rlt(F0, y)):
                return -math.inf if e.decide(st, tm.req(x, F0)) else math.nan
            return tm.ruf('log', x)
        if x == 1:
            return F0
        if x <= 0:
            return -math.inf if x == 0 else math.nan
        return tm.ruf('log', x)

    def rpow(e, st, x, y):
        if type(x) is float or type(y) is float:
            if type(x) is T or type(y) is T:
                raise Unsupported('power of a non-finite number')
            return e.tofp(math.pow(x, y))
        if type(y) is not T:
            if y == 0:
                return Fraction(1)
            if y.denominator == 1 and abs(y) <= 64:
                r = x
                for _ in range(abs(int(y)) - 1):
                    r = tm.rmul(r, x)
                if y < 0:
                    return e.fpbin('fdiv', Fraction(1), r, st)
                return r
            if y == Fraction(1, 2):
                return sqrt(e, st, x)
        if type(x) is not T:
            if x == 1:
                return x
            if x <= 0:
                raise Unsupported('power of a non-positive constant')
            return tm.ruf('exp', tm.rmul(y, tm.ruf('log', x)))
        if e.decide(st, tm.rlt(F0, x)):
            return tm.ruf('exp', tm.rmul(y, tm.ruf('log', x)))
        return tm.ruf('powneg', x, y)

    def math1(name, real, conc):
        def f(e, st, x):
            x = e.tofp(x)
            if e.real:
                return real(e, st, x)
            if type(x) is T:
                return tm.mk('fuf', 'F', name, x)
            try:
                return conc(x)
            except (OverflowError, ValueError):
                return math.inf if name == 'exp' else math.nan
        return un(f)

    def plain(name, odd=False, even=False, at0=None, conc=None):
        def f(e, st, x):
            if type(x) is float:
                return e.tofp(conc(x))
            if type(x) is not T:
                if x == 0 and at0 is not None:
                    return Fraction(at0)
                if x < 0 and odd:
                    return tm.rneg(tm.ruf(name, -x))
                if x < 0 and even:
                    return tm.ruf(name, -x)
                return tm.ruf(name, x)
            # canonical sign for odd and even functions (syntactic)
            if (odd or even) and x.op == 'mul' and type(x.args[0]) is not T and x.args[0] < 0:
                y = tm.rneg(x)
                r = tm.ruf(name, y)
                return tm.rneg(r) if odd else r
            return tm.ruf(name, x)
        return f

    def reg1(name, f):
        for n in ('llvm.' + name, name):
            X[n] = f

    def clog(x):
        return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)

    reg1('exp', math1('exp', rexp, math.exp))
    reg1('log', math1('log', rlog, clog))
    reg1('log10', math1('log10', lambda e, st, x: e.fpbin('fdiv', rlog(e, st, x), tm.ruf('log', Fraction(10)), st), math.log10))
    reg1('exp2', math1('exp2', lambda e, st, x: rpow(e, st, Fraction(2), x), lambda x: 2.0 ** x))
    reg1('log2', math1('log2', lambda e, st, x: e.fpbin('fdiv', rlog(e, st, x), tm.ruf('log', Fraction(2)), st), math.log2))
    reg1('exp10', math1('exp10', lambda e, st, x: rpow(e, st, Fraction(10), x), lambda x: 10.0 ** x))
    for nm, od, ev, a0 in (('cos', 0, 1, 1), ('sin', 1, 0, 0), ('tan', 1, 0, 0), ('tanh', 1, 0, 0), ('sinh', 1, 0, 0),
                           ('cosh', 0, 1, 1), ('erf', 1, 0, 0), ('atan', 1, 0, 0), ('asin', 1, 0, 0)):
        reg1(nm, math1(nm, plain(nm, od, ev, a0, getattr(math, nm)), getattr(math, nm)))
    for nm in ('acos', 'erfc', 'expm1', 'log1p', 'cbrt', 'tgamma', 'lgamma'):
        reg1(nm, math1(nm, plain(nm, conc=getattr(math, nm, None)), getattr(math, nm, None)))
    # hyperbolic functions through exp
    def hyp(sign):
        def f(e, st, x):
            if type(x) is float:
                return math.cosh(x) if sign > 0 else math.sinh(x)
            a, b = rexp(e, st, x), rexp(e, st, tm.rneg(x) if type(x) is T else -x)
            return tm.rmul(Fraction(1, 2), tm.radd(a, b) if sign > 0 else tm.rsub(a, b))
        return f
    reg1('cosh', math1('cosh', hyp(1), math.cosh))
    reg1('sinh', math1('sinh', hyp(-1), math.sinh))
    # expm1 / log1p through exp / log so that equal formulas agree
    reg1('expm1', math1('expm1', lambda e, st, x: tm.rsub(rexp(e, st, x), Fraction(1)), math.expm1))
    reg1('log1p', math1('log1p', lambda e, st, x: rlog(e, st, tm.radd(x, Fraction(1))), math.log1p))
    reg1('erfc', math1('erfc', lambda e, st, x: tm.rsub(Fraction(1), plain('erf', True, False, 0, math.erf)(e, st, x)),
                       math.erfc))

    @reg('llvm.pow', 'pow')
    def pow_(e, st, a):
        x, y = e.tofp(a[0]), e.tofp(a[1])
        if e.real:
            return rpow(e, st, x, y)
        if type(x) is T or type(y) is T:
            return tm.mk('fuf', 'F', 'pow', tm.fnum(x), tm.fnum(y))
        return math.pow(x, y)

    @reg('llvm.powi')
    def powi(e, st, a):
        n = tm._s(e.conc_(st, a[1]), 32)
        return rpow(e, st, e.tofp(a[0]), Fraction(n)) if e.real else pow_(e, st, [a[0], float(n)])

    @reg('ldexp', 'llvm.ldexp')
    def ldexp(e, st, a):
        n = tm._s(e.conc_(st, a[1]), 32)
        return e.fpbin('fmul', e.tofp(a[0]), e.tofp(2.0 ** n), st)

    @reg('hypot')
    def hypot(e, st, a):
        return sqrt(e, st, e.fpbin('fadd', e.fpbin('fmul', a[0], a[0], st), e.fpbin('fmul', a[1], a[1], st), st))

    @reg('llvm.fma', 'llvm.fmuladd', 'fma')
    def fma(e, st, a):
        if type(a[0]) is tuple:
            return tuple(fma(e, st, x) for x in zip(*a))
        return e.fpbin('fadd', e.fpbin('fmul', a[0], a[1], st), a[2], st)

    def minmax(less):
        def f(e, st, a):
            x, y = e.tofp(a[0]), e.tofp(a[1])
            c = e.fcmp(4, x, y) if less else e.fcmp(2, x, y)
            if e.real and (type(x) is float or type(y) is float):
                return x if e.decide(st, c) else y
            return tm.ite(c, x, y, 'R' if e.real else 'F')
        return f

    X['llvm.minnum'] = X['fmin'] = X['llvm.minimum'] = minmax(True)
    X['llvm.maxnum'] = X['fmax'] = X['llvm.maximum'] = minmax(False)

    @reg('llvm.copysign', 'copysign')
    def copysign(e, st, a):
        x, y = e.tofp(a[0]), e.tofp(a[1])
        m = fabs(e, st, x)
        if type(m) is not T and type(y) is not T:
            r = math.copysign(float(m), float(y))
            return e.tofp(r)
        if not e.real:
            raise Unsupported('copysign of IEEE terms')
        if type(y) is float:
            return m if y > 0 else tm.rneg(m)
        return tm.ite(tm.rlt(y, F0), tm.rneg(m), m, 'R')

    def rounding(pick):
        def f(e, st, x):
            x = e.tofp(x)
            if type(x) is T:
                if not e.real:
                    return tm.mk('fuf', 'F', pick, x)
                if x.op in ('bv2r_u', 'bv2r_s'):
                    return x
                k = st.conc.get(('trunc', x.id))
                if k is None:
                    raise exe.Concretise(x, 'trunc', e.conc_limit)
                q = Fraction(k)
                if pick == 'trunc':
                    return q
                if pick == 'floor':
                    return q - 1 if e.decide(st, tm.rlt(x, q)) else q
                if pick == 'ceil':
                    return q + 1 if e.decide(st, tm.rlt(q, x)) else q
                if pick == 'round':
                    if e.decide(st, tm.rle(q + Fraction(1, 2), x)):
                        return q + 1
                    if e.decide(st, tm.rle(x, q - Fraction(1, 2))):
                        return q - 1
                    return q
                raise Unsupported(pick)
            if type(x) is float:
                return x
            if pick == 'trunc':
                r = int(x)
            elif pick == 'floor':
                r = math.floor(x)
            elif pick == 'ceil':
                r = math.ceil(x)
            elif pick == 'round':
                r = math.floor(abs(x) + Fraction(1, 2)) * (1 if x >= 0 else -1)
            else:
                r = round(x)
            return Fraction(r) if e.real else float(r)
        return un(f)

    for nm in ('trunc', 'floor', 'ceil', 'round', 'rint', 'nearbyint', 'roundeven'):
        reg1(nm, rounding(nm))

    def lround(e, st, a):
        v = X['round'](e, st, a)
        if type(v) is T:
            raise Unsupported('lround')
        return int(v) & exe.M64
    X['lround'] = X['llround'] = X['llvm.lround'] = X['llvm.llround'] = lround

    @reg('llvm.is.fpclass')
    def fpclass(e, st, a):
        x = e.tofp(a[0])
        m = a[1]
        if type(x) is T:
            if e.real:
                # finite: the zero class and the signs matter only if the mask
                # distinguishes them
                fin = m & 0x1f8
                if fin == 0:
                    return False
                if fin == 0x1f8:
                    return True
                raise Unsupported('floating-point classification %#x' % m)
            if m == 3:
                return tm.fisnan(x)
            raise Unsupported('floating-point classification %#x of an IEEE term' % m)
        f = float(x)
        if f != f:
            return bool(m & 3)
        if f in (math.inf, -math.inf):
            return bool(m & (0x200 if f > 0 else 4))
        if f == 0:
            return bool(m & 0x60)
        return bool(m & (0x180 if f > 0 else 0x18))

    @reg('llvm.objectsize')
    def objsize(e, st, a):
        return exe.M64

    @reg('llvm.expect', 'llvm.expect.with.probability', 'llvm.launder.invariant.group', 'llvm.strip.invariant.group',
         'llvm.ssa.copy')
    def expect(e, st, a):
        return a[0]

    X['llvm.is.constant'] = lambda e, st, a: False
    X['llvm.stacksave'] = lambda e, st, a: 0
    X['llvm.type.test'] = lambda e, st, a: True
    X['llvm.load.relative'] = lambda e, st, a: (_ for _ in ()).throw(Unsupported('load.relative'))

    def imm(op):
        # width from the mangled suffix is not available here: the values are
        # compared as 64-bit or 32-bit by the registered names below
        pass

    from .comp import icmp
    for w in (8, 16, 32, 64):
        for nm, p in (('umax', 34), ('umin', 36), ('smax', 38), ('smin', 40)):
            def mm(e, st, a, p=p, w=w):
                x, y = a[0], a[1]
                if x is UNDEF or y is UNDEF:
                    return UNDEF
                return tm.ite(icmp(p, x, y, w), x, y, w)
            X['llvm.%s.i%d' % (nm, w)] = mm

        def absi(e, st, a, w=w):
            x = a[0]
            return tm.ite(icmp(40, x, 0, w), ibin('sub', 0, x, w), x, w)
        X['llvm.abs.i%d' % w] = absi

        def fshl(e, st, a, w=w):
            x, y, s = a
            s = ibin('and', s, w - 1, w)
            if type(s) is int:
                if s == 0:
                    return x
                return ibin('or', ibin('shl', x, s, w), ibin('lshr', y, w - s, w), w)
            inv = ibin('sub', w, s, w)
            r = ibin('or', ibin('shl', x, s, w), ibin('lshr', y, inv, w), w)
            return tm.ite(tm.bvcmp('eq', s, 0, w), x, r, w)

        def fshr(e, st, a, w=w):
            x, y, s = a
            s = ibin('and', s, w - 1, w)
            if type(s) is int:
                if s == 0:
                    return y
                return ibin('or', ibin('lshr', y, s, w), ibin('shl', x, w - s, w), w)
            inv = ibin('sub', w, s, w)
            r = ibin('or', ibin('lshr', y, s, w), ibin('shl', x, inv, w), w)
            return tm.ite(tm.bvcmp('eq', s, 0, w), y, r, w)
        X['llvm.fshl.i%d' % w] = fshl
        X['llvm.fshr.i%d' % w] = fshr

        def ctlz(e, st, a, w=w):
            x = a[0]
            if type(x) is T:
                x = e.conc_(st, x)
            return w - x.bit_length()

        def cttz(e, st, a, w=w):
            x = a[0]
            if type(x) is T:
                x = e.conc_(st, x)
            return w if x == 0 else (x & -x).bit_length() - 1

        def ctpop(e, st, a, w=w):
            x = a[0]
            if type(x) is T:
                x = e.conc_(st, x)
            return bin(x).count('1')
        X['llvm.ctlz.i%d' % w] = ctlz
        X['llvm.cttz.i%d' % w] = cttz
        X['llvm.ctpop.i%d' % w] = ctpop

        def bswap(e, st, a, w=w):
            x = e.conc_(st, a[0])
            return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
        X['llvm.bswap.i%d' % w] = bswap

        for nm in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul'):
            def ovf(e, st, a, nm=nm, w=w):
                x, y = a[0], a[1]
                op = nm[1:]
                r = ibin(op, x, y, w)
                if type(x) is T or type(y) is T:
                    if nm[0] == 'u':
                        x2, y2 = tm.zext(x, w, 2 * w), tm.zext(y, w, 2 * w)
                        if op == 'sub':
                            return (r, tm.bvcmp('ult', x, y, w))
                        r2 = ibin(op, x2, y2, 2 * w)
                        return (r, tm.bnot(tm.bvcmp('eq', r2, tm.zext(r, w, 2 * w), 2 * w)))
                    x2, y2 = tm.sext(x, w, 2 * w), tm.sext(y, w, 2 * w)
                    r2 = ibin(op, x2, y2, 2 * w)
                    return (r, tm.bnot(tm.bvcmp('eq', r2, tm.sext(r, w, 2 * w), 2 * w)))
                if nm[0] == 's':
                    x, y, rr = tm._s(x, w), tm._s(y, w), tm._s(r, w)
                else:
                    rr = r
                z = x + y if op == 'add' else x - y if op == 'sub' else x * y
                return (r, z != rr)
            X['llvm.%s.with.overflow.i%d' % (nm, w)] = ovf
        def usat(e, st, a, w=w):
            x, y = a[0], a[1]
            return tm.ite(icmp(36, x, y, w), 0, ibin('sub', x, y, w), w)
        X['llvm.usub.sat.i%d' % w] = usat

    def tobool(c):
        if type(c) is int:
            return bool(c & 1)
        if type(c) is T and c.sort != 'B':
            if c.op == 'ite' and type(c.args[1]) is not T and type(c.args[2]) is not T:
                return tm.ite(c.args[0], bool(c.args[1]), bool(c.args[2]), 'B')
            return tm.bnot(tm.bvcmp('eq', c, 0, c.sort))
        return c

    eng.tobool = tobool
