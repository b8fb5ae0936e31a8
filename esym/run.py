"""Builds harnesses against the current tree of the repository, explores them
symbolically, discharges the obligations and replays counterexamples."""
import glob
import hashlib
import json
import math
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('ESPECIA_REPO', '/repo')
CXX = 'src/main/cxx'
JOBS = max(1, min(8, os.cpu_count() or 1))

CONFIG_H = '''#ifndef ESPECIA_CONFIG_H
#define ESPECIA_CONFIG_H
#include <string>
namespace especia
{
const char project_name[] = "Especia";
const char project_long_name[] = "Especia 0000.0-VERIF";
const char project_doi[] = "10.5281/zenodo";
const char project_doi_html[] = "doi";
const char project_title[] = "title";
const char project_url[] = "https://example.org";
const char composer_name[] = "GNU";
const char compiler_version[] = "0";
const char system_name[] = "Linux";
const char system_version[] = "0";
}
#endif
'''


def config_header(dst):
    """the generated configuration header: the template with its
    substitutions (so that every declared name exists)"""
    tpl = os.path.join(REPO, 'src/main/cxx-filtered/config.h')
    try:
        s = open(tpl).read()
    except OSError:
        s = CONFIG_H
    subst = {'PROJECT_NAME': 'especia', 'PROJECT_VERSION': '0000.0', 'PROJECT_TAG': '0000.0'}

    def rep(m):
        return subst.get(m.group(1), 'X')
    s = re.sub(r'#cmakedefine01\s+(\w+)', r'#define \1 0', s)
    s = re.sub(r'#cmakedefine\s+(\w+).*', r'/* \1 */', s)
    s = re.sub(r'\$\{(\w+)\}', rep, s)
    s = re.sub(r'@(\w+)@', rep, s)
    os.makedirs(dst, exist_ok=True)
    with open(os.path.join(dst, 'config.h'), 'w') as f:
        f.write(s)


def sh(cmd, timeout=300, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)


class Build(object):
    def __init__(self, work):
        self.work = work
        config_header(os.path.join(work, 'gen'))
        self.inc = ['-I' + os.path.join(ROOT, 'harness'), '-I' + os.path.join(REPO, CXX),
                    '-I' + os.path.join(REPO, CXX, 'core'), '-I' + os.path.join(work, 'gen')]
        self.errors = {}

    def base(self, opt='-O1'):
        return ['clang++', '-std=gnu++11', '-emit-llvm', '-c', '-fno-vectorize', '-fno-slp-vectorize',
                '-ffp-contract=off', '-include', os.path.join(ROOT, 'model', 'pre.h'), '-DNDEBUG', '-DVS_SYMBOLIC=1', '-w',
                '-fno-unroll-loops', '-fno-pic', '-fno-pie', '-fno-delete-null-pointer-checks', '-mllvm', '-phi-node-folding-threshold=12', '-mllvm', '-speculate-one-expensive-inst', opt,
                '-I' + os.path.join(ROOT, 'model', 'include')]

    def support(self):
        sup = os.path.join(self.work, 'support.bc')
        if not os.path.exists(sup):
            p = sh(self.base() + [os.path.join(ROOT, 'model', 'support.cpp'), '-o', sup])
            if p.returncode:
                raise RuntimeError('support does not compile: ' + p.stderr[:2000])
        return sup

    def bitcode(self, src, defs=(), opt='-O1'):
        name = os.path.splitext(os.path.basename(src))[0]
        sup = self.support()
        base = self.base(opt)
        bc = os.path.join(self.work, name + '.bc')
        p = sh(base + list(defs) + self.inc + [src, '-o', bc])
        if p.returncode:
            self.errors[name] = p.stderr[:4000]
            return None
        out = os.path.join(self.work, name + '.linked.bc')
        p = sh(['llvm-link-18', sup, bc, '-o', out]) if shutil.which('llvm-link-18') else \
            sh(['/usr/lib/llvm-18/bin/llvm-link', sup, bc, '-o', out])
        if p.returncode:
            self.errors[name] = p.stderr[:4000]
            return None
        return out

    def functions(self, src, entries, defs=()):
        """the functions of the repository that the entries contain"""
        from . import funcs
        try:
            ll = os.path.join(self.work, os.path.splitext(os.path.basename(src))[0] + '.lines.ll')
            cmd = [c for c in self.base() if c not in ('-c',)] + ['-S', '-gline-tables-only'] + list(defs) + self.inc + [src, '-o', ll]
            if sh(cmd).returncode:
                return []
            return funcs.functions(ll, REPO, entries)
        except Exception:
            return []

    def native(self, src, defs=(), san=True):
        name = os.path.splitext(os.path.basename(src))[0]
        tsan = re.search(r'^//!\s*tsan', open(src).read(), re.M)
        exe = os.path.join(self.work, name + '.native')
        if os.path.exists(exe):
            return exe
        flags = ['-fsanitize=address,undefined', '-fno-sanitize-recover=address'] if san else []
        if tsan:
            flags = ['-fsanitize=thread']
        p = sh(['g++', '-std=gnu++11', '-O1', '-w', '-rdynamic', '-DNDEBUG', '-pthread'] + flags + list(defs) + self.inc +
               [src, os.path.join(ROOT, 'harness', 'native.cpp'), '-o', exe, '-ldl'] + native_libs(src))
        if p.returncode:
            self.errors[name + ' (native)'] = p.stderr[:4000]
            return None
        return exe


def native_libs(src):
    t = open(src).read()
    m = re.search(r'^//!\s*libs\s+(.*)$', t, re.M)
    return m.group(1).split() if m else []


# ---------------------------------------------------------------- harness specs
class Job(object):
    def __init__(self, src, entry, params, opts):
        self.src = src
        self.entry = entry
        self.params = params
        self.opts = opts

    def __str__(self):
        return '%s(%s)' % (self.entry, ','.join(map(str, self.params)))


def expand(spec):
    """'1,2;3,4' or '1..4' or '0..1,2..3' (product)"""
    out = []
    for alt in spec.split(';'):
        vals = [[]]
        for part in alt.split(','):
            m = re.match(r'(-?\d+)\.\.(-?\d+)$', part)
            xs = range(int(m.group(1)), int(m.group(2)) + 1) if m else [int(part)]
            vals = [v + [x] for v in vals for x in xs]
        out += vals
    return out


def jobs_of(src, tier, prop=None):
    jobs = []
    for line in open(src):
        m = re.match(r'//@\s+(\w+)\s*(.*)$', line)
        if not m:
            continue
        opts = dict(x.split('=', 1) for x in m.group(2).split())
        if opts.get('tier') == 'thorough' and tier != 'thorough':
            continue
        if prop and 'prop' in opts and prop not in opts['prop'].split(','):
            continue
        spec = opts.get('params')
        if tier == 'thorough' and 'tparams' in opts:
            spec = opts['tparams']
        for p in (expand(spec) if spec else [[]]):
            jobs.append(Job(src, m.group(1), p, opts))
    return jobs


# ---------------------------------------------------------------- one job
def limit_memory(gb):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    except Exception:
        pass


def to_input(v):
    if isinstance(v, bool):
        return '1' if v else '0'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Fraction):
        try:
            return repr(float(v))
        except OverflowError:
            return '1e308' if v > 0 else '-1e308'
    if isinstance(v, float):
        return repr(v)
    return None


def inputs_of(m, eng, solve):
    d = {k: to_input(v) for k, v in m.items() if to_input(v) is not None}
    d.update(solve.function_table(m, getattr(eng, 'obj_args', {})))
    return d


def work(job, bc, tier, deadline):
    """explores one harness instance; returns a plain dictionary"""
    sys.setrecursionlimit(20000)
    limit_memory(int(job.opts.get('mem', '6')))
    t0 = time.time()
    from . import llvm, exe, refine, solve, threads
    from .nf import NF
    from . import terms as tm
    res = {'job': str(job), 'entry': job.entry, 'params': job.params, 'src': os.path.basename(job.src), 'paths': 0,
           'steps': 0, 'forks': 0, 'obligations': 0, 'discharged': 0, 'normal_form': 0, 'smt': 0, 'constant': 0,
           'queries': 0, 'solver_s': 0.0, 'feas_queries': 0, 'failed': [], 'reach': {}, 'error': None,
           'functions': {}, 'endings': {}, 'witness': [], 'stubs': [], 'labels': {}}
    try:
        mod = llvm.Module(bc)
        eng = exe.Engine(mod, mode=job.opts.get('mode', 'real'), feas_timeout=int(job.opts.get('feas', '2000')),
                         max_steps=int(job.opts.get('steps', '60000000')),
                         max_paths=int(job.opts.get('paths', '20000')), deadline=deadline)
        eng.params = job.params
        tm.NUM = int(job.opts.get('num', '0'))
        eng.path_steps = int(job.opts.get('psteps', '0'))
        eng.check_div = job.opts.get('div') == 'check'
        eng.sel_fork = job.opts.get('sel') == 'fork'
        eng.merge = job.opts.get('merge') == '1'
        eng.free_div = job.opts.get('div') == 'free'
        eng.conc_limit = int(job.opts.get('conc', '64'))
        threads.install(eng, job.opts.get('races') == '1')
        try:
            eng.run(job.entry)
        except exe.Unsupported as e:
            res['error'] = 'unsupported: %s' % e
        eng.report_forks()
        budget = int(job.opts.get('budget', '20' if tier == 'quick' else '120'))
        res['paths'] = eng.paths
        res['steps'] = eng.steps
        res['forks'] = eng.forks
        res['feas_queries'] = eng.feas.queries
        res['solver_s'] += eng.feas.time
        res['endings'] = eng.endings
        res['functions'] = eng.encoded
        res['stubs'] = sorted(eng.stub_used)
        nf = NF(limit=int(job.opts.get('nf', '20000')))
        nf.seconds = 30 if tier == 'quick' else 200
        from . import sweep
        sw = sweep.Sweep()
        seen = {}
        bad_labels = {}
        refuted = 0
        models_s = 0.0
        refined = 0
        for ob in eng.obls:
            key = (ob.goal.id if isinstance(ob.goal, tm.T) else ob.goal, tuple(p.id for p in ob.pc if isinstance(p, tm.T)),
                   ob.label)
            if key in seen:
                continue
            seen[key] = 1
            res['obligations'] += 1
            lab = res['labels'].setdefault(ob.label, [0, 0])
            lab[0] += 1
            if bad_labels.get(ob.label, 0) >= 3 or refuted >= 10:
                # enough counterexamples for this assertion
                res['failed'].append({'label': ob.label, 'verdict': 'skipped', 'models': []})
                continue
            if time.time() > deadline:
                res['failed'].append({'label': ob.label, 'verdict': 'time', 'models': []})
                continue
            b = max(3, min(budget, int(deadline - time.time())))
            r = solve.discharge(ob, nf, b, sw)
            res['queries'] += r.queries
            res['solver_s'] += r.time
            if r.verdict == 'unsat':
                res['discharged'] += 1
                lab[1] += 1
                res[{'normal form': 'normal_form', 'constant': 'constant'}.get(r.how, 'smt')] += 1
                continue
            bad_labels[ob.label] = bad_labels.get(ob.label, 0) + 1
            ms = []
            if r.model:
                ms.append(r.model)
            if ms:
                refuted += 1
            if time.time() < deadline and r.how != 'sweep' and models_s < 60:
                tq = time.time()
                for m in solve.models(ob, nf, min(10, b)):
                    ms.insert(0, m) if m not in ms else None
                res['solver_s'] += time.time() - tq
                models_s += time.time() - tq
            if time.time() < deadline and r.how != 'sweep' and refined < 6:
                refined += 1
                m = refine.refine(ob, ms, 4.0)
                if m is not None:
                    ms.insert(0, dict(ms[0] if ms else {}, **m))
            res['failed'].append({'label': ob.label, 'verdict': r.verdict,
                                  'models': [inputs_of(m, eng, solve) for m in ms],
                                  'kind': (ob.info or {}).get('kind') if ob.info else None})
        # reachability witnesses (vacuity guard)
        tw = time.time()
        for lab, rec in eng.reach.items():
            res['reach'][lab] = rec[0]
            if len(res['witness']) < 2 and time.time() < deadline:
                for pc, inputs in rec[1:]:
                    if time.time() > tw + 30:
                        break
                    rv = [v for n, v in inputs if v.sort == 'R']
                    nice = [c for v in rv for c in (tm.rle(Fraction(-5), v), tm.rle(v, Fraction(5)))]
                    q = solve.query(pc + nice, nf, 5)
                    if q.verdict != 'sat':
                        q = solve.query(pc, nf, 5)
                    res['queries'] += q.queries
                    if q.verdict == 'sat' and q.model is not None:
                        m = inputs_of(q.model, eng, solve)
                        res['witness'].append({'label': lab, 'inputs': m})
                        break
    except Exception as e:
        res['error'] = (res['error'] or '') + ' internal: %s: %s' % (type(e).__name__, e)
        res['trace'] = traceback.format_exc()[-3000:]
    except MemoryError:
        res['error'] = 'out of memory'
    res['wall'] = time.time() - t0
    return res


def _child(job, bc, tier, deadline, conn):
    os.setpgrp()
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # dies with its parent
    except (OSError, AttributeError):
        pass
    if os.environ.get('ESYM_STACK'):
        import faulthandler
        faulthandler.dump_traceback_later(float(os.environ['ESYM_STACK']), repeat=True)
    try:
        r = work(job, bc, tier, deadline)
    except BaseException as e:
        r = {'job': str(job), 'error': 'crash %s' % e}
    try:
        conn.send(r)
        conn.close()
    except Exception:
        pass
    os._exit(0)


def run_jobs(jobs, bcs, tier, deadline, log):
    """runs the jobs in parallel processes with a hard deadline"""
    ctx = mp.get_context('fork')
    todo = list(jobs)
    live = []
    out = []
    while todo or live:
        while todo and len(live) < JOBS:
            j = todo.pop(0)
            if time.time() > deadline:
                out.append({'job': str(j), 'entry': j.entry, 'params': j.params, 'error': 'not started: time limit',
                            'failed': []})
                continue
            a, b = ctx.Pipe(False)
            jd = deadline
            if 'time' in j.opts:
                jd = min(deadline, time.time() + float(j.opts['time']) * (1 if tier == 'quick' else 6))
            p = ctx.Process(target=_child, args=(j, bcs[j.src], tier, jd, b))
            p.start()
            b.close()
            live.append((j, p, a, jd))
        still = []
        progressed = False
        for j, p, a, jd in live:
            if a.poll(0):
                try:
                    r = a.recv()
                except EOFError:
                    r = {'job': str(j), 'entry': j.entry, 'params': j.params, 'error': 'crashed', 'failed': []}
                p.join(2)
                out.append(r)
                progressed = True
            elif not p.is_alive():
                out.append({'job': str(j), 'entry': j.entry, 'params': j.params, 'error': 'died (memory?)', 'failed': []})
                progressed = True
            elif time.time() > jd + 40:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.join(2)
                out.append({'job': str(j), 'entry': j.entry, 'params': j.params, 'error': 'killed: time limit',
                            'failed': []})
                progressed = True
            else:
                still.append((j, p, a, jd))
        live = still
        if not progressed:
            time.sleep(0.02)
    return out


# ---------------------------------------------------------------- replay
def native_run(exe, entry, inputs, params, seed, scratch, timeout=20):
    fd, path = tempfile.mkstemp(dir=scratch)
    with os.fdopen(fd, 'w') as f:
        for k, v in inputs.items():
            f.write('%s %s\n' % (k, v))
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0',
               UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=0', TSAN_OPTIONS='exitcode=66')
    d = tempfile.mkdtemp(dir=scratch)
    try:
        try:
            p = subprocess.run([exe, entry, path, str(seed)] + [str(x) for x in params], capture_output=True, text=True,
                               timeout=timeout, cwd=d, env=env, errors='replace')
            return p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            return 'timeout', (e.stdout or b'').decode('utf8', 'replace') if isinstance(e.stdout, bytes) else '', ''
    finally:
        os.unlink(path)
        shutil.rmtree(d, ignore_errors=True)


def failing_inputs(stdout):
    d = {}
    for l in stdout.split('\n'):
        if l.startswith('INPUT '):
            p = l.split()
            if len(p) == 3:
                d[p[1]] = p[2]
    return d


def confirmed(rc, out, err):
    """does the native run exhibit a failure?"""
    fails = [l[5:] for l in out.split('\n') if l.startswith('FAIL ')]
    if fails:
        return fails[0]
    if rc == 'timeout':
        return 'does not terminate'
    if rc == 99 or 'AddressSanitizer' in err:
        m = re.search(r'AddressSanitizer: (\S+)', err)
        return 'memory error ' + (m.group(1) if m else '')
    if 'ThreadSanitizer: data race' in err:
        return 'data race'
    if isinstance(rc, int) and rc < 0:
        return 'terminated by signal %d %s' % (-rc, err.strip().split('\n')[0][:200])
    return None


def replay(exe, res, fail, scratch, tries, seed0, deadline):
    """tries to reproduce a failed obligation natively"""
    cands = [dict(m) for m in fail['models']] or [{}]
    for m in cands:
        rc, out, err = native_run(exe, res['entry'], m, res['params'], 0, scratch)
        c = confirmed(rc, out, err)
        if c:
            return m, dict(failing_inputs(out), **{k: v for k, v in m.items() if k[0] == '@'}), c, 0
    for k in range(tries):
        if time.time() > deadline:
            break
        m = cands[k % len(cands)]
        if k >= tries // 2:
            # keep only the integer inputs of the model
            m = {a: b for a, b in m.items() if re.match(r'-?\d+$', str(b))}
        if k >= (3 * tries) // 4:
            m = {}
        s = seed0 * 1000 + k + 1
        rc, out, err = native_run(exe, res['entry'], m, res['params'], s, scratch)
        c = confirmed(rc, out, err)
        if c:
            return m, failing_inputs(out), c, s
    return None
