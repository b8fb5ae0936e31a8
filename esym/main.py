"""Driver: python3 check.py PROPERTY [--tier quick|thorough] [--only ENTRY] [-v]"""
import argparse
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import sys
import tempfile
import time

from . import run as R

KNOWN = os.path.join(R.ROOT, 'known_findings.txt')
ASSUME = [
    'double arithmetic is exact real arithmetic in mode=real harnesses (rounding is outside the claim); '
    'transcendental functions are uninterpreted with their algebraic laws',
    'denominators are non-zero unless the harness says div=check',
    'bounds are the job parameters listed in coverage.jobs; larger sizes are outside the claim',
    'C++ streams, exceptions and the red-black tree are the models in /verif/model; everything else of libstdc++ '
    'and all of the repository code is encoded from its LLVM IR',
]


def harnesses(prop):
    out = []
    for f in sorted(glob.glob(os.path.join(R.ROOT, 'harness', '*.cpp'))):
        m = re.search(r'^//#\s+(.*)$', open(f).read(), re.M)
        if m and prop in m.group(1).split():
            out.append(f)
    return out


def known(prop):
    out = []
    try:
        for l in open(KNOWN):
            m = re.match(r'finding:\s+property=(\S+)\s+at=(\S+)\s+(.*)$', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def defs_of(src):
    m = re.search(r'^//!\s*defs\s+(.*)$', open(src).read(), re.M)
    return m.group(1).split() if m else []


def replay_failure(b, natives, r, f, seed, log):
    """tries to reproduce a failed obligation on the natively compiled code"""
    src = [s for s in natives if os.path.basename(s) == r['src']][0]
    exe = natives[src].result()
    if exe is None:
        return None
    tries = []
    for m in f['models']:
        tries.append((m, 0))
    for k in range(24):
        m = f['models'][k % len(f['models'])] if f['models'] else {}
        tries.append((m, 1000 * seed + k + 1))
    t0 = time.time()
    for m, s in tries:
        if time.time() - t0 > 40:
            break
        rc, out, err = R.native_run(exe, r['entry'], m, r['params'], s, b.work)
        w = R.confirmed(rc, out, err)
        if w:
            ins = R.failing_inputs(out) or m
            # the recorded inputs reproduce it
            rc2, out2, err2 = R.native_run(exe, r['entry'], ins, r['params'], 0, b.work)
            if R.confirmed(rc2, out2, err2):
                return w, ins
            return w, m
    return None


def replay_failures(b, natives, results, seed, kn, budget):
    """replays the failed obligations, those of different assertions first,
    until enough are confirmed; {id of the failure: confirmation}"""
    rounds = {}
    for r in results:
        count = {}
        for f in r.get('failed', []):
            if f['verdict'] == 'skipped':
                continue
            k = count[f['label']] = count.get(f['label'], 0) + 1
            # solved ones before the undecided ones
            rounds.setdefault((k, 0 if f['models'] else 1), []).append((r, f))
    todo = [x for k in sorted(rounds) for x in rounds[k]]
    t0 = time.time()
    out = {}
    done = set()
    new = [0]

    def one(x):
        r, f = x
        key = (str(r['job']), f['label'])
        if new[0] >= 6 or time.time() > t0 + budget or key in done:
            return
        c = replay_failure(b, natives, r, f, seed, None)
        if c:
            done.add(key)
            out[id(f)] = c
            if not [y for y in kn if y[0] == '%s:%s' % (r['entry'], f['label'].replace(' ', '_'))]:
                new[0] += 1
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        list(ex.map(one, todo))
    return out


def main(argv):
    if argv == ['--setup']:
        # nothing is kept between runs: this only makes sure that the tools are there
        with tempfile.TemporaryDirectory(prefix='esym.') as d:
            b = R.Build(d)
            b.support()
            import z3
            print('clang, support library and z3 %s are usable: %s' % (z3.get_version_string(), sorted(os.listdir(d))))
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--only')
    ap.add_argument('--job')
    ap.add_argument('--params')
    ap.add_argument('--limit', type=float)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--vv', action='store_true')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    limit = a.limit or (420 if a.tier == 'quick' else 3000)
    deadline = t0 + limit
    work = tempfile.mkdtemp(prefix='esym.')
    try:
        return check(a, seed, t0, deadline, work)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


def check(a, seed, t0, deadline, work):
    prop = a.prop
    b = R.Build(work)
    if a.replay:
        return do_replay(b, a.replay)
    srcs = harnesses(prop)
    if not srcs:
        print('no harness for', prop)
        return 2
    pool = cf.ThreadPoolExecutor(max_workers=8)
    b.support()
    jobs = {s: [j for j in R.jobs_of(s, a.tier, prop) if (not a.only or j.entry == a.only) and
                (not a.params or ','.join(map(str, j.params)) == a.params)] for s in srcs}
    srcs = [s for s in srcs if jobs[s]]
    bcf = {s: pool.submit(b.bitcode, s, defs_of(s)) for s in srcs}
    natives = {s: pool.submit(b.native, s, defs_of(s)) for s in srcs}
    fns = {s: pool.submit(b.functions, s, sorted(set(j.entry for j in jobs[s])), defs_of(s)) for s in srcs}
    bcs = {s: f.result() for s, f in bcf.items()}
    todo = [j for s in srcs if bcs[s] for j in jobs[s]]
    tcomp = time.time() - t0
    todo.sort(key=lambda j: -float(j.opts.get('time', '0')))
    results = R.run_jobs(todo, bcs, a.tier, deadline, None)
    violations = []
    incon = ['%s does not compile: %s' % (k, v.split('\n')[0][:300]) for k, v in b.errors.items()]
    findings = []
    kn = known(prop)
    ob = di = paths = steps = 0
    solver = 0.0
    queries = 0
    traces = 0
    functions = {}
    stubs = set()
    samples = []
    jobrec = []
    mismatches = []
    results.sort(key=lambda r: str(r.get('job')))
    tv = time.time()
    runs = 0
    confirmed = replay_failures(b, natives, results, seed, kn, 240 if a.tier == 'quick' else 900)
    for r in results:
        ob += r.get('obligations', 0)
        di += r.get('discharged', 0)
        paths += r.get('paths', 0)
        steps += r.get('steps', 0)
        solver += r.get('solver_s', 0)
        queries += r.get('queries', 0) + r.get('feas_queries', 0)
        for k, v in r.get('functions', {}).items():
            functions[k] = max(functions.get(k, 0), v if isinstance(v, int) else 1)
        stubs |= set(r.get('stubs', []))
        jobrec.append({'job': r['job'], 'paths': r.get('paths', 0), 'obligations': r.get('obligations', 0),
                       'discharged': r.get('discharged', 0), 'wall_s': round(r.get('wall', 0), 2),
                       'reached': sorted(r.get('reach', {})), 'error': r.get('error')})
        if a.v and (a.vv or r.get('error') or r.get('failed') or r.get('wall', 0) > 8 or not r.get('reach') or len(results) < 8):
            print('  %-32s paths=%d steps=%d obl=%d ok=%d (nf=%d smt=%d const=%d) q=%d/%d solver=%.1fs wall=%.1fs %s %s' % (
                r['job'], r.get('paths', 0), r.get('steps', 0), r.get('obligations', 0), r.get('discharged', 0),
                r.get('normal_form', 0), r.get('smt', 0), r.get('constant', 0), r.get('queries', 0),
                r.get('feas_queries', 0), r.get('solver_s', 0), r.get('wall', 0), r.get('reach', {}), r.get('endings', {})))
            if r.get('error'):
                print('     ERROR', r['error'], r.get('trace', ''))
        if r.get('error'):
            incon.append('%s: %s' % (r['job'], r['error']))
        elif not r.get('reach'):
            incon.append('%s: no end of the harness is reachable' % r['job'])
        done = {}
        shown = {}
        for f in r.get('failed', []):
            if a.v and not shown.get(f['label']):
                shown[f['label']] = 1
                print('     FAILED', f['label'], f['verdict'], [dict(list(m.items())[:12]) for m in f['models'][:1]])
            if f['verdict'] in ('skipped',):
                continue
            if done.get(f['label']):
                continue
            c = confirmed.get(id(f))
            if c:
                done[f['label']] = 1
                w, ins = c
                k = [x for x in kn if x[0] == '%s:%s' % (r['entry'], f['label'].replace(' ', '_'))]
                if k:
                    findings.append(k[0][1])
                else:
                    violations.append((r, f, w, ins))
            else:
                x = '%s: %s not discharged (%s), no concrete failure' % (r['job'], f['label'], f['verdict'])
                if x not in incon:
                    incon.append(x)
        for w in r.get('witness', []):
            src = [s for s in natives if os.path.basename(s) == r['src']][0]
            exe = natives[src].result()
            if exe is None:
                continue
            rc, out, err = R.native_run(exe, r['entry'], w['inputs'], r['params'], 0, work)
            c = R.confirmed(rc, out, err)
            if c and not violations:
                mismatches.append('%s: native run of witness for %s: %s' % (r['job'], w['label'], c))
            elif 'REACH ' + w['label'] in out:
                traces += 1
            elif a.v:
                print('     witness for %s not reproduced (rc=%s) %s %s' % (w['label'], rc, out[-300:], err[-300:]))
            if len(samples) < 6:
                samples.append({'job': r['job'], 'reached': w['label'], 'inputs': dict(list(w['inputs'].items())[:24])})
        # the harness on the real code with arbitrary inputs (agreement of the
        # executor with the compiled code; not part of the verdict)
        if r.get('reach') and not r.get('failed') and time.time() < tv + (200 if a.vv else 25):
            exe = natives[[s for s in natives if os.path.basename(s) == r['src']][0]].result()
            for k in range(6):
                if exe is None:
                    break
                rc, out, err = R.native_run(exe, r['entry'], {}, r['params'], 7000 + 100 * seed + k, work)
                c = R.confirmed(rc, out, err)
                if c:
                    mismatches.append('%s: native run with arbitrary inputs (seed %d): %s' % (r['job'], 7000 + 100 * seed + k, c))
                elif 'REACH ' in out:
                    runs += 1
                else:
                    continue
                break
    for s in natives:
        if not natives[s].done():
            natives[s].result()
    pool.shutdown()
    reported = []
    if violations:
        rd = os.path.join(R.ROOT, 'replays')
        os.makedirs(rd, exist_ok=True)
        for i, (r, f, w, ins) in enumerate(violations[:5]):
            p = os.path.join(rd, '%s-%d.json' % (prop, i))
            with open(p, 'w') as fh:
                json.dump({'property': prop, 'harness': r['src'], 'entry': r['entry'], 'params': r['params'],
                           'assertion': f['label'], 'observed': w, 'inputs': ins,
                           'replay': 'python3 check.py %s --replay %s' % (prop, p)}, fh, indent=1)
            reported.append('VIOLATION property=%s replay=%s' % (prop, p))
            print(reported[-1])
            print('  %s: %s; observed on the real code: %s' % (r['job'], f['label'], w))
    for f in sorted(set(findings)):
        print('KNOWN-FINDING: property=%s %s' % (prop, f))
    for m in mismatches:
        print('MISMATCH', m)
    for m in incon[:40]:
        print('INCONCLUSIVE', m)
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': paths, 'transitions': steps, 'traces_validated_against_impl': traces + runs, 'samples': samples,
            'obligations': ob, 'discharged': di, 'solver_queries': queries, 'solver_s': round(solver, 2),
            'functions_encoded': sorted(set(x for s in fns for x in fns[s].result())),
            'ir_functions_executed': len(functions), 'external_models_used': sorted(stubs),
            'jobs': jobrec, 'inconclusive': incon, 'mismatches': mismatches,
            'explanation': 'states = symbolic paths explored to their end, transitions = LLVM instructions executed '
                           'symbolically, obligations = assertions decided (SMT or polynomial normal form)',
            'compile_s': round(tcomp, 2)},
        'assumptions': ASSUME, 'wall_s': round(wall, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(R.ROOT, 'evidence'), exist_ok=True)
    if not (a.only or a.params):
        with open(os.path.join(R.ROOT, 'evidence', prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
    print('%s %s: %d jobs, %d paths, %d instructions, %d/%d obligations discharged, %d queries, solver %.1fs, '
          '%d witnesses replayed, %d runs agree, wall %.1fs' % (prop, a.tier, len(results), paths, steps, di, ob, queries, solver, traces, runs, wall))
    if violations:
        return 1
    if not results or not ob:
        # nothing could be analysed
        return 2
    return 0


def do_replay(b, path):
    d = json.load(open(path))
    src = os.path.join(R.ROOT, 'harness', d['harness'])
    exe = b.native(src, defs_of(src))
    if not exe:
        print(b.errors)
        return 2
    rc, out, err = R.native_run(exe, d['entry'], d['inputs'], d['params'], 0, b.work)
    print(out, err)
    return 1 if R.confirmed(rc, out, err) else 0
