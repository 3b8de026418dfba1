#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--only SUBSTR] [--replay FILE] [-v]"""
import argparse
import importlib
import json
import math
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PYRTLIB_REPO', '/repo')
ENV = dict(PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg',
           PYTHONHASHSEED='0')
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def worker(hz, seed, deadline, conn):
    try:
        import resource
        lim = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        from symx import shim, explore
        shim.install(REPO)
        signal.signal(signal.SIGALRM, explore.out_of_time)
        signal.setitimer(signal.ITIMER_REAL, max(1.0, deadline - time.time()) + 20.0)
        r = explore.explore(hz, seed, REPO, deadline)
    except BaseException as e:
        import traceback
        r = dict(name=hz.name, error='%s: %s' % (type(e).__name__, e), tb=traceback.format_exc()[-2500:])
    signal.setitimer(signal.ITIMER_REAL, 0)
    try:
        conn.send(r)
    finally:
        conn.close()
        os._exit(0)


def confirmed(r, module, tmp):
    """does a counterexample of this harness reproduce against the real code?"""
    runs = [dict(name=r['name'], env=c, choices=f['choices']) for f in r.get('failed', []) if not f.get('soft') and not f.get('weak') for c in f['cands']]
    return any(o['fails'] or (o['outcome'] == 'exception' and o.get('incode')) for o in concrete(module, runs[:6], tmp))


def run_all(hs, seed, budget, jobs, verbose, module, tmp):
    ctx = mp.get_context('fork')
    pend = sorted(hs, key=lambda h: -h.opts.get('cost', 1))
    live, out = [], []
    end = time.time() + budget
    while pend or live:
        while pend and len(live) < jobs:
            h = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(h, seed, end, b))
            p.start()
            b.close()
            live.append((h, p, a))
        time.sleep(0.01)
        for item in list(live):
            h, p, a = item
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(name=h.name, error='worker died')
            elif not p.is_alive():
                r = dict(name=h.name, error='worker died (exit %s)' % p.exitcode) if not a.poll() else a.recv()
            elif time.time() > end + 60:
                p.kill()
                r = dict(name=h.name, error='worker over budget')
            if r is not None:
                p.join(5)
                live.remove(item)
                out.append(r)
                if verbose:
                    print('   ', r['name'], {k: r.get(k) for k in ('obligations', 'discharged', 'queries', 'wall', 'rss', 'error')},
                          len(r.get('paths', [])), flush=True)
                if any(f['cands'] and not f.get('soft') and not f.get('weak') for f in r.get('failed', [])) and confirmed(r, module, tmp):
                    # the verdict is in: the remaining harnesses could only add to it
                    for _, q, _ in live:
                        q.kill()
                    return out
    return out


def concrete(module, runs, tmp):
    if not runs:
        return []
    nc = min(8, max(1, len(runs) // 4))
    chunks = [runs[i::nc] for i in range(nc)]
    procs = []
    for i, c in enumerate(chunks):
        jf, of = os.path.join(tmp, 'job%d.json' % i), os.path.join(tmp, 'res%d.json' % i)
        json.dump(dict(verif=HERE, repo=REPO, module=module, runs=c), open(jf, 'w'))
        env = dict(os.environ, PYTHONPATH=HERE)
        procs.append((c, of, subprocess.Popen([sys.executable, '-m', 'symx.concrete', jf, of], cwd=HERE, env=env,
                                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    res = {}
    for c, of, p in procs:
        try:
            so = p.communicate(timeout=300)[0]
        except subprocess.TimeoutExpired:
            p.kill()
            so = 'concrete replay timed out'
        if p.returncode != 0 or not os.path.exists(of):
            for r in c:
                res[id(r)] = dict(outcome='error', exc=so[-1500:], fails=[], obs={}, known=[], checked=0)
            continue
        for r, o in zip(c, json.load(open(of))):
            res[id(r)] = o
        os.unlink(of)
    return [res[id(r)] for r in runs]


def close(a, b, rtol=2e-6, atol=1e-12):
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= rtol * max(abs(a), abs(b)) + atol


def reproduced(o, expect):
    """the real code shows the difference the solver found, though it is below the tolerance of the concrete run."""
    label, l, r, d = expect
    return any(abs((x - y) - d) <= 0.2 * abs(d) and close(x, l, 1e-6) and close(y, r, 1e-6) for x, y in o.get('pairs', []))


def load_known():
    known = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('KNOWN '):
                d = dict(x.split('=', 1) for x in line.split()[1:3])
                known[(d['property'], d['id'])] = line
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--selfcheck', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    if a.selfcheck:
        from symx import solve, norm  # noqa: F401
        print('engine ready')
        sys.exit(0)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    module = a.prop.lower()
    tmp = tempfile.mkdtemp(prefix='symx_')
    try:
        rc = check(a, module, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def check(a, module, seed, tmp, t0):
    import warnings
    warnings.simplefilter('ignore')
    import pandas, netCDF4, requests, bs4  # noqa: F401  (shared with the forked workers)
    import sklearn.neighbors  # noqa: F401
    import matplotlib.pyplot  # noqa: F401
    from symx import harness as H, solve  # noqa: F401
    mod = importlib.import_module('checks.' + module)
    if a.replay:
        rp = json.load(open(a.replay))
        r = concrete(module, [rp['run']], tmp)[0]
        print(json.dumps(r, indent=1)[:4000])
        return 1 if (r['fails'] or r['outcome'] == 'exception' or rp['run'].get('expect') and reproduced(r, rp['run']['expect'])) else 0
    hs = [h for h in H.REG if (a.tier == 'thorough' or h.opts['tier'] == 'quick') and (not a.only or a.only in h.name)]
    if a.tier == 'thorough':
        hs = [h for h in hs if not h.opts.get('quick_only')]
    budget = getattr(mod, 'BUDGET', {}).get(a.tier, 400 if a.tier == 'quick' else 3000)
    res = run_all(hs, seed, budget, a.jobs, a.v, module, tmp)
    known = load_known()
    errors, violations, findings = [], [], {}
    runs = []
    for r in res:
        if 'error' in r:
            errors.append('%s: %s' % (r['name'], r['error']))
            if a.v:
                print(r.get('tb'))
            continue
        for e in r['inconclusive']:
            errors.append('%s: inconclusive: %s' % (r['name'], e))
        for p in r['paths']:
            if p['env'] is not None:
                runs.append(dict(name=r['name'], env=p['env'], choices=p['choices'], kind='path', rec=p))
            elif p['outcome'] == 'exception':
                errors.append('%s path %d: %s (no witness found)' % (r['name'], p['pid'], p['exc']))
        for f in r['failed']:
            for c in f['cands']:
                runs.append(dict(name=r['name'], env=c, choices=f['choices'], kind='cex', rec=f))
            for c, l, r_, d in f.get('small', []):
                runs.append(dict(name=r['name'], env=c, choices=f['choices'], kind='cex', rec=f, expect=(f['label'], l, r_, d)))
            if not f['cands']:
                f['open'] = True
    slim = [dict(name=x['name'], env=x['env'], choices=x['choices'], expect=x.get('expect')) for x in runs]
    outs = concrete(module, slim, tmp)
    validated = mism = noWitness = 0
    vio_keys = {}
    samples = []

    def violation(run, label, text):
        key = (run['name'], label)
        if key in vio_keys:
            return
        vio_keys[key] = True
        os.makedirs(os.path.join(HERE, 'out'), exist_ok=True)
        fn = os.path.join(HERE, 'out', '%s_%d.json' % (a.prop, len(vio_keys)))
        json.dump(dict(property=a.prop, harness=run['name'], label=label, detail=text, module=module,
                       run=dict(name=run['name'], env=run['env'], choices=run['choices'], expect=run.get('expect'))), open(fn, 'w'), indent=1)
        violations.append((label, text, fn, run['name']))

    mismatches = []
    for run, o in zip(runs, outs):
        rec = run['rec']
        if o['outcome'] == 'error':
            errors.append('concrete replay failed: ' + o['exc'])
            continue
        for fid, text in o['known']:
            if (a.prop, fid) in known:
                findings[fid] = text
            else:
                violation(run, fid, text)
        if o['fails']:
            lab, det = o['fails'][0]
            for lab, det in o['fails'][:3]:
                violation(run, lab, det)
            rec['confirmed'] = True
            continue
        if o['outcome'] == 'exception':
            if run['kind'] == 'cex' and not o.get('incode'):
                continue
            if run['kind'] == 'path' and not o.get('incode'):
                mismatches.append('%s path %s: concrete harness raised %s' % (run['name'], rec.get('pid'), o['exc']))
            else:
                violation(run, 'exception', o['exc'])
                rec['confirmed'] = True
            continue
        if run['kind'] == 'cex':
            if run.get('expect') and reproduced(o, run['expect']):
                violation(run, rec['label'], '%r vs expected %r' % tuple(run['expect'][1:3]))
                rec['confirmed'] = True
            continue
        if rec['outcome'] == 'exception':
            mismatches.append('%s path %d: symbolic run raised %s but the real code did not' % (run['name'], rec['pid'], rec['exc']))
            continue
        if o['outcome'] == 'skip':
            noWitness += 1
            continue
        bad = [(l, v, o['obs'].get(l, '<missing>')) for l, v in rec['pred'].items()
               if not (l in o['obs'] and close(v, o['obs'][l]))]
        if bad and not rec['eqs'] and rec['outcome'] == 'ok':
            bad2 = [b for b in bad if not (isinstance(b[1], float) and isinstance(b[2], float) and close(b[1], b[2], 1e-4, 1e-9))]
            if bad2:
                mismatches.append('%s path %d: predicted %s' % (run['name'], rec['pid'], bad2[:3]))
                mism += 1
                continue
        validated += 1
        if len(samples) < 6:
            samples.append(dict(harness=run['name'], choices=run['choices'], input={k: run['env'][k] for k in list(run['env'])[:8]},
                                observed=dict(list(o['obs'].items())[:4])))
    # undecided obligations that no concrete run confirmed
    for r in res:
        for f in r.get('failed', []):
            if f.get('soft') or f.get('confirmed'):
                continue
            if any(v[3] == r['name'] for v in violations):
                continue
            errors.append('%s: obligation %s %s and no counterexample reproduced (%s) %s' % (
                r['name'], f['label'], f['verdict'], f['detail'], f['show'][:600]))
    errors += mismatches
    ok = [r for r in res if 'error' not in r]
    tot = lambda k: sum(r[k] for r in ok)
    npaths = sum(len(r['paths']) for r in ok)
    if not violations:
        for r in ok:
            if not any(p['env'] is not None for p in r['paths']):
                errors.append('%s: vacuous (no feasible witness)' % r['name'])
            elif r['obligations'] == 0:
                errors.append('%s: vacuous (no obligation)' % r['name'])
    funcs = sorted({f for r in ok for f in r['functions']})
    ev = dict(property=a.prop, tier=a.tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2),
              coverage=dict(states=npaths, transitions=tot('decisions'), traces_validated_against_impl=validated,
                            samples=samples, harnesses=len(ok), infeasible_paths=tot('infeasible'),
                            obligations=tot('obligations'), discharged=tot('discharged'),
                            queries=dict(total=tot('queries'), unsat=tot('unsat'), sat=tot('sat'), unknown=tot('unknown'),
                                         branch_feasibility=tot('feas'), branch_side_witnessed_by_point=tot('sampled')),
                            solver_time_s=round(tot('solver_s'), 2), functions_encoded=funcs,
                            paths_without_concrete_witness=sum(1 for r in ok for p in r['paths'] if p['env'] is None) + noWitness,
                            bounds=[dict(harness=r['name'], symbolic_inputs=r['nvars'], paths=len(r['paths']),
                                         obligations=r['obligations'], wall_s=r['wall'],
                                         ranges={k: list(v) for k, v in list(r['bounds'].items())[:12]}) for r in ok][:80]),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + [
                  'arithmetic is modelled over the reals; equalities are decided coefficient-wise with relative tolerance 1e-9',
                  '%d side conditions (non-zero denominators, positive logarithm arguments) not proved and taken as preconditions' % tot('assumed_defined')],
              bounds_statement=getattr(mod, 'BOUNDS', '') + ('; integer-typed arguments at a few whole numbers each' if hasattr(mod, 'whole_numbers') else ''),
              known_findings=sorted(findings),
              violations=[dict(label=v[0], detail=v[1], replay=v[2], harness=v[3]) for v in violations])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not a.only:
        json.dump(ev, open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w'), indent=1)
    for fid, text in sorted(findings.items()):
        print('KNOWN-FINDING: property=%s %s: %s' % (a.prop, fid, text))
    print('%s %s: %d harnesses, %d paths, %d/%d obligations discharged, %d queries (%.1f s solver), %d traces validated, %.1f s' % (
        a.prop, a.tier, len(ok), npaths, tot('discharged'), tot('obligations'), tot('queries'), tot('solver_s'), validated, time.time() - t0))
    for e in errors[:12]:
        print('ERROR', e[:900])
    for lab, text, fn, hn in violations:
        print('  %s %s: %s' % (hn, lab, str(text)[:200]))
        print('VIOLATION property=%s replay=%s' % (a.prop, fn))
    if violations:
        return 1
    return 2 if errors else 0


if __name__ == '__main__':
    main()
