"""Symbolic exploration of one harness (runs in a forked worker)."""
import os
import resource
import sys
import time
import traceback
import numpy as np
from . import sweep, dag, norm, shim, solve, sym, text as symtext
from .harness import RTOL, SH, load_all, quiet, restore, snapshot, flatten, numbered, plain
from .sym import Engine, PathEnd, Sym, Unsupported, lift, is_sym, tnodes, tkey


def _reach(nodes, seen):
    stack = list(nodes)
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.extend(n.args)


def _tracer(funcs, repo):
    def prof(frame, event, arg):
        if event == 'call':
            c = frame.f_code
            if c.co_filename.startswith(repo):
                funcs.add(os.path.relpath(c.co_filename, repo) + ':' + c.co_qualname)
    return prof


def names_for(trees, nodes):
    """variables relevant to the trees and nodes."""
    ns = list(nodes)
    for t in trees:
        ns += tnodes(t)
    return dag.vars_of(ns)


class OutOfTime(BaseException):
    pass


def out_of_time(*a):
    raise OutOfTime()


def explore(hz, seed, repo, deadline):
    t0 = time.time()
    np.random.seed(seed)
    solver = solve.Solver(seed=seed)
    eng = Engine(solver, max_decisions=hz.opts.get('max_decisions', 4000))
    Engine.cur = eng
    load_all()
    snap = snapshot()
    max_paths = hz.opts.get('max_paths', 3000)
    res = dict(name=hz.name, paths=[], obligations=0, discharged=0, failed=[], inconclusive=[], decisions=0,
               known=[], functions=[], assumed_defined=0, infeasible=0, queries=0, feas=0)
    funcs = set()
    work = [[]]
    done = {}
    nmax = 0
    try:
        while work:
            if time.time() > deadline:
                res['inconclusive'].append('time budget exhausted with %d open prefixes' % len(work))
                break
            if sum(1 for f in res['failed'] if not f.get('soft') and not f.get('weak')) >= 4:
                res['inconclusive'].append('stopped at the fourth counterexample')
                break
            if len(res['paths']) >= max_paths:
                res['inconclusive'].append('path budget %d exhausted' % max_paths)
                break
            prefix = work.pop()
            eng.begin(prefix)
            restore(snap)
            symtext.reset()
            h = SH(eng)
            outcome, exc = 'ok', None
            first = not res['paths']
            try:
                with quiet(h):
                    if first:
                        sys.setprofile(_tracer(funcs, repo))
                    try:
                        hz.fn(h, **hz.params)
                    finally:
                        sys.setprofile(None)
            except PathEnd:
                outcome = 'infeasible'
            except Unsupported as e:
                outcome, exc = 'unsupported', '%s @ %s' % (e, _where(e))
            except RecursionError as e:
                outcome, exc = 'unsupported', 'recursion'
            except (Exception, SystemExit) as e:
                outcome, exc = 'exception', '%s: %s @ %s' % (type(e).__name__, str(e)[:200], _where(e))
                etype = type(e).__name__
            finally:
                h.unpatch()
            work += eng.new_work
            res['feas'] += eng.branch_queries
            if outcome == 'infeasible':
                res['infeasible'] += 1
                continue
            res['decisions'] += len(eng.decisions)
            path = list(eng.path)
            # operations whose result nothing observed depends on (branches np.where discards) need not be defined
            used = set()
            for t in path:
                _reach([n for n in sym.tnodes(t)], used)
            for l, v in h.obs:
                if isinstance(v, Sym):
                    _reach([v.n], used)
            for o in h.obl:
                _reach(o[3][:2] if o[1] == 'eq' else list(sym.tnodes(o[3])), used)
            defined = [t for t, n in eng.defined if n.id in used]
            choices = {k: v for k, v in eng.choices.items()}
            ch_idx = dict(eng.choice_idx)
            pid = len(res['paths'])
            allv = sorted(dag.VARS)
            allv = [v for v in allv if v != '__dummy']
            # witness
            env, predicted = None, {}
            obs = numbered(h.obs)
            seen = path + defined
            w = solver.witness(seen, allv) if allv else ({} if _consts_ok(seen) else None)
            rec = dict(pid=pid, outcome=outcome, exc=exc, choices=ch_idx, env=w, eqs=any(_has_eq(t) for t in path), pred={})
            if outcome == 'exception':
                rec['etype'] = etype
            if w is not None:
                ns, ls = [], []
                for l, v in obs:
                    if isinstance(v, Sym):
                        ns.append(v.n)
                        ls.append(l)
                    elif not is_sym(v):
                        rec['pred'][l] = _js(v)
                if ns:
                    vals = dag.evaluate(ns, {k: np.array([x]) for k, x in w.items()})
                    for l, v in zip(ls, vals):
                        rec['pred'][l] = float(np.asarray(v).reshape(-1)[0])
            res['paths'].append(rec)
            for fid, text in h.known:
                res['known'].append((fid, text, pid))
            if outcome == 'unsupported':
                res['inconclusive'].append('path %d: %s' % (pid, exc))
            # obligations
            for label, kind, npath, data, detail in h.obl:
                pc = path[:npath]
                key = (label, kind, tuple(tkey(t) for t in pc),
                       (data[0].id, data[1].id) if kind == 'eq' else tkey(data))
                if key in done:
                    continue
                if sum(1 for f in res['failed'] if not f.get('soft') and not f.get('weak')) >= 4:
                    break
                res['obligations'] += 1
                r, cand, score = discharge(solver, pc, kind, data, hz.opts)
                done[key] = r
                if r == 'proved':
                    res['discharged'] += 1
                    continue
                # candidate counterexample
                cands, small = [], []
                trees = list(pc) + defined
                goal = None
                if kind == 'eq':
                    L, R, rtol, atol = data

                    def sc(e, L=L, R=R, rtol=rtol, atol=atol):
                        a, b = dag.evaluate([L, R], e)
                        n = len(next(iter(e.values())))
                        a, b = np.broadcast_to(a, (n,)), np.broadcast_to(b, (n,))
                        return np.abs(a - b) / (rtol * np.maximum(np.abs(a), np.abs(b)) + atol + 1e-300)
                    wit = solver.witness(trees, allv, score=sc, hints=[cand] if cand else ()) if allv else {}
                    if wit is not None:
                        cands.append(wit)
                else:
                    wit = solver.witness(trees + [sym.tnot(data)], allv, hints=[cand] if cand else ()) if allv else {}
                    if wit is not None:
                        cands.append(wit)
                if cand:
                    c2 = {k: cand.get(k, wit[k] if wit else 0.5 * sum(dag.VARS[k][1:3])) for k in allv}
                    cands.append(c2)
                if kind == 'eq':
                    # a difference that vanishes in extended precision is rounding, not a counterexample
                    small = [] if rtol > RTOL else [(c,) + v for c in cands for v in [sweep.values(L, R, c)]
                                                      if v and abs(v[0] - v[1]) > 1e-8 * max(abs(v[0]), abs(v[1])) + atol]
                    cands = [c for c in cands if sweep.differ(L, R, c, rtol, atol) is not False]
                weak = wit is None or not cands
                if not cands and w is not None:
                    cands.append(w)
                res['failed'].append(dict(weak=weak, label=label, verdict=r, detail=detail, pid=pid, choices=ch_idx,
                                          cands=cands[:3], small=small[:3], show=_show(kind, data)))
            # definedness (denominators, log arguments): proved, or left as a recorded assumption
            for t in defined:
                key = ('def', tkey(t))
                if key in done:
                    continue
                done[key] = 1
                if len(done) < 400 and hz.opts.get('defined', True):
                    k, mod = solve.prove(path, t, timeout_ms=1500)
                    if k == 'unsat':
                        continue
                    res['assumed_defined'] += 1
                    if k == 'sat' and mod:
                        wit = solver.witness(path + [sym.tnot(t)], allv, hints=[mod], rounds=10)
                        if wit is not None:
                            res['failed'].append(dict(label='*', verdict='undefined', detail='undefined operation', pid=pid,
                                                      choices=ch_idx, cands=[wit], show=sym_show(t), soft=True))
                else:
                    res['assumed_defined'] += 1
    except OutOfTime:
        sys.setprofile(None)
        res['inconclusive'].append('time budget exhausted')
    S = solve.STATS
    res.update(functions=sorted(funcs), queries=S.queries, solver_s=round(S.time, 3), unsat=S.unsat, sat=S.sat,
               unknown=S.unknown, sampled=S.sampled, wall=round(time.time() - t0, 2),
               rss=resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024, nvars=len(dag.VARS),
               bounds={k: v[1:3] for k, v in list(dag.VARS.items())[:60]}, nodes=dag._count[0])
    return res


def _has_eq(t):
    if t[0] == 'eq':
        return True
    return any(_has_eq(x) for x in t[1:] if isinstance(x, tuple))


def _consts_ok(trees):
    return all(sym.teval_iv(t) is not False for t in trees)


def _js(v):
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return repr(v)


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if '/pyrtlib/' in f.filename] or tb
    return '%s:%s' % (os.path.basename(fr[-1].filename), fr[-1].lineno)


def sym_show(t):
    if t[0] in ('lt', 'le', 'eq', 'ne'):
        return t[0] + ' ' + dag.show(t[1], 4)[:300]
    return t[0]


def _show(kind, data):
    if kind == 'eq':
        return 'L=%s ; R=%s' % (dag.show(data[0], 5)[:300], dag.show(data[1], 5)[:300])
    return sym_show(data)


def discharge(solver, pc, kind, data, opts):
    to = opts.get('timeout_ms', 15000)
    if kind == 'tree':
        if data == ('const', True):
            # still a query: the (trivial) goal is implied
            return 'proved', None, None
        if data == ('const', False):
            return 'sat', None, None
        q = sym.teval_iv(data)
        if q is True:
            return 'proved', None, None
        if sym.Engine.cur is not None and any(tkey(t) == tkey(data) for t in pc):
            return 'proved', None, None
        k, mod = solve.prove(pc, data, timeout_ms=to)
        if k == 'unsat':
            return 'proved', None, None
        return k, mod, None
    L, R, rtol, atol = data
    if L.id == R.id:
        # identical terms after hash-consing: the query L != R is unsatisfiable syntactically
        k = solve.trivial_equal()
        return 'proved', None, None
    tol = opts.get('tol', solve.EQ_TOL if rtol <= 1e-6 else rtol)
    k, mod = solve.prove_equal(pc, L, R, timeout_ms=to, tol=tol)
    if k == 'unsat':
        return 'proved', None, None
    return k, mod, None
