"""python -m vlib.run C01 [--tier quick|thorough] [--case NAME] [-v]"""
import argparse
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')


def env_setup():
    os.environ.setdefault('SDL_VIDEODRIVER', 'dummy')
    os.environ.setdefault('SDL_AUDIODRIVER', 'dummy')
    os.environ.setdefault('PYGAME_HIDE_SUPPORT_PROMPT', '1')
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    sys.dont_write_bytecode = True
    import warnings
    warnings.filterwarnings('ignore')


def load_check(pid):
    return importlib.import_module('checks.' + pid.lower())


def _child(conn, pid, name, tier, seed, deadline, stack, slice_s, chunk):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except (ValueError, OSError):
        pass
    try:
        from . import engine, load
        load.FUNCS.clear()
        mod = load_check(pid)
        case = [c for c in mod.cases(tier) if c.name == name][0]
        res = engine.explore(case, seed, tier, deadline, stack, slice_s, chunk)
        conn.send(res)
    except BaseException as e:
        conn.send('%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
    finally:
        conn.close()


SLICE = 12.0


def run_cases(pid, cases, tier, seed, budget, jobs, verbose):
    """explore all cases on `jobs` processes; a case that takes longer than a slice hands back its
    unexplored branches, which are shared out"""
    from . import engine
    ctx = mp.get_context('fork')
    end = time.time() + budget
    todo = [(c.name, None, 0) for c in cases]
    byname = {c.name: c for c in cases}
    live, out, pending = [], {}, {c.name: 1 for c in cases}
    chunks = 0
    stop = False
    while (todo or live) and not stop:
        while todo and len(live) < jobs:
            n, st, ch = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, pid, n, tier, seed, end, st, SLICE, ch), daemon=True)
            p.start()
            b.close()
            live.append((n, p, a))
        got = mp.connection.wait([it[2] for it in live], timeout=1.0)
        for it in list(live):
            n, p, a = it
            r = None
            if a in got:
                try:
                    r = a.recv()
                except EOFError:
                    r = 'case process died'
            elif time.time() > end + 60:
                p.kill()
                r = 'killed at the time limit'
            if r is None:
                continue
            p.join(5)
            if p.is_alive():
                p.kill()
            live.remove(it)
            pending[n] -= 1
            if isinstance(r, str):
                out[n] = r
            else:
                left = r.leftover
                r.leftover = []
                if not isinstance(out.get(n), str):
                    out[n] = engine.merge(out.get(n), r)
                    if out[n].violations:
                        stop = True
                    elif out[n].paths >= byname[n].cfg.get('max_paths', 20000):
                        out[n].inconclusive.append('path limit reached')
                        left = []
                if left:
                    k = max(1, min(len(left), jobs))
                    # breadth first: old branches hold the most work
                    for i in range(k):
                        chunks += 1
                        todo.append((n, left[i::k], chunks))
                        pending[n] += 1
            if pending[n] == 0 or stop:
                if not isinstance(out[n], str):
                    engine.final(byname[n], out[n])
                if verbose:
                    report(n, out[n])
        if stop:
            for n, p, a in live:
                p.kill()
    return out


def hunts(cases, out, seed, jobs, seconds):
    ctx = mp.get_context('fork')
    per = seconds * min(1.0, jobs / len(cases))

    def one(conn, c):
        from . import engine
        try:
            conn.send(engine.hunt(c, seed, per))
        except BaseException:
            conn.send(None)
    todo, live = list(cases), []
    while todo or live:
        while todo and len(live) < jobs:
            c = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=one, args=(b, c), daemon=True)
            p.start()
            b.close()
            live.append((c, p, a))
        c, p, a = live.pop(0)
        try:
            r = a.recv() if a.poll(per + 30) else None
        except EOFError:
            r = None
        p.kill()
        if r:
            out[c.name].violations.append(r)
            for _, q, _ in live:
                q.kill()
            return


def report(n, r):
    if isinstance(r, str):
        print('  case %-40s ERROR %s' % (n, r), flush=True)
        return
    print('  case %-40s %6.1fs paths=%d %s obl=%d (norm %d) feas=%d val=%d/%d q=%d st=%.1fs max=%.1f unk=%d cover=%s' % (
        n, r.wall, r.paths, r.outcomes, r.obligations, r.normalised, r.feasible_paths, r.validated,
        r.validation_points, r.stats['queries'], r.stats['time'], r.stats['max_time'], r.stats['unknown'],
        sorted(r.covered)), flush=True)
    for v in r.violations:
        print('     VIOL', v['label'], v['detail'], v['inputs'], v.get('claim', '')[:300], flush=True)
    for i in r.inconclusive[:6]:
        print('     INCONCLUSIVE', i[:600], flush=True)
    for k, t in sorted(r.notes):
        print('     note', k, t, flush=True)


def main(argv=None):
    env_setup()
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--case')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')) or (os.cpu_count() or 4))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    pid = a.pid
    if a.replay:
        return replay(pid, a.replay)
    t0 = time.time()
    mod = load_check(pid)
    cases = mod.cases(tier)
    sel = [c for c in cases if not a.case or a.case in c.name]
    from . import engine
    engine.warm()
    budget = 700 if tier == 'quick' else float(os.environ.get('VERIF_BUDGET', '3300'))
    out = run_cases(pid, sel, tier, seed, budget, a.jobs, a.v)
    for n, r in list(out.items()):
        if isinstance(r, str):
            out[n] = engine.Result(n)
            out[n].stats = {}
            out[n].inconclusive.append(r)
    open_cases = [c for c in sel if c.name in out and out[c.name].inconclusive]
    if getattr(mod, 'HUNT', True) and open_cases and not any(r.violations for r in out.values()):
        hunts(open_cases, out, seed, a.jobs, 60 if tier == 'quick' else 200)
    known = []
    if hasattr(mod, 'known'):
        known = mod.known()
    rc = finish(pid, mod, cases, out, tier, seed, time.time() - t0, known, partial=bool(a.case))
    return rc


def finish(pid, mod, cases, out, tier, seed, wall, known, partial):
    viols, incon = [], []
    agg = dict(queries=0, cached=0, time=0.0, sat=0, unsat=0, unknown=0)
    mx = 0.0
    paths = feas = dec = obl = norm = val = vpts = 0
    funcs, ops, notes = set(), {}, set()
    samples = []
    per = {}
    for c in cases:
        if c.name not in out:
            continue
        r = out[c.name]
        if isinstance(r, str):
            incon.append('%s: %s' % (c.name, r))
            continue
        for v in r.violations:
            viols.append(dict(v, case=c.name))
        incon += ['%s: %s' % (c.name, i) for i in r.inconclusive]
        for k in agg:
            agg[k] += r.stats.get(k, 0)
        mx = max(mx, r.stats.get('max_time', 0))
        paths += r.paths
        feas += r.feasible_paths
        dec += r.new_decisions
        obl += r.obligations
        norm += r.normalised
        val += r.validated
        vpts += r.validation_points
        funcs |= r.funcs
        for k, n in r.ops.items():
            ops[k] = ops.get(k, 0) + n
        notes |= r.notes
        samples += r.samples
        per[c.name] = {'paths': r.paths, 'outcomes': r.outcomes, 'obligations': r.obligations,
                       'wall_s': round(r.wall, 2), 'bounds': c.bounds, 'inputs': r.inputs[:40]}
    os.makedirs(EVID, exist_ok=True)
    rc = 0
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k), flush=True)
    lines = []
    if viols:
        rc = 1
        rd = os.path.join(EVID, 'replay')
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(viols[:5]):
            path = os.path.join(rd, '%s-%d.json' % (pid, i))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'case': v['case'], 'label': v['label'], 'detail': str(v['detail']),
                           'claim': v.get('claim', ''), 'inputs': v['inputs'], 'choices': v['choices'],
                           'tier': tier,
                           'how': 'python -m vlib.run %s --replay %s' % (pid, path)}, f, indent=1)
            print('violated: %s / %s: %s  inputs=%s' % (v['case'], v['label'], v['detail'], json.dumps(v['inputs'])))
            print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
    elif incon:
        rc = 2
        for i in incon[:20]:
            print('INCONCLUSIVE %s' % i[:700], flush=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': feas, 'transitions': dec,
            'traces_validated_against_impl': val,
            'samples': samples[:6] or [{'note': 'no sample'}],
            'paths_explored': paths,
            'obligations_decided': obl, 'obligations_closed_by_normal_form': norm,
            'solver_queries': agg['queries'], 'solver_cache_hits': agg['cached'],
            'solver_verdicts': {k: agg[k] for k in ('sat', 'unsat', 'unknown')},
            'solver_time_s': round(agg['time'], 2), 'slowest_query_s': round(mx, 2),
            'values_compared_in_validation': vpts,
            'functions_encoded': sorted(funcs),
            'torch_operators_encoded': sorted(ops),
            'cases': per,
            'bounds': getattr(mod, 'BOUNDS', ''),
            'outside': getattr(mod, 'OUTSIDE', ''),
            'meaning': 'states = feasible execution paths of the real code that reached the claims; transitions = '
                       'branch decisions put to the solver; traces_validated = witness inputs of explored paths run through the '
                       'unmodified code with every observed value compared',
            'exhaustive': rc == 0 and not partial,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON + sorted(t for k, t in notes if k in ('assume', 'nonzero', 'nonneg', 'nonfinite')),
        'wall_s': round(wall, 2),
        'violations': len(viols),
    }
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d cases, %d paths, %d obligations, %d queries (%.1fs solver), %.1fs, exit %d' % (
        pid, tier, len(per), paths, obl, agg['queries'], agg['time'], wall, rc), flush=True)
    return rc


COMMON = [
    'arithmetic is over the reals: float rounding is outside the claim; float literals mean the short decimal/fraction they denote',
    'PyTorch operators mean what symtensor.py says (validated per run against the installed PyTorch on witness inputs)',
    'PyTorch 1.0 API stand-ins (legacy autograd.Function, btrifact/btrisolve, byte masks) as in vlib/shims.py',
]


def replay(pid, path):
    env_setup()
    from . import engine
    with open(path) as f:
        d = json.load(f)
    mod = load_check(pid)
    case = [c for c in mod.cases(d.get('tier', 'quick')) if c.name == d['case']][0]
    out, det, H = engine.run_concrete(case, d['inputs'], [tuple(c) for c in d['choices']])
    print(out, det)
    return 1 if out in ('violated', 'raised') else 0


if __name__ == '__main__':
    sys.exit(main())
