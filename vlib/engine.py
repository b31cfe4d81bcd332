"""Runs one case: symbolic exploration, then concrete replay of whatever looked wrong."""
import json
import math
import os
import random
import time
import traceback

import torch

from . import terms as T
from . import symtensor as S
from . import shims, load
from .explore import Ctx, Cfg, Stop, Witness, variants
from .harness import SymH, ConcH, Violated, Inadmissible, sample
from .solver import Solver, Stats


class Case:
    """name: unique in the check; fn(H): the harness; cover: labels that must be reachable"""

    def __init__(self, name, fn, cover=(), fake_ode=False, allow_raise=None, rtol=1e-6, bounds='', **cfg):
        self.name, self.fn, self.cover = name, fn, tuple(cover)
        self.fake_ode, self.cfg, self.rtol, self.bounds = fake_ode, cfg, rtol, bounds


class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.feasible_paths = 0
        self.outcomes = {}
        self.decisions = 0
        self.new_decisions = 0
        self.obligations = 0
        self.normalised = 0
        self.violations = []       # dict(label, detail, inputs, choices)
        self.inconclusive = []     # strings
        self.notes = set()
        self.covered = set()
        self.validated = 0
        self.validation_points = 0
        self.samples = []
        self.stats = {}
        self.funcs = set()
        self.ops = {}
        self.wall = 0.0
        self.inputs = []


def run_concrete(case, inputs, choices, collect=False, rng=None):
    """returns ('ok'|'violated'|'inadmissible'|'raised', label/detail, H)"""
    shims.install_torch10()
    holder = {}
    log = []

    def chooser(n, tag):
        return holder['H'].take(n, tag)
    sh, bi = shims.conc_repo(log, chooser, case.fake_ode)
    R = load.Repo(sh, bi)
    # (a hunt tries extreme inputs: only what rounding cannot explain counts)
    hunting = rng is not None or 'hunt!' in inputs
    H = ConcH(R, inputs, choices, rtol=max(case.rtol, 1e-4), atol=1e-4) if hunting else ConcH(R, inputs, choices, rtol=case.rtol, collect=collect)
    H.log, H.rng = log, rng
    H.hunting = hunting
    H.angle_div = case.cfg.get('angle_div', 1)
    holder['H'] = H
    old = torch.get_default_dtype()
    import random as _r
    st = _r.getstate()
    _r.seed(12345)
    torch.manual_seed(0)
    try:
        with shims.ByteMasks():
            case.fn(H)
    except Violated as v:
        return 'violated', (v.label, v.detail), H
    except Inadmissible as e:
        return 'inadmissible', str(e), H
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(load.REPO)]
        loc = '%s:%s' % (os.path.relpath(where[-1].filename, load.REPO), where[-1].name) if where else 'harness'
        return 'raised', ('raises %s' % type(e).__name__, '%s at %s' % (e, loc), loc), H
    finally:
        torch.set_default_dtype(old)
        _r.setstate(st)
    if H.violations:
        return 'violated', H.violations[0], H
    return 'ok', None, H


def try_replay(case, label, cands, choices, rng, expect_raise=False):
    """look for a concrete reproduction near the solver's models"""
    tried = 0
    last = None
    for base in cands:
        for k in range(9):
            inp = dict(base)
            if k:
                mag = 10.0 ** -(9 - k)
                for n in inp:
                    inp[n] = inp[n] + mag * rng.uniform(-1, 1) * (1 + abs(inp[n]))
            tried += 1
            out, det, H = run_concrete(case, inp, choices)
            last = (out, det)
            if out == 'violated':
                return {'label': det[0], 'detail': det[1], 'inputs': inp, 'choices': choices, 'wanted': label}
            if out == 'raised' and det[2] != 'harness':
                return {'label': det[0], 'detail': det[1], 'inputs': inp, 'choices': choices, 'wanted': label}
    return {'failed': True, 'last': repr(last), 'tried': tried}


def hunt(case, seed, seconds):
    """the solver left something open in this case: look for a counterexample by running it.  (Finding none settles nothing.)"""
    rng = random.Random('hunt/%s/%s' % (seed, case.name))
    end = time.time() + seconds
    fixed = set()
    while time.time() < end:
        inp = {}
        out, det, H = run_concrete(case, inp, [], rng=rng)
        base = H.inputs
        vs = list(variants(base, fixed))
        rng.shuffle(vs)
        for v in [None] + vs[:6]:
            if v is not None:
                out, det, H = run_concrete(case, v, H.taken if rng.random() < .5 else [], rng=rng)
            if out == 'violated' or (out == 'raised' and det[2] != 'harness'):
                inputs, choices = dict(H.inputs, **{'hunt!': 1}), list(H.taken)
                o2, d2, _ = run_concrete(case, inputs, choices)
                if o2 == 'raised':
                    # singular inputs raise, rightly: only what also happens all around counts
                    for _ in range(3):
                        near = {n: x if n == 'hunt!' else x * (1 + rng.uniform(-1e-3, 1e-3)) + rng.uniform(-1e-3, 1e-3) for n, x in inputs.items()}
                        if run_concrete(case, near, choices)[0] != out:
                            o2 = None
                if o2 == out:
                    return {'label': det[0], 'detail': det[1], 'inputs': inputs, 'choices': choices, 'wanted': 'undecided',
                            'claim': 'found by running a case the solver left undecided'}
            if time.time() > end:
                break
    return None


def explore(case, seed, tier, deadline=None, stack=None, slice_s=None, chunk=0):
    t0 = time.time()
    res = Result(case.name)
    cfgk = dict(case.cfg)
    cfg = Cfg(**cfgk)
    stats = Stats()
    solver = Solver(stats)
    rng = random.Random('%s/%s/%s' % (seed, case.name, chunk))
    load.trace_functions()
    shims.install_torch10()
    if stack is None:
        stack = [([], None, [])]
    res.leftover = []
    seen_labels = {}
    limit = t0 + cfg.time_limit
    if deadline:
        limit = min(limit, deadline)
    while stack:
        if time.time() > limit:
            res.inconclusive.append('time limit reached with %d branches unexplored after %d paths' % (len(stack), res.paths))
            break
        if res.paths >= cfg.max_paths:
            res.inconclusive.append('path limit %d reached' % cfg.max_paths)
            break
        if slice_s and time.time() - t0 > slice_s and stack:
            res.leftover = stack
            break
        prefix, wits, _ = stack.pop()
        T.reset_universe()
        T.universe().angle_div = cfg.angle_div
        if wits is None:
            wits = [{} for _ in range(cfg.witnesses)]
        ctx = Ctx(solver, cfg, prefix, wits, rng)
        ctx.late = bool(res.inconclusive)
        if ctx.late:
            limit = min(limit, max(time.time(), t0) + 60)
        T.set_ctx(ctx)
        log = []
        outcome, detail, exc = 'ok', '', None
        old = torch.get_default_dtype()
        with S.symbolic_torch(), shims.ByteMasks():
            sh, bi = shims.sym_repo(log, ctx.choose)
            R = load.Repo(sh, bi)
            H = SymH(ctx, R)
            H.log = log
            try:
                case.fn(H)
                if ctx.dead is not None:
                    raise ctx.dead
            except Stop as s:
                outcome, detail = s.outcome, s.detail
            except T.NonFinite as e:
                outcome, detail = 'nonfinite', str(e)
            except T.Unsupported as e:
                outcome, detail = 'unsupported', '%s @ %s' % (e, _loc(e))
            except T.Blowup as e:
                outcome, detail = 'blowup', '%s @ %s' % (e, _loc(e))
            except RecursionError as e:
                outcome, detail = 'unsupported', 'recursion'
            except Exception as e:
                if ctx.dead is not None:
                    outcome, detail = ctx.dead.outcome, ctx.dead.detail
                else:
                    if os.environ.get('VERIF_TRACE'):
                        traceback.print_exc()
                    outcome, detail, exc = 'raised', '%s: %s @ %s' % (type(e).__name__, e, _loc(e)), e
        torch.set_default_dtype(old)
        res.paths += 1
        res.outcomes[outcome] = res.outcomes.get(outcome, 0) + 1
        res.decisions += ctx.decisions
        res.new_decisions += ctx.new_decisions
        res.obligations += ctx.n_obl
        res.normalised += ctx.n_norm
        for n in ctx.notes:
            res.notes.add(n)
        stack.extend(ctx.alts)
        if not res.inputs:
            res.inputs = [(i.name, i.kind, _s(i.lo), _s(i.hi)) for i in ctx.inputs]
        # an abnormal ending is a claim about reachability: try to reproduce
        if outcome in ('raised', 'nonfinite', 'unsupported', 'blowup'):
            feas, cands = path_models(ctx, cfg)
            if feas == 'unsat':
                outcome = 'infeasible'
            elif outcome == 'nonfinite' and cfg.zero_policy == 'assume':
                res.notes.add(('nonfinite', 'paths that divide by exactly zero are outside the claim: %s' % detail))
            else:
                key = (outcome, detail)
                if seen_labels.get(key, 0) < 2:
                    seen_labels[key] = seen_labels.get(key, 0) + 1
                    r = try_replay(case, outcome, cands, ctx.choices, rng)
                    if not r.get('failed'):
                        res.violations.append(r)
                    else:
                        res.inconclusive.append('%s: %s (replay: %s)' % (outcome, detail, r['last']))
        for f in ctx.failed:
            key = f['label']
            if f['unknown']:
                res.inconclusive.append('undecided: %s' % f['info'])
                continue
            if seen_labels.get(('v', key), 0) >= 1 or seen_labels.get(('n', key), 0) >= 6:
                continue
            r = try_replay(case, key, f['cands'], f['choices'], rng)
            if not r.get('failed'):
                r['claim'] = f['info']
                res.violations.append(r)
                seen_labels[('v', key)] = 1
            else:
                seen_labels[('n', key)] = seen_labels.get(('n', key), 0) + 1
                res.inconclusive.append('counterexample not reproduced: %s (replay %s)' % (f['info'], r['last']))
        if outcome == 'ok':
            good = [w for w in ctx.wit if all(w.agrees(p) for p in ctx.pc)]
            ok = bool(good)
            if not ok and (not res.feasible_paths or not set(case.cover) <= res.covered) and ctx.pc:
                r, env = solver.check(ctx.pc, 10.0, True)
                ok = r == 'sat'
            elif not ctx.pc:
                ok = True
            if ok:
                res.feasible_paths += 1
                res.covered |= ctx.covered
            if good and res.validated < (6 if tier == 'quick' else 24):
                validate(case, ctx, good[0], res)
        if len(res.violations) >= 3:
            break
    if not slice_s:
        final(case, res)
    res.stats = stats.as_dict()
    res.funcs = set(load.FUNCS)
    res.ops = dict(S.OPS_USED)
    res.wall = time.time() - t0
    return res


def final(case, res):
    for c in case.cover:
        if c not in res.covered and not res.violations and not res.inconclusive:
            res.inconclusive.append('vacuous: no feasible path reaches %r' % c)
    if not res.feasible_paths and not res.violations and not res.inconclusive:
        res.inconclusive.append('vacuous: no feasible path completes')
    if not res.obligations and not res.violations and not res.inconclusive:
        res.inconclusive.append('vacuous: no obligation reached')


def merge(a, b):
    if a is None:
        return b
    for k in ('paths', 'feasible_paths', 'decisions', 'new_decisions', 'obligations', 'normalised', 'validated',
              'validation_points', 'wall'):
        setattr(a, k, getattr(a, k) + getattr(b, k))
    for k, v in b.outcomes.items():
        a.outcomes[k] = a.outcomes.get(k, 0) + v
    for k, v in b.ops.items():
        a.ops[k] = a.ops.get(k, 0) + v
    a.violations += b.violations
    a.inconclusive += b.inconclusive
    a.notes |= b.notes
    a.covered |= b.covered
    a.funcs |= b.funcs
    a.samples = (a.samples + b.samples)[:2]
    a.inputs = a.inputs or b.inputs
    for k, v in b.stats.items():
        a.stats[k] = max(a.stats.get(k, 0), v) if 'max' in k else a.stats.get(k, 0) + v
    return a


def warm():
    """import what forked workers would each import again"""
    def h(H):
        a = H.tensor([H.real('a'), H.real('b')], requires_grad=True)
        y = (a * a).sum().sqrt() / (1 + a.dot(a)) + torch.cat([a, a]).norm() + torch.atan2(a[0], a[1])
        H.grads(y, [a])
        torch.inverse(torch.eye(2, dtype=torch.double))
        H.true('x', True)
    explore(Case('warm', h), 1, 'quick')
    S.OPS_USED.clear()


def _s(x):
    return None if x is None else str(x)


def _loc(e):
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if f.filename.startswith(load.REPO):
            return '%s:%d' % (os.path.relpath(f.filename, load.REPO), f.lineno)
    f = tb[-1]
    return '%s:%d' % (os.path.basename(f.filename), f.lineno)


def path_models(ctx, cfg):
    from .explore import model_inputs, robustify
    from fractions import Fraction
    cands = [dict(w.inputs) for w in ctx.wit]
    if not ctx.pc:
        return 'sat', cands or [dict(ctx.base_inputs)]
    feas = 'sat' if cands else None
    if len(cands) < 2:
        for eps in (Fraction(1, 50), None):
            pcs = [robustify(a, eps) if eps else a for a in ctx.pc]
            r, env = ctx.solver.check(pcs, 8.0, True)
            if r == 'sat':
                cands.append(model_inputs(env, ctx.base_inputs))
                feas = 'sat'
                break
            if eps is None and feas is None:
                feas = r
    return feas or 'unknown', cands


def validate(case, ctx, wit, res):
    """push a witness of the path through the real code and compare every observed value"""
    out, det, H = run_concrete(case, wit.inputs, ctx.choices, collect=True)
    if out == 'inadmissible':
        return
    edge = any(wit.truth(p) is not True for p in ctx.pc)
    if out in ('violated', 'raised'):
        if ctx.failed:
            return
        if edge:
            res.notes.add(('validation', 'a witness on a branch boundary was not compared (rounding decides the branch)'))
            return
        # the symbolic run proved the claims, the concrete run disagrees
        if out == 'violated' and ': d out' in det[0]:
            # finite differences across a tie that rounding decides
            rng = random.Random(7)
            near = {k: v + 1e-3 * rng.uniform(-1, 1) for k, v in wit.inputs.items()}
            if run_concrete(case, near, ctx.choices, collect=True)[0] != 'violated':
                res.notes.add(('validation', 'a witness on a branch boundary was not compared (rounding decides the branch)'))
                return
        res.inconclusive.append('encoding mismatch: symbolic path passes, concrete run %s %r at %r' % (out, det, wit.inputs))
        return
    labs = [l for l, _ in ctx.obs]
    if labs != [l for l, _ in H.obs]:
        res.notes.add(('validation', 'a witness followed another path concretely (rounding at a boundary or a pivot choice)'))
        return
    n = 0
    for (l, s), (_, v) in zip(ctx.obs, H.obs):
        if s is None or v is None:
            continue
        try:
            x = wit.sym(s)
        except (OverflowError, ZeroDivisionError, KeyError):
            continue
        if x != x:
            continue
        n += 1
        if isinstance(v, float) and abs(x - v) > 1e-5 * (1 + max(abs(x), abs(v))) * (100 if ': d out' in l else 1):
            if edge:
                res.notes.add(('validation', 'a witness on a branch boundary was not compared (rounding decides the branch)'))
                return
            res.inconclusive.append('encoding mismatch at %s: symbolic %r, concrete %r, inputs %r' % (l, x, v, wit.inputs))
            return
    res.validated += 1
    res.validation_points += n
    if len(res.samples) < 2:
        res.samples.append({'case': case.name, 'inputs': {k: round(v, 6) for k, v in wit.inputs.items()},
                            'choices': ctx.choices[:20], 'values_compared': n,
                            'observed': [[l, v] for l, v in H.obs[:6]]})
