"""Check runner: obligations, verdicts, evidence, known findings."""
import importlib
import json
import math
import multiprocessing
import os
import signal
import sys
import time
import traceback

from . import alg, values
from .interp import Interp, Program
from .values import AbsRaise, Undecided

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get('HSTAT_ROOT', '/repo/src/hookeai')
EVIDENCE = os.environ.get('HSTAT_EVIDENCE', os.path.join(VERIF, 'evidence'))


class Ctx:
    """Collects obligations of one group."""

    def __init__(self, group, tier):
        self.group, self.tier = group, tier
        self.obs = []
        self.prog = Program(ROOT)
        self.funcs = set()
        self.interps = []

    def interp(self, **kw):
        I = Interp(self.prog, **kw)
        I.funcs_seen = self.funcs
        self.interps.append(I)
        return I

    def refuse(self, rule, construct, f):
        """Obligation: f raises.  When a raise was passed over because its guard
        could not be decided, the answer is undecided."""
        n = [(I, len(I.raises)) for I in self.interps]
        try:
            f()
        except AbsRaise as e:
            return self.ob(rule, construct, True, e)
        except Undecided as e:
            return self.ob(rule, construct, None, f'engine: {e}')
        seen = dict((id(I), k) for I, k in n)
        skipped = [r for I in self.interps for r in I.raises[seen.get(id(I), 0):]]
        unknown = [r for r in skipped if any(str(c) for c, _ in r['facts'] if alg.unknown_cond(c))]
        self.ob(rule, construct, None if unknown else False, 'accepted')

    def ob(self, rule, construct, ok, detail=''):
        """ok: True holds, False violated, None undecided."""
        self.obs.append(dict(rule=rule, construct=construct,
                             verdict='holds' if ok is True else 'violated' if ok is False else 'undecided',
                             detail=str(detail)[:600]))
        return ok

    def same(self, rule, construct, a, b, what=''):
        """Obligation: two tensors / numbers have equal value numbers."""
        ok, d = equal_vals(a, b)
        return self.ob(rule, construct, ok, f'{what} {d}'.strip())

    def run(self, rule, construct, f, raises_ok=False):
        """Analyse f(); engine limits -> undecided; definite exception -> violated."""
        try:
            return f()
        except AbsRaise as e:
            # raised by the request itself (no statement of the repository involved): the interface the
            # analysis asks for is not there, which is no verdict on the property
            self.ob(rule, construct, True if raises_ok else None if e.where is None else False,
                    f'raises {e} at {e.where}')
        except Undecided as e:
            self.ob(rule, construct, None, f'engine: {e}')
        except RecursionError:
            self.ob(rule, construct, None, 'engine: recursion')
        return None


def elems(v):
    from .values import Tensor, PyList, IteV, is_num, to_expr
    if isinstance(v, Tensor):
        return list(v.shape), v.vals()
    if isinstance(v, alg.Expr):
        return [], [v]
    if isinstance(v, IteV):
        sa, va = elems(v.a)
        sb, vb = elems(v.b)
        if sa != sb:
            raise Undecided('shapes')
        return sa, [values.el_merge(v.c, x, y) for x, y in zip(va, vb)]
    if isinstance(v, (bool, alg.Cond)):
        return [], [v]
    if isinstance(v, (list, tuple)):
        out, sh = [], None
        for x in v:
            s, e = elems(x)
            if sh is None:
                sh = s
            out += e
        return [len(v)] + (sh or []), out
    return [], [to_expr(v)]


def equal_vals(a, b, facts=None):
    from .values import ABSENT
    if a is ABSENT:
        return False, 'no such entry'
    sa, va = elems(a)
    sb, vb = elems(b)
    if sa != sb:
        return False, f'shape {sa} != {sb}'
    for i, (x, y) in enumerate(zip(va, vb)):
        if isinstance(x, (bool, alg.Cond)) or isinstance(y, (bool, alg.Cond)):
            if not (isinstance(x, (bool, alg.Cond)) and isinstance(y, (bool, alg.Cond))):
                x, y = alg.as_expr(x), alg.as_expr(y)
            elif isinstance(x, bool) or isinstance(y, bool):
                if x is not y:
                    return False, f'[{i}]: {x!r} vs {y!r}'
                continue
            else:
                if not x == y:
                    return False, f'[{i}]: {x!r} vs {y!r}'
                continue
        if facts:
            x, y = alg.assume_deep(x, facts), alg.assume_deep(y, facts)
        if not alg.equal(x, y) and not tiny_diff(x, y):
            return False, f'[{i}]: {str(x)[:160]} != {str(y)[:160]}'
    return True, ''


def tiny_diff(x, y):
    """Difference explained by a decimal literal of an irrational constant."""
    if x.nan or y.nan:
        return False
    fx, fy = x.fval(), y.fval()
    t = x._fv[1] + y._fv[1]
    try:
        if not abs(fx - fy) <= 1e-9 * t:
            return False
    except (TypeError, OverflowError):
        return False
    for seed in range(6):       # the same at points of other signs
        memo = {}
        (gx, tx), (gy, ty) = alg.feval_at(x, seed, memo), alg.feval_at(y, seed, memo)
        if math.isfinite(gx) and math.isfinite(gy) and not abs(gx - gy) <= 1e-9 * (tx + ty):
            return False
    return True


class Stop(BaseException):
    pass


HARD = [0.0]


def _alarm(*_):
    if time.time() > HARD[0]:
        raise Stop()
    raise Undecided('group time limit')


def _run_group(a):
    mod, name, tier, limit, end = a
    sys.setrecursionlimit(20000)
    m = importlib.import_module('hstat.checks.' + mod)
    groups = dict(m.groups(tier))
    ctx = Ctx(name, tier)
    t = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    # the limit is raised again and again: an inner handler may take it for a
    # single undecided obligation
    soft = max(1.0, min(limit, end - t))
    HARD[0] = t + soft + 25
    signal.setitimer(signal.ITIMER_REAL, soft, 5.0)
    err = warn = None
    try:
        groups[name](ctx)
    except Undecided as e:
        ctx.ob('engine', name, None, f'engine: {e}')
    except Stop:
        ctx.ob('engine', name, None, 'engine: group time limit')
    except AbsRaise as e:
        ctx.ob('no-definite-error', name, None if e.where is None else False, f'raises {e} at {e.where}')
    except KeyError as e:
        name = str(e).strip("'\"").split(' not found')[0].split('.')[-1].split(':')[-1].strip()
        if 'not found' in str(e) and not name.startswith('_'):
            err = f'anchor missing in group {name}: {e}'
        else:
            warn = traceback.format_exc()
    except Exception:
        warn = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if warn:
        # the source has a shape this group does not expect: no verdict for it
        ctx.ob('engine', name, None, 'engine: ' + warn.strip().splitlines()[-1])
        print(f'NOTE group {name}: ' + warn, file=sys.stderr)
        if os.environ.get('HSTAT_STRICT'):
            err = warn
    return dict(group=name, obs=ctx.obs, err=err, funcs=sorted(ctx.funcs), wall=time.time() - t)


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p))['findings'] if x.get('status') == 'known']


def main(argv=None):
    argv = argv or sys.argv[1:]
    pid = argv[0]
    tier = 'quick'
    verbose = '-v' in argv
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    only = argv[argv.index('--group') + 1] if '--group' in argv else None
    t0 = time.time()
    m = importlib.import_module('hstat.checks.' + pid.lower())
    names = [n for n, _ in m.groups(tier)]
    if only:
        names = [n for n in names if only in n]
    limit = getattr(m, 'LIMIT', 240 if tier == 'quick' else 600)
    end = t0 + (720 if tier == 'quick' else 2700)
    jobs = [(pid.lower(), n, tier, limit, end) for n in names]
    nproc = min(int(os.environ.get('HSTAT_PROCS', '8')), len(jobs)) or 1
    if nproc == 1:
        res = [_run_group(j) for j in jobs]
    else:
        with multiprocessing.get_context('fork').Pool(nproc, maxtasksperchild=1) as pool:
            pend = [pool.apply_async(_run_group, (j,)) for j in jobs]
            res = []
            for j, r in zip(jobs, pend):
                try:
                    res.append(r.get(max(0.1, end + 60 - time.time())))
                except multiprocessing.TimeoutError:
                    res.append(dict(group=j[1], err=None, funcs=[], wall=time.time() - t0, obs=[
                        dict(rule='engine', construct=j[1], verdict='undecided', detail='engine: time limit')]))
    obs = [dict(o, group=r['group']) for r in res for o in r['obs']]
    funcs = sorted({tuple(f) for r in res for f in r['funcs']})
    errs = [r['err'] for r in res if r['err']]
    n_h = sum(o['verdict'] == 'holds' for o in obs)
    n_u = sum(o['verdict'] == 'undecided' for o in obs)
    bad = [o for o in obs if o['verdict'] == 'violated']
    known = [k for k in known_findings() if k['property'] == pid]
    used, new = {}, {}
    for o in bad:
        key = f"{o['rule']}|{o['construct']}"
        k = next((k for k in known if k['key'] == key), None)
        if k is not None:
            used[key] = (k, o)
        else:
            new.setdefault(key, o)
    for k, o in used.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '0') or 0),
              level='other' if not hasattr(m, 'LEVEL') else m.LEVEL,
              coverage=dict(
                  explanation='static analysis of the current source under /repo (abstract interpretation / syntax-tree '
                              'dataflow; the analysed code is never imported or run). ' + ' '.join((m.__doc__ or '').split()),
                  obligations=len(obs), discharged=n_h, undecided=n_u, violated=len(bad),
                  rules=sorted({o['rule'] for o in obs}),
                  constructs=len({(o['rule'], o['construct']) for o in obs}),
                  functions_analysed=[f'{a}:{b}' for a, b in funcs][:900],
                  n_functions_analysed=len(funcs),
                  groups=[dict(name=r['group'], obligations=len(r['obs']), wall_s=round(r['wall'], 2)) for r in res],
                  undecided_list=[f"{o['rule']}|{o['construct']}: {o['detail'][:160]}" for o in obs if o['verdict'] == 'undecided'][:60],
              ),
              assumptions=list(getattr(m, 'ASSUMPTIONS', ())) or [
                  'numbers are analysed as exact reals (rounding is outside the domain)',
                  'the listed shapes/dimensions are enumerated, tensor entries are unrestricted'],
              violations=[dict(rule=o['rule'], construct=o['construct'], detail=o['detail'], group=o['group'])
                          for o in new.values()],
              wall_s=round(wall, 3))
    os.makedirs(EVIDENCE, exist_ok=True)
    if not only:
        with open(os.path.join(EVIDENCE, f'{pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if verbose:
        for o in obs:
            if o['verdict'] != 'holds' or '-vv' in argv:
                print(o['verdict'].upper(), o['rule'], '|', o['construct'], '|', o['detail'][:400])
        for r in sorted(res, key=lambda r: -r['wall'])[:6]:
            print(f"   {r['group']}: {len(r['obs'])} obligations, {r['wall']:.1f}s")
    print(f'{pid} [{tier}] obligations={len(obs)} holds={n_h} undecided={n_u} violated={len(bad)} '
          f'known={len(used)} functions={len(funcs)} wall={wall:.1f}s')
    if new:
        rp = os.path.join(EVIDENCE, f'{pid}.violations.json')
        with open(rp, 'w') as f:
            json.dump(list(new.values()), f, indent=1)
        for o in list(new.values())[:20]:
            print(f"  {o['rule']} at {o['construct']}: {o['detail'][:300]}")
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    if errs:
        for e in errs:
            print('ERROR', e, file=sys.stderr)
        return 2
    floor = getattr(m, 'FLOOR', 1)
    if not only and n_h < floor:
        print(f'ERROR only {n_h} obligations decided (floor {floor})', file=sys.stderr)
        return 2
    return 0
