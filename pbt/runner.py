"""Runs the sub-checks of one property, writes evidence and replay files."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pathlib
import resource
import signal
import sys
import time
import traceback
import warnings

REPO = pathlib.Path(os.environ.get('PGF_REPO', '/repo')).resolve()
CTX = mp.get_context('fork')
VERIF = pathlib.Path(__file__).resolve().parent.parent
HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

sys.path.insert(0, str(REPO))
sys.path.append(HYP)        # after site-packages: only Hypothesis comes from it

import numpy as np                                               # noqa: E402
import hypothesis                                                # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings       # noqa: E402
from hypothesis import errors as herr                            # noqa: E402

try:
    # Hypothesis mixes literals found in the source of local modules into the
    # values it draws.  Switched off: what a check generates must depend on
    # the seed only, not on how the code under test is written.
    from hypothesis.internal.conjecture import providers as _prov
    _empty = _prov.Constants()
    _prov._get_local_constants = lambda: _empty
except Exception:                                                # pragma: no cover
    pass

from . import harness as H                                       # noqa: E402

# Hypothesis allows five minutes to shrink one failure: too long for a check
# that has fifteen in all
SHRINK = {'quick': 45, 'thorough': 300}

# wall-clock budget of one shard; reaching it ends the search (it is never a
# violation) and is reported in the evidence
BUDGET = {'quick': 420., 'thorough': 7200.}
START = time.monotonic()


def load(pid):
    import pygfunction
    got = pathlib.Path(pygfunction.__file__).resolve()
    if got != REPO / 'pygfunction' / '__init__.py':
        raise SystemExit(f'pygfunction imported from {got}, not {REPO}')
    for f in sorted((VERIF / 'checks').glob(f'{pid.lower()}_*.py')):
        importlib.import_module(f'checks.{f.stem}')
    if pid not in H.REGISTRY:
        raise SystemExit(f'no check registered for {pid}')


def in_repo(exc):
    """Innermost evidence that an exception came out of the code under test."""
    tb = exc.__traceback__
    hit = False
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(str(REPO / 'pygfunction')):
            hit = True
        tb = tb.tb_next
    return hit


def execute(s, case):
    """Run the predicate on one case.  Returns (ctx, error message or None)."""
    ctx = H.Ctx()
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            s.fn(case, ctx)
        except H.Violation as e:
            return ctx, str(e)
        except herr.UnsatisfiedAssumption:
            raise
        except NoAnswer:
            ctx.hung = True
            return ctx, f'no answer within {LIMIT} s'
        except MemoryError as e:
            ctx.hung = True
            traceback.clear_frames(e.__traceback__)
            return ctx, f'no answer within {MEMORY >> 30} GB of memory'
        except Exception as e:
            last = traceback.extract_tb(e.__traceback__)[-1]
            where = f'[{os.path.basename(last.filename)}:{last.name}]'
            if in_repo(e):
                return ctx, (f'valid input raised {type(e).__name__}: {e} '
                             f'{where}')
            if isinstance(e, UNUSABLE):
                # no case of the unchanged tree gets here: the results are
                # not of a form that can be judged
                return ctx, (f'results cannot be judged: '
                             f'{type(e).__name__}: {e} {where}')
            raise
    return ctx, None


class NoAnswer(BaseException):
    """The time allowed for one case is over."""


UNUSABLE = (ArithmeticError, ValueError, TypeError, LookupError,
            AttributeError, RecursionError)
# seconds for one case; on an idle machine the slowest takes a few
LIMIT = int(os.environ.get('PGF_CASE_LIMIT', '200'))
# bytes of data of one process
MEMORY = 5 << 30


def _expired(signum, frame):
    raise NoAnswer()


def guarded(s, case):
    """execute() within bounds of time."""
    signal.signal(signal.SIGALRM, _expired)
    signal.alarm(LIMIT)
    try:
        return execute(s, case)
    finally:
        signal.alarm(0)


class _Fail(Exception):
    pass


def shard_main(pid, name, shard, n, seed, tier, q):
    out = {'sub': name, 'shard': shard, 'evaluations': 0, 'keys': set(),
           'labels': {}, 'samples': [], 'trivial': 0, 'violation': None,
           'slowest': 0., 'error': None, 'budget_hit': False}
    t0 = time.monotonic()
    resource.setrlimit(resource.RLIMIT_DATA,
                       (MEMORY, resource.RLIM_INFINITY))
    try:
        s = next(x for x in H.REGISTRY[pid] if x.name == name)
        last = {}
        history = []
        stop = BUDGET[tier]

        def body(case):
            if time.monotonic() - START > stop and not last:
                out['budget_hit'] = True
                return
            if last.get('hung'):
                # not tried again: the case is reported as it was found
                return
            out['evaluations'] += 1
            t1 = time.monotonic()
            ctx, err = guarded(s, case)
            out['slowest'] = max(out['slowest'], time.monotonic() - t1)
            key = H.case_key(case)
            h = hashlib.blake2b(key.encode(), digest_size=10).digest()
            if not ctx.trivial:
                if h not in out['keys'] and len(out['samples']) < 2 \
                        and len(key) < 3000:
                    out['samples'].append(json.loads(key))
                out['keys'].add(h)
            else:
                out['trivial'] += 1
            for lab in set(ctx.labels):
                out['labels'][lab] = out['labels'].get(lab, 0) + 1
            if err is not None:
                last['case'] = json.loads(key)
                last['err'] = err
                last['hung'] = ctx.hung
                last['history'] = list(history[-20:])
                raise _Fail(err)
            if len(key) < 3000:
                history.append(json.loads(key))
                del history[:-20]

        from hypothesis.internal.conjecture import engine as _eng
        _eng.MAX_SHRINKING_SECONDS = SHRINK[tier]
        sd = int.from_bytes(hashlib.blake2b(
            f'{seed}/{pid}/{name}/{shard}'.encode(),
            digest_size=6).digest(), 'big')
        test = given(s.strategy)(body)
        test = hypothesis.seed(sd)(test)
        test = settings(
            max_examples=n, deadline=None, database=None,
            derandomize=False, print_blob=False, report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck))(test)
        try:
            test()
        except _Fail:
            out['violation'] = dict(last)
        except (herr.FlakyFailure, herr.Flaky) as e:
            if last:
                out['violation'] = dict(last)
                out['violation']['err'] += '' if last['hung'] else \
                    ' [depends on the preceding cases in the same process]'
            else:
                raise e
        except BaseExceptionGroup:
            if last:
                out['violation'] = dict(last)
            else:
                raise
    except BaseException as e:
        out['error'] = ''.join(traceback.format_exception(e))[-4000:]
    out['wall'] = time.monotonic() - t0
    q.put(out)


def run(pid, tier, seed, only=None, scale=1.0, jobs=None):
    load(pid)
    t0 = time.monotonic()
    subs = [s for s in H.REGISTRY[pid] if only is None or s.name == only]
    tasks = []
    for s in subs:
        n = s.quick if tier == 'quick' else s.thorough
        n = max(1, int(n * scale))
        k = s.shards if tier == 'quick' else max(s.shards, 4)
        k = max(1, min(k, n))
        for i in range(k):
            tasks.append((s.name, i, n // k + (1 if i < n % k else 0)))
    q = CTX.Queue()
    jobs = jobs or min(8, os.cpu_count() or 1)
    pending, running, results = list(tasks), {}, []
    while pending or running:
        while pending and len(running) < jobs:
            name, i, n = pending.pop(0)
            p = CTX.Process(target=shard_main,
                           args=(pid, name, i, n, seed, tier, q))
            p.start()
            running[(name, i)] = p
        try:
            r = q.get(timeout=1.0)
        except Exception:
            for key, p in list(running.items()):
                if not p.is_alive():
                    p.join()
                    try:
                        r = q.get(timeout=2.0)
                    except Exception:
                        running.pop(key)
                        results.append({
                            'sub': key[0], 'shard': key[1], 'evaluations': 0,
                            'keys': set(), 'labels': {}, 'samples': [],
                            'trivial': 0, 'violation': None,
                            'budget_hit': False, 'wall': 0.,
                            'slowest': 0., 'error': f'process died with exit code '
                                     f'{p.exitcode}'})
                        continue
                    results.append(r)
                    running.pop((r['sub'], r['shard'])).join()
            continue
        results.append(r)
        running.pop((r['sub'], r['shard'])).join()
    results.sort(key=lambda r: (r['sub'], r['shard']))
    return finish(pid, tier, seed, results, time.monotonic() - t0,
                  write=only is None)


def finish(pid, tier, seed, results, wall, write=True):
    rc = 0
    violations = []
    seen = set()
    for r in results:
        if r['violation'] and r['sub'] not in seen:
            seen.add(r['sub'])
            v = r['violation']
            path = write_replay(pid, r['sub'], v)
            print(f'VIOLATION property={pid} replay={path}')
            print(f'  sub-check: {r["sub"]}')
            print(f'  {v["err"]}')
            print(f'  case: {json.dumps(v["case"])[:1500]}')
            violations.append({'sub': r['sub'], 'replay': str(path),
                               'message': v['err'][:1000]})
            rc = 1
    errors = [r for r in results if r['error']]
    for r in errors:
        print(f'ERROR in sub-check {r["sub"]} shard {r["shard"]}:\n'
              f'{r["error"]}', file=sys.stderr)
    if errors and rc == 0:
        rc = 2
    known = known_lines(pid)
    for line in known:
        print(line)
    per = {}
    for r in results:
        d = per.setdefault(r['sub'], {
            'evaluations': 0, 'distinct_nontrivial': 0, 'trivial': 0,
            'classes': {}, 'wall_s': 0., 'slowest_case_s': 0.,
            'keys': set(), 'samples': [],
            'budget_hit': False})
        d['evaluations'] += r['evaluations']
        d['trivial'] += r['trivial']
        d['keys'] |= r['keys']
        d['wall_s'] = round(d['wall_s'] + r['wall'], 2)
        d['slowest_case_s'] = round(max(d['slowest_case_s'],
                                        r['slowest']), 2)
        d['budget_hit'] |= r['budget_hit']
        for k, v in r['labels'].items():
            d['classes'][k] = d['classes'].get(k, 0) + v
        if len(d['samples']) < 2:
            d['samples'].extend(r['samples'][:2 - len(d['samples'])])
    samples = []
    for k, d in per.items():
        d['distinct_nontrivial'] = len(d.pop('keys'))
        sm = d.pop('samples')
        samples.extend({'sub': k, 'case': c} for c in sm)
        d['classes'] = dict(sorted(d['classes'].items()))
    total = sum(d['evaluations'] for d in per.values())
    nontriv = sum(d['distinct_nontrivial'] for d in per.values())
    info = H.CHECKS.get(pid, {'rule': '', 'assumptions': []})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total, 'distinct_nontrivial': nontriv,
            'rule': info['rule'], 'samples': samples[:20],
            'sub_checks': per},
        'assumptions': info['assumptions'],
        'wall_s': round(wall, 2), 'violations': len(violations),
        'violation_details': violations}
    if write:
        d = VERIF / 'evidence'
        d.mkdir(exist_ok=True)
        tmp = d / f'.{pid}.{os.getpid()}.tmp'
        tmp.write_text(json.dumps(ev, indent=1, default=H._default) + '\n')
        tmp.rename(d / f'{pid}.json')
    verdict = {0: 'held', 1: 'VIOLATED', 2: 'ERROR'}[rc]
    print(f'{pid} {tier} seed={seed}: {verdict}; {total} cases, {nontriv} '
          f'distinct non-trivial, {wall:.1f} s')
    return rc


def known_lines(pid):
    """KNOWN-FINDING lines: every listed finding of this property that the
    current tree still exhibits (decided by re-running its listed input)."""
    f = VERIF / 'known_findings.json'
    out = []
    if not f.exists():
        return out
    data = json.loads(f.read_text())
    for k in data.get('findings', []):
        if k['property'] != pid:
            continue
        s = next((x for x in H.REGISTRY[pid] if x.name == k['sub']), None)
        if s is None:
            continue
        ctx, err = execute(s, dict(k['case'], __known__=True))
        if err is not None:
            out.append(f'KNOWN-FINDING: property={pid} {k["what"]}')
    return out


def write_replay(pid, name, v):
    d = VERIF / 'replays'
    d.mkdir(exist_ok=True)
    body = {'property': pid, 'sub': name, 'message': v['err'],
            'case': v['case'], 'preceding_cases': v.get('history', [])}
    txt = json.dumps(body, indent=1)
    h = hashlib.blake2b(json.dumps(v['case'], sort_keys=True).encode(),
                        digest_size=5).hexdigest()
    path = d / f'{pid}-{name.replace(" ", "_")}-{h}.json'
    path.write_text(txt + '\n')
    return path


def replay(pid, path):
    load(pid)
    body = json.loads(pathlib.Path(path).read_text())
    s = next(x for x in H.REGISTRY[pid] if x.name == body['sub'])
    ctx, err = guarded(s, body['case'])
    if err is None and body.get('preceding_cases'):
        for c in body['preceding_cases']:
            execute(s, c)
        ctx, err = execute(s, body['case'])
    if err is None:
        print(f'{pid} replay of {path}: the case passes')
        return 0
    print(f'VIOLATION property={pid} replay={path}')
    print(f'  {err}')
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--jobs', type=int)
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        if a.replay:
            rc = replay(a.pid, a.replay)
        else:
            rc = run(a.pid, a.tier, seed, a.only, a.scale, a.jobs)
    except SystemExit as e:
        print(e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
