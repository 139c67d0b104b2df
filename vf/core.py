"""Runner: generated-input search, shrinking, replay files, evidence.

A check module (vf/checks/cNN.py) exposes
    PROPERTY = 'Cnn'
    RULE     = text: how cases are made and what makes one non-trivial
    SUBS     = [Sub(name, strategy, run, quick=N, thorough=M), ...]
A case is plain JSON data drawn by a Hypothesis strategy; run(case, rec) builds real objects, drives the real
code and raises Violation(kind, message) when the oracle is broken.  Because a case is data, replaying one needs no
Hypothesis: `check.sh Cnn --replay FILE` calls run() on the saved case.
"""
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
from collections import Counter
from dataclasses import dataclass
from typing import Any, Callable

from vf.boot import VERIF, REPO

NPROC = int(os.environ.get('VERIF_NPROC', '8'))
SHRINK_S = {'quick': float(os.environ.get('VERIF_SHRINK', '25')), 'thorough': 90.0}
RETRIES, RETRY_S = 12, 60.0    # a failing case is replayed in fresh processes until it fails again
CASE_CPU_S = 60.0    # CPU seconds, two to three orders of magnitude above any case of the unchanged tree
CAP_S = {'quick': 420.0, 'thorough': 780.0}


class Violation(Exception):
    def __init__(self, kind: str, msg: str = '', **data):
        super().__init__(f'{kind}: {msg}')
        self.kind = kind
        self.msg = msg
        self.data = data


class StopShard(KeyboardInterrupt):
    """Ends a shard from inside a Hypothesis test (never interpreted as a failing case)."""


class Discard(Exception):
    """The generated case lies outside the property's domain (counted, not checked)."""


@dataclass
class Sub:
    name: str
    strategy: Any                                   # Hypothesis strategy -> JSON-able case, or None for enumerated
    run: Callable[[Any, 'Rec'], None]
    quick: int = 400
    thorough: int = 4000
    cases: Callable[[str], list] | None = None      # enumerated cases (tier) -> list; used instead of strategy
    shards: int | None = None


class Rec:
    """What a case turned out to be."""

    def __init__(self):
        self.nontriv = False
        self.labels: list[str] = []

    def nontrivial(self, cond=True):
        if cond:
            self.nontriv = True

    def label(self, *names):
        self.labels.extend(n for n in names if n)


@contextlib.contextmanager
def sut(kind: str, *allow: type[BaseException]):
    """Code under test runs inside: an exception it raises is a violation of kind `kind`, unless allowed."""
    try:
        yield
    except (Violation, Discard, StopShard):
        raise
    except allow:
        raise
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f'{os.path.relpath(f.filename, REPO)}:{f.name}' for f in reversed(tb)
                      if f.filename.startswith(REPO + os.sep)), 'outside sampo')
        raise Violation(kind, f'{type(e).__name__}: {str(e)[:300]} (in {where})', exc=type(e).__name__,
                        where=where) from e


def require(cond, kind: str, msg='', **data):
    if not cond:
        raise Violation(kind, msg() if callable(msg) else msg, **data)


def reset_globals():
    import numpy as np
    random.seed(12345)
    np.random.seed(12345)
    from sampo.base import SAMPO
    from sampo.backend.default import DefaultComputationalBackend
    SAMPO.backend = DefaultComputationalBackend()


def canon(case) -> str:
    return json.dumps(case, sort_keys=True, separators=(',', ':'), default=str)


def load_known(prop: str) -> dict:
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {e['id']: e for e in data.get('findings', []) if e['property'] == prop}


def run_case(mod, sub: Sub, case, rec: Rec, known: dict):
    """Returns None (held), ('known', id) ; raises Violation."""
    reset_globals()
    case = json.loads(canon(case))      # exactly what a replay file would hold
    def out_of_cpu(*_):
        raise Violation('hang', f'one case used more than {CASE_CPU_S} s of CPU (typical: well under 1 s)')

    signal.signal(signal.SIGVTALRM, out_of_cpu)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            sub.run(case, rec)
    except Violation as v:
        for fid, pred in getattr(mod, 'KNOWN', {}).items():
            if fid in known and pred(sub.name, case, v):
                return 'known', fid
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return None


def shard_main(modname, subname, tier, seed, n, idx, nshards, deadline, conn):
    try:
        res = _shard(modname, subname, tier, seed, n, idx, nshards, deadline)
    except BaseException as e:  # noqa: BLE001
        res = {'error': ''.join(traceback.format_exception(e))[-4000:]}
    res['sub'] = subname
    res['shard'] = idx
    conn.send(res)
    conn.close()


def _shard(modname, subname, tier, seed, n, idx, nshards, deadline):
    mod = importlib.import_module(modname)
    sub = next(s for s in mod.SUBS if s.name == subname)
    known = load_known(mod.PROPERTY)
    st = {'evals': 0, 'discards': 0, 'labels': Counter(), 'nontriv': set(), 'samples': [], 'known': Counter(),
          'fail': None, 'first_fail': None, 'fail_t': None, 'error': None, 'capped': False, 'known_ex': {}}

    def one(case):
        if time.time() > deadline:
            st['capped'] = True
            raise StopShard()
        if st['fail_t'] is not None and time.time() - st['fail_t'] > SHRINK_S[tier]:
            raise StopShard()
        rec = Rec()
        text = canon(case)
        try:
            r = run_case(mod, sub, case, rec, known)
        except Discard:
            if st['fail'] is None:
                st['discards'] += 1
            return
        except Violation as v:
            item = (text, v.kind, str(v))
            if st['fail'] is None:
                st['fail_t'] = time.time()
                st['first_fail'] = item
                st['fail'] = item
            elif len(text) <= len(st['fail'][0]):
                st['fail'] = item
            raise
        except StopShard:
            raise
        except Exception as e:   # harness error: stop at once, never called a violation
            st['error'] = f'case: {text[:3000]}\n' + ''.join(traceback.format_exception(e))[-3500:]
            raise StopShard()
        if st['fail'] is not None:
            return              # shrinking: not part of the statistics
        st['evals'] += 1
        for lb in rec.labels:
            st['labels'][lb] += 1
        if r is not None:
            st['known'][r[1]] += 1
            st['known_ex'].setdefault(r[1], text[:1500])
        if rec.nontriv:
            h = hashlib.blake2b(text.encode(), digest_size=10).hexdigest()
            if h not in st['nontriv']:
                st['nontriv'].add(h)
                if len(st['samples']) < 2 or (len(st['samples']) < 4 and len(text) < 600):
                    st['samples'].append(text[:1200])

    try:
        if sub.cases is not None:
            allc = sub.cases(tier)
            for c in allc[idx::nshards]:
                try:
                    one(c)
                except Violation:
                    break
        else:
            import hypothesis
            from hypothesis import given, settings, HealthCheck, Phase
            h = int.from_bytes(hashlib.blake2b(f'{seed}/{subname}/{idx}'.encode(), digest_size=6).digest(), 'big')

            @hypothesis.seed(h)
            @settings(max_examples=n, database=None, deadline=None, print_blob=False,
                      suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                      phases=(Phase.generate, Phase.shrink))
            @given(sub.strategy)
            def test(case):
                one(case)

            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                test()
    except StopShard:
        pass
    except Violation:
        pass
    except Exception as e:  # noqa: BLE001  (Hypothesis-level: flaky etc.)
        if st['fail'] is None:
            st['error'] = ''.join(traceback.format_exception(e))[-3500:]
    out = dict(st)
    out['nontriv'] = list(st['nontriv'])
    out.pop('fail_t')
    return out


def replay(modname, subname, case) -> tuple[str, str]:
    """-> ('held'|'known'|'violation'|'error', text) in the current process."""
    mod = importlib.import_module(modname)
    sub = next(s for s in mod.SUBS if s.name == subname)
    known = load_known(mod.PROPERTY)
    try:
        r = run_case(mod, sub, case, Rec(), known)
        return ('known', r[1]) if r else ('held', '')
    except Discard:
        return 'held', 'discarded'
    except Violation as v:
        return 'violation', str(v)
    except Exception as e:  # noqa: BLE001
        return 'error', ''.join(traceback.format_exception(e))[-3000:]


def _replay_child(modname, subname, text, conn):
    try:
        conn.send(replay(modname, subname, json.loads(text)))
    except BaseException as e:  # noqa: BLE001
        conn.send(('error', repr(e)))
    conn.close()


def kill_tree(p):
    """ends a process started here and the processes it started"""
    def below(pid):
        try:
            with open(f'/proc/{pid}/task/{pid}/children') as f:
                kids = [int(x) for x in f.read().split()]
        except OSError:
            return []
        return [y for k in kids for y in below(k)] + kids
    kids = below(p.pid) if p.is_alive() else []
    p.kill()
    for k in kids:
        try:
            os.kill(k, 9)
        except OSError:
            pass


def replay_fresh(ctx, modname, subname, text):
    a, b = ctx.Pipe(False)
    p = ctx.Process(target=_replay_child, args=(modname, subname, text, b))
    p.start()
    b.close()
    out = ('error', 'replay process died or timed out')
    try:
        if a.poll(120):
            out = a.recv()
    except EOFError:
        pass
    kill_tree(p)
    p.join()
    return out


def main(prop: str, tier: str, only: str | None = None, scale: float = 1.0) -> int:
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    modname = f'vf.checks.{prop.lower()}'
    mod = importlib.import_module(modname)
    known = load_known(prop)
    ctx = mp.get_context('fork')
    deadline = t0 + CAP_S[tier]
    jobs = []
    for sub in mod.SUBS:
        if only and sub.name != only:
            continue
        n = max(1, int((sub.quick if tier == 'quick' else sub.thorough) * scale))
        k = sub.shards or NPROC
        if sub.cases is None:
            k = max(1, min(k, n // 5 or 1))
        per = -(-n // k)
        for i in range(k):
            jobs.append((modname, sub.name, tier, seed, per, i, k, deadline))
    # interleave so that every sub-check gets going early; the order is fixed
    jobs.sort(key=lambda j: j[5])
    running, results, fails, errors = [], [], [], []
    stop = False
    while (jobs and not stop) or running:
        while jobs and not stop and len(running) < NPROC:
            job = jobs.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=shard_main, args=(*job, b))
            p.start()
            b.close()
            running.append((p, a, job))
        time.sleep(0.01)
        for item in list(running):
            p, a, job = item
            got = None
            if a.poll(0):
                try:
                    got = a.recv()
                except EOFError:
                    got = {'error': f'shard {job[1]}/{job[5]} died without a result', 'sub': job[1]}
            elif not p.is_alive() and not a.poll(0):
                got = {'error': f'shard {job[1]}/{job[5]} died (exit {p.exitcode})', 'sub': job[1]}
            elif time.time() > deadline + SHRINK_S[tier] + 60:
                kill_tree(p)
                got = {'capped': True, 'sub': job[1], 'hung': True}
            if got is None:
                continue
            p.join(5)
            if p.is_alive():
                p.kill()
            running.remove(item)
            results.append(got)
            if got.get('error'):
                errors.append(got)
            if got.get('fail'):
                fails.append(got)
                stop = True
        if stop and running:
            # let shards that are already failing/shrinking go; kill the rest
            for p, a, job in running:
                kill_tree(p)
                p.join()
            running = []
    wall = time.time() - t0

    labels, known_n, nontriv, samples = {}, Counter(), set(), []
    evals = discards = 0
    capped = any(r.get('capped') for r in results)
    per_sub = {}
    known_ex = {}
    for r in results:
        evals += r.get('evals', 0)
        discards += r.get('discards', 0)
        per_sub[r['sub']] = per_sub.get(r['sub'], 0) + r.get('evals', 0)
        d = labels.setdefault(r['sub'], Counter())
        d.update(r.get('labels', {}))
        known_n.update(r.get('known', {}))
        for k2, v2 in r.get('known_ex', {}).items():
            known_ex.setdefault(k2, v2)
        nontriv.update(f"{r['sub']}:{h}" for h in r.get('nontriv', []))
    by_sub = {}
    for r in results:
        by_sub.setdefault(r['sub'], []).extend(r.get('samples', []))
    for s, lst in by_sub.items():
        for text in sorted(lst, key=len)[len(lst) // 2:][:1] + sorted(lst, key=len)[:1]:
            samples.append({'sub': s, 'case': text})

    violation = None
    again = time.time() + RETRY_S
    for turn in range(RETRIES):      # what depends on the order in which processes end may need several replays
        for r in fails:
            for item in (r['fail'], r['first_fail']):
                text, kind, msg = item
                status, info = replay_fresh(ctx, modname, r['sub'], text)
                if status == 'violation':
                    violation = (r['sub'], text, kind, info)
                    break
            if violation:
                break
        if violation or not fails or time.time() > again:
            break
    if fails and not violation:
        errors.append({'error': 'a failing case did not fail again when replayed in a fresh process: '
                                + json.dumps(fails[0]['fail'])[:3000]})

    coverage = {
        'evaluations': evals,
        'distinct_nontrivial': len(nontriv),
        'rule': mod.RULE,
        'samples': samples[:12],
        'per_subcheck': per_sub,
        'discarded_out_of_domain': discards,
        'classes': {s: dict(sorted(c.items())) for s, c in labels.items()},
        'known_findings_hit': dict(known_n),
        'stopped_by_time_cap': capped,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': coverage,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2),
          'violations': 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)

    print(f'{prop} [{tier}] seed={seed}: {evals} cases, {len(nontriv)} distinct non-trivial, {wall:.1f}s'
          + (' (stopped by the time cap)' if capped else ''))
    for fid, e in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {e['what']} [{fid}; met {known_n.get(fid, 0)} times in this run]")
    if violation:
        sname, text, kind, info = violation
        rdir = os.path.join(VERIF, 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{prop}-{sname}-{hashlib.blake2b(text.encode(), digest_size=5).hexdigest()}.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'sub': sname, 'kind': kind, 'message': info, 'case': json.loads(text)}, f,
                      indent=1)
        print(f'  {sname}: {info}')
        print(f'  replay with: bash {VERIF}/check.sh {prop} --replay {path}')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if errors:
        for e in errors[:3]:
            print('HARNESS ERROR: ' + str(e.get('error')), file=sys.stderr)
        return 3
    return 0
