"""Deterministic-simulation engine: process zygote, pristine oracle, run loop,
trace minimiser, replay files, evidence.

One integer (VERIF_SEED) decides everything.  Run *i* of property P uses
``random.Random(f"{seed}/{P}/{i}")`` to generate a complete, concrete JSON trace
(operations, values, schedule decisions, fault points).  Executing a trace draws
no randomness at all, so a trace file *is* the replay file.

Process layout
--------------
zygote (this process): imports the code under test, never runs any of it.
  +- run child (one fork per trace): executes the trace on the real code.
  |    +- oracle server: forked from the run child *before* it executed anything,
  |         +- one fork per reference evaluation, so every reference value comes
  |            from a process in which nothing else has ever happened.
"""

import gc
import hashlib
import json
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback

from . import seams

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold on this history."""

    def __init__(self, kind, msg, **info):
        super().__init__(f'{kind}: {msg}')
        self.kind = kind
        self.msg = msg
        self.info = info


class HarnessError(Exception):
    """Something in the simulator itself went wrong (never reported as a violation)."""


# ----------------------------------------------------------------- pipes


def _send(fd, obj):
    data = pickle.dumps(obj, protocol=4)
    data = struct.pack('>Q', len(data)) + data
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


def _recv_exact(fd, n):
    buf = bytearray()
    while len(buf) < n:
        chunk = os.read(fd, min(1 << 20, n - len(buf)))
        if not chunk:
            raise EOFError
        buf += chunk
    return bytes(buf)


def _recv(fd):
    (n,) = struct.unpack('>Q', _recv_exact(fd, 8))
    return pickle.loads(_recv_exact(fd, n))


# ----------------------------------------------------------------- oracle


class Oracle:
    """Reference evaluations, each in its own pristine process."""

    def __init__(self, functions):
        self.functions = functions
        self.cache = {}
        self.calls = 0
        req_r, req_w = os.pipe()
        res_r, res_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(req_w)
            os.close(res_r)
            try:
                self._serve(req_r, res_w)
            finally:
                os._exit(0)
        os.close(req_r)
        os.close(res_w)
        self.pid = pid
        self.req, self.res = req_w, res_r

    def _serve(self, req, res):
        while True:
            try:
                name, args = _recv(req)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    try:
                        out = ('ok', self.functions[name](*args))
                    except BaseException as e:  # noqa: BLE001
                        out = ('fail', f'{type(e).__name__}: {e}', traceback.format_exc())
                    _send(res, out)
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def __call__(self, name, *args):
        key = hashlib.sha256(pickle.dumps((name, args), protocol=4)).digest()
        if key in self.cache:
            return self.cache[key]
        self.calls += 1
        _send(self.req, (name, args))
        out = _recv(self.res)
        if out[0] != 'ok':
            raise HarnessError(f'oracle {name}: {out[1]}\n{out[2]}')
        self.cache[key] = out[1]
        return out[1]

    def close(self):
        os.close(self.req)
        os.close(self.res)
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass


# ----------------------------------------------------------------- run context


class Ctx:
    """What a scenario sees while it executes a trace."""

    def __init__(self, oracle, scratch):
        self.oracle = oracle
        self.scratch = scratch
        self.log = hashlib.sha256()
        self.events = []
        self.stats = {}
        self.faults = {}
        self.distinct = set()
        self.checks = 0
        self.steps = 0
        self.op_index = -1

    def begin(self, i, op):
        """Before operation i; False if the simulator has carried it out itself."""
        self.op_index = i
        self.count(op['op'])
        gc.collect()  # when cyclic garbage goes is decided here, not by allocation counts
        return True

    def end(self, i, op):
        """After operation i."""
        self.event(i, op['op'], op.get('slot'))

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def fault_fired(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def event(self, *what):
        s = json.dumps(what, default=str)
        self.log.update(s.encode())
        self.log.update(b'\n')
        if len(self.events) < 400:
            self.events.append(s)

    def bytes_event(self, tag, b):
        self.log.update(tag.encode())
        self.log.update(b)

    def state(self, *sig):
        """Record a distinct reached state / interleaving signature."""
        self.distinct.add(hashlib.md5(json.dumps(sig, default=str).encode()).hexdigest()[:16])


def _child_main(scn, trace, w):
    import resource
    import shutil
    import tempfile

    os.setpgid(0, 0)
    # a run never needs more than this; a runaway one must not take the sandbox down
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    scratch = tempfile.mkdtemp(prefix='vsim_')
    res = {'status': 'error'}
    t0 = time.perf_counter()
    try:
        oracle = Oracle(scn.oracle_functions())
        ctx = Ctx(oracle, scratch)
        gc.disable()
        seams.install_identity()
        try:
            scn.execute(trace, ctx)
            res = {'status': 'ok'}
        except Violation as v:
            res = {
                'status': 'violation',
                'kind': v.kind,
                'msg': v.msg,
                'info': v.info,
                'op_index': ctx.op_index,
            }
            ctx.event('VIOLATION', v.kind, v.msg)
        if seams.IDENTITY.calls:
            ctx.count('identities_asked_for_by_the_code', seams.IDENTITY.calls)
        res['digest'] = ctx.log.hexdigest()
        res['stats'] = ctx.stats
        res['faults'] = ctx.faults
        res['distinct'] = sorted(ctx.distinct)
        res['checks'] = ctx.checks
        res['steps'] = ctx.steps
        res['events'] = ctx.events
        res['oracle_calls'] = oracle.calls
        oracle.close()
    except BaseException as e:  # noqa: BLE001
        res = {
            'status': 'error',
            'msg': f'{type(e).__name__}: {e}',
            'tb': traceback.format_exc(),
        }
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    res['wall'] = time.perf_counter() - t0
    _send(w, res)


class Job:
    def __init__(self, scn, trace, tag):
        r, w = os.pipe()
        self.tag = tag
        self.trace = trace
        self.start = time.monotonic()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                _child_main(scn, trace, w)
            finally:
                os._exit(0)
        os.close(w)
        self.pid, self.fd = pid, r

    def finish(self):
        try:
            out = _recv(self.fd)
        except EOFError:
            out = {'status': 'error', 'msg': 'run process died (killed or crashed)'}
        self._reap()
        return out

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self._reap()

    def _reap(self):
        os.close(self.fd)
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass


def run_many(scn, traces, workers, run_timeout, deadline=None, stop_on=None):
    """Run an iterable of (tag, trace); yields (tag, trace, result)."""
    it = iter(traces)
    live = []
    exhausted = False
    while True:
        while not exhausted and len(live) < workers:
            if deadline is not None and time.monotonic() > deadline:
                exhausted = True
                break
            try:
                tag, trace = next(it)
            except StopIteration:
                exhausted = True
                break
            live.append(Job(scn, trace, tag))
        if not live:
            return
        ready, _, _ = select.select([j.fd for j in live], [], [], 1.0)
        now = time.monotonic()
        for j in list(live):
            if j.fd in ready:
                live.remove(j)
                yield j.tag, j.trace, j.finish()
            elif now - j.start > run_timeout:
                live.remove(j)
                j.kill()
                yield j.tag, j.trace, {
                    'status': 'error',
                    'msg': f'run exceeded {run_timeout} s of wall time',
                }
        cut = stop_on() if stop_on is not None else None
        if cut is True:
            for j in live:
                j.kill()
            return
        if cut is not None and cut is not False:
            # finish the runs numbered below the one that failed, so that the report
            # does not depend on timing
            exhausted = True
            for j in list(live):
                if j.tag > cut:
                    live.remove(j)
                    j.kill()


def run_one(scn, trace, run_timeout=300):
    for _, _, res in run_many(scn, [(0, trace)], 1, run_timeout):
        return res
    return {'status': 'error', 'msg': 'no result'}


# ----------------------------------------------------------------- minimiser


def minimise(scn, trace, res, workers, budget_s, run_timeout):
    """Greedy delta debugging over the trace, keeping the violation kind."""
    kind = res['kind']
    best, best_res = trace, res
    deadline = time.monotonic() + budget_s
    tried = 0
    improved = True
    seen = set()
    while improved and time.monotonic() < deadline:
        improved = False
        cands = []
        for c in scn.shrink(best, best_res):
            h = hashlib.md5(json.dumps(c, sort_keys=True).encode()).digest()
            if h in seen:
                continue
            seen.add(h)
            cands.append(c)
        hit = []
        for tag, c, r in run_many(
            scn,
            list(enumerate(cands)),
            workers,
            run_timeout,
            deadline=deadline,
            stop_on=lambda: bool(hit) or time.monotonic() > deadline,
        ):
            tried += 1
            if r['status'] == 'violation' and r['kind'] == kind:
                hit.append((tag, c, r))
        if hit:
            hit.sort(key=lambda x: x[0])
            _, best, best_res = hit[0]
            improved = True
    return best, best_res, tried


def default_shrink(trace, res):
    """Candidate simplifications of a trace with an ``ops`` list, largest first."""
    ops = trace['ops']
    n = len(ops)
    oi = res.get('op_index', n - 1)
    if oi is not None and 0 <= oi < n - 1:
        yield {**trace, 'ops': ops[: oi + 1]}
    size = n // 2
    while size >= 1:
        for a in range(0, n, size):
            new = ops[:a] + ops[a + size :]
            if new:
                yield {**trace, 'ops': new}
        size //= 2
    for i, op in enumerate(ops):
        if op.get('fault'):
            o = dict(op)
            o.pop('fault')
            yield {**trace, 'ops': [*ops[:i], o, *ops[i + 1 :]]}
        for field in ('kw', 'names'):
            val = op.get(field)
            if isinstance(val, dict) and len(val) > 1:
                for k in list(val):
                    if op['op'] in trace.get('keep_kw', ('new',)):
                        continue
                    o = dict(op)
                    o[field] = {a: b for a, b in val.items() if a != k}
                    yield {**trace, 'ops': [*ops[:i], o, *ops[i + 1 :]]}
            elif isinstance(val, list) and len(val) > 1:
                for half in (val[: len(val) // 2], val[len(val) // 2 :]):
                    o = dict(op)
                    o[field] = half
                    yield {**trace, 'ops': [*ops[:i], o, *ops[i + 1 :]]}


# ----------------------------------------------------------------- known findings


def load_findings(path=None):
    path = path or os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)['findings']


def match_finding(findings, prop, res):
    for f in findings:
        if f.get('status') != 'known' or f['property'] != prop:
            continue
        if all(res.get('info', {}).get(k) == v for k, v in f['match'].items() if k != 'kind') and (
            'kind' not in f['match'] or f['match']['kind'] == res['kind']
        ):
            return f
    return None


# ----------------------------------------------------------------- driver


def n_workers():
    try:
        n = len(os.sched_getaffinity(0))
    except AttributeError:
        n = os.cpu_count() or 1
    return max(1, min(8, n))


def make_rng(seed, prop, i):
    return random.Random(f'{seed}/{prop}/{i}')


def check(scn, prop, tier, seed, max_runs=None, wall_cap=None):
    t0 = time.monotonic()
    gc.collect()
    gc.freeze()
    plan = scn.plan(tier)
    runs = max_runs or plan['runs']
    cap = wall_cap or plan.get('wall_cap', 600)
    run_timeout = plan.get('run_timeout', 240)
    workers = n_workers()
    findings = load_findings()
    seen_findings = {}
    print(f'seed={seed} property={prop} tier={tier} runs={runs} workers={workers}', flush=True)

    def traces():
        for i in range(runs):
            yield i, scn.generate(make_rng(seed, prop, i), i, tier)

    agg = {
        'runs': 0, 'checks': 0, 'steps': 0, 'oracle_calls': 0, 'stats': {}, 'faults': {},
        'distinct': set(), 'cpu': 0.0,
    }
    digests = {}
    errors = []
    violation = []
    samples = []
    deadline = t0 + cap
    for tag, trace, res in run_many(
        scn, traces(), workers, run_timeout, deadline=deadline,
        stop_on=lambda: True if len(errors) > 3 else (min(v[0] for v in violation) if violation else None),
    ):
        agg['runs'] += 1
        if res['status'] == 'error':
            errors.append((tag, trace, res))
            continue
        for k in ('checks', 'steps', 'oracle_calls'):
            agg[k] += res[k]
        agg['cpu'] += res['wall']
        for k, v in res['stats'].items():
            agg['stats'][k] = agg['stats'].get(k, 0) + v
        for k, v in res['faults'].items():
            agg['faults'][k] = agg['faults'].get(k, 0) + v
        agg['distinct'].update(res['distinct'])
        digests[tag] = res['digest']
        if tag < 2:
            samples.append({'run': tag, 'trace': scn.brief(trace), 'events': res['events'][:40]})
        if res['status'] == 'violation':
            f = match_finding(findings, prop, res)
            if f:
                seen_findings.setdefault(f['id'], f)
            else:
                violation.append((tag, trace, res))

    # determinism: the first runs again, in another order; the event logs must agree
    replayed = 0
    if not violation and not errors:
        again = [t for t in sorted(digests)[: plan.get('determinism_runs', 4)]][::-1]
        for tag, trace, res in run_many(
            scn, [(i, scn.generate(make_rng(seed, prop, i), i, tier)) for i in again],
            max(1, workers // 2), run_timeout,
        ):
            replayed += 1
            if res.get('digest') != digests[tag]:
                errors.append((tag, trace, {'status': 'error', 'msg': f'run {tag} is not reproducible: {res.get("msg", "event logs differ")}'}))

    rc = 0
    replay_path = None
    n_viol = 0
    if violation:
        tag, trace, res = sorted(violation, key=lambda x: x[0])[0]
        print(f'run {tag}: {res["kind"]}: {res["msg"]}', flush=True)
        best, best_res, tried = minimise(
            scn, trace, res, workers, plan.get('shrink_s', 60), run_timeout
        )
        confirm = run_one(scn, best, run_timeout)
        if confirm['status'] != 'violation' or confirm['kind'] != res['kind']:
            best, best_res = trace, res
            confirm = run_one(scn, best, run_timeout)
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        replay_path = os.path.join(VERIF, 'evidence', 'replay', f'{prop}-{tier}-{seed}-{tag}.json')
        with open(replay_path, 'w') as fh:
            json.dump(
                {
                    'property': prop, 'seed': seed, 'run': tag, 'tier': tier,
                    'violation': {'kind': best_res['kind'], 'msg': best_res['msg']},
                    'digest': confirm.get('digest'),
                    'minimised_from_ops': len(trace.get('ops', [])),
                    'ops': len(best.get('ops', [])),
                    'candidates_tried': tried,
                    'trace': best,
                },
                fh, indent=1,
            )
        if confirm['status'] == 'violation':
            print(f'minimised to {len(best.get("ops", []))} ops after {tried} candidate runs: '
                  f'{confirm["kind"]}: {confirm["msg"]}')
            print(f'VIOLATION property={prop} replay={replay_path}', flush=True)
            rc = 1
            n_viol = 1
        else:
            errors.append((tag, trace, {'status': 'error', 'msg': 'violation did not reproduce on replay'}))
    for tag, _trace, res in errors:
        print(f'HARNESS-ERROR property={prop} run={tag}: {res["msg"]}\n{res.get("tb", "")}', flush=True)
    if errors and rc == 0:
        rc = 2
    for f in seen_findings.values():
        print(f'KNOWN-FINDING: property={prop} {f["what"]}')

    wall = time.monotonic() - t0
    ev = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': agg['checks'],
            'distinct_nontrivial': len(agg['distinct']),
            'rule': scn.rule,
            'samples': samples,
            'simulated_runs': agg['runs'],
            'seeds_per_hour': round(agg['runs'] / max(wall, 1e-9) * 3600),
            'simulated_time': scn.simulated_time,
            'scheduler_steps': agg['steps'],
            'reference_evaluations_in_pristine_process': agg['oracle_calls'],
            'fault_kinds_injected': agg['faults'],
            'operations': agg['stats'],
            'distinct_measure': scn.distinct_measure,
            'determinism_replays_equal': replayed,
            'real_code': scn.real_code,
            'stubs': scn.stubs,
            'workers': workers,
        },
        'assumptions': scn.assumptions,
        'wall_s': round(wall, 2),
        'violations': n_viol,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print(
        f'property={prop} runs={agg["runs"]} checks={agg["checks"]} steps={agg["steps"]} '
        f'distinct={len(agg["distinct"])} faults={agg["faults"]} wall={wall:.1f}s rc={rc}',
        flush=True,
    )
    return rc


def replay(scn, path):
    with open(path) as f:
        rec = json.load(f)
    res = run_one(scn, rec['trace'])
    if res['status'] == 'violation':
        same = res['digest'] == rec.get('digest')
        print(f'{res["kind"]}: {res["msg"]}')
        print(f'event log {"identical to" if same else "differs from"} the recorded one')
        print(f'VIOLATION property={rec["property"]} replay={path}')
        return 1
    if res['status'] == 'error':
        print('HARNESS-ERROR', res.get('msg'), res.get('tb', ''))
        return 2
    print('replay: property held')
    return 0
