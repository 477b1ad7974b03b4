"""P07: independent models used from several threads of one process."""

import random

from . import snap
from . import space_spectra as sp
from .codec import apply_update, decode
from .engine import HarnessError, Violation
from .kinds import KINDS
from .scn_spectra import QUANT, SPECTRA, Base
from . import seams
from .seams import FAULT_KINDS, ThreadSim

NOT_HERE = ('halo_concentration_model_dm', 'halo_concentration_model_sat')


class Threads(Base):
    rule = (
        'seeded interleavings of 2-3 client threads, each building, updating and reading its own model; control moves between threads '
        'only at executed lines of the code under test, as the trace decides, and a client can be struck by a fault; every value each client '
        'saw is compared with a freshly built model in a pristine process. Non-trivial: a run with at least one switch in mid-evaluation'
    )
    distinct_measure = 'distinct schedules (hash of the sequence of clients given control)'
    assumptions = [
        'threads switch only at executed lines of src/onepower; numpy, scipy, hmf and halomod calls are atomic',
        'colossus concentration relations are left out: colossus keeps one cosmology per process and is not thread-safe',
    ]
    quick = {**Base.quick, 'runs': 130}
    stubs = [*Base.stubs, 'thread scheduler (one thread runs at a time; switches decided by the trace)']

    def generate(self, r, i, tier):
        clients = []
        n = r.choice([2, 2, 3])
        common = sp.start(r)
        lockstep = r.random() < 0.5
        for c in range(n):
            m = dict(common) if lockstep or r.random() < 0.5 else sp.initial(r)
            if lockstep:
                # the same programme on the same grids, with other numbers
                for k in r.sample(['omega_c', 'omega_b', 'h0', 'n_s', 'sigma_8', 'tcmb', 'w0', 'norm_cen', 'eta_cen', 'delta_c', 'hod_params', 'align_params', 'poisson_params', 'hod_settings', 'log10T_AGN', 'matter_power_lin'], 7):
                    sp.put(m, [{k: sp.GEN[k](r, m)}])
            for k in NOT_HERE:
                if m.get(k) == 'dutton14':
                    m[k] = 'Duffy08'
            ops = [{'op': 'new', 'kw': m}]
            m = dict(m)
            for _ in range(r.choice([1, 2, 3])):
                ops.append({'op': 'read', 'names': r.sample(SPECTRA, r.randint(1, 4)) if r.random() < 0.6 else r.sample(QUANT, r.randint(2, 10))})
                for kw in sp.gen_update(r, m):
                    kw = {k: v for k, v in kw.items() if k not in NOT_HERE}
                    if kw:
                        ops.append({'op': 'update', 'kw': kw})
                        m = apply_update(m, kw)
            ops.append({'op': 'read', 'names': r.sample(QUANT, 25)})
            clients.append(ops)
        if lockstep:
            # everyone runs the programme of the first client, on the model it began with
            prog = [o for o in clients[0][1:] if o['op'] == 'read' or not set(o['kw']) & {'hod_model', 'hod_params'}]
            clients = [[c[0], *prog] for c in clients]
        faults = {}
        if r.random() < 0.4:
            faults[str(r.randrange(n))] = sorted([r.randint(1, 2500), r.choice(FAULT_KINDS)] for _ in range(r.choice([1, 2])))
        return {
            'ops': [],
            'clients': clients,
            'faults': faults,
            'sched': {'seed': r.randrange(1 << 30), 'mean': r.choice([1, 1, 2, 3, 7]), 'turns': True}
            if lockstep
            else {'seed': r.randrange(1 << 30), 'mean': r.choice([3, 10, 40, 200])},
        }

    def shrink(self, trace, res):
        for c in range(len(trace['clients'])):
            if len(trace['clients']) > 1:
                f = {}
                for k, v in trace['faults'].items():
                    if int(k) != c:
                        f[str(int(k) - (int(k) > c))] = v
                yield {**trace, 'clients': trace['clients'][:c] + trace['clients'][c + 1 :], 'faults': f}
        if trace['faults']:
            yield {**trace, 'faults': {}}
        for mean in (5000, 1000, 200, 40):
            if mean > trace['sched']['mean']:
                yield {**trace, 'sched': {**trace['sched'], 'mean': mean}}
        for c, ops in enumerate(trace['clients']):
            for i in range(1, len(ops)):
                yield {**trace, 'clients': [o if x != c else ops[:i] + ops[i + 1 :] for x, o in enumerate(trace['clients'])]}
            for i, op in enumerate(ops):
                if op['op'] == 'read' and len(op['names']) > 1:
                    for half in (op['names'][: len(op['names']) // 2], op['names'][len(op['names']) // 2 :]):
                        new = [*ops[:i], {**op, 'names': half}, *ops[i + 1 :]]
                        yield {**trace, 'clients': [o if x != c else new for x, o in enumerate(trace['clients'])]}

    def brief(self, trace):
        return {'clients': [[o['op'] for o in c] for c in trace['clients']], 'faults': trace['faults'], 'sched': trace['sched']}

    def execute(self, trace, ctx):
        K = KINDS['spectra']
        rng = random.Random(trace['sched']['seed'])
        mean = trace['sched']['mean']
        if trace['sched'].get('turns'):
            sim = ThreadSim(lambda n, step: step % n, lambda step: mean)
        else:
            sim = ThreadSim(lambda n, step: rng.randrange(n), lambda step: 1 + int(rng.expovariate(1.0 / mean)))

        def client(ops):
            def go():
                obj, model, seen = None, None, []
                for op in ops:
                    for _attempt in range(4):
                        try:
                            if op['op'] == 'new':
                                obj = K.cls()(**{k: decode(v, ctx.scratch) for k, v in op['kw'].items() if not k.startswith('_')})
                                model = {k: v for k, v in op['kw'].items() if not k.startswith('_')}
                            elif op['op'] == 'update':
                                obj.update(**{k: decode(v, ctx.scratch) for k, v in op['kw'].items()})
                                model = apply_update(model, op['kw'])
                            else:
                                seen.append((model, {n: K.read(obj, n) for n in op['names']}))
                            break
                        except seams.ERRORS as e:  # noqa: BLE001
                            if not getattr(e, 'injected', False):
                                raise
                    else:
                        raise HarnessError('client gave up')
                return seen

            return go

        results = sim.run([client(c) for c in trace['clients']], trace['faults'])
        for k in sim.fired:
            ctx.fault_fired(k)
        ctx.steps += sum(sim.lines)
        ctx.count('thread_switches', sim.switches)
        ctx.count('lines_of_code_under_test', sum(sim.lines))
        ctx.state(sim.order)
        ctx.event('schedule', len(sim.order), sim.switches, hash(tuple(sim.order)))
        for c, (ok, val) in enumerate(results):
            ctx.op_index = c
            if not ok:
                if isinstance(val, HarnessError):
                    raise val
                raise Violation('client_failed', f'client {c} failed although its own model is valid: {type(val).__name__}: {val}')
            for model, seen in val:
                ref = ctx.oracle('evaluate', 'spectra', model, ctx.scratch)['values']
                for n, v in seen.items():
                    if n not in ref:
                        continue
                    ctx.checks += 1
                    d = snap.diff(v, ref[n])
                    if d:
                        raise Violation('cross_talk', f'client {c}: {n}{d} (interleaved with other threads vs alone)')
                    snap.feed(ctx.log, v)
