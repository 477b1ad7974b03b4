"""Properties of the process as a whole: hidden inputs and outputs, and long chains."""

import collections
import itertools
import os
import random
import pickle
import subprocess
import sys
import tempfile

import numpy as np

from . import files, scn_cosmosis, scn_others, scn_realspace, scn_spectra, seams, snap
from . import space_cosmosis as sc
from . import space_spectra as sp
from . import surroundings as su
from .codec import apply_update, decode
from .engine import Ctx, HarnessError, Violation
from .kinds import KINDS
from .scn_spectra import Base

def elsewhere(name, args, env, base):
    """The same reference in a separate interpreter."""
    d = os.path.join(base, 'elsewhere')
    os.makedirs(d, exist_ok=True)
    keep = {k: os.environ[k] for k in ('PATH', 'PYTHONPATH', 'VERIF_REPO', 'HOME', 'TMPDIR') if k in os.environ}
    p = subprocess.run(
        [sys.executable, '-m', 'sim.elsewhere'], input=pickle.dumps((name, args)), capture_output=True, cwd=d, env={**keep, 'OMP_NUM_THREADS': '1', **env}, check=False
    )
    if p.returncode:
        raise HarnessError(f'elsewhere: {p.stderr.decode()[-800:]}')
    return pickle.loads(p.stdout)


class Watched(Ctx):
    """A run in which the simulator changes the process between operations and looks at
    it before and after each one."""

    def begin(self, i, op):
        super().begin(i, op)
        self.before = None
        if op['op'] == 'perturb':
            su.perturb(op, self.scratch)
            self.fault_fired(op['kind'])
            self.state('perturb', op['kind'], self.last)
            self.event(i, 'perturb', op['kind'])
            return False
        if op['op'] == 'elsewhere':
            self.elsewhere(op)
            return False
        self.last = op['op']
        self.before = su.look(self.scratch)
        self.modules = len(sys.modules)
        su.ACTS['seen'] = []
        su.ACTS['on'] = True
        return True

    last = ''

    def end(self, i, op):
        su.ACTS['on'] = False
        after = su.look(self.scratch)
        self.checks += len(after)
        d = su.diff(self.before, after)
        if d and len(sys.modules) > self.modules:
            d = None  # libraries imported on first use may set themselves up
        if d:
            raise Violation('surroundings_changed', f'{op["op"]} changed {d[0]}: {d[1]}')
        if su.ACTS['seen'] and len(sys.modules) == self.modules:
            raise Violation('surroundings_changed', f'{op["op"]}: {su.ACTS["seen"][0]}')
        super().end(i, op)

    def elsewhere(self, op):
        """A reference of this run, evaluated once more in a new interpreter."""
        name, args = self.oracle.last
        ref = self.oracle(name, *args)
        got = elsewhere(name, args, op['env'], self.scratch)
        self.fault_fired('other_interpreter')
        self.checks += 1
        if isinstance(ref, dict):
            got, ref = ({k: v for k, v in x.items() if k != '_index'} for x in (got, ref))
        d = snap.diff(got, ref, rtol=1e-10)
        if d:
            raise Violation('depends_on_interpreter', f'{name}: {d} (in an interpreter with {op["env"]} vs here, both new objects)')


INNER = [scn_spectra.History, scn_spectra.Reads, scn_cosmosis.Chain, scn_cosmosis.Contract, scn_others.Alignment, scn_others.Upsampled, scn_others.Bias, scn_realspace.RealSpace, scn_cosmosis.Refresh]


class Hidden(Base):
    """P18: no hidden inputs, no hidden outputs."""

    rule = (
        'seeded histories of every part (models, read orders, interface chains and pipelines, alignment, mixed spectra, non-linear bias, real-space modules) between whose '
        'operations the simulator changes the process around them (random seeds, clock jumps, working directory, environment, print options, error handling, garbage collection, '
        'recycled memory, warning filters, default cosmologies of astropy and colossus, ...); every value is compared with a new object in an undisturbed process, some of those '
        'with one in a new interpreter with another hash seed, and after every operation the process has to look as it did before. Non-trivial: a comparison after at least one perturbation'
    )
    distinct_measure = 'distinct (perturbation, preceding operation) pairs and (operation, regime) pairs'
    stubs = scn_cosmosis.CosmosisBase.stubs
    quick = {**Base.quick, 'runs': 104}

    def __init__(self):
        self.inner = [c() for c in INNER]

    def oracle_functions(self):
        out = {}
        for s in self.inner:
            out.update({f'{type(s).__name__}.{k}': v for k, v in s.oracle_functions().items()})
        return out

    def generate(self, r, i, tier):
        # a few kinds of perturbation per run, each of them often
        main = su.KINDS[i % len(su.KINDS)]
        kinds = [main, main, *r.sample(su.KINDS, 2)]
        j = r.choice([0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8])
        length = 24
        if main == 'churn' and r.random() < 0.7:
            j, length = 0, 200
            t = self.marathon(r)
        else:
            if main in ('colossus', 'astropy') and r.random() < 0.7:
                j = 1
            if main == 'clock' and r.random() < 0.4:
                j = 8
            t = self.inner[j].generate(r, i, tier)
        if main in ('colossus', 'astropy') and j in (0, 1):
            for op in t['ops']:
                if op['op'] == 'new':
                    op['kw'] = {**op['kw'], 'halo_concentration_model_dm': 'dutton14', 'halo_concentration_model_sat': r.choice(['dutton14', 'Duffy08']), 'hmcode_ingredients': None}
                    if op['kw'].get('nonlinear_mode') == 'hmcode':
                        op['kw']['nonlinear_mode'] = None
        ops = []
        for op in t['ops'][:length]:
            for _ in range(r.choice([0, 1, 1, 2]) if length < 100 else r.choice([0, 0, 1])):
                k = r.choice(kinds)
                ops.append({'op': 'perturb', 'kind': k, 'n': r.randrange(10000)})
                if k == 'clock':
                    ops[-1]['by'] = r.choice([-86400.0, 3600.0, 1e-3, 1e7, -5.0])
            ops.append({k: v for k, v in op.items() if k != 'fault'})
        if i % 4 == 0:
            env = {'PYTHONHASHSEED': str(r.randrange(1, 10**6)), 'TZ': r.choice(['UTC', 'Asia/Tokyo']), 'LC_ALL': r.choice(['C', 'C.UTF-8'])}
            ops.append({'op': 'elsewhere', 'env': env})
        return {**t, 'ops': ops, 'inner': j}

    def marathon(self, r):
        """Many updates, so that memory of discarded objects is handed out again."""
        m = sp.start(r)
        ops = [{'op': 'new', 'slot': 'a', 'kind': 'spectra', 'kw': m}, {'op': 'check', 'slot': 'a'}]
        pars = [*r.sample(['omega_c', 'omega_b', 'h0', 'sigma_8', 'n_s'], 2), r.choice(['hod_params', 'align_params', 'norm_cen', 'k_vec', 'z_vec', 'm_nu'])]
        for n in range(40):
            for kw in sp.gen_update(r, m, n=1, forced=r.choice(pars)):
                ops.append({'op': 'update', 'slot': 'a', 'kw': kw})
                m = apply_update(m, kw)
            ops.append({'op': 'check', 'slot': 'a'} if n % 3 == 2 else {'op': 'read', 'slot': 'a', 'names': r.sample(scn_spectra.SPECTRA, 2) + ['dndlnm', 'Dv_Mead']})
        return {'ops': ops}

    def shrink(self, trace, res):
        return self.inner[trace['inner']].shrink(trace, res)

    def execute(self, trace, ctx):
        inner = self.inner[trace['inner']]
        oracle = ctx.oracle
        ctx.__class__ = Watched
        ctx.oracle = Prefixed(oracle, type(inner).__name__)
        ctx.count('runs_of_' + type(inner).__name__)
        scn_cosmosis.load()
        for kind in scn_realspace.MODULES:
            scn_realspace.module(kind)
        # home and temporary files of this run are its own
        for v in ('HOME', 'TMPDIR'):
            os.environ[v] = os.path.join(ctx.scratch, v)
            os.makedirs(os.environ[v], exist_ok=True)
        tempfile.tempdir = None
        su.install_clock()
        su.install_environ()
        su.install_audit(ctx.scratch)
        su.quiet()
        try:
            inner.execute(trace, ctx)
            ctx.count('clock_reads_by_the_code', su.CLOCK['reads'])
            ctx.count('environment_reads_by_the_code', su.ENV['reads'])
        finally:
            ctx.oracle = oracle
            su.CLOCK['offset'] = 0.0
            os.chdir('/')


class Prefixed:
    def __init__(self, oracle, prefix):
        self.oracle, self.prefix = oracle, prefix
        self.last = None

    def __call__(self, name, *args):
        if not name.startswith(self.prefix + '.'):
            name = f'{self.prefix}.{name}'
        self.last = (name, args)
        on, su.ACTS['on'] = su.ACTS['on'], False
        try:
            return self.oracle(name, *args)
        finally:
            su.ACTS['on'] = on


# ----------------------------------------------------------------- long chains

BLOCKS, WARM = 8, 2
MORE, PARTS = 60, 4  # blocks, when memory seems to grow
PER_SAMPLE = 24  # bytes: a number
PER_ENTRY = 6  # bytes: a place in a list, allowing for lists growing in jumps


def reach(live):
    """Bytes and container entries of everything that the model, the modules under test and
    their classes and functions keep alive."""
    import gc
    import types

    ours = [m for n, m in list(sys.modules.items()) if str(getattr(m, '__file__', None)).startswith(seams.PREFIXES)]
    seen, total, entries = set(), 0, 0
    todo = [live, *(vars(m) for m in ours)]
    names = {m.__name__ for m in ours}
    while todo:
        o = todo.pop()
        if id(o) in seen or isinstance(o, types.ModuleType):
            continue
        if isinstance(o, (type, types.FunctionType)) and getattr(o, '__module__', None) not in names:
            continue
        seen.add(id(o))
        total += sys.getsizeof(o, 0)
        if isinstance(o, (list, tuple, dict, set, frozenset, collections.deque)):
            entries += len(o)
        todo.extend(gc.get_referents(o))
    return total, entries


class LongChains(Base):
    """P19: a chain runs in constant memory and at constant cost per sample."""

    rule = (
        'seeded long chains made of blocks of samples that differ only in their values: one model updated and read again and again, models built and discarded, module '
        'instances fed with samples, alignment, non-linear bias and mixed-spectra objects, each with rejected and failing samples in between. Once warm, allocated memory, open files, threads and '
        'the number of executed lines of a block are measured; no quantity may grow from every block to the next. Non-trivial: a block measured after warm-up'
    )
    distinct_measure = 'distinct (kind of chain, parameters varied, spectra read) combinations'
    stubs = scn_cosmosis.CosmosisBase.stubs
    quick = {**Base.quick, 'runs': 64}

    def oracle_functions(self):
        return {}

    def generate(self, r, i, tier):
        kind = ('update', 'interface', 'discard', 'update', 'interface', 'align', 'bnl', 'ups')[i % 8]
        fs = {}
        size = 4 if tier == 'quick' else 8
        if kind == 'interface':
            fs = scn_cosmosis.CosmosisBase.obs_files(None, r)
            start = sc.gen_config(r, sorted(fs), bnl=1 if r.random() < 0.2 else None)
            bads = [r.randrange(len(scn_cosmosis.BADS)) if r.random() < 0.3 else None for _ in range(size)]
            if i % 3 == 0:
                bads = r.sample(range(len(scn_cosmosis.BADS)), size)
            first = [{'sample': None, **({'bad': [scn_cosmosis.BADS[b]]} if b is not None else {})} for b in bads]
            t = {'kind': kind, 'start': start, 'files': fs, 'more': r.randrange(10**6)}
            return {**t, 'ops': list(self.blocks(t, r, first, None, BLOCKS))}
        if kind in ('update', 'discard', 'ups'):
            start = sp.rich(r) if kind != 'ups' else sp.initial(r)
            numbers = [k for k in sp.SCALARS if 'ktrunc' not in k and k not in ('wa', 'm_nu', 'Neff')]
            names = [r.sample(numbers, r.randint(1, 3)) for _ in range(size)]
            if r.random() < 0.5:
                names[0] = [*names[0], 'z_vec']
            if r.random() < 0.5:
                names[-1] = [*names[-1], 'k_vec']
            reads = [r.sample(scn_spectra.SPECTRA, 2) + r.sample(scn_spectra.QUANT, 3) for _ in range(size)]
        elif kind == 'align':
            fs = scn_others.lum_files(r)
            start = scn_others.sat_initial(r, sorted(fs))
            names = [r.sample(['beta_cen', 'gamma_2h_amplitude', 'gamma_1h_amplitude', 'beta_sat', 'z_vec', 'c_in', 'r_s_in', 'rvir_in', 'mass_in'], 2) for _ in range(size)]
            reads = [r.sample(scn_others.AMP_Q + ['wkm_f_ell', 'upsampled_wkm()'], 3) for _ in range(size)]
        else:
            start = {
                'mass': {'logspace': [11.5, 14.5, 3]}, 'z_vec': {'a': [0.1, 0.5]}, 'k_vec': {'logspace': [-1.5, 0.7, 4]}, 'h0': 0.68, 'omega_b': 0.048, 'omega_c': 0.26,
                'omega_lambda': 0.69, 'n_s': 0.96, 'sigma_8': 0.8,
            }
            names = [r.sample(['mass', 'z_vec', 'k_vec', 'h0', 'sigma_8', 'omega_b', 'n_s', 'w0'], 2) for _ in range(size)]
            reads = [['bnl']] * size
        bad = [r.random() < 0.25 for _ in range(size)]
        t = {'kind': kind, 'start': start, 'files': fs, 'more': r.randrange(10**6)}
        first = [{'kw': {k: None for k in n}, 'reads': q, **({'bad': True} if b else {})} for n, q, b in zip(names, reads, bad, strict=True)]
        return {**t, 'ops': list(self.blocks(t, r, first, dict(start), BLOCKS))}

    def blocks(self, trace, r, like, m, n):
        """Further blocks: the same operations with other values."""
        gen = {'align': lambda: scn_others.sat_gen(sorted(trace['files'])), 'bnl': lambda: scn_others.BNL_GEN}.get(trace['kind'], lambda: sp.GEN)()
        for _ in range(n):
            blk = []
            for s in like:
                if trace['kind'] == 'interface':
                    smp = sc.gen_sample(r)
                    smp['lin'].pop('grid', None)
                    blk.append({**s, 'sample': smp})
                    continue
                kw = {k: self.value(r, gen[k], k, m) for k in s['kw']}
                m = apply_update(m, kw)
                blk.append({**s, 'kw': kw})
            yield blk

    @staticmethod
    def value(r, gen, k, m):
        """Another value, of the same size."""
        size = lambda v: (v['logspace'][2] if 'logspace' in v else len(v['a'])) if isinstance(v, dict) and ('logspace' in v or 'a' in v) else 0
        for _ in range(100):
            v = gen(r, m)
            if size(v) == size(m.get(k)) or k not in m:
                return v
        raise HarnessError(f'no value of the same size for {k}')

    def shrink(self, trace, res):
        """Fewer samples per block (the same ones in each)."""
        n = len(trace['ops'][0])
        for j in range(n):
            if n > 1:
                yield {**trace, 'ops': [b[:j] + b[j + 1 :] for b in trace['ops']]}

    def brief(self, trace):
        return {'kind': trace['kind'], 'start': trace['start'], 'first block': trace['ops'][0][:2], 'blocks': len(trace['ops'])}

    def client(self, trace, base):
        """step(sample), for the kind of chain in the trace."""
        kind, start = trace['kind'], trace['start']
        if kind == 'interface':
            oi = scn_cosmosis.load()
            conf = oi.setup(sc.options_block(start, base))

            def step(s):
                b = scn_cosmosis.make_block(s, base)
                try:
                    oi.execute(b, conf)
                    return True
                except Exception:  # noqa: BLE001
                    return False

            return step, conf
        K = KINDS[{'align': 'align', 'bnl': 'bnl'}.get(kind, 'spectra')]
        make = lambda m: K.cls()(**{k: decode(v, base) for k, v in m.items() if not k.startswith('_')})
        state = {'m': dict(start), 'obj': make(start)}

        def step(s):
            kw = {k: decode(v, base) for k, v in s['kw'].items()}
            state['m'] = apply_update(state['m'], s['kw'])
            ok = True
            if kind == 'discard':
                state['obj'] = make(state['m'])
            else:
                state['obj'].update(**kw)
            if kind == 'ups':
                from onepower import UpsampledSpectra

                obj = UpsampledSpectra(
                    z=np.array([0.15, 0.3]), k=np.logspace(-1.5, 0.5, 6), fraction_z=None, fraction=None, model=state['obj'], model_1_params={}, model_2_params={'norm_cen': 0.9}
                )
                try:
                    obj.results(['mm'], ['1h', 'tot'])
                except Exception:  # noqa: BLE001
                    ok = False
            for n in s['reads']:
                v = K.read(state['obj'], n)
                ok = ok and not isinstance(v, snap.Failed)
                del v
            if s.get('bad'):
                try:
                    state['obj'].update(nope=1)
                except ValueError:
                    ok = False
            return ok

        return step, state

    def execute(self, trace, ctx):
        import gc
        import threading

        files.make_all(ctx.scratch, trace.get('files', {}))
        step, live = self.client(trace, ctx.scratch)
        rows = []

        def measure(blk):
            for s in blk:
                ctx.steps += 1
                ok = step(s)
                ctx.count('samples_ok' if ok else 'samples_failed')
                ctx.state(trace['kind'], sorted(s.get('kw', {})), s.get('reads', []))
            gc.collect()
            gc.collect()
            kept, entries = reach(live)
            rows.append({'bytes kept': kept, 'entries of containers': entries, 'objects': len(gc.get_objects()), 'open files': len(su._fds()), 'threads': threading.active_count()})

        size = len(trace['ops'][0])

        def growing(rows):
            for what, least in (('bytes kept', PER_SAMPLE * size), ('entries of containers', 1), ('objects', size), ('open files', 1), ('threads', 1)):
                steps = [b[what] - a[what] for a, b in itertools.pairwise(rows)]
                ctx.checks += len(steps)
                if min(steps) >= least:
                    return f'{what} grow with every block of {size} samples (by {min(steps) // least * least} or more)'
            return None

        def creeping(rows, parts):
            n = (len(rows) - 1) // parts
            steps = [rows[(j + 1) * n]['bytes kept'] - rows[j * n]['bytes kept'] for j in range(parts)]
            if min(steps) >= PER_ENTRY * size * n:
                return f'bytes kept grow over every {n} blocks of {size} samples'
            return None

        def cost():
            # of the same samples after the same ones before them; what is up to date at that
            # point depends on these alone
            a, b = trace['ops'][WARM - 1], trace['ops'][WARM]
            for s in (*a, *b, *a):
                step(s)
            return seams.count_lines(lambda: [step(s) for s in b])

        for n, blk in enumerate(trace['ops']):
            ctx.op_index = n
            if n == WARM:
                first = cost()
            measure(blk)
        last = cost()
        ctx.event('lines', trace['kind'], first, last)
        if growing(rows[WARM:]) or creeping(rows[WARM:], 1):
            # a store of bounded size is allowed to fill up first
            m = dict(trace['start'])
            for blk in trace['ops']:
                for s in blk:
                    m = apply_update(m, s['kw']) if 'kw' in s else m
            more = self.blocks(trace, random.Random(trace['more']), trace['ops'][0], m, MORE)
            for _ in range(PARTS):
                for blk in itertools.islice(more, MORE // PARTS):
                    measure(blk)
                d = growing(rows[-6:]) or creeping(rows[-MORE // PARTS - 1 :], 1)
                if not d:
                    break
            else:
                raise Violation('grows', f'{trace["kind"]}: {d}')
        ctx.checks += 1
        if last > first * 1.02 + 20:
            raise Violation('slower', f'{trace["kind"]}: the same {size} samples execute {last} lines late in the chain, {first} early')
