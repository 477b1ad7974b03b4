"""Scenarios over the CosmoSIS deployment: module instances fed with the samples of a
chain, several of them in one process, with failing samples, failing block accesses,
failing emulators and crashes with restart."""

import importlib
import os
import sys

from . import files, seams, snap
from . import space_cosmosis as sc
from . import surroundings as su
from .engine import Violation
from .scn_spectra import Base
from .seams import REPO
from .stubs import EMU, Block, BlockError

MODDIR = os.path.join(REPO, 'cosmosis_modules')


def load(name='onepower_interface', sub=''):
    d = os.path.join(MODDIR, sub) if sub else MODDIR
    if d not in sys.path:
        sys.path.insert(0, d)
    new = name not in sys.modules
    m = importlib.import_module(name)
    if new and seams.LIVE:
        seams.install_identity()
    return m


def contents(block):
    return {f'{a}/{b}': snap.canon(v) for (a, b), v in sorted(block.d.items())}


def outputs(block, before):
    """What execute() put into the block: new or changed entries."""
    out = {}
    for k, v in contents(block).items():
        if k not in before or snap.diff(v, before[k], rtol=0.0):
            out[k] = v
    return out


def chain(config, blocks, base):
    """Reference: a fresh module instance fed with the given blocks (dicts)."""
    oi = load()
    try:
        conf = oi.setup(sc.options_block(config, base))
    except Exception as e:  # noqa: BLE001
        return {'failed': f'setup: {type(e).__name__}: {e}'[:200]}
    out = None
    for d in blocks:
        b = Block()
        b.d = dict(d)
        before = contents(b)
        try:
            rc = oi.execute(b, conf)
        except Exception as e:  # noqa: BLE001
            out = {'failed': f'{type(e).__name__}: {e}'[:200]}
            continue
        out = {'rc': rc, 'out': outputs(b, before)}
    return out


def reference(config, given, base):
    from . import ref_interface

    try:
        return ref_interface.reference(config, given, base)
    except ImportError:
        raise
    except Exception as e:  # noqa: BLE001
        return {'failed': f'{type(e).__name__}: {e}'}


BADS = [
    {'drop': ('cosmological_parameters', 'sigma_8')},
    {'drop': ('cosmological_parameters', 'wa')},
    {'drop': ('halo_model_parameters', 'logT_AGN')},
    {'drop': ('hod_parameters', 'b1')},
    {'drop': ('hod_parameters_b', 'log10_Mmin')},
    {'drop': ('intrinsic_alignment_parameters_ia', 'beta')},
    {'drop': ('intrinsic_alignment_parameters_ia_red', 'gamma_2h_amplitude')},
    {'drop': ('intrinsic_alignment_parameters_ia_blue', 'gamma_1h_amplitude')},
    {'drop': ('pk_parameters', 'poisson')},
    {'drop': ('growth_parameters', 'd_z')},
    {'set': ('cosmological_parameters', 'sigma_8', -1.0)},
    {'set': ('cosmological_parameters', 'n_s', -9.0)},
    {'set': ('cosmological_parameters', 'h0', -0.7)},
    {'set': ('cosmological_parameters', 'omega_c', float('nan'))},
    {'set': ('cosmological_parameters', 'sigma_8', 'x')},
    {'set': ('hod_parameters', 'sigma_log10_O_c', float('nan'))},
    {'set': ('pk_parameters', 'poisson', 'x')},
    {'set': ('matter_power_lin', 'p_k', 'short')},
    {'set': ('growth_parameters', 'd_z', 'short')},
]


AFTER_BIAS = ('hod_parameters', 'hod_parameters_b', 'intrinsic_alignment_parameters_ia', 'intrinsic_alignment_parameters_ia_red', 'intrinsic_alignment_parameters_ia_blue', 'pk_parameters')


def make_block(op, base):
    b = sc.sample_block(op['sample'])
    for bad in op.get('bad', []):
        if 'drop' in bad:
            b.d.pop(tuple(x.lower() for x in bad['drop']), None)
        else:
            s, n, v = bad['set']
            k = (s.lower(), n.lower())
            if isinstance(v, str) and v == 'short':
                v = b.d[k][:-1]
            b.d[k] = v
    for s, n, v in op.get('extra', []):
        b.d[(s, n)] = v
    return b


class CosmosisBase(Base):
    real_code = ['cosmosis_modules/onepower_interface.py', *Base.real_code]
    stubs = [
        'CosmoSIS data block and options (in-memory stand-in: values copied in and out, missing values raise)',
        'the sampler and the modules upstream of this one (samples are generated)',
        *Base.stubs,
    ]
    distinct_measure = 'distinct (configuration class, kind of previous sample, kind of sample) triples and fault sites'

    def oracle_functions(self):
        return {'chain': chain, 'reference': reference}

    def obs_files(self, r):
        return {f'obs{i}.txt': {'kind': 'obs', 'rows': [[z, round(r.uniform(0.5, 5) * 1e9, 0), round(r.uniform(0.5, 5) * 1e11, 0)] for z in (0.05, 0.3, 0.7)[: r.choice([2, 3])]]} for i in range(2)}

    # ------------------------------------------------------------- execution

    def execute(self, trace, ctx):
        files.make_all(ctx.scratch, trace.get('files', {}))
        self.ctx = ctx
        self.inst = {}
        self.conf = {}
        self.prev = {}
        self.states = {}
        su.install_clock()
        for i, op in enumerate(trace['ops']):
            if ctx.begin(i, op):
                getattr(self, 'op_' + op['op'])(op)
                ctx.end(i, op)

    def op_setup(self, op):
        oi = load()
        opts = sc.options_block(op['config'], self.ctx.scratch)
        before = contents(opts)
        try:
            self.inst[op['slot']] = oi.setup(opts)
        except seams.ERRORS as e:  # noqa: BLE001
            ref = self.ctx.oracle('chain', op['config'], [], self.ctx.scratch)
            if not (ref and 'failed' in ref):
                raise Violation('setup_failed', f'setup raised {type(e).__name__}: {e} here, but not in a new process') from e
            self.inst.pop(op['slot'], None)
            return
        self.conf[op['slot']] = op['config']
        self.prev[op['slot']] = 'none'
        self.states[op['slot']] = [(0, None)]
        self.ctx.checks += 1
        d = snap.diff(contents(opts), before, rtol=0.0)
        if d:
            raise Violation('options_changed', f'setup changed the options{d}')

    op_restart = op_setup

    def op_clock(self, op):
        su.CLOCK['offset'] += op['by']
        self.ctx.fault_fired('clock_jump')

    def op_cleanup(self, op):
        if op['slot'] in self.inst:
            load().cleanup(self.inst[op['slot']])

    def op_exec(self, op):
        self.run_sample(op, make_block(op, self.ctx.scratch))

    def op_pipe(self, op):
        """One block through several module instances, as in a pipeline."""
        b = make_block(op, self.ctx.scratch)
        for s in op['slots']:
            if s in self.inst and not self.run_sample({**op, 'slot': s}, b):
                return

    def is_bnl(self, slot):
        return self.conf[slot].get('nonlinear_mode') == 'bnl'

    def run_sample(self, op, b):
        ctx, slot = self.ctx, op['slot']
        if slot not in self.inst:
            return False
        oi = load()
        given = dict(b.d)
        before = contents(b)
        f = op.get('fault')
        ok, ret, why, fired = self.call(oi, b, self.inst[slot], f)
        kind = 'ok' if ok else ('fault' if fired else 'bad')
        cfg = self.conf[slot]
        ctx.state('sample', sorted(k for k in cfg if cfg[k] is True), cfg.get('nonlinear_mode'), self.prev[slot], kind, bool(op.get('bad')))
        self.prev[slot] = kind
        if fired and not ok:
            if self.is_bnl(slot) and self.fault_kinds != ['emulator']:
                # outputs are written after the bias stage; for other faults it may or may not
                # have been reached: both are allowed
                after = [self.advance(cfg, st, given) for st in self.states[slot]]
                self.states[slot] = after if self.fault_kinds == ['block_put'] else self.states[slot] + after
            return False
        out = outputs(b, before) if ok else None
        if self.is_bnl(slot):
            return self.refresh_check(op, slot, b, given, before, ok, ret, why, out)
        ref = ctx.oracle('chain', cfg, [given], ctx.scratch)
        d = self.judge(slot, ok, ret, why, out, ref)
        if d:
            raise Violation(*d)
        if not ok:
            return False
        snap.feed(ctx.log, out)
        self.after(op, slot, b, given, before, out, ret)
        return True

    @staticmethod
    def advance(cfg, st, given):
        calls, refresh = st
        return (calls + 1, given if calls % cfg['update_bnl'] == 0 else refresh)

    def judge(self, slot, ok, ret, why, out, ref):
        """None, or (kind, message)."""
        ctx = self.ctx
        ctx.checks += 1
        ctx.steps += 1
        if not ok:
            ctx.count('samples_rejected')
            if 'failed' not in ref:
                return 'sample_failed', f'slot {slot}: {why}; a new instance accepts the same sample'
            return None
        if 'failed' in ref:
            return 'sample_accepted', f'slot {slot}: a new instance rejects the same sample: {ref["failed"]}'
        ctx.checks += len(out)
        d = snap.diff({'rc': ret, 'out': out}, ref)
        if d:
            return 'sample_depends_on_history', f'slot {slot}: {d} (this instance vs a new instance fed with the same sample)'
        return None

    def refresh_check(self, op, slot, b, given, before, ok, ret, why, out):
        """Reference model of the refresh schedule: a set of (samples counted, sample of
        the last refresh) states, narrowed by what is observed."""
        ctx, cfg = self.ctx, self.conf[slot]
        used, keep, bad = self.emu_used, [], None
        for st in self.states[slot]:
            due = st[0] % cfg['update_bnl'] == 0
            blocks = [given] if due else [st[1], given]
            ctx.count('bias_refreshed' if due else 'bias_reused')
            ref = ctx.oracle('chain', {**cfg, 'update_bnl': 10**6}, blocks, ctx.scratch)
            d = self.judge(slot, ok, ret, why, out, ref)
            if not d and ok and used != due:
                d = (
                    'refresh_schedule',
                    f'slot {slot}: sample {st[0]} of a chain with update_bnl={cfg["update_bnl"]}: the emulator '
                    f'{"was" if used else "was not"} evaluated, {"was" if due else "was not"} due',
                )
            if d:
                bad = bad or d
                continue
            if ok:
                keep.append(self.advance(cfg, st, given))
            else:
                keep += self.after_failure(op, cfg, st, given)
        if not keep:
            raise Violation(*bad)
        self.states[slot] = keep
        if not ok:
            return False
        snap.feed(ctx.log, out)
        self.after(op, slot, b, given, before, out, ret)
        return True

    def after_failure(self, op, cfg, st, given):
        """Where the schedule may stand after a sample that was rejected."""
        if not op.get('late'):
            return [st]
        on = self.advance(cfg, st, given)
        if self.emu_used and all('drop' in b and b['drop'][0] in AFTER_BIAS for b in op['bad']):
            return [on]  # the bias was refreshed; something else is missing
        return [st, on]

    def after(self, op, slot, b, given, before, out, ret):
        pass

    def call(self, oi, b, conf, f):
        """execute() with an optional fault; (ok, return value, why, fault fired)."""
        ctx = self.ctx
        fired = []
        used = []
        sigs = []

        def emu(where):
            used.append(where)
            if f and f['kind'] == 'emulator' and len(used) == f['at']:
                fired.append(f['kind'])
                raise seams.make_exc('runtime')

        seam = None
        EMU['fail'] = emu
        if f and f['kind'] in ('get', 'put'):
            n = {'i': 0}

            def hook(what, s, name):
                if what == f['kind']:
                    n['i'] += 1
                    if n['i'] == f['at']:
                        fired.append('block_' + what)
                        sigs.append((what, s, name))
                        e = BlockError(f'injected: {what} {s} {name}')
                        e.injected = True
                        raise e

            b.hook = hook
        elif f and f['kind'] != 'emulator':
            def fn():
                EMU['fail'] = None
                c = Block()
                c.d = dict(b.d)
                oi.execute(c, conf)

            total, at = seams.locate(fn, f)
            if total:
                seam = seams.LineSeam(at, seams.make_exc(f['kind']))
                ctx.steps += total
        try:
            if seam:
                with seam:
                    ret = oi.execute(b, conf)
            else:
                ret = oi.execute(b, conf)
            ok, why = True, ''
        except seams.ERRORS as e:  # noqa: BLE001
            ok, why, ret = False, f'{type(e).__name__}: {e}'[:300], None
        finally:
            EMU['fail'] = None
            b.hook = None
        if seam and seam.fired:
            fired.append(f['kind'])
            sigs.append(seam.where)
        for k in fired:
            ctx.fault_fired(k)
        for s in sigs:
            ctx.state('fault', s)
            ctx.event('fault', *s)
        self.emu_used = bool(used)
        self.fault_kinds = fired
        return ok, ret, why, bool(fired)


def gen_fault(r, bnl=False):
    p = r.random()
    if bnl and p < 0.5:
        return {'kind': 'emulator', 'at': r.choice([1, 2, 3, 5, 9, 20, 60, 150])}
    if p < 0.45:
        return {'kind': 'get', 'at': r.randint(1, 60)}
    if p < 0.65:
        return {'kind': 'put', 'at': r.randint(1, 80)}
    return seams.line_fault(r)


class Chain(CosmosisBase):
    """P08: outputs of a sample do not depend on the samples before it."""

    rule = (
        'seeded chains: one to three module instances with independently generated configurations, fed in a seeded interleaving with samples of which most repeat part of '
        'the previous one; after every sample the complete set of block entries written is compared with that of a new instance in a pristine process. '
        'Non-trivial: a sample that was not the first of its instance'
    )
    quick = {**Base.quick, 'runs': 200}

    def generate(self, r, i, tier):
        fs = self.obs_files(r)
        ops, cur = [], {}
        for s in 'abc'[: r.choice([1, 1, 2, 3])]:
            cfg = sc.gen_config(r, sorted(fs))
            ops.append({'op': 'setup', 'slot': s, 'config': cfg})
            cur[s] = sc.gen_sample(r)
        shared, seen = r.random() < 0.5, []
        for _ in range(7 if tier == 'quick' else 12):
            s = r.choice(sorted(cur))
            cur[s] = sc.vary(r, r.choice(list(cur.values())) if shared else cur[s])
            if seen and r.random() < 0.12:
                cur[s] = r.choice(seen)  # the sampler comes back
            seen.append(cur[s])
            ops.append({'op': 'exec', 'slot': s, 'sample': cur[s]})
        return {'ops': ops, 'files': fs, 'keep_kw': ()}


class ChainFaults(CosmosisBase):
    """P09: a failed sample does not spoil the next one."""

    rule = (
        'seeded chains in which samples are struck: a block access fails, a parameter is missing or out of range, the code raises at a chosen line, the emulator fails, '
        'or the process is lost and the module set up anew; every following good sample is compared with a new instance in a pristine process. '
        'Non-trivial: a good sample after a failed one'
    )
    quick = {**Base.quick, 'runs': 160}

    def generate(self, r, i, tier):
        fs = self.obs_files(r)
        ops, cur, cfgs = [], {}, {}
        for s in 'ab'[: r.choice([1, 1, 2])]:
            cfg = sc.gen_config(r, sorted(fs), bnl=r.choice([1, 2, 3]) if r.random() < 0.15 else None)
            ops.append({'op': 'setup', 'slot': s, 'config': cfg})
            cur[s] = sc.gen_sample(r)
            cfgs[s] = cfg
        for _ in range(5 if tier == 'quick' else 9):
            s = r.choice(sorted(cur))
            if r.random() < 0.6:
                cur[s] = sc.vary(r, cur[s])
                ops.append({'op': 'exec', 'slot': s, 'sample': cur[s]})
            op = {'op': 'exec', 'slot': s, 'sample': sc.vary(r, cur[s])}
            bnl = cfgs[s].get('nonlinear_mode') == 'bnl'
            if r.random() < 0.45:
                op['bad'] = [r.choice(BADS)]
                op['late'] = True
            else:
                op['fault'] = gen_fault(r, bnl)
            ops.append(op)
            if r.random() < 0.1:
                ops.append({'op': 'restart', 'slot': s, 'config': cfgs[s]})
            if r.random() < 0.6:
                cur[s] = sc.vary(r, r.choice([op['sample'], op['sample'], cur[s]]))
                ops.append({'op': 'exec', 'slot': s, 'sample': cur[s]})
            else:
                # the same sample again, without the fault
                cur[s] = op['sample']
                ops.append({'op': 'exec', 'slot': s, 'sample': cur[s]})
        return {'ops': ops, 'files': fs, 'keep_kw': ()}


class Refresh(CosmosisBase):
    """P10: schedule of the non-linear bias refresh."""

    rule = (
        'seeded chains of one or two instances that use the non-linear halo bias with update_bnl from 1 to 5, with samples rejected before the bias stage, emulator failures and restarts; '
        'after every sample the emulator was evaluated exactly when the reference schedule says so, and the outputs equal those of a new instance that was refreshed at the scheduled sample. '
        'Non-trivial: a sample that reuses a bias computed for an earlier one'
    )
    quick = {**Base.quick, 'runs': 120}

    def generate(self, r, i, tier):
        ops, cur, cfgs = [], {}, {}
        for s in 'ab'[: r.choice([1, 1, 2])]:
            cfg = sc.gen_config(r, [], bnl=r.choice([1, 2, 2, 3, 3, 4, 5]))
            cfgs[s] = cfg
            ops.append({'op': 'setup', 'slot': s, 'config': cfg})
            cur[s] = sc.gen_sample(r)
        for _ in range(9 if tier == 'quick' else 16):
            s = r.choice(sorted(cur))
            cur[s] = sc.vary(r, cur[s])
            op = {'op': 'exec', 'slot': s, 'sample': cur[s]}
            p = r.random()
            if p < 0.15:
                op['fault'] = {'kind': 'emulator', 'at': r.choice([1, 2, 3, 5, 9, 20, 60, 150])}
            elif p < 0.25:
                op['bad'] = [r.choice(BADS)]
                op['late'] = True
            elif p < 0.33:
                op['fault'] = {'kind': 'put', 'at': r.randint(1, 12)}
            elif p < 0.38:
                op['fault'] = gen_fault(r, True)
            if r.random() < 0.15:
                ops.append({'op': 'clock', 'by': r.choice([3600.5, 86400.0, -7200.0, 1e7])})
            ops.append(op)
            if r.random() < 0.05:
                ops.append({'op': 'restart', 'slot': s, 'config': cfgs[s]})
        return {'ops': ops, 'files': {}, 'keep_kw': ()}


class Contract(CosmosisBase):
    """P11: what a sample may do to the block."""

    rule = (
        'seeded pipelines of one to three module instances over one block per sample, with unrelated entries in the block; after each module: inputs unchanged, '
        'exactly the requested spectra written, unrelated entries untouched, outputs equal to those of a new instance run on the same block, and the outputs of modules run before it '
        'changed only where both write. Non-trivial: a block that passed through at least one module'
    )
    quick = {**Base.quick, 'runs': 110}

    def generate(self, r, i, tier):
        fs = self.obs_files(r)
        ops, slots = [], []
        for s in 'abc'[: r.choice([1, 2, 2, 3])]:
            ops.append({'op': 'setup', 'slot': s, 'config': sc.gen_config(r, sorted(fs), bnl=False if r.random() < 0.9 else 1)})
            slots.append(s)
        smp = sc.gen_sample(r)
        for _ in range(4 if tier == 'quick' else 7):
            smp = sc.vary(r, smp)
            k = r.randint(1, len(slots))
            ops.append({
                'op': 'pipe', 'slots': r.sample(slots, k), 'sample': smp,
                'extra': [['unrelated', 'x', round(r.random(), 3)], ['likelihoods', 'previous', 1.0]],
            })
            if r.random() < 0.2:
                ops.append({'op': 'cleanup', 'slot': r.choice(slots)})
        return {'ops': ops, 'files': fs, 'keep_kw': ()}

    def after(self, op, slot, b, given, before, out, ret):
        ctx, cfg = self.ctx, self.conf[slot]
        ctx.checks += 3
        if ret != 0:
            raise Violation('return_code', f'execute returned {ret!r} for an accepted sample')
        now = contents(b)
        mine = set(b.writes)
        for k, v in before.items():
            sec, name = k.split('/', 1)
            if k not in now:
                raise Violation('input_removed', f'{k} was removed from the block')
            if k in self.inputs and snap.diff(now[k], v, rtol=0.0):
                if sec == 'matter_power_nl' and cfg.get('p_mm') and not cfg.get('response'):
                    continue
                raise Violation('input_changed', f'slot {slot} changed its input {k}')
        b.writes = []
        got = {s for s, _ in mine if s.rstrip('_0123456789') in sc.SPECTRUM_SECTIONS}
        want = sc.expected_sections(cfg)
        if got != want:
            raise Violation('spectra_written', f'slot {slot}: spectra written {sorted(got)}, requested {sorted(want)}')
        for s in want:
            for n in ('p_k', 'p_k_1h', 'p_k_2h', 'k_h', 'z'):
                if f'{s}/{n}' not in now:
                    raise Violation('spectra_written', f'slot {slot}: {s}/{n} is missing')

        # and the numbers are those the library gives for this sample
        ref = ctx.oracle('reference', cfg, given, ctx.scratch)
        if 'failed' in ref:
            ctx.count('reference_not_available')
            return
        ctx.count('reference_compared')
        for k, v in ref.items():
            ctx.checks += 1
            if k not in now:
                raise Violation('output_missing', f'slot {slot}: {k} is missing')
            d = snap.diff(now[k], v, rtol=1e-6)
            if d:
                raise Violation('output_wrong', f'slot {slot}: {k}{d} (written vs computed with the library for this sample)')

    def op_pipe(self, op):
        self.inputs = set(contents(make_block(op, self.ctx.scratch)))
        super().op_pipe(op)
