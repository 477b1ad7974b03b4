"""Scenarios over the input files: observables tables and galaxy catalogues that are
missing, torn, replaced while being read, or cannot be opened."""

import os
import resource

from . import files, seams, snap
from . import space_spectra as sp
from .codec import apply_update
from .engine import HarnessError, Violation
from .kinds import KINDS, evaluate
from .machine import has_failed
from .scn_others import amp_gen, amp_initial
from .scn_spectra import Base


def oracle_version(kind, model, base, fname, spec, names):
    """Reference: a fresh object, with the given version of the file in place."""
    import tempfile

    d = tempfile.mkdtemp(dir=base)
    for n, s in spec.items():
        files.MAKERS[s['kind']](os.path.join(d, n), s)
    return evaluate(kind, model, d, names)['values']


class FileScenario(Base):
    simulated_time = Base.simulated_time
    checks = ()
    kind = None

    def oracle_functions(self):
        return {'version': oracle_version}

    # ------------------------------------------------------------- execution

    def execute(self, trace, ctx):
        self.ctx = ctx
        self.specs = {}  # name -> spec now on disk (None: unreadable)
        self.disk = {}  # name -> versions that have been on disk, in order
        self.allowed = {}  # name -> those the object may have read last
        self.obj = None
        self.model = None
        self.held = []
        for i, op in enumerate(trace['ops']):
            if ctx.begin(i, op):
                getattr(self, 'op_' + op['op'])(op)
                ctx.end(i, op)

    def path(self, name):
        return os.path.join(self.ctx.scratch, name)

    def put(self, name, spec, how=''):
        """Replace the file atomically, as a data pipeline would, or overwrite it."""
        tmp = self.path('.new')
        files.MAKERS[spec['kind']](tmp, spec)
        if how.startswith('rewrite') and os.path.exists(self.path(name)):
            with open(tmp, 'rb') as a, open(self.path(name), 'wb') as b:
                b.write(a.read())
        else:
            os.replace(tmp, self.path(name))
        if how.endswith('dated'):  # with the date it had where it came from
            os.utime(self.path(name), (1.6e9, 1.6e9))
        self.specs[name] = spec
        self.remember(name, spec)

    def remember(self, name, spec):
        for d in (self.disk, self.allowed):
            d.setdefault(name, [])
            if spec not in d[name]:
                d[name].append(spec)

    def nothing_read(self, got):
        """Where the first quantity of a group could not be computed, the object has nothing of that file:
        what it answers next comes from what is on disk from now on."""
        for _, names, fname in self.used():
            # (an empty table is readable: it may be what was read, although nothing can be computed from it)
            if has_failed(got.get(names[0])) and not any(s.get('rows') == [] for s in self.allowed.get(fname, [])):
                self.allowed[fname] = [self.specs[fname]] if self.specs.get(fname) else []

    def op_file(self, op):
        name, act = op['name'], op['act']
        p = self.path(name)
        if act == 'put':
            self.put(name, op['spec'], op.get('how', ''))
            return
        self.ctx.fault_fired('file_' + act)
        if act == 'empty' and not name.endswith('.fits'):
            # an empty table can be read: it is one more version, of no rows
            self.put(name, {'kind': 'obs', 'rows': []})
            return
        if act == 'remove':
            if os.path.exists(p):
                os.remove(p)
        else:
            if not os.path.exists(p):
                return
            with open(p, 'rb') as f:
                data = f.read()
            # a torn table: cut before its first row is complete, so that it cannot pass for a shorter one
            whole = len(data) if data[:6] == b'SIMPLE' else len(data.split(b'\n')[0].rsplit(b' ', 1)[0])
            new = {'truncate': data[: int(whole * op['frac'])], 'empty': b'', 'garbage': b'\x00garbage\xff' * 40}[act]
            with open(p + '.t', 'wb') as f:
                f.write(new)
            os.replace(p + '.t', p)
        self.specs[name] = None

    def op_new(self, op):
        self.model = op['kw']
        try:
            self.obj = KINDS[self.kind].build(self.model, self.ctx.scratch)
        except Exception as e:  # noqa: BLE001
            raise HarnessError(f'cannot build: {e}') from e

    def op_update(self, op):
        from .codec import decode

        if self.obj is None:
            return
        self.obj.update(**{k: decode(v, self.ctx.scratch) for k, v in op['kw'].items()})
        self.model = apply_update(self.model, op['kw'])

    def used(self):
        """Files the current parameters refer to, by group of quantities."""
        raise NotImplementedError

    def op_read(self, op):
        """Read quantities; the file may be swapped at a chosen line, or no descriptor may be free."""
        if self.obj is None:
            return
        ctx, obj, K = self.ctx, self.obj, KINDS[self.kind]

        def fn():
            return {n: K.read(obj, n) for n in op['names']}

        swap = op.get('swap')
        if op.get('nofd'):
            soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
            r, w = os.pipe()  # the two lowest free descriptors
            os.close(r)
            os.close(w)
            resource.setrlimit(resource.RLIMIT_NOFILE, (min(r, w), hard))
            try:
                got = fn()
            finally:
                resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
            ctx.fault_fired('no_descriptors')
        elif swap:
            # write the new version beforehand: only the rename happens mid-evaluation
            tmp = self.path('.swap')
            files.MAKERS[swap['spec']['kind']](tmp, swap['spec'])
            n, at = seams.locate(fn, swap)
            where = []

            def on_line(i, frame):
                if i == at:
                    os.replace(tmp, self.path(swap['name']))
                    where.append(frame.f_code.co_name)

            with seams.LineSeam(on_line=on_line):
                got = fn()
            if where:
                ctx.fault_fired('file_replaced_during_read')
                ctx.state('swap', swap['name'], where)
                ctx.event('swap', where, at, n)
                self.specs[swap['name']] = swap['spec']
                self.remember(swap['name'], swap['spec'])
            else:
                os.remove(tmp)
            ctx.steps += n
        else:
            got = fn()
        self.nothing_read(got)
        ctx.state('read', op['names'], bool(swap), bool(op.get('nofd')))
        for v in got.values():
            snap.feed(ctx.log, v)

    def op_check(self, op):
        """Every group of quantities comes from one version of its file."""
        if self.obj is None:
            return
        ctx, K = self.ctx, KINDS[self.kind]
        for group, names, fname in self.used():
            now = {n: K.read(self.obj, n) for n in names}
            now = {n: v for n, v in now.items() if v is not snap.SKIP}
            for v in now.values():
                snap.feed(ctx.log, v)
            failed = [n for n, v in now.items() if has_failed(v)]
            ok_disk = self.specs.get(fname) is not None
            ctx.checks += len(now)
            ctx.state('check', group, bool(failed), ok_disk)
            why = None
            for spec in reversed(self.allowed.get(fname) or self.disk.get(fname, [])):
                ref = ctx.oracle('version', self.kind, self.model, ctx.scratch, fname, {f: (spec if f == fname else s[-1]) for f, s in self.disk.items() if s}, sorted(names))
                if failed and not ok_disk:
                    # unreadable now: what could be answered must still be answered from one version
                    d = snap.diff({n: v for n, v in now.items() if n not in failed}, {n: ref[n] for n in now if n not in failed})
                else:
                    d = snap.diff(now, {n: ref[n] for n in now})
                if not d:
                    why = None
                    break
                why = why or d
            self.nothing_read(now)
            if why:
                raise Violation(
                    'mixed_or_stale_file',
                    f'{group} quantities of {fname} match no single version of the file ({len(self.allowed[fname] or self.disk[fname])} possible); against the latest: {why}',
                )
        self.check_held()

    def op_fresh(self, op):
        """A new object, in this process, answers from the file as it is now."""
        if self.model is None:
            return
        ctx, K = self.ctx, KINDS[self.kind]
        obj = K.build(self.model, ctx.scratch)
        for group, names, fname in self.used():
            now = {n: K.read(obj, n) for n in names}
            now = {n: v for n, v in now.items() if v is not snap.SKIP}
            for v in now.values():
                snap.feed(ctx.log, v)
            spec = self.specs.get(fname)
            others = {f: s[-1] for f, s in self.disk.items() if s and f != fname}
            ref = ctx.oracle('version', self.kind, self.model, ctx.scratch, fname, {**others, **({fname: spec} if spec else {})}, sorted(names))
            ctx.checks += len(now)
            ctx.state('fresh', group, spec is not None)
            if spec is None:
                for n, v in now.items():
                    if has_failed(ref[n]) and not has_failed(v):
                        raise Violation('unreadable_not_reported', f'{group}: a new object answers {n} although {fname} cannot be read')
                continue
            d = snap.diff(now, {n: ref[n] for n in now})
            if d:
                raise Violation('stale_file', f'{group} quantities of a new object do not come from the present version of {fname}: {d}')

    def op_hold(self, op):
        pass

    def check_held(self):
        for what, o, was in self.held:
            self.ctx.checks += 1
            d = snap.diff(snap.canon(o), was, rtol=0.0)
            if d:
                raise Violation('held_changed', f'{what} returned earlier has changed: {d}')


# ----------------------------------------------------------------- observables


def how(r):
    return r.choice(['', 'rewrite', 'dated', 'rewrite dated', 'rewrite dated'])


def obs_spec(r):
    n = r.choice([2, 3, 3, 3, 4])
    zs = sorted(r.sample([0.05, 0.15, 0.3, 0.45, 0.6, 0.8], n))
    return {'kind': 'obs', 'rows': [[z, round(r.uniform(0.4, 4), 3) * 1e9, round(r.uniform(0.4, 4), 3) * 1e11] for z in zs]}


HOD_NAMES = [
    'hod', 'power_spectrum_gg', 'power_spectrum_gm', 'fstar', 'mass_avg', 'power_spectrum_ii', 'power_spectrum_gi',
]


class Observables(FileScenario):
    """P15"""

    kind = 'spectra'
    rule = (
        'seeded histories of a live model whose galaxy sample is defined by an observables file: the file is removed, truncated, emptied, garbled, replaced between reads or renamed over at a chosen '
        'line of an evaluation, or no file descriptor is free; after each step all galaxy quantities must come from one version of the file, and after the file is back the model must answer as a new one. '
        'Non-trivial: a check after a file event'
    )
    distinct_measure = 'distinct (swap site, quantities read) pairs and (group, readable, failed) states'
    stubs = [*Base.stubs, 'storage: real files in a scratch directory, changed by the simulator']
    quick = {**Base.quick, 'runs': 180}

    def generate(self, r, i, tier):
        f = 'obs.txt'
        m = dict(sp.BASE)
        m['hod_settings'] = {'d': {'observables_file': {'file': f}, 'nobs': r.choice([8, 10]), 'observable_h_unit': r.choice(['1/h', '1/h^2'])}}
        ops = [{'op': 'file', 'name': f, 'act': 'put', 'spec': obs_spec(r), 'how': how(r)}, {'op': 'new', 'kw': m}]
        for _ in range(6 if tier == 'quick' else 10):
            p = r.random()
            if p < 0.35:
                ops.append({'op': 'read', 'names': r.sample(HOD_NAMES, r.randint(1, 3)), 'swap': {'name': f, 'spec': obs_spec(r), **seams.line_fault(r, ['swap'])}})
            elif p < 0.6:
                act = r.choice(['remove', 'truncate', 'empty', 'garbage'])
                ops.append({'op': 'file', 'name': f, 'act': act, 'frac': round(r.uniform(0.05, 0.45), 3)})
                if r.random() < 0.5:
                    ops.append({'op': 'update', 'kw': {'omega_c': round(r.uniform(0.22, 0.28), 4)}})
                ops.append({'op': 'read', 'names': r.sample(HOD_NAMES, 2)} if r.random() < 0.7 else {'op': 'fresh'})
                ops.append({'op': 'file', 'name': f, 'act': 'put', 'spec': obs_spec(r), 'how': how(r)})
            elif p < 0.7:
                ops.append({'op': 'read', 'names': r.sample(HOD_NAMES, 2), 'nofd': True})
            else:
                ops.append({'op': 'file', 'name': f, 'act': 'put', 'spec': obs_spec(r), 'how': how(r)})
                ops.append({'op': 'read', 'names': r.sample(HOD_NAMES, 2)})
            if r.random() < 0.5:
                k = r.choice(['omega_c', 'sigma_8', 'hod_params', 'h0'])
                ops.append({'op': 'update', 'kw': {k: sp.GEN[k](r, m)}})
            if r.random() < 0.8:
                ops.append({'op': 'check'})
            if r.random() < 0.2:
                ops.append({'op': 'hold'})
            if r.random() < 0.25:
                ops.append({'op': 'fresh'})
        ops.append({'op': 'check'})
        return {'ops': ops}

    def used(self):
        return [('galaxy', HOD_NAMES, self.model['hod_settings']['d']['observables_file']['file'])]

    def op_hold(self, op):
        if self.obj is None or len(self.held) > 2:
            return
        try:
            h = self.obj.hod
        except Exception:  # noqa: BLE001
            return
        c = snap.canon(h)
        if not has_failed(c):
            self.held.append(('occupation distribution', h, c))


# ----------------------------------------------------------------- catalogues


def lum_spec(r):
    return {'kind': 'lum', 'n': r.choice([300, 500]), 'seed': r.randrange(10**6), 'mean': round(r.uniform(9.5, 10.5), 2)}


class Catalogue(FileScenario):
    """P16"""

    kind = 'ampl'
    rule = (
        'seeded histories of live alignment-amplitude objects that scale with luminosity: the galaxy catalogues are removed, truncated, emptied, garbled, replaced between reads or renamed over at a chosen '
        'line of an evaluation, or no file descriptor is free; after each step the luminosities, their distribution and the amplitude must come from one version of the catalogue, and after it is back the '
        'object must answer as a new one. Non-trivial: a check after a file event'
    )
    distinct_measure = Observables.distinct_measure
    stubs = Observables.stubs
    real_code = ['src/onepower/ia.py', 'astropy.io.fits', 'scipy', 'hmf caching']
    quick = {**Base.quick, 'runs': 400}

    def generate(self, r, i, tier):
        names = ['cen.fits', 'sat.fits']
        m = amp_initial(r, names)
        for k in list(m):
            if 'pivot' in k or k == 'beta_two' and r.random() < 0.5:
                m.pop(k)
        m.update({
            'z_loglum_file_centrals': {'file': 'cen.fits'}, 'z_loglum_file_satellites': {'file': 'sat.fits'}, 'lpivot_cen': 10.0, 'lpivot_sat': 10.1,
            'central_ia_depends_on': 'luminosity', 'satellite_ia_depends_on': 'luminosity',
        })
        gen = amp_gen(names)
        ops = [{'op': 'file', 'name': n, 'act': 'put', 'spec': lum_spec(r), 'how': how(r)} for n in names]
        ops.append({'op': 'new', 'kw': m})
        Q = [q for _, qs, _ in self.groups() for q in qs]
        for _ in range(7 if tier == 'quick' else 12):
            f = r.choice(names)
            p = r.random()
            if p < 0.4:
                ops.append({'op': 'update', 'kw': {'z_vec': gen['z_vec'](r, m)}} if r.random() < 0.5 else {'op': 'read', 'names': [r.choice(Q)]})
                ops.append({'op': 'read', 'names': r.sample(Q, r.randint(1, 4)), 'swap': {'name': f, 'spec': lum_spec(r), **seams.line_fault(r, ['swap'])}})
            elif p < 0.6:
                ops.append({'op': 'file', 'name': f, 'act': r.choice(['remove', 'truncate', 'empty', 'garbage']), 'frac': round(r.uniform(0.05, 0.9), 3)})
                if r.random() < 0.6:
                    ops.append({'op': 'update', 'kw': {'z_vec': gen['z_vec'](r, m)}})
                ops.append({'op': 'read', 'names': r.sample(Q, 2)} if r.random() < 0.6 else {'op': 'fresh'})
                ops.append({'op': 'file', 'name': f, 'act': 'put', 'spec': lum_spec(r), 'how': how(r)})
            elif p < 0.7:
                ops.append({'op': 'read', 'names': r.sample(Q, 2), 'nofd': True})
            else:
                ops.append({'op': 'file', 'name': f, 'act': 'put', 'spec': lum_spec(r), 'how': how(r)})
            if r.random() < 0.4:
                k = r.choice(['z_vec', 'beta_cen', 'gamma_2h_amplitude', 'beta_sat', 'lpivot_cen'])
                v = gen[k](r, m)
                if v is not None:
                    ops.append({'op': 'update', 'kw': {k: v}})
            if r.random() < 0.7:
                ops.append({'op': 'check'})
            if r.random() < 0.25:
                ops.append({'op': 'fresh'})
        ops.append({'op': 'check'})
        return {'ops': ops}

    def groups(self):
        return [
            ('central', ['lum_centrals', 'lum_pdf_z_centrals', 'alignment_gi'], 'z_loglum_file_centrals'),
            ('satellite', ['lum_satellites', 'lum_pdf_z_satellites', 'gamma_1h_amp'], 'z_loglum_file_satellites'),
        ]

    def used(self):
        return [(g, q, self.model[k]['file']) for g, q, k in self.groups()]
