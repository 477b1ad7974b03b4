"""Writes properties.jsonl and MANIFEST.json (both committed)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = {'name': 'dependency-tracked caching: a quantity is recomputed when a parameter it was computed from changes', 'where': 'hmf Framework, src/onepower/utils/framework.py, @parameter / @cached_quantity throughout src/onepower'}
ALL = ['src/onepower/pk.py', 'src/onepower/hmi.py', 'src/onepower/hod.py', 'src/onepower/ia.py', 'src/onepower/bnl.py']
IFACE = 'cosmosis_modules/onepower_interface.py'


def p(id, title, statement, over, text, why, files, mech, observe, technique=None, note=None, na=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note, na=na)


TRUST = ' Trusts numpy, scipy, hmf, halomod and colossus to be deterministic, and compares at relative 1e-8.'
T = 'deterministic simulation: seeded search over '

P = [
    p('P01', 'Updated models answer as if newly built with their current parameters',
      'After any sequence of accepted parameter updates, every public quantity of a halo-model spectra object (matter, galaxy and alignment spectra, halo-model ingredients, occupation statistics) equals that of an object newly built with the parameters now in force. '
      'This holds for every parameter and every choice of model, mode and option, whatever had been read before each update, and also when the caller reuses its own arrays and dictionaries for the new values.',
      ['histories', 'configurations'], 'all update and read histories, over all parameters and model choices',
      'Tests build an object, update one or two parameters and read one or two quantities; staleness shows only for particular (what was read, then what was updated, under which options) histories.',
      ALL + ['src/onepower/utils/framework.py'], [CACHE], ['public attributes of Spectra after update()'],
      T + 'update/read histories of the live model, refined against a freshly built model in a pristine process',
      'Seeded exploration of histories of about 10 operations over every parameter in every regime; no claim beyond the histories run.'),
    p('P02', 'Reading is free of side effects and independent of order',
      'A quantity read from a model has the same value whichever other quantities were read before it, in whatever order and however often, and whichever helper methods were called. Reading never changes the parameters the model reports.',
      ['schedules', 'histories', 'configurations'], 'all orders and repetitions of reads and helper calls, for every configuration',
      'Tests read quantities in one fixed order from a shared fixture; a read that leaves something behind shows only in particular orders.',
      ALL, [CACHE, {'name': 'quantities computed without writing to shared inputs', 'where': 'src/onepower/pk.py, src/onepower/hmi.py'}], ['public attributes and parameter_values of Spectra'],
      T + 'read schedules, refined against a fixed-order reader in a pristine process',
      'Seeded exploration of read orders of about 40 reads in random regimes.'),
    p('P03', 'A failure in mid-evaluation leaves no trace in later answers',
      'When an evaluation, update, clone or construction is cut short at any point by an exception (out of memory, I/O error, numerical failure, emulator failure, inconsistent inputs), the exception reaches the caller, and the model afterwards answers every question as a new model built with the parameters it reports. '
      'Nothing partly computed is ever returned.',
      ['fault_sequences', 'crash_points', 'histories'], 'all points of an evaluation at which an exception can be raised, all kinds of exception, all histories around it',
      'No test makes an evaluation fail half way; the number of points at which it could is in the thousands.',
      ALL + ['src/onepower/utils/framework.py'], [CACHE, {'name': 'values stored only after they were computed', 'where': 'hmf cached_quantity; derived quantities in src/onepower'}], ['public attributes of Spectra after a failed call'],
      T + 'fault points and kinds at executed lines of the code, then recovery compared with a freshly built model',
      'Faults are raised as exceptions at executed source lines of the repository code; interrupts between bytecodes of one line and inside the libraries are not simulated.'),
    p('P04', 'A rejected update is reported and leaves parameters and answers consistent',
      'An update with an unknown parameter, an unknown model or mode, a value of the wrong type or an inconsistent combination raises an error. After it, the model still answers for exactly the parameters it reports, parameters not mentioned in the call keep their values, and later valid updates work as usual.',
      ['inputs', 'histories'], 'all histories of accepted and rejected updates, the bad entry at any position among good ones',
      'Tests assert that some bad values raise; none looks at the model afterwards.',
      ALL + ['src/onepower/utils/framework.py'], [{'name': 'parameter validation', 'where': 'src/onepower: @parameter setters and utils/framework.py'}, CACHE], ['update(), parameter_values, public attributes'],
      T + 'histories with invalid updates, refined against a freshly built model holding the reported parameters',
      'Seeded exploration over a catalogue of invalid entries at random positions among valid ones.'),
    p('P05', 'Models living in one process do not influence each other',
      'Building, cloning, copying, updating, reading or discarding one model never changes any value or reported parameter of another model in the same process, whether they were built independently, from the same dictionaries and arrays, or as clones or copies of each other.',
      ['histories', 'schedules', 'configurations'], 'all interleavings of operations on any number of live models',
      'Tests use one model at a time, or never look at the first again after using the second.',
      ALL + ['src/onepower/utils/framework.py'], [{'name': 'each model owns its parameters and its cosmology', 'where': 'src/onepower/utils/framework.py; src/onepower/hmi.py (colossus cosmology)'}, CACHE], ['public attributes of all live Spectra objects'],
      T + 'interleavings of operations on several live models, each refined against a freshly built one',
      'Two to four live models, interleaved at the granularity of calls (threads: P07).'),
    p('P06', 'What the caller passed in or got back is never changed behind its back',
      'Arrays and dictionaries passed to a model keep their contents, and a result the caller holds (array, spectrum with its components, occupation object) keeps its values, whatever is done with the model afterwards. In turn, what the caller later writes into its own arrays and dictionaries changes neither the parameters nor the answers of the halo-model, alignment, bias or mixing object they were passed to.',
      ['histories', 'configurations'], 'all histories of constructions, updates, reads and clones following the hand-over',
      'Tests compare results at once; in-place modification of something held is seen only by looking again later.',
      ALL, [{'name': 'inputs copied or not written to; results not reused as work space', 'where': 'src/onepower'}], ['arguments of Spectra(), update(); values returned by public attributes'],
      T + 'client histories in which every argument and result is retained and compared bit for bit after each step',
      'Results are compared bit for bit with copies taken when they were handed over.'),
    p('P07', 'Independent models can be used from concurrent threads',
      'Several threads, each building, updating and reading its own models, obtain the values they would obtain alone, under every interleaving, also when one of them fails. (Concentration relations taken from colossus are excepted: that library has one cosmology per process.)',
      ['schedules', 'fault_sequences'], 'all interleavings of two or three client threads at line granularity, with faults',
      'No test uses threads; the interleavings are astronomically many.',
      ALL + ['src/onepower/utils/framework.py'], [{'name': 'no mutable state shared between models (colossus cosmology guarded)', 'where': 'src/onepower/hmi.py'}], ['values seen by each thread'],
      T + 'thread interleavings under a scheduler that owns every switch, refined against a model used alone',
      'Switches happen at executed lines of the repository code, one thread at a time; races inside libraries or within one line are not simulated. Threads sharing one model are outside the property.'),
    p('P08', 'The output for a sample does not depend on the samples before it',
      'In a chain, what the CosmoSIS module writes for a sample depends only on the options and that sample: it equals what a new module instance writes for it, for any previous samples and for any other module instances running in the process. (With a non-linear bias that is refreshed less often than every sample, only the bias may date from an earlier sample: see the refresh property.)',
      ['histories', 'configurations'], 'all sequences of samples, all module configurations, any number of instances interleaved',
      'The interface has almost no tests that execute it twice; samplers execute it millions of times, usually repeating part of the parameters.',
      [IFACE, *ALL, 'src/onepower/add.py'], [{'name': 'parameters passed on by update() for each sample', 'where': IFACE + ' execute'}, CACHE], ['entries written to the data block by execute()'],
      T + 'sample sequences and instance interleavings, refined against a new instance in a pristine process',
      'The data block and options are an in-memory stand-in with copy semantics; samples are synthetic.'),
    p('P09', 'A failed sample does not spoil the samples after it',
      'When a sample fails (missing or invalid parameter, failing data-block access, emulator failure, out of memory or any exception at any point of the calculation) or the process is restarted, the following good samples give exactly what a new module instance gives for them.',
      ['fault_sequences', 'crash_points', 'histories'], 'all failing samples and failure points in a chain, followed by any good samples',
      'No test makes a sample fail and goes on with the same instance.',
      [IFACE, *ALL, 'src/onepower/add.py'], [{'name': 'every sample sets all varying parameters anew', 'where': IFACE + ' execute'}, CACHE], ['entries written to the data block after a failed sample'],
      T + 'faults in samples of a chain, recovery refined against a new instance in a pristine process',
      'Faults: block reads and writes, bad values, exceptions at executed lines, emulator failures, restarts.'),
    p('P10', 'The non-linear bias is refreshed exactly on schedule',
      'With the non-linear halo bias refreshed every N samples, the emulator is evaluated for the first sample and then for exactly every Nth one that reached the bias stage, and in between outputs use the bias of the last refresh together with the current parameters for everything else. Failed samples, failed refreshes, several instances and restarts do not disturb this: a bias never dates from more than N samples ago nor from another instance.',
      ['histories', 'fault_sequences', 'configurations'], 'all chains, refresh intervals 1 to 5, emulator failures, rejected samples and restarts',
      'The schedule is state that lives across samples; no test runs a chain.',
      [IFACE, 'src/onepower/bnl.py', 'src/onepower/pk.py'], [{'name': 'sample counter and stored bias', 'where': IFACE + ' execute'}], ['calls to the emulator; entries written to the data block'],
      T + 'chains with emulator failures and restarts, checked against a reference model of the refresh schedule',
      'The Dark Emulator is a deterministic stand-in whose answers depend on the cosmology set last on it.'),
    p('P11', 'A sample writes what was requested and leaves the rest of the block alone',
      'For an accepted sample the module returns success, writes the complete set of spectra requested in the options (with their one-halo and two-halo parts and grids) and no others, changes none of its input entries and no unrelated entries. Several modules in one pipeline compose: each gives what it would give alone on the same block.',
      ['configurations', 'histories'], 'all option combinations, pipelines of several instances, blocks with unrelated entries',
      'Tests of the interface cover a few helper functions with one set of options each.',
      [IFACE], [{'name': 'saving of spectra', 'where': IFACE + ' execute and save_* helpers'}], ['data block before and after execute()'],
      T + 'pipelines of module instances over shared blocks, with invariants on the block and refinement against new instances',
      'Expected sections are derived from the options by a small independent model.'),
    p('P12', 'Alignment objects answer for their current parameters in every history',
      'Intrinsic-alignment amplitude objects and satellite-alignment objects used on their own give, after any sequence of updates, reads, rejected updates and failed evaluations, the values of newly built objects with the parameters in force.',
      ['histories', 'fault_sequences', 'configurations'], 'all histories, over all scalings, transforms and catalogue choices',
      'Tests build these objects once per case.',
      ['src/onepower/ia.py', 'src/onepower/utils/framework.py'], [CACHE], ['public attributes of AlignmentAmplitudes, SatelliteAlignment'],
      T + 'update/read/fault histories of live alignment objects, refined against freshly built ones',
      'Catalogues are small synthetic FITS files.'),
    p('P13', 'Mixed and upsampled spectra follow their inputs and leave the source intact',
      'An object that mixes two galaxy populations and resamples their spectra gives, after any sequence of updates of grids, fractions, population parameters or source, of requests for different spectra and of failed requests, what a newly built one gives. It never changes the source model or fraction file it was given.',
      ['histories', 'fault_sequences'], 'all histories of updates and requests, with faults',
      'Tests request one spectrum from one object.',
      ['src/onepower/add.py'], [CACHE, {'name': 'second population is a clone of the source', 'where': 'src/onepower/add.py'}], ['frac_1, power_1, power_2, results() of UpsampledSpectra'],
      T + 'update/request/fault histories, refined against freshly built objects',
      'Source models are small; updating the source in place between requests is outside the property.'),
    p('P14', 'Non-linear bias objects follow their parameters; none borrows another cosmology',
      'A non-linear bias object gives, after any sequence of updates, reads, clones and emulator failures, the values of a newly built one with the parameters in force, also when several such objects with different cosmologies are used alternately.',
      ['histories', 'fault_sequences', 'schedules'], 'all histories of one or several bias objects, with emulator failures',
      'Tests evaluate a bias object once, or replace the emulator by constants.',
      ['src/onepower/bnl.py'], [CACHE, {'name': 'one emulator per object, set to its cosmology before use', 'where': 'src/onepower/bnl.py'}], ['public attributes of NonLinearBias'],
      T + 'update/read/clone/fault histories of several live objects, refined against freshly built ones',
      'The Dark Emulator is a deterministic stand-in whose answers depend on the cosmology set last on it.'),
    p('P15', 'All galaxy quantities come from one version of the observables file',
      'When the galaxy sample is defined by a file, all quantities an occupation model gives come from a single version of that file, even if the file is replaced, removed or damaged while they are computed. An unreadable file is reported as an error, never answered with leftovers of a partial read, and once the file is readable again the model answers as a new one would; a model newly built after a replacement answers from the new version.',
      ['fault_sequences', 'schedules', 'histories'], 'all points of an evaluation at which the file is replaced, removed, truncated or unreadable',
      'Tests read one fixed file that never changes.',
      ['src/onepower/hod.py', 'src/onepower/pk.py'], [{'name': 'file read once per occupation object', 'where': 'src/onepower/hod.py data'}, CACHE], ['public attributes of the occupation object and spectra'],
      T + 'file events (replacement at an executed line, removal, truncation, no descriptors), checked for single-version consistency',
      'Files are replaced atomically by rename at executed lines of the repository code; a file rewritten in place while numpy reads it is not simulated.'),
    p('P16', 'Luminosities and their distribution come from one version of the catalogue',
      'When alignment amplitudes scale with a luminosity catalogue, the luminosities, their distribution and the amplitudes of a galaxy type come from a single version of its catalogue, even if that is replaced, removed or damaged while they are computed. An unreadable catalogue is reported as an error, and once it is readable again the object answers as a new one would; an object newly built after a replacement answers from the new version.',
      ['fault_sequences', 'schedules', 'histories'], 'all points of an evaluation at which a catalogue is replaced, removed, truncated or unreadable',
      'Tests read one fixed catalogue that never changes.',
      ['src/onepower/ia.py'], [{'name': 'catalogue read once for luminosities and distribution', 'where': 'src/onepower/ia.py'}, CACHE], ['public attributes of AlignmentAmplitudes'],
      T + 'file events during evaluation, checked for single-version consistency',
      'As P15, with small synthetic FITS catalogues.'),
    p('P17', 'Projection, correction and angle modules answer from the block alone',
      'What the modules for projection to real space, cosmology correction and angle conversion write depends only on their options and the block they are given, not on earlier blocks, failed blocks or other instances, and they change no entries outside their output section. Any sequence of angle conversions preserves the angles, stated in the unit asked for last.',
      ['histories', 'fault_sequences', 'configurations'], 'all pipelines and chains of these modules, with failing block accesses and faults',
      'These modules have no tests.',
      ['cosmosis_modules/pk_to_real/pk_to_real.py', 'cosmosis_modules/pk_to_real/pk_to_real_ogata.py', 'cosmosis_modules/pk_to_real/correct_cosmo_real.py', 'cosmosis_modules/convert_theta/convert_theta.py'],
      [{'name': 'transform tables fixed at setup, work arrays per call', 'where': 'cosmosis_modules/pk_to_real/pk_to_real.py, pyfftlog.py'}], ['data block after execute()'],
      T + 'pipelines and chains with faults, refined against new instances in a pristine process; conservation of angles',
      'The data block is an in-memory stand-in with copy semantics; spectra and redshift distributions are synthetic.'),
    p('P18', 'Results depend on nothing but the inputs, and calls leave no trace around them',
      'Given the same parameters, options and files, every quantity is the same whatever the state of the process around the models: clock, random seeds, working directory, environment variables, hash seed, numpy print and error settings, warning filters, garbage collection and reuse of memory, default cosmologies of astropy and colossus. '
      'In turn, no construction, update, read or execution changes any of these, leaves files, descriptors or threads behind, or changes input files.',
      ['configurations', 'histories', 'schedules'], 'all states of the surrounding process and all changes to it between operations',
      'Tests run in one environment and look only at returned values.',
      ALL + ['src/onepower/add.py', IFACE, 'cosmosis_modules/pk_to_real/pk_to_real.py'], [{'name': 'results are functions of parameters only', 'where': 'src/onepower, cosmosis_modules'}, {'name': 'own cosmology passed to astropy/colossus explicitly', 'where': 'src/onepower/hmi.py'}], ['all public quantities; process state before and after each call'],
      T + 'changes of the surrounding process (clock jumps, seeds, cwd, environment, memory reuse, library defaults) between the operations of histories of every part, refined against an undisturbed process and a new interpreter',
      'The catalogue of perturbations and of observed process state is in sim/surroundings.py; first-time imports may set libraries up.'),
    p('P19', 'A chain runs in constant memory and at constant cost',
      'However many samples a chain has, a model that is updated again and again, models built and discarded, module instances, alignment, bias and mixing objects keep no more memory, objects, open files or threads alive than after the first few samples, also when samples are rejected or fail, and the same sample takes no more work late in a chain than early.',
      ['histories'], 'all chain lengths and all samples in them',
      'Tests execute a handful of calls; growth per call is invisible in them and fatal in chains of millions of samples.',
      ALL + ['src/onepower/add.py', IFACE], [CACHE, {'name': 'no stores that grow with the history', 'where': 'src/onepower, cosmosis_modules/onepower_interface.py'}], ['memory reachable from models and modules, live objects, descriptors, threads, executed lines per sample'],
      T + 'long chains of samples of every kind with rejected and failing ones; growth and cost of late blocks measured against early ones',
      'Chains of some 40 samples, extended to 280 when something grows, so that stores of bounded size can fill up; memory held only by C libraries is not seen.'),
    # ------------------------------------------------------------------ not decidable with this family
    p('P80', 'Every spectrum is the sum of its parts',
      'Each total power spectrum equals the combination of its one-halo, two-halo and central/satellite parts prescribed by the halo model, for every parameter set.',
      ['inputs', 'configurations'], 'all parameter values', 'Tests compare a few values with stored numbers.', ['src/onepower/pk.py'], [{'name': 'composition of terms', 'where': 'src/onepower/pk.py'}], ['Spectra power spectra'],
      na='A statement about a pure function of its inputs: no schedule, fault, clock, I/O or history enters, so there is nothing for a simulator to decide; it calls for property-based testing or an independent implementation.'),
    p('P81', 'Number densities, averages and limits of the occupation models are consistent',
      'Total occupation is the sum of centrals and satellites, densities are non-negative, average halo masses lie within the mass range, for all occupation models and parameters.',
      ['inputs', 'configurations'], 'all parameter values', 'Tests compare a few values with stored numbers.', ['src/onepower/hod.py'], [{'name': 'occupation integrals', 'where': 'src/onepower/hod.py'}], ['HOD quantities'],
      na='A pure-function property over numeric inputs; simulation of schedules and faults adds nothing to it.'),
    p('P82', 'The non-linear bias is symmetric in mass and vanishes on large scales',
      'The non-linear bias correction is symmetric under exchange of halo masses and goes to zero for small wavenumbers.',
      ['inputs'], 'all masses, wavenumbers, redshifts and cosmologies', 'Tests use a stub for the emulator.', ['src/onepower/bnl.py'], [{'name': 'bias tables', 'where': 'src/onepower/bnl.py'}], ['bias tables'],
      na='A pure-function property over numeric inputs (and its truth depends on the real emulator, which is not installed).'),
    p('P83', 'Results do not depend on the resolution of the grids beyond the stated accuracy',
      'Refining mass, wavenumber or redshift grids changes results only within discretisation error.',
      ['inputs', 'configurations'], 'all grids', 'Tests use one grid.', ['src/onepower/pk.py', 'src/onepower/hmi.py'], [{'name': 'quadrature', 'where': 'src/onepower'}], ['Spectra power spectra'],
      na='A convergence statement of numerical analysis, without any schedule, fault or history; no error bound is stated by the code to check against.'),
    p('P84', 'Mixing weights and unit conversions are those of the literature',
      'Red and blue populations are weighted with the fraction and its complement (squared for auto-spectra), and observables with different h conventions are converted correctly.',
      ['inputs', 'configurations'], 'all fractions and unit choices', 'Tests cover a few values.', ['src/onepower/add.py', 'src/onepower/hod.py'], [{'name': 'mixing formulae', 'where': 'src/onepower/add.py'}], ['results of mixing'],
      na='A pure-function property: an independent formula decides it, not a simulation.'),
]


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps({
                'id': x['id'], 'title': x['title'], 'statement': x['statement'], 'quantifier': {'over': x['over'], 'text': x['text']},
                'why_tests_cant': x['why'], 'anchors': {'files': x['files'], 'mechanism': x['mech'], 'observe_at': x['observe'], 'hook_needed': None},
            }) + '\n')
            assert len(x['title']) <= 80, (x['id'], len(x['title']))
    m = {
        'version': 1,
        'setup_cmd': './setup.sh',
        'checks': [
            {
                'property': x['id'], 'quick_cmd': f'./check.sh {x["id"]} quick', 'thorough_cmd': f'./check.sh {x["id"]} thorough',
                'technique': x['technique'], 'level': 'exploration', 'level_note': x['note'] + TRUST,
            }
            for x in P if not x['na']
        ],
        'not_applicable': [{'property': x['id'], 'reason': x['na']} for x in P if x['na']],
        'notes': 'No hooks in /repo: the simulator uses sys.settrace line events, the data-block interface, the emulator import and real files in a scratch directory as seams. Replay a failure with ./check.sh --replay FILE.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
