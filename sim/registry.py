"""Property id -> scenario."""

from . import scn_cosmosis, scn_files, scn_others, scn_process, scn_realspace, scn_spectra, scn_threads

SCENARIOS = {
    'P01': scn_spectra.History,
    'P02': scn_spectra.Reads,
    'P03': scn_spectra.Recovery,
    'P04': scn_spectra.Rejected,
    'P05': scn_spectra.Isolation,
    'P06': scn_spectra.Immutable,
    'P07': scn_threads.Threads,
    'P08': scn_cosmosis.Chain,
    'P09': scn_cosmosis.ChainFaults,
    'P10': scn_cosmosis.Refresh,
    'P11': scn_cosmosis.Contract,
    'P12': scn_others.Alignment,
    'P13': scn_others.Upsampled,
    'P14': scn_others.Bias,
    'P15': scn_files.Observables,
    'P16': scn_files.Catalogue,
    'P17': scn_realspace.RealSpace,
    'P18': scn_process.Hidden,
    'P19': scn_process.LongChains,
}


def scenario(prop):
    scn_spectra.load_quantities()
    return SCENARIOS[prop]()
