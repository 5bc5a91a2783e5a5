"""Which units decide which property, and what is assumed."""
TRUSTED = [
    'the verification condition generator /verif/pyvc: its model of the Python subset and of the library functions used (lib.py)',
    'z3 and cvc5',
    'existence of the recursively defined functions used in specifications (sums, prefix counts, runs, boundary strings): each is given by '
    'its defining equations over the natural numbers',
    'cardinality axioms of finite sets (logic.py)',
]
ASSUMPTIONS = [
    'integers are mathematical (exact in Python); Decimal arithmetic is treated as exact (it rounds to 28 digits) and float arithmetic as real',
    'the code runs under PyPy (/opt/venv/bin/python), where "is" on integers compares values',
    'sets and dictionaries are iterated in an arbitrary order; nothing relies on insertion order',
    'unit labels given to window metrics are integers; masses are positive; boundary types are integers',
    'termination, memory and recursion limits are not considered',
]
MB = 'similarity.distance.multipleboundary.'
SIM = 'similarity.'
PLAN = {
    'C01': dict(units=['format.*', 'round_trip', 'runs_of_positions', 'positions_unique']),
    'C02': dict(units=['pk_*', 'window.pk.*']),
    'C03': dict(units=['wd_*', 'window.windowdiff.*']),
    'C04': dict(units=['window.__compute_window_size__*', 'window.compute_window_size*', 'window.pk.*', 'window.windowdiff.__window_diff__*']),
    'C05': dict(units=[MB + '*', 'every_disagreement_counted', 'equal_without_edits', 'one_transposition_explains', 'explained_is_taken', 'pairing_is_one_to_one']),
    'C06': dict(units=[MB + '*', 'one_transposition_explains', 'explained_is_taken']),
    'C07': dict(units=[MB + '*', 'pairing_is_one_to_one']),
    'C08': dict(units=[SIM + 'boundary.*', SIM + 'weight.*', 'weighted_edits_within*', 'boundaries_tell_masses']),
    'C09': dict(units=[SIM + 'segmentation.*', SIM + 'weight.*', 'weighted_edits_within*', 'edits_within_potential', 'boundaries_tell_masses']),
    'C10': dict(units=[SIM + '__boundary_statistics__*', SIM + 'boundary_statistics*', SIM + 'weight.*', SIM + 'distance.identify_types']),
    'C12': dict(units=['edits_swapped', 'taken_swapped', 'measures_swapped*', 'matches_of_type_swapped', MB + '*', SIM + 'boundary.__*', SIM + 'segmentation.__*']),
    'C20': dict(units=['util.math.*', 'compute.summarize', 'variance_nonneg', 'variance_zero', 'variance_of_equal']),
    'C22': dict(units=['window.pk*', 'window.windowdiff*', SIM + 'boundary.*', SIM + 'segmentation.*', SIM + 'boundary_statistics*', SIM + '__boundary_statistics__*']),
    'C23': dict(units=['same_in_every_format', 'round_trip', 'runs_of_positions', 'window.pk.*', 'window.windowdiff.*', SIM + 'boundary.__*', SIM + 'segmentation.__*', SIM + '__boundary_statistics__*']),
    'C24': dict(units=['window.pk.pk*', 'window.windowdiff.window_diff*', 'window.compute_window_size*', SIM + 'boundary.boundary_similarity*', SIM + 'segmentation.segmentation_similarity*', SIM + 'boundary_statistics*']),
}
