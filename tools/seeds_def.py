"""Planted bugs (see mkseed.py)."""
MB = 'segeval/similarity/distance/multipleboundary.py'
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


seed('c01-merged-labels', 'C01',
     [('segeval/format.py', "    return tuple([len(list(group)) for _, group in groupby(positions)])",
       "    return tuple([len(list(group)) for _, group in groupby(positions, abs)])")],
     '''
from segeval.format import convert_positions_to_masses as f
assert f([1, 1, -1, 2]) == (2, 1, 1), f([1, 1, -1, 2])
assert f([1, 1, 2, 1]) == (2, 1, 1)
''', 'adjacent segments whose labels are negatives of one another', 'runs of different labels are merged into one mass')

seed('c07-one-side-permuted', 'C07',
     [(MB, "        for perm_b in permutations(sorted(b)):", "        for perm_b in permutations(sorted(b), min(len(a), len(b))):"),
      (MB, "    for perm_a in permutations(sorted(a)):", "    for perm_a in [tuple(sorted(a))]:")],
     '''
from segeval.similarity.distance.multipleboundary import boundary_edit_distance as bed
a, s, t = bed([frozenset([1, 2, 9])], [frozenset([8])])
assert [tuple(x) for x in s] == [(9, 8)], s
a, s, t = bed([frozenset([9])], [frozenset([1, 2, 8])])
assert [tuple(x) for x in s] == [(9, 8)], s
''', 'three boundary types of the first string against one of the second at the same position', 'the pairing is not of minimal distance')

seed('c04-window-of-one', 'C04',
     [('segeval/window/__init__.py', "return window_size if window_size > 1 else 2", "return window_size if window_size > 0 else 2")],
     '''
from segeval.window import compute_window_size
assert compute_window_size((2, 2, 2)) == 2
assert compute_window_size((1, 1)) == 2
assert compute_window_size((6, 6)) == 3
''', 'a reference whose mean mass lies between 1 and 3', 'the window size is 1 instead of 2')

seed('c14-clean-on-zero', 'C14',
     [('segeval/ml/__init__.py', "        self.__parent__.__dirty_classes__ = True", "        self.__parent__.__dirty_classes__ = self.__parent__.__dirty_classes__ or bool(value)")],
     '''
from segeval.ml import ConfusionMatrix
m = ConfusionMatrix()
m['p']['p'] += 1
assert set(m.classes()) == {'p'}
m['q']['r'] = 0
assert set(m.classes()) == {'p', 'q', 'r'}, m.classes()
''', 'a zero cell given to a new class after the classes were asked for', 'the class set misses classes')

seed('c17-kappa-first-total', 'C17',
     [('segeval/agreement/kappa.py', "(Decimal(boundaries_n) / total_boundaries_n))", "(Decimal(boundaries_n) / total_boundaries_m))")],
     """
from segeval.agreement.kappa import fleiss_kappa_linear as k
d = {'i': {'a': (10,), 'b': (10,), 'c': (5, 5)}, 'j': {'a': (5, 5), 'b': (10,), 'c': (3, 7)}}
from decimal import Decimal
rates = {'a': Decimal(2) / 27, 'b': Decimal(0), 'c': Decimal(4) / 36}
e = (rates['a'] * rates['b'] + rates['a'] * rates['c'] + rates['b'] * rates['c']) / 3
assert abs(k(d, return_parts=True)[1] - e) < Decimal('1e-20'), k(d, return_parts=True)
""", 'coders whose comparisons have different numbers of potential boundaries (a pair without any boundary)',
     'a coder\'s boundary rate is taken over another coder\'s potential boundaries')

seed('c06-or-substitutions', 'C06',
     [(MB, "__additions_substitutions__(d_i, a_i, b_i)[1] > 0 and", "__additions_substitutions__(d_i, a_i, b_i)[1] > 0 or")],
     """
from segeval.similarity.distance.multipleboundary import boundary_edit_distance as bed
a, s, t = bed([frozenset([1]), frozenset([])], [frozenset([2]), frozenset([1])])
assert [tuple(x) for x in t] == [(0, 1, 1)], t
assert [tuple(x) for x in a] == [(2, 'b')], a
""", 'a near miss with a substitution possible at only one of the two positions', 'a near miss is not taken as a transposition')

seed('c15-shared-key', 'C15',
     [('segeval/compute.py', "            labels.update(inner_dataset_n.keys())", "            labels.update(inner_dataset_n.keys())\n            labels = set(label.strip() for label in labels)")],
     """
import segeval
a = segeval.Dataset({'text 1 ': {'x': (2, 3)}})
b = segeval.Dataset({'text 1 ': {'y': (1, 4)}})
assert list(segeval.pk(a, b)) == ['text 1 ,x,y']
""", 'item names with surrounding blanks in both datasets', 'an item present in both datasets is not compared')

seed('c18-shared-coding', 'C18',
     [('segeval/data/__init__.py', "                if coder not in self[item]:", "                if not self[item].get(coder):")],
     """
import segeval
from segeval.data import DataIOError
a = segeval.Dataset({'i': {'x': ()}})
b = segeval.Dataset({'i': {'x': (2, 3)}})
try:
    c = a + b
except DataIOError:
    pass
else:
    raise SystemExit('overwritten: %r' % dict(c))
""", 'a coder whose coding is empty', 'an existing coding is overwritten')

seed('c10-first-type', 'C10',
     [('segeval/similarity/weight.py', "    return weight_t_scale(substitutions, max_s - min_s + 1)", "    return weight_t_scale(substitutions, max_s - min(min_s, 2) + 1)")],
     """
from segeval.similarity import boundary_statistics
from decimal import Decimal
s = boundary_statistics([frozenset([3])], [frozenset([5])], boundary_format='sets')
assert s['count_edits'] == Decimal(2) / 3, s
""", 'boundary types that all exceed 2', 'scaled substitution weights are divided by the wrong range')

seed('c02-explicit-window', 'C02',
     [('segeval/window/pk.py', "    for i in range(0, len(reference) - (window_size)):", "    for i in range(0, max(len(reference) - window_size, min(len(reference), 1))):")],
     """
from segeval import pk
assert pk((1, 1), (2,), window_size=2) == 0
assert pk((1, 1), (2,), window_size=5, return_parts=True) == (0, 0)
assert pk((1, 1, 1), (3,), window_size=2) == 1
""", 'a window size that is not smaller than the text', 'a window is counted though the text is too short for any')

seed('c13-macro-zero-classes', 'C13',
     [('segeval/ml/__init__.py', "                    value = fnc(**arguments)\n                    values.append(value)", "                    value = fnc(**arguments)\n                    if arguments['matrix'][classification]:\n                        values.append(value)")],
     """
from segeval.ml import ConfusionMatrix, Average, precision
from decimal import Decimal
m = ConfusionMatrix()
m['p']['p'] = 2
m['p']['q'] = 2
assert precision(m, version=Average.macro) == Decimal('0.25'), precision(m, version=Average.macro)
""", 'a class that is never predicted', 'the macro average leaves out a class')

seed('c05-late-transposition', 'C05',
     [(MB, "                    options_set[j][1].discard(d)", "                    options_set[j][1].discard(d if j - i < 2 else i)")],
     """
from segeval.similarity.distance.multipleboundary import boundary_edit_distance as bed
e = frozenset()
for a, b in (([e, e, frozenset([1])], [frozenset([1]), e, e]), ([frozenset([1]), e, e], [e, e, frozenset([1])])):
    add, sub, tr = bed(a, b, n_t=3)
    assert (len(add), len(sub), len(tr)) == (0, 0, 1), (add, sub, tr)
""", 'a transposition spanning two positions from the second string to the first (n_t of 3 or more)', 'a boundary is accounted for twice')

seed('c24-one-unit', 'C24',
     [('segeval/util/__init__.py', "    if isinstance(reference, int):", "    if isinstance(reference, int) and not args:")],
     """
from segeval import pk
assert pk((4, 4), 8) == pk((4, 4), (8,)) == pk(hypothesis=(4, 4), reference=8)
""", 'a bare integer given positionally as the reference', 'it is rejected')
