"""The order of the segmentations does not matter to the edit-based measures (C12)."""
from spec_common import *
from c01_format import BS, SetI
from c04_bed import *
from c07_edits import *
from c08_account import *
from c09_weights import *
from c10_stats import *
from c11_similarity import *

row1 = ROW(a, b, C, s, n - 1)
Lemma('spans_in_row_swapped', [a, b, C, s, n], [n >= 0], ROWW(a, b, C, s, n) == ROWW(b, a, C, s, n), [], induct=n, auto=False,
      extra=[UNITS['row_swapped'].inst(a, b, C, s, n - 1), UNITS['taken_at_swapped'].inst(a, b, row1, n - 1, n - 1 + s)])
Lemma('spans_swapped', [a, b, n], [n >= 0, BS.len(a) == BS.len(b)], ALLW(a, b, n) == ALLW(b, a, n), [], induct=n, auto=False,
      extra=[UNITS['explained_swapped'].inst(a, b, n - 1), UNITS['spans_in_row_swapped'].inst(a, b, ALL(a, b, n - 1), n, BS.len(a) - n)])
Lemma('matches_swapped', [a, b, n], [n >= 0], MATN(a, b, n) == MATN(b, a, n), [], induct=n, auto=False,
      extra=attend(z3.If(SetI.inter(BS.at(a, n - 1), BS.at(b, n - 1)) == SetI.inter(BS.at(b, n - 1), BS.at(a, n - 1)), 1, 0)))
Lemma('matches_of_type_swapped', [a, b, n, t], [n >= 0], z3.And(MTYPE(a, b, n, t) == MTYPE(b, a, n, t), DTYPE(a, b, n, t) == DTYPE(b, a, n, t)), [], induct=n, auto=False)
Lemma('types_in_use_swapped', [a, b], [], TYP(a, b) == TYP(b, a), [], auto=False, extra=attend(TYP(a, b), TYP(b, a), z3.If(TYP(a, b) == TYP(b, a), 1, 0)))
Ns, Nr = Counts(a, b, k), Counts(b, a, k)
swapped = [UNITS['edits_swapped'].inst(a, b, k - 1), UNITS['spans_swapped'].inst(a, b, k - 1), UNITS['matches_swapped'].inst(a, b, BS.len(a)), UNITS['types_in_use_swapped'].inst(a, b)]
both_ways = lambda f: f(Ns) == f(Nr)
for fs, ft in HOW:
    Lemma('measures_swapped %s %s' % (fs, ft), [a, b, k], [k >= 1, BS.len(a) == BS.len(b)],
          z3.And(Ns.edits == Nr.edits, Ns.subs == Nr.subs, Ns.trans == Nr.trans, Ns.matches == Nr.matches, Ns.pbs == Nr.pbs, WEI(a, b, k, fs, ft) == WEI(b, a, k, fs, ft),
                 OMF(WEI(a, b, k, fs, ft), Ns.edits + Ns.matches) == OMF(WEI(b, a, k, fs, ft), Nr.edits + Nr.matches),
                 OMF(WEI(a, b, k, fs, ft), Ns.pbs) == OMF(WEI(b, a, k, fs, ft), Nr.pbs)), [], auto=False, extra=swapped + attend(WEI(a, b, k, fs, ft), WEI(b, a, k, fs, ft), PBS(a, b), PBS(b, a)))
