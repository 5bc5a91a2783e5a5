"""Every disagreement is accounted for once (C05), and the order of the strings does not matter (C12)."""
from spec_common import *
from c01_format import BS, SetI
from c04_bed import *
from c06_pairing import *
from c07_edits import *

i2, j2, m, w, r = z3.Ints('i2 j2 m w r')
D_ = z3.Const('D', SetS)
SYM = lambda p: SetI.sym(BS.at(a, p), BS.at(b, p))
# ------------------------------------------------------------------------------- transpositions explain two types each
SUMC = z3.Function('number_explained', COVS, I, I)
UNFOLD['number_explained'] = lambda e: rec(e, 1, 0, lambda A, q: SUMC(A[0], q) + card(sel(A[0], q)))
Lemma('number_explained_none', [n], [n >= 0], SUMC(NOCOV, n) == 0, [SUMC(NOCOV, n)], induct=n)
Lemma('number_explained_also', [C, i, j, X_, n], [0 <= i, i < j, n >= 0, SetI.inter(sel(C, i), X_) == EMP, SetI.inter(sel(C, j), X_) == EMP],
      SUMC(CS(C, i, j, X_), n) == SUMC(C, n) + z3.If(n > i, card(X_), 0) + z3.If(n > j, card(X_), 0), [], induct=n, auto=False,
      extra=[UNITS['explained_also_at'].inst(C, i, j, X_, n - 1)])
rown = ROW(a, b, C, s, n)
rown1 = ROW(a, b, C, s, n - 1)
Lemma('number_explained_row', [a, b, C, s, n], [s >= 1, n >= 0, n <= BS.len(a) - s], SUMC(rown, BS.len(a)) == SUMC(C, BS.len(a)) + 2 * ROWN(a, b, C, s, n), [], induct=n, auto=False,
      extra=[UNITS['number_explained_also'].inst(rown1, n - 1, n - 1 + s, NEWS(a, b, rown1, n - 1, n - 1 + s), BS.len(a))])
Lemma('number_explained_all', [a, b, n], [n >= 0], SUMC(ALL(a, b, n), BS.len(a)) == 2 * ALLN(a, b, n), [], induct=n, auto=False,
      extra=[UNITS['number_explained_row'].inst(a, b, ALL(a, b, n - 1), n, BS.len(a) - n)])
# only disagreements are explained
Lemma('explained_in_row', [a, b, C, s, n, p, t], [s >= 1, n >= 0, n <= BS.len(a) - s], z3.Implies(sel(sel(ROW(a, b, C, s, n), p), t), z3.Or(sel(sel(C, p), t), z3.And(0 <= p, p < BS.len(a), sel(BS.at(a, p), t) != sel(BS.at(b, p), t)))),
      [], induct=n, auto=False)
Lemma('explained_are_disagreements', [a, b, n, p, t], [n >= 0], z3.Implies(sel(sel(ALL(a, b, n), p), t), z3.And(0 <= p, p < BS.len(a), sel(BS.at(a, p), t) != sel(BS.at(b, p), t))), [], induct=n, auto=False,
      extra=[UNITS['explained_in_row'].inst(a, b, ALL(a, b, n - 1), n, BS.len(a) - n, p, t)])
CA = ALL(a, b, k)
inside = [UNITS['explained_are_disagreements'].inst(a, b, k, p, t)]
Lemma('explained_within', [a, b, k, p], [k >= 0, 0 <= p, p < BS.len(a)], SetI.inter(SYM(p), sel(CA, p)) == sel(CA, p), [], auto=False,
      extra=[each([t], inside[0], [sel(sel(CA, p), t)])])
# what is left at a position
Lemma('left_at_position', [a, b, k, p], [k >= 0, 0 <= p, p < BS.len(a)], card(XS(a, b, CA, p)) + card(YS(a, b, CA, p)) + card(sel(CA, p)) == card(SYM(p)), [], auto=False,
      extra=[UNITS['explained_within'].inst(a, b, k, p),
             UNITS['card_disjoint_union'].inst(SetI.diff(SYM(p), sel(CA, p)), XS(a, b, CA, p), YS(a, b, CA, p))] + attend(card(SetI.diff(SYM(p), sel(CA, p)))))
# sums over all positions
DISN = z3.Function('disagreements', BS.S, BS.S, I, I)
UNFOLD['disagreements'] = lambda e: rec(e, 2, 0, lambda A, q: DISN(A[0], A[1], q) + card(SetI.sym(BS.at(A[0], q), BS.at(A[1], q))))
DSUP = z3.Function('differing_before', BS.S, BS.S, I, SetS)
UNFOLD['differing_before'] = lambda e: rec(e, 2, EMP, lambda A, q: z3.If(BS.at(A[0], q) != BS.at(A[1], q), z3.Store(DSUP(A[0], A[1], q), q, True), DSUP(A[0], A[1], q)))
Lemma('differing_before_is', [a, b, n, p], [0 <= n, n <= BS.len(a)], sel(DSUP(a, b, n), p) == z3.And(differs(a, b, p), p < n), [], induct=n, auto=False)
Lemma('differing_is', [a, b], [], DSUP(a, b, BS.len(a)) == DS(a, b), [], auto=False, extra=[each([p], UNITS['differing_before_is'].inst(a, b, BS.len(a), p), [sel(DSUP(a, b, BS.len(a)), p)])])
Dn = DSUP(a, b, n)
EDITN = lambda D, C: ADDN[0](D, a, b, C) + ADDN[1](D, a, b, C) + 2 * SUBN(D, a, b, C)
Lemma('accounted_before', [a, b, k, n], [k >= 0, 0 <= n, n <= BS.len(a)], EDITN(Dn, CA) + SUMC(CA, n) == DISN(a, b, n), [], induct=n, auto=False,
      extra=[UNITS['left_at_position'].inst(a, b, k, n - 1), UNITS['explained_within'].inst(a, b, k, n - 1), UNITS['differing_before_is'].inst(a, b, n - 1, n - 1)]
      + attend(z3.If(SYM(n - 1) == EMP, 1, 0), card(SYM(n - 1))))
Lemma('every_disagreement_counted', [a, b, k], [k >= 0], EDITN(DS(a, b), CA) + 2 * ALLN(a, b, k) == DISN(a, b, BS.len(a)), [EDITN(DS(a, b), CA)], auto=False,
      extra=[UNITS['accounted_before'].inst(a, b, k, BS.len(a)), UNITS['differing_is'].inst(a, b), UNITS['number_explained_all'].inst(a, b, k)])
# none exactly when equal
Lemma('no_disagreement_before', [a, b, n], [0 <= n, n <= BS.len(a)], z3.And(DISN(a, b, n) >= 0, (DISN(a, b, n) == 0) == z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n), BS.at(a, p) == BS.at(b, p)), patterns=[BS.at(a, p)])), [], induct=n, auto=False,
      extra=attend(BS.at(a, n - 1), z3.If(SYM(n - 1) == EMP, 1, 0), z3.If(BS.at(a, n - 1) == BS.at(b, n - 1), 1, 0)))
Lemma('equal_without_edits', [a, b], [BS.len(a) == BS.len(b)], z3.And(DISN(a, b, BS.len(a)) >= 0, (DISN(a, b, BS.len(a)) == 0) == (a == b)), [], auto=False,
      extra=[UNITS['no_disagreement_before'].inst(a, b, BS.len(a))] + attend(z3.If(BS.eq(a, b), 1, 0)))
# ------------------------------------------------------------------------------- one transposition at most explains it
has = lambda c, p, t: sel(sel(c, p), t)
Lemma('row_grows', [a, b, C, s, n, m, p, t], [0 <= n, n <= m], z3.Implies(has(ROW(a, b, C, s, n), p, t), has(ROW(a, b, C, s, m), p, t)), [], induct=m, auto=False)
Lemma('explained_grows', [a, b, n, m, p, t], [0 <= n, n <= m], z3.Implies(has(ALL(a, b, n), p, t), has(ALL(a, b, m), p, t)), [], induct=m, auto=False,
      extra=[UNITS['row_grows'].inst(a, b, ALL(a, b, m - 1), m, 0, BS.len(a) - m, p, t)])
before = ALL(a, b, j - i - 1)
Lemma('taken_is_explained_in_row', [a, b, i, j, d, m, p], [TAKEN(a, b, i, j, d), z3.Or(p == i, p == j), m > i], has(ROW(a, b, before, j - i, m), p, d), [], auto=False,
      extra=[UNITS['row_grows'].inst(a, b, before, j - i, i + 1, m, p, d)] + attend(ROW(a, b, before, j - i, i + 1)))
Lemma('taken_is_explained', [a, b, i, j, d, n, p], [TAKEN(a, b, i, j, d), z3.Or(p == i, p == j), n >= j - i], has(ALL(a, b, n), p, d), [], auto=False,
      extra=[UNITS['taken_is_explained_in_row'].inst(a, b, i, j, d, BS.len(a) - (j - i), p), UNITS['explained_grows'].inst(a, b, j - i, n, p, d)] + attend(ALL(a, b, j - i)))
s2 = j2 - i2
earlier = z3.Or(j - i < s2, z3.And(j - i == s2, i < i2))
Lemma('taken_before_is_explained', [a, b, i, j, d, i2, j2, p], [TAKEN(a, b, i, j, d), z3.Or(p == i, p == j), earlier, i2 >= 0], has(CB(a, b, s2, i2), p, d), [], auto=False,
      extra=[UNITS['taken_is_explained'].inst(a, b, i, j, d, s2 - 1, p), UNITS['row_grows'].inst(a, b, ALL(a, b, s2 - 1), s2, 0, i2, p, d), UNITS['taken_is_explained_in_row'].inst(a, b, i, j, d, i2, p)])
shared = z3.Or(i == i2, i == j2, j == i2, j == j2)
Lemma('one_transposition_explains', [a, b, i, j, d, i2, j2], [TAKEN(a, b, i, j, d), TAKEN(a, b, i2, j2, d), shared], z3.And(i == i2, j == j2), [], auto=False,
      extra=[UNITS['taken_before_is_explained'].inst(a, b, i, j, d, i2, j2, x) for x in (i, j)] + [UNITS['taken_before_is_explained'].inst(a, b, i2, j2, d, i, j, x) for x in (i2, j2)])
# and one at least
ENDS = z3.Function('end_of_taken', BS.S, BS.S, I, I, I, B)
EI, EJ = [z3.Function('end_of_taken_' + x, BS.S, BS.S, I, I, I, I) for x in 'ij']
axiom('def.end_of_taken', [a, b, p, d, n, i, j], z3.Implies(z3.And(TAKEN(a, b, i, j, d), j - i <= n, z3.Or(p == i, p == j)), ENDS(a, b, p, d, n)), [z3.MultiPattern(ENDS(a, b, p, d, n), TAKEN(a, b, i, j, d))])
ei, ej = EI(a, b, p, d, n), EJ(a, b, p, d, n)
axiom('def.end_of_taken_w', [a, b, p, d, n], z3.Implies(ENDS(a, b, p, d, n), z3.And(TAKEN(a, b, ei, ej, d), ej - ei <= n, z3.Or(p == ei, p == ej))), [ENDS(a, b, p, d, n)])
Lemma('explained_in_row_is_taken', [a, b, s, n, p, d], [s >= 1, n >= 0, n <= BS.len(a) - s], z3.Implies(has(ROW(a, b, ALL(a, b, s - 1), s, n), p, d), z3.Or(has(ALL(a, b, s - 1), p, d), ENDS(a, b, p, d, s))), [], induct=n, auto=False,
      extra=attend(TAKEN(a, b, n - 1, n - 1 + s, d)))
Lemma('explained_is_taken', [a, b, n, p, d], [n >= 0], has(ALL(a, b, n), p, d) == ENDS(a, b, p, d, n), [], induct=n, auto=False,
      extra=[UNITS['explained_in_row_is_taken'].inst(a, b, n, BS.len(a) - n, p, d), UNITS['taken_is_explained'].inst(a, b, ei, ej, d, n, p)] + attend(ENDS(a, b, p, d, n - 1), ENDS(a, b, p, d, n)))
# ------------------------------------------------------------------------------- the order of the strings (C12)
swap_blk = [z3.ForAll([C, i, j], z3.And(CONSIDER(a, b, C, i, j, os_), CONSIDER(b, a, C, i, j, os_)), patterns=[BLK(a, b, C, i, j), BLK(b, a, C, i, j)])]
Lemma('taken_at_swapped', [a, b, C, i, j], [], NEWS(a, b, C, i, j) == NEWS(b, a, C, i, j), [], auto=False, extra=swap_blk + attend(BLK(a, b, C, i, j), BLK(b, a, C, i, j)))
Lemma('row_swapped', [a, b, C, s, n], [n >= 0], z3.And(ROW(a, b, C, s, n) == ROW(b, a, C, s, n), ROWN(a, b, C, s, n) == ROWN(b, a, C, s, n)), [], induct=n, auto=False,
      extra=[UNITS['taken_at_swapped'].inst(a, b, rown1, n - 1, n - 1 + s)])
Lemma('explained_swapped', [a, b, n], [n >= 0, BS.len(a) == BS.len(b)], z3.And(ALL(a, b, n) == ALL(b, a, n), ALLN(a, b, n) == ALLN(b, a, n)), [], induct=n, auto=False,
      extra=[UNITS['row_swapped'].inst(a, b, ALL(a, b, n - 1), n, BS.len(a) - n)])
Lemma('taken_swapped', [a, b, i, j, d], [BS.len(a) == BS.len(b)], TAKEN(a, b, i, j, d) == TAKEN(b, a, i, j, d), [], auto=False,
      extra=[UNITS['explained_swapped'].inst(a, b, j - i - 1), UNITS['row_swapped'].inst(a, b, ALL(a, b, j - i - 1), j - i, i), UNITS['taken_at_swapped'].inst(a, b, CB(a, b, j - i, i), i, j)])
Lemma('cost_swapped', [pa, pb, n], [n >= 0], COST(pa, pb, n) == COST(pb, pa, n), [], induct=n, auto=False)
Lemma('least_distance_swapped', [X_, Y_], [], MINC(X_, Y_) == MINC(Y_, X_), [], auto=False,
      extra=[UNITS['cost_swapped'].inst(MA(X_, Y_), MBW(X_, Y_), both_least(X_, Y_)), UNITS['cost_swapped'].inst(MA(Y_, X_), MBW(Y_, X_), both_least(Y_, X_))] + attend(MINC(X_, Y_), MINC(Y_, X_)))
ab_ = (a, b, CA)
ba_ = (b, a, CA)
same_sets = attend(z3.If(XS(a, b, CA, n - 1) == YS(b, a, CA, n - 1), 1, 0))
Lemma('edits_swapped_before', [a, b, k, n], [BS.len(a) == BS.len(b), k >= 0, 0 <= n, n <= BS.len(a)],
      z3.And(DSUP(a, b, n) == DSUP(b, a, n), *[x(Dn, *ab_) == y(Dn, *ba_) for x, y in ((SUBN, SUBN), (SUBD, SUBD), (ADDN[0], ADDN[1]), (ADDN[1], ADDN[0]))]), [], induct=n, auto=False,
      extra=[UNITS['least_distance_swapped'].inst(XS(a, b, CA, n - 1), YS(a, b, CA, n - 1))])
Lemma('edits_swapped', [a, b, k], [BS.len(a) == BS.len(b), k >= 0],
      z3.And(ALL(a, b, k) == ALL(b, a, k), ALLN(a, b, k) == ALLN(b, a, k), DS(a, b) == DS(b, a), *[x(DS(a, b), a, b, CA) == y(DS(b, a), b, a, ALL(b, a, k)) for x, y in ((SUBN, SUBN), (SUBD, SUBD), (ADDN[0], ADDN[1]), (ADDN[1], ADDN[0]))]), [], auto=False,
      extra=[UNITS['edits_swapped_before'].inst(a, b, k, BS.len(a)), UNITS['differing_is'].inst(a, b), UNITS['differing_is'].inst(b, a), UNITS['explained_swapped'].inst(a, b, k)])
