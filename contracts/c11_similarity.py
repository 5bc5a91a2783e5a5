"""Boundary similarity and segmentation similarity (C08, C09, C12)."""
from spec_common import *
from values import Rec
from c01_format import *
from c04_bed import *
from c06_pairing import *
from c07_edits import *
from c08_account import *
from c09_weights import *
from c10_stats import *

sps, x1, y1, l1, lo, hi = z3.Ints('spans count_x count_y count_l lo hi')
# ------------------------------------------------------------------------------------------------ bounds of the weights
LEACH = ListFold('span_of_each_listed', TInt, lambda x, s_: s_, [I], over=EACH)
lst = z3.Const('lst', SI.S)
Lemma('span_of_each_before', [lst, s, n], [0 <= n], LEACH.pre(lst, n, s) == s * n, [], induct=n, auto=False)
Lemma('span_of_each_is', [X_, s], [], EACH(X_, s) == s * card(X_), [], auto=False,
      extra=[UNITS['span_of_each_before'].inst(SI.enum(X_), s, card(X_))] + attend(LEACH(SI.enum(X_), s)))
row_ = ROW(a, b, C, s, n - 1)
Lemma('spans_in_row_is', [a, b, C, s, n], [n >= 0], z3.And(ROWW(a, b, C, s, n) == s * ROWN(a, b, C, s, n), ROWN(a, b, C, s, n) >= 0), [], induct=n, auto=False,
      extra=[UNITS['span_of_each_is'].inst(NEWS(a, b, row_, n - 1, n - 1 + s), s)] + attend(card(NEWS(a, b, row_, n - 1, n - 1 + s))))
Lemma('spans_within', [a, b, n, k], [0 <= n, n <= k], z3.And(0 <= ALLN(a, b, n), ALLN(a, b, n) <= ALLW(a, b, n), ALLW(a, b, n) <= k * ALLN(a, b, n)), [], induct=n, auto=False,
      extra=[UNITS['spans_in_row_is'].inst(a, b, ALL(a, b, n - 1), n, BS.len(a) - n)])

# distances of the pairs of one position
apart = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(1 <= minus(SI.at(pa, i), SI.at(pb, i)), minus(SI.at(pa, i), SI.at(pb, i)) <= hi)), patterns=[SI.at(pa, i), SI.at(pb, i)])
Lemma('cost_within', [pa, pb, hi, n], [apart, 0 <= n], z3.And(n <= COST(pa, pb, n), COST(pa, pb, n) <= hi * n), [], induct=n, auto=False)
between = lambda X: z3.ForAll([t], z3.Implies(sel(X, t), z3.And(lo <= t, t <= hi)), patterns=[sel(X, t)])
apart_sets = z3.ForAll([t], z3.Not(z3.And(sel(X_, t), sel(Y_, t))), patterns=[sel(X_, t)])
ma, mb = MA(X_, Y_), MBW(X_, Y_)
Lemma('least_distance_within', [X_, Y_, lo, hi], [between(X_), between(Y_), apart_sets], z3.And(both_least(X_, Y_) <= MINC(X_, Y_), MINC(X_, Y_) <= (hi - lo) * both_least(X_, Y_)), [], auto=False,
      extra=[UNITS['cost_within'].inst(ma, mb, hi - lo, both_least(X_, Y_))] + attend(MINC(X_, Y_)))
TY = TYP(a, b)
lo_, hi_ = least_type(TY), most_type(TY)
in_use_at = [UNITS['types_in_use_is'].inst(a, b, t)] + attend(INUSE(a, b, t))
Lemma('left_are_in_use', [a, b, C, p], [BS.len(a) == BS.len(b), 0 <= p, p < BS.len(a)], z3.And(z3.ForAll([t], z3.Implies(sel(XS(a, b, C, p), t), z3.And(lo_ <= t, t <= hi_)), patterns=[sel(XS(a, b, C, p), t)]),
      z3.ForAll([t], z3.Implies(sel(YS(a, b, C, p), t), z3.And(lo_ <= t, t <= hi_)), patterns=[sel(YS(a, b, C, p), t)])), [], auto=False,
      extra=[each([t], in_use_at, [sel(XS(a, b, C, p), t)]), each([t], in_use_at, [sel(YS(a, b, C, p), t)])])
Lemma('distances_within_before', [a, b, C, n], [BS.len(a) == BS.len(b), 0 <= n, n <= BS.len(a)], z3.And(0 <= SUBN(Dn, a, b, C), SUBN(Dn, a, b, C) <= SUBD(Dn, a, b, C), SUBD(Dn, a, b, C) <= (hi_ - lo_) * SUBN(Dn, a, b, C), hi_ >= lo_), [], induct=n, auto=False,
      extra=[UNITS['left_are_in_use'].inst(a, b, C, n - 1), UNITS['least_distance_within'].inst(XS(a, b, C, n - 1), YS(a, b, C, n - 1), lo_, hi_), UNITS['differing_before_is'].inst(a, b, n - 1, n - 1)]
      + attend(card(XS(a, b, C, n - 1)), card(YS(a, b, C, n - 1)), sel(TY, SetI.min(TY)), sel(TY, SetI.max(TY))))
Lemma('distances_within', [a, b, C], [BS.len(a) == BS.len(b)], z3.And(0 <= SUBN(DS(a, b), a, b, C), SUBN(DS(a, b), a, b, C) <= SUBD(DS(a, b), a, b, C), SUBD(DS(a, b), a, b, C) <= (hi_ - lo_) * SUBN(DS(a, b), a, b, C), hi_ >= lo_), [], auto=False,
      extra=[UNITS['distances_within_before'].inst(a, b, C, BS.len(a)), UNITS['differing_is'].inst(a, b)])
Lemma('additions_nonneg_before', [a, b, C, n], [0 <= n], z3.And(ADDN[0](Dn, a, b, C) >= 0, ADDN[1](Dn, a, b, C) >= 0), [], induct=n, auto=False)
Lemma('additions_nonneg', [a, b, C], [], z3.And(ADDN[0](DS(a, b), a, b, C) >= 0, ADDN[1](DS(a, b), a, b, C) >= 0), [], auto=False, extra=[UNITS['additions_nonneg_before'].inst(a, b, C, BS.len(a)), UNITS['differing_is'].inst(a, b)])

# ------------------------------------------------------------------------------------------------ weighted edits
real = lambda v: z3.simplify(z3.ToReal(v))


class Counts(object):
    """The numbers a similarity is made of, as functions of the boundary strings and n_t."""
    def __init__(self, x, y, k):
        self.x, self.y, self.k = x, y, k
        C_, D = ALL(x, y, k - 1), DS(x, y)
        self.adds = ADDN[0](D, x, y, C_) + ADDN[1](D, x, y, C_)
        self.subs, self.dist = SUBN(D, x, y, C_), SUBD(D, x, y, C_)
        self.trans, self.spans = ALLN(x, y, k - 1), ALLW(x, y, k - 1)
        self.edits = self.adds + self.subs + self.trans
        self.matches = MATN(x, y, BS.len(x))
        self.types = TYP(x, y)
        self.pbs = PBS(x, y)
        self.scale = most_type(self.types) - least_type(self.types) + 1

    def weighted(self, scale_s, scale_t):
        return real(self.adds) + (ratio(self.dist, self.scale) if scale_s else real(self.subs)) + (ratio(self.spans, self.k) if scale_t else real(self.trans))


# the weighted edits, for weighting functions of the library
WEI = z3.Function('weighted_edits', BS.S, BS.S, I, FN, FN, R)
OMF = z3.Function('one_minus_fraction', R, I, R)
cr, cq = z3.Reals('cr cq')
axiom('def.one_minus_fraction', [cr, y1], OMF(cr, y1) == z3.If(y1 > 0, 1 - cr / real(y1), z3.RealVal(1)), [OMF(cr, y1)])
Lemma('one_minus_fraction_within', [cr, y1], [0 <= cr, cr <= real(y1)], z3.And(0 <= OMF(cr, y1), OMF(cr, y1) <= 1, (OMF(cr, y1) == 1) == (cr == 0)), [], auto=False)
Lemma('one_minus_fraction_is', [cr, y1], [], OMF(cr, y1) == z3.If(y1 > 0, ratio(real(y1) - cr, y1), 1), [], auto=False)


N_ = Counts(a, b, k)
HOW = [(LIBW[w_s], LIBW[w_t]) for w_s in ('weight_s_scale', 'weight_s') for w_t in ('weight_t_scale', 'weight_t')]
scaled = lambda f: str(f).endswith('_scale')
for fs, ft in HOW:
    axiom('def.weighted_edits', [a, b, k], WEI(a, b, k, fs, ft) == N_.weighted(scaled(fs), scaled(ft)), [WEI(a, b, k, fs, ft)])
    C_, D = ALL(a, b, k - 1), DS(a, b)
    Lemma('weighted_edits_of_lists %s %s' % (fs, ft), [a, b, k, la, ls, lt, hi, lo], [SA.len(la) == N_.adds, SPT.len(ls) == N_.subs, DISTS(ls) == N_.dist, ST.len(lt) == N_.trans, SPANS(lt) == N_.spans, hi == most_type(N_.types), lo == least_type(N_.types)],
          WADD(LIBW['weight_a'], la) + WSUB(fs, ls, hi, lo) + WTRA(ft, lt, k) == WEI(a, b, k, fs, ft), [z3.MultiPattern(WADD(LIBW['weight_a'], la), WSUB(fs, ls, hi, lo), WTRA(ft, lt, k), WEI(a, b, k, fs, ft))], without=['lib.div'])
weighted_facts = lambda x, y, k_: [UNITS['spans_within'].inst(x, y, k_ - 1, k_ - 1), UNITS['distances_within'].inst(x, y, ALL(x, y, k_ - 1)), UNITS['additions_nonneg'].inst(x, y, ALL(x, y, k_ - 1)),
                                 UNITS['every_disagreement_counted'].inst(x, y, k_ - 1), UNITS['equal_without_edits'].inst(x, y)]
Lemma('scaled_at_most', [x1, y1, l1], [y1 >= 1, 0 <= x1, x1 <= (y1 - 1) * l1, l1 >= 0], z3.And(0 <= ratio(x1, y1), ratio(x1, y1) <= real(l1)), [], auto=False)
Lemma('scaled_is_positive', [x1, y1], [y1 >= 1, 0 <= x1], (ratio(x1, y1) == 0) == (x1 == 0), [], auto=False)
for fs, ft in HOW:
    Lemma('weighted_edits_within %s %s' % (fs, ft), [a, b, k], [k >= 1, BS.len(a) == BS.len(b)],
          z3.And(0 <= WEI(a, b, k, fs, ft), WEI(a, b, k, fs, ft) <= real(N_.edits), N_.edits >= 0, (WEI(a, b, k, fs, ft) == 0) == (a == b)), [], auto=False, without=['lib.div'],
          extra=weighted_facts(a, b, k) + [UNITS['scaled_at_most'].inst(N_.dist, N_.scale, N_.subs), UNITS['scaled_is_positive'].inst(N_.dist, N_.scale),
                                       UNITS['scaled_at_most'].inst(N_.spans, k, N_.trans), UNITS['scaled_is_positive'].inst(N_.spans, k)])
Lemma('matches_nonneg', [a, b, n], [n >= 0], MATN(a, b, n) >= 0, [], induct=n, auto=False)
Lemma('types_at_are_in_use', [a, b, p], [BS.len(a) == BS.len(b), 0 <= p, p < BS.len(a)], card(SetI.sym(BS.at(a, p), BS.at(b, p))) <= card(TYP(a, b)), [], auto=False,
      extra=[UNITS['inter_subset'].inst(TYP(a, b), SetI.sym(BS.at(a, p), BS.at(b, p))), each([t], UNITS['types_in_use_is'].inst(a, b, t), [sel(SetI.sym(BS.at(a, p), BS.at(b, p)), t)]),
             each([t], attend(INUSE(a, b, t)), [sel(SetI.sym(BS.at(a, p), BS.at(b, p)), t)])] + attend(card(SetI.inter(TYP(a, b), SetI.sym(BS.at(a, p), BS.at(b, p))))))
Lemma('misses_within', [a, b, n], [BS.len(a) == BS.len(b), 0 <= n, n <= BS.len(a)], DISN(a, b, n) <= n * card(TYP(a, b)), [], induct=n, auto=False, extra=[UNITS['types_at_are_in_use'].inst(a, b, n - 1)])
Lemma('edits_within_potential', [a, b, k], [BS.len(a) == BS.len(b), k >= 1], z3.And(0 <= N_.edits, N_.edits <= PBS(a, b)), [], auto=False, extra=weighted_facts(a, b, k) + [UNITS['misses_within'].inst(a, b, BS.len(a))])


# ------------------------------------------------------------------------------------------------ the two similarities
def libweight(kind):
    """One of the library's weighting functions."""
    names = [w for w in LIBW if w.split('_')[1] == kind]

    def make(ex, nm, A):
        i = ex.choose(len(names)) if ex.pending is not None and len(names) > 1 else 0
        A[nm] = LIBW[names[i]]
        return ex.import_from(WM[:-1], names[i])

    def match(ex, nm, v, A):
        if isinstance(v, FnV) and v.qual.startswith(WM) and v.qual[len(WM):] in names:
            A[nm] = LIBW[v.qual[len(WM):]]
            return True
        return False
    return PCustom(make, match)


LIBWEIGHTS = PTup(('w_a', libweight('a')), ('w_s', libweight('s')), ('w_t', libweight('t')))


class Similarity(Case):
    parts = False
    without = ('lib.div', 'def.weighted_edits', 'def.one_minus_fraction', 'def.potential_boundaries')

    def __init__(self):
        seq = PTy(self.F.ty).with_kind('mixed')
        self.params = dict(args=PTup(('segs_a', seq), ('segs_b', seq)),
                           kwargs=PRec(return_parts=PConst(self.parts), one_minus=PTy(TBool), boundary_types=PAny(), boundary_format=PConst(self.F.name), n_t=PTy(TInt), weight=LIBWEIGHTS))

    def requires(self, A):
        return self.F.req(A.segs_a) + self.F.req(A.segs_b) + [A.n_t >= 1]

    def raises(self, A):
        return [(self.F.length(A.segs_a) != self.F.length(A.segs_b), 'SegmentationMetricError')]

    def numbers(self, A):
        return Counts(self.F.string(A.segs_a), self.F.string(A.segs_b), A.n_t)

    def total(self, c):
        """The number of boundaries, or of possible ones, that edits are divided by."""
        raise NotImplementedError

    def weighted(self, A):
        c = self.numbers(A)
        return WEI(c.x, c.y, c.k, A.w_s, A.w_t)

    def facts(self, ex, A):
        c = self.numbers(A)
        return [UNITS['weighted_edits_within %s %s' % (A.w_s, A.w_t)].inst(c.x, c.y, c.k), UNITS['matches_nonneg'].inst(c.x, c.y, BS.len(c.x)), UNITS['edits_within_potential'].inst(c.x, c.y, c.k),
                UNITS['one_minus_fraction_within'].inst(self.weighted(A), self.total(c)), UNITS['one_minus_fraction_is'].inst(self.weighted(A), self.total(c))]

    def result(self, ex, A):
        return ex.sym(TDec, 'similarity')

    def ensures(self, ex, A, r):
        c = self.numbers(A)
        x = ex.enc(r, TDec)
        if x is None:
            return [('a number', z3.BoolVal(False))]
        v = OMF(self.weighted(A), self.total(c))
        return [('between 0 and 1', z3.And(0 <= v, v <= 1)), ('1 exactly for identical segmentations', (v == 1) == (c.x == c.y)),
                ('one minus the weighted edits', x == z3.If(A.one_minus, 1 - v, v))]


class BoundarySimilarity(Similarity):
    fn = SIM + 'boundary.__boundary_similarity__'

    def total(self, c):
        return c.edits + c.matches


class SegmentationSimilarity(Similarity):
    fn = SIM + 'segmentation.__segmentation_similarity__'

    def total(self, c):
        return c.pbs


class PartsOf(Similarity):
    parts = True

    def result(self, ex, A):
        return TupV([ex.sym(TDec, 'numerator'), ex.sym(TInt, 'denominator')] + [ex.new(ex.sym(TSeq(LISTS[f].t, 'list'), f)) for f in self.lists])

    def ensures(self, ex, A, r):
        c = self.numbers(A)
        if not isinstance(r, TupV) or len(r.items) != 2 + len(self.lists):
            return [('numerator, denominator and the lists of edits', z3.BoolVal(False))]
        n_, d_ = ex.enc(r.items[0], TDec), ex.enc(r.items[1], TInt)
        ls_ = [ex.enc(v, LISTS[f]) for v, f in zip(r.items[2:], self.lists)]
        if n_ is None or d_ is None or any(l_ is None for l_ in ls_):
            return [('numerator, denominator and the lists of edits', z3.BoolVal(False))]
        out = [('denominator', d_ == self.total(c)), ('numerator', n_ == real(self.total(c)) - self.weighted(A)), ('between 0 and the denominator', z3.And(0 <= n_, n_ <= real(d_))),
               ('equal exactly for identical segmentations', (n_ == real(d_)) == (c.x == c.y))]
        if self.lists:
            out += list(edit_facts(ls_[0], ls_[1], DS(c.x, c.y), c.x, c.y, ALL(c.x, c.y, c.k - 1)))
            out += [('the transpositions of the greedy rule, each once', counts(ls_[2], lambda i, j, d: z3.And(TAKEN(c.x, c.y, i, j, d), j - i <= c.k - 1)))]
        return out


class BoundaryParts(PartsOf, BoundarySimilarity):
    lists = ('additions', 'substitutions', 'transpositions')


class SegmentationParts(PartsOf, SegmentationSimilarity):
    lists = ()


def similarity_cases():
    for F in EFORMATS:
        for of in (BoundarySimilarity, SegmentationSimilarity, BoundaryParts, SegmentationParts):
            register(type(of.__name__, (of,), dict(F=F, varies=F.name + (', parts' if of.parts else ''))))


similarity_cases()

