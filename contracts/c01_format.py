"""Formats: masses, positions, boundary strings (C01)."""
from spec_common import *

SI = SeqTheory.of(TInt)
ln, at, psum = SI.len, SI.at, SI.psum
BS = SeqTheory.of(TSet(TInt))
SetI = SetTheory.of(TInt)
ONE = z3.Store(SetI.empty, z3.IntVal(1), True)

m, r, p = z3.Consts('m r p', SI.S)
g, j, i, k, n = z3.Ints('g j i k n')

# every mass is positive
POS = z3.Function('allpos', SI.S, B)
posw = z3.Function('allpos_w', SI.S, I)
axiom('def.allpos1', [m, i], z3.Implies(z3.And(POS(m), 0 <= i, i < ln(m)), at(m, i) > 0), [z3.MultiPattern(POS(m), at(m, i))], symbols={'allpos'})
axiom('def.allpos2', [m], z3.Or(POS(m), z3.And(0 <= posw(m), posw(m) < ln(m), at(m, posw(m)) <= 0)), [POS(m)])

Lemma('psum_nonneg', [m, n], [POS(m), 0 <= n, n <= ln(m)], psum(m, n) >= 0, [z3.MultiPattern(POS(m), psum(m, n))], induct=n)
Lemma('psum_mono', [m, i, n], [POS(m), 0 <= i, i < n, n <= ln(m)], z3.And(at(m, i) > 0, psum(m, i) + at(m, i) <= psum(m, n)), [z3.MultiPattern(POS(m), psum(m, i), psum(m, n))], induct=n)
x = z3.Int('x')
s = z3.Const('s', SI.S)
Lemma('psum_snoc', [s, x, n], [0 <= n, n <= ln(s)], psum(SI.snoc(s, x), n) == psum(s, n), [psum(SI.snoc(s, x), n)], induct=n)

# the segment that holds unit j, among the first n
SEG = z3.Function('segof', SI.S, I, I, I)
UNFOLD['segof'] = lambda e: rec(e, 1, 0, lambda a, q: z3.If(a[2] >= psum(a[0], q), q, SEG(a[0], q, a[2])))
Lemma('seg_def', [m, n, j], [POS(m), 0 <= n, n <= ln(m), 0 <= j, j < psum(m, n)],
      z3.And(0 <= SEG(m, n, j), SEG(m, n, j) < n, psum(m, SEG(m, n, j)) <= j, j < psum(m, SEG(m, n, j)) + at(m, SEG(m, n, j))),
      [SEG(m, n, j)], induct=n)


def labels(m, r, k):
    """r labels the units of the first k segments."""
    return z3.ForAll([g, j], z3.Implies(z3.And(0 <= g, g < k, psum(m, g) <= j, j < psum(m, g) + at(m, g)), at(r, j) == g + 1),
                     patterns=[z3.MultiPattern(psum(m, g), at(r, j))])


def is_positions(m, r):
    return [('one label per unit', ln(r) == psum(m, ln(m))), ('unit labels', labels(m, r, ln(m)))]


def runs(p, R, T=None):
    """R is the sequence of lengths of the maximal runs of p (labels of type T)."""
    ln_, at_ = (T or SI).len, (T or SI).at
    return [('masses are positive', POS(R)), ('masses cover the text', psum(R, ln(R)) == ln_(p)),
            ('a segment has one label', z3.ForAll([g, j], z3.Implies(z3.And(0 <= g, g < ln(R), psum(R, g) <= j, j < psum(R, g) + at(R, g)), at_(p, j) == at_(p, psum(R, g))), patterns=[z3.MultiPattern(psum(R, g), at_(p, j))])),
            ('adjacent segments differ', z3.ForAll([g], z3.Implies(z3.And(0 < g, g < ln(R)), at_(p, psum(R, g) - 1) != at_(p, psum(R, g))), patterns=[psum(R, g)]))]


def start(m, j):
    """Unit j is the first unit of its segment."""
    return psum(m, SEG(m, ln(m), j)) == j


def total(m):
    return psum(m, ln(m))


def slot(m, j):
    return z3.If(start(m, j + 1), ONE, SetI.empty)


def is_boundaries(m, r):
    return [('one slot fewer than units', BS.len(r) == z3.If(total(m) > 0, total(m) - 1, 0)),
            ('type 1 exactly after each non-final segment', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < BS.len(r)), BS.at(r, j) == slot(m, j)), patterns=[BS.at(r, j)]))]


# ------------------------------------------------------------------------------------------------ NLTK strings
SS = SeqTheory.of(TStr)
NLTK = TSeq(TStr, 'str')          # a string as the sequence of its characters


def is_nltk(s, c, R):
    return [('masses are positive', POS(R)), ('masses cover the text', psum(R, ln(R)) == SS.len(s) + 1),
            ('boundary symbols separate segments', z3.ForAll([g], z3.Implies(z3.And(0 < g, g < ln(R)), SS.at(s, psum(R, g) - 1) == c), patterns=[psum(R, g)])),
            ('no boundary symbol within a segment', z3.ForAll([g, j], z3.Implies(z3.And(0 <= g, g < ln(R), psum(R, g) <= j, j < psum(R, g) + at(R, g) - 1), SS.at(s, j) != c),
                                                              patterns=[z3.MultiPattern(psum(R, g), SS.at(s, j))])),
            ('a slot holds the symbol exactly before the start of a segment', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < SS.len(s)), (SS.at(s, j) == c) == start(R, j + 1)), patterns=[SS.at(s, j)]))]


# ------------------------------------------------------------------------------------------------ positions and back
RT = z3.Const('R', SI.S)
_h = [POS(m)] + [f for _, f in is_positions(m, p)] + [f for _, f in runs(p, RT)]
Lemma('round_trip_starts', [m, p, RT, n], _h + [0 <= n, n <= ln(RT)], z3.And(n <= ln(m), psum(RT, n) == psum(m, n)), [psum(RT, n)], induct=n, auto=False,
      extra=[attend(at(p, psum(RT, n)))[0], attend(at(p, psum(RT, n) - 1))[0], attend(at(p, psum(m, n)))[0], attend(at(p, psum(m, n - 1)))[0], attend(at(p, psum(RT, n - 1)))[0], attend(psum(m, n))[0], attend(psum(m, ln(m)))[0]])
RTS = UNITS['round_trip_starts']
Lemma('round_trip', [m, p, RT], _h, RT == m, [], auto=False, uses=['round_trip_starts'],
      extra=[each([n], RTS.inst(m, p, RT, n), [psum(RT, n), at(RT, n)]), attend(psum(m, ln(RT)))[0], SI.eq(RT, m) == SI.eq(RT, m), attend(z3.If(SI.eq(RT, m), 1, 0))[0],
             each([n], [RTS.inst(m, p, RT, n), RTS.inst(m, p, RT, n + 1), psum(RT, n + 1) == psum(RT, n) + at(RT, n), psum(m, n + 1) == psum(m, n) + at(m, n)], [at(RT, n)], z3.And(0 <= n, n < ln(RT)))])


# ------------------------------------------------------------------------------------------------ the conversions as functions
POSN = z3.Function('positions_of', SI.S, SI.S)          # masses -> unit labels
RUNS = z3.Function('runs_of', SI.S, SI.S)               # labels -> lengths of maximal runs
BSTR = z3.Function('boundaries_of', SI.S, BS.S)         # masses -> boundary string
NLTKM = z3.Function('nltk_masses_of', SS.S, TStr.sort(), SI.S)
nstr = z3.Const('nstr', SS.S)
nsym = z3.Const('nsym', TStr.sort())
bs = z3.Const('bs', BS.S)
R2 = z3.Const('R2', SI.S)
# definitions: the sequence each specification describes (it exists; the lemmas below show that it is unique)
axiom('def.positions_of', [m], z3.Implies(POS(m), z3.And(*[f for _, f in is_positions(m, POSN(m))])), [POSN(m)])
axiom('def.runs_of', [p], z3.And(*[f for _, f in runs(p, RUNS(p))]), [RUNS(p)])
axiom('def.boundaries_of', [m], z3.Implies(POS(m), z3.And(*[f for _, f in is_boundaries(m, BSTR(m))])), [BSTR(m)])
axiom('def.nltk_masses_of', [nstr, nsym], z3.And(*[f for _, f in is_nltk(nstr, nsym, NLTKM(nstr, nsym))]), [NLTKM(nstr, nsym)])


Lemma('positions_unique', [m, r], [POS(m)] + [f for _, f in is_positions(m, r)], r == POSN(m), [], auto=False,
      extra=attend(SI.eq(r, POSN(m))) + attend_all([j], [at(r, j)], psum(m, SEG(m, ln(m), j))))
Lemma('runs_unique_starts', [p, RT, R2, n], [f for _, f in runs(p, RT)] + [f for _, f in runs(p, R2)] + [0 <= n, n <= ln(RT)],
      z3.And(n <= ln(R2), psum(RT, n) == psum(R2, n)), [], induct=n, auto=False,
      extra=attend(*[at(p, t) for t in (psum(RT, n), psum(RT, n) - 1, psum(R2, n), psum(R2, n) - 1, psum(RT, n - 1), psum(R2, n - 1))]) + attend(psum(R2, ln(R2)), psum(R2, ln(RT))))
RUS = UNITS['runs_unique_starts']
Lemma('runs_unique', [p, RT], [f for _, f in runs(p, RT)], RT == RUNS(p), [], auto=False, uses=['runs_unique_starts'],
      extra=[each([n], [RUS.inst(p, RT, RUNS(p), n), RUS.inst(p, RT, RUNS(p), n + 1), psum(RT, n + 1) == psum(RT, n) + at(RT, n), psum(RUNS(p), n + 1) == psum(RUNS(p), n) + at(RUNS(p), n)], [at(RT, n)], z3.And(0 <= n, n < ln(RT))), RUS.inst(p, RT, RUNS(p), ln(RT))] + attend(SI.eq(RT, RUNS(p)), psum(RUNS(p), ln(RT))))
Lemma('boundaries_unique', [m, bs], [POS(m)] + [f for _, f in is_boundaries(m, bs)], bs == BSTR(m), [], auto=False, extra=attend(BS.eq(bs, BSTR(m))))
# masses of labels made from masses
Lemma('runs_of_positions', [m], [POS(m)], RUNS(POSN(m)) == m, [RUNS(POSN(m))], uses=['round_trip'], extra=[UNITS['round_trip'].inst(m, POSN(m), RUNS(POSN(m)))])
Lemma('nltk_unique_starts', [nstr, nsym, RT, R2, n], [f for _, f in is_nltk(nstr, nsym, RT)] + [f for _, f in is_nltk(nstr, nsym, R2)] + [0 <= n, n <= ln(RT)],
      z3.And(n <= ln(R2), psum(RT, n) == psum(R2, n)), [], induct=n, auto=False,
      extra=attend(*[SS.at(nstr, t) for t in (psum(RT, n), psum(RT, n) - 1, psum(R2, n), psum(R2, n) - 1, psum(RT, n - 1), psum(R2, n - 1))]) + attend(psum(R2, ln(R2)), psum(R2, ln(RT))))
NUS = UNITS['nltk_unique_starts']
_N = NLTKM(nstr, nsym)
Lemma('nltk_unique', [nstr, nsym, RT], [f for _, f in is_nltk(nstr, nsym, RT)], RT == _N, [], auto=False, uses=['nltk_unique_starts'],
      extra=[each([n], [NUS.inst(nstr, nsym, RT, _N, n), NUS.inst(nstr, nsym, RT, _N, n + 1), psum(RT, n + 1) == psum(RT, n) + at(RT, n), psum(_N, n + 1) == psum(_N, n) + at(_N, n)], [at(RT, n)], z3.And(0 <= n, n < ln(RT))), NUS.inst(nstr, nsym, RT, _N, ln(RT))] + attend(SI.eq(RT, _N), psum(_N, ln(RT))))


# ------------------------------------------------------------------------------------------------ contracts
@both
class MassesToPositions(Case):
    fn = 'segeval.format.convert_masses_to_positions'
    params = dict(masses=PTy(TSeq(TInt)))

    def requires(self, a):
        return [POS(a.masses)]

    def result(self, ex, a):
        return ex.sym(TSeq(TInt), 'positions')

    def ensures(self, ex, a, r):
        return [('result is a tuple', z3.BoolVal(ex.deref(r).kind == 'tuple' if isinstance(ex.deref(r), SeqV) else isinstance(r, TupV)))] + is_positions(a.masses, ex.enc(r, TSeq(TInt))) + [('result is the labelling', ex.enc(r, TSeq(TInt)) == POSN(a.masses))]

    def hints(self, ex, a, r):
        return [('positions_unique', (a.masses, ex.enc(r, TSeq(TInt))))]

    def candidates(self, ex, L):
        M = self.a.masses
        for nm, t in L.of(TSeq(TInt)):
            yield ('len', nm), ln(t) == psum(M, L.k)
            yield ('labels', nm), labels(M, t, L.k)


class PositionsToMasses(Case):
    fn = 'segeval.format.convert_positions_to_masses'
    T = TInt

    def result(self, ex, a):
        return ex.sym(TSeq(TInt), 'masses')

    def ensures(self, ex, a, r):
        return runs(a.positions, ex.enc(r, TSeq(TInt)), SeqTheory.of(self.T)) + ([('result is the runs', ex.enc(r, TSeq(TInt)) == RUNS(a.positions))] if self.T == TInt else [])

    def hints(self, ex, a, r):
        return [('runs_unique', (a.positions, ex.enc(r, TSeq(TInt))))] if self.T == TInt else []

    def candidates(self, ex, L):
        P_ = self.a.positions
        G = lambda k: z3.Function('gstart_' + safe(self.T.key()), SeqTheory.of(self.T).S, I, I)(P_, k)
        for nm, t in L.of(TSeq(TInt)):
            yield ('len', nm), ln(t) == L.k
            yield ('starts', nm), psum(t, L.k) == G(L.k)
            yield ('allstarts', nm), z3.ForAll([g], z3.Implies(z3.And(0 <= g, g <= L.k), psum(t, g) == G(g)), patterns=[psum(t, g)])
            yield ('pos', nm), POS(t)


@both
class IntPositionsToMasses(PositionsToMasses):
    varies = 'int labels'
    params = dict(positions=PTy(TSeq(TInt)))


@both
class AnyPositionsToMasses(PositionsToMasses):
    varies = 'labels of any type'
    T = TVal
    params = dict(positions=PTy(TSeq(TVal)))


@both
class BoundaryString(Case):
    fn = 'segeval.format.boundary_string_from_masses'
    params = dict(masses=PTy(TSeq(TInt)))

    def requires(self, a):
        return [POS(a.masses)]

    def result(self, ex, a):
        return ex.sym(TSeq(TSet(TInt)), 'boundaries')

    def ensures(self, ex, a, r):
        R = ex.enc(r, TSeq(TSet(TInt)))
        return is_boundaries(a.masses, R) + [('result is the boundary string', R == BSTR(a.masses))]

    def hints(self, ex, a, r):
        return [('boundaries_unique', (a.masses, ex.enc(r, TSeq(TSet(TInt)))))]

    def candidates(self, ex, L):
        M = self.a.masses
        for nm, t in L.of(TInt):
            yield ('pos', nm), t == psum(M, L.k)
        for nm, t in L.of(TSeq(TSet(TInt))):
            yield ('len', nm), BS.len(t) == z3.If(total(M) > 0, total(M) - 1, 0)
            yield ('slots', nm), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < BS.len(t)), BS.at(t, j) == z3.If(j + 1 <= psum(M, L.k), slot(M, j), SetI.empty)), patterns=[BS.at(t, j)])


class NltkToMasses(Case):
    fn = 'segeval.format.convert_nltk_to_masses'

    def result(self, ex, a):
        return ex.sym(TSeq(TInt), 'masses')

    def symbol(self, a):
        return a.boundary_symbol

    def ensures(self, ex, a, r):
        R = ex.enc(r, TSeq(TInt))
        return is_nltk(a.string, self.symbol(a), R) + [('result is the masses', R == NLTKM(a.string, self.symbol(a)))]

    def hints(self, ex, a, r):
        return [('nltk_unique', (a.string, self.symbol(a), ex.enc(r, TSeq(TInt))))]

    def candidates(self, ex, L):
        for nm, t in L.of(TSeq(TInt)):
            st = split_theory()[1]
            s_, c_ = self.a.string, self.symbol(self.a)
            yield ('len', nm), ln(t) == L.k
            yield ('starts', nm), psum(t, L.k) == st(s_, c_, L.k)
            yield ('allstarts', nm), z3.ForAll([g], z3.Implies(z3.And(0 <= g, g <= L.k), psum(t, g) == st(s_, c_, g)), patterns=[psum(t, g)])
            yield ('pos', nm), POS(t)


@register
class NltkToMassesGiven(NltkToMasses):
    varies = 'given symbol'
    params = dict(string=PTy(NLTK), boundary_symbol=PTy(TStr))


@register
class NltkToMassesDefault(NltkToMasses):
    varies = 'default symbol'
    params = dict(string=PTy(NLTK), boundary_symbol=PConst('1'))

    def symbol(self, a):
        return lit('1')
