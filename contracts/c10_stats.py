"""Boundary statistics (C10), and what boundary and segmentation similarity compute from them (C08, C09)."""
from spec_common import *
from values import Rec
from c01_format import BS, SetI, POS, RUNS, BSTR, NLTKM, NLTK, POSN, total, psum, is_boundaries
from c04_bed import *
from c06_pairing import *
from c07_edits import *
from c08_account import DISN
from c09_weights import *

ln = SI.len
SIM = 'segeval.similarity.'


class EFormat(object):
    """One of the ways to give a segmentation to the edit-based metrics: type, precondition, boundary string, length."""
    def __init__(self, name, ty, req, string, length):
        self.name, self.ty, self.req, self.string, self.length = name, ty, req, string, length


EFORMATS = [EFormat('sets', BSTRS, lambda x: [], lambda x: x, lambda x: BS.len(x)),
            EFormat('mass', TSeq(TInt), lambda x: [POS(x)], lambda x: BSTR(x), lambda x: total(x)),
            EFormat('position', TSeq(TInt), lambda x: [], lambda x: BSTR(RUNS(x)), lambda x: ln(x)),
            EFormat('nltk', NLTK, lambda x: [], lambda x: BSTR(NLTKM(x, lit('1'))), lambda x: SeqTheory.of(TStr).len(x) + 1)]
# matches and misses before a position: how many of a type, and how many
MTYPE = z3.Function('matches_of_type', BS.S, BS.S, I, I, I)
UNFOLD['matches_of_type'] = lambda e: rec(e, 2, 0, lambda A, q: MTYPE(A[0], A[1], q, A[3]) + z3.If(z3.And(sel(BS.at(A[0], q), A[3]), sel(BS.at(A[1], q), A[3])), 1, 0))
DTYPE = z3.Function('misses_of_type', BS.S, BS.S, I, I, I)
UNFOLD['misses_of_type'] = lambda e: rec(e, 2, 0, lambda A, q: DTYPE(A[0], A[1], q, A[3]) + z3.If(sel(BS.at(A[0], q), A[3]) != sel(BS.at(A[1], q), A[3]), 1, 0))
MATN = z3.Function('matches', BS.S, BS.S, I, I)
UNFOLD['matches'] = lambda e: rec(e, 2, 0, lambda A, q: MATN(A[0], A[1], q) + card(SetI.inter(BS.at(A[0], q), BS.at(A[1], q))))
BNDN = z3.Function('boundaries', BS.S, BS.S, I, I)
UNFOLD['boundaries'] = lambda e: rec(e, 2, 0, lambda A, q: BNDN(A[0], A[1], q) + card(BS.at(A[0], q)) + card(BS.at(A[1], q)))
Lemma('boundaries_are_matches_or_misses', [a, b, n], [n >= 0], BNDN(a, b, n) == 2 * MATN(a, b, n) + DISN(a, b, n), [], induct=n, auto=False,
      extra=attend(card(SetI.sym(BS.at(a, n - 1), BS.at(b, n - 1)))))
# the number of potential boundaries
PBS = z3.Function('potential_boundaries', BS.S, BS.S, I)
axiom('def.potential_boundaries', [a, b], PBS(a, b) == BS.len(a) * card(TYP(a, b)), [PBS(a, b)])


def weighting(kind):
    """A weighting function given by the caller: any function of the edits and the scale that has no effects."""
    def call(f):
        def run(ex, args, kw):
            if kw:
                raise Unsupported('weighting function with keywords')
            nums = [ex.enc(ex.force(x), TInt) for x in args[1:]]
            l_ = ex.enc(args[0], TSeq({'a': ADD, 's': PAIR, 't': TRANS}[kind]))
            if l_ is None or any(x is None for x in nums) or len(nums) != dict(a=0, s=2, t=1)[kind]:
                ex.oblige('the weighting function gets a list of edits and the scale', z3.BoolVal(False))
                raise Unsupported('arguments of the weighting function')
            if kind == 's':
                ex.oblige('the greatest type is not below the least', nums[0] >= nums[1])
            if kind == 't':
                ex.oblige('transpositions are scaled by a positive span', nums[0] >= 1)
            return Num(dict(a=WADD, s=WSUB, t=WTRA)[kind](f, l_, *nums), 'dec')
        return run

    def make(ex, nm, A):
        f = ex.const(FN, nm)
        A[nm] = f
        return Opaque('weighting ' + kind, call(f), f)

    def match(ex, nm, v, A):
        if isinstance(v, FnV) and v.qual.startswith(WM) and v.qual[len(WM):] in LIBW and v.qual[len(WM):].split('_')[1] == kind:
            A[nm] = LIBW[v.qual[len(WM):]]
            return True
        if isinstance(v, Opaque) and v.name == 'weighting ' + kind:
            A[nm] = v.term
            return True
        return False
    return PCustom(make, match)


WEIGHTS = PTup(('w_a', weighting('a')), ('w_s', weighting('s')), ('w_t', weighting('t')))
LISTS = dict(additions=TSeq(ADD), substitutions=TSeq(PAIR), transpositions=TSeq(TRANS), full_misses=TSeq(TInt), matches=TSeq(TInt))
FIELDS = dict(LISTS, count_edits=TDec, boundaries_all=TInt, pbs=TInt, boundary_types=TSet(TInt))
least_type = lambda ty_: z3.If(ty_ == EMP, 1, SetI.min(ty_))
most_type = lambda ty_: z3.If(ty_ == EMP, 1, SetI.max(ty_))


def of_types(l_, f, x, y):
    return z3.ForAll([t], SI.cnt(l_, t) == f(x, y, BS.len(x), t), patterns=[SI.cnt(l_, t)])


def statistics(F, x, y, n_t, w):
    """What the fields (a dictionary of terms) are for strings x and y, spans below n_t and weighting functions w."""
    L_ = BS.len(x)
    C_ = ALL(x, y, n_t - 1)
    ty_ = F['boundary_types']
    yield 'the transpositions of the greedy rule, each once', counts(F['transpositions'], lambda i, j, d: z3.And(TAKEN(x, y, i, j, d), j - i <= n_t - 1))
    yield 'number of transpositions', ST.len(F['transpositions']) == ALLN(x, y, n_t - 1)
    yield 'total span of transpositions', SPANS(F['transpositions']) == ALLW(x, y, n_t - 1)
    for nm, f in edit_facts(F['additions'], F['substitutions'], DS(x, y), x, y, C_):
        yield nm, f
    yield 'the types in use', ty_ == TYP(x, y)
    yield 'every match, each once', of_types(F['matches'], MTYPE, x, y)
    yield 'number of matches', SI.len(F['matches']) == MATN(x, y, L_)
    yield 'every miss, each once', of_types(F['full_misses'], DTYPE, x, y)
    yield 'number of misses', SI.len(F['full_misses']) == DISN(x, y, L_)
    yield 'all boundaries', F['boundaries_all'] == BNDN(x, y, L_)
    yield 'potential boundaries', F['pbs'] == PBS(x, y)
    yield 'boundaries are matches or misses', F['boundaries_all'] == 2 * SI.len(F['matches']) + SI.len(F['full_misses'])
    yield 'misses are edits', SI.len(F['full_misses']) == SA.len(F['additions']) + 2 * SPT.len(F['substitutions']) + 2 * ST.len(F['transpositions'])
    yield 'weighted edits', F['count_edits'] == WADD(w[0], F['additions']) + WSUB(w[1], F['substitutions'], most_type(ty_), least_type(ty_)) + WTRA(w[2], F['transpositions'], n_t)


class Statistics(Case):
    fn = SIM + '__boundary_statistics__'
    houdini_ms = 3000

    def __init__(self):
        seq = PTy(self.F.ty).with_kind('mixed')
        self.params = dict(segs_a=seq, segs_b=seq, boundary_types=PAny(), boundary_format=PConst(self.F.name), n_t=PTy(TInt), weight=WEIGHTS)

    def requires(self, A):
        return self.F.req(A.segs_a) + self.F.req(A.segs_b) + [A.n_t >= 1]

    def raises(self, A):
        return [(self.F.length(A.segs_a) != self.F.length(A.segs_b), 'SegmentationMetricError')]

    def strings(self, A):
        return self.F.string(A.segs_a), self.F.string(A.segs_b)

    def facts(self, ex, A):
        x, y = self.strings(A)
        out = [UNITS['boundaries_are_matches_or_misses'].inst(x, y, BS.len(x)), UNITS['every_disagreement_counted'].inst(x, y, A.n_t - 1)]
        if self.F.name in ('mass', 'position', 'nltk'):
            m_ = dict(mass=lambda s: s, position=RUNS, nltk=lambda s: NLTKM(s, lit('1')))[self.F.name]
            out += [SI.sum(m_(s)) == total(m_(s)) for s in (A.segs_a, A.segs_b)] + attend(x, y)
        return out

    def result(self, ex, A):
        return ex.new(Rec({k: (ex.new(ex.sym(TSeq(ty_.t, 'list'), k)) if isinstance(ty_, TSeq) else ex.sym(ty_, k)) for k, ty_ in FIELDS.items()}))

    def fields(self, ex, r):
        d = ex.deref(r)
        if not isinstance(d, Rec) or set(d.d) != set(FIELDS):
            return None
        F = {k: ex.enc(d.d[k], ty_) for k, ty_ in FIELDS.items()}
        return None if any(v is None for v in F.values()) else F

    def ensures(self, ex, A, r):
        F = self.fields(ex, r)
        if F is None:
            return [('a dictionary of statistics', z3.BoolVal(False))]
        x, y = self.strings(A)
        return list(statistics(F, x, y, A.n_t, (A.w_a, A.w_s, A.w_t)))

    def candidates(self, ex, L):
        x, y = self.strings(self.a)
        if L.kind != 'idx':
            return
        for nm, l_ in L.of(TSeq(TInt)):
            for fn, fl, ft in (('match', MATN, MTYPE), ('miss', DISN, DTYPE)):
                yield (fn, 'len', nm), SI.len(l_) == fl(x, y, L.k)
                yield (fn, 'types', nm), z3.ForAll([t], SI.cnt(l_, t) == ft(x, y, L.k, t), patterns=[SI.cnt(l_, t)])
        for nm, v in L.of(TInt):
            yield ('boundaries', nm), v == BNDN(x, y, L.k)


def statistics_cases():
    for F in EFORMATS:
        register(type('Statistics', (Statistics,), dict(F=F, varies=F.name)))


statistics_cases()


@register
class StatisticsOther(Case):
    """Any other format is rejected."""
    fn = SIM + '__boundary_statistics__'
    varies = 'another format'
    params = dict(segs_a=PAny(), segs_b=PAny(), boundary_types=PAny(), boundary_format=PTy(TStr), n_t=PAny(), weight=PAny())

    def requires(self, A):
        return [A.boundary_format != lit(F.name) for F in EFORMATS]

    def raises(self, A):
        return [(z3.BoolVal(True), 'SegmentationMetricError')]


@register
class StatisticsNone(StatisticsOther):
    varies = 'no format'
    params = dict(StatisticsOther.params, boundary_format=PConst(None))

    def requires(self, A):
        return []
