"""Weighting functions, boundary types in use (C10)."""
from spec_common import *
from c01_format import BS, SetI
from c04_bed import *
from c06_pairing import *
from c07_edits import *

# a weighting function of the caller: any function of its arguments; those of the library by name
FN = TVal.sort()
WADD = z3.Function('weight_of_additions', FN, SA.S, R)
WSUB = z3.Function('weight_of_substitutions', FN, SPT.S, I, I, R)
WTRA = z3.Function('weight_of_transpositions', FN, ST.S, I, R)
la, ls, lt = z3.Const('la', SA.S), z3.Const('ls', SPT.S), z3.Const('lt', ST.S)
hi, lo = z3.Ints('hi lo')
LIBW = {n: z3.Const('library_' + n, FN) for n in ('weight_a', 'weight_s', 'weight_s_scale', 'weight_t', 'weight_t_scale')}
THEORY_CONSTS.update('library_' + n for n in LIBW)
axiom('def.weight_a', [la], WADD(LIBW['weight_a'], la) == z3.ToReal(SA.len(la)), [WADD(LIBW['weight_a'], la)])
axiom('def.weight_s', [ls, hi, lo], WSUB(LIBW['weight_s'], ls, hi, lo) == z3.ToReal(SPT.len(ls)), [WSUB(LIBW['weight_s'], ls, hi, lo)])
axiom('def.weight_s_scale', [ls, hi, lo], WSUB(LIBW['weight_s_scale'], ls, hi, lo) == ratio(DISTS(ls), hi - lo + 1), [WSUB(LIBW['weight_s_scale'], ls, hi, lo)])
axiom('def.weight_t', [lt, n], WTRA(LIBW['weight_t'], lt, n) == z3.ToReal(ST.len(lt)), [WTRA(LIBW['weight_t'], lt, n)])
axiom('def.weight_t_scale', [lt, n], WTRA(LIBW['weight_t_scale'], lt, n) == ratio(SPANS(lt), n), [WTRA(LIBW['weight_t_scale'], lt, n)])
WM = 'segeval.similarity.weight.'


class Weight(Case):
    def result(self, ex, A):
        return ex.sym(TDec, 'weight')

    def value(self, A):
        raise NotImplementedError

    def ensures(self, ex, A, r):
        x = ex.enc(r, TDec)
        return [('the weight', x == self.value(A) if x is not None else z3.BoolVal(False))]


def weight_cases():
    pa_, ps_, pt_ = PTy(TSeq(ADD, 'mixed')), PTy(TSeq(PAIR, 'mixed')), PTy(TSeq(TRANS, 'mixed'))
    case = lambda fn, varies='', **kw: register(type('Weight', (Weight,), dict(fn=WM + fn, varies=varies, **kw)))
    case('weight_a', params=dict(additions=pa_), value=lambda self, A: z3.ToReal(SA.len(A.additions)))
    case('weight_t', params=dict(transpositions=pt_, max_n=PTy(TInt)), value=lambda self, A: z3.ToReal(ST.len(A.transpositions)))
    # (of transpositions, and as used by weight_s_scale of substitutions)
    for nm, p_, f in (('transpositions', pt_, SPANS), ('substitutions', ps_, DISTS)):
        case('weight_t_scale', nm, params=dict(transpositions=p_, max_n=PTy(TInt)), requires=lambda self, A: [A.max_n >= 1],
             value=lambda self, A, f=f: ratio(f(A.transpositions), A.max_n),
             candidates=lambda self, ex, L, f=f: [(('sum so far', nm), t_ == f.pre(self.a.transpositions, L.k)) for nm, t_ in L.of(TInt)])
    for dn, d_ in (('given least type', PTy(TInt)), ('default least type', PConst(1))):
        least_ = (lambda A: A.min_s) if isinstance(d_, PTy) else (lambda A: 1)
        case('weight_s', dn, params=dict(substitutions=ps_, max_s=PTy(TInt), min_s=d_), value=lambda self, A: z3.ToReal(SPT.len(A.substitutions)))
        case('weight_s_scale', dn, params=dict(substitutions=ps_, max_s=PTy(TInt), min_s=d_), requires=lambda self, A, l=least_: [A.max_s >= l(A)],
             value=lambda self, A, l=least_: ratio(DISTS(A.substitutions), A.max_s - l(A) + 1))


weight_cases()

# ------------------------------------------------------------------------------------------------ types in use
UPTO = z3.Function('types_before', BS.S, I, SetS)
UNFOLD['types_before'] = lambda e: rec(e, 1, EMP, lambda A, q: SetI.union(UPTO(A[0], q), BS.at(A[0], q)))
TYP = z3.Function('types_in_use', BS.S, BS.S, SetS)
axiom('def.types_in_use', [a, b], TYP(a, b) == SetI.union(UPTO(a, BS.len(a)), UPTO(b, BS.len(b))), [TYP(a, b)])
UPW = z3.Function('types_before_w', BS.S, I, I, I)
Lemma('types_before_has', [a, n, p, t], [0 <= p, p < n, sel(BS.at(a, p), t)], sel(UPTO(a, n), t), [z3.MultiPattern(UPTO(a, n), sel(BS.at(a, p), t))], induct=n)
ATP = z3.Function('used_before', BS.S, I, I, B)        # t occurs at one of the first n positions
ATW = z3.Function('used_before_w', BS.S, I, I, I)
axiom('def.used_before', [a, n, t, p], z3.Implies(z3.And(0 <= p, p < n, sel(BS.at(a, p), t)), ATP(a, n, t)), [z3.MultiPattern(ATP(a, n, t), sel(BS.at(a, p), t))])
aw = ATW(a, n, t)
axiom('def.used_before_w', [a, n, t], z3.Implies(ATP(a, n, t), z3.And(0 <= aw, aw < n, sel(BS.at(a, aw), t))), [ATP(a, n, t)])
Lemma('types_before_only', [a, n, t], [0 <= n, sel(UPTO(a, n), t)], ATP(a, n, t), [], induct=n, auto=False, extra=attend(ATP(a, n - 1, t), sel(BS.at(a, n - 1), t), ATP(a, n, t)))
Lemma('types_in_use_is', [a, b, t], [BS.len(a) == BS.len(b)], sel(TYP(a, b), t) == INUSE(a, b, t), [sel(TYP(a, b), t)],
      extra=[UNITS['types_before_only'].inst(x, BS.len(x), t) for x in (a, b)] + attend(INUSE(a, b, t)))


@register
class IdentifyTypes(Case):
    fn = 'segeval.similarity.distance.identify_types'
    params = dict(string_a=PTy(BSTRS), string_b=PTy(BSTRS))

    def result(self, ex, A):
        return ex.sym(TSet(TInt), 'types')

    def ensures(self, ex, A, r):
        s_ = ex.enc(r, TSet(TInt))
        return [('exactly the types in use', s_ == TYP(A.string_a, A.string_b) if s_ is not None else z3.BoolVal(False))]

    def candidates(self, ex, L):
        for nm, s_ in L.of(TSet(TInt)):
            o = L.was(nm, TSet(TInt))
            if L.kind == 'idx' and isinstance(L.seq, SeqV) and L.seq.ety == TSet(TInt):
                yield ('types so far', nm), s_ == SetI.union(o, UPTO(L.seq.t, L.k))
            elif L.kind == 'set':
                yield ('types here', nm), s_ == SetI.union(o, L.done)
