"""Mean, variance, deviation, standard error (C20)."""
from spec_common import *
from lib import SQRT

SD = SeqTheory.of(TDec)
v = z3.Const('v', SD.S)
n, i, j = z3.Ints('n i j')
mu, u = z3.Reals('mu u')

# sum of squared deviations of the first n values
SQD = z3.Function('sqdev', SD.S, R, I, R)
UNFOLD['sqdev'] = lambda e: rec(e, 2, 0, lambda a, k: SQD(a[0], a[1], k) + (SD.at(a[0], k) - a[1]) * (SD.at(a[0], k) - a[1]))


def MEAN(v):
    return z3.If(SD.len(v) > 0, SD.sum(v) / z3.ToReal(SD.len(v)), 0)


def VAR(v):
    return SQD(v, MEAN(v), SD.len(v)) / z3.ToReal(SD.len(v))


Lemma('sqdev_nonneg', [v, u, n], [0 <= n, n <= SD.len(v)], SQD(v, u, n) >= 0, [SQD(v, u, n)], induct=n)
Lemma('sqdev_zero', [v, u, n, i], [0 <= n, n <= SD.len(v), SQD(v, u, n) == 0, 0 <= i, i < n], SD.at(v, i) == u, [z3.MultiPattern(SQD(v, u, n), SD.at(v, i))], induct=n)
Lemma('sum_equal', [v, u, n], [0 <= n, n <= SD.len(v), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < SD.len(v)), SD.at(v, i) == u), patterns=[SD.at(v, i)])],
      z3.And(SD.psum(v, n) == z3.ToReal(n) * u, SQD(v, u, n) == 0), [], induct=n, auto=False)


def VARF(v):
    return z3.Function('variance', SD.S, R)(v)


axiom('def.variance', [v], VARF(v) == VAR(v), [VARF(v)])
Lemma('variance_nonneg', [v], [SD.len(v) > 0], VARF(v) >= 0, [VARF(v)], uses=['sqdev_nonneg'])
Lemma('variance_zero', [v, i, j], [SD.len(v) > 0, VARF(v) == 0, 0 <= i, i < SD.len(v), 0 <= j, j < SD.len(v)], SD.at(v, i) == SD.at(v, j), [z3.MultiPattern(VARF(v), SD.at(v, i), SD.at(v, j))])
Lemma('variance_of_equal', [v, u], [SD.len(v) > 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < SD.len(v)), SD.at(v, i) == u), patterns=[SD.at(v, i)])], VARF(v) == 0, [], auto=False,
      uses=['sum_equal'], extra=[UNITS['sum_equal'].inst(v, u, SD.len(v))])


class Math(Case):
    params = dict(values=PTy(TSeq(TDec, 'list')))

    def result(self, ex, a):
        return ex.sym(TDec, 'value')

    def candidates(self, ex, L):
        V = self.a.values
        for nm, t in L.of(TDec):
            yield ('sum', nm), t == SD.psum(V, L.k)
            yield ('squares', nm), t == SQD(V, MEAN(V), L.k)


@register
class Mean(Math):
    fn = 'segeval.util.math.mean'

    def ensures(self, ex, a, r):
        return [('arithmetic mean', ex.enc(r, TDec) == MEAN(a.values))]


@register
class Var(Math):
    fn = 'segeval.util.math.var'

    def requires(self, a):
        return [SD.len(a.values) > 0]

    def ensures(self, ex, a, r):
        return [('mean squared deviation', ex.enc(r, TDec) == VAR(a.values)), ('variance', ex.enc(r, TDec) == VARF(a.values)), ('never negative', ex.enc(r, TDec) >= 0)]


@register
class Std(Math):
    fn = 'segeval.util.math.std'

    def requires(self, a):
        return [SD.len(a.values) > 0]

    def ensures(self, ex, a, r):
        return [('square root of the variance', ex.enc(r, TDec) == SQRT(VARF(a.values)))]


@register
class Stderr(Math):
    fn = 'segeval.util.math.stderr'

    def requires(self, a):
        return [SD.len(a.values) > 0]

    def ensures(self, ex, a, r):
        return [('deviation over the square root of the count', ex.enc(r, TDec) == SQRT(VARF(a.values)) / SQRT(z3.ToReal(SD.len(a.values))))]


PAIRS = TMap(TStr, TDec)


@register
class Summarize(Case):
    fn = 'segeval.compute.summarize'
    params = dict(pairs=PTy(PAIRS))

    def requires(self, a):
        return [SetTheory.of(TStr).card(PAIRS.dom(a.pairs)) > 0]

    def result(self, ex, a):
        return TupV([ex.sym(TDec, 'summary') for _ in range(4)] + [ex.sym(TInt, 'count')])

    def ensures(self, ex, a, r):
        vs = vals(TStr, TDec)(a.pairs)
        c = SD.len(vs)
        if not isinstance(r, TupV) or len(r.items) != 5:
            return [('five results', z3.BoolVal(False))]
        m, s, q, e = [ex.enc(x, TDec) for x in r.items[:4]]
        n = ex.enc(r.items[4], TInt)
        return [('mean', m == MEAN(vs)), ('standard deviation', s == SQRT(VARF(vs))), ('variance', q == VARF(vs)), ('standard error', e == SQRT(VARF(vs)) / SQRT(z3.ToReal(c))),
                ('count', n == SetTheory.of(TStr).card(PAIRS.dom(a.pairs)))]
