"""Boundary edit distance: the three lists of edits (C05, C06, C07)."""
from spec_common import *
from c01_format import BS, SetI
from c04_bed import *
from c04_bed import MB
from c06_pairing import *

DS = z3.Function('differing', BS.S, BS.S, SetS)
axiom('def.differing', [a, b, p], sel(DS(a, b), p) == differs(a, b, p), [sel(DS(a, b), p)], symbols={'differing'})
# a type that occurs at some position
INUSE = z3.Function('in_use', BS.S, BS.S, I, B)
INUSE_W = z3.Function('in_use_at', BS.S, BS.S, I, I)
axiom('def.in_use', [a, b, p, t], z3.Implies(z3.And(0 <= p, p < BS.len(a), z3.Or(sel(BS.at(a, p), t), sel(BS.at(b, p), t))), INUSE(a, b, t)), [z3.MultiPattern(INUSE(a, b, t), sel(BS.at(a, p), t)), z3.MultiPattern(INUSE(a, b, t), sel(BS.at(b, p), t))])
pos_ = INUSE_W(a, b, t)
axiom('def.in_use_at', [a, b, t], z3.Implies(INUSE(a, b, t), z3.And(0 <= pos_, pos_ < BS.len(a), z3.Or(sel(BS.at(a, pos_), t), sel(BS.at(b, pos_), t)))), [INUSE(a, b, t)])
PARAMS = [BS.S, BS.S, COVS]


def fold(name, f, extra=()):
    return SetFold(name, TInt, f, PARAMS + list(extra))


xs = lambda p, a, b, C: XS(a, b, C, p)
ys = lambda p, a, b, C: YS(a, b, C, p)
# over positions: substitutions, additions of either side, distances, and how often a type is left
SUBN = fold('substitutions_at', lambda p, a, b, C: both_least(XS(a, b, C, p), YS(a, b, C, p)))
ADDN = [fold('additions_at_a', lambda p, a, b, C: card(XS(a, b, C, p)) - both_least(XS(a, b, C, p), YS(a, b, C, p))),
        fold('additions_at_b', lambda p, a, b, C: card(YS(a, b, C, p)) - both_least(XS(a, b, C, p), YS(a, b, C, p)))]
SUBD = fold('distance_at', lambda p, a, b, C: MINC(XS(a, b, C, p), YS(a, b, C, p)))
LEFTN = [fold('left_at_a', lambda p, a, b, C, t: z3.If(sel(XS(a, b, C, p), t), 1, 0), [I]), fold('left_at_b', lambda p, a, b, C, t: z3.If(sel(YS(a, b, C, p), t), 1, 0), [I])]
SIDE = ('a', 'b')


def account(adds, subs, D, a, b, C, z):
    """Every type left on a side is an addition of that side or that end of a substitution, each time once."""
    x = ADD.mk(t, lit(SIDE[z]))
    return z3.ForAll([t], SA.cnt(adds, x) + LHAS[z](subs, t) == LEFTN[z](D, a, b, C, t), patterns=[SA.cnt(adds, x), LHAS[z](subs, t)])


def only_sides(adds):
    return z3.ForAll([ad], z3.Implies(SA.cnt(adds, ad) > 0, z3.Or(ADD.get(ad, 1) == lit('a'), ADD.get(ad, 1) == lit('b'))), patterns=[SA.mem(adds, ad), SA.cnt(adds, ad)])


def subs_in_use(subs, a, b):
    return z3.ForAll([pr], z3.Implies(SPT.mem(subs, pr), z3.And(INUSE(a, b, p0(pr)), INUSE(a, b, p1(pr)), p0(pr) != p1(pr))), patterns=[SPT.mem(subs, pr)])


def edit_facts(adds, subs, D, a, b, C):
    yield 'additions on the first side', SIDES(adds, lit('a')) == ADDN[0](D, a, b, C)
    yield 'additions on the second side', SIDES(adds, lit('b')) == ADDN[1](D, a, b, C)
    yield 'number of additions', SA.len(adds) == ADDN[0](D, a, b, C) + ADDN[1](D, a, b, C)
    yield 'number of substitutions', SPT.len(subs) == SUBN(D, a, b, C)
    yield 'least total distance', DISTS(subs) == SUBD(D, a, b, C)
    yield 'first side accounted for', account(adds, subs, D, a, b, C, 0)
    yield 'second side accounted for', account(adds, subs, D, a, b, C, 1)
    yield 'additions name a side', only_sides(adds)
    yield 'substitutions join two types in use', subs_in_use(subs, a, b)


class Edits(Case):
    houdini_ms = 4000

    def ab(self, A):
        return A.boundary_string_a, A.boundary_string_b

    def requires(self, A):
        x, y = self.ab(A)
        return [BS.len(x) == BS.len(y)]

    def span(self, A):
        return A.n_t

    def result(self, ex, A):
        return TupV([ex.new(ex.sym(TSeq(ty, 'list'), nm)) for ty, nm in ((ADD, 'additions'), (PAIR, 'substitutions'), (TRANS, 'transpositions'))])

    def ensures(self, ex, A, r):
        x, y = self.ab(A)
        n_ = self.span(A)
        ls = [None] * 3
        if isinstance(r, TupV) and len(r.items) == 3:
            ls = [ex.enc(v, TSeq(ty)) for v, ty in zip(r.items, (ADD, PAIR, TRANS))]
        if any(l is None for l in ls):
            return [('lists of additions, substitutions and transpositions', z3.BoolVal(False))]
        C_ = ALL(x, y, n_)
        return [('the transpositions of the greedy rule, each once', counts(ls[2], lambda i, j, d: z3.And(TAKEN(x, y, i, j, d), j - i <= n_))),
                ('number of transpositions', ST.len(ls[2]) == ALLN(x, y, n_)), ('total span of transpositions', SPANS(ls[2]) == ALLW(x, y, n_))] + list(edit_facts(ls[0], ls[1], DS(x, y), x, y, C_))

    def cuts(self, ex, L):
        x, y = self.ab(self.a)
        C_ = ALL(x, y, self.span(self.a))
        if L.kind == 'set' and isinstance(L.seq, MapV) and L.seq.ty == OS:
            o = sel(OS.val(L.seq.t), L.it.x)
            yield 'left on the first side', DIFF.get(o, 1) == XS(x, y, C_, L.it.x)
            yield 'left on the second side', DIFF.get(o, 2) == YS(x, y, C_, L.it.x)

    def candidates(self, ex, L):
        x, y = self.ab(self.a)
        C_ = ALL(x, y, self.span(self.a))
        if L.kind == 'set' and isinstance(L.seq, MapV) and L.seq.ty == OS:
            yield 'positions', OS.dom(L.seq.t) == DS(x, y)
            for nm, adds in L.of(TSeq(ADD)):
                for nm2, subs in L.of(TSeq(PAIR)):
                    for nm3, f in edit_facts(adds, subs, L.done, x, y, C_):
                        yield (nm3, nm, nm2), f


@register
class EditsOfSpans(Edits):
    fn = MB + '__boundary_edit_distance__'
    params = dict(boundary_string_a=PTy(BSTRS), boundary_string_b=PTy(BSTRS), n_t=spans())


@register
class EditDistance(Edits):
    """The public form: spans up to n_t - 1."""
    fn = MB + 'boundary_edit_distance'
    varies = 'given n_t'
    params = dict(boundary_string_a=PTy(BSTRS), boundary_string_b=PTy(BSTRS), n_t=PTy(TInt))

    def span(self, A):
        return z3.simplify(A.n_t - 1)


@register
class EditDistanceDefault(Edits):
    """n_t is 2 when it is not given: only adjacent positions."""
    fn = MB + 'boundary_edit_distance'
    varies = 'default n_t'
    params = dict(boundary_string_a=PTy(BSTRS), boundary_string_b=PTy(BSTRS), n_t=PConst(2))

    def span(self, A):
        return z3.IntVal(1)
