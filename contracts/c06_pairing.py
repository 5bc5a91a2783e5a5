"""Substitutions and additions at one position: the pairing of the types left on both sides (C05, C07)."""
from spec_common import *
from c01_format import SetI
from c04_bed import MB, SI, EMP, SetS, minus, disjoint_union, union_facts, sel

PAIR = TTup(TInt, TInt, name='Substitution', fields=['type_a', 'type_b'])
ADD = TTup(TInt, TStr, name='Addition', fields=['type', 'side'])
SP, SPT = SetTheory.of(PAIR), SeqTheory.of(PAIR)
SA = SeqTheory.of(ADD)
PS = TSet(PAIR).sort()
S_ = z3.Const('S', PS)
pr = z3.Const('pr', PAIR.sort())
ad = z3.Const('ad', ADD.sort())
pa, pb = z3.Consts('pa pb', SI.S)
X_, Y_, Z_ = z3.Consts('X Y Z', SetS)
n, t, u, c = z3.Ints('n t u c')
p0, p1 = (lambda x: PAIR.get(x, 0)), (lambda x: PAIR.get(x, 1))
NOPAIRS = SP.empty


def card(s):
    return SetI.card(s)


def least(x, y):
    return z3.If(x < y, x, y)


def both_least(X, Y):
    return least(card(X), card(Y))


# total distance of a set of pairs
DIST = SetFold('distance', PAIR, lambda p: minus(p0(p), p1(p)))
# the first n pairs of two listings, and their total distance
ZS = z3.Function('zipped', SI.S, SI.S, I, PS)
UNFOLD['zipped'] = lambda e: rec(e, 2, NOPAIRS, lambda A, q: z3.Store(ZS(A[0], A[1], q), PAIR.mk(SI.at(A[0], q), SI.at(A[1], q)), True))
COST = z3.Function('cost', SI.S, SI.S, I, I)
UNFOLD['cost'] = lambda e: rec(e, 2, 0, lambda A, q: COST(A[0], A[1], q) + minus(SI.at(A[0], q), SI.at(A[1], q)))
# the types on either side of a set of pairs
IM, WIT = [], []
for z, g in enumerate((p0, p1)):
    f = z3.Function('side%d' % z, PS, SetS)
    w = z3.Function('side%d_w' % z, PS, I, PAIR.sort())
    axiom('def.side%d_in' % z, [S_, pr], z3.Implies(sel(S_, pr), sel(f(S_), g(pr))), [z3.MultiPattern(f(S_), sel(S_, pr))])
    axiom('def.side%d_wit' % z, [S_, t], z3.Implies(sel(f(S_), t), z3.And(sel(S_, w(S_, t)), g(w(S_, t)) == t)), [sel(f(S_), t)], symbols={'side%d' % z})
    IM.append(f)
    WIT.append(w)
    Lemma('side%d_empty' % z, [], [], f(NOPAIRS) == EMP, [], symbols={'side%d' % z})
    Lemma('side%d_add' % z, [S_, pr], [], f(z3.Store(S_, pr, True)) == z3.Store(f(S_), g(pr), True), [f(z3.Store(S_, pr, True))],
          extra=attend_all([t], [sel(f(S_), t)], sel(z3.Store(S_, pr, True), w(S_, t))) + attend_all([t], [sel(f(z3.Store(S_, pr, True)), t)], sel(S_, w(z3.Store(S_, pr, True), t)))
          + attend(sel(z3.Store(S_, pr, True), pr)))
listings = [SI.perm(pa, X_), SI.perm(pb, Y_), 0 <= n, n <= card(X_), n <= card(Y_)]
zs = ZS(pa, pb, n)
Lemma('zipped_members', [pa, pb, X_, Y_, n], listings,
      z3.ForAll([pr], sel(zs, pr) == z3.And(sel(X_, p0(pr)), sel(Y_, p1(pr)), SI.pos(pa, p0(pr)) == SI.pos(pb, p1(pr)), SI.pos(pa, p0(pr)) < n), patterns=[sel(zs, pr)]), [z3.MultiPattern(zs, SI.perm(pa, X_), SI.perm(pb, Y_))], induct=n)
at_n1 = UNITS['zipped_members'].inst(pa, pb, X_, Y_, n - 1)
Lemma('zipped_sizes', [pa, pb, X_, Y_, n], listings, z3.And(SP.card(zs) == n, DIST(zs) == COST(pa, pb, n)), [z3.MultiPattern(DIST(zs), SI.perm(pa, X_), SI.perm(pb, Y_))], induct=n, extra=[at_n1])
Lemma('zipped_sides', [pa, pb, X_, Y_, n], listings, z3.And(*[z3.ForAll([t], sel(IM[z](zs), t) == z3.And(sel((X_, Y_)[z], t), SI.pos((pa, pb)[z], t) < n), patterns=[sel(IM[z](zs), t)]) for z in (0, 1)]), [],
      induct=n, auto=False)
sides_n1 = UNITS['zipped_sides'].inst(pa, pb, X_, Y_, n - 1)
Lemma('zipped_side_sizes', [pa, pb, X_, Y_, n], listings, z3.And(*[card(IM[z](zs)) == n for z in (0, 1)]), [], induct=n, extra=[sides_n1], auto=False)
# the smallest total distance of a pairing of X with Y: over all listings of both, paired in order
MINC = z3.Function('least_distance', SetS, SetS, I)
MA = z3.Function('least_listing_a', SetS, SetS, SI.S)
MBW = z3.Function('least_listing_b', SetS, SetS, SI.S)
axiom('def.least_distance', [X_, Y_, pa, pb], z3.Implies(z3.And(SI.perm(pa, X_), SI.perm(pb, Y_)), MINC(X_, Y_) <= COST(pa, pb, both_least(X_, Y_))),
      [z3.MultiPattern(MINC(X_, Y_), SI.perm(pa, X_), SI.perm(pb, Y_))])
axiom('def.least_distance_attained', [X_, Y_], z3.And(SI.perm(MA(X_, Y_), X_), SI.perm(MBW(X_, Y_), Y_), MINC(X_, Y_) == COST(MA(X_, Y_), MBW(X_, Y_), both_least(X_, Y_))), [MINC(X_, Y_)])
# S pairs X with Y, as many as possible, at total distance c
PAIRING = z3.Function('pairing', PS, SetS, SetS, I, B)
WA = z3.Function('pairing_a', PS, SetS, SetS, SI.S)
WB = z3.Function('pairing_b', PS, SetS, SetS, SI.S)
axiom('def.pairing_if', [S_, X_, Y_, c, pa, pb, n], z3.Implies(z3.And(SI.perm(pa, X_), SI.perm(pb, Y_), n == both_least(X_, Y_), S_ == ZS(pa, pb, n), c == COST(pa, pb, n)), PAIRING(S_, X_, Y_, c)),
      [z3.MultiPattern(PAIRING(S_, X_, Y_, c), ZS(pa, pb, n))])
axiom('def.pairing_then', [S_, X_, Y_, c], z3.Implies(PAIRING(S_, X_, Y_, c), z3.And(SI.perm(WA(S_, X_, Y_), X_), SI.perm(WB(S_, X_, Y_), Y_), S_ == ZS(WA(S_, X_, Y_), WB(S_, X_, Y_), both_least(X_, Y_)),
      c == COST(WA(S_, X_, Y_), WB(S_, X_, Y_), both_least(X_, Y_)))), [PAIRING(S_, X_, Y_, c)])


wa, wb, m_ = WA(S_, X_, Y_), WB(S_, X_, Y_), both_least(X_, Y_)
pairing_facts = [UNITS[x].inst(wa, wb, X_, Y_, m_) for x in ('zipped_members', 'zipped_sizes', 'zipped_sides', 'zipped_side_sizes')]
# what the predicate says about the set itself
Lemma('pairing_is', [S_, X_, Y_, c], [PAIRING(S_, X_, Y_, c)],
      z3.And(SP.card(S_) == m_, DIST(S_) == c, card(IM[0](S_)) == m_, card(IM[1](S_)) == m_,
             z3.ForAll([pr], z3.Implies(sel(S_, pr), z3.And(sel(X_, p0(pr)), sel(Y_, p1(pr)))), patterns=[sel(S_, pr)]),
             *[z3.ForAll([t], z3.Implies(sel(IM[z](S_), t), sel((X_, Y_)[z], t)), patterns=[sel(IM[z](S_), t)]) for z in (0, 1)]), [PAIRING(S_, X_, Y_, c)], extra=pairing_facts)
pq = z3.Const('pq', PAIR.sort())
Lemma('pairing_is_one_to_one', [S_, X_, Y_, c, pr, pq], [PAIRING(S_, X_, Y_, c), sel(S_, pr), sel(S_, pq), z3.Or(p0(pr) == p0(pq), p1(pr) == p1(pq))], pr == pq, [], auto=False, extra=pairing_facts)


def left(X, Y, S):
    """Types of X, and of Y, outside the pairs."""
    return SetI.diff(X, IM[0](S)), SetI.diff(Y, IM[1](S))


def side(s):
    return lit(s)


def additions_are(l, XL, YL):
    return z3.ForAll([ad], SA.cnt(l, ad) == z3.If(z3.Or(z3.And(ADD.get(ad, 1) == side('a'), sel(XL, ADD.get(ad, 0))), z3.And(ADD.get(ad, 1) == side('b'), sel(YL, ADD.get(ad, 0)))), 1, 0), patterns=[SA.cnt(l, ad)])


Lemma('card_left', [S_, X_, Y_, c], [PAIRING(S_, X_, Y_, c)], z3.And(card(left(X_, Y_, S_)[0]) == card(X_) - m_, card(left(X_, Y_, S_)[1]) == card(Y_) - m_), [], auto=False,
      extra=[UNITS['inter_subset'].inst((X_, Y_)[z], IM[z](S_)) for z in (0, 1)])
T_ = z3.Const('T', SetS)
Lemma('types_left', [S_, X_, Y_, Z_, T_, c], [PAIRING(S_, X_, Y_, c), disjoint_union(Z_, X_, Y_), z3.ForAll([t], sel(T_, t) == z3.Or(sel(IM[0](S_), t), sel(IM[1](S_), t)))],
      z3.And(SetI.diff(X_, T_) == left(X_, Y_, S_)[0], SetI.diff(Y_, T_) == left(X_, Y_, S_)[1]), [z3.MultiPattern(PAIRING(S_, X_, Y_, c), SetI.diff(X_, T_), SetI.diff(Y_, T_), SetI.diff(Z_, T_))])
Lemma('card_of_types_left', [X_, Y_, Z_, T_], [disjoint_union(Z_, X_, Y_)], card(SetI.diff(Z_, T_)) == card(SetI.diff(X_, T_)) + card(SetI.diff(Y_, T_)),
      [z3.MultiPattern(card(SetI.diff(Z_, T_)), card(SetI.diff(X_, T_)), card(SetI.diff(Y_, T_)))], extra=[UNITS['card_disjoint_union'].inst(*[SetI.diff(x, T_) for x in (Z_, X_, Y_)])])


# sums over lists
SIDES = ListFold('number_of_side', ADD, lambda x, s: z3.If(ADD.get(x, 1) == s, 1, 0), [TStr.sort()])
HASX, HASY = [SetFold('number_with_%d' % z, PAIR, lambda p, t, g=g: z3.If(g(p) == t, 1, 0), [I]) for z, g in enumerate((p0, p1))]
HAS = (HASX, HASY)
DISTS = ListFold('distances', PAIR, lambda p: minus(p0(p), p1(p)), over=DIST)
LHAS = [ListFold('number_in_list_with_%d' % z, PAIR, lambda p, t, g=g: z3.If(g(p) == t, 1, 0), [I], over=HAS[z]) for z, g in enumerate((p0, p1))]
Lemma('zipped_has', [pa, pb, X_, Y_, n, t], listings, z3.And(*[HAS[z](zs, t) == z3.If(sel(IM[z](zs), t), 1, 0) for z in (0, 1)]), [], induct=n, auto=False,
      extra=[sides_n1, at_n1])
Lemma('pairing_has', [S_, X_, Y_, c, t], [PAIRING(S_, X_, Y_, c)], z3.And(*[HAS[z](S_, t) == z3.If(sel(IM[z](S_), t), 1, 0) for z in (0, 1)]), [z3.MultiPattern(PAIRING(S_, X_, Y_, c), HAS[0](S_, t)), z3.MultiPattern(PAIRING(S_, X_, Y_, c), HAS[1](S_, t))],
      extra=[UNITS['zipped_has'].inst(wa, wb, X_, Y_, m_, t)])


@register
class Pairing(Case):
    """The substitutions and additions of one option."""
    fn = MB + '__additions_substitutions_sets__'
    params = dict(d=PTy(TSet(TInt, 'set')), a=PTy(TSet(TInt, 'set')), b=PTy(TSet(TInt, 'set')))
    houdini_ms = 3000

    def requires(self, A):
        return [disjoint_union(A.d, A.a, A.b)]

    def facts(self, ex, A):
        X, Y = A.a, A.b
        return union_facts(A.d, X, Y) + attend(SI.perm(SI.enum(X), X), SI.perm(SI.enum(Y), Y), MINC(X, Y))

    def result(self, ex, A):
        return TupV([ex.new(ex.sym(TSeq(ADD, 'list'), 'additions')), ex.new(ex.sym(TSet(PAIR, 'set'), 'substitutions'))])

    def ensures(self, ex, A, r):
        X, Y = A.a, A.b
        l = S = None
        if isinstance(r, TupV) and len(r.items) == 2:
            l, S = ex.enc(r.items[0], TSeq(ADD)), ex.enc(r.items[1], TSet(PAIR))
        if l is None or S is None:
            return [('a list of additions and a set of substitutions', z3.BoolVal(False))]
        return [('as many substitutions as possible, one to one, at the least total distance', PAIRING(S, X, Y, MINC(X, Y))),
                ('every other type is an addition of its side, once', additions_are(l, *left(X, Y, S))),
                ('as many additions as the larger side has more types', SA.len(l) == minus(card(X), card(Y))),
                ('all of that side', z3.And(SIDES(l, side('a')) == card(X) - both_least(X, Y), SIDES(l, side('b')) == card(Y) - both_least(X, Y)))]

    def hints(self, ex, A, r):
        if isinstance(r, TupV) and len(r.items) == 2:
            S = ex.enc(r.items[1], TSet(PAIR))
            if S is not None:
                yield 'card_left', (S, A.a, A.b, MINC(A.a, A.b))

    def candidates(self, ex, L):
        X, Y = self.a.a, self.a.b
        m = both_least(X, Y)
        if L.kind != 'set':
            return
        ety = L.it.ety
        depth = len(L.outer)
        if ety == TSeq(TInt) and depth < 2:
            q1, q2 = z3.Consts('q1 q2', SI.S)
            for nm, dl in L.of(TOpt(TInt)):
                none, v = TOpt(TInt).is_none(dl), TOpt(TInt).get(dl)
                for nm2, S in L.of(TSet(PAIR)):
                    yield ('pairing', nm, nm2), z3.Or(none, PAIRING(S, X, Y, v))
                if depth == 0:
                    yield ('some', nm), z3.ForAll([q1], z3.Implies(sel(L.done, q1), z3.Not(none)), patterns=[sel(L.done, q1)])
                    yield ('least', nm), z3.ForAll([q1, q2], z3.Implies(z3.And(sel(L.done, q1), SI.perm(q2, Y)), v <= COST(q1, q2, m)), patterns=[z3.MultiPattern(sel(L.done, q1), SI.perm(q2, Y))])
                else:
                    o = L.outer[0]
                    yield ('least of all before', nm), z3.ForAll([q1, q2], z3.Implies(z3.And(sel(o.done, q1), SI.perm(q2, Y)), v <= COST(q1, q2, m)), patterns=[z3.MultiPattern(sel(o.done, q1), SI.perm(q2, Y))])
                    yield ('some before', nm), z3.ForAll([q1], z3.Implies(sel(o.done, q1), z3.Not(none)), patterns=[sel(o.done, q1)])
                    yield ('some', nm), z3.ForAll([q1], z3.Implies(sel(L.done, q1), z3.Not(none)), patterns=[sel(L.done, q1)])
                    yield ('least', nm), z3.ForAll([q2], z3.Implies(sel(L.done, q2), v <= COST(o.x, q2, m)), patterns=[sel(L.done, q2)])
        elif ety == PAIR and depth == 2 and ex.enc(L.seq, TSet(PAIR)) is not None:
            qa, qb = L.outer[0].x, L.outer[1].x
            S = ex.enc(L.seq, TSet(PAIR))
            yield 'zipped', S == ZS(qa, qb, m)
            for nm, acc in L.of(TInt):
                yield ('distance', nm), acc == DIST(L.done)
        elif ety == PAIR and depth == 0:
            for nm, l in L.of(TSeq(TInt)):
                yield ('sides', nm), z3.ForAll([t], SI.mem(l, t) == z3.Or(sel(IM[0](L.done), t), sel(IM[1](L.done), t)), patterns=[SI.mem(l, t), sel(IM[0](L.done), t), sel(IM[1](L.done), t)])
            for nm, l in L.of(TSeq(PAIR)):
                yield ('set', nm), SPT.toset(l) == L.done
                yield ('each once', nm), z3.ForAll([pr], SPT.cnt(l, pr) == z3.If(sel(L.done, pr), 1, 0), patterns=[SPT.cnt(l, pr), sel(L.done, pr)])
            for nm, s in L.of(TSet(PAIR)):
                yield ('same', nm), s == L.done
        elif ety == TInt and depth == 0:
            for nm, l in L.of(TSeq(ADD)):
                old = ex.enc(L.old[nm], TSeq(ADD)) if nm in L.old else None
                if old is None:
                    old = SA.empty
                yield ('number', nm), SA.len(l) == SA.len(old) + card(L.done)
                for s in 'ab':
                    for s2 in 'ab':
                        yield ('number of side ' + s + s2, nm), SIDES(l, side(s)) == SIDES(old, side(s)) + (card(L.done) if s == s2 else 0)
                    yield ('side ' + s, nm), z3.ForAll([ad], SA.cnt(l, ad) == SA.cnt(old, ad) + z3.If(z3.And(ADD.get(ad, 1) == side(s), sel(L.done, ADD.get(ad, 0))), 1, 0), patterns=[SA.cnt(l, ad)])

    def cuts(self, ex, L):
        return ()
