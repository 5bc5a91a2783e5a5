"""Boundary edit distance (C05, C06, C07, C12)."""
from spec_common import *
from c01_format import BS, SetI

SI = SeqTheory.of(TInt)
EMP = SetI.empty
SetS = TSet(TInt).sort()
COVS = z3.ArraySort(I, SetS)                    # position -> types that belong to taken transpositions
a, b = z3.Consts('a b', BS.S)
C, C2 = z3.Consts('C C2', COVS)
i, j, p, q, s, d, n, t, k = z3.Ints('i j p q s d n t k')
X_, Y_, Z_ = z3.Consts('X Y Z', SetS)
sel = z3.Select
BSTRS = TSeq(TSet(TInt, 'mixed'))               # boundary strings as given by the caller: sets or frozensets
TRANS = TTup(TInt, TInt, TInt, name='Transposition', fields=['start', 'end', 'type'])
DIFF = TTup(TSet(TInt, 'set'), TSet(TInt, 'set'), TSet(TInt, 'set'), name='Difference', fields=['sim', 'a_b', 'b_a'])
OS = TMap(TInt, DIFF)
ST = SeqTheory.of(TRANS)
OT = TMap(TInt, TSeq(TRANS, 'list'))


# ------------------------------------------------------------------------------------------------ the greedy rule
def AO(a, b, p):
    """Types only in the first string at p."""
    return SetI.diff(BS.at(a, p), BS.at(b, p))


def BO(a, b, p):
    return SetI.diff(BS.at(b, p), BS.at(a, p))


def XS(a, b, C, p):
    """Types left only in the first string at p, given what transpositions explain."""
    return SetI.diff(AO(a, b, p), sel(C, p))


def YS(a, b, C, p):
    return SetI.diff(BO(a, b, p), sel(C, p))


BLK = z3.Function('blocked', BS.S, BS.S, COVS, I, I, B)


def blocked(a, b, C, i, j):
    """Both positions still hold an unexplained boundary of each string."""
    return z3.And(XS(a, b, C, i) != EMP, YS(a, b, C, i) != EMP, XS(a, b, C, j) != EMP, YS(a, b, C, j) != EMP)


def cand(a, b, i, j, d):
    ina, inb = lambda p: sel(BS.at(a, p), d), lambda p: sel(BS.at(b, p), d)
    only_a = lambda p: z3.And(ina(p), z3.Not(inb(p)))
    only_b = lambda p: z3.And(inb(p), z3.Not(ina(p)))
    return z3.Or(z3.And(only_a(i), only_b(j)), z3.And(only_b(i), only_a(j)))


# the types taken at (i, j) when C is already explained
NEWS = z3.Function('taken_at', BS.S, BS.S, COVS, I, I, SetS)
axiom('def.taken_at', [a, b, C, i, j, d], sel(NEWS(a, b, C, i, j), d) == z3.And(z3.Not(BLK(a, b, C, i, j)), cand(a, b, i, j, d), z3.Not(sel(sel(C, i), d)), z3.Not(sel(sel(C, j), d))),
      [sel(NEWS(a, b, C, i, j), d)], symbols={'taken_at'})


# the definition of blocked, for the proofs that ask for it: those that mention consider()
CONSIDER = z3.Function('consider', BS.S, BS.S, COVS, I, I, OS.sort(), B)
os_ = z3.Const('os', OS.sort())
axiom('def.blocked', [a, b, C, i, j, os_], z3.And(CONSIDER(a, b, C, i, j, os_), BLK(a, b, C, i, j) == blocked(a, b, C, i, j)), [CONSIDER(a, b, C, i, j, os_)])
# C with the types S added at i and j
CS = z3.Function('explained_also', COVS, I, I, SetS, COVS)
axiom('def.explained_also', [C, i, j, X_, p, t], sel(sel(CS(C, i, j, X_), p), t) == z3.Or(sel(sel(C, p), t), z3.And(z3.Or(p == i, p == j), sel(X_, t))), [sel(sel(CS(C, i, j, X_), p), t)], symbols={'explained_also'})
Lemma('explained_also_at', [C, i, j, X_, p], [], sel(CS(C, i, j, X_), p) == z3.If(z3.Or(p == i, p == j), SetI.union(sel(C, p), X_), sel(C, p)), [], auto=False)
Lemma('explained_also_empty', [C, i, j], [], CS(C, i, j, EMP) == C, [CS(C, i, j, EMP)])


NOCOV = z3.K(I, EMP)
# starts 0 .. n-1 at span s
ROW = z3.Function('explained_by_row', BS.S, BS.S, COVS, I, I, COVS)
UNFOLD['explained_by_row'] = lambda e: rec(e, 4, lambda A: A[2], lambda A, q: CS(ROW(A[0], A[1], A[2], A[3], q), q, q + A[3], NEWS(A[0], A[1], ROW(A[0], A[1], A[2], A[3], q), q, q + A[3])))
# spans 1 .. s
ALL = z3.Function('explained', BS.S, BS.S, I, COVS)
UNFOLD['explained'] = lambda e: rec(e, 2, NOCOV, lambda A, q: ROW(A[0], A[1], ALL(A[0], A[1], q), q + 1, BS.len(A[0]) - (q + 1)))


def CB(a, b, s, i):
    """What is explained when span s, start i is looked at."""
    return ROW(a, b, ALL(a, b, s - 1), s, i)


# a transposition of the pair, whatever the greatest span
TAKEN = z3.Function('taken', BS.S, BS.S, I, I, I, B)
axiom('def.taken', [a, b, i, j, d], TAKEN(a, b, i, j, d) == z3.And(0 <= i, i < j, j < BS.len(a), sel(NEWS(a, b, CB(a, b, j - i, i), i, j), d)), [TAKEN(a, b, i, j, d)])


# ------------------------------------------------------------------------------------------------ the data structures
# types of the transpositions in a list
TYPES = z3.Function('types_of', ST.S, SetS)
TW = z3.Function('types_of_w', ST.S, I, TRANS.sort())
l = z3.Const('l', ST.S)
tr = z3.Const('tr', TRANS.sort())
axiom('def.types_of_mem', [l, tr], z3.Implies(ST.mem(l, tr), sel(TYPES(l), TRANS.get(tr, 2))), [z3.MultiPattern(TYPES(l), ST.mem(l, tr))])
axiom('def.types_of_wit', [l, d], z3.Implies(sel(TYPES(l), d), z3.And(ST.mem(l, TW(l, d)), TRANS.get(TW(l, d), 2) == d)), [sel(TYPES(l), d)], symbols={'types_of'})
Lemma('types_of_empty', [d], [], z3.Not(sel(TYPES(ST.empty), d)), [sel(TYPES(ST.empty), d)])
Lemma('types_of_snoc', [l, tr, d], [], sel(TYPES(ST.snoc(l, tr)), d) == z3.Or(sel(TYPES(l), d), TRANS.get(tr, 2) == d), [sel(TYPES(ST.snoc(l, tr)), d)],
      extra=attend(TYPES(l), ST.mem(l, TW(ST.snoc(l, tr), d)), ST.mem(ST.snoc(l, tr), tr), ST.mem(ST.snoc(l, tr), TW(l, d))))


def covers(ot, C):
    """The lists of taken transpositions by position hold exactly the types in C."""
    return z3.ForAll([p, t], sel(sel(C, p), t) == z3.And(sel(OT.dom(ot), p), sel(TYPES(sel(OT.val(ot), p)), t)), patterns=[sel(sel(C, p), t), sel(TYPES(sel(OT.val(ot), p)), t)])


def differs(a, b, p):
    return z3.And(0 <= p, p < BS.len(a), BS.at(a, p) != BS.at(b, p))


def options_dom(os, a, b):
    return z3.ForAll([p], sel(OS.dom(os), p) == differs(a, b, p), patterns=[sel(OS.dom(os), p)])


def option_is(o, a, b, C, p, t):
    """One type in the three sets of an option."""
    ina, inb, c = sel(BS.at(a, p), t), sel(BS.at(b, p), t), z3.Not(sel(sel(C, p), t))
    return z3.And(sel(DIFF.get(o, 0), t) == z3.And(ina != inb, c), sel(DIFF.get(o, 1), t) == z3.And(ina, z3.Not(inb), c), sel(DIFF.get(o, 2), t) == z3.And(inb, z3.Not(ina), c))


def options_are(os, a, b, C):
    o = sel(OS.val(os), p)
    return z3.ForAll([p, t], z3.Implies(differs(a, b, p), option_is(o, a, b, C, p, t)), patterns=[sel(DIFF.get(o, x), t) for x in range(3)] + [sel(BS.at(a, p), t), sel(BS.at(b, p), t)])


@register
class OptionalSetEdits(Case):
    fn = 'segeval.similarity.distance.multipleboundary.__optional_set_edits__'
    params = dict(boundary_string_a=PTy(BSTRS), boundary_string_b=PTy(BSTRS))

    def requires(self, A):
        return [BS.len(A.boundary_string_a) == BS.len(A.boundary_string_b)]

    def result(self, ex, A):
        return ex.new(ex.sym(OS, 'options'))

    def ensures(self, ex, A, r):
        x, y = A.boundary_string_a, A.boundary_string_b
        os = ex.enc(r, OS)
        if os is None:
            return [('options by position', z3.BoolVal(False))]
        return [('an option where the strings differ', options_dom(os, x, y)), ('options are the differences', options_are(os, x, y, NOCOV))]

    def candidates(self, ex, L):
        x, y = self.a.boundary_string_a, self.a.boundary_string_b
        for nm, os in L.of(OS):
            yield ('dom', nm), z3.ForAll([p], sel(OS.dom(os), p) == z3.And(differs(x, y, p), p < L.k), patterns=[sel(OS.dom(os), p)])
            o = sel(OS.val(os), p)
            yield ('val', nm), z3.ForAll([p, t], z3.Implies(z3.And(differs(x, y, p), p < L.k), option_is(o, x, y, NOCOV, p, t)), patterns=[sel(DIFF.get(o, z), t) for z in range(3)])


MB = 'segeval.similarity.distance.multipleboundary.'


def minus(x, y):
    return z3.If(x > y, x - y, y - x)


@register
class CountEdits(Case):
    """Numbers of additions and substitutions of an option."""
    fn = MB + '__additions_substitutions__'
    params = dict(d=PTy(TSet(TInt, 'set')), a=PTy(TSet(TInt, 'set')), b=PTy(TSet(TInt, 'set')))

    def requires(self, A):
        return [disjoint_union(A.d, A.a, A.b)]

    def facts(self, ex, A):
        return union_facts(A.d, A.a, A.b)

    def result(self, ex, A):
        return TupV([ex.sym(TInt, 'additions'), ex.sym(TFloat, 'substitutions')])

    def ensures(self, ex, A, r):
        ca, cb = SetI.card(A.a), SetI.card(A.b)
        if not isinstance(r, TupV) or len(r.items) != 2:
            return [('a pair', z3.BoolVal(False))]
        s_ = r.items[1].real() if isinstance(r.items[1], Num) else None
        if s_ is None:
            return [('a pair of numbers', z3.BoolVal(False))]
        return [('what the larger set has more', ex.enc(r.items[0], TInt) == minus(ca, cb)), ('as many as the smaller set has', s_ == z3.ToReal(z3.If(ca < cb, ca, cb)))]


def disjoint_union(d_, x, y):
    return z3.ForAll([t], z3.And(sel(d_, t) == z3.Or(sel(x, t), sel(y, t)), z3.Not(z3.And(sel(x, t), sel(y, t)))), patterns=[sel(d_, t), sel(x, t), sel(y, t)])


Lemma('card_disjoint_union', [Z_, X_, Y_], [disjoint_union(Z_, X_, Y_)], SetI.card(Z_) == SetI.card(X_) + SetI.card(Y_), [], auto=False,
      extra=attend(SetI.card(SetI.union(X_, Y_)), SetI.card(SetI.inter(X_, Y_)), z3.If(SetI.union(X_, Y_) == Z_, 1, 0), z3.If(SetI.inter(X_, Y_) == EMP, 1, 0)))


def union_facts(d_, x, y):
    return [UNITS['card_disjoint_union'].inst(d_, x, y)]


@register
class Overlaps(Case):
    fn = MB + '__overlaps_existing__'
    params = dict(i=PTy(TInt), j=PTy(TInt), d=PTy(TInt), options_transp=PTy(OT))

    def result(self, ex, A):
        return OptV(ex.const(B, 'overlaps'), BoolV(True))

    def ensures(self, ex, A, r):
        held = lambda p_: z3.And(sel(OT.dom(A.options_transp), p_), sel(TYPES(sel(OT.val(A.options_transp), p_)), A.d))
        return [('the type is part of a transposition at one of the positions', ex.truth(r) == z3.Or(held(A.i), held(A.j)))]

    def facts(self, ex, A):
        return attend(*[TYPES(sel(OT.val(A.options_transp), x)) for x in (A.i, A.j)])

    def candidates(self, ex, L):
        if isinstance(L.seq, SeqV) and L.seq.ety == TRANS:
            q_ = ST.at(L.seq.t, t)
            yield 'none so far', z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < L.k), TRANS.get(q_, 2) != self.a.d), patterns=[q_])


@register
class HasSubstitutions(Case):
    fn = MB + '__has_substitutions__'
    params = dict(i=PTy(TInt), j=PTy(TInt), d=PTy(TInt), options_set=PTy(OS))

    def option(self, A, p_):
        o = sel(OS.val(A.options_set), p_)
        return [DIFF.get(o, z) for z in range(3)]

    def requires(self, A):
        return [z3.Implies(sel(OS.dom(A.options_set), p_), disjoint_union(*self.option(A, p_))) for p_ in (A.i, A.j)]

    def result(self, ex, A):
        return ex.sym(TBool, 'substitutions')

    def ensures(self, ex, A, r):
        def ok(p_):
            o = self.option(A, p_)
            return z3.And(sel(OS.dom(A.options_set), p_), sel(o[0], A.d), o[1] != EMP, o[2] != EMP)
        return [('both positions differ by the type and have a possible substitution', ex.truth(r) == z3.And(ok(A.i), ok(A.j)))]


# ------------------------------------------------------------------------------------------------ transpositions
Lemma('inter_store', [X_, Y_, t], [], SetI.inter(z3.Store(X_, t, True), Y_) == z3.If(sel(Y_, t), z3.Store(SetI.inter(X_, Y_), t, True), SetI.inter(X_, Y_)), [SetI.inter(z3.Store(X_, t, True), Y_)])
Lemma('inter_empty', [Y_], [], SetI.inter(EMP, Y_) == EMP, [SetI.inter(EMP, Y_)])
Lemma('inter_subset', [X_, Y_], [z3.ForAll([t], z3.Implies(sel(Y_, t), sel(X_, t)))], SetI.inter(X_, Y_) == Y_, [], auto=False)
Lemma('union_empty', [X_], [], SetI.union(X_, EMP) == X_, [SetI.union(X_, EMP)])
# how many are taken
ROWN = z3.Function('number_in_row', BS.S, BS.S, COVS, I, I, I)
UNFOLD['number_in_row'] = lambda e: rec(e, 4, 0, lambda A, q: ROWN(A[0], A[1], A[2], A[3], q) + SetI.card(NEWS(A[0], A[1], ROW(A[0], A[1], A[2], A[3], q), q, q + A[3])))
ALLN = z3.Function('number_taken', BS.S, BS.S, I, I)
UNFOLD['number_taken'] = lambda e: rec(e, 2, 0, lambda A, q: ALLN(A[0], A[1], q) + ROWN(A[0], A[1], ALL(A[0], A[1], q), q + 1, BS.len(A[0]) - (q + 1)))


# the sum of their spans
SPANS = ListFold('spans', TRANS, lambda x: minus(TRANS.get(x, 0), TRANS.get(x, 1)))
EACH = SetFold('span_of_each', TInt, lambda x, s_: s_, [I])
ROWW = z3.Function('spans_in_row', BS.S, BS.S, COVS, I, I, I)
UNFOLD['spans_in_row'] = lambda e: rec(e, 4, 0, lambda A, q: ROWW(A[0], A[1], A[2], A[3], q) + EACH(NEWS(A[0], A[1], ROW(A[0], A[1], A[2], A[3], q), q, q + A[3]), A[3]))
ALLW = z3.Function('spans_taken', BS.S, BS.S, I, I)
UNFOLD['spans_taken'] = lambda e: rec(e, 2, 0, lambda A, q: ALLW(A[0], A[1], q) + ROWW(A[0], A[1], ALL(A[0], A[1], q), q + 1, BS.len(A[0]) - (q + 1)))


def spans():
    """range(2, n): spans 1 .. n - 2 in the order that sorted() gives."""
    def make(ex, nm, A):
        hi = ex.const(I, 'spans')
        A[nm] = hi
        return It('range', z3.IntVal(2), hi + 2)

    def match(ex, nm, v, A):
        if not isinstance(v, It) or v.kind != 'range' or not ex.known(v.a[0] == 2):
            return False
        A[nm] = z3.simplify(v.a[1] - 2)
        return True
    return PCustom(make, match)


def counts(l, cond):
    """Each transposition that cond holds for once, and nothing else."""
    i_, j_, d_ = [TRANS.get(tr, z) for z in range(3)]
    return z3.ForAll([tr], ST.cnt(l, tr) == z3.If(cond(i_, j_, d_), 1, 0), patterns=[ST.cnt(l, tr)])


@register
class Transpositions(Case):
    fn = MB + '__transpositions__'
    params = dict(boundary_string_a=PTy(BSTRS), boundary_string_b=PTy(BSTRS), n=spans(), options_set=PTy(OS))
    modifies = ('options_set',)
    houdini_ms = 4000

    def ab(self, A):
        return A.boundary_string_a, A.boundary_string_b

    def requires(self, A):
        x, y = self.ab(A)
        return [BS.len(x) == BS.len(y), options_dom(A.options_set, x, y), options_are(A.options_set, x, y, NOCOV)]

    def result(self, ex, A):
        return ex.new(ex.sym(TSeq(TRANS, 'list'), 'transpositions'))

    def ensures(self, ex, A, r):
        x, y = self.ab(A)
        l_ = ex.enc(r, TSeq(TRANS))
        os = ex.enc(A.val['options_set'], OS)
        if l_ is None or os is None:
            return [('a list of transpositions', z3.BoolVal(False))]
        return [('the transpositions of the greedy rule, each once', counts(l_, lambda i, j, d: z3.And(TAKEN(x, y, i, j, d), j - i <= A.n))),
                ('their number', ST.len(l_) == ALLN(x, y, A.n)), ('their spans', SPANS(l_) == ALLW(x, y, A.n)), ('options stay at the same positions', options_dom(os, x, y)),
                ('the options lose what the transpositions explain', options_are(os, x, y, ALL(x, y, A.n)))]

    def cuts(self, ex, L):
        x, y = self.ab(self.a)
        if len(L.outer) == 2 and L.kind == 'set':
            k_, i_ = L.outer[0].k, L.outer[1].k
            new = NEWS(x, y, ROW(x, y, ALL(x, y, k_), k_ + 1, i_), i_, i_ + k_ + 1)
            yield 'taken', sel(new, L.it.x)
            yield 'not taken', z3.Not(sel(new, L.it.x))

    def candidates(self, ex, L):
        x, y = self.ab(self.a)
        if len(L.outer) == 0 and L.kind == 'idx':
            cov, num, wide = ALL(x, y, L.k), ALLN(x, y, L.k), ALLW(x, y, L.k)
            cond = lambda i, j, d: z3.And(TAKEN(x, y, i, j, d), j - i <= L.k)
        elif len(L.outer) == 1 and L.kind == 'idx':
            k_ = L.outer[0].k
            cov, num, wide = ROW(x, y, ALL(x, y, k_), k_ + 1, L.k), ALLN(x, y, k_) + ROWN(x, y, ALL(x, y, k_), k_ + 1, L.k), ALLW(x, y, k_) + ROWW(x, y, ALL(x, y, k_), k_ + 1, L.k)
            cond = lambda i, j, d: z3.And(TAKEN(x, y, i, j, d), z3.Or(j - i <= k_, z3.And(j - i == k_ + 1, i < L.k)))
        elif len(L.outer) == 2 and L.kind == 'set':
            k_, i_ = L.outer[0].k, L.outer[1].k
            row = ROW(x, y, ALL(x, y, k_), k_ + 1, i_)
            new = NEWS(x, y, row, i_, i_ + k_ + 1)
            part = SetI.inter(L.done, new)
            yield 'all are among the candidates', SetI.inter(L.seq.t, new) == new
            cov, num = CS(row, i_, i_ + k_ + 1, part), ALLN(x, y, k_) + ROWN(x, y, ALL(x, y, k_), k_ + 1, i_) + SetI.card(part)
            wide = ALLW(x, y, k_) + ROWW(x, y, ALL(x, y, k_), k_ + 1, i_) + EACH(part, k_ + 1)
            cond = lambda i, j, d: z3.Or(z3.And(TAKEN(x, y, i, j, d), z3.Or(j - i <= k_, z3.And(j - i == k_ + 1, i < i_))), z3.And(j == i_ + k_ + 1, i == i_, sel(part, d)))
            yield 'taken here', z3.ForAll([d], TAKEN(x, y, i_, i_ + k_ + 1, d) == sel(new, d), patterns=[sel(new, d), TAKEN(x, y, i_, i_ + k_ + 1, d)])
        else:
            return
        for nm, l_ in L.of(TSeq(TRANS)):
            yield ('number', nm), ST.len(l_) == num
            yield ('spans', nm), SPANS(l_) == wide
            yield ('list', nm), counts(l_, cond)
        for nm, ot in L.of(OT):
            yield ('covers', nm), covers(ot, cov)
        for nm, os in L.of(OS):
            yield ('dom', nm), options_dom(os, x, y)
            if len(L.outer) == 2:
                yield ('consider', nm), CONSIDER(x, y, row, i_, i_ + k_ + 1, os)
            yield ('options', nm), options_are(os, x, y, cov)
