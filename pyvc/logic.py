"""Types of Python values under verification, their z3 sorts, the theory of finite sequences, sets and maps used in
obligations (axioms with triggers), recursive specification functions (unfolded at the ground terms of a query), and
the discharge of queries."""
import os
import subprocess
import tempfile
import time

import z3

I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()


class Ty(object):
    def __eq__(self, o):
        return isinstance(o, Ty) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return self.key()


class Atom(Ty):
    def __init__(self, name, sort):
        self.name, self._sort = name, sort

    def key(self):
        return self.name

    def sort(self):
        return self._sort


TInt = Atom('Int', I)
TDec = Atom('Dec', R)        # Decimal, or int-or-Decimal
TFloat = Atom('Float', R)
TBool = Atom('Bool', B)
TStr = Atom('Str', z3.DeclareSort('Str'))
TVal = Atom('Val', z3.DeclareSort('Val'))    # any Python object, opaque
TNone = Atom('NoneT', None)
_unit = z3.Datatype('NoneSort')
_unit.declare('none')
_unit = _unit.create()
TNone._sort = _unit
NONE = _unit.none


def safe(name):
    return name.replace('(', '_').replace(')', '_').replace(',', '_').replace(' ', '')


_cache = {}


class TOpt(Ty):
    def __init__(self, t):
        self.t = t

    def key(self):
        return 'Opt(%s)' % self.t.key()

    def dt(self):
        k = self.key()
        if k not in _cache:
            d = z3.Datatype(safe(k))
            d.declare(safe('none_' + self.t.key()))
            d.declare(safe('some_' + self.t.key()), (safe('get_' + self.t.key()), self.t.sort()))
            _cache[k] = d.create()
        return _cache[k]

    def sort(self):
        return self.dt()

    def none(self):
        return self.dt().constructor(0)()

    def some(self, x):
        return self.dt().constructor(1)(x)

    def is_none(self, x):
        return self.dt().recognizer(0)(x)

    def get(self, x):
        return self.dt().accessor(1, 0)(x)


class TTup(Ty):
    def __init__(self, *ts, **kw):
        self.ts = tuple(ts)
        self.name = kw.get('name')          # namedtuple class, ignored for equality
        self.fields = kw.get('fields')

    def key(self):
        return 'Tup(%s)' % ','.join(t.key() for t in self.ts)

    def dt(self):
        k = self.key()
        if k not in _cache:
            d = z3.Datatype(safe(k))
            d.declare(safe('mk_' + k), *[(safe('f%d_%s' % (i, k)), t.sort()) for i, t in enumerate(self.ts)])
            _cache[k] = d.create()
        return _cache[k]

    def sort(self):
        return self.dt()

    def mk(self, *xs):
        return self.dt().constructor(0)(*xs)

    def get(self, x, i):
        return self.dt().accessor(0, i)(x)


class TSet(Ty):
    def __init__(self, t, kind='frozenset'):
        self.t, self.kind = t, kind

    def key(self):
        return 'Set(%s)' % self.t.key()

    def sort(self):
        return z3.ArraySort(self.t.sort(), B)


class TSeq(Ty):
    def __init__(self, t, kind='tuple'):
        self.t, self.kind = t, kind

    def key(self):
        return 'Seq(%s)' % self.t.key()

    def sort(self):
        k = self.key()
        if k not in _cache:
            _cache[k] = z3.DeclareSort(safe(k))
        return _cache[k]


class TMap(Ty):
    """dict: domain and values; the insertion order is not modelled (any order of iteration is considered)."""
    def __init__(self, k, v):
        self.k, self.v = k, v

    def key(self):
        return 'Map(%s,%s)' % (self.k.key(), self.v.key())

    def dt(self):
        k = self.key()
        if k not in _cache:
            d = z3.Datatype(safe(k))
            d.declare(safe('mk_' + k), (safe('dom_' + k), z3.ArraySort(self.k.sort(), B)),
                      (safe('val_' + k), z3.ArraySort(self.k.sort(), self.v.sort())))
            _cache[k] = d.create()
        return _cache[k]

    def sort(self):
        return self.dt()

    def mk(self, d, v):
        return self.dt().constructor(0)(d, v)

    def dom(self, m):
        return z3.simplify(self.dt().accessor(0, 0)(m))

    def val(self, m):
        return z3.simplify(self.dt().accessor(0, 1)(m))


# ---------------------------------------------------------------------------------------------------- axioms
class Axiom(object):
    """A universally quantified fact; included in a query when all its symbols occur in it."""
    def __init__(self, name, formula, symbols, group):
        self.name, self.formula, self.symbols, self.group = name, formula, frozenset(symbols), group


AXIOMS = []
UNFOLD = {}      # name of a spec function -> function(application) -> list of formulas
_fresh = [0]


def fresh(sort, hint='x'):
    _fresh[0] += 1
    return z3.Const('%s!%d' % (hint, _fresh[0]), sort)


def axiom(name, vs, body, pats, group='prelude', symbols=None):
    f = z3.ForAll(vs, body, patterns=pats) if vs else body
    syms = set()
    if symbols is None:
        for p in pats:
            collect_syms(p, syms)
    else:
        syms = set(symbols)
    AXIOMS.append(Axiom(name, f, syms, group))


_interp = (z3.Z3_OP_UNINTERPRETED,)


def collect_syms(e, out, seen=None):
    """Names of the uninterpreted functions (of arity > 0, or named constants that are theory symbols)."""
    stack = [e]
    seen = set() if seen is None else seen
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            for k in range(x.num_patterns()):
                for c in x.pattern(k).children():
                    stack.append(c)
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and (d.arity() > 0 or d.name() in THEORY_CONSTS):
                if d.name() != 'pattern':
                    out.add(d.name())
            stack.extend(x.children())
    return out


THEORY_CONSTS = set()


# ---------------------------------------------------------------------------------------------------- sequences
class SeqTheory(object):
    def __init__(self, t):
        self.t = t
        T, S = t.sort(), TSeq(t).sort()
        n = safe(t.key())
        self.S, self.T = S, T
        F = lambda nm, *s: z3.Function('%s_%s' % (nm, n), *s)
        self.len = F('len', S, I)
        self.at = F('at', S, I, T)
        self.empty = z3.Const('empty_' + n, S)
        THEORY_CONSTS.add('empty_' + n)
        self.snoc = F('snoc', S, T, S)
        self.cat = F('cat', S, S, S)
        self.slice = F('slice', S, I, I, S)
        self.rep = F('rep', T, I, S)
        self.upd = F('upd', S, I, T, S)
        self.eq = F('seqeq', S, S, B)
        self.mem = F('mem', S, T, B)
        self.idx = F('idxof', S, T, I)
        self.cnt = F('cnt', S, T, I)
        self.enum = F('enum', TSet(t).sort(), S)        # some enumeration of a finite set
        self.toset = F('toset', S, TSet(t).sort())
        self.perm = F('isperm', S, TSet(t).sort(), B)    # duplicate-free listing of exactly a set
        self.pos = F('posof', S, T, I)
        st = SetTheory.of(t)
        s, a, b = z3.Consts('s a b', S)
        x, y = z3.Consts('x y', T)
        i, j, lo, hi = z3.Ints('i j lo hi')
        k = z3.Int('k')
        SS = z3.Const('SS', TSet(t).sort())
        ln, at = self.len, self.at
        A = lambda nm, vs, body, *pats, **kw: axiom('seq.%s' % nm, vs, body, list(pats), **kw)
        A('len_nonneg', [s], ln(s) >= 0, ln(s))
        AXIOMS.append(Axiom('seq.empty', ln(self.empty) == 0, {'empty_' + n}, 'prelude'))
        A('len0', [s], z3.Implies(ln(s) == 0, s == self.empty), ln(s), symbols={'len_' + n, 'empty_' + n})
        A('snoc_len', [s, x], ln(self.snoc(s, x)) == ln(s) + 1, self.snoc(s, x))
        A('snoc_at', [s, x, i], z3.Implies(z3.And(0 <= i, i <= ln(s)), at(self.snoc(s, x), i) == z3.If(i == ln(s), x, at(s, i))), at(self.snoc(s, x), i))
        A('snoc_last', [s, x], at(self.snoc(s, x), ln(s)) == x, self.snoc(s, x))
        A('cat_len', [a, b], ln(self.cat(a, b)) == ln(a) + ln(b), self.cat(a, b))
        A('cat_at', [a, b, i], z3.Implies(z3.And(0 <= i, i < ln(a) + ln(b)), at(self.cat(a, b), i) == z3.If(i < ln(a), at(a, i), at(b, i - ln(a)))), at(self.cat(a, b), i))
        A('cat_e1', [a], self.cat(a, self.empty) == a, self.cat(a, self.empty))
        A('cat_e2', [a], self.cat(self.empty, a) == a, self.cat(self.empty, a))
        A('slice_len', [s, lo, hi], z3.Implies(z3.And(0 <= lo, lo <= hi, hi <= ln(s)), ln(self.slice(s, lo, hi)) == hi - lo), self.slice(s, lo, hi))
        A('slice_at', [s, lo, hi, i], z3.Implies(z3.And(0 <= lo, hi <= ln(s), 0 <= i, i < hi - lo), at(self.slice(s, lo, hi), i) == at(s, lo + i)), at(self.slice(s, lo, hi), i))
        A('slice_full', [s, hi], z3.Implies(hi == ln(s), self.slice(s, 0, hi) == s), self.slice(s, 0, hi))
        A('rep_len', [x, i], ln(self.rep(x, i)) == z3.If(i > 0, i, 0), self.rep(x, i))
        A('rep_at', [x, i, j], z3.Implies(z3.And(0 <= j, j < i), at(self.rep(x, i), j) == x), at(self.rep(x, i), j))
        A('upd_len', [s, i, x], ln(self.upd(s, i, x)) == ln(s), self.upd(s, i, x))
        A('upd_at', [s, i, x, j], z3.Implies(z3.And(0 <= i, i < ln(s), 0 <= j, j < ln(s)), at(self.upd(s, i, x), j) == z3.If(i == j, x, at(s, j))), at(self.upd(s, i, x), j))
        A('eq_def', [a, b], self.eq(a, b) == z3.And(ln(a) == ln(b), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ln(a)), at(a, k) == at(b, k)), patterns=[at(a, k), at(b, k)])), self.eq(a, b))
        A('eq_ext', [a, b], z3.Implies(self.eq(a, b), a == b), self.eq(a, b))
        # membership and multiplicity
        A('mem_empty', [x], z3.Not(self.mem(self.empty, x)), self.mem(self.empty, x))
        A('mem_snoc', [s, x, y], self.mem(self.snoc(s, x), y) == z3.Or(self.mem(s, y), x == y), self.mem(self.snoc(s, x), y))
        A('mem_cat', [a, b, y], self.mem(self.cat(a, b), y) == z3.Or(self.mem(a, y), self.mem(b, y)), self.mem(self.cat(a, b), y))
        A('mem_at', [s, i], z3.Implies(z3.And(0 <= i, i < ln(s)), self.mem(s, at(s, i))), at(s, i), symbols={'mem_' + n, 'at_' + n})
        A('mem_idx', [s, x], z3.Implies(self.mem(s, x), z3.And(0 <= self.idx(s, x), self.idx(s, x) < ln(s), at(s, self.idx(s, x)) == x)), self.mem(s, x))
        A('mem_enum', [SS, x], self.mem(self.enum(SS), x) == z3.Select(SS, x), self.mem(self.enum(SS), x))
        A('cnt_empty', [x], self.cnt(self.empty, x) == 0, self.cnt(self.empty, x))
        A('cnt_nonneg', [s, x], self.cnt(s, x) >= 0, self.cnt(s, x))
        A('cnt_mem', [s, x], (self.cnt(s, x) > 0) == self.mem(s, x), self.cnt(s, x), symbols={'mem_' + n, 'cnt_' + n})
        A('cnt_snoc', [s, x, y], self.cnt(self.snoc(s, x), y) == self.cnt(s, y) + z3.If(x == y, 1, 0), self.cnt(self.snoc(s, x), y))
        A('cnt_cat', [a, b, y], self.cnt(self.cat(a, b), y) == self.cnt(a, y) + self.cnt(b, y), self.cnt(self.cat(a, b), y))
        A('cnt_enum', [SS, x], self.cnt(self.enum(SS), x) == z3.If(z3.Select(SS, x), 1, 0), self.cnt(self.enum(SS), x))
        A('enum_len', [SS], ln(self.enum(SS)) == st.card(SS), self.enum(SS))
        A('enum_perm', [SS], self.perm(self.enum(SS), SS), self.enum(SS), symbols={'enum_' + n, 'isperm_' + n})
        # the set of elements
        A('toset', [s, x], z3.Select(self.toset(s), x) == self.mem(s, x), z3.Select(self.toset(s), x), symbols={'toset_' + n})
        A('toset2', [s, x], z3.Select(self.toset(s), x) == self.mem(s, x), z3.MultiPattern(self.toset(s), self.mem(s, x)), symbols={'toset_' + n, 'mem_' + n})
        A('toset_empty', [], self.toset(self.empty) == z3.K(T, False), symbols={'toset_' + n, 'empty_' + n})
        A('toset_enum', [SS], self.toset(self.enum(SS)) == SS, self.toset(self.enum(SS)))
        A('toset_snoc', [s, x], self.toset(self.snoc(s, x)) == z3.Store(self.toset(s), x, True), self.toset(self.snoc(s, x)))
        A('toset_card', [s], st.card(self.toset(s)) <= ln(s), st.card(self.toset(s)))
        # duplicate-free listings of a set
        A('perm_len', [s, SS], z3.Implies(self.perm(s, SS), ln(s) == st.card(SS)), self.perm(s, SS))
        A('perm_at', [s, SS, i], z3.Implies(z3.And(self.perm(s, SS), 0 <= i, i < ln(s)), z3.And(z3.Select(SS, at(s, i)), self.pos(s, at(s, i)) == i)), z3.MultiPattern(self.perm(s, SS), at(s, i)))
        A('perm_pos', [s, SS, x], z3.Implies(z3.And(self.perm(s, SS), z3.Select(SS, x)), z3.And(0 <= self.pos(s, x), self.pos(s, x) < ln(s), at(s, self.pos(s, x)) == x)), z3.MultiPattern(self.perm(s, SS), z3.Select(SS, x)))
        if t in (TInt, TDec):
            self.sum = F('sum', S, T)
            A('sum_empty', [], self.sum(self.empty) == 0, symbols={'sum_' + n, 'empty_' + n})
            A('sum_snoc', [s, x], self.sum(self.snoc(s, x)) == self.sum(s) + x, self.sum(self.snoc(s, x)))
            A('sum_cat', [a, b], self.sum(self.cat(a, b)) == self.sum(a) + self.sum(b), self.sum(self.cat(a, b)))
            # prefix sums, for iterating over a sequence
            self.psum = F('psum', S, I, T)
            A('psum_full', [s], self.psum(s, ln(s)) == self.sum(s), self.sum(s), symbols={'psum_' + n, 'sum_' + n})
            UNFOLD['psum_' + n] = lambda e: rec(e, 1, 0, lambda a, k: self.psum(a[0], k) + self.at(a[0], k))
        else:
            self.sum = None

    _all = {}

    @classmethod
    def of(cls, t):
        if t not in cls._all:
            cls._all[t] = None
            cls._all[t] = cls(t)
        return cls._all[t]


def rec(e, i, base, step, lo=0):
    """One unfolding of a function recursive in argument i: F(.., n) = base for n <= lo, else step(args, n - 1)."""
    a = [e.arg(k) for k in range(e.num_args())]
    n = a[i]
    base = base(a) if callable(base) else base
    prev = z3.simplify(n - 1)
    return [z3.Implies(n <= lo, e == base), z3.Implies(n > lo, e == step(a, prev))]


class SetTheory(object):
    """Finite sets as characteristic arrays (extensional), with a cardinality."""
    def __init__(self, t):
        self.t = t
        T, S = t.sort(), TSet(t).sort()
        n = safe(t.key())
        F = lambda nm, *s: z3.Function('%s_%s' % (nm, n), *s)
        self.card = F('card', S, I)
        self.union = F('union', S, S, S)
        self.inter = F('inter', S, S, S)
        self.diff = F('diff', S, S, S)
        self.sym = F('symdiff', S, S, S)
        self.wit = F('witness', S, T)
        self.empty = z3.K(T, False)
        s, a, b = z3.Consts('s a b', S)
        x = z3.Const('x', T)
        A = lambda nm, vs, body, *pats, **kw: axiom('set.%s' % nm, vs, body, list(pats), **kw)
        sel = z3.Select
        for nm, f, body in (('union', self.union, lambda: z3.Or(sel(a, x), sel(b, x))),
                            ('inter', self.inter, lambda: z3.And(sel(a, x), sel(b, x))),
                            ('diff', self.diff, lambda: z3.And(sel(a, x), z3.Not(sel(b, x)))),
                            ('sym', self.sym, lambda: sel(a, x) != sel(b, x))):
            A(nm, [a, b, x], sel(f(a, b), x) == body(), sel(f(a, b), x), symbols={f.name()})
            if nm in ('union', 'sym'):
                A(nm + '_b', [a, b, x], sel(f(a, b), x) == body(), z3.MultiPattern(f(a, b), sel(a, x)), symbols={f.name()})
                A(nm + '_c', [a, b, x], sel(f(a, b), x) == body(), z3.MultiPattern(f(a, b), sel(b, x)), symbols={f.name()})
            else:
                A(nm + '_b', [a, b, x], sel(f(a, b), x) == body(), z3.MultiPattern(f(a, b), sel(a, x)), symbols={f.name()})
        A('card_nonneg', [s], self.card(s) >= 0, self.card(s))
        A('card0', [s], z3.Implies(self.card(s) == 0, s == self.empty), self.card(s))
        A('card_pos', [s], z3.Implies(self.card(s) > 0, sel(s, self.wit(s))), self.card(s))
        A('card_empty', [], self.card(self.empty) == 0, symbols={'card_' + n})
        A('card_add', [s, x], self.card(z3.Store(s, x, True)) == self.card(s) + z3.If(sel(s, x), 0, 1), self.card(z3.Store(s, x, True)))
        A('card_rem', [s, x], self.card(z3.Store(s, x, False)) == self.card(s) - z3.If(sel(s, x), 1, 0), self.card(z3.Store(s, x, False)))
        A('card_diff', [a, b], self.card(self.diff(a, b)) == self.card(a) - self.card(self.inter(a, b)), self.card(self.diff(a, b)))
        A('card_sym', [a, b], z3.And(self.card(self.sym(a, b)) == self.card(self.diff(a, b)) + self.card(self.diff(b, a)),
                                     self.card(self.sym(a, b)) == self.card(a) + self.card(b) - 2 * self.card(self.inter(a, b))), self.card(self.sym(a, b)))
        A('card_union', [a, b], self.card(self.union(a, b)) == self.card(a) + self.card(b) - self.card(self.inter(a, b)), self.card(self.union(a, b)))
        A('inter_comm', [a, b], self.inter(a, b) == self.inter(b, a), self.inter(a, b))
        A('card_inter', [a, b], z3.And(self.card(self.inter(a, b)) <= self.card(a), self.card(self.inter(a, b)) <= self.card(b)), self.card(self.inter(a, b)))
        if t == TInt:
            self.max = F('setmax', S, I)
            self.min = F('setmin', S, I)
            for f, cmp in ((self.max, lambda u, v: u <= v), (self.min, lambda u, v: u >= v)):
                A(f.name(), [s, x], z3.Implies(sel(s, x), cmp(x, f(s))), z3.MultiPattern(f(s), sel(s, x)))
                A(f.name() + '_in', [s], z3.Implies(s != self.empty, sel(s, f(s))), f(s))

    _all = {}

    @classmethod
    def of(cls, t):
        if t not in cls._all:
            cls._all[t] = cls(t)
        return cls._all[t]


def seqth(t):
    SetTheory.of(t)
    return SeqTheory.of(t)


def setth(t):
    return SetTheory.of(t)


# ------------------------------------------------------------------------------------------------ folds
class SetFold(object):
    """F(S, params) = sum of f(x, params) over the elements x of a finite set S; S is the first argument."""
    def __init__(self, name, t, f, params=(), result=I, zero=0):
        S = TSet(t).sort()
        self.fn = z3.Function(name, S, *(list(params) + [result]))
        self.f = f
        self.t = t
        s = z3.Const('s', S)
        x = z3.Const('x', t.sort())
        ps = [z3.Const('p%d' % k, p) for k, p in enumerate(params)]
        F = self.fn
        axiom('fold.%s.empty' % name, ps, F(z3.K(t.sort(), False), *ps) == zero, [F(z3.K(t.sort(), False), *ps)] if ps else [], symbols={name})
        axiom('fold.%s.add' % name, [s, x] + ps,
              F(z3.Store(s, x, True), *ps) == F(s, *ps) + z3.If(z3.Select(s, x), zero, f(x, *ps)), [F(z3.Store(s, x, True), *ps)])

    def __call__(self, s, *ps):
        return self.fn(s, *ps)


class ListFold(object):
    """F(l, params) = sum of f(x, params) over the elements of a finite sequence l."""
    def __init__(self, name, t, f, params=(), result=I, over=None):
        T = SeqTheory.of(t)
        self.fn = F = z3.Function(name, T.S, *(list(params) + [result]))
        self.f, self.t = f, t
        a, b = z3.Consts('a b', T.S)
        x = z3.Const('x', t.sort())
        SS = z3.Const('SS', TSet(t).sort())
        ps = [z3.Const('p%d' % k, p) for k, p in enumerate(params)]
        axiom('lfold.%s.empty' % name, ps, F(T.empty, *ps) == 0, [F(T.empty, *ps)] if ps else [], symbols={name})
        axiom('lfold.%s.snoc' % name, [a, x] + ps, F(T.snoc(a, x), *ps) == F(a, *ps) + f(x, *ps), [F(T.snoc(a, x), *ps)])
        axiom('lfold.%s.cat' % name, [a, b] + ps, F(T.cat(a, b), *ps) == F(a, *ps) + F(b, *ps), [F(T.cat(a, b), *ps)])
        # prefix sums, for iterating over a sequence
        k = z3.Int('k')
        self.pre = G = z3.Function(name + '_before', T.S, I, *(list(params) + [result]))
        axiom('lfold.%s.all' % name, [a] + ps, G(a, T.len(a), *ps) == F(a, *ps), [F(a, *ps)], symbols={name, name + '_before'})
        UNFOLD[name + '_before'] = lambda e: rec(e, 1, 0, lambda A, q: G(A[0], q, *A[2:]) + f(T.at(A[0], q), *A[2:]))
        if over is not None:      # the same sum over a set
            axiom('lfold.%s.enum' % name, [SS] + ps, F(T.enum(SS), *ps) == over(SS, *ps), [F(T.enum(SS), *ps)])

    def __call__(self, l, *ps):
        return self.fn(l, *ps)


# ------------------------------------------------------------------------------------------------ discharge
class Info(object):
    """Symbols of a formula and its ground applications of recursive specification functions."""
    __slots__ = ('f', 'syms', 'apps', 'consts')


_info = {}


def info(f):
    k = f.get_id()
    r = _info.get(k)
    if r is not None:
        return r
    r = Info()
    r.f = f
    r.syms = collect_syms(f, set())
    r.consts = None
    r.apps = []
    names = [n for n in r.syms if n in UNFOLD]
    if names:
        names = set(names)
        seen = set()
        stack = [f]
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                stack.append(x.body())
                continue
            if z3.is_app(x):
                if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names and not has_var(x):
                    r.apps.append(x)
                stack.extend(x.children())
    _info[k] = r
    return r


def has_var(x):
    stack = [x]
    seen = set()
    while stack:
        y = stack.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if z3.is_var(y):
            return True
        if z3.is_quantifier(y):
            stack.append(y.body())
        else:
            stack.extend(y.children())
    return False


def consts(f):
    """Names of the constants of the program that occur in a formula."""
    r = info(f)
    if r.consts is None:
        out = set()
        stack, seen = [f], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                stack.append(x.body())
            elif z3.is_app(x):
                if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() not in THEORY_CONSTS:
                    out.add(x.decl().name())
                stack.extend(x.children())
        r.consts = frozenset(out)
    return r.consts


def relevant(hyps, goal):
    """The hypotheses that speak only of what the goal speaks of."""
    g = consts(goal)
    return [h for h in hyps if consts(h) <= g]


_unf = {}


def unfold(e):
    k = e.get_id()
    if k not in _unf:
        _unf[k] = (e, UNFOLD[e.decl().name()](e))
    return _unf[k][1]


# division of reals; a proof may leave it uninterpreted
DIV = z3.Function('div', R, R, R)
_p, _q = z3.Reals('p q')
axiom('lib.div', [_p, _q], DIV(_p, _q) == _p / _q, [DIV(_p, _q)])


def ratio(x, y):
    """The quotient of two numbers, as the executor writes it."""
    p, q = [z3.simplify(z3.ToReal(v)) if z3.is_int(v) else v for v in (x, y)]
    return p / q if z3.is_rational_value(q) else DIV(p, q)


EXCLUDED = set()    # names of axioms that the current unit does without
LIMIT = [None]      # proofs of a lemma use only the axioms registered before it


def build(hyps, goal, rounds=2):
    """The assertions whose unsatisfiability is the obligation."""
    base = list(hyps) + [z3.Not(goal)]
    done = set()
    front = base
    for _ in range(rounds):
        new = []
        for f in front:
            for e in info(f).apps:
                if e.get_id() not in done:
                    done.add(e.get_id())
                    new += unfold(e)
        if not new:
            break
        base = base + new
        front = new
    syms = set()
    for f in base:
        syms |= info(f).syms
    chosen = []
    left = AXIOMS[:LIMIT[0]]
    if EXCLUDED:
        left = [a for a in left if a.name not in EXCLUDED]
    changed = True
    while changed:
        changed = False
        rest = []
        for a in left:
            if a.symbols <= syms:
                chosen.append(a)
                syms |= info(a.formula).syms
                changed = True
            else:
                rest.append(a)
        left = rest
    return base, chosen


STATS = dict(queries=0, time=0.0)
USED = set()        # names of lemmas that occur in some query


def check_z3(hyps, goal, timeout=5000, rounds=2, seed=0, mbqi=False):
    base, chosen = build(hyps, goal, rounds)
    s = z3.Solver()
    # bounded by the solver's own count of work, so that the outcome does not depend on the load of the machine
    s.set('rlimit', int(timeout * 1300))
    s.set('timeout', int(timeout * 5 + 2000))
    s.set('auto_config', False)
    s.set('smt.mbqi', mbqi)
    if seed:
        s.set('smt.random_seed', seed)
    for a in chosen:
        s.add(a.formula)
    for f in base:
        s.add(f)
    t = time.time()
    r = s.check()
    STATS['queries'] += 1
    STATS['time'] += time.time() - t
    if r == z3.unsat:
        USED.update(a.name for a in chosen if a.group == 'lemma')
        return 'proved', None
    return ('refuted' if r == z3.sat else 'unknown'), s


def smt2(hyps, goal, rounds=2):
    base, chosen = build(hyps, goal, rounds)
    s = z3.Solver()
    for a in chosen:
        s.add(a.formula)
    for f in base:
        s.add(f)
    return s.to_smt2(), chosen


def external(cmd, text, timeout):
    fd, path = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(text)
        try:
            p = subprocess.run(cmd + [path], capture_output=True, text=True, timeout=timeout + 5)
        except subprocess.TimeoutExpired:
            return 'unknown'
        out = p.stdout.strip().split('\n')[0] if p.stdout.strip() else ''
        return {'unsat': 'proved', 'sat': 'refuted'}.get(out, 'unknown')
    finally:
        os.unlink(path)


def subgoals(goal):
    """[(extra hypotheses, goal)]: conjunctions split, universal quantifiers instantiated with fresh constants."""
    if z3.is_and(goal):
        return [x for c in goal.children() for x in subgoals(c)]
    if z3.is_implies(goal):
        return [([goal.arg(0)] + h, g) for h, g in subgoals(goal.arg(1))]
    if z3.is_quantifier(goal) and goal.is_forall():
        cs = [fresh(goal.var_sort(k), 'sk_' + goal.var_name(k)) for k in range(goal.num_vars())]
        return subgoals(z3.substitute_vars(goal.body(), *reversed(cs)))
    return [([], goal)]


def discharge(hyps, goal, timeout=10000, quick=False):
    """Returns (status, backend, seconds).  Tries z3 (trigger-based), then other seeds, then cvc5."""
    t = time.time()
    if z3.is_true(z3.simplify(goal)):
        return 'proved', 'simplifier', time.time() - t
    bes = set()
    for h, g in subgoals(goal):
        if z3.is_true(z3.simplify(g)):
            continue
        st, be = discharge1(list(hyps) + h, g, timeout, quick)
        if st != 'proved':
            return st, be, time.time() - t
        bes.add(be)
    return 'proved', '+'.join(sorted(bes)) or 'simplifier', time.time() - t


def discharge1(hyps, goal, timeout, quick):
    st = 'unknown'
    few = relevant(hyps, goal)
    if len(few) < len(hyps):
        st, _ = check_z3(few, goal, min(1000, timeout * .3), 2)
        if st == 'proved':
            return st, 'z3'
    for k, (to, rounds, seed) in enumerate(((timeout * .3, 2, 0), (timeout * .5, 2, 11) if quick else (timeout, 3, 7))):
        st, _ = check_z3(hyps, goal, to, rounds, seed)
        if st == 'proved':
            return st, 'z3'
        if quick and k:
            return st, 'z3'
    text, chosen = smt2(hyps, goal, 3)
    r = external(['cvc5', '--tlimit=%d' % timeout, '-q'], '(set-logic ALL)\n' + text, timeout / 1000.0)
    if r == 'proved':
        USED.update(a.name for a in chosen if a.group == 'lemma')
        return r, 'cvc5'
    if EXCLUDED:
        # once more with every axiom
        global_excluded = set(EXCLUDED)
        EXCLUDED.clear()
        try:
            return discharge1(hyps, goal, timeout, quick)
        finally:
            EXCLUDED.update(global_excluded)
    return st, 'z3+cvc5'
