"""Symbolic values of the executor, and their translation to terms and back."""
from fractions import Fraction

import z3

from logic import (I, R, B, Ty, Atom, TInt, TDec, TFloat, TBool, TStr, TVal, TNone, TOpt, TTup, TSet, TSeq, TMap, NONE,
                   SeqTheory, SetTheory, axiom, safe)


class Unsupported(Exception):
    """The code is outside the supported subset."""


class V(object):
    pass


class Num(V):
    def __init__(self, t, kind='int'):
        self.t, self.kind = t, kind

    def __repr__(self):
        return '%s:%s' % (self.kind, self.t)

    def real(self):
        return z3.ToReal(self.t) if self.kind == 'int' else self.t


class BoolV(V):
    def __init__(self, t):
        self.t = t if z3.is_expr(t) else z3.BoolVal(bool(t))

    def __repr__(self):
        return 'bool:%s' % self.t


class NoneV(V):
    def __repr__(self):
        return 'None'


class StrV(V):
    """A known string."""
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return repr(self.s)


class StrT(V):
    """An unknown string."""
    def __init__(self, t):
        self.t = t


class ValV(V):
    """An arbitrary object."""
    def __init__(self, t):
        self.t = t


class TupV(V):
    def __init__(self, items, cls=None):
        self.items, self.cls = list(items), cls

    def __repr__(self):
        return 'tup%r' % (self.items,)


class SeqV(V):
    def __init__(self, t, ety, kind='tuple'):
        self.t, self.ety, self.kind = t, ety, kind

    def __repr__(self):
        return '%s:%s' % (self.kind, self.t)


class SetV(V):
    def __init__(self, t, ety, kind='frozenset'):
        self.t, self.ety, self.kind = t, ety, kind


class MapV(V):
    def __init__(self, t, k, v, default=None):
        self.t, self.k, self.v, self.default = t, k, v, default

    @property
    def ty(self):
        return TMap(self.k, self.v)


class CList(V):
    """A list whose elements are known one by one."""
    def __init__(self, items):
        self.items = list(items)


class Rec(V):
    """A dict with known string keys."""
    def __init__(self, d):
        self.d = dict(d)


class Obj(V):
    """An instance of a class of the program: attributes, and the contents of the builtin type it extends."""
    def __init__(self, cls, attrs, base=None):
        self.cls, self.attrs, self.base = cls, dict(attrs), base


class Ref(V):
    def __init__(self, rid):
        self.rid = rid

    def __repr__(self):
        return 'ref:%s' % (self.rid,)


class Place(V):
    """A mutable object stored inside another one: the root object, the path to it, and its type."""
    def __init__(self, root, path, ty, gen):
        self.root, self.path, self.ty, self.gen = root, path, ty, gen


class OptV(V):
    def __init__(self, isnone, val):
        self.isnone, self.val = isnone, val


class FnV(V):
    def __init__(self, name, node, module, frame, defaults, kwdefaults, qual):
        self.name, self.node, self.module, self.frame = name, node, module, frame
        self.defaults, self.kwdefaults, self.qual = defaults, kwdefaults, qual


class Lib(V):
    """A modelled library or builtin function or class."""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'lib:' + self.name


class Opaque(V):
    """A function given by its model: call(ex, args, kwargs) -> value."""
    def __init__(self, name, call, term=None):
        self.name, self.call, self.term = name, call, term


class BoundM(V):
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class ClsV(V):
    def __init__(self, name, bases, attrs, qual):
        self.name, self.bases, self.attrs, self.qual = name, bases, attrs, qual


class NTCls(V):
    """A namedtuple class."""
    def __init__(self, name, fields):
        self.name, self.fields = name, fields


class ModV(V):
    def __init__(self, name):
        self.name = name


class It(V):
    """An iterable that is not a plain container: kind and parameters."""
    def __init__(self, kind, *a):
        self.kind, self.a = kind, a


class Poison(V):
    """A value the executor lost track of; using it is unsupported."""
    def __init__(self, why):
        self.why = why


NONEV = NoneV()

# ------------------------------------------------------------------------------------------------ string literals
LIT = z3.Function('strlit', I, TStr.sort())
UNLIT = z3.Function('unstrlit', TStr.sort(), I)
_i = z3.Int('i')
axiom('str.lit', [_i], UNLIT(LIT(_i)) == _i, [LIT(_i)], symbols={'strlit'})
_lits = {}


def lit(s):
    if s not in _lits:
        _lits[s] = len(_lits)
    return LIT(z3.IntVal(_lits[s]))


# opaque objects: injections into Val
def inj(ty):
    f = z3.Function('val_' + safe(ty.key()), ty.sort(), TVal.sort())
    g = z3.Function('unval_' + safe(ty.key()), TVal.sort(), ty.sort())
    k = 'inj.' + ty.key()
    if k not in _lits:
        _lits[k] = -1
        x = z3.Const('x', ty.sort())
        axiom(k, [x], g(f(x)) == x, [f(x)])
    return f, g


class TUnk(Ty):
    """Element type of a container created empty whose elements are not known yet."""
    def __init__(self, site):
        self.site = site

    def key(self):
        return 'Unk'

    def sort(self):
        return _unk


_unk = z3.DeclareSort('Unk')


def frac(x):
    f = Fraction(str(x))
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator))


def join_ty(a, b):
    """The least type covering both, or None."""
    if a is None or b is None:
        return None
    if a == b:
        if isinstance(a, TSeq) and a.kind != b.kind:
            return TSeq(a.t, 'mixed')
        if isinstance(a, TTup) and a.name is None:
            return b if b.name else a
        return a
    if isinstance(a, TUnk):
        return b
    if isinstance(b, TUnk):
        return a
    num = [TInt, TDec]
    if a in num and b in num:
        return TDec
    if {a.key(), b.key()} <= {'Int', 'Dec', 'Float'}:
        return None
    if a == TNone:
        return b if isinstance(b, TOpt) else TOpt(b)
    if b == TNone:
        return a if isinstance(a, TOpt) else TOpt(a)
    if isinstance(a, TOpt) or isinstance(b, TOpt):
        j = join_ty(a.t if isinstance(a, TOpt) else a, b.t if isinstance(b, TOpt) else b)
        return TOpt(j) if j is not None and not isinstance(j, TOpt) else j
    if isinstance(a, TTup) and isinstance(b, TTup) and len(a.ts) == len(b.ts):
        js = [join_ty(x, y) for x, y in zip(a.ts, b.ts)]
        if any(j is None for j in js):
            return None
        return TTup(*js, name=a.name or b.name, fields=a.fields or b.fields)
    if isinstance(a, TSeq) and isinstance(b, TSeq):
        j = join_ty(a.t, b.t)
        return TSeq(j, a.kind if a.kind == b.kind else 'mixed') if j is not None else None
    if isinstance(a, TSet) and isinstance(b, TSet):
        j = join_ty(a.t, b.t)
        return TSet(j, a.kind) if j is not None else None
    if isinstance(a, TMap) and isinstance(b, TMap):
        k, v = join_ty(a.k, b.k), join_ty(a.v, b.v)
        return TMap(k, v) if k is not None and v is not None else None
    if isinstance(a, TSeq) and isinstance(a.t, TUnk) and isinstance(b, TSet):
        return TSet(b.t, 'mixed')
    if isinstance(b, TSeq) and isinstance(b.t, TUnk) and isinstance(a, TSet):
        return TSet(a.t, 'mixed')
    return None


def has_unk(t):
    if isinstance(t, TUnk):
        return True
    if isinstance(t, (TSeq, TSet, TOpt)):
        return has_unk(t.t)
    if isinstance(t, TTup):
        return any(has_unk(x) for x in t.ts)
    if isinstance(t, TMap):
        return has_unk(t.k) or has_unk(t.v)
    return False


def mutable(t):
    if isinstance(t, TSeq):
        return t.kind == 'list' or mutable(t.t)
    if isinstance(t, TSet):
        return t.kind == 'set'
    if isinstance(t, TMap):
        return True
    if isinstance(t, TTup):
        return any(mutable(x) for x in t.ts)
    if isinstance(t, TOpt):
        return mutable(t.t)
    return False
