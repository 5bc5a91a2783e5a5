"""Models of the builtins and library functions the package uses.  These are trusted."""
import ast

import z3

from execu import *  # noqa
from execu import AND
from values import *  # noqa
from values import NONEV, lit, inj, join_ty, has_unk, mutable, TUnk, frac
from logic import *  # noqa

BUILTINS = ('len sum max min abs range zip enumerate sorted set frozenset tuple list dict int str round isinstance hasattr '
            'float bool any all map reversed print repr getattr type open iter filter next id hash divmod pow object').split()
EXCEPTIONS = ('Exception BaseException KeyError IndexError ValueError TypeError AttributeError AssertionError ZeroDivisionError '
              'LookupError ArithmeticError StopIteration RuntimeError NotImplementedError IOError OSError').split()

# the builtin round, applied to a number: nearest integer, ties to even
PYROUND = z3.Function('pyround', R, I)
_x = z3.Real('x')
_r = PYROUND(_x)
axiom('lib.round', [_x], z3.And(_x - z3.RealVal('1/2') <= z3.ToReal(_r), z3.ToReal(_r) <= _x + z3.RealVal('1/2'),
                                z3.Implies(z3.Or(_x - z3.RealVal('1/2') == z3.ToReal(_r), z3.ToReal(_r) == _x + z3.RealVal('1/2')), _r % 2 == 0)), [_r])
# Decimal.sqrt
SQRT = z3.Function('decsqrt', R, R)
axiom('lib.sqrt', [_x], z3.Implies(_x >= 0, z3.And(SQRT(_x) >= 0, SQRT(_x) * SQRT(_x) == _x)), [SQRT(_x)])
TOSTR = z3.Function('tostr', TVal.sort(), TStr.sort())
_s = z3.Const('s', TStr.sort())
axiom('lib.str_of_str', [_s], TOSTR(inj(TStr)[0](_s)) == _s, [TOSTR(inj(TStr)[0](_s))])
STRJOIN = z3.Function('strjoin', TStr.sort(), TSeq(TStr).sort(), TStr.sort())

PURE = {'len', 'isinstance', 'hasattr', 'abs', 'str', 'repr', 'print'}


class Library(object):
    def builtin(self, name):
        if name in BUILTINS:
            return Lib(name)
        if name in EXCEPTIONS:
            return ClsV(name, [], {}, name)
        if name == 'True':
            return BoolV(True)
        return None

    def lib_name(self, mod, name):
        full = mod + '.' + name
        if full in ('itertools.groupby', 'itertools.permutations', 'itertools.combinations', 'collections.namedtuple',
                    'collections.defaultdict', 'decimal.Decimal', 'itertools.chain', 'itertools.product'):
            return Lib(full)
        if mod == 'types':
            return Lib(full)
        return Poison('library name ' + full)

    def type_name(self, v):
        d = self.deref(v)
        if isinstance(d, OptV):
            d = self.force(d)
        if isinstance(d, Num):
            return {'int': 'int', 'dec': 'decimal.Decimal', 'float': 'float'}[d.kind]
        return {BoolV: 'bool', NoneV: 'NoneType', StrV: 'str', StrT: 'str', TupV: 'tuple', CList: 'list', SetV: getattr(d, 'kind', ''),
                SeqV: getattr(d, 'kind', ''), MapV: 'dict', Rec: 'dict', FnV: 'function', Lib: 'type'}.get(type(d))

    # ------------------------------------------------------------------------------------------- library calls
    def call_lib(self, name, args, kwargs):
        m = getattr(self, 'lib_' + name.replace('.', '_'), None)
        if m is None:
            raise Unsupported('library function ' + name)
        return m(args, kwargs)

    def site(self, kind):
        return ((kind,) + self.line_col, self.chain)

    def lib_print(self, args, kwargs):
        return NONEV

    def lib_len(self, args, kwargs):
        d = self.force(self.deref(self.force(args[0])))
        return Num(self.len_term(d))

    def len_term(self, d):
        if isinstance(d, Obj):
            d = d.base
        if isinstance(d, (TupV, CList)):
            return z3.IntVal(len(d.items))
        if isinstance(d, Rec):
            return z3.IntVal(len(d.d))
        if isinstance(d, StrV):
            return z3.IntVal(len(d.s))
        if isinstance(d, SeqV):
            return z3.IntVal(0) if isinstance(d.ety, TUnk) else z3.simplify(SeqTheory.of(d.ety).len(d.t))
        if isinstance(d, SetV):
            return z3.IntVal(0) if isinstance(d.ety, TUnk) else SetTheory.of(d.ety).card(d.t)
        if isinstance(d, MapV):
            return z3.IntVal(0) if isinstance(d.k, TUnk) else SetTheory.of(d.k).card(d.ty.dom(d.t))
        if isinstance(d, It) and d.kind in ('keys', 'items', 'values'):
            return self.len_term(self.deref(d.a[0]))
        if isinstance(d, It) and d.kind == 'range':
            n = d.a[1] - d.a[0]
            return z3.simplify(z3.If(n > 0, n, 0))
        if isinstance(d, Num) or isinstance(d, NoneV):
            raise PyRaise('TypeError', self.where())
        if isinstance(d, It) and d.kind == 'splitpiece':
            return d.a[0]
        raise Unsupported('len of %s' % type(d).__name__)

    def lib_abs(self, args, kwargs):
        v = self.force(args[0])
        return Num(z3.simplify(z3.If(v.t >= 0, v.t, -v.t)), v.kind)

    def minmax(self, args, name):
        if len(args) == 1:
            d = self.deref(args[0])
            if isinstance(d, SetV) and d.ety == TInt:
                T = SetTheory.of(TInt)
                if self.decide(d.t == T.empty):
                    raise PyRaise('ValueError', self.where())
                return Num(getattr(T, name)(d.t))
            items = self.known_items(args[0])
            if items is None:
                raise Unsupported(name + ' of a sequence')
            if not items:
                raise PyRaise('ValueError', self.where())
            args = items
        v = self.force(args[0])
        for w in args[1:]:
            w = self.force(w)
            if not isinstance(v, Num) or not isinstance(w, Num):
                raise Unsupported(name)
            ints = v.kind == w.kind == 'int'
            p, q = (v.t, w.t) if ints else (v.real(), w.real())
            c = q > p if name == 'max' else q < p
            v = Num(z3.simplify(z3.If(c, q, p)), 'int' if ints else v.kind if v.kind == w.kind else 'dec')
        return v

    def lib_max(self, args, kwargs):
        if kwargs:
            raise Unsupported('max with options')
        return self.minmax(args, 'max')

    def lib_min(self, args, kwargs):
        if kwargs:
            raise Unsupported('min with options')
        return self.minmax(args, 'min')

    def lib_range(self, args, kwargs):
        ts = []
        for a in args:
            a = self.force(a)
            if isinstance(a, BoolV):
                a = Num(self.enc(a, TInt))
            if not isinstance(a, Num):
                raise PyRaise('TypeError', self.where())
            if a.kind != 'int':
                raise PyRaise('TypeError', self.where())
            ts.append(a.t)
        if len(ts) == 1:
            ts = [z3.IntVal(0)] + ts
        if len(ts) == 3:
            raise Unsupported('range with a step')
        return It('range', ts[0], ts[1])

    def lib_zip(self, args, kwargs):
        return It('zip', args)

    def lib_enumerate(self, args, kwargs):
        if len(args) != 1:
            raise Unsupported('enumerate with a start')
        return It('enumerate', args[0])

    def lib_sum(self, args, kwargs):
        v = args[0]
        start = args[1] if len(args) > 1 else Num(z3.IntVal(0))
        d = self.deref(v)
        if isinstance(d, It) and d.kind == 'gen':
            e, fid = d.a
            acc = ('v', ('acc', self.site('sum'), self.tick(('acc', self.site('sum')))), 'sum')
            self.store[acc] = start

            def add(inner):
                self.store[acc] = self.binop(ast.Add, self.store[acc], self.ev(e.elt, inner))
            saved, self.comp_extra = self.comp_extra, None
            try:
                self.comprehension(e, fid, add, ('sum', e.lineno, e.col_offset))
            finally:
                self.comp_extra = saved
            r = self.store.pop(acc)
            return r
        if isinstance(d, (TupV, CList)):
            r = start
            for x in d.items:
                r = self.binop(ast.Add, r, x)
            return r
        if isinstance(d, SeqV):
            if isinstance(d.ety, TUnk):
                return start
            if d.ety in (TInt, TDec):
                r = Num(SeqTheory.of(d.ety).sum(d.t), 'int' if d.ety == TInt else 'dec')
                return self.binop(ast.Add, start, r) if len(args) > 1 else r
        items = self.known_items(v)
        if items is not None:
            r = start
            for x in items:
                r = self.binop(ast.Add, r, x)
            return r
        # any other iterable: as a loop
        acc = ('v', ('acc', self.site('sum'), self.tick(('acc', self.site('sum')))), 'sum')
        self.store[acc] = start

        def body(x):
            self.store[acc] = self.binop(ast.Add, self.store[acc], x)
        self.cut_loop(self.site('sumloop'), self.iteration(v), body, [], None)
        return self.store.pop(acc)

    def lib_round(self, args, kwargs):
        v = self.force(args[0])
        if len(args) > 1 or not isinstance(v, Num):
            raise Unsupported('round')
        return Num(PYROUND(v.real()))

    def lib_int(self, args, kwargs):
        if not args:
            return Num(z3.IntVal(0))
        v = self.force(args[0])
        if isinstance(v, Num) and v.kind == 'int':
            return v
        if isinstance(v, Num):
            t = v.t
            # truncation towards zero
            f = z3.ToInt(t)
            return Num(z3.simplify(z3.If(t >= 0, f, -z3.ToInt(-t))))
        if isinstance(v, BoolV):
            return Num(self.enc(v, TInt))
        if isinstance(v, (StrT, StrV)):
            return Num(z3.Function('parseint', TStr.sort(), I)(self.enc(v, TStr)))
        raise Unsupported('int()')

    def lib_float(self, args, kwargs):
        v = self.force(args[0])
        if isinstance(v, Num):
            return Num(v.real(), 'float')
        raise Unsupported('float()')

    def lib_bool(self, args, kwargs):
        return BoolV(z3.simplify(self.truth(args[0])))

    def lib_str(self, args, kwargs):
        v = self.deref(args[0])
        if isinstance(v, OptV):
            v = self.force(v)
        if isinstance(v, (StrV, StrT)):
            return v
        t = self.typeof(v)
        if t is None:
            return StrT(self.const(TStr.sort(), 'str'))
        if isinstance(v, Num) and z3.is_int_value(z3.simplify(v.t)) and v.kind == 'int':
            return StrV(str(z3.simplify(v.t).as_long()))
        if isinstance(v, Num):
            return DecStr(TOSTR(inj(t)[0](self.enc(v, t))), v)
        return StrT(TOSTR(self.enc(v, TVal)))

    def lib_repr(self, args, kwargs):
        return StrT(self.const(TStr.sort(), 'repr'))

    def lib_decimal_Decimal(self, args, kwargs):
        if not args:
            return Num(z3.RealVal(0), 'dec')
        v = self.force(args[0])
        v = self.deref(v)
        if isinstance(v, Num):
            return Num(v.real(), 'dec')
        if isinstance(v, BoolV):
            return Num(z3.ToReal(self.enc(v, TInt)), 'dec')
        if isinstance(v, StrV):
            return Num(frac(v.s), 'dec')
        if isinstance(v, DecStr):
            # Decimal(str(x)) is x
            return Num(v.num.real(), 'dec')
        if isinstance(v, NoneV):
            raise PyRaise('TypeError', self.where())
        raise Unsupported('Decimal()')

    def lib_sorted(self, args, kwargs):
        if kwargs or len(args) != 1:
            raise Unsupported('sorted with options')
        d = self.deref(args[0])
        if isinstance(d, SetV) and not isinstance(d.ety, TUnk):
            T = SeqTheory.of(d.ety)
            r = self.const(T.S, 'sorted')
            self.assume(T.perm(r, d.t))
            k = z3.Int('k!s')
            if d.ety == TInt:
                j = z3.Int('j!s')
                self.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < T.len(r)), T.at(r, j) < T.at(r, k)), patterns=[z3.MultiPattern(T.at(r, j), T.at(r, k))]))
            return self.new(SeqV(r, d.ety, 'list'), self.site('sorted'))
        if isinstance(d, It) and d.kind == 'range':
            return d
        items = self.known_items(args[0])
        if items is not None and len(items) <= 1:
            return self.new(CList(items), self.site('sorted'))
        raise Unsupported('sorted of %s' % type(d).__name__)

    def lib_itertools_permutations(self, args, kwargs):
        d = self.deref(args[0])
        if len(args) != 1 or not isinstance(d, SeqV):
            raise Unsupported('permutations')
        T = SeqTheory.of(d.ety)
        # of a list without repeated elements: all listings of the set of its elements
        S = None
        for p in self.pc:
            if z3.is_app(p) and p.decl().eq(T.perm) and p.arg(0).eq(d.t):
                S = p.arg(1)
        if S is None:
            raise Unsupported('permutations of a list that may repeat elements')
        return It('perms', S, d.ety)

    def lib_itertools_combinations(self, args, kwargs):
        n = z3.simplify(self.force(args[1]).t)
        if not z3.is_int_value(n) or n.as_long() != 2:
            raise Unsupported('combinations of other than 2')
        d = self.deref(args[0])
        if isinstance(d, It) and d.kind == 'keys':
            d = self.deref(d.a[0])
            d = d.base if isinstance(d, Obj) else d
            dom, ety = d.ty.dom(d.t), d.k
        elif isinstance(d, SetV):
            dom, ety = d.t, d.ety
        else:
            raise Unsupported('combinations')
        T = SeqTheory.of(ety)
        # the order in which the collection is iterated
        order = T.enum(dom)
        ty = TTup(ety, ety)
        x = z3.Const('x!comb', ty.sort())
        m, n = ty.get(x, 0), ty.get(x, 1)

        def member(p):
            a, b = z3.simplify(ty.get(p, 0)), z3.simplify(ty.get(p, 1))
            return z3.And(z3.Select(dom, a), z3.Select(dom, b), T.pos(order, a) < T.pos(order, b))
        S = z3.Lambda([x], z3.And(z3.Select(dom, m), z3.Select(dom, n), T.pos(order, m) < T.pos(order, n)))

        def make(ex):
            i = Iteration_('set', lambda p: TupV([ex.dec(z3.simplify(ty.get(p, 0)), ety), ex.dec(z3.simplify(ty.get(p, 1)), ety)]), dom=None, ety=ty, src=d, member=member, tag='comb')
            y = z3.Const('y!p', ty.sort())
            i.order, i.keys = order, dom
            i.alldone = lambda done: z3.ForAll([y], z3.Select(done, y) == member(y), patterns=[z3.Select(done, y)])
            return i
        self.assume(T.perm(order, dom))
        return It('custom', make)

    def lib_itertools_groupby(self, args, kwargs):
        if len(args) != 1 or kwargs:
            raise Unsupported('groupby with a key')
        d = self.deref(args[0])
        if isinstance(d, (TupV, CList)):
            t = self.typeof(d)
            if isinstance(d, TupV):
                t = self.typeof(CList(d.items))
            if t is None:
                raise Unsupported('groupby')
            d = SeqV(self.enc(d, t), t.t) if not isinstance(t.t, TUnk) else SeqV(SeqTheory.of(TInt).empty, TInt)
        if not isinstance(d, SeqV):
            raise Unsupported('groupby')
        T = SeqTheory.of(d.ety)
        NG = z3.Function('groups_' + safe(d.ety.key()), T.S, I)
        GS = z3.Function('gstart_' + safe(d.ety.key()), T.S, I, I)
        p = d.t
        g, j = z3.Ints('g!gb j!gb')
        ng, n = NG(p), T.len(p)
        # the maximal runs of equal adjacent elements
        self.assume(ng >= 0)
        self.assume(GS(p, 0) == 0)
        self.assume(GS(p, ng) == n)
        self.assume((ng == 0) == (n == 0))
        self.assume(z3.ForAll([g], z3.Implies(z3.And(0 <= g, g < ng), z3.And(GS(p, g) < GS(p, g + 1), 0 <= GS(p, g), GS(p, g + 1) <= n)), patterns=[GS(p, g)]))
        self.assume(z3.ForAll([g, j], z3.Implies(z3.And(0 <= g, g < ng, GS(p, g) <= j, j < GS(p, g + 1)), T.at(p, j) == T.at(p, GS(p, g))), patterns=[z3.MultiPattern(GS(p, g), T.at(p, j))]))
        self.assume(z3.ForAll([g], z3.Implies(z3.And(0 < g, g < ng), T.at(p, GS(p, g) - 1) != T.at(p, GS(p, g))), patterns=[GS(p, g)]))

        def make(ex):
            return Iteration_('idx', lambda k: TupV([ex.dec(T.at(p, GS(p, k)), d.ety), It('group', SeqV(T.slice(p, GS(p, k), GS(p, k + 1)), d.ety), p, GS, k)]), n=ng, src=d, tag='groupby')
        return It('custom', make)

    def lib_collections_namedtuple(self, args, kwargs):
        n, f = args
        if not isinstance(n, StrV):
            raise Unsupported('namedtuple')
        if isinstance(f, StrV):
            fields = f.s.replace(',', ' ').split()
        else:
            fields = [x.s for x in self.known_items(f)]
        return NTCls(n.s, fields)

    def lib_type(self, args, kwargs):
        if len(args) == 3 and isinstance(args[0], StrV):
            d = self.deref(args[2])
            if isinstance(d, MapV) and isinstance(d.k, TUnk):
                return ClsV(args[0].s, [], {}, 'enum')
            if isinstance(d, Rec):
                return ClsV(args[0].s, [], dict(d.d), 'enum')
        raise Unsupported('type()')

    def lib_isinstance(self, args, kwargs):
        v, c = args
        d = self.deref(v)
        if isinstance(d, OptV):
            if self.decide(d.isnone):
                d = NONEV
            else:
                d = d.val
        classes = self.known_items(c) if isinstance(self.deref(c), (TupV, CList)) else [c]
        for k in classes:
            r = self.is_instance(d, k)
            if r is None:
                raise Unsupported('isinstance')
            if not isinstance(r, bool):
                if len(classes) == 1:
                    return BoolV(r)
                r = self.decide(r)
            if r:
                return BoolV(True)
        return BoolV(False)

    def is_instance(self, d, c):
        if isinstance(c, ClsV):
            if isinstance(d, Obj):
                return self.subclass(d.cls, c)
            if isinstance(d, ValV):
                return z3.Function('val_isinstance_' + c.name, TVal.sort(), B)(d.t)
            return False
        if isinstance(c, Lib):
            if isinstance(d, ValV):
                return z3.Function('val_isinstance_' + safe(c.name), TVal.sort(), B)(d.t)
            if isinstance(d, Obj):
                return any(isinstance(b, Lib) and b.name.endswith(c.name) or isinstance(b, Lib) and b.name == 'collections.defaultdict' and c.name == 'dict' for b in self.all_bases(d.cls))
            t = self.type_name(d)
            if t == 'mixed':
                return None if c.name in ('list', 'tuple', 'set', 'frozenset') else False
            if t is None:
                return None
            return t == c.name or (t == 'bool' and c.name == 'int')
        return None

    def all_bases(self, cls):
        out = []
        for b in cls.bases:
            out.append(b)
            if isinstance(b, ClsV):
                out += self.all_bases(b)
        return out

    def subclass(self, a, b):
        return a.qual == b.qual or any(isinstance(x, ClsV) and self.subclass(x, b) for x in a.bases)

    def lib_hasattr(self, args, kwargs):
        v, n = args
        d = self.deref(v)
        if isinstance(d, OptV):
            d = self.force(d)
        n = n.s
        if n in ('items', 'keys', 'values'):
            if isinstance(d, Obj):
                return BoolV(d.base is not None)
            if isinstance(d, ValV):
                return BoolV(z3.Function('val_hasattr_' + n, TVal.sort(), B)(d.t))
            return BoolV(isinstance(d, (MapV, Rec)))
        if n == '__iter__':
            return BoolV(isinstance(d, (MapV, Rec, SeqV, SetV, TupV, CList, StrV, StrT, It)) or isinstance(d, Obj) and d.base is not None)
        if isinstance(d, Obj):
            return BoolV(n in d.attrs or self.cls_attr(d.cls, n) is not None)
        if isinstance(d, (MapV, Rec, SeqV, TupV, CList)) and not n.startswith('_') and n not in ('append', 'extend', 'get', 'update', 'copy'):
            return BoolV(False)
        raise Unsupported('hasattr')

    # containers
    def lib_set(self, args, kwargs):
        ref = self.mk_empty('set') if not args else None
        if ref is not None:
            return ref
        s = self.as_set(args[0], 'set')
        return self.new(SetV(s.t, s.ety, 'set'), self.site('set'))

    def lib_frozenset(self, args, kwargs):
        if not args:
            return SetV(SetTheory.of(TInt).empty, TInt)
        s = self.as_set(args[0], 'frozenset')
        return SetV(s.t, s.ety, 'frozenset')

    def as_set(self, v, why):
        d = self.deref(self.force(v))
        if isinstance(d, SetV):
            return d
        if isinstance(d, SeqV):
            if isinstance(d.ety, TUnk):
                return SetV(z3.K(d.ety.sort(), False), d.ety)
            return SetV(SeqTheory.of(d.ety).toset(d.t), d.ety)
        if isinstance(d, MapV):
            if isinstance(d.k, TUnk):
                return SetV(z3.K(d.k.sort(), False), d.k)
            return SetV(d.ty.dom(d.t), d.k)
        if isinstance(d, Obj):
            return self.as_set(d.base, why)
        if isinstance(d, (TupV, CList)):
            t = TUnk('s')
            for x in d.items:
                t = join_ty(t, self.typeof(x))
                if t is None:
                    raise Unsupported('set of mixed elements')
            s = z3.K(t.sort(), False)
            SetTheory.of(t) if not isinstance(t, TUnk) else None
            for x in d.items:
                s = z3.Store(s, self.enc(x, t), True)
            return SetV(s, t)
        if isinstance(d, It):
            if d.kind == 'keys':
                return self.as_set(d.a[0], why)
            if d.kind == 'zip':
                # pairs of a zip
                its = [self.iteration(x) for x in d.a[0]]
                if all(i.kind == 'idx' for i in its):
                    v = self.iteration(d)
                    return self.pairs_set(v)
            if d.kind == 'gen':
                e, fid = d.a
                return self.deref(self.ev_SetComp(ast.copy_location(ast.SetComp(elt=e.elt, generators=e.generators), e), fid))
        items = self.known_items(v)
        if items is not None:
            return self.as_set(CList(items), why)
        raise Unsupported('%s of %s' % (why, type(d).__name__))

    def pairs_set(self, it):
        """The set of the items of an indexed iteration."""
        j = z3.Int('zip!j')
        item = it.item(j)
        ty = self.typeof(item)
        t = self.enc(item, ty)
        S = self.const(TSet(ty).sort(), 'zipset')
        SetTheory.of(ty)
        # every item is in it, and everything in it is an item (with the position as a function of the element)
        idx = z3.Function('zipidx!%d' % self.tick('zipidx'), ty.sort(), I)
        y = z3.Const('y!z', ty.sort())
        f = lambda k: z3.substitute(t, (j, k))
        pats = [a for a in self.seq_apps(t, j)]
        self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < it.n), z3.Select(S, t)), patterns=pats))
        self.assume(z3.ForAll([y], z3.Implies(z3.Select(S, y), z3.And(0 <= idx(y), idx(y) < it.n, y == f(idx(y)))), patterns=[z3.Select(S, y)]))
        self.zipsets = getattr(self, 'zipsets', {})
        self.zipsets[S.get_id()] = (S, it)
        return SetV(S, ty)

    def seq_apps(self, t, j):
        out = []
        stack = [t]
        while stack:
            x = stack.pop()
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(c.eq(j) for c in x.children()):
                    out.append(x)
                stack.extend(x.children())
        return out

    def lib_list(self, args, kwargs):
        if not args:
            return self.mk_empty('list')
        v = self.force(args[0])
        d = self.deref(v)
        if isinstance(d, It) and d.kind == 'gen':
            return self.gen_list(d)
        if isinstance(d, It) and d.kind == 'group':
            return self.new(SeqV(d.a[0].t, d.a[0].ety, 'list'), self.site('list'))
        items = self.known_items(v)
        if items is not None:
            if not items:
                return self.mk_empty('list')
            return self.new(CList(items), self.site('list'))
        s = self.as_seq(v)
        return self.new(SeqV(s.t, s.ety, 'list'), self.site('list'))

    def as_seq(self, v):
        d = self.deref(v)
        if isinstance(d, Obj):
            d = d.base
        if isinstance(d, SeqV):
            return d
        if isinstance(d, SetV):
            return SeqV(SeqTheory.of(d.ety).enum(d.t), d.ety)
        if isinstance(d, MapV):
            return SeqV(SeqTheory.of(d.k).enum(d.ty.dom(d.t)), d.k)
        if isinstance(d, It):
            if d.kind == 'keys':
                return self.as_seq(d.a[0])
            if d.kind == 'gen':
                return self.as_seq(self.gen_list(d))
            if d.kind == 'values':
                m = self.deref(d.a[0])
                if isinstance(m, Obj):
                    m = m.base
                if isinstance(m, MapV) and not isinstance(m.k, TUnk):
                    return SeqV(vals(m.k, m.v)(m.t), m.v)
            if d.kind in ('zip', 'range', 'enumerate'):
                it = self.iteration(d)
                if it.kind == 'idx':
                    return self.tabulate(it)
        raise Unsupported('list of %s' % (d.kind if isinstance(d, It) else type(d).__name__))

    def tabulate(self, it):
        j = z3.Int('tab!j')
        item = it.item(j)
        ty = self.typeof(item)
        if ty is None:
            raise Unsupported('list of unknown elements')
        t = self.enc(item, ty)
        T = SeqTheory.of(ty)
        r = self.const(T.S, 'list')
        n = z3.simplify(z3.If(it.n > 0, it.n, 0))
        self.assume(T.len(r) == n)
        self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), T.at(r, j) == t), patterns=[T.at(r, j)]))
        return SeqV(r, ty)

    def lib_tuple(self, args, kwargs):
        if not args:
            return TupV([])
        v = self.force(args[0])
        d = self.deref(v)
        if isinstance(d, It) and d.kind == 'gen':
            v = self.gen_list(d)
            d = self.deref(v)
        items = self.known_items(v)
        if items is not None:
            return TupV(items)
        if isinstance(d, It) and d.kind == 'group':
            return d.a[0]
        s = self.as_seq(v)
        return SeqV(s.t, s.ety, 'tuple')

    def lib_dict(self, args, kwargs):
        if not args:
            if not kwargs:
                return self.mk_empty('dict')
            return self.new(Rec(kwargs), self.site('dict'))
        d = self.deref(args[0])
        if isinstance(d, Obj):
            d = d.base
        if isinstance(d, Rec):
            out = dict(d.d)
            out.update(kwargs)
            return self.new(Rec(out), self.site('dict'))
        if isinstance(d, MapV):
            if kwargs:
                raise Unsupported('dict with keywords')
            return self.new(MapV(d.t, d.k, d.v), self.site('dict'))
        items = self.known_items(args[0])
        if items is not None:
            out = {}
            for x in items:
                k, v = self.unpack(x, 2)
                if not isinstance(k, StrV):
                    raise Unsupported('dict of pairs')
                out[k.s] = v
            out.update(kwargs)
            return self.new(Rec(out), self.site('dict'))
        raise Unsupported('dict()')

    def lib_collections_defaultdict(self, args, kwargs):
        r = self.mk_empty('dict')
        c = self.deref(r)
        self.store[('h', r.rid)] = MapV(c.t, c.k, c.v, args[0] if args else None)
        return r

    def lib_any(self, args, kwargs):
        items = self.known_items(args[0])
        if items is not None:
            return BoolV(z3.simplify(z3.Or(*[self.truth(x) for x in items]))) if items else BoolV(False)
        d = self.deref(args[0])
        if isinstance(d, It) and d.kind == 'gen':
            # as a loop that stops at the first true element
            e, fid = d.a
            inner = self.frame_new(fid, self.store[('fp', fid)][1])

            class Found(Exception):
                pass
            if len(e.generators) != 1:
                raise Unsupported('any over several loops')
            g = e.generators[0]

            def body(item):
                self.assign(g.target, item, inner)
                for c in g.ifs:
                    if not self.decide(self.truth(self.ev(c, inner))):
                        raise ContinueEx_()
                if self.decide(self.truth(self.ev(e.elt, inner))):
                    self.store[('v', inner, '!found')] = BoolV(True)
                    raise BreakEx_()
            it = self.ev(g.iter, fid)
            self.for_loop(('any', e.lineno, e.col_offset), it, body, [], inner)
            f = self.store.pop(('v', inner, '!found'), None)
            return BoolV(f is not None)
        raise Unsupported('any')

    def lib_all(self, args, kwargs):
        items = self.known_items(args[0])
        if items is not None:
            return BoolV(z3.simplify(z3.And(*[self.truth(x) for x in items]))) if items else BoolV(True)
        d = self.deref(args[0])
        if isinstance(d, It) and d.kind == 'gen':
            e, fid = d.a
            ne = ast.copy_location(ast.GeneratorExp(elt=ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=e.elt), e), generators=e.generators), e)
            return BoolV(z3.simplify(z3.Not(self.lib_any([It('gen', ne, fid)], {}).t)))
        raise Unsupported('all')

    def lib_copy_deepcopy(self, args, kwargs):
        return self.copy_value(args[0])

    def copy_value(self, v):
        d = self.deref(v)
        if isinstance(v, (Ref, Place)):
            if isinstance(d, (SeqV, SetV, MapV)):
                return self.new(self.with_kind(d), self.site('copy'))
            if isinstance(d, Rec):
                return self.new(Rec({k: self.copy_value(x) for k, x in d.d.items()}), self.site('copy'))
            if isinstance(d, CList):
                return self.new(CList([self.copy_value(x) for x in d.items]), self.site('copy'))
            if isinstance(d, TupV):
                return TupV([self.copy_value(x) for x in d.items], d.cls)
            if isinstance(d, Obj) and self.cls_attr(d.cls, '__deepcopy__') is None:
                return self.new(Obj(d.cls, {k: self.copy_value(x) for k, x in d.attrs.items()}, d.base), self.site('copy'))
            raise Unsupported('copy of %s' % type(d).__name__)
        if isinstance(v, TupV):
            return TupV([self.copy_value(x) for x in v.items], v.cls)
        return v

    def with_kind(self, d):
        return d

    # ------------------------------------------------------------------------------------------- classes
    def cls_attr(self, cls, name):
        if name in cls.attrs:
            return cls.attrs[name]
        for b in cls.bases:
            if isinstance(b, ClsV):
                r = self.cls_attr(b, name)
                if r is not None:
                    return r
        return None

    def base_kind(self, cls):
        for b in self.all_bases(cls):
            if isinstance(b, Lib) and b.name in ('dict', 'collections.defaultdict'):
                return 'dict'
        return None

    def instantiate(self, cls, args, kwargs):
        if not cls.bases and cls.qual in EXCEPTIONS or any(isinstance(b, ClsV) and b.qual in EXCEPTIONS for b in self.all_bases(cls)):
            return self.new(Obj(cls, {}), self.site('exc'))
        base = None
        if self.base_kind(cls):
            ref0 = self.mk_empty('dict')
            base = self.deref(ref0)
            t = self.unit.object_type(self, cls) if self.unit is not None else None
            if t is not None:
                base = MapV(t.mk(z3.K(t.k.sort(), False), self.anymap(t)), t.k, t.v, base.default)
        o = self.new(Obj(cls, {}, base), self.site('new'))
        init = self.cls_attr(cls, '__init__')
        if init is not None:
            self.call(init, [o] + args, kwargs)
        elif args or kwargs:
            raise Unsupported('arguments of a class without __init__')
        return o

    # ------------------------------------------------------------------------------------------- attributes
    def attribute(self, o, name):
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if isinstance(o, OptV):
            o = self.force(o)
        if isinstance(o, ModV):
            if o.name.split('.')[0] == 'segeval':
                return self.import_from(o.name, name)
            if o.name + '.' + name == 'copy.deepcopy':
                return Lib('copy.deepcopy')
            if o.name == 'os' and name == 'path':
                return ModV('os.path')
            if (o.name, name) in (('itertools', 'groupby'), ('itertools', 'permutations'), ('itertools', 'combinations'), ('decimal', 'Decimal'), ('collections', 'namedtuple'), ('collections', 'defaultdict')):
                return Lib(o.name + '.' + name)
            f = self.unit.library(self, o.name + '.' + name) if self.unit is not None else None
            if f is not None:
                return f
            raise Unsupported('library name %s.%s' % (o.name, name))
        if isinstance(o, ClsV):
            v = self.cls_attr(o, name)
            if v is not None:
                return v
            if name == '__name__':
                return StrV(o.name)
            raise PyRaise('AttributeError', self.where())
        if isinstance(o, Lib):
            if o.name in ('dict', 'collections.defaultdict', 'set', 'list', 'Exception', 'str', 'frozenset', 'tuple'):
                return Opaque('%s.%s' % (o.name, name), lambda ex, a, k: ex.base_method(o.name, name, a, k))
            raise Unsupported('attribute of ' + o.name)
        if isinstance(o, FnV) and name == '__name__':
            return StrV(o.name)
        d = self.deref(o)
        if isinstance(d, Obj):
            if name in d.attrs:
                return d.attrs[name]
            v = self.cls_attr(d.cls, name)
            if isinstance(v, FnV):
                return BoundM(o, name)
            if v is not None:
                return v
            if d.base is not None:
                return BoundM(o, name)
            raise PyRaise('AttributeError', self.where())
        if isinstance(d, TupV) and d.cls is not None and name in d.cls.fields:
            i = d.cls.fields.index(name)
            if isinstance(o, Place):
                return self.child(o, 'fld', i, o.ty.get(self.enc(d, o.ty), i), o.ty.ts[i])
            return d.items[i]
        if isinstance(d, ValV):
            return ValV(z3.Function('val_attr_' + name, TVal.sort(), TVal.sort())(d.t))
        if isinstance(d, NoneV):
            raise PyRaise('AttributeError', self.where())
        return BoundM(o, name)

    def set_attr(self, o, name, v):
        d = self.deref(o)
        if isinstance(d, Obj) and isinstance(o, Ref):
            attrs = dict(d.attrs)
            attrs[name] = v
            self.write(o, Obj(d.cls, attrs, d.base))
            return
        raise Unsupported('attribute assignment')

    def base_method(self, base, name, args, kwargs):
        """dict.method(self, ...) and the like, bypassing overriding methods."""
        o = args[0] if args else None
        d = self.deref(o)
        if not isinstance(d, Obj):
            if isinstance(d, (MapV, Rec)):
                return self.method(o, name, args[1:], kwargs)
            raise Unsupported('%s.%s' % (base, name))
        if name == '__init__':
            if base in EXCEPTIONS:
                return NONEV
            if len(args) > 1 and base == 'collections.defaultdict':
                b = MapV(d.base.t, d.base.k, d.base.v, args[1])
                self.write(o, Obj(d.cls, d.attrs, b))
                return NONEV
            if len(args) == 1:
                return NONEV
        if name == '__setitem__':
            return self.raw_store(o, args[1], args[2]) or NONEV
        if name == '__getitem__':
            return self.raw_get(o, args[1])
        if name in ('update', 'values', 'keys', 'items', '__contains__', 'get'):
            return self.dict_method(o, d.base, name, args[1:], kwargs)
        raise Unsupported('%s.%s' % (base, name))

    # ------------------------------------------------------------------------------------------- subscripts
    def key_term(self, k, kt):
        t = self.enc(k, kt)
        return t

    def subscript(self, o, k):
        o = self.force(o)
        d = self.deref(o)
        if isinstance(d, OptV):
            d = self.force(d)
        k = self.force(k) if not isinstance(k, NoneV) else k
        if isinstance(d, Obj):
            f = self.cls_attr(d.cls, '__getitem__')
            if f is not None:
                return self.call(f, [o, k], {})
            return self.raw_get(o, k)
        if isinstance(d, (MapV, Rec)):
            return self.raw_get(o, k)
        kd = self.deref(k)
        if isinstance(kd, OptV):
            kd = self.force(kd)
        if isinstance(kd, BoolV):
            kd = Num(self.enc(kd, TInt))
        if isinstance(d, It) and d.kind in ('keys', 'values', 'items', 'zip', 'range', 'enumerate'):
            raise Unsupported('index into an iterator')
        if not isinstance(kd, Num) or kd.kind != 'int':
            raise PyRaise('TypeError', self.where())
        i = z3.simplify(kd.t)
        if isinstance(d, (TupV, CList)):
            n = len(d.items)
            if not z3.is_int_value(i):
                for c in range(n):
                    if self.decide(i == c):
                        return self.tup_item(o, d, c)
                raise Unsupported('index of unknown value')
            c = i.as_long()
            if not -n <= c < n:
                raise PyRaise('IndexError', self.where())
            return self.tup_item(o, d, c % n if n else 0)
        if isinstance(d, SeqV):
            if isinstance(d.ety, TUnk):
                raise PyRaise('IndexError', self.where())
            T = SeqTheory.of(d.ety)
            n = T.len(d.t)
            i = self.norm_index(i, n)
            return self.child(o, 'idx', i, T.at(d.t, i), d.ety)
        raise Unsupported('subscript of %s' % type(d).__name__)

    def norm_index(self, i, n):
        if z3.is_int_value(i):
            if i.as_long() < 0:
                i = z3.simplify(n + i)
                if self.decide(i < 0):
                    raise PyRaise('IndexError', self.where())
                return i
            if self.decide(i >= n):
                raise PyRaise('IndexError', self.where())
            return i
        if self.decide(i < 0):
            i = z3.simplify(n + i)
            if self.decide(i < 0):
                raise PyRaise('IndexError', self.where())
            return i
        if self.decide(i >= n):
            raise PyRaise('IndexError', self.where())
        return i

    def tup_item(self, o, d, c):
        if isinstance(o, Place) and isinstance(o.ty, TTup):
            return self.child(o, 'fld', c, o.ty.get(self.enc(d, o.ty), c), o.ty.ts[c])
        return d.items[c]

    def raw_get(self, o, k):
        d = self.deref(o)
        if isinstance(d, Obj):
            d = d.base
        if isinstance(d, Rec):
            if isinstance(k, StrV):
                if k.s not in d.d:
                    raise PyRaise('KeyError', self.where())
                return d.d[k.s]
            raise Unsupported('unknown key of a keyword dictionary')
        if isinstance(d.k, TUnk):
            if d.default is not None:
                return self.default_item(o, d, k)
            raise PyRaise('KeyError', self.where())
        t = self.enc(k, d.k)
        if t is None:
            vt = self.typeof(k)
            j = join_ty(d.k, vt) if vt is not None else None
            if d.default is not None or j is None:
                self.learn_into(d.k, vt)
            raise PyRaise('KeyError', self.where())
        if not self.decide(z3.Select(d.ty.dom(d.t), t)):
            if d.default is None:
                raise PyRaise('KeyError', self.where())
            return self.default_item(o, d, k)
        return self.child(o, 'key', t, z3.Select(d.ty.val(d.t), t), d.v)

    def default_item(self, o, d, k):
        """A missing key of a defaultdict."""
        v = self.call(d.default, [], {})
        self.raw_store(o, k, v, via_default=True)
        d = self.deref(o)
        if isinstance(d, Obj):
            d = d.base
        t = self.enc(k, d.k)
        return self.child(o, 'key', t, z3.Select(d.ty.val(d.t), t), d.v)

    def lib_default_int(self, args, kwargs):
        return Num(z3.IntVal(0))

    def store_subscript(self, o, k, v):
        o = self.force(o)
        d = self.deref(o)
        if isinstance(d, Obj):
            f = self.cls_attr(d.cls, '__setitem__')
            if f is not None:
                self.call(f, [o, k, v], {})
                return
        self.raw_store(o, k, v)

    def raw_store(self, o, k, v, via_default=False):
        d = self.deref(o)
        obj = d if isinstance(d, Obj) else None
        if obj is not None:
            d = obj.base
        if not isinstance(o, (Ref, Place)):
            raise Unsupported('change of a shared object')
        if isinstance(d, Rec):
            if not isinstance(k, StrV):
                raise Unsupported('unknown key of a keyword dictionary')
            out = dict(d.d)
            out[k.s] = v
            self.write(o, Rec(out), structural=False)
            return
        if isinstance(d, MapV):
            if isinstance(d.k, TUnk):
                if isinstance(k, StrV) and isinstance(o, Ref) and not self.dict_symbolic(o) and obj is None:
                    # a dict used as a record of named values
                    self.write(o, Rec({k.s: v}))
                    return
                kt, vt = self.typeof(k), self.typeof(v)
                if kt is None or vt is None:
                    raise Unsupported('dict of %s' % type(v).__name__)
                self.learn(d.k.site[0], TMap(kt, vt))
            t = self.enc(k, d.k)
            e = self.enc(v, d.v)
            if t is None or e is None:
                kt, vt = self.typeof(k), self.typeof(v)
                if kt is None or vt is None:
                    raise Unsupported('dict of %s' % type(v).__name__)
                j = join_ty(d.ty, TMap(kt, vt))
                if j is None:
                    raise Unsupported('dict of mixed types %s %s' % (d.ty, TMap(kt, vt)))
                if isinstance(o, Ref) and not has_unk(vt) and isinstance(o.rid[0], tuple) and o.rid[0] in self.alloc_types or (isinstance(o, Ref) and o.rid[0] in self.alloc_types):
                    self.learn(o.rid[0], j)
                self.learn_into(d.v, vt)
                self.learn_into(d.k, kt)
                raise Unsupported('dict of mixed types')
            new = MapV(d.ty.mk(z3.Store(d.ty.dom(d.t), t, True), z3.Store(d.ty.val(d.t), t, e)), d.k, d.v, d.default)
            self.write(o, Obj(obj.cls, obj.attrs, new) if obj is not None else new, structural=mutable(d.v))
            if mutable(d.v):
                if isinstance(o, Ref):
                    c = self.store.get(('h', o.rid))
                    base = c if isinstance(c, Place) else o
                else:
                    base = o
                if isinstance(base, Ref):
                    pl = Place(base, [('key', t)], d.v, self.store[('g', base.rid)])
                else:
                    pl = Place(base.root, base.path + [('key', t)], d.v, self.store[('g', base.root.rid)])
                self.moved(v, pl)
            return
        if isinstance(d, SeqV) and isinstance(o, (Ref, Place)) and d.kind == 'list':
            T = SeqTheory.of(d.ety)
            i = self.norm_index(z3.simplify(self.force(k).t), T.len(d.t))
            e = self.elem(v, d.ety)
            self.write(o, SeqV(T.upd(d.t, i, e), d.ety, 'list'), structural=mutable(d.ety))
            return
        if isinstance(d, CList) and isinstance(k, Num) and z3.is_int_value(z3.simplify(k.t)):
            i = z3.simplify(k.t).as_long()
            items = list(d.items)
            if not -len(items) <= i < len(items):
                raise PyRaise('IndexError', self.where())
            items[i] = v
            self.write(o, CList(items))
            return
        if isinstance(d, (TupV,)) or isinstance(d, SeqV):
            raise PyRaise('TypeError', self.where())
        raise Unsupported('item assignment to %s' % type(d).__name__)

    def dict_symbolic(self, ref):
        return ref.rid[0] in self.alloc_types

    def del_subscript(self, o, k):
        d = self.deref(o)
        obj = d if isinstance(d, Obj) else None
        if obj is not None:
            d = obj.base
        if isinstance(d, Rec) and isinstance(k, StrV):
            if k.s not in d.d:
                raise PyRaise('KeyError', self.where())
            out = dict(d.d)
            del out[k.s]
            self.write(o, Rec(out))
            return
        if isinstance(d, MapV) and not isinstance(d.k, TUnk):
            t = self.enc(k, d.k)
            if t is None or not self.decide(z3.Select(d.ty.dom(d.t), t)):
                raise PyRaise('KeyError', self.where())
            new = MapV(d.ty.mk(z3.Store(d.ty.dom(d.t), t, False), d.ty.val(d.t)), d.k, d.v, d.default)
            self.write(o, Obj(obj.cls, obj.attrs, new) if obj is not None else new, structural=True)
            return
        raise Unsupported('del')

    def slice(self, o, s, fid):
        d = self.deref(self.force(o))
        if s.step is not None:
            raise Unsupported('slice with a step')
        lo = self.force(self.ev(s.lower, fid)) if s.lower is not None else None
        hi = self.force(self.ev(s.upper, fid)) if s.upper is not None else None
        if isinstance(d, (TupV, CList)):
            a = z3.simplify(lo.t) if lo is not None else None
            b = z3.simplify(hi.t) if hi is not None else None
            if all(x is None or z3.is_int_value(x) for x in (a, b)):
                items = d.items[(a.as_long() if a is not None else None):(b.as_long() if b is not None else None)]
                return TupV(items) if isinstance(d, TupV) else self.new(CList(items), self.site('slice'))
            t = self.typeof(CList(d.items))
            if t is None or isinstance(t.t, TUnk):
                raise Unsupported('slice')
            d = SeqV(self.enc(CList(d.items), t), t.t, 'tuple' if isinstance(d, TupV) else 'list')
        if isinstance(d, SeqV):
            T = SeqTheory.of(d.ety)
            n = T.len(d.t)

            def clamp(x, default):
                if x is None:
                    return default
                t = z3.simplify(x.t)
                if self.known(z3.And(0 <= t, t <= n)):
                    return t
                if self.decide(t < 0):
                    t = n + t
                    if self.decide(t < 0):
                        t = z3.IntVal(0)
                    return z3.simplify(t)
                if self.decide(t > n):
                    return n
                return t
            a, b = clamp(lo, z3.IntVal(0)), clamp(hi, n)
            if not self.decide(a <= b):
                b = a
            r = SeqV(T.slice(d.t, a, b), d.ety, d.kind)
            return r if d.kind == 'tuple' else self.new(r, self.site('slice'))
        raise Unsupported('slice of %s' % type(d).__name__)

    # ------------------------------------------------------------------------------------------- methods
    def method(self, o, name, args, kwargs):
        o = self.force(o)
        d = self.deref(o)
        if isinstance(d, OptV):
            d = self.force(d)
        if isinstance(d, Obj):
            f = self.cls_attr(d.cls, name)
            if isinstance(f, FnV):
                return self.call(f, [o] + args, kwargs)
            return self.dict_method(o, d.base, name, args, kwargs)
        if isinstance(d, (MapV, Rec)):
            return self.dict_method(o, d, name, args, kwargs)
        if isinstance(d, SetV):
            return self.set_method(o, d, name, args)
        if isinstance(d, SeqV):
            return self.seq_method(o, d, name, args)
        if isinstance(d, CList):
            return self.clist_method(o, d, name, args)
        if isinstance(d, TupV) and name == 'index':
            raise Unsupported('tuple.index')
        if isinstance(d, (StrV, StrT)):
            return self.str_method(d, name, args, kwargs)
        if isinstance(d, Num) and name == 'sqrt' and d.kind == 'dec':
            return Num(SQRT(d.t), 'dec')
        raise Unsupported('method %s of %s' % (name, type(d).__name__))

    def str_method(self, d, name, args, kwargs):
        if name == 'format':
            return StrT(self.const(TStr.sort(), 'fmt'))
        if name == 'join':
            items = self.known_items(args[0])
            if items is not None:
                if isinstance(d, StrV) and all(isinstance(x, StrV) for x in items):
                    return StrV(d.s.join(x.s for x in items))
                T = SeqTheory.of(TStr)
                t = T.empty
                for x in items:
                    e = self.enc(x, TStr)
                    if e is None:
                        if isinstance(x, (Num, NoneV, BoolV)):
                            raise PyRaise('TypeError', self.where())
                        raise Unsupported('join')
                    t = T.snoc(t, e)
                return StrT(STRJOIN(self.enc(d, TStr), t))
            s = self.as_seq(args[0])
            if s.ety == TStr:
                return StrT(STRJOIN(self.enc(d, TStr), s.t))
            raise Unsupported('join')
        if name == 'lower':
            if isinstance(d, StrV):
                return StrV(d.s.lower())
            return StrT(z3.Function('strlower', TStr.sort(), TStr.sort())(d.t))
        raise Unsupported('str.' + name)

    def set_method(self, o, d, name, args):
        if name in ('add', 'discard', 'remove', 'update', 'difference_update', 'intersection_update', 'symmetric_difference_update', 'clear', 'pop'):
            if d.kind != 'set':
                if d.kind == 'mixed':
                    raise Unsupported('change of a shared set')
                raise PyRaise('AttributeError', self.where())
            if name in ('add', 'discard', 'remove'):
                if isinstance(d.ety, TUnk) and name == 'discard':
                    return NONEV
                x = self.elem(args[0], d.ety) if name == 'add' else self.enc(args[0], d.ety)
                if x is None:
                    raise Unsupported('removal of another type')
                if name == 'remove' and not self.decide(z3.Select(d.t, x)):
                    raise PyRaise('KeyError', self.where())
                self.write(o, SetV(z3.Store(d.t, x, name == 'add'), d.ety, 'set'))
                return NONEV
            if name == 'clear':
                self.write(o, SetV(SetTheory.of(d.ety).empty, d.ety, 'set'))
                return NONEV
            if name in ('update', 'difference_update', 'intersection_update', 'symmetric_difference_update'):
                for a in args:
                    op = {'update': 'union', 'difference_update': 'difference', 'intersection_update': 'intersection', 'symmetric_difference_update': 'symmetric_difference'}[name]
                    s = self.as_set(a, op)
                    if isinstance(s.ety, TUnk) and op in ('union', 'difference'):
                        continue
                    if isinstance(d.ety, TUnk) and op == 'union':
                        self.learn(d.ety.site, s.ety)
                    r = self.deref(self.set_op(op, d, s, o))
                    self.write(o, SetV(r.t, r.ety, 'set'))
                    d = self.deref(o)
                return NONEV
            raise Unsupported('set.pop')
        if name in ('union', 'intersection', 'difference', 'symmetric_difference'):
            r = d
            if not args:
                return self.new(SetV(d.t, d.ety, 'set'), self.site('set'))
            res = o
            for a in args:
                s = self.as_set(a, name)
                res = self.set_op(name, self.deref(res), s, o)
            return res
        if name == 'copy':
            return self.new(SetV(d.t, d.ety, 'set'), self.site('set'))
        if name in ('issubset', 'issuperset'):
            return BoolV(self.compare('<=' if name == 'issubset' else '>=', d, self.as_set(args[0], name)))
        if name == 'isdisjoint':
            s = self.as_set(args[0], name)
            T = SetTheory.of(d.ety)
            return BoolV(T.inter(d.t, s.t) == T.empty)
        raise PyRaise('AttributeError', self.where())

    def set_op(self, op, x, y, origin=None):
        kind = x.kind if x.kind in ('set', 'frozenset') else 'set'
        if isinstance(x.ety, TUnk) and isinstance(y.ety, TUnk):
            r = x
        else:
            if isinstance(x.ety, TUnk):
                x = SetV(z3.K(y.ety.sort(), False), y.ety, x.kind)
            if isinstance(y.ety, TUnk):
                y = SetV(z3.K(x.ety.sort(), False), x.ety, y.kind)
            if x.ety != y.ety:
                raise Unsupported('operation on sets of different types')
            T = SetTheory.of(x.ety)
            f = {'union': T.union, 'intersection': T.inter, 'difference': T.diff, 'symmetric_difference': T.sym}[op]
            r = SetV(f(x.t, y.t), x.ety, kind)
        if kind == 'set':
            return self.new(SetV(r.t, r.ety, 'set'), self.site('set' + op))
        return SetV(r.t, r.ety, kind)

    def need_list(self, o, d, name):
        if d.kind == 'tuple':
            raise PyRaise('AttributeError', self.where())
        if d.kind != 'list' or not isinstance(o, (Ref, Place)):
            raise Unsupported('change of a shared list')

    def seq_method(self, o, d, name, args):
        if name == 'append':
            self.need_list(o, d, name)
            x = self.elem(args[0], d.ety)
            T = SeqTheory.of(d.ety)
            self.write(o, SeqV(T.snoc(d.t, x), d.ety, 'list'), structural=False)
            if mutable(d.ety):
                if isinstance(o, Ref):
                    self.moved(args[0], Place(o, [('idx', T.len(d.t))], d.ety, self.store[('g', o.rid)]))
            return NONEV
        if name == 'extend':
            self.need_list(o, d, name)
            v = self.force(args[0])
            dd = self.deref(v)
            if isinstance(dd, It) and dd.kind == 'gen':
                v = self.gen_list(dd)
            items = self.known_items(v)
            if items is not None:
                for x in items:
                    self.seq_method(o, self.deref(o), 'append', [x]) if isinstance(self.deref(o), SeqV) else self.method(o, 'append', [x], {})
                return NONEV
            s = self.as_seq(v)
            if isinstance(d.ety, TUnk):
                self.learn(d.ety.site, s.ety)
            T = SeqTheory.of(d.ety)
            if s.ety != d.ety:
                j = join_ty(d.ety, s.ety)
                if j is None or j != d.ety:
                    self.learn_into(d.ety, s.ety)
                    raise Unsupported('extend with another type')
                t = self.conv_seq(s, d.ety)
            else:
                t = s.t
            self.write(o, SeqV(T.cat(d.t, t), d.ety, 'list'))
            return NONEV
        if name == 'split':
            return self.unit.split(self, d, args) if self.unit is not None and hasattr(self.unit, 'split') else self.str_split(d, args)
        if name == 'count' and not isinstance(d.ety, TUnk):
            return Num(SeqTheory.of(d.ety).cnt(d.t, self.enc(args[0], d.ety)))
        if name in ('sort', 'pop', 'insert', 'remove', 'reverse', 'index', 'clear', 'copy'):
            raise Unsupported('list.' + name)
        raise PyRaise('AttributeError', self.where())

    def clist_method(self, o, d, name, args):
        if name == 'append':
            if isinstance(o, Ref) and o.rid[0] in self.alloc_types or not isinstance(o, Ref):
                raise Unsupported('append')
            # appended to in a loop: becomes a sequence of unknown length
            self.write(o, CList(d.items + [args[0]]))
            return NONEV
        if name == 'extend':
            items = self.known_items(args[0])
            if items is not None:
                self.write(o, CList(d.items + items))
                return NONEV
        raise Unsupported('list.' + name)

    def dict_method(self, o, d, name, args, kwargs):
        if name in ('items', 'keys', 'values'):
            return It(name, o)
        if name == 'update':
            src = self.deref(args[0]) if args else Rec({})
            if isinstance(src, Obj):
                src = src.base
            if isinstance(d, MapV) and isinstance(d.k, TUnk) and isinstance(src, Rec):
                d = Rec({})
            if isinstance(src, MapV) and isinstance(src.k, TUnk):
                src = Rec({})
            if isinstance(d, Rec) and isinstance(src, Rec):
                out = dict(d.d)
                out.update(src.d)
                out.update(kwargs)
                self.write(o, Rec(out))
                return NONEV
            if isinstance(d, MapV) and isinstance(src, Rec) and not src.d and not kwargs:
                return NONEV
            if isinstance(src, MapV) and isinstance(d, MapV) and not kwargs:
                obj = self.deref(o) if isinstance(self.deref(o), Obj) else None
                if isinstance(d.k, TUnk):
                    if obj is not None:
                        raise Unsupported('update of an object of unknown type')
                    self.learn(d.k.site[0], src.ty)
                if src.ty != d.ty:
                    raise Unsupported('update with another type')
                new = self.merge_maps(d, src)
                self.write(o, Obj(obj.cls, obj.attrs, new) if obj is not None else new, structural=True)
                if mutable(d.v):
                    self.notes.add('an argument is stored in a result without being copied')
                return NONEV
            raise Unsupported('dict.update')
        if name == 'get':
            k = args[0]
            if isinstance(d, Rec) and isinstance(k, StrV):
                return d.d.get(k.s, args[1] if len(args) > 1 else NONEV)
            if self.decide(self.contains(o, k)):
                return self.raw_get(o, k)
            return args[1] if len(args) > 1 else NONEV
        if name == 'setdefault':
            if not self.decide(self.contains(o, args[0])):
                self.raw_store(o, args[0], args[1])
            return self.raw_get(o, args[0])
        if name == 'pop':
            if isinstance(d, Rec) and isinstance(args[0], StrV):
                if args[0].s not in d.d:
                    if len(args) > 1:
                        return args[1]
                    raise PyRaise('KeyError', self.where())
                out = dict(d.d)
                v = out.pop(args[0].s)
                self.write(o, Rec(out))
                return v
            raise Unsupported('dict.pop')
        if name == '__contains__':
            return BoolV(self.contains(o, args[0]))
        if name == 'copy':
            return self.lib_dict([o], {})
        if name == 'fromkeys':
            raise Unsupported('fromkeys')
        raise Unsupported('dict.' + name)

    def merge_maps(self, a, b):
        ty = a.ty
        dom = self.const(z3.ArraySort(ty.k.sort(), B), 'dom')
        val = self.const(z3.ArraySort(ty.k.sort(), ty.v.sort()), 'val')
        x = z3.Const('x!m', ty.k.sort())
        da, db, va, vb = ty.dom(a.t), ty.dom(b.t), ty.val(a.t), ty.val(b.t)
        self.assume(z3.ForAll([x], z3.Select(dom, x) == z3.Or(z3.Select(da, x), z3.Select(db, x)), patterns=[z3.Select(dom, x)]))
        self.assume(z3.ForAll([x], z3.Select(val, x) == z3.If(z3.Select(db, x), z3.Select(vb, x), z3.Select(va, x)), patterns=[z3.Select(val, x)]))
        return MapV(ty.mk(dom, val), a.k, a.v, a.default)

    def str_split(self, d, args):
        """str.split with an explicit one-character separator, on a string held as a sequence of characters."""
        if d.kind != 'str':
            raise PyRaise('AttributeError', self.where())
        if len(args) != 1 or d.ety != TStr:
            raise Unsupported('split')
        c = self.enc(self.force(args[0]), TStr)
        if c is None or isinstance(args[0], StrV) and len(args[0].s) != 1:
            raise Unsupported('split by something other than a character')
        parts, _ = split_theory()
        return self.new(SeqV(parts(d.t, c), TSeq(TStr, 'str'), 'list'), self.site('split'))

    def __init__(self, t, num):
        StrT.__init__(self, t)
        self.num = num


def Iteration_(*a, **kw):
    import interp
    return interp.Iteration(*a, **kw)


def ContinueEx_():
    return ContinueEx()


def BreakEx_():
    return BreakEx()


_vals = {}


def vals(K, V):
    """The values of a dict, in the order in which its keys are listed."""
    ty = TMap(K, V)
    if ty not in _vals:
        T, KT = SeqTheory.of(V), SeqTheory.of(K)
        f = z3.Function('values_' + logic.safe(ty.key()), ty.sort(), T.S)
        m = z3.Const('m', ty.sort())
        i = z3.Int('i')
        dom, val = ty.dt().accessor(0, 0)(m), ty.dt().accessor(0, 1)(m)
        axiom('dict.values_len', [m], T.len(f(m)) == SetTheory.of(K).card(dom), [f(m)])
        axiom('dict.values_at', [m, i], z3.Implies(z3.And(0 <= i, i < T.len(f(m))), T.at(f(m), i) == z3.Select(val, KT.at(KT.enum(dom), i))), [T.at(f(m), i)], symbols={f.name()})
        _vals[ty] = f
    return _vals[ty]


_split = []


def split_theory():
    """parts(s, c): the pieces of s between the characters c; start(s, c, g): where piece g begins."""
    if _split:
        return _split
    S = SeqTheory.of(TStr)
    P = SeqTheory.of(TSeq(TStr))
    parts = z3.Function('split_parts', S.S, TStr.sort(), P.S)
    start = z3.Function('split_start', S.S, TStr.sort(), I, I)
    logic.UNFOLD['split_start'] = lambda e: logic.rec(e, 2, 0, lambda a, k: start(a[0], a[1], k) + S.len(P.at(parts(a[0], a[1]), k)) + 1)
    s = z3.Const('s', S.S)
    c = z3.Const('c', TStr.sort())
    g, i, j = z3.Ints('g i j')
    p = parts(s, c)
    ax = lambda n, vs, f, pat, syms=None: logic.axiom('str.split_' + n, vs, f, pat, symbols=syms)
    ax('pieces', [s, c], z3.And(P.len(p) >= 1, start(s, c, P.len(p)) == S.len(s) + 1), [p])
    ax('nonneg', [s, c, g], z3.Implies(z3.And(0 <= g, g < P.len(p)), start(s, c, g) >= 0), [start(s, c, g)])
    ax('item', [s, c, g, j], z3.Implies(z3.And(0 <= g, g < P.len(p), 0 <= j, j < S.len(P.at(p, g))),
                                        z3.And(S.at(P.at(p, g), j) == S.at(s, start(s, c, g) + j), S.at(P.at(p, g), j) != c)), [S.at(P.at(p, g), j)])
    ax('inside', [s, c, g, i], z3.Implies(z3.And(0 <= g, g < P.len(p), start(s, c, g) <= i, i < start(s, c, g) + S.len(P.at(p, g))), S.at(s, i) != c),
       [z3.MultiPattern(start(s, c, g), S.at(s, i))])
    ax('separator', [s, c, g], z3.Implies(z3.And(0 < g, g < P.len(p)), S.at(s, start(s, c, g) - 1) == c), [start(s, c, g)])
    _split[:] = [parts, start]
    return _split


split_theory()
