"""Symbolic execution of the real Python source with contracts at calls and inferred loop invariants."""
import ast
import os

import z3

import logic
from logic import (I, R, B, Ty, TInt, TDec, TFloat, TBool, TStr, TVal, TNone, TOpt, TTup, TSet, TSeq, TMap, NONE,
                   SeqTheory, SetTheory, fresh, discharge, check_z3)
from values import *  # noqa
from values import NONEV, lit, inj, join_ty, has_unk, mutable, TUnk, frac

REPO = os.environ.get('SEGEVAL_REPO', '/repo')
MAXDEPTH = 25


class Restart(Exception):
    """More is known about types or modified variables: explore again."""


class PathEnd(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, exc, where=''):
        Exception.__init__(self, exc)
        self.exc, self.where = exc, where


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


def AND(*xs):
    xs = [x for x in xs if not z3.is_true(x)]
    return z3.And(*xs) if len(xs) > 1 else (xs[0] if xs else z3.BoolVal(True))


class Obligation(object):
    def __init__(self, name, hyps, goal, where):
        self.name, self.hyps, self.goal, self.where = name, hyps, goal, where


class Source(object):
    """Parsed modules of the package, and their functions by qualified name."""
    _mods = {}

    @classmethod
    def tree(cls, mod):
        if mod not in cls._mods:
            base = os.path.join(REPO, *mod.split('.'))
            path = base + '.py' if os.path.isfile(base + '.py') else os.path.join(base, '__init__.py')
            if not os.path.isfile(path):
                cls._mods[mod] = None
            else:
                with open(path, encoding='utf-8') as f:
                    cls._mods[mod] = ast.parse(f.read(), path)
        return cls._mods[mod]


class Ex(object):
    def __init__(self, contracts, unit=None):
        self.contracts = contracts          # qualified name -> list of cases
        self.unit = unit
        self.store = {}
        self.pc = []
        self.obls = []
        self.seen_obl = set()
        self.record = True
        self.path, self.pos, self.pending = [], 0, None
        self.ctr = {}
        self.chain = ()
        self.depth = 0
        self.alloc_types = {}
        self.loops = {}
        self.houdini = {}
        self.feas = {}
        self.uses = set()
        self.modifiable = set()
        self.frames = 0
        self.line = 0
        self.fnname = ''
        self.globals_done = False
        self.notes = set()
        self.budget = None
        self.assumed_facts = set()
        self.quiet = 0

    # ------------------------------------------------------------------------------------------- state
    def snapshot(self):
        return (dict(self.store), list(self.pc), dict(self.ctr), self.chain, self.depth, self.frames, self.line, self.fnname)

    def restore(self, s):
        self.store, self.pc, self.ctr = dict(s[0]), list(s[1]), dict(s[2])
        self.chain, self.depth, self.frames, self.line, self.fnname = s[3:]

    def tick(self, name):
        n = self.ctr.get(name, 0)
        self.ctr[name] = n + 1
        return n

    def const(self, sort, hint='v'):
        return z3.Const('%s!%d' % (hint, self.tick('const')), sort)

    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        self.pc.append(f)

    def where(self):
        return '%s line %s' % (self.fnname, self.line)

    def oblige(self, name, goal, where=None):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if not self.record:
            return
        g = z3.simplify(goal)
        key = (tuple(p.get_id() for p in self.pc), g.get_id())
        if key in self.seen_obl:
            return
        self.seen_obl.add(key)
        self.obls.append(Obligation(name, list(self.pc), g, where or self.where()))

    # ------------------------------------------------------------------------------------------- decisions
    def explore(self, fn):
        """Runs fn for every sequence of decisions from the current state; returns the list of results."""
        snap = self.snapshot()
        saved = self.path, self.pos, self.pending
        work = [[]]
        out = []
        n = 0
        try:
            while work:
                n += 1
                if n > 600:
                    raise Unsupported('too many paths in ' + self.where())
                self.restore(snap)
                self.path, self.pos, self.pending = work.pop(), 0, []
                try:
                    out.append(fn())
                except PathEnd:
                    pass
                work.extend(self.pending)
        finally:
            self.path, self.pos, self.pending = saved
            self.restore(snap)
        return out

    def choose(self, n):
        if self.pos < len(self.path):
            d = self.path[self.pos]
        else:
            if self.pending is None:
                raise Unsupported('decision outside of an exploration')
            d = 0
            for alt in range(1, n):
                self.pending.append(self.path[:self.pos] + [alt])
            self.path = self.path + [0]
        self.pos += 1
        return d

    def feasible(self, c):
        key = (tuple(p.get_id() for p in self.pc), c.get_id())
        r = self.feas.get(key)
        if r is None:
            r = check_z3(self.pc, z3.Not(c), 150, 1)[0] != 'proved'
            self.feas[key] = r
            self.feas.setdefault('keep', []).append((list(self.pc), c))
        return r

    def decide(self, c):
        """The truth of c on this path."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        nc = z3.simplify(z3.Not(c))
        if not self.feasible(c):
            self.assume(nc)
            return False
        if not self.feasible(nc):
            self.assume(c)
            return True
        b = self.choose(2) == 0
        self.assume(c if b else nc)
        return b

    def known(self, c):
        """c holds on this path (used only to prefer a simpler form)."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return not self.feasible(z3.simplify(z3.Not(c)))

    # ------------------------------------------------------------------------------------------- types and terms
    def typeof(self, v):
        if isinstance(v, Num):
            return {'int': TInt, 'dec': TDec, 'float': TFloat}[v.kind]
        if isinstance(v, BoolV):
            return TBool
        if isinstance(v, NoneV):
            return TNone
        if isinstance(v, (StrV, StrT)):
            return TStr
        if isinstance(v, ValV):
            return TVal
        if isinstance(v, OptV):
            t = self.typeof(v.val)
            return TOpt(t) if t is not None else None
        if isinstance(v, TupV):
            ts = [self.typeof(x) for x in v.items]
            if any(t is None for t in ts):
                return None
            return TTup(*ts, name=v.cls.name if v.cls else None, fields=v.cls.fields if v.cls else None)
        if isinstance(v, SeqV):
            return TSeq(v.ety, v.kind)
        if isinstance(v, SetV):
            return TSet(v.ety, v.kind)
        if isinstance(v, MapV):
            return TMap(v.k, v.v)
        if isinstance(v, CList):
            t = TUnk('clist')
            for x in v.items:
                t = join_ty(t, self.typeof(x))
                if t is None:
                    return None
            return TSeq(t, 'list')
        if isinstance(v, (Ref, Place)):
            return self.typeof(self.deref(v))
        return None

    def enc(self, v, ty):
        """The term of sort ty standing for v, or None if v is not of that type."""
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if isinstance(ty, TOpt):
            if isinstance(v, NoneV):
                return ty.none()
            if isinstance(v, OptV):
                x = self.enc(v.val, ty.t)
                return None if x is None else z3.simplify(z3.If(v.isnone, ty.none(), ty.some(x)))
            x = self.enc(v, ty.t)
            return None if x is None else ty.some(x)
        if isinstance(v, OptV):
            if self.known(z3.Not(v.isnone)):
                return self.enc(v.val, ty)
            return None
        if isinstance(v, (Ref, Place)):
            return self.enc(self.deref(v), ty)
        if isinstance(v, It) and isinstance(ty, TSeq) and v.kind == 'values':
            s = self.as_seq(v)
            return s.t if s.ety == ty.t else None
        if ty == TVal:
            if isinstance(v, ValV):
                return v.t
            t = self.typeof(v)
            if t is None:
                return self.val_of_fn(v)
            return inj(t)[0](self.enc(v, t))
        if ty in (TInt, TDec, TFloat):
            if isinstance(v, BoolV) and ty == TInt:
                return z3.simplify(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
            if not isinstance(v, Num):
                return None
            if ty == TInt:
                return v.t if v.kind == 'int' else None
            if ty == TDec:
                return v.real() if v.kind in ('int', 'dec') else None
            return v.real() if v.kind == 'float' else None
        if ty == TBool:
            return v.t if isinstance(v, BoolV) else None
        if ty == TStr:
            return lit(v.s) if isinstance(v, StrV) else v.t if isinstance(v, StrT) else None
        if ty == TNone:
            return NONE if isinstance(v, NoneV) else None
        if isinstance(ty, TTup):
            if not isinstance(v, TupV) or len(v.items) != len(ty.ts):
                if isinstance(v, CList) and len(v.items) == len(ty.ts):
                    pass
                else:
                    return None
            xs = [self.enc(x, t) for x, t in zip(v.items, ty.ts)]
            return None if any(x is None for x in xs) else ty.mk(*xs)
        if isinstance(ty, TSeq):
            T = SeqTheory.of(ty.t)
            if isinstance(v, SeqV):
                if v.ety == ty.t:
                    return v.t
                if isinstance(v.ety, TUnk):
                    return T.empty
                return None
            if isinstance(v, (TupV, CList)):
                r = T.empty
                for x in v.items:
                    e = self.enc(x, ty.t)
                    if e is None:
                        return None
                    r = T.snoc(r, e)
                return r
            return None
        if isinstance(ty, TSet):
            if isinstance(v, SetV):
                if v.ety == ty.t:
                    return v.t
                if isinstance(v.ety, TUnk):
                    return SetTheory.of(ty.t).empty
            if isinstance(v, SeqV) and isinstance(v.ety, TUnk) and ty.kind == 'mixed':
                return SetTheory.of(ty.t).empty
            return None
        if isinstance(ty, TMap):
            if isinstance(v, MapV):
                if v.ty == ty:
                    return v.t
                if isinstance(v.k, TUnk):
                    return ty.mk(z3.K(ty.k.sort(), False), self.anymap(ty))
            return None
        if isinstance(ty, TUnk):
            return None
        return None

    def anymap(self, ty):
        return z3.Const('any_' + logic.safe(ty.key()), z3.ArraySort(ty.k.sort(), ty.v.sort()))

    def val_of_fn(self, v):
        if isinstance(v, (FnV, Lib, Opaque)):
            return z3.Const('fn!' + (v.qual if isinstance(v, FnV) else v.name), TVal.sort())
        return None

    def dec(self, t, ty):
        """The value of type ty that a term stands for (mutable parts come out as read-only copies)."""
        if ty == TInt:
            return Num(t, 'int')
        if ty == TDec:
            return Num(t, 'dec')
        if ty == TFloat:
            return Num(t, 'float')
        if ty == TBool:
            return BoolV(t)
        if ty == TStr:
            return StrT(t)
        if ty == TVal:
            return ValV(t)
        if ty == TNone:
            return NONEV
        if isinstance(ty, TOpt):
            return OptV(z3.simplify(ty.is_none(t)), self.dec(z3.simplify(ty.get(t)), ty.t))
        if isinstance(ty, TTup):
            cls = NTCls(ty.name, ty.fields) if ty.name else None
            return TupV([self.dec(z3.simplify(ty.get(t, i)), x) for i, x in enumerate(ty.ts)], cls)
        if isinstance(ty, TSeq):
            SeqTheory.of(ty.t)
            return SeqV(t, ty.t, ty.kind)
        if isinstance(ty, TSet):
            SetTheory.of(ty.t)
            return SetV(t, ty.t, ty.kind)
        if isinstance(ty, TMap):
            return MapV(t, ty.k, ty.v)
        raise Unsupported('value of type %s' % ty)

    def sym(self, ty, hint):
        return self.dec(self.const(ty.sort(), hint), ty)

    # ------------------------------------------------------------------------------------------- heap
    def new(self, content, site=None):
        site = site if site is not None else (self.line, self.chain)
        rid = (site, self.tick(('ref', site)))
        self.store[('h', rid)] = content
        self.store[('g', rid)] = 0
        return Ref(rid)

    def deref(self, v):
        if isinstance(v, Ref):
            c = self.store.get(('h', v.rid))
            if c is None:
                raise Unsupported('object out of scope')
            if isinstance(c, Poison):
                raise Unsupported(c.why)
            if isinstance(c, Place):
                return self.deref(c)
            return c
        if isinstance(v, Place):
            if self.store.get(('g', v.root.rid)) != v.gen:
                raise Unsupported('object whose container was changed in the meantime')
            root = self.deref(v.root)
            return self.dec(self.at_path(root, v.path), v.ty)
        return v

    def root_term(self, c):
        if isinstance(c, SeqV):
            return c.t
        if isinstance(c, SetV):
            return c.t
        if isinstance(c, MapV):
            return c.t
        if isinstance(c, TupV):
            t = self.typeof(c)
            return self.enc(c, t)
        if isinstance(c, Obj):
            return self.root_term(c.base)
        raise Unsupported('path into %s' % type(c).__name__)

    def at_path(self, root, path):
        t = self.root_term(root)
        ty = self.typeof(root.base if isinstance(root, Obj) else root)
        for kind, key in path:
            if kind == 'key':
                t, ty = z3.Select(ty.val(t), key), ty.v
            elif kind == 'idx':
                t, ty = SeqTheory.of(ty.t).at(t, key), ty.t
            else:
                t, ty = ty.get(t, key), ty.ts[key]
        return z3.simplify(t)

    def put_path(self, t, ty, path, new):
        if not path:
            return new
        kind, key = path[0]
        if kind == 'key':
            inner = self.put_path(z3.simplify(z3.Select(ty.val(t), key)), ty.v, path[1:], new)
            return ty.mk(ty.dom(t), z3.Store(ty.val(t), key, inner))
        if kind == 'idx':
            T = SeqTheory.of(ty.t)
            return T.upd(t, key, self.put_path(T.at(t, key), ty.t, path[1:], new))
        xs = [z3.simplify(ty.get(t, i)) for i in range(len(ty.ts))]
        xs[key] = self.put_path(xs[key], ty.ts[key], path[1:], new)
        return ty.mk(*xs)

    def frame_check(self, rid):
        if isinstance(rid[0], tuple) and rid[0] and rid[0][0] in ('param', 'global'):
            if rid not in self.modifiable:
                self.oblige('frame: %s is not modified' % (rid[0][1],), False)

    def write(self, v, content, structural=False):
        """Replaces the contents of a mutable object."""
        if isinstance(v, Ref):
            c = self.store.get(('h', v.rid))
            if isinstance(c, Place):
                return self.write(c, content, structural)
            self.frame_check(v.rid)
            self.store[('h', v.rid)] = content
            if structural:
                self.store[('g', v.rid)] = self.store[('g', v.rid)] + 1 if isinstance(self.store[('g', v.rid)], int) else ('s', self.tick('gen'))
            return
        if isinstance(v, Place):
            if self.store.get(('g', v.root.rid)) != v.gen:
                raise Unsupported('object whose container was changed in the meantime')
            t = self.enc(content, v.ty)
            if t is None:
                raise Unsupported('contents of another type stored in %s' % v.ty)
            rid = v.root.rid
            self.frame_check(rid)
            c = self.store[('h', rid)]
            if isinstance(c, Obj):
                ty = self.typeof(c.base)
                self.store[('h', rid)] = Obj(c.cls, c.attrs, self.rebase(c.base, self.put_path(c.base.t, ty, v.path, t)))
            elif isinstance(c, (SeqV, MapV)):
                self.store[('h', rid)] = self.rebase(c, self.put_path(c.t, self.typeof(c), v.path, t))
            else:
                raise Unsupported('change inside %s' % type(c).__name__)
            return
        raise Unsupported('change of an immutable or shared object')

    def rebase(self, c, t):
        if isinstance(c, SeqV):
            return SeqV(t, c.ety, c.kind)
        if isinstance(c, MapV):
            return MapV(t, c.k, c.v, c.default)
        return SetV(t, c.ety, c.kind)

    def child(self, v, kind, key, term, ty):
        """The part of container v reached by one step: a place if it is mutable, else its value."""
        if mutable(ty):
            if isinstance(v, Ref):
                c = self.store.get(('h', v.rid))
                if isinstance(c, Place):
                    return self.child(c, kind, key, term, ty)
                return Place(v, [(kind, key)], ty, self.store[('g', v.rid)])
            if isinstance(v, Place):
                return Place(v.root, v.path + [(kind, key)], ty, v.gen)
        return self.dec(z3.simplify(term), ty)

    def site_type(self, kind):
        """Element type(s) known so far for a container created empty at this site."""
        site = (kind, self.line_col, self.chain)
        t = self.alloc_types.get(site)
        return site, self.resolve(t) if t is not None else None

    def resolve(self, t):
        """t with the unknown types that have been learned meanwhile filled in."""
        if isinstance(t, TUnk):
            if t.site in self.alloc_types:
                return self.resolve(self.alloc_types[t.site])
            if isinstance(t.site, tuple) and len(t.site) == 2 and t.site[0] in self.alloc_types and t.site[1] in ('k', 'v'):
                m = self.resolve(self.alloc_types[t.site[0]])
                return m.k if t.site[1] == 'k' else m.v
            return t
        if isinstance(t, TSeq):
            return TSeq(self.resolve(t.t), t.kind)
        if isinstance(t, TSet):
            return TSet(self.resolve(t.t), t.kind)
        if isinstance(t, TOpt):
            return TOpt(self.resolve(t.t))
        if isinstance(t, TTup):
            return TTup(*[self.resolve(x) for x in t.ts], name=t.name, fields=t.fields)
        if isinstance(t, TMap):
            return TMap(self.resolve(t.k), self.resolve(t.v))
        return t

    def learn(self, site, ty):
        old = self.alloc_types.get(site)
        j = ty if old is None else join_ty(old, ty)
        if j is None:
            raise Unsupported('container of mixed element types %s, %s' % (old, ty))
        if j == old and repr(j) == repr(old):
            raise Unsupported('element type %s not accepted at %s' % (ty, site,))
        self.alloc_types[site] = j
        raise Restart()

    def learn_into(self, cty, vty):
        """cty: the element type of a container; vty: the type of an element that does not fit it."""
        if isinstance(cty, TUnk):
            self.learn(cty.site, vty)
        # an unknown part inside
        def find(a, b):
            if isinstance(a, TUnk) and not isinstance(b, TUnk):
                self.learn(a.site, b)
            if isinstance(a, TOpt) and not isinstance(b, TOpt):
                return find(a.t, b)
            if type(a) is type(b):
                if isinstance(a, (TSeq, TSet, TOpt)):
                    find(a.t, b.t)
                elif isinstance(a, TTup):
                    for x, y in zip(a.ts, b.ts):
                        find(x, y)
                elif isinstance(a, TMap):
                    find(a.k, b.k)
                    find(a.v, b.v)
        find(cty, vty)
        if hasattr(cty, 'origin'):
            self.learn(cty.origin, vty)

    def mk_empty(self, kind):
        site, ty = self.site_type(kind)
        if kind == 'dict':
            if ty is None:
                return self.new(MapV(None, TUnk((site, 'k')), TUnk((site, 'v'))), site)
            m = ty
            return self.new(MapV(m.mk(z3.K(m.k.sort(), False), self.anymap(m)), m.k, m.v), site)
        if ty is None:
            ty = TUnk(site)
        else:
            import copy
            ty = copy.copy(ty)
            ty.origin = site
        if kind == 'list':
            return self.new(SeqV(SeqTheory.of(ty).empty, ty, 'list'), site)
        return self.new(SetV(SetTheory.of(ty).empty, ty, 'set'), site)

    def elem(self, v, ety):
        """Encode an element to be stored in a container of element type ety (learning a better type if needed)."""
        t = self.enc(v, ety)
        if t is None:
            vt = self.typeof(v)
            if vt is None:
                raise Unsupported('element %s in a container' % type(v).__name__)
            self.learn_into(ety, vt)
            raise Unsupported('element of type %s in a container of %s' % (vt, ety))
        return t

    def moved(self, v, place):
        """v (a mutable object) is now reachable through a container."""
        if isinstance(v, Ref):
            if isinstance(v.rid[0], tuple) and v.rid[0] and v.rid[0][0] in ('param', 'global'):
                self.store[('h', v.rid)] = self.store[('h', v.rid)]
                # sharing of a caller's object: remembered, so that a later change of either is not lost
                self.notes.add('an argument is stored in a result without being copied')
                return
            self.store[('h', v.rid)] = place
        elif isinstance(v, TupV):
            for i, x in enumerate(v.items):
                if isinstance(x, (Ref, TupV)) and isinstance(place, Place):
                    self.moved(x, Place(place.root, place.path + [('fld', i)], place.ty.ts[i], place.gen) if isinstance(place.ty, TTup) else Poison('shared object'))
        elif isinstance(v, Place):
            pass


# The interpreter proper is in interp.py
