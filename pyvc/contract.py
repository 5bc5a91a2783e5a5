"""Contracts (cases of a function), lemmas, and the verification of one unit."""
import time
import traceback

import z3

import logic
from logic import *  # noqa
from values import *  # noqa
from values import NONEV, lit, inj
from execu import *  # noqa
from execu import AND
from interp import Interp

CASES = {}        # qualified function name -> [Case]
UNITS = {}        # uid -> Case or Lemma
FACTS = {}        # formula id -> (lemmas it is an instance of, formulas to prove, the formula)


def fact(f, deps=(), prove=()):
    FACTS[f.get_id()] = (set(deps), list(prove), f)
    return f


def justify(f):
    """What a fact handed to a proof rests on: (lemmas, formulas that have to be proved first)."""
    if f.get_id() in FACTS:
        return FACTS[f.get_id()][:2]
    if z3.is_and(f):
        js = [justify(c) for c in f.children()]
        return set().union(*[d for d, _ in js]), [p for _, ps in js for p in ps]
    return set(), [f]


def each(vs, parts, pats, guard=None):
    """All of these facts for all values of the variables."""
    parts = parts if isinstance(parts, list) else [parts]
    close = lambda f: z3.ForAll(vs, z3.Implies(guard, f) if guard is not None else f, patterns=pats)
    deps, prove = set(), []
    for p in parts:
        d, ps = justify(p)
        deps |= d
        prove += [close(x) for x in ps]
    return fact(close(z3.And(*parts)), deps, prove)


class A(object):
    """The arguments of a case: terms (or values, for parameters without a sort) by name."""
    def __init__(self):
        self.__dict__['val'] = {}

    def __setitem__(self, k, v):
        self.__dict__[k] = v


# ------------------------------------------------------------------------------------------------ parameter specs
class P(object):
    """name -> how a parameter is made (when the function is verified) and matched (when it is called)."""


class PTy(P):

    def __init__(self, ty):
        self.ty = ty

    def with_kind(self, kind):
        """The same parameter, as a list or a tuple (the code may not depend on which)."""
        if not isinstance(self.ty, TSeq) or self.ty.kind == 'str':
            return self
        return PTy(TSeq(self.ty.t, kind))

    def make(self, ex, name, a):
        ty = self.ty
        t = ex.const(ty.sort(), name)
        a[name] = t
        v = ex.dec(t, ty)
        if isinstance(ty, TSeq) and ty.kind == 'list' or isinstance(ty, TSet) and ty.kind == 'set' or isinstance(ty, TMap):
            v = ex.new(v, ('param', name))
        a.val[name] = v
        return v

    def match(self, ex, name, v, a):
        t = ex.enc(v, self.ty)
        if t is None:
            return False
        if isinstance(self.ty, TSeq) and (self.ty.kind == 'str') != (getattr(ex.deref(v), 'kind', '') == 'str'):
            return False
        a[name] = t
        a.val[name] = v
        return True


class PConst(P):
    """A parameter with this very value: None, a bool, a string, a number or a function."""
    def __init__(self, value):
        self.value = value

    def make(self, ex, name, a):
        v = self.build(ex)
        a[name] = v
        a.val[name] = v
        return v

    def build(self, ex):
        x = self.value
        if x is None:
            return NONEV
        if isinstance(x, bool):
            return BoolV(x)
        if isinstance(x, int):
            return Num(z3.IntVal(x))
        if isinstance(x, str):
            return StrV(x)
        if callable(x):
            return x(ex)
        raise ValueError(x)

    def match(self, ex, name, v, a):
        want = self.build(ex)
        a[name] = want
        a.val[name] = v
        if isinstance(v, OptV) and isinstance(want, NoneV):
            return ex.known(v.isnone)
        try:
            c = ex.equal(v, want)
        except Unsupported:
            return False
        return ex.known(c)


class PAny(P):
    """A parameter the function does not use in a way the contract depends on."""
    def make(self, ex, name, a):
        v = ex.sym(TVal, name)
        a[name] = v.t
        a.val[name] = v
        return v

    def match(self, ex, name, v, a):
        a[name] = v
        a.val[name] = v
        return True


class PTup(P):
    def __init__(self, *specs):
        self.specs = specs      # (name, spec)

    def make(self, ex, name, a):
        v = TupV([s.make(ex, n, a) for n, s in self.specs])
        a.val[name] = v
        return v

    def match(self, ex, name, v, a):
        items = ex.known_items(v) if not isinstance(v, Poison) else None
        a.val[name] = v
        return items is not None and len(items) == len(self.specs) and all(s.match(ex, n, x, a) for (n, s), x in zip(self.specs, items))


class PRec(P):
    """A keyword dictionary with exactly these keys."""
    def __init__(self, **specs):
        self.specs = specs

    def make(self, ex, name, a):
        v = ex.new(Rec({n: s.make(ex, n, a) for n, s in self.specs.items()}), ('param', name))
        a.val[name] = v
        return v

    def match(self, ex, name, v, a):
        d = ex.deref(v)
        a.val[name] = v
        if isinstance(d, MapV) and isinstance(d.k, TUnk):
            d = Rec({})
        return isinstance(d, Rec) and set(d.d) == set(self.specs) and all(s.match(ex, n, d.d[n], a) for n, s in self.specs.items())


class PCustom(P):
    def __init__(self, make, match):
        self._make, self._match = make, match

    def make(self, ex, name, a):
        v = self._make(ex, name, a)
        a.val[name] = v
        return v

    def match(self, ex, name, v, a):
        a.val[name] = v
        return self._match(ex, name, v, a)


class Unit(object):
    houdini_ms = 1500
    timeout_ms = 12000
    rounds = 3
    without = ()        # axioms this proof does without

    def candidates(self, ex, L):
        return ()

    def cuts(self, ex, L):
        return ()

    def object_type(self, ex, cls):
        return None

    def library(self, ex, name):
        return None


class Case(Unit):
    """One contract of a function.  Subclass attributes and methods:

    fn        qualified name          params   ordered {name: P}
    requires(a) -> [Bool]             raises(a) -> [(Bool, exception name)]: exactly when it raises
    result(ex, a) -> fresh value      ensures(ex, a, r) -> [(name, Bool)]; r: the result value
    candidates(ex, L) -> [(name, Bool)]   candidate loop invariants (self.a: the arguments)
    modifies  names of parameters whose contents may change
    """
    modifies = ()
    params = {}
    opaque = False      # not verified: an assumed contract on something outside the package
    varies = ''

    def requires(self, a):
        return []

    def raises(self, a):
        return []

    def result(self, ex, a):
        raise NotImplementedError

    def ensures(self, ex, a, r):
        return []

    def facts(self, ex, a):
        """Instances of lemmas that this proof uses (each proved as a unit of its own)."""
        return []

    def hints(self, ex, a, r):
        """[(lemma, terms)]: instances of proved lemmas, available to the proof of the postconditions."""
        return []

    # at a call
    def match(self, ex, bound):
        a = A()
        if set(bound) != set(self.params):
            return None
        for n, s in self.params.items():
            if isinstance(bound[n], Poison):
                return None
            if not s.match(ex, n, bound[n], a):
                return None
        return a

    def apply(self, ex, a, bound):
        for i, p in enumerate(self.requires(a)):
            ex.oblige('precondition %d of %s' % (i + 1, self.uid), p)
        for c, exc in self.raises(a):
            if ex.decide(c):
                raise PyRaise(exc, ex.where())
        r = self.result(ex, a)
        for n in self.modifies:
            self.havoc_param(ex, a, n)
        for n, f in self.ensures(ex, a, r):
            ex.assume(f)
        return r

    def havoc_param(self, ex, a, n):
        ty = self.params[n].ty
        v = a.val[n]
        old = ex.deref(v)
        new = ex.sym(ty, n)
        if isinstance(old, MapV):
            new.default = old.default
        elif isinstance(old, (SeqV, SetV)):
            new.kind = old.kind
        else:
            raise Unsupported('contract that modifies this parameter')
        ex.write(v, new, structural=True)

    # its verification
    def setup(self, ex):
        a = A()
        vals = {}
        for n, s in self.params.items():
            vals[n] = s.make(ex, n, a)
        for p in self.requires(a):
            ex.assume(p)
        return a, vals

    def function(self, ex):
        mod, name = self.fn.rsplit('.', 1)
        if Source.tree(mod) is None:
            mod, cname = mod.rsplit('.', 1)
            cls = ex.import_from(mod, cname)
            return ex.cls_attr(cls, name)
        v = ex.import_from(mod, name)
        if not isinstance(v, FnV):
            raise Unsupported('%s is not a function' % self.fn)
        return v

    def check_paths(self, ex):
        """One path of the function (called under exploration)."""
        f = self.function(ex)
        if f is None:
            raise Unsupported('%s does not exist' % self.fn)
        a, vals = self.setup(ex)
        for f_ in self.facts(ex, a):
            deps, prove = justify(f_)
            ex.uses |= deps
            for p in prove:
                ex.oblige('fact about the specification', p)
            ex.assume(f_)
        self.a = a
        ex.modifiable = set(((('param', n), 0)) for n in self.modifies)
        raises = self.raises(a)
        try:
            node = f.node.args
            names = [x.arg for x in node.posonlyargs + node.args]
            args = [vals[n] for n in names if n in vals]
            extra = {}
            if node.vararg is not None and node.vararg.arg in vals:
                args += vals[node.vararg.arg].items
            if node.kwarg is not None and node.kwarg.arg in vals:
                d = ex.deref(vals[node.kwarg.arg])
                bound = {n: vals[n] for n in names if n in vals}
                if node.vararg is not None:
                    bound[node.vararg.arg] = vals.get(node.vararg.arg, TupV([]))
                # ** builds a new dictionary in the callee
                bound[node.kwarg.arg] = ex.new(d, (('kwargs',), ()))
                missing = set(names) - set(bound)
                if missing:
                    raise Unsupported('parameters of %s changed' % self.fn)
                r = ex.inline(f, bound)
            else:
                if set(vals) != set(names) | ({node.vararg.arg} if node.vararg else set()):
                    raise Unsupported('parameters of %s changed: %s' % (self.fn, names))
                r = ex.inline(f, ex.bind(f, args, extra))
        except PyRaise as e:
            ok = [c for c, exc in raises if exc == e.exc]
            ex.oblige('%s is raised only when specified (%s)' % (e.exc, e.where), z3.Or(*ok) if ok else z3.BoolVal(False))
            return 'raise'
        for c, exc in raises:
            ex.oblige('returns normally only when %s is not due' % exc, z3.Not(c))
        ens = self.ensures(ex, a, r)
        for uid, ts in self.hints(ex, a, r):
            ex.uses.add(uid)
            ex.assume(UNITS[uid].inst(*ts))
        for n, g in ens:
            ex.oblige('postcondition: ' + n, g)
            ex.assume(g)        # (an obligation of its own, now available to the next ones)
        return 'return'

    def verify(self, contracts):
        t0 = time.time()
        logic.EXCLUDED = set(self.without)
        ex = Interp(contracts, self)
        self.a = None
        res = dict(name=self.uid, function=self.fn, obligations=[], status='proved', detail='', uses=[], guards=0)
        try:
            outs = None
            ex.discover = True
            for attempt in range(80):
                ex.store, ex.pc, ex.ctr, ex.obls, ex.seen_obl = {}, [], {}, [], set()
                ex.chain, ex.depth, ex.frames = (), 0, 0
                try:
                    ex.record = not ex.discover
                    outs = ex.explore(lambda: self.check_paths(ex))
                    if not ex.discover:
                        break
                    ex.discover = False
                except Restart:
                    if attempt == 79:
                        raise Unsupported('types do not settle')
            # vacuity: the precondition is satisfiable as far as the solver can tell, and some path returns
            if not outs:
                raise Unsupported('no path of the function ends')
            ex.restore(({}, [], {}, (), 0, 0, 0, ''))
            a, vals = self.setup(ex)
            st, _ = check_z3(ex.pc, z3.BoolVal(False), 1500, 2)
            res['guards'] += 1
            if st == 'proved':
                raise Unsupported('the precondition is contradictory')
        except Unsupported as e:
            res.update(status='unsupported', detail='%s' % e)
        except RecursionError:
            res.update(status='unsupported', detail='recursion limit of the executor')
        except Exception:
            res.update(status='unsupported', detail='executor error: ' + traceback.format_exc()[-1500:])
        if res['status'] == 'unsupported' and not any(not o.hyps for o in ex.obls):
            res['seconds'] = time.time() - t0
            res['uses'] = sorted(ex.uses)
            return res
        for o in ex.obls:
            hyps = o.hyps
            # (invariants were proved from these very hypotheses when they were selected)
            if ex.feas.get(('p', tuple(p.get_id() for p in hyps), z3.simplify(o.goal).get_id())):
                st, be, tm = 'proved', 'z3', 0
            else:
                st, be, tm = discharge(hyps, o.goal, self.timeout_ms)
            res['obligations'].append(dict(name='%s [%s]' % (o.name, o.where), status=st, backend=be, time=round(tm, 3),
                                           goal='' if st == 'proved' else str(o.goal)[:1500], hyps='' if st == 'proved' else [str(h)[:400] for h in hyps][-25:]))
            if st != 'proved':
                res['status'] = 'failed'
        if not res['obligations'] and res['status'] == 'proved':
            res.update(status='unsupported', detail='no obligations were generated')
        res['uses'] = sorted(ex.uses) + sorted(logic.USED)
        res['notes'] = sorted(ex.notes)
        res['seconds'] = time.time() - t0
        return res


class Lemma(Unit):
    """A fact about the specification functions, proved by the solver (by induction where `induct` names a variable).

    make(self) -> (vars, hyps, goal, patterns); registered as an axiom for every unit that comes after it."""
    def __init__(self, name, vs, hyps, goal, pats, induct=None, base=0, uses=(), symbols=None, trusted=False, extra=None, gen=None, auto=True, timeout=None, strong=False, without=()):
        self.without = without
        self.uid = name
        self.vs, self.hyps, self.goal, self.pats = vs, hyps, goal, pats
        self.induct, self.base, self.extra = induct, base, extra
        self.gen = gen          # variables other than the induction variable that the hypothesis generalises over
        self.trusted = trusted
        js = [justify(e) for e in extra or []]
        self.depends = list(uses) + sorted(set().union(*[d for d, _ in js]))
        self.toprove = [p for _, ps in js for p in ps]
        self.strong = strong
        if timeout:
            self.timeout_ms = timeout
        self.pos = len(AXIOMS)
        if auto:
            body = z3.Implies(AND(*hyps), goal) if hyps else goal
            syms = symbols
            axiom(name, vs, body, pats, group='lemma', symbols=syms)
        UNITS[name] = self

    def inst(self, *ts):
        """The lemma at these terms."""
        logic.USED.add(self.uid)
        body = z3.Implies(AND(*self.hyps), self.goal) if self.hyps else self.goal
        f = z3.substitute(body, *[(v, t if z3.is_expr(t) else z3.IntVal(t)) for v, t in zip(self.vs, ts)])
        return fact(f, [self.uid])

    def verify(self, contracts):
        t0 = time.time()
        res = dict(name=self.uid, function='', obligations=[], status='proved', detail='', uses=[], guards=0)
        logic.LIMIT[0] = self.pos
        logic.EXCLUDED = set(self.without)
        try:
            def ob(name, hyps, goal):
                st, be, tm = discharge(hyps, goal, self.timeout_ms)
                res['obligations'].append(dict(name='lemma %s: %s' % (self.uid, name), status=st, backend=be, time=round(tm, 3), goal='' if st == 'proved' else str(goal)[:800]))
                if st != 'proved':
                    res['status'] = 'failed'
            extra = list(self.extra or [])
            for k, f in enumerate(self.toprove):
                ob('fact %d' % (k + 1), [], f)
            if self.induct is None:
                ob('direct', list(self.hyps) + extra, self.goal)
            else:
                n = self.induct
                at = lambda f, t: z3.substitute(f, (n, t))
                b = z3.IntVal(self.base)
                others = [v for v in self.vs if not v.eq(n)] if self.gen is None else list(self.gen)
                ob('base case', [at(h, b) for h in self.hyps] + [at(e, b) for e in extra], at(self.goal, b))
                # step: n > base, hypothesis at n - 1
                body = z3.Implies(AND(*self.hyps), self.goal) if self.hyps else self.goal
                if self.strong:
                    m = z3.Int('m!ind')
                    ih = z3.ForAll([m], z3.Implies(z3.And(self.base <= m, m < n), at(body, m)))
                    hy = [ih]
                elif others and self.gen is not None:
                    bound = [z3.Const(str(v) + '!g', v.sort()) for v in others]
                    ihb = z3.substitute(at(body, n - 1), *list(zip(others, bound)))
                    hy = [z3.ForAll(bound, ihb)]
                else:
                    hy = [at(body, n - 1)]
                ob('induction step', [n > b] + list(self.hyps) + hy + extra, self.goal)
                if not any(h.eq(n >= self.base) for h in self.hyps):
                    ob('the induction covers the statement', list(self.hyps), n >= b)
        finally:
            logic.LIMIT[0] = None
        res['uses'] = sorted(set(self.depends) | set(x for x in logic.USED if x != self.uid))
        res['seconds'] = time.time() - t0
        return res


def register(cls):
    c = cls()
    c.uid = c.fn.replace('segeval.', '') + (' [%s]' % c.varies if c.varies else '')
    CASES.setdefault(c.fn, []).append(c)
    UNITS[c.uid] = c
    return cls


def both(cls):
    """Registers a case for segmentations given as tuples or lists: the proof does not depend on which."""
    c = cls()
    c.params = {n: p.with_kind('mixed') if isinstance(p, PTy) else p for n, p in c.params.items()}
    c.uid = c.fn.replace('segeval.', '') + (' [%s]' % c.varies if c.varies else '')
    CASES.setdefault(c.fn, []).append(c)
    UNITS[c.uid] = c
    return cls
