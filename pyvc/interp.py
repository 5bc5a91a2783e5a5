"""Statements, expressions, loops and calls."""
import os
import ast

import z3

from execu import *  # noqa
from execu import AND
from values import *  # noqa
from values import NONEV, lit, inj, join_ty, has_unk, mutable, TUnk, frac
from logic import *  # noqa
import lib

CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not',
       ast.In: 'in', ast.NotIn: 'not in'}


DUMP = []


class LoopView(object):
    """What invariant candidates may talk about: the iteration (k or done), the modified variables, the entry state."""
    def __init__(self, ex, it, vars, old, extra=None):
        self.ex, self.it, self.vars, self.old = ex, it, vars, old
        self.k = it.k
        self.done = it.done
        self.seq = it.src
        self.kind = it.kind
        self.extra = extra
        self.outer = list(ex.itstack)      # the iterations this loop runs within

    def of(self, ty):
        """Terms of the modified variables of this type (and with their names)."""
        out = []
        for name, v in self.vars:
            if isinstance(v, Poison):
                continue
            try:
                vt = self.ex.typeof(v)
                if vt is None or vt != ty and not (ty == TDec and vt == TInt):
                    continue
                t = self.ex.enc(v, ty)
            except Unsupported:
                continue
            if t is not None:
                out.append((name, t))
        return out


    def was(self, name, ty):
        """The same variable when the loop was entered."""
        return self.ex.enc(self.old[name], ty) if name in self.old else None


class Iteration(object):
    """kind 'idx': positions 0..n-1 in order, item(k); kind 'set': the elements of dom in any order, item(x)."""
    def __init__(self, kind, item, n=None, dom=None, ety=None, src=None, member=None, tag=None):
        self.kind, self.item, self.n, self.dom, self.ety, self.src, self.member = kind, item, n, dom, ety, src, member
        self.k = self.done = None
        self.tag = tag


class Interp(Ex, lib.Library):
    # ------------------------------------------------------------------------------------------- frames and names
    def frame_new(self, parent, module):
        self.frames += 1
        fid = ('f', self.chain, self.tick(('frame', self.chain)))
        self.store[('fp', fid)] = (parent, module)
        return fid

    def lookup(self, fid, name):
        f = fid
        while f is not None:
            v = self.store.get(('v', f, name))
            if v is not None:
                return v
            f, module = self.store[('fp', f)]
        v = self.store.get(('v', ('mod', module), name))
        if v is not None:
            return v
        v = self.builtin(name)
        if v is not None:
            return v
        raise Unsupported('name %s is not (always) defined here: %s' % (name, self.where()))

    def assign_name(self, fid, name, v):
        self.store[('v', fid, name)] = v

    # ------------------------------------------------------------------------------------------- modules
    def load_module(self, mod):
        """Executes the top level of a module of the package once."""
        if ('mod', mod) in self.store:
            return
        tree = Source.tree(mod)
        if tree is None:
            raise Unsupported('module ' + mod)
        self.store[('mod', mod)] = True
        fid = ('mod', mod)
        self.store[('fp', fid)] = (None, mod)
        saved = self.chain, self.fnname
        self.chain, self.fnname = (('module', mod),), mod
        snap_h = set(k for k in self.store if k[0] == 'h')
        for st in tree.body:
            try:
                self.stmt(st, fid)
            except (Unsupported, PyRaise) as e:
                # names the statement would have bound stay undefined: using them is unsupported
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.store[('v', fid, n.id)] = Poison('%s: top level of %s: %s' % (n.id, mod, e))
        # objects made at module level belong to the module
        for k in list(self.store):
            if k[0] == 'h' and k not in snap_h and not (isinstance(k[1][0], tuple) and k[1][0][0] == 'global'):
                self.rename_global(k[1], mod)
        self.chain, self.fnname = saved

    def rename_global(self, rid, mod):
        new = (('global', '%s:%s' % (mod, rid[0][1] if len(rid[0]) > 1 else rid[0])), str(rid))
        self.store[('h', new)] = self.store.pop(('h', rid))
        self.store[('g', new)] = self.store.pop(('g', rid))

        def fix(v, seen):
            if isinstance(v, Ref) and v.rid == rid:
                v.rid = new
            elif isinstance(v, TupV):
                for x in v.items:
                    fix(x, seen)
            elif isinstance(v, CList):
                for x in v.items:
                    fix(x, seen)
            elif isinstance(v, Rec):
                for x in v.d.values():
                    fix(x, seen)
            elif isinstance(v, ClsV):
                for x in v.attrs.values():
                    fix(x, seen)
            elif isinstance(v, FnV):
                for x in v.defaults:
                    fix(x, seen)
            elif isinstance(v, Obj):
                for x in v.attrs.values():
                    fix(x, seen)
        for v in list(self.store.values()):
            if isinstance(v, V):
                fix(v, set())

    def import_from(self, mod, name):
        if mod.split('.')[0] != 'segeval':
            return self.lib_name(mod, name)
        self.load_module(mod)
        v = self.store.get(('v', ('mod', mod), name))
        if v is None:
            if Source.tree(mod + '.' + name) is not None:
                return ModV(mod + '.' + name)
            raise Unsupported('cannot import %s from %s' % (name, mod))
        return v

    # ------------------------------------------------------------------------------------------- statements
    def block(self, body, fid):
        for st in body:
            self.stmt(st, fid)

    def stmt(self, st, fid):
        self.line = st.lineno
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s, line %d' % (type(st).__name__, st.lineno))
        m(st, fid)

    def st_Pass(self, st, fid):
        pass

    def st_Expr(self, st, fid):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, fid)

    def st_Return(self, st, fid):
        raise ReturnEx(self.ev(st.value, fid) if st.value is not None else NONEV)

    def st_Assign(self, st, fid):
        v = self.ev(st.value, fid)
        for t in st.targets:
            self.assign(t, v, fid)

    def st_AnnAssign(self, st, fid):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fid), fid)

    def st_AugAssign(self, st, fid):
        op = type(st.op)
        if isinstance(st.target, ast.Name):
            old = self.ev(ast.Name(id=st.target.id, ctx=ast.Load(), lineno=st.lineno, col_offset=0), fid)
            v = self.ev(st.value, fid)
            d = self.deref(old)
            if isinstance(old, (Ref, Place)) and isinstance(d, (SeqV, CList)):
                if op is ast.Add:
                    self.method(old, 'extend', [v], {})
                    return
                raise Unsupported('augmented assignment to a list')
            if isinstance(old, (Ref, Place)) and isinstance(d, SetV):
                self.method(old, {ast.BitOr: 'update', ast.Sub: 'difference_update', ast.BitAnd: 'intersection_update', ast.BitXor: 'symmetric_difference_update'}[op], [v], {})
                return
            if isinstance(old, Ref) and isinstance(d, Obj) and op is ast.Add:
                f = self.cls_attr(d.cls, '__iadd__')
                if f is not None:
                    self.assign(st.target, self.call(f, [old, v], {}), fid)
                    return
            self.assign_name(fid, st.target.id, self.binop(op, old, v))
        elif isinstance(st.target, ast.Subscript):
            o = self.ev(st.target.value, fid)
            k = self.ev_index(st.target.slice, fid)
            old = self.subscript(o, k)
            v = self.ev(st.value, fid)
            self.store_subscript(o, k, self.binop(op, old, v))
        elif isinstance(st.target, ast.Attribute):
            o = self.ev(st.target.value, fid)
            old = self.attribute(o, st.target.attr)
            self.set_attr(o, st.target.attr, self.binop(op, old, self.ev(st.value, fid)))
        else:
            raise Unsupported('augmented assignment')

    def assign(self, t, v, fid):
        if isinstance(t, ast.Name):
            self.assign_name(fid, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, items):
                self.assign(x, y, fid)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fid)
            self.store_subscript(o, self.ev_index(t.slice, fid), v)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.ev(t.value, fid), t.attr, v)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def unpack(self, v, n):
        d = self.deref(v)
        if isinstance(d, OptV):
            d = self.force(d)
        if isinstance(v, Place) and isinstance(v.ty, TTup):
            if len(v.ty.ts) != n:
                raise PyRaise('ValueError', self.where())
            return [self.child(v, 'fld', i, v.ty.get(self.enc(d, v.ty), i), v.ty.ts[i]) for i in range(n)]
        if isinstance(d, (TupV, CList)):
            if len(d.items) != n:
                raise PyRaise('ValueError', self.where())
            return list(d.items)
        if isinstance(d, SeqV):
            T = SeqTheory.of(d.ety)
            if not self.decide(T.len(d.t) == n):
                raise PyRaise('ValueError', self.where())
            return [self.child(v, 'idx', z3.IntVal(i), T.at(d.t, i), d.ety) if isinstance(v, (Ref, Place)) else self.dec(T.at(d.t, i), d.ety) for i in range(n)]
        if isinstance(d, It):
            items = self.known_items(d)
            if items is not None:
                if len(items) != n:
                    raise PyRaise('ValueError', self.where())
                return items
        raise Unsupported('unpacking of %s' % type(d).__name__)

    def st_If(self, st, fid):
        c = self.truth(self.ev(st.test, fid))
        if self.decide(c):
            self.block(st.body, fid)
        else:
            self.block(st.orelse, fid)

    def st_Assert(self, st, fid):
        if not self.decide(self.truth(self.ev(st.test, fid))):
            raise PyRaise('AssertionError', self.where())

    def st_Raise(self, st, fid):
        if st.exc is None:
            raise Unsupported('re-raise')
        e = st.exc
        name = None
        if isinstance(e, ast.Call):
            # the message may be computed by calls that matter only for termination
            cls = self.ev(e.func, fid)
            self.quiet += 1
            try:
                for a in e.args:
                    try:
                        self.ev(a, fid)
                    except Unsupported:
                        pass
            finally:
                self.quiet -= 1
        else:
            cls = self.ev(e, fid)
        name = getattr(cls, 'name', None)
        if isinstance(cls, Obj):
            name = cls.cls.name
        raise PyRaise(name or 'Exception', self.where())

    def st_Delete(self, st, fid):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                self.del_subscript(self.ev(t.value, fid), self.ev_index(t.slice, fid))
            elif isinstance(t, ast.Name):
                self.store.pop(('v', fid, t.id), None)
            else:
                raise Unsupported('del')

    def st_Import(self, st, fid):
        for a in st.names:
            if a.name.split('.')[0] == 'segeval':
                raise Unsupported('import ' + a.name)
            self.assign_name(fid, (a.asname or a.name).split('.')[0], ModV(a.asname and a.name or a.name.split('.')[0]))

    def st_ImportFrom(self, st, fid):
        if st.module == '__future__':
            return
        for a in st.names:
            self.assign_name(fid, a.asname or a.name, self.import_from(st.module, a.name))

    def st_FunctionDef(self, st, fid):
        if st.decorator_list:
            raise Unsupported('decorator')
        defaults = [self.ev(d, fid) for d in st.args.defaults]
        kwd = {a.arg: self.ev(d, fid) for a, d in zip(st.args.kwonlyargs, st.args.kw_defaults) if d is not None}
        f, module = self.store[('fp', fid)]
        qual = ('%s.%s' % (module, st.name)) if fid == ('mod', module) else '%s.<locals>.%s' % (self.fnname, st.name)
        self.assign_name(fid, st.name, FnV(st.name, st, module, None if fid == ('mod', module) else fid, defaults, kwd, qual))

    def st_ClassDef(self, st, fid):
        bases = [self.ev(b, fid) for b in st.bases]
        _, module = self.store[('fp', fid)]
        cid = ('c', fid, st.name)
        self.store[('fp', cid)] = (None, module)
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                f = FnV(s.name, s, module, None, [self.ev(d, fid) for d in s.args.defaults], {}, '%s.%s.%s' % (module, st.name, s.name))
                self.store[('v', cid, s.name)] = f
            else:
                self.stmt(s, cid)
        attrs = {k[2]: v for k, v in self.store.items() if k[0] == 'v' and k[1] == cid}
        self.assign_name(fid, st.name, ClsV(st.name, bases, attrs, '%s.%s' % (module, st.name)))

    def st_Try(self, st, fid):
        if st.orelse and st.handlers:
            raise Unsupported('try/else')
        try:
            try:
                self.block(st.body, fid)
            except PyRaise as e:
                for h in st.handlers:
                    if self.handles(h, e, fid):
                        if h.name:
                            self.assign_name(fid, h.name, Poison('exception object'))
                            self.store[('v', fid, h.name)] = ValV(self.const(TVal.sort(), 'exc'))
                        self.block(h.body, fid)
                        break
                else:
                    raise
        except (ReturnEx, PyRaise, BreakEx, ContinueEx):
            self.block(st.finalbody, fid)
            raise
        self.block(st.finalbody, fid)

    def handles(self, h, e, fid):
        if h.type is None:
            return True
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in types:
            c = self.ev(t, fid)
            name = getattr(c, 'name', None)
            if name in ('Exception', 'BaseException') or name == e.exc or (name, e.exc) in (('LookupError', 'KeyError'), ('LookupError', 'IndexError'), ('ArithmeticError', 'ZeroDivisionError')):
                return True
        return False

    def st_With(self, st, fid):
        for it in st.items:
            v = self.ev(it.context_expr, fid)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fid)
        self.block(st.body, fid)

    def st_Break(self, st, fid):
        raise BreakEx()

    def st_Continue(self, st, fid):
        raise ContinueEx()

    def st_Global(self, st, fid):
        raise Unsupported('global')

    # ------------------------------------------------------------------------------------------- loops
    def st_For(self, st, fid):
        it = self.ev(st.iter, fid)

        def body(item):
            self.assign(st.target, item, fid)
            self.block(st.body, fid)
        self.for_loop(('for', st.lineno, st.col_offset), it, body, st.orelse, fid)

    def for_loop(self, site, it, body, orelse, fid, hidden=None):
        items = self.known_items(it)
        if items is not None:
            for x in items:
                try:
                    body(x)
                except ContinueEx:
                    pass
                except BreakEx:
                    return
            self.block(orelse, fid)
            return
        iteration = self.iteration(it)
        self.cut_loop(site, iteration, body, orelse, fid)

    def st_While(self, st, fid):
        def body(item):
            self.line = st.lineno
            if not self.decide(self.truth(self.ev(st.test, fid))):
                raise BreakEx()
            self.block(st.body, fid)
        if st.orelse:
            raise Unsupported('while/else')
        self.notes.add('termination of while loops is not proved')
        self.cut_loop(('while', st.lineno, st.col_offset), Iteration('idx', lambda k: NONEV, n=None), body, [], fid)

    def candidates(self, it, snap, mods, entry, extra):
        vars = []
        for k in mods:
            if k in self.store:
                v = self.store[k]
                if k[0] == 'h':
                    v = v if not isinstance(v, Obj) else v.base
                    if v is None:
                        continue
                vars.append((k, v))
        L = LoopView(self, it, vars, entry, extra)
        out = {}
        if self.discover:
            return out
        for name, f in self.builtin_candidates(L):
            out[name] = f
        if self.unit is not None:
            for name, f in self.unit.candidates(self, L):
                if f is not None:
                    out.setdefault(name, f)
        return out

    def cuts(self, it, mods, entry, extra):
        """Assertions at the end of a loop body: each is proved, and then available to the proof of the invariants."""
        if self.unit is None or self.discover:
            return
        vars = [(k, self.store[k]) for k in mods if k in self.store]
        L = LoopView(self, it, vars, entry, extra)
        for name, f in self.unit.cuts(self, L):
            if self.proves(f, True):
                self.oblige('assertion (%s)' % (name,), f)
                self.assume(f)

    def builtin_candidates(self, L):
        if L.extra and 'pointwise' in L.extra and L.kind == 'idx':
            hk, fn, ety = L.extra['hidden'], L.extra['pointwise'], L.extra['ety']
            v = self.store.get(hk)
            if isinstance(v, SeqV) and v.ety == ety:
                T = SeqTheory.of(ety)
                j = z3.Int('j!pw')
                yield 'len', T.len(v.t) == L.k
                yield 'pointwise', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L.k), T.at(v.t, j) == fn(j)), patterns=[T.at(v.t, j)])

    def key_type(self, k, old, now):
        """The type of a variable or object that changes in a loop; None if it cannot be followed."""
        if isinstance(now, Poison) or isinstance(old, Poison):
            return None
        if k[0] == 'h':
            if isinstance(old, Obj):
                if old.base is None or any(old.attrs.get(a) is not now.attrs.get(a) for a in set(old.attrs) | set(now.attrs)):
                    to = {a: self.typeof(x) for a, x in old.attrs.items()}
                    tn = {a: self.typeof(x) for a, x in now.attrs.items()}
                    if set(to) != set(tn):
                        return None
                    attrs = {a: join_ty(to[a], tn[a]) for a in to if old.attrs[a] is not now.attrs[a]}
                    if any(t is None for t in attrs.values()):
                        return None
                    return ('obj', join_ty(self.typeof(old.base), self.typeof(now.base)) if old.base is not None else None, attrs)
                return ('obj', join_ty(self.typeof(old.base), self.typeof(now.base)), {})
            if isinstance(old, (Rec, CList)) or isinstance(now, (Rec, CList)):
                if isinstance(old, CList) or isinstance(now, CList):
                    return join_ty(self.typeof(old), self.typeof(now))
                return None
        if isinstance(old, (SeqV, CList)) and k[0] == 'h' and isinstance(self.typeof(old), TSeq):
            return join_ty(self.typeof(old), self.typeof(now))
        a, b = self.safe_type(old), self.safe_type(now)
        return join_ty(a, b)

    def safe_type(self, v):
        try:
            return self.typeof(v)
        except Unsupported:
            return None

    def havoc(self, key, ty, entry):
        hint = key[2] if key[0] == 'v' else 'heap'
        if ty is None:
            return Poison('%s: the executor cannot follow this variable through the loop' % (hint,))
        if isinstance(ty, tuple) and ty[0] == 'obj':
            base = entry.base
            if base is not None and ty[1] is not None:
                base = self.rebase(base, self.const(ty[1].sort(), 'obj'))
            attrs = dict(entry.attrs)
            for a, t in ty[2].items():
                attrs[a] = self.sym(t, a)
            return Obj(entry.cls, attrs, base)
        v = self.sym(ty, str(hint))
        if isinstance(v, MapV) and isinstance(entry, MapV):
            v.default = entry.default
        if isinstance(v, (SeqV,)) and key[0] == 'h':
            v.kind = 'list'
        return v

    def cut_loop(self, site, it, body, orelse, fid, extra=None):
        key = (site, self.chain)
        info = self.loops.setdefault(key, dict(mods={}, names=None))
        entry = dict(self.store)
        # modified parts known so far; keys not yet present on this path are local to the loop
        mods = sorted((k for k in info['mods'] if k in entry), key=repr)
        types = {}
        for k in mods:
            t0 = info['mods'][k]
            e = self.key_type(k, entry[k], entry[k])
            if t0 is None or e is None:
                types[k] = None
            elif isinstance(t0, tuple):
                types[k] = t0
            else:
                types[k] = join_ty(t0, e)
        lo = z3.IntVal(0)
        # entry
        self.set_iter(it, 'entry')
        snap = self.snapshot()
        sig = (key, tuple(p.get_id() for p in self.pc), tuple(mods), tuple(repr(types[k]) for k in mods), self.sig_extra(extra))
        names = self.houdini.get(sig)
        ent = self.candidates(it, snap, self.recast(mods, types, entry), entry, extra) if not self.discover else {}
        self.store = dict(entry)
        if names is not None and not names <= set(ent):
            names = None
        if self.discover:
            names = set()
        if names is None:
            names = set(n for n, f in ent.items() if self.proves(f))
            for n in ent:
                if n not in names:
                    self.debug('not at entry', site, n, ent[n])
            while True:
                bad = set()

                def attempt():
                    self.start_body(it, mods, types, entry, names, extra)
                    havoced = dict(self.store)
                    item = it.item(it.k if it.kind == 'idx' else it.x)
                    try:
                        self.within(it, body, item)
                    except ContinueEx:
                        pass
                    except (BreakEx, ReturnEx, PyRaise):
                        return
                    self.after_body(info, key, entry, havoced, mods, types)
                    self.cuts(it, mods, entry, extra)
                    self.set_iter(it, 'next')
                    post = self.candidates(it, None, mods, entry, extra)
                    for n in sorted(names - bad, key=str):
                        f = post.get(n)
                        if f is None or not self.proves(f):
                            bad.add(n)
                            self.debug('not preserved', site, n, f)
                rec, self.record = self.record, False
                lim = self.fast
                self.fast = True
                try:
                    self.explore(attempt)
                finally:
                    self.record = rec
                    self.fast = lim
                names = names - bad
                if not bad:
                    break
            self.houdini[sig] = names
            self.houdini.setdefault('keep', []).append(list(self.pc))
        self.set_iter(it, 'entry')
        for n in sorted(names, key=str):
            self.oblige('loop invariant holds at entry (%s)' % (n,), ent[n])
        taken = self.choose(2)
        if taken == 0:
            # one arbitrary iteration
            self.start_body(it, mods, types, entry, names, extra)
            if not self.feasible(z3.BoolVal(True)):
                raise PathEnd()
            havoced = dict(self.store)
            item = it.item(it.k if it.kind == 'idx' else it.x)
            try:
                self.within(it, body, item)
            except ContinueEx:
                pass
            except BreakEx:
                return
            self.after_body(info, key, entry, havoced, mods, types)
            self.cuts(it, mods, entry, extra)
            self.set_iter(it, 'next')
            post = self.candidates(it, None, mods, entry, extra)
            for n in sorted(names, key=str):
                self.oblige('loop invariant is preserved (%s)' % (n,), post.get(n, z3.BoolVal(False)))
            raise PathEnd()
        # after the loop
        self.havoc_all(mods, types, entry)
        self.set_iter(it, 'exit')
        if it.kind == 'idx' and it.n is None:
            raise PathEnd()          # while loops are left through their test (a break)
        for n, f in self.candidates(it, None, mods, entry, extra).items():
            if n in names:
                self.assume(f)
        if not self.feasible(z3.BoolVal(True)):
            raise PathEnd()
        self.block(orelse, fid)

    fast = False
    discover = False        # first pass: which variables do loops change, and of which types are they

    def debug(self, what, site, n, f):
        if os.environ.get('PYVC_DEBUG'):
            print('[%s]' % what, site, n, self.where(), flush=True)
            if os.environ['PYVC_DEBUG'] == 'dump' and f is not None:
                import pickle
                DUMP.append(1)
                with open('/tmp/dump%d.smt2' % len(DUMP), 'w') as o:
                    h, g = subgoals(f)[0]
                    o.write(smt2(relevant(self.pc + h, g), g, 2)[0])
                with open('/tmp/dump%d.txt' % len(DUMP), 'w') as o:
                    o.write('\n'.join(str(x) for x in self.pc) + '\n|-\n' + str(f))

    itstack = ()

    def within(self, it, body, item):
        saved = self.itstack
        self.itstack = saved + (it,)
        try:
            body(item)
        finally:
            self.itstack = saved

    def sig_extra(self, extra):
        return repr(sorted(extra)) if extra else None

    def recast(self, mods, types, entry):
        """Views of the entry values at the types used for the loop."""
        for k in mods:
            t = types[k]
            if t is None or isinstance(t, tuple):
                continue
            try:
                v = entry[k]
                e = self.enc(v, t)
                if e is not None:
                    self.store[k] = self.dec(e, t)
            except Unsupported:
                pass
        return mods

    def proves(self, f, once=False):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if self.discover:
            return False
        key = ('p', tuple(p.get_id() for p in self.pc), f.get_id())
        r = self.feas.get(key)
        if r is None:
            r = discharge(self.pc, f, 3000 if self.unit is None else self.unit.houdini_ms, quick=True)[0] == 'proved'
            if not r and not once:
                r = check_z3(self.pc, f, 3000 if self.unit is None else self.unit.houdini_ms, 3, 3)[0] == 'proved'
            self.feas[key] = r
            self.feas.setdefault('keep', []).append((list(self.pc), f))
        return r

    def start_body(self, it, mods, types, entry, names, extra):
        self.havoc_all(mods, types, entry)
        self.set_iter(it, 'arb')
        c = self.candidates(it, None, mods, entry, extra)
        for n in sorted(names, key=str):
            if n in c:
                self.assume(c[n])

    def havoc_all(self, mods, types, entry):
        for k in mods:
            self.store[k] = self.havoc(k, types[k], entry[k])
            if k[0] == 'h':
                self.store[('g', k[1])] = ('loop', self.tick('gen'))

    def after_body(self, info, key, entry, havoced, mods, types):
        """Have all changed variables been treated as changing, with a type that covers the new value?"""
        changed = False
        for k, v in havoced.items():
            if k[0] not in ('v', 'h') or k not in entry:
                continue
            now = self.store.get(k)
            if now is v:
                continue
            if now is None:
                raise Unsupported('variable deleted in a loop')
            if isinstance(now, Ref) and isinstance(v, Ref) and now.rid == v.rid:
                continue
            if k in types:
                t = types[k]
                if t is None:
                    continue
                j = self.key_type(k, v, now) if not isinstance(t, tuple) else self.key_type(k, entry[k], now)
                if j is None or isinstance(j, tuple) != isinstance(t, tuple):
                    j = None
                if not isinstance(j, tuple):
                    if j is not None and j == t:
                        e = self.enc(now, t)
                        if e is None:
                            info['mods'][k] = None
                            changed = True
                        else:
                            d = self.dec(e, t)
                            if isinstance(v, SeqV) and isinstance(d, SeqV):
                                d.kind = v.kind
                            if isinstance(now, MapV):
                                d.default = now.default
                            if k[0] == 'v' and isinstance(now, (Ref, Place)):
                                self.check_unshared(now, k, havoced)
                            self.store[k] = d
                        continue
                    info['mods'][k] = j
                    changed = True
                else:
                    if j != t:
                        merged = {a: join_ty(t[2].get(a, j[2].get(a)), j[2].get(a, t[2].get(a))) for a in set(t[2]) | set(j[2])}
                        new = ('obj', t[1], merged)
                        if new != t:
                            info['mods'][k] = new
                            changed = True
            else:
                j = self.key_type(k, entry[k], now)
                if isinstance(now, (FnV, Lib, ClsV, ModV, Opaque)):
                    j = None
                info['mods'][k] = j
                changed = True
        if changed:
            raise Restart()

    def check_unshared(self, ref, key, havoced):
        """A fresh object that a variable carries to the next iteration must not be reachable through another one."""
        rid = ref.rid if isinstance(ref, Ref) else ref.root.rid
        if ('h', rid) in havoced:
            raise Unsupported('variable %s changes which object it refers to' % (key,))
        for k, v in self.store.items():
            if k != key and k in havoced and isinstance(v, Ref) and v.rid == rid:
                raise Unsupported('two variables share an object across iterations')

    def set_iter(self, it, when):
        """Sets the ghost state of the iteration, with the facts that hold there."""
        if it.kind == 'idx':
            if when == 'entry':
                it.k = z3.IntVal(0)
            elif when == 'arb':
                it.k = self.const(I, 'k')
                self.assume(it.k >= 0)
                if it.n is not None:
                    self.assume(it.k < it.n)
            elif when == 'next':
                it.k = it.k + 1
            else:
                it.k = it.n
                if it.n is not None:
                    # n may be negative or zero: the loop then runs zero times
                    it.k = z3.simplify(z3.If(it.n > 0, it.n, 0))
                    if z3.is_app_of(it.k, z3.Z3_OP_ITE):
                        k = self.const(I, 'end')
                        self.assume(k == it.k)
                        it.k = k
            return
        sort = it.ety.sort()
        S = z3.ArraySort(sort, B)
        if when == 'entry':
            it.done = z3.K(sort, False)
        elif when == 'arb':
            it.done = self.const(S, 'done')
            it.x = self.const(sort, 'x')
            y = z3.Const('y!d', sort)
            self.assume(z3.Not(z3.Select(it.done, it.x)))
            self.assume(it.member(it.x))
            self.assume(z3.ForAll([y], z3.Implies(z3.Select(it.done, y), it.member(y)), patterns=[z3.Select(it.done, y)]))
        elif when == 'next':
            it.done = z3.Store(it.done, it.x, True)
        else:
            if it.dom is not None:
                it.done = it.dom
            else:
                it.done = self.const(S, 'all')
                y = z3.Const('y!d', sort)
                self.assume(it.alldone(it.done))

    # ------------------------------------------------------------------------------------------- iteration
    def known_items(self, it):
        """The items one by one when their number is known, else None."""
        d = self.deref(it)
        if isinstance(d, OptV):
            d = self.force(d)
        if isinstance(d, (TupV, CList)):
            return list(d.items)
        if isinstance(d, SeqV) and isinstance(d.ety, TUnk):
            return []
        if isinstance(d, SetV) and isinstance(d.ety, TUnk):
            return []
        if isinstance(d, MapV) and isinstance(d.k, TUnk):
            return []
        if isinstance(d, Rec):
            return [StrV(s) for s in d.d]
        if isinstance(d, It):
            if d.kind == 'range':
                a, b = z3.simplify(d.a[0]), z3.simplify(d.a[1])
                if z3.is_int_value(a) and z3.is_int_value(b) and b.as_long() - a.as_long() <= 8:
                    return [Num(z3.IntVal(i)) for i in range(a.as_long(), b.as_long())]
                return None
            if d.kind == 'zip':
                parts = [self.known_items(x) for x in d.a[0]]
                if not parts:
                    return []
                if all(p is not None for p in parts):
                    return [TupV(list(t)) for t in zip(*parts)]
                return None
            if d.kind == 'enumerate':
                p = self.known_items(d.a[0])
                return None if p is None else [TupV([Num(z3.IntVal(i)), x]) for i, x in enumerate(p)]
            if d.kind in ('items', 'keys', 'values'):
                m = self.deref(d.a[0])
                if isinstance(m, Obj):
                    m = m.base
                if isinstance(m, MapV) and isinstance(m.k, TUnk):
                    return []
                if isinstance(m, Rec):
                    if d.kind == 'keys':
                        return [StrV(s) for s in m.d]
                    if d.kind == 'values':
                        return list(m.d.values())
                    return [TupV([StrV(s), v]) for s, v in m.d.items()]
        return None

    def iteration(self, it):
        d = self.deref(it)
        if isinstance(d, OptV):
            d = self.force(d)
        if isinstance(d, Obj) and d.base is not None:
            return self.iteration_of(it, d.base)
        return self.iteration_of(it, d)

    def length_of(self, d):
        if isinstance(d, SeqV):
            return SeqTheory.of(d.ety).len(d.t)
        if isinstance(d, (TupV, CList)):
            return z3.IntVal(len(d.items))
        raise Unsupported('length of %s' % type(d).__name__)

    def iteration_of(self, it, d):
        if isinstance(d, SeqV):
            T = SeqTheory.of(d.ety)
            n = T.len(d.t)
            gen = it

            def item(k):
                if isinstance(it, (Ref, Place)):
                    cur = self.deref(it)
                    if not isinstance(cur, SeqV) or not (cur.t.eq(d.t) or mutable(d.ety)):
                        raise Unsupported('list changed while it is iterated')
                    return self.child(it, 'idx', k, T.at(cur.t, k), d.ety)
                return self.dec(T.at(d.t, k), d.ety)
            return Iteration('idx', item, n=n, src=d)
        if isinstance(d, SetV):
            t = d.t
            return Iteration('set', lambda x: self.dec(x, d.ety), dom=t, ety=d.ety, src=d, member=lambda x: z3.Select(t, x))
        if isinstance(d, MapV):
            dom = d.ty.dom(d.t)
            return Iteration('set', lambda x: self.dec(x, d.k), dom=dom, ety=d.k, src=d, member=lambda x: z3.Select(dom, x))
        if isinstance(d, It):
            if d.kind == 'range':
                a, b = d.a
                return Iteration('idx', lambda k: Num(z3.simplify(a + k)), n=z3.simplify(b - a), src=d)
            if d.kind == 'enumerate':
                inner = self.iteration(d.a[0])
                if inner.kind != 'idx':
                    # any order: the position is unknown
                    raise Unsupported('enumerate over an unordered collection')
                return Iteration('idx', lambda k: TupV([Num(k), inner.item(k)]), n=inner.n, src=inner.src)
            if d.kind == 'zip':
                inner = [self.iteration(x) for x in d.a[0]]
                if any(i.kind != 'idx' for i in inner):
                    raise Unsupported('zip over unordered collections')
                n = inner[0].n
                for i in inner[1:]:
                    n = z3.If(i.n < n, i.n, n)
                return Iteration('idx', lambda k: TupV([i.item(k) for i in inner]), n=z3.simplify(n), src=[i.src for i in inner])
            if d.kind in ('items', 'keys', 'values'):
                ref = d.a[0]
                m = self.deref(ref)
                holder = ref
                if isinstance(m, Obj):
                    m = m.base
                dom = m.ty.dom(m.t)

                def item(x):
                    cur = self.deref(holder)
                    if isinstance(cur, Obj):
                        cur = cur.base
                    kv = self.dec(x, m.k)
                    if d.kind == 'keys':
                        return kv
                    if isinstance(holder, (Ref, Place)):
                        vv = self.child(holder, 'key', x, z3.Select(m.ty.val(cur.t), x), m.v)
                    else:
                        vv = self.dec(z3.simplify(z3.Select(m.ty.val(cur.t), x)), m.v)
                    return vv if d.kind == 'values' else TupV([kv, vv])
                return Iteration('set', item, dom=dom, ety=m.k, src=m, member=lambda x: z3.Select(dom, x), tag=d.kind)
            if d.kind == 'perms':
                S, ety = d.a
                T = SeqTheory.of(ety)
                i = Iteration('set', lambda x: SeqV(x, ety, 'tuple'), dom=None, ety=TSeq(ety), src=d, member=lambda x: T.perm(x, S))
                y = z3.Const('y!p', T.S)
                i.alldone = lambda done: z3.ForAll([y], z3.Select(done, y) == T.perm(y, S), patterns=[z3.Select(done, y)])
                i.alldone = lambda done: z3.And(z3.ForAll([y], z3.Select(done, y) == T.perm(y, S), patterns=[z3.Select(done, y)]),
                                                z3.ForAll([y], z3.Select(done, y) == T.perm(y, S), patterns=[T.perm(y, S)]))
                return i
            if d.kind == 'custom':
                return d.a[0](self)
        raise Unsupported('iteration over %s' % (type(d).__name__ if not isinstance(d, It) else d.kind))

    # ------------------------------------------------------------------------------------------- comprehensions
    def comprehension(self, node, fid, add, site):
        """Runs the body of a comprehension as nested loops; add(value) is called for each element."""
        inner = self.frame_new(fid, self.store[('fp', fid)][1])

        def gen(i):
            if i == len(node.generators):
                add(inner)
                return
            g = node.generators[i]
            it = self.ev(g.iter, inner if i else fid)

            def body(item):
                self.assign(g.target, item, inner)
                for c in g.ifs:
                    if not self.decide(self.truth(self.ev(c, inner))):
                        raise ContinueEx()
                gen(i + 1)
            items = self.known_items(it)
            if items is not None:
                for x in items:
                    try:
                        body(x)
                    except ContinueEx:
                        pass
                return
            self.cut_loop((site, i), self.iteration(it), body, [], inner, extra=self.comp_extra if i == len(node.generators) - 1 and len(node.generators) == 1 and not g.ifs else None)
        return gen(0)

    comp_extra = None

    def ev_ListComp(self, e, fid):
        return self.list_comp(e, fid)

    def ev_GeneratorExp(self, e, fid):
        # consumed at once by its (single) consumer
        return It('gen', e, fid)

    def list_comp(self, e, fid):
        site = ('comp', e.lineno, e.col_offset)
        if len(e.generators) == 1 and not e.generators[0].ifs:
            g = e.generators[0]
            it = self.ev(g.iter, fid)
            items = self.known_items(it)
            if items is not None:
                out = []
                inner = self.frame_new(fid, self.store[('fp', fid)][1])
                for x in items:
                    self.assign(g.target, x, inner)
                    out.append(self.ev(e.elt, inner))
                return self.new(CList(out), (site, self.chain))
        self.line_col = (e.lineno, e.col_offset)
        ref = self.mk_empty('list')
        saved = self.comp_extra
        self.comp_extra = self.pointwise(e, fid, ref) if len(e.generators) == 1 and not e.generators[0].ifs else None
        try:
            self.comprehension(e, fid, lambda inner: self.method(ref, 'append', [self.ev(e.elt, inner)], {}), site)
        finally:
            self.comp_extra = saved
        return ref

    def pointwise(self, e, fid, ref):
        """When the element of a comprehension is a function of the index alone: that function."""
        g = e.generators[0]
        snap = self.snapshot()
        rec, self.record = self.record, False
        res = []

        def attempt():
            it = self.iteration(self.ev(g.iter, fid))
            if it.kind != 'idx':
                res.append(None)
                return
            inner = self.frame_new(fid, self.store[('fp', fid)][1])
            j = z3.Int('pw!j')
            self.assume(0 <= j)
            self.assume(j < it.n)
            before = dict(self.store)
            self.assign(g.target, it.item(j), inner)
            v = self.ev(e.elt, inner)
            ty = self.typeof(v)
            t = self.enc(v, ty) if ty is not None else None
            changed = any(self.store.get(k) is not x for k, x in before.items() if k[0] == 'h')
            res.append((j, t, ty) if t is not None and not changed else None)
        try:
            self.explore(attempt)
        except (PyRaise, Unsupported, Restart, ReturnEx):
            res = []
        finally:
            self.record = rec
            self.restore(snap)
        if len(res) == 1 and res[0] is not None:
            j, t, ty = res[0]
            if 'k!' in str(t) and False:
                return None
            return dict(hidden=('h', ref.rid), pointwise=lambda k: z3.substitute(t, (j, k)), ety=ty)
        return None

    def ev_SetComp(self, e, fid):
        self.line_col = (e.lineno, e.col_offset)
        ref = self.mk_empty('set')
        saved, self.comp_extra = self.comp_extra, None
        try:
            self.comprehension(e, fid, lambda inner: self.method(ref, 'add', [self.ev(e.elt, inner)], {}), ('comp', e.lineno, e.col_offset))
        finally:
            self.comp_extra = saved
        return ref

    def ev_DictComp(self, e, fid):
        self.line_col = (e.lineno, e.col_offset)
        ref = self.mk_empty('dict')
        saved, self.comp_extra = self.comp_extra, None
        try:
            self.comprehension(e, fid, lambda inner: self.store_subscript(ref, self.ev(e.key, inner), self.ev(e.value, inner)), ('comp', e.lineno, e.col_offset))
        finally:
            self.comp_extra = saved
        return ref

    def gen_list(self, g):
        """A generator turned into a list."""
        e, fid = g.a
        return self.list_comp(ast.copy_location(ast.ListComp(elt=e.elt, generators=e.generators), e), fid)

    # ------------------------------------------------------------------------------------------- calls
    def ev_Call(self, e, fid):
        f = self.ev(e.func, fid)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fid)
                items = self.known_items(v)
                if items is None:
                    if isinstance(f, Lib) and f.name == 'zip':
                        args.append(('star', v))
                        continue
                    d = self.deref(v)
                    # zip(*window) where window has a known length on this path
                    raise Unsupported('* argument of unknown length')
                args.extend(items)
            else:
                args.append(self.ev(a, fid))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, fid)
            if k.arg is not None:
                kwargs[k.arg] = v
            else:
                d = self.deref(v)
                if isinstance(d, Rec):
                    for n, x in d.d.items():
                        if n in kwargs:
                            raise PyRaise('TypeError', self.where())
                        kwargs[n] = x
                elif isinstance(d, MapV) and isinstance(d.k, TUnk):
                    pass
                elif isinstance(d, MapV) and d.k == TStr:
                    kwargs['**'] = v
                else:
                    raise Unsupported('** argument')
        self.line = e.lineno
        self.line_col = (e.lineno, e.col_offset)
        if len(args) == 1 and isinstance(args[0], tuple):
            return self.zip_star(args[0][1])
        return self.call(f, args, kwargs)

    line_col = (0, 0)

    def zip_star(self, v):
        """zip(*pairs): the columns of a sequence of tuples."""
        d = self.deref(v)
        if isinstance(d, SeqV) and isinstance(d.ety, TTup):
            T = SeqTheory.of(d.ety)
            n = z3.simplify(T.len(d.t))
            for c in (2, 1, 0, 3):
                if self.known(n == c):
                    items = [self.dec(T.at(d.t, z3.IntVal(i)), d.ety) for i in range(c)]
                    self.assume(n == c)
                    cols = [TupV([x.items[i] for x in items]) for i in range(len(d.ety.ts))] if c else []
                    return self.new(CList(cols), (('zipstar',) + self.line_col, self.chain))
        raise Unsupported('zip(*...) of a sequence of unknown length')

    def call(self, f, args, kwargs):
        if isinstance(f, Poison):
            raise Unsupported(f.why)
        if isinstance(f, OptV):
            f = self.force(f)
        if isinstance(f, Lib):
            return self.call_lib(f.name, args, kwargs)
        if isinstance(f, Opaque):
            return f.call(self, args, kwargs)
        if isinstance(f, BoundM):
            return self.method(f.obj, f.name, args, kwargs)
        if isinstance(f, NTCls):
            vals = list(args)
            for n in f.fields[len(vals):]:
                if n not in kwargs:
                    raise PyRaise('TypeError', self.where())
                vals.append(kwargs.pop(n))
            if kwargs or len(vals) != len(f.fields):
                raise PyRaise('TypeError', self.where())
            return TupV(vals, f)
        if isinstance(f, ClsV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, FnV):
            return self.call_fn(f, args, kwargs)
        raise Unsupported('call of %s' % type(f).__name__)

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        rest = kwargs.pop('**', None)
        out = {}
        for n, v in zip(names, args):
            out[n] = v
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise('TypeError', self.where())
            out[a.vararg.arg] = TupV(args[len(names):])
        elif a.vararg is not None:
            out[a.vararg.arg] = TupV([])
        for n in list(kwargs):
            if n in names or n in [x.arg for x in a.kwonlyargs]:
                if n in out:
                    raise PyRaise('TypeError', self.where())
                out[n] = kwargs.pop(n)
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in out:
                di = i - (len(names) - nd)
                if di < 0:
                    if rest is not None:
                        raise Unsupported('** argument of unknown contents')
                    raise PyRaise('TypeError', self.where())
                out[n] = f.defaults[di]
        for x in a.kwonlyargs:
            if x.arg not in out:
                if x.arg not in f.kwdefaults:
                    raise PyRaise('TypeError', self.where())
                out[x.arg] = f.kwdefaults[x.arg]
        if a.kwarg is not None:
            if rest is not None:
                if kwargs:
                    raise Unsupported('** argument of unknown contents')
                out[a.kwarg.arg] = rest
            else:
                out[a.kwarg.arg] = self.new(Rec(kwargs), (('kwargs', self.line_col), self.chain))
        elif kwargs or rest is not None:
            if rest is not None:
                raise Unsupported('** argument of unknown contents')
            raise PyRaise('TypeError', self.where())
        return out

    def call_fn(self, f, args, kwargs, contract=True):
        cases = self.contracts.get(f.qual, []) if contract else []
        if cases:
            bound = self.bind(f, args, kwargs)
            for c in cases:
                A = c.match(self, bound)
                if A is not None:
                    self.uses.add(c.uid)
                    return c.apply(self, A, bound)
        if self.depth > MAXDEPTH:
            raise Unsupported('recursion of %s' % f.name)
        return self.inline(f, self.bind(f, args, kwargs))

    def inline(self, f, bound):
        saved = self.chain, self.depth, self.fnname, self.line, self.comp_extra
        self.chain = self.chain + ((f.qual, self.line_col),)
        self.depth += 1
        self.fnname = f.qual
        self.comp_extra = None
        fid = self.frame_new(f.frame, f.module)
        for n, v in bound.items():
            self.assign_name(fid, n, v)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fid)
            self.block(f.node.body, fid)
            return NONEV
        except ReturnEx as r:
            return r.v
        finally:
            self.chain, self.depth, self.fnname, self.line, self.comp_extra = saved

    # ------------------------------------------------------------------------------------------- expressions
    def ev(self, e, fid):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s, line %d' % (type(e).__name__, e.lineno))
        return m(e, fid)

    def ev_Constant(self, e, fid):
        v = e.value
        if v is None:
            return NONEV
        if isinstance(v, bool):
            return BoolV(v)
        if isinstance(v, int):
            return Num(z3.IntVal(v))
        if isinstance(v, float):
            return Num(frac(v), 'float')
        if isinstance(v, str):
            return StrV(v)
        raise Unsupported('constant %r' % (v,))

    def ev_Name(self, e, fid):
        v = self.lookup(fid, e.id)
        return v

    def ev_Tuple(self, e, fid):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                raise Unsupported('starred element')
            out.append(self.ev(x, fid))
        return TupV(out)

    def ev_List(self, e, fid):
        if not e.elts:
            self.line_col = (e.lineno, e.col_offset)
            return self.mk_empty('list')
        items = [self.ev(x, fid) for x in e.elts]
        return self.new(CList(items), (('list', e.lineno, e.col_offset), self.chain))

    def ev_Set(self, e, fid):
        self.line_col = (e.lineno, e.col_offset)
        ref = self.mk_empty('set')
        for x in e.elts:
            self.method(ref, 'add', [self.ev(x, fid)], {})
        return ref

    def ev_Dict(self, e, fid):
        self.line_col = (e.lineno, e.col_offset)
        if not e.keys:
            return self.mk_empty('dict')
        ks = [self.ev(k, fid) for k in e.keys]
        vs = [self.ev(v, fid) for v in e.values]
        if all(isinstance(k, StrV) for k in ks):
            return self.new(Rec({k.s: v for k, v in zip(ks, vs)}), (('dict', e.lineno, e.col_offset), self.chain))
        ref = self.mk_empty('dict')
        for k, v in zip(ks, vs):
            self.store_subscript(ref, k, v)
        return ref

    def ev_Lambda(self, e, fid):
        _, module = self.store[('fp', fid)]
        return FnV('<lambda>', e, module, fid, [self.ev(d, fid) for d in e.args.defaults], {}, '%s.<lambda>%d' % (module, e.lineno))

    def ev_JoinedStr(self, e, fid):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value, fid)
        return StrT(self.const(TStr.sort(), 'fmt'))

    def ev_IfExp(self, e, fid):
        c = z3.simplify(self.truth(self.ev(e.test, fid)))
        if z3.is_true(c):
            return self.ev(e.body, fid)
        if z3.is_false(c):
            return self.ev(e.orelse, fid)
        if self.decide(c):
            return self.ev(e.body, fid)
        return self.ev(e.orelse, fid)

    def ev_BoolOp(self, e, fid):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fid)
            if i == len(e.values) - 1:
                return v
            c = z3.simplify(self.truth(v))
            if self.decide(c):
                if not is_and:
                    return BoolV(True) if isinstance(v, BoolV) else v
            else:
                if is_and:
                    return BoolV(False) if isinstance(v, BoolV) else v
        return v

    def ev_UnaryOp(self, e, fid):
        v = self.ev(e.operand, fid)
        if isinstance(e.op, ast.Not):
            return BoolV(z3.simplify(z3.Not(self.truth(v))))
        v = self.force(v)
        if isinstance(e.op, ast.USub) and isinstance(v, Num):
            return Num(-v.t, v.kind)
        if isinstance(e.op, ast.UAdd) and isinstance(v, Num):
            return v
        raise Unsupported('unary operator')

    def ev_BinOp(self, e, fid):
        a = self.ev(e.left, fid)
        b = self.ev(e.right, fid)
        self.line, self.line_col = e.lineno, (e.lineno, e.col_offset)
        return self.binop(type(e.op), a, b)

    def ev_Compare(self, e, fid):
        a = self.ev(e.left, fid)
        out = None
        for op, r in zip(e.ops, e.comparators):
            b = self.ev(r, fid)
            c = self.compare(CMP[type(op)], a, b)
            if len(e.ops) == 1:
                return BoolV(c)
            if not self.decide(c):
                return BoolV(False)
            a = b
        return BoolV(True)

    def ev_Subscript(self, e, fid):
        o = self.ev(e.value, fid)
        if isinstance(e.slice, ast.Slice):
            return self.slice(o, e.slice, fid)
        k = self.ev_index(e.slice, fid)
        self.line = e.lineno
        return self.subscript(o, k)

    def ev_index(self, s, fid):
        if isinstance(s, ast.Slice):
            raise Unsupported('slice assignment')
        return self.ev(s.value if type(s).__name__ == 'Index' else s, fid)

    def ev_Attribute(self, e, fid):
        o = self.ev(e.value, fid)
        return self.attribute(o, e.attr)

    # ------------------------------------------------------------------------------------------- operations
    def force(self, v):
        """A value that may be None, used where None is an error."""
        v = self.deref(v) if isinstance(v, (Ref, Place)) and False else v
        if isinstance(v, OptV):
            if self.decide(v.isnone):
                raise PyRaise('TypeError', self.where())
            return v.val
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    def truth(self, v):
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if isinstance(v, OptV):
            return z3.And(z3.Not(v.isnone), self.truth(v.val))
        d = self.deref(v)
        if isinstance(d, BoolV):
            return d.t
        if isinstance(d, Num):
            return d.t != 0
        if isinstance(d, NoneV):
            return z3.BoolVal(False)
        if isinstance(d, StrV):
            return z3.BoolVal(bool(d.s))
        if isinstance(d, (TupV, CList)):
            return z3.BoolVal(bool(d.items))
        if isinstance(d, Rec):
            return z3.BoolVal(bool(d.d))
        if isinstance(d, SeqV):
            return SeqTheory.of(d.ety).len(d.t) != 0
        if isinstance(d, SetV):
            return d.t != SetTheory.of(d.ety).empty
        if isinstance(d, MapV):
            if isinstance(d.k, TUnk):
                return z3.BoolVal(False)
            return d.ty.dom(d.t) != z3.K(d.k.sort(), False)
        if isinstance(d, Obj):
            if d.base is not None:
                return self.truth(d.base)
            return z3.BoolVal(True)
        if isinstance(d, (FnV, Lib, ClsV, NTCls, Opaque, BoundM)):
            return z3.BoolVal(True)
        if isinstance(d, ValV):
            return z3.Function('val_truth', TVal.sort(), B)(d.t)
        if isinstance(d, StrT):
            return d.t != lit('')
        raise Unsupported('truth value of %s' % type(d).__name__)

    def compare(self, op, a, b):
        if op == '!=':
            return z3.simplify(z3.Not(self.compare('==', a, b)))
        if op == 'is not':
            return z3.simplify(z3.Not(self.compare('is', a, b)))
        if op == 'not in':
            return z3.simplify(z3.Not(self.compare('in', a, b)))
        if op == 'in':
            return self.contains(b, a)
        for x in (a, b):
            if isinstance(x, Poison):
                raise Unsupported(x.why)
        if op in ('==', 'is'):
            return self.equal(a, b, op == 'is')
        a, b = self.force(a), self.force(b)
        a, b = self.deref(a), self.deref(b)
        if isinstance(a, BoolV):
            a = Num(self.enc(a, TInt))
        if isinstance(b, BoolV):
            b = Num(self.enc(b, TInt))
        if isinstance(a, Num) and isinstance(b, Num):
            x, y = (a.t, b.t) if a.kind == b.kind == 'int' else (a.real(), b.real())
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
        if isinstance(a, SetV) and isinstance(b, SetV):
            if a.ety == b.ety:
                x = z3.Const('x!sub', a.ety.sort())
                sub = lambda p, q: z3.ForAll([x], z3.Implies(z3.Select(p, x), z3.Select(q, x)))
                if op == '<=':
                    return sub(a.t, b.t)
                if op == '>=':
                    return sub(b.t, a.t)
        if isinstance(a, NoneV) or isinstance(b, NoneV):
            raise PyRaise('TypeError', self.where())
        raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))

    def equal(self, a, b, identity=False):
        if isinstance(a, OptV) or isinstance(b, OptV):
            if isinstance(b, OptV) and not isinstance(a, OptV):
                a, b = b, a
            if isinstance(b, NoneV):
                return a.isnone
            if isinstance(b, OptV):
                return z3.simplify(z3.Or(z3.And(a.isnone, b.isnone), z3.And(z3.Not(a.isnone), z3.Not(b.isnone), self.equal(a.val, b.val, identity))))
            return z3.simplify(z3.And(z3.Not(a.isnone), self.equal(a.val, b, identity)))
        if identity and isinstance(a, Ref) and isinstance(b, Ref):
            if a.rid == b.rid:
                return z3.BoolVal(True)
            if isinstance(self.store.get(('h', a.rid)), Place) or isinstance(self.store.get(('h', b.rid)), Place):
                raise Unsupported('identity of stored objects')
            return z3.BoolVal(False)
        a, b = self.deref(a), self.deref(b)
        if isinstance(a, ValV) and isinstance(b, NoneV) or isinstance(b, ValV) and isinstance(a, NoneV):
            v = a if isinstance(a, ValV) else b
            return v.t == inj(TNone)[0](NONE)
        if isinstance(a, NoneV) or isinstance(b, NoneV):
            return z3.BoolVal(isinstance(a, NoneV) and isinstance(b, NoneV))
        if isinstance(a, BoolV) and isinstance(b, Num) and not identity:
            a = Num(self.enc(a, TInt))
        if isinstance(b, BoolV) and isinstance(a, Num) and not identity:
            b = Num(self.enc(b, TInt))
        if isinstance(a, Num) and isinstance(b, Num):
            if identity and not (a.kind == b.kind == 'int'):
                raise Unsupported('identity of numbers that are not ints')
            return a.t == b.t if a.kind == b.kind == 'int' else a.real() == b.real()
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            return a.t == b.t
        if isinstance(a, (StrV, StrT)) and isinstance(b, (StrV, StrT)):
            if isinstance(a, StrV) and isinstance(b, StrV):
                return z3.BoolVal(a.s == b.s)
            return self.enc(a, TStr) == self.enc(b, TStr)
        if isinstance(a, (FnV, Lib, ClsV, NTCls, Opaque)) and isinstance(b, (FnV, Lib, ClsV, NTCls, Opaque)):
            return z3.BoolVal(a is b or (type(a) is type(b) and getattr(a, 'qual', getattr(a, 'name', 0)) == getattr(b, 'qual', getattr(b, 'name', 1)) and not isinstance(a, Opaque)))
        if identity:
            if isinstance(a, ValV) or isinstance(b, ValV):
                x, y = self.enc(a, TVal), self.enc(b, TVal)
                if x is not None and y is not None:
                    return x == y
            if type(a) is not type(b):
                return z3.BoolVal(False)
            raise Unsupported('identity of %s' % type(a).__name__)
        if isinstance(a, ValV) or isinstance(b, ValV):
            x, y = self.enc(a, TVal), self.enc(b, TVal)
            if x is not None and y is not None:
                return x == y
            raise Unsupported('comparison of opaque objects')
        if isinstance(a, TupV) and isinstance(b, TupV):
            if len(a.items) != len(b.items):
                return z3.BoolVal(False)
            return AND(*[self.equal(x, y) for x, y in zip(a.items, b.items)])
        ta, tb = self.typeof(a), self.typeof(b)
        if ta is not None and tb is not None:
            if isinstance(ta, TSeq) and isinstance(tb, TSeq):
                if {ta.kind, tb.kind} == {'list', 'tuple'}:
                    return z3.BoolVal(False)
                if 'mixed' in (ta.kind, tb.kind):
                    raise Unsupported('comparison of sequences that may be lists or tuples')
            if isinstance(ta, TSeq) and isinstance(tb, TTup) or isinstance(tb, TSeq) and isinstance(ta, TTup):
                sq = ta if isinstance(ta, TSeq) else tb
                x, y = self.enc(a, sq), self.enc(b, sq)
                if x is not None and y is not None:
                    return self.seq_eq(x, y, sq)
            j = join_ty(ta, tb)
            if j is not None and not has_unk(j):
                x, y = self.enc(a, j), self.enc(b, j)
                if x is not None and y is not None:
                    if isinstance(j, TSeq):
                        return self.seq_eq(x, y, j)
                    return x == y
            if j is None and not isinstance(ta, (TOpt,)) and type(ta) is not type(tb):
                return z3.BoolVal(False)
            if has_unk(ta) and has_unk(tb):
                return z3.BoolVal(type(ta) is type(tb))
        raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))

    def seq_eq(self, x, y, ty):
        T = SeqTheory.of(ty.t)
        return z3.And(x == y, T.eq(x, y)) if False else x == y

    def contains(self, c, x):
        c = self.force(c)
        if isinstance(x, Poison):
            raise Unsupported(x.why)
        d = self.deref(c)
        if isinstance(d, Obj) and d.base is not None:
            d = d.base
        if isinstance(d, Rec):
            if isinstance(x, StrV):
                return z3.BoolVal(x.s in d.d)
            raise Unsupported('unknown key of a keyword dictionary')
        if isinstance(d, (TupV, CList)):
            return z3.simplify(z3.Or(*[self.equal(x, y) for y in d.items])) if d.items else z3.BoolVal(False)
        if isinstance(d, It) and d.kind == 'keys':
            return self.contains(d.a[0], x)
        if isinstance(d, (SetV, MapV)):
            kt = d.ety if isinstance(d, SetV) else d.k
            if isinstance(kt, TUnk):
                return z3.BoolVal(False)
            t = self.enc(x, kt)
            if t is None:
                raise Unsupported('membership of another type')
            return z3.simplify(z3.Select(d.t if isinstance(d, SetV) else d.ty.dom(d.t), t))
        if isinstance(d, SeqV):
            if isinstance(d.ety, TUnk):
                return z3.BoolVal(False)
            t = self.enc(x, d.ety)
            if t is None:
                raise Unsupported('membership of another type')
            return SeqTheory.of(d.ety).mem(d.t, t)
        if isinstance(d, StrV) and isinstance(x, StrV):
            return z3.BoolVal(x.s in d.s)
        raise Unsupported('membership in %s' % type(d).__name__)

    def binop(self, op, a, b):
        if isinstance(a, StrV) and op is ast.Mod or isinstance(a, StrT) and op is ast.Mod:
            return StrT(self.const(TStr.sort(), 'fmt'))
        a, b = self.force(a), self.force(b)
        x, y = self.deref(a), self.deref(b)
        if isinstance(x, OptV):
            x = self.force(x)
        if isinstance(y, OptV):
            y = self.force(y)
        if isinstance(x, BoolV):
            x = Num(self.enc(x, TInt))
        if isinstance(y, BoolV):
            y = Num(self.enc(y, TInt))
        if isinstance(x, Num) and isinstance(y, Num):
            return self.arith(op, x, y)
        if isinstance(x, Obj) and op is ast.Add:
            f = self.cls_attr(x.cls, '__add__')
            if f is not None:
                return self.call(f, [a, b], {})
        if isinstance(x, SetV) and isinstance(y, SetV):
            return self.set_op({ast.BitXor: 'symmetric_difference', ast.BitAnd: 'intersection', ast.BitOr: 'union', ast.Sub: 'difference'}[op], x, y, a)
        if op is ast.Mult and (isinstance(x, Num) or isinstance(y, Num)):
            if isinstance(x, Num):
                x, y, a, b = y, x, b, a
            if isinstance(x, (CList, TupV)) and len(x.items) == 1 and y.kind == 'int':
                t = self.typeof(x.items[0])
                if t is None:
                    raise Unsupported('repetition')
                T = SeqTheory.of(t)
                r = SeqV(T.rep(self.enc(x.items[0], t), y.t), t, 'list' if isinstance(x, CList) else 'tuple')
                return self.new(r, (('rep',) + self.line_col, self.chain)) if isinstance(x, CList) else r
        if op is ast.Add and isinstance(x, (SeqV, TupV, CList)) and isinstance(y, (SeqV, TupV, CList)):
            kx = x.kind if isinstance(x, SeqV) else 'list' if isinstance(x, CList) else 'tuple'
            ky = y.kind if isinstance(y, SeqV) else 'list' if isinstance(y, CList) else 'tuple'
            if kx != ky:
                if 'mixed' in (kx, ky):
                    raise Unsupported('concatenation')
                raise PyRaise('TypeError', self.where())
            if not isinstance(x, SeqV) and not isinstance(y, SeqV):
                items = x.items + y.items
                return TupV(items) if kx == 'tuple' else self.new(CList(items), (('cat',) + self.line_col, self.chain))
            r = self.concat(x, y, kx)
            return r if kx == 'tuple' else self.new(r, (('cat',) + self.line_col, self.chain))
        if op is ast.Add and isinstance(x, (StrV, StrT)) and isinstance(y, (StrV, StrT)):
            if isinstance(x, StrV) and isinstance(y, StrV):
                return StrV(x.s + y.s)
            return StrT(z3.Function('strcat', TStr.sort(), TStr.sort(), TStr.sort())(self.enc(x, TStr), self.enc(y, TStr)))
        if isinstance(x, NoneV) or isinstance(y, NoneV):
            raise PyRaise('TypeError', self.where())
        raise Unsupported('%s of %s and %s' % (op.__name__, type(x).__name__, type(y).__name__))

    def concat(self, x, y, kind):
        tx, ty = self.typeof(x), self.typeof(y)
        j = join_ty(tx, ty)
        if j is None:
            raise Unsupported('concatenation of sequences of %s and %s' % (tx, ty))
        T = SeqTheory.of(j.t)
        return SeqV(T.cat(self.to_seq(x, j.t), self.to_seq(y, j.t)), j.t, kind)

    def to_seq(self, v, ety):
        """Term of a sequence with elements of type ety (converting element by element if it has another type)."""
        t = self.enc(v, TSeq(ety))
        if t is not None:
            return t
        d = self.deref(v)
        if isinstance(d, SeqV):
            return self.conv_seq(d, ety)
        raise Unsupported('sequence of another type')

    def conv_seq(self, d, ety):
        """A sequence equal to d element by element, of a wider element type."""
        S, T = SeqTheory.of(d.ety), SeqTheory.of(ety)
        f = z3.Function('conv_%s_%s' % (safe(d.ety.key()), safe(ety.key())), S.S, T.S)
        r = f(d.t)
        k = z3.Int('k!cv')
        e = self.enc(self.dec(S.at(d.t, k), d.ety), ety)
        if e is None:
            raise Unsupported('conversion of a sequence')
        self.assume(T.len(r) == S.len(d.t))
        self.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < S.len(d.t)), T.at(r, k) == e), patterns=[T.at(r, k)]))
        return r

    def arith(self, op, x, y):
        ints = x.kind == y.kind == 'int'
        if 'float' in (x.kind, y.kind) and 'dec' in (x.kind, y.kind):
            raise PyRaise('TypeError', self.where())
        kind = 'int' if ints else 'float' if 'float' in (x.kind, y.kind) else 'dec'
        p, q = (x.t, y.t) if ints else (x.real(), y.real())
        if op is ast.Add:
            return Num(z3.simplify(p + q), kind)
        if op is ast.Sub:
            return Num(z3.simplify(p - q), kind)
        if op is ast.Mult:
            return Num(z3.simplify(p * q), kind)
        if op is ast.Div:
            if self.decide(q == 0):
                raise PyRaise('ZeroDivisionError', self.where())
            return Num(z3.simplify(ratio(z3.simplify(x.real()), z3.simplify(y.real()))), 'float' if ints else kind)
        if op is ast.Pow:
            n = z3.simplify(y.t)
            if z3.is_int_value(n) and 0 <= n.as_long() <= 3:
                r = z3.IntVal(1) if x.kind == 'int' else z3.RealVal(1)
                for _ in range(n.as_long()):
                    r = r * x.t
                return Num(z3.simplify(r), x.kind)
        if op in (ast.FloorDiv, ast.Mod) and ints:
            if self.decide(q == 0):
                raise PyRaise('ZeroDivisionError', self.where())
            if self.known(q > 0):
                return Num(p / q if op is ast.FloorDiv else p % q, 'int')
        raise Unsupported('arithmetic operator %s' % op.__name__)
