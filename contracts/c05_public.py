"""Calling forms of the public metrics: positional, by keyword, bare integers, wrong numbers of arguments (C22, C24)."""
from spec_common import *
from contract import P
from values import Rec
from c03_window import *
import c03_window as W


class Options(P):
    """A keyword dictionary: for every option, each of the alternatives (None: not given) is explored."""
    def __init__(self, required=(), **alts):
        self.required = dict(required)
        self.alts = alts

    def make(self, ex, name, a):
        d = {}
        for n, s in self.required.items():
            d[n] = s.make(ex, n, a)
        for n, ss in self.alts.items():
            i = ex.choose(len(ss)) if ex.pending is not None and len(ss) > 1 else 0
            if ss[i] is not None:
                d[n] = ss[i].make(ex, n, a)
                a.__dict__.setdefault('given', set()).add(n)
        v = ex.new(Rec(d), ('param', name))
        a.val[name] = v
        return v


class PInt(P):
    """A bare integer, seen as a segmentation of one segment."""
    def __init__(self):
        pass

    def make(self, ex, name, a):
        v = ex.sym(TInt, name)
        T = SI
        a[name] = T.snoc(T.empty, v.t)
        a.val[name] = v
        return v


class Public(Case):
    """A public metric called with a pair of segmentations.  forms: how the pair is passed."""
    forms = dict(positional=lambda h, r, o: dict(args=PTup(('hypothesis', h), ('reference', r)), kwargs=Options(**o)),
                 keyword=lambda h, r, o: dict(args=PTup(), kwargs=Options(required=dict(hypothesis=h, reference=r), **o)))

    def setup(self, ex):
        a, vals = Case.setup(self, ex)
        return a, vals

    def inner(self, a):
        """The contract of the function that computes the metric, and its arguments."""
        raise NotImplementedError

    def given(self, a, n, default):
        if n not in a.__dict__.get('given', ()):
            return default
        x = a.__dict__[n]
        return x if z3.is_expr(x) else getattr(x, 't', x)

    def raises(self, a):
        c, b = self.inner(a)
        return c.raises(b)

    def ensures(self, ex, a, r):
        c, b = self.inner(a)
        return c.ensures(ex, b, r)


def is_true(x):
    return z3.is_true(z3.simplify(x)) if z3.is_expr(x) else bool(x)


class PublicWindow(Public):
    fix = False

    def inner(self, a):
        c = self.of()
        c.F = self.F
        w = self.given(a, 'window_size', None)
        c.given = z3.is_expr(w)
        c.parts = is_true(self.given(a, 'return_parts', False))
        c.fix = is_true(self.given(a, 'lamprier_et_al_2007_fix', False))
        b = A()
        for n in ('hypothesis', 'reference'):
            b[n] = a.__dict__[n]
        if c.given:
            b['window_size'] = w
        b['one_minus'] = self.given(a, 'one_minus', z3.BoolVal(False))
        b['fnc_round'] = self.given(a, 'fnc_round', Rounding(W.FNROUND))
        return c, b

    def requires(self, a):
        c, b = self.inner(a)
        return c.requires(b)


def options(F, parts, window, extra):
    o = dict(boundary_format=[None, PConst('mass')] if F.name == 'mass' else [PConst(F.name)],
             return_parts=parts, window_size=window, one_minus=[None, PTy(TBool)], fnc_round=[None, rounding()], permuted=[None, PTy(TBool)])
    o.update(extra)
    return o


def window_cases():
    for fn, of in (('segeval.window.pk.pk', Pk), ('segeval.window.windowdiff.window_diff', WindowDiff)):
        for F in FORMATS:
            for form, make in Public.forms.items():
                for pn, parts in (('', [None, PConst(False)]), (', parts', [PConst(True)])):
                    for fx, fix in ((('', [None, PConst(False)]), (', corrected', [PConst(True)])) if of is WindowDiff else (('', None),)):
                        seq = PTy(F.ty) if F.name == 'nltk' else PTy(F.ty).with_kind('mixed')
                        pairs = [('', seq, seq)]
                        if F.name == 'mass':
                            pairs += [(', bare integer hypothesis', PInt(), seq), (', bare integer reference', seq, PInt()), (', bare integers', PInt(), PInt())]
                        for bn, h_, r_ in pairs:
                            o = options(F, parts, [None, PConst(None), PTy(TInt)], dict(lamprier_et_al_2007_fix=fix) if fix else {})
                            if of is WindowDiff and pn:
                                o['one_minus'] = [None, PConst(False)]
                            if bn:
                                o.update(permuted=[None], fnc_round=[None])
                            register(type('PublicWindow', (PublicWindow,), dict(
                                fn=fn, of=of, F=F, varies='%s %s%s%s%s' % (form, F.name, pn, fx, bn), params=make(h_, r_, o))))


window_cases()


class PublicWindowSize(Case):
    """compute_window_size, of a segmentation or a collection of segmentations."""
    fn = 'segeval.window.compute_window_size'

    def parts(self, a):
        return self.of().parts(a)

    def facts(self, ex, a):
        return [SI.sum(q) == total(q) for q in self.of().sums(a)]

    def round(self, a):
        return a.fnc_round if 'fnc_round' in a.__dict__.get('given', ()) else Rounding(W.FNROUND)

    def ensures(self, ex, a, r):
        t, c = self.parts(a)
        return [('half the mean mass, rounded, at least 2', ex.enc(r, TInt) == size_of(t, c, self.round(a))), ('at least 2', ex.enc(r, TInt) >= 2)]


def window_size_cases():
    for of, nm in ((PositionsWindow, 'positions'), (MassWindow, 'masses'), (CodersWindow, 'masses by coder'), (ItemsWindow, 'masses by item and coder')):
        ty = PTy(of.T).with_kind('mixed')
        o = dict(boundary_format=[PConst('position')] if of is PositionsWindow else [None, PConst('mass')], fnc_round=[None, rounding()])
        register(type('PublicWindowSize', (PublicWindowSize,), dict(of=of, varies=nm, params=dict(reference=ty, kwargs=Options(**o)))))


window_size_cases()


# ------------------------------------------------------------------------------------------------ rejected calls
class RejectedCall(Case):
    def raises(self, a):
        return [(z3.BoolVal(True), 'SegmentationMetricError')]


def rejected_calls():
    seqs = PTy(TSeq(TInt)).with_kind('mixed')
    for fn, extra in (('segeval.window.pk.pk', {}), ('segeval.window.windowdiff.window_diff', dict(lamprier_et_al_2007_fix=[None, PTy(TBool)]))):
        o = dict(boundary_format=[None, PTy(TStr)], return_parts=[None, PTy(TBool)], one_minus=[None, PTy(TBool)], **extra)
        for nm, ps in (('nothing to compare', dict(args=PTup(), kwargs=Options(**o))),
                       ('hypothesis only', dict(args=PTup(), kwargs=Options(required=dict(hypothesis=seqs), **o))),
                       ('reference only', dict(args=PTup(), kwargs=Options(required=dict(reference=seqs), **o))),
                       ('three segmentations', dict(args=PTup(('x', seqs), ('y', seqs), ('z', seqs)), kwargs=Options(**o))),
                       ('no hypothesis', dict(args=PTup(('x', PConst(None)), ('y', seqs)), kwargs=Options(**o))),
                       ('no reference', dict(args=PTup(('x', seqs), ('y', PConst(None))), kwargs=Options(**o)))):
            register(type('RejectedCall', (RejectedCall,), dict(fn=fn, varies=nm, params=ps)))
        for nm, fmt in (('another format', PTy(TStr)), ('no format', PConst(None))):
            for sn, sty in (('labels', TSeq(TInt)), ('boundary sets', TSeq(TSet(TInt))), ('a string', NLTK)):
                register(type('RejectedCall', (RejectedCall,), dict(
                    fn=fn, varies='%s, %s' % (nm, sn),
                    requires=lambda self, a: [a.boundary_format != lit(x) for x in ('mass', 'position', 'nltk')] if z3.is_expr(a.__dict__.get('boundary_format')) else [],
                    params=dict(args=PTup(('hypothesis', PTy(sty)), ('reference', PTy(sty))),
                                kwargs=Options(required=dict(boundary_format=fmt), return_parts=[None, PTy(TBool)], one_minus=[None, PTy(TBool)], window_size=[None, PTy(TOpt(TInt))], **extra)))))


rejected_calls()
