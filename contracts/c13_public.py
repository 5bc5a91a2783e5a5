"""Calling forms of boundary similarity, segmentation similarity and boundary statistics (C22, C24)."""
from spec_common import *
from contract import P
from c01_format import SI, BS
from c05_public import *
from c09_weights import LIBW, WM
from c10_stats import *
from c11_similarity import *

DEFAULT_WEIGHTS = ('weight_a', 'weight_s_scale', 'weight_t_scale')


class PublicEdits(Public):
    without = Similarity.without

    def inner(self, A_):
        c = self.of.__new__(self.of)
        c.F, c.parts = self.F, self.parts
        b_ = A()
        for n in ('segs_a', 'segs_b'):
            b_[n] = A_.__dict__[n]
        b_['n_t'] = self.given(A_, 'n_t', z3.IntVal(2))
        b_['one_minus'] = self.given(A_, 'one_minus', z3.BoolVal(False))
        for k_, w in zip(('w_a', 'w_s', 'w_t'), DEFAULT_WEIGHTS):
            b_[k_] = A_.__dict__[k_] if 'weight' in A_.__dict__.get('given', ()) else LIBW[w]
        return c, b_

    def requires(self, A_):
        c, b_ = self.inner(A_)
        return c.requires(b_)

    def facts(self, ex, A_):
        c, b_ = self.inner(A_)
        return c.facts(ex, b_) if self.of is not Statistics else []


def edit_options(F, statistics, parts):
    o = dict(boundary_format=[None, PConst('mass')] if F.name == 'mass' else [PConst(F.name)], n_t=[None, PTy(TInt)], weight=[None, LIBWEIGHTS])
    if not statistics:
        o.update(one_minus=[None, PTy(TBool)], return_parts=[PConst(True)] if parts else [None, PConst(False)])
    return o


def public_edit_cases():
    for fn, of, ofp in ((SIM + 'boundary.boundary_similarity', BoundarySimilarity, BoundaryParts), (SIM + 'segmentation.segmentation_similarity', SegmentationSimilarity, SegmentationParts), (SIM + 'boundary_statistics', Statistics, None)):
        for F in EFORMATS:
            for form in ('positional', 'keyword'):
                for parts in (False, True):
                    of_ = ofp if parts else of
                    if of_ is None:
                        continue
                    seq = PTy(F.ty) if F.name == 'nltk' else PTy(F.ty).with_kind('mixed')
                    pairs = [('', seq, seq)]
                    if F.name == 'mass':
                        pairs += [(', bare integer first', PInt(), seq), (', bare integer second', seq, PInt()), (', bare integers', PInt(), PInt())]
                    for bn, h_, r_ in pairs:
                        o = edit_options(F, of is Statistics, parts)
                        if bn:
                            o.update(weight=[None], n_t=[None])
                        if form == 'positional':
                            ps = dict(args=PTup(('segs_a', h_), ('segs_b', r_)), kwargs=Options(**o))
                        else:
                            ps = dict(args=PTup(), kwargs=Options(required=dict(hypothesis=Named('segs_a', h_), reference=Named('segs_b', r_)), **o))
                        register(type('PublicEdits', (PublicEdits,), dict(fn=fn, of=of_, F=F, parts=parts, varies='%s %s%s%s' % (form, F.name, ', parts' if parts else '', bn), params=ps)))
                        if not bn and F.name == 'mass':
                            # options that are accepted and make no difference
                            o = dict(permuted=[PTy(TBool)], boundary_types=[PAny()], **({} if of is Statistics else dict(return_parts=[PConst(parts)])))
                            ps = dict(ps, kwargs=Options(required=ps['kwargs'].required, **o))
                            register(type('PublicEdits', (PublicEdits,), dict(fn=fn, of=of_, F=F, parts=parts, varies='%s %s%s, other options' % (form, F.name, ', parts' if parts else ''), params=ps)))


class Named(P):
    """A parameter whose value the contract knows by another name."""
    def __init__(self, name, spec):
        self.name, self.spec = name, spec

    def make(self, ex, nm, A_):
        return self.spec.make(ex, self.name, A_)


public_edit_cases()


def rejected_edit_calls():
    seqs = PTy(TSeq(TInt)).with_kind('mixed')
    for fn, sim in ((SIM + 'boundary.boundary_similarity', True), (SIM + 'segmentation.segmentation_similarity', True), (SIM + 'boundary_statistics', False)):
        o = dict(boundary_format=[None, PTy(TStr)], n_t=[None, PTy(TInt)])
        if sim:
            o.update(return_parts=[None, PTy(TBool)], one_minus=[None, PTy(TBool)])
        for nm, ps in (('nothing to compare', dict(args=PTup(), kwargs=Options(**o))),
                       ('hypothesis only', dict(args=PTup(), kwargs=Options(required=dict(hypothesis=seqs), **o))),
                       ('reference only', dict(args=PTup(), kwargs=Options(required=dict(reference=seqs), **o))),
                       ('three segmentations', dict(args=PTup(('x', seqs), ('y', seqs), ('z', seqs)), kwargs=Options(**o))),
                       ('no hypothesis', dict(args=PTup(('x', PConst(None)), ('y', seqs)), kwargs=Options(**o))),
                       ('no reference', dict(args=PTup(('x', seqs), ('y', PConst(None))), kwargs=Options(**o)))):
            register(type('RejectedCall', (RejectedCall,), dict(fn=fn, varies=nm, params=ps)))
        for nm, fmt in (('another format', PTy(TStr)), ('no format', PConst(None))):
            for sn, sty in (('labels', TSeq(TInt)), ('boundary sets', TSeq(TSet(TInt))), ('a string', NLTK)):
                register(type('RejectedCall', (RejectedCall,), dict(
                    fn=fn, varies='%s, %s' % (nm, sn),
                    requires=lambda self, a: [a.boundary_format != lit(F.name) for F in EFORMATS] if z3.is_expr(a.__dict__.get('boundary_format')) else [],
                    params=dict(args=PTup(('hypothesis', PTy(sty)), ('reference', PTy(sty))), kwargs=Options(required=dict(boundary_format=fmt), n_t=[None, PTy(TInt)], **({k: v for k, v in o.items() if k in ('return_parts', 'one_minus')}))))))


rejected_edit_calls()
