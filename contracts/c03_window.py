"""Window size, Pk, WindowDiff (C02, C03, C04)."""
from spec_common import *
from lib import PYROUND
from c01_format import POS, POSN, RUNS, NLTKM, NLTK, SI, SS, ln, at, psum, total
import c02_math

SD = SeqTheory.of(TDec)
h, r, p, m = z3.Consts('h r p m', SI.S)
i, j, k, n, b = z3.Ints('i j k n b')

# ------------------------------------------------------------------------------------------------ window size
RND = z3.Function('rounding', TVal.sort(), R, I)        # a rounding function supplied by the caller


def size_of(total, count, rnd):
    """Half the mean, rounded, and 2 if that is below 2."""
    w = rnd(z3.If(count > 0, z3.ToReal(total) / z3.ToReal(count), 0) / 2)
    return z3.If(w > 1, w, 2)


FNROUND = z3.Const('python_round', TVal.sort())
_y = z3.Real('y')
axiom('def.python_round', [_y], RND(FNROUND, _y) == PYROUND(_y), [RND(FNROUND, _y)])
# the default window of a labelling
DEFW = z3.Function('default_window', SI.S, TVal.sort(), I)
_f = z3.Const('f', TVal.sort())
axiom('def.default_window', [p, _f], DEFW(p, _f) == size_of(total(RUNS(p)), ln(RUNS(p)), lambda x: RND(_f, x)), [DEFW(p, _f)])


class Rounding(object):
    def __init__(self, term):
        self.term = term

    def __call__(self, x):
        return RND(self.term, x)


def rounding():
    """A function given by the caller: any function from numbers to integers."""
    def make(ex, nm, a):
        f = ex.const(TVal.sort(), nm)
        a[nm] = Rounding(f)
        return Opaque('rounding', lambda ex, args, kw: Num(RND(f, ex.enc(ex.force(args[0]), TDec)), 'int'), f)

    def match(ex, nm, v, a):
        if isinstance(v, Lib) and v.name == 'round':
            a[nm] = Rounding(FNROUND)
            return True
        if isinstance(v, Opaque) and v.name == 'rounding':
            a[nm] = Rounding(v.term)
            return True
        return False
    return PCustom(make, match)


# all masses of a collection of segmentations: total and number
M1 = TMap(TStr, TSeq(TInt))
M2 = TMap(TStr, M1)
_x = z3.Const('x', TStr.sort())
TOT1 = SetFold('sum_of_coder_masses', TStr, lambda x, mm: total(z3.Select(M1.val(mm), x)), params=[M1.sort()])
CNT1 = SetFold('count_of_coder_masses', TStr, lambda x, mm: ln(z3.Select(M1.val(mm), x)), params=[M1.sort()])
TOT2 = SetFold('sum_of_item_masses', TStr, lambda x, mm: TOT1(M1.dom(z3.Select(M2.val(mm), x)), z3.Select(M2.val(mm), x)), params=[M2.sort()])
CNT2 = SetFold('count_of_item_masses', TStr, lambda x, mm: CNT1(M1.dom(z3.Select(M2.val(mm), x)), z3.Select(M2.val(mm), x)), params=[M2.sort()])


class WindowSize(Case):
    fn = 'segeval.window.__compute_window_size__'
    fmt = 'mass'

    def __init__(self):
        self.params = dict(reference=PTy(self.T), fnc_round=rounding(), boundary_format=PConst(self.fmt))

    def result(self, ex, a):
        return ex.sym(TInt, 'window')

    def parts(self, a):
        """Total mass and number of segments."""
        raise NotImplementedError

    def ensures(self, ex, a, r):
        t, c = self.parts(a)
        return [('half the mean mass, rounded, at least 2', ex.enc(r, TInt) == size_of(t, c, a.fnc_round)), ('at least 2', ex.enc(r, TInt) >= 2)]

    def facts(self, ex, a):
        # (the sum over a sequence and its sum of prefixes are the same number)
        return [SI.sum(q) == total(q) for q in self.sums(a)]

    def sums(self, a):
        return [a.reference] if isinstance(self.T, TSeq) else []

    def candidates(self, ex, L):
        t, c = self.parts(self.a)
        for nm, s in L.of(TSeq(TDec)):
            yield ('declen', nm), SD.len(s) == L.k
            for mm, q in self.lists(L):
                yield ('decsum', nm, mm), SD.sum(s) == z3.ToReal(psum(q, L.k))
        for nm, s in L.of(TDec):
            yield ('meansum', nm), s == z3.ToReal(t)

    def lists(self, L):
        src = L.seq
        if isinstance(src, SeqV) and src.ety == TInt:
            yield 'source', src.t


@both
class PositionsWindow(WindowSize):
    varies = 'positions'
    fmt = 'position'
    T = TSeq(TInt)

    def sums(self, a):
        return [RUNS(a.reference)]

    def parts(self, a):
        R_ = RUNS(a.reference)
        return total(R_), ln(R_)

    def ensures(self, ex, a, r):
        return WindowSize.ensures(self, ex, a, r) + [('the default window', ex.enc(r, TInt) == DEFW(a.reference, a.fnc_round.term))]


@both
class MassWindow(WindowSize):
    varies = 'masses'
    T = TSeq(TInt)

    def parts(self, a):
        return total(a.reference), ln(a.reference)


class MapWindow(WindowSize):
    def candidates(self, ex, L):
        for x in WindowSize.candidates(self, ex, L):
            yield x
        if L.kind == 'set' and isinstance(L.seq, MapV) and L.seq.ty in (M1, M2):
            T, C = (TOT1, CNT1) if L.seq.ty == M1 else (TOT2, CNT2)
            for nm, s in L.of(TSeq(TInt)):
                o = ex.enc(L.old[nm], TSeq(TInt))
                yield ('total', nm), SI.sum(s) == SI.sum(o) + T(L.done, L.seq.t)
                yield ('count', nm), ln(s) == ln(o) + C(L.done, L.seq.t)


@register
class CodersWindow(MapWindow):
    varies = 'masses by coder'
    T = M1

    def parts(self, a):
        return TOT1(M1.dom(a.reference), a.reference), CNT1(M1.dom(a.reference), a.reference)


@register
class ItemsWindow(MapWindow):
    varies = 'masses by item and coder'
    T = M2

    def parts(self, a):
        return TOT2(M2.dom(a.reference), a.reference), CNT2(M2.dom(a.reference), a.reference)


@register
class BadWindow(Case):
    fn = 'segeval.window.__compute_window_size__'
    varies = 'not a segmentation'
    params = dict(reference=PTy(TInt), fnc_round=rounding(), boundary_format=PConst('mass'))

    def raises(self, a):
        return [(z3.BoolVal(True), 'SegmentationMetricError')]


@register
class BadWindowStr(BadWindow):
    varies = 'a string'
    params = dict(reference=PTy(TStr), fnc_round=rounding(), boundary_format=PConst('mass'))


# ------------------------------------------------------------------------------------------------ Pk
def disagree(r, h, k, i):
    """Exactly one of the two segmentations puts units i and i + k in the same segment."""
    return (at(r, i) == at(r, i + k)) != (at(h, i) == at(h, i + k))


PKC = z3.Function('disagreeing_windows', SI.S, SI.S, I, I, I)
UNFOLD['disagreeing_windows'] = lambda e: rec(e, 3, 0, lambda a, q: PKC(a[0], a[1], a[2], q) + z3.If(disagree(a[0], a[1], a[2], q), 1, 0))
Lemma('pk_range', [r, h, k, n], [0 <= n], z3.And(PKC(r, h, k, n) >= 0, PKC(r, h, k, n) <= n), [PKC(r, h, k, n)], induct=n)
Lemma('pk_identical', [r, k, n], [0 <= n], PKC(r, r, k, n) == 0, [PKC(r, r, k, n)], induct=n)


def windows(length, k):
    return z3.If(length > k, length - k, 0)


def fraction(c, w):
    return z3.If(w > 0, z3.ToReal(c) / z3.ToReal(w), 0)


class Format(object):
    """One of the ways to give a segmentation: parameter type, precondition, unit labels."""
    def __init__(self, name, ty, req, lab):
        self.name, self.ty, self.req, self.lab = name, ty, req, lab


FORMATS = [Format('mass', TSeq(TInt), lambda x: [POS(x)], lambda x: POSN(x)),
           Format('position', TSeq(TInt), lambda x: [], lambda x: x),
           Format('nltk', NLTK, lambda x: [], lambda x: POSN(NLTKM(x, lit('1'))))]


class Window(Case):
    """Common to Pk and WindowDiff: the format, the window (given or computed), one_minus and return_parts."""
    def labels(self, a):
        return self.F.lab(a.reference), self.F.lab(a.hypothesis)

    def window(self, a):
        if self.given:
            return a.window_size
        return DEFW(self.labels(a)[0], a.fnc_round.term)

    def requires(self, a):
        return self.F.req(a.reference) + self.F.req(a.hypothesis) + ([a.window_size >= 1] if self.given else [])

    def raises(self, a):
        r_, h_ = self.labels(a)
        return [(ln(r_) != ln(h_), 'SegmentationMetricError')]

    def result(self, ex, a):
        return TupV([ex.sym(TInt, 'count'), ex.sym(TInt, 'windows')]) if self.pair(a) else ex.sym(TDec, 'value')


class Pk(Window):
    fn = 'segeval.window.pk.__pk__'

    def pair(self, a):
        return self.parts

    def numbers(self, a):
        r_, h_ = self.labels(a)
        w = windows(ln(r_), self.window(a))
        return PKC(r_, h_, self.window(a), w), w

    def ensures(self, ex, a, r):
        c, w = self.numbers(a)
        v = fraction(c, w)
        out = [('between 0 and 1', z3.And(0 <= v, v <= 1)), ('0 for identical segmentations', z3.Implies(a.reference == a.hypothesis, v == 0))]
        if self.parts:
            if not isinstance(r, TupV) or len(r.items) != 2:
                return [('a pair', z3.BoolVal(False))]
            return out + [('disagreements', ex.enc(r.items[0], TInt) == c), ('windows', ex.enc(r.items[1], TInt) == w)]
        x = ex.enc(r, TDec)
        if x is None:
            return [('a number', z3.BoolVal(False))]
        return out + [('fraction of disagreeing windows, or 1 minus it', x == z3.If(a.one_minus, 1 - v, v))]

    def candidates(self, ex, L):
        r_, h_ = self.labels(self.a)
        w = self.window(self.a)
        for nm, t in L.of(TInt):
            yield ('count', nm), t == PKC(r_, h_, w, L.k)
            yield ('windows', nm), t == L.k


def pk_cases():
    for F in FORMATS:
        for given in (True, False):
            for parts in (False, True):
                c = type('Pk', (Pk,), dict(F=F, given=given, parts=parts, varies='%s, %s window%s' % (F.name, 'given' if given else 'default', ', parts' if parts else ''),
                                          params=dict(hypothesis=PTy(F.ty), reference=PTy(F.ty), window_size=PTy(TInt) if given else PConst(None), one_minus=PTy(TBool),
                                                      boundary_format=PConst(F.name), return_parts=PConst(parts), fnc_round=rounding())))
                (register if F.name == 'nltk' else both)(c)


pk_cases()


# ------------------------------------------------------------------------------------------------ WindowDiff
OPT = TOpt(TInt)
SO = SeqTheory.of(OPT)
ho, ro = z3.Consts('ho ro', SO.S)


def counting(T, tag):
    """Boundaries among units i .. i + k, and the windows in which two segmentations have different numbers of them."""
    BC = z3.Function('boundaries_within' + tag, T.S, I, I, I)
    UNFOLD['boundaries_within' + tag] = lambda e: rec(e, 2, 0, lambda a, q: BC(a[0], a[1], q) + z3.If(T.at(a[0], a[1] + q) != T.at(a[0], a[1] + q + 1), 1, 0))
    WDC = z3.Function('differing_windows' + tag, T.S, T.S, I, I, I)
    UNFOLD['differing_windows' + tag] = lambda e: rec(e, 3, 0, lambda a, q: WDC(a[0], a[1], a[2], q) + z3.If(BC(a[0], q, a[2]) != BC(a[1], q, a[2]), 1, 0))
    r, h = z3.Consts('r h', T.S)
    Lemma('wd_range' + tag, [r, h, k, n], [0 <= n], z3.And(WDC(r, h, k, n) >= 0, WDC(r, h, k, n) <= n), [WDC(r, h, k, n)], induct=n)
    Lemma('wd_identical' + tag, [r, k, n], [0 <= n], WDC(r, r, k, n) == 0, [WDC(r, r, k, n)], induct=n)
    return BC, WDC


BC, WDC = counting(SI, '')
BCO, WDCO = counting(SO, '_padded')
# k phantom units before and after the text
PAD = z3.Function('padded', SI.S, I, SO.S)
axiom('def.padded_len', [m, k], z3.Implies(k >= 0, SO.len(PAD(m, k)) == ln(m) + 2 * k), [PAD(m, k)])
axiom('def.padded_at', [m, k, i], z3.Implies(z3.And(k >= 0, 0 <= i, i < ln(m) + 2 * k), SO.at(PAD(m, k), i) == z3.If(z3.And(k <= i, i < k + ln(m)), OPT.some(at(m, i - k)), OPT.none())),
      [SO.at(PAD(m, k), i)], symbols={'padded'})


class WindowDiff(Window):
    houdini_ms = 4000
    timeout_ms = 20000
    fn = 'segeval.window.windowdiff.__window_diff__'

    def pair(self, a):
        return self.parts

    def numbers(self, a):
        r_, h_ = self.labels(a)
        k = self.window(a)
        if self.fix:
            w = windows(ln(r_) + 2 * k, k)
            return WDCO(PAD(r_, k), PAD(h_, k), k, w), w + 1
        w = windows(ln(r_), k)
        return WDC(r_, h_, k, w), w

    def ensures(self, ex, a, r):
        c, w = self.numbers(a)
        v = fraction(c, w)
        out = [('between 0 and 1', z3.And(0 <= v, v <= 1)), ('0 for identical segmentations', z3.Implies(a.reference == a.hypothesis, v == 0))]
        if self.parts:
            if not isinstance(r, TupV) or len(r.items) != 2:
                return [('a pair', z3.BoolVal(False))]
            return out + [('differing windows', ex.enc(r.items[0], TInt) == c), ('divisor', ex.enc(r.items[1], TInt) == w)]
        x = ex.enc(r, TDec)
        if x is None:
            return [('a number', z3.BoolVal(False))]
        return out + [('fraction of differing windows, or 1 minus it', x == z3.If(a.one_minus, 1 - v, v))]

    def facts(self, ex, a):
        r_, h_ = self.labels(a)
        k = self.window(a)
        R_ = RUNS(r_)
        # (the masses of the reference cover it)
        return [SI.sum(R_) == total(R_)] + (attend(PAD(r_, k), PAD(h_, k)) if self.fix else [])

    def candidates(self, ex, L):
        r_, h_ = self.labels(self.a)
        w = self.window(self.a)
        for nm, t in L.of(TInt):
            if self.fix:
                pr, ph = PAD(r_, w), PAD(h_, w)
                yield ('count', nm), t == WDCO(pr, ph, w, L.k)
                for i_ in self.index(ex, L):
                    yield ('ref', nm, str(i_)), t == BCO(pr, i_, L.k)
                    yield ('hyp', nm, str(i_)), t == BCO(ph, i_, L.k)
            else:
                yield ('count', nm), t == WDC(r_, h_, w, L.k)
                for i_ in self.index(ex, L):
                    yield ('ref', nm, str(i_)), t == BC(r_, i_, L.k)
                    yield ('hyp', nm, str(i_)), t == BC(h_, i_, L.k)

    def index(self, ex, L):
        """Enclosing loop counters."""
        out = []
        for key, v in L.old.items():
            if key[0] == 'v' and isinstance(v, Num) and v.kind == 'int' and not z3.is_int_value(v.t) and str(v.t).startswith('k!'):
                out.append(v.t)
        return out


def wd_cases():
    for F in FORMATS:
        for given in (True, False):
            for parts in (False, True):
                for fix in (False, True):
                    c = type('WindowDiff', (WindowDiff,), dict(
                        F=F, given=given, parts=parts, fix=fix, varies='%s, %s window%s%s' % (F.name, 'given' if given else 'default', ', corrected' if fix else '', ', parts' if parts else ''),
                        params=dict(hypothesis=PTy(F.ty), reference=PTy(F.ty), window_size=PTy(TInt) if given else PConst(None), one_minus=PConst(False) if parts else PTy(TBool),
                                    boundary_format=PConst(F.name), return_parts=PConst(parts), fnc_round=rounding(), lamprier_et_al_2007_fix=PConst(fix))))
                    (register if F.name == 'nltk' else both)(c)


wd_cases()


# ------------------------------------------------------------------------------------------------ rejected input
def rejected():
    for base, fnm, extra in ((Pk, Pk.fn, {}), (WindowDiff, WindowDiff.fn, dict(lamprier_et_al_2007_fix=PTy(TBool)))):
        for nm, fmt in (('another format', PTy(TStr)), ('no format', PConst(None))):
            for sn, sty in (('labels', TSeq(TInt)), ('boundary sets', TSeq(TSet(TInt))), ('a string', NLTK)):
                ps = dict(hypothesis=PTy(sty), reference=PTy(sty), window_size=PTy(TOpt(TInt)), one_minus=PTy(TBool), boundary_format=fmt, return_parts=PTy(TBool), fnc_round=rounding())
                ps.update(extra)
                register(type('Rejected', (Case,), dict(
                    fn=fnm, varies='%s, %s' % (nm, sn), params=ps,
                    requires=lambda self, a: [a.boundary_format != lit(x) for x in ('mass', 'position', 'nltk')] if z3.is_expr(a.boundary_format) else [],
                    raises=lambda self, a: [(z3.BoolVal(True), 'SegmentationMetricError')])))


rejected()
