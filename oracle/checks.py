"""Per property: enumerated and random inputs, and a run-time evaluation of the property on the real package.

check_Cxx(case) returns None when the property holds on the case, else a message.  A case is a Python literal
(it is written to the replay file with repr)."""
import copy
import itertools
import json
import os
import shutil
import sys
import tempfile
from decimal import Decimal, InvalidOperation
from fractions import Fraction as Fr
from itertools import combinations, product
from math import floor, ceil

import spec as S

import segeval
from segeval.format import (convert_masses_to_positions, convert_positions_to_masses,
                            boundary_string_from_masses, convert_nltk_to_masses, BoundaryFormat)
from segeval.window import compute_window_size
from segeval.window.pk import pk
from segeval.window.windowdiff import window_diff
from segeval.similarity import boundary_statistics, boundary_confusion_matrix
from segeval.similarity.boundary import boundary_similarity
from segeval.similarity.segmentation import segmentation_similarity
from segeval.similarity.weight import weight_a, weight_s, weight_s_scale, weight_t, weight_t_scale
from segeval.similarity.distance.multipleboundary import boundary_edit_distance
from segeval.agreement import actual_agreement_linear
from segeval.agreement.pi import fleiss_pi_linear
from segeval.agreement.kappa import fleiss_kappa_linear
from segeval.agreement.bias import artstein_poesio_bias_linear
from segeval.ml import precision, recall, fmeasure, ConfusionMatrix, Average
from segeval.data import Dataset, load_nested_folders_dict, DataIOError
from segeval.data.jsonutils import input_linear_mass_json, output_linear_mass_json
from segeval.data.tsv import input_linear_mass_tsv
from segeval.compute import summarize
from segeval.util import SegmentationMetricError

WEIGHTS = {'ST': (weight_a, weight_s_scale, weight_t_scale), 'sT': (weight_a, weight_s, weight_t_scale),
           'St': (weight_a, weight_s_scale, weight_t), 'st': (weight_a, weight_s, weight_t)}
ROUNDERS = {'round': round, 'floor': floor, 'ceil': ceil, 'trunc': int, 'const7': lambda x: 7, 'neg': lambda x: -3,
            'plus5': lambda x: round(x) + 5}
near = S.near


class Hang(Exception):
    pass


# ================================================================ generators
def compositions(n):
    if n == 0:
        yield ()
        return
    for bits in range(2 ** (n - 1)):
        m, c = [], 1
        for k in range(n - 1):
            if bits >> k & 1:
                m.append(c)
                c = 1
            else:
                c += 1
        m.append(c)
        yield tuple(m)


def r_masses(r, n=None, style=None):
    """A random mass sequence (summing to n if given)."""
    style = style or r.choice(['few', 'many', 'mixed', 'equal', 'one', 'units'])
    if n is None:
        n = r.choice([1, 2, 3, 4, 5, 7, 10, 13, 20, 30, 60, 120])
        n = r.randint(max(1, n // 2), n)
    if n == 0:
        return ()
    if style == 'one':
        cuts = []
    elif style == 'units':
        cuts = list(range(1, n))
    elif style == 'equal':
        s = r.randint(1, n)
        cuts = list(range(s, n, s))
    else:
        p = {'few': .08, 'many': .6, 'mixed': .25}[style]
        cuts = [k for k in range(1, n) if r.random() < p]
    cuts = [0] + cuts + [n]
    return tuple(b - a for a, b in zip(cuts, cuts[1:]))


def r_pair(r, n=None):
    """Two mass sequences of the same total; the second often a perturbation of the first."""
    a = r_masses(r, n)
    n = sum(a)
    mode = r.random()
    if mode < .12:
        return a, a
    if mode < .6 and len(a) > 1:
        cuts = set(itertools.accumulate(a[:-1]))
        for _ in range(r.randint(1, 4)):
            what = r.random()
            if what < .3 and cuts:
                cuts.discard(r.choice(sorted(cuts)))
            elif what < .5 and n > 1:
                cuts.add(r.randint(1, n - 1))
            elif cuts:
                c = r.choice(sorted(cuts))
                d = c + r.choice([-4, -3, -2, -1, 1, 2, 3, 4])
                if 0 < d < n:
                    cuts.discard(c)
                    cuts.add(d)
        cs = [0] + sorted(cuts) + [n]
        b = tuple(y - x for x, y in zip(cs, cs[1:]))
    else:
        b = r_masses(r, n)
    return (a, b) if r.random() < .5 else (b, a)


def relabel(r, masses):
    """Position labels of a segmentation; sometimes not 1..n but other distinct integers."""
    mode = r.random()
    if mode < .6:
        labels = list(range(1, len(masses) + 1))
    elif mode < .8:
        labels = r.sample(range(-5, 5 + 3 * len(masses)), len(masses))
    else:
        labels = r.sample(range(250, 1000 + 3 * len(masses)), len(masses))
    out = []
    for l, m in zip(labels, masses):
        out += [l] * m
    return tuple(out)


def encode(r, masses, fmt):
    if fmt == 'mass':
        return tuple(masses) if r.random() < .7 else list(masses)
    if fmt == 'position':
        p = relabel(r, masses)
        return p if r.random() < .8 else list(p)
    if fmt == 'nltk':
        return S.nltk_of(masses, '1', r.choice(['0', '0', '-', 'x']))
    return tuple(S.string_of(masses))


TYPESETS = [[1], [1, 2], [1, 2, 3], [1, 2, 3, 4], [3, 7], [-2, 1, 5], [1, 10, 100], [0, 1], [2, 4, 5, 9], [300, 301],
            [-1, 0, 1]]


def r_bstring_pair(r, n=None, types=None):
    types = types or r.choice(TYPESETS)
    if n is None:
        n = r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 10, 14, 20])
    dens = r.choice([.1, .25, .4, .6])
    def slot():
        return {t for t in types if r.random() < dens}
    a = [slot() for _ in range(n)]
    if r.random() < .5:
        b = [slot() for _ in range(n)]
    else:
        b = [set(s) for s in a]
        for _ in range(r.randint(0, n)):
            p = r.randrange(n)
            what = r.random()
            if what < .55 and b[p]:
                t = r.choice(sorted(b[p]))
                b[p].discard(t)
                q = p + r.choice([-4, -3, -2, -1, 1, 2, 3, 4])
                if 0 <= q < n:
                    b[q].add(t)
            elif what < .75 and b[p]:
                b[p].discard(r.choice(sorted(b[p])))
                b[p].add(r.choice(types))
            else:
                b[p].symmetric_difference_update({r.choice(types)})
    f = r.choice([set, frozenset])
    tup = r.choice([tuple, tuple, list])
    return tup(f(s) for s in a), tup(f(s) for s in b)


def all_bstring_pairs(types, n):
    subs = [frozenset(c) for k in range(len(types) + 1) for c in combinations(types, k)]
    for a in product(subs, repeat=n):
        for b in product(subs, repeat=n):
            yield a, b


def r_formatted_pair(r, fmts=('mass', 'position', 'nltk', 'sets'), n=None):
    fmt = r.choice(fmts)
    if fmt == 'sets' and r.random() < .75:
        a, b = r_bstring_pair(r, n)
    else:
        x, y = r_pair(r, n)
        a, b = encode(r, x, fmt), encode(r, y, fmt)
    return a, b, fmt


BIG = (50, 200, 700, 2000)


# ================================================================ C01
def ex_C01():
    for n in range(1, 9):
        for m in compositions(n):
            yield ('masses', m)
    for n in range(0, 7):
        for p in product((1, 2, 3), repeat=n):
            yield ('labels', p)
    for n in range(0, 9):
        for s in product('01', repeat=n):
            yield ('nltk', ''.join(s), '1')
    yield ('masses', ())


def rnd_C01(r):
    k = r.random()
    if k < .35:
        m = r_masses(r, r.choice([None, None, None, 300, 2500]))
        return ('masses', m if r.random() < .6 else list(m))
    if k < .7:
        n = r.choice([3, 6, 12, 40, 200, 3000])
        pool = r.choice([[1, 2], [1, 2, 3], list(range(-3, 4)), [0], list(range(1000)), ['a', 'b', 'ab'],
                         [None, 0, 1], [1.5, 2, Decimal('2.5')], [(1, 2), (2, 1)], [256, 257, 258, 100000]])
        out = []
        while len(out) < n:
            out += [r.choice(pool)] * r.choice([1, 1, 1, 2, 3, 10])
        return ('labels', tuple(out) if r.random() < .6 else out)
    n = r.choice([0, 1, 2, 5, 20, 100, 2000])
    sym = r.choice(['1', '1', '0', '|', '.', '*', ' ', '\\', '\n', 'x', '\t', u'\u00e9', '$', '^'])
    fill = r.choice([['0'], ['0', 'x'], ['0', '2', ' ', '.']])
    return ('nltk', ''.join(sym if r.random() < .2 else r.choice(fill) for _ in range(n)), sym)


def check_C01(case):
    kind = case[0]
    if kind == 'masses':
        m = case[1]
        p = convert_masses_to_positions(m)
        if list(p) != S.positions_of(m):
            return 'convert_masses_to_positions(%r) = %r' % (m, p)
        back = convert_positions_to_masses(p)
        if list(back) != list(m):
            return 'round trip of %r gives %r' % (m, back)
        b = boundary_string_from_masses(m)
        if [set(x) for x in b] != [set(x) for x in S.string_of(m)]:
            return 'boundary_string_from_masses(%r) = %r' % (m, b)
    elif kind == 'labels':
        got = convert_positions_to_masses(case[1])
        if list(got) != S.runs(case[1]):
            return 'convert_positions_to_masses(%r) = %r' % (case[1], got)
    else:
        got = convert_nltk_to_masses(case[1], boundary_symbol=case[2])
        if list(got) != S.masses_of_nltk(case[1], case[2]):
            return 'convert_nltk_to_masses(%r, %r) = %r' % (case[1], case[2], got)
        if case[2] == '1' and list(convert_nltk_to_masses(case[1])) != S.masses_of_nltk(case[1]):
            return 'convert_nltk_to_masses(%r) default symbol' % (case[1],)


# ================================================================ C02 / C03
def ex_window(fix):
    for n in range(1, 7):
        cs = list(compositions(n))
        for a in cs:
            for b in cs:
                for k in (None, 1, 2, 3, 5):
                    yield (a, b, 'mass', dict(window_size=k) if k else {}, fix)


def rnd_window(r, fix):
    n = r.choice([None] * 12 + [150, 400] + ([1500] if r.random() < .2 else []))
    fmt = r.choice(['mass', 'mass', 'position', 'nltk'])
    x, y = r_pair(r, n)
    a, b = encode(r, x, fmt), encode(r, y, fmt)
    total = sum(x)
    o = {}
    if r.random() < .65:
        o['window_size'] = r.choice([1, 2, 3, 4, 5, 6, max(1, total // 2), max(1, total - 1), total, total + 1, total + 7,
                                     r.randint(1, total)])
    elif r.random() < .5:
        o['fnc_round'] = r.choice(sorted(ROUNDERS))
    return (a, b, fmt, o, fix and r.random() < .45)


def window_case(case, fnc, counts):
    a, b, fmt, o, fix = case
    ref = S.labels_in(b, fmt)
    hyp = S.labels_in(a, fmt)
    k = o.get('window_size') or S.window_size(S.runs(ref), o.get('fnc_round'))
    num, den = counts(hyp, ref, k, fix)
    val = Fr(num, den) if den else Fr(0)
    kw = dict(o)
    if 'fnc_round' in kw:
        kw['fnc_round'] = ROUNDERS[kw['fnc_round']]
    kw['boundary_format'] = fmt
    if fix:
        kw['lamprier_et_al_2007_fix'] = True
    name = fnc.__name__
    v = fnc(a, b, **kw)
    if not near(v, val):
        return '%s(%r, %r, **%r) = %r, expected %s' % (name, a, b, kw, v, val)
    if not (0 <= v <= 1):
        return '%s(%r, %r, **%r) = %r outside [0,1]' % (name, a, b, kw, v)
    one = fnc(a, b, one_minus=True, **kw)
    if not near(one, 1 - val):
        return '%s(one_minus, %r, %r, **%r) = %r, expected %s' % (name, a, b, kw, one, 1 - val)
    parts = fnc(a, b, return_parts=True, **kw)
    if tuple(parts) != (num, den):
        return '%s(return_parts, %r, %r, **%r) = %r, expected %r' % (name, a, b, kw, parts, (num, den))
    if list(S.runs(ref)) == list(S.runs(hyp)):
        if v != 0:
            return '%s of identical segmentations %r is %r' % (name, a, v)


def ex_C02():
    return ex_window(False)


def rnd_C02(r):
    return rnd_window(r, False)


def check_C02(case):
    return window_case(case, pk, lambda h, q, k, f: S.pk(h, q, k))


def ex_C03():
    for c in ex_window(False):
        yield c
        if sum(c[0]) <= 5:
            yield c[:4] + (True,)


def rnd_C03(r):
    return rnd_window(r, True)


def check_C03(case):
    return window_case(case, window_diff, S.wd)


# ================================================================ C04
def ex_C04():
    for n in range(1, 11):
        for m in compositions(n):
            yield ('one', m, 'mass', None)
    for n in range(1, 8):
        for m in compositions(n):
            yield ('one', m, 'position', None)


def rnd_C04(r):
    k = r.random()
    rnd = r.choice([None, None] + sorted(ROUNDERS))
    if k < .3:
        m = r_masses(r, r.choice([None, None, 500]))
        if r.random() < .2:
            m = tuple(r.choice([1, 2, 10, 1000, 10 ** 6, 10 ** 9]) for _ in range(r.randint(1, 6)))
        return ('one', m if r.random() < .7 else list(m), 'mass', rnd)
    if k < .45:
        m = r_masses(r)
        return ('one', relabel(r, m), 'position', rnd)
    if k < .7:
        deep = r.choice([2, 2, 2, 3])
        def build(d):
            if d == 0:
                m = r_masses(r, r.choice([None, 5]))
                return m if r.random() < .5 else list(m)
            return {'k%d' % i: build(d - 1) for i in range(r.randint(1, 4))}
        return ('coll', build(deep), 'dict' if deep != 2 or r.random() < .5 else 'dataset', rnd)
    x, y = r_pair(r)
    z = r_masses(r, sum(x))
    fmt = r.choice(['mass', 'position', 'nltk'])
    return ('metric', encode(r, x, fmt), encode(r, y, fmt), encode(r, z, fmt), fmt, rnd, r.randint(1, 40))


def leaves(d):
    if hasattr(d, 'items'):
        return [m for v in d.values() for m in leaves(v)]
    return list(d)


def check_C04(case):
    if case[0] in ('one', 'coll'):
        _, ref, how, rnd = case
        arg = Dataset(ref) if how == 'dataset' else ref
        kw = {'fnc_round': ROUNDERS[rnd]} if rnd else {}
        if how == 'position':
            kw['boundary_format'] = BoundaryFormat.position
            ms = S.runs(ref)
        else:
            ms = leaves(ref)
        want = S.window_size(ms, rnd)
        got = compute_window_size(arg, **kw)
        if got != want:
            return 'compute_window_size(%r, %r) = %r, expected %r' % (ref, kw, got, want)
        return
    _, x, y, z, fmt, rnd, k = case
    kw = {'fnc_round': ROUNDERS[rnd]} if rnd else {}
    w = S.window_size(S.masses_in(y, fmt), rnd)
    for fnc in (pk, window_diff):
        for hyp in (x, z):
            a = fnc(hyp, y, boundary_format=fmt, return_parts=True, **kw)
            b = fnc(hyp, y, boundary_format=fmt, return_parts=True, window_size=w)
            if a != b:
                return '%s(%r, %r, %s, %r): default window gives %r, window_size=%d gives %r' % (
                    fnc.__name__, hyp, y, fmt, kw, a, w, b)
        a = fnc(x, y, boundary_format=fmt, return_parts=True, window_size=k, **kw)
        ref, hyp = S.labels_in(y, fmt), S.labels_in(x, fmt)
        want = S.pk(hyp, ref, k) if fnc is pk else S.wd(hyp, ref, k)
        if tuple(a) != want:
            return '%s(%r, %r, %s, window_size=%d) = %r, expected %r' % (fnc.__name__, x, y, fmt, k, a, want)


# ================================================================ C05 C06 C07
def ex_bed():
    for n in range(1, 4):
        for a, b in all_bstring_pairs((1,), n):
            for n_t in (1, 2, 3, 4):
                yield (a, b, n_t)
    for a, b in all_bstring_pairs((1, 2), 1):
        yield (a, b, 2)
    for a, b in all_bstring_pairs((1, 2, 3, 5), 1):
        yield (a, b, 2)
    for a, b in all_bstring_pairs((1, 2), 2):
        yield (a, b, 2)
    for a, b in all_bstring_pairs((1,), 5):
        yield (a, b, 3)
    for a, b in all_bstring_pairs((1, 2), 3):
        yield (a, b, 3)
    for a, b in all_bstring_pairs((1, 2, 4), 2):
        yield (a, b, 2)


def rnd_bed(r):
    k = r.random()
    if k < .1:
        a, b = r_bstring_pair(r, r.choice([50, 100, 300]))
    elif k < .25:
        types = r.choice([[1, 2, 3, 4, 5], [1, 4, 6, 7], [2, 3, 11, 12, 30], [-7, -1, 0, 4], [1, 2, 3, 4, 5, 6]])
        x = [t for t in types if r.random() < .5]
        y = [t for t in types if t not in x and r.random() < .9]
        if len(x) > 4:
            x = x[:4]
        if len(y) > 4:
            y = y[:4]
        z = [t for t in types if r.random() < .2]
        a, b = (set(x + z),), (set(y + z),)
        if r.random() < .3:
            a, b = a + (set(),), b + (set(y[:1]),)
    else:
        a, b = r_bstring_pair(r)
    return (a, b, r.choice([1, 2, 2, 2, 3, 3, 4, 5, 6, 9]))


def bed_ok(case):
    return all(len(set(x) - set(y)) <= 5 and len(set(y) - set(x)) <= 5 for x, y in zip(case[0], case[1]))


def run_bed(case):
    a, b, n_t = case
    return boundary_edit_distance(a, b, n_t=n_t)


def triple(t):
    return (t[0], t[1], t[2])


def check_C05(case):
    a, b, n_t = case
    if not bed_ok(case):
        return
    adds, subs, trs = run_bed(case)
    left_a, left_b = {}, {}
    for p, (x, y) in enumerate(zip(a, b)):
        for t in set(x) - set(y):
            left_a[(p, t)] = 1
        for t in set(y) - set(x):
            left_b[(p, t)] = 1
    total = len(left_a) + len(left_b)
    for t in trs:
        for end in ((t[0], t[2]), (t[1], t[2])):
            if end in left_a:
                del left_a[end]
            elif end in left_b:
                del left_b[end]
            else:
                return 'BED%r: transposition %r does not account for a still unexplained boundary at %r' % (case, t, end)
    ca, cb = {}, {}
    for (_, t) in left_a:
        ca[t] = ca.get(t, 0) + 1
    for (_, t) in left_b:
        cb[t] = cb.get(t, 0) + 1
    ga, gb = {}, {}
    for e in adds:
        typ, side = e
        if side not in ('a', 'b'):
            return 'BED%r: addition %r with unknown side' % (case, e)
        g = ga if side == 'a' else gb
        g[typ] = g.get(typ, 0) + 1
    for e in subs:
        x, y = e
        ga[x] = ga.get(x, 0) + 1
        gb[y] = gb.get(y, 0) + 1
    if ga != ca or gb != cb:
        return 'BED%r: additions %r and substitutions %r do not account for a-only %r, b-only %r' % (case, adds, list(subs), ca, cb)
    if len(adds) + 2 * len(subs) + 2 * len(trs) != total:
        return 'BED%r: %d disagreements, edits %r' % (case, total, (adds, subs, trs))
    msg = decomposes(case, adds, subs, trs, False)
    if msg:
        return msg


def decomposes(case, adds, subs, trs, optimal):
    """Additions and substitutions are the union over positions of one-to-one pairings and leftovers (searched on
    short strings, where the edits, which carry no positions, can be attributed to positions)."""
    a, b, n_t = case
    cov = {}
    for t in trs:
        cov.setdefault(t[0], set()).add(t[2])
        cov.setdefault(t[1], set()).add(t[2])
    slots = []
    for p, (x, y) in enumerate(zip(a, b)):
        xs = set(x) - set(y) - cov.get(p, set())
        ys = set(y) - set(x) - cov.get(p, set())
        if xs and ys:
            slots.append((xs, ys))
    need = {}
    for s in subs:
        need[(s[0], s[1])] = need.get((s[0], s[1]), 0) + 1
    if len(slots) > 6:
        return
    budget = [20000]

    def pairings(xs, ys):
        if optimal:
            return S.optimal_matchings(xs, ys)[1]
        xs, ys = sorted(xs), sorted(ys)
        out = set()
        from itertools import permutations
        k = min(len(xs), len(ys))
        for sel in combinations(xs, k):
            for q in permutations(ys, k):
                out.add(frozenset(zip(sel, q)))
        return out

    def go(k):
        budget[0] -= 1
        if budget[0] < 0:
            return True
        if k == len(slots):
            return all(v == 0 for v in need.values())
        for m in pairings(*slots[k]):
            if all(need.get(e, 0) > 0 for e in m):
                for e in m:
                    need[e] -= 1
                if go(k + 1):
                    return True
                for e in m:
                    need[e] += 1
        return False
    if optimal or True:
        if not optimal and any(len(x) > 3 or len(y) > 3 for x, y in slots):
            return
        if not go(0):
            return 'BED%r: substitutions %r are not one-to-one pairings%s at the positions' % (
                case, sorted(need), ' of minimal total distance' if optimal else '')


def check_C06(case):
    a, b, n_t = case
    if not bed_ok(case):
        return
    want = S.transpositions(a, b, n_t)[0]
    got = [triple(t) for t in run_bed(case)[2]]
    if len(set(got)) != len(got):
        return 'BED%r: transposition listed twice in %r' % (case, got)
    if set(got) != want:
        return 'BED%r: transpositions %r, expected %r' % (case, sorted(got), sorted(want))
    for i, j, t in got:
        if not (i < j and j - i < n_t):
            return 'BED%r: transposition span %r' % (case, (i, j, t))


def check_C07(case):
    a, b, n_t = case
    if not bed_ok(case):
        return
    adds, subs, trs = run_bed(case)
    cov = {}
    for t in trs:
        cov.setdefault(t[0], set()).add(t[2])
        cov.setdefault(t[1], set()).add(t[2])
    ns = na = nb = cost = 0
    for p, (x, y) in enumerate(zip(a, b)):
        xs = set(x) - set(y) - cov.get(p, set())
        ys = set(y) - set(x) - cov.get(p, set())
        ns += min(len(xs), len(ys))
        na += max(0, len(xs) - len(ys))
        nb += max(0, len(ys) - len(xs))
        cost += S.min_cost(xs, ys)
    if len(subs) != ns:
        return 'BED%r: %d substitutions, expected %d' % (case, len(subs), ns)
    got = sum(abs(e[0] - e[1]) for e in subs)
    if got != cost:
        return 'BED%r: total substitution distance %d, minimal %d (substitutions %r)' % (case, got, cost, list(subs))
    ga = sum(1 for e in adds if e[1] == 'a')
    gb = sum(1 for e in adds if e[1] == 'b')
    if (ga, gb) != (na, nb) or len(adds) != na + nb:
        return 'BED%r: additions %r, expected %d from a and %d from b' % (case, adds, na, nb)
    return decomposes(case, adds, subs, trs, True)


def ex_C05():
    return ex_bed()


ex_C06 = ex_C07 = ex_C05


def rnd_C05(r):
    return rnd_bed(r)


rnd_C06 = rnd_C07 = rnd_C05


# ================================================================ C08 C09 C10 C11 C12
def ex_sim():
    for n in range(1, 6):
        cs = list(compositions(n))
        for a in cs:
            for b in cs:
                yield (a, b, 'mass', {})
    for n_t in (1, 2, 3):
        for w in sorted(WEIGHTS):
            for a, b in all_bstring_pairs((1, 2), 2):
                yield (a, b, 'sets', dict(n_t=n_t, weight=w))
    for w in sorted(WEIGHTS):
        for a, b in all_bstring_pairs((1, 3, 4), 1):
            yield (a, b, 'sets', dict(weight=w))


def rnd_sim(r):
    n = r.choice([None] * 14 + [80, 200])
    a, b, fmt = r_formatted_pair(r, n=n)
    o = {}
    if r.random() < .6:
        o['n_t'] = r.choice([1, 2, 3, 4, 5, 8])
    if r.random() < .5:
        o['weight'] = r.choice(sorted(WEIGHTS))
    return (a, b, fmt, o)


def sim_setup(case):
    a, b, fmt, o = case
    x, y = S.bstring_in(a, fmt), S.bstring_in(b, fmt)
    if any(len(p - q) > 5 or len(q - p) > 5 for p, q in zip(x, y)):
        return None
    n_t = o.get('n_t', 2)
    w = o.get('weight', 'ST')
    kw = dict(o)
    if 'weight' in kw:
        kw['weight'] = WEIGHTS[w]
    kw['boundary_format'] = fmt
    return x, y, n_t, w, kw


def check_similarity(case, fnc, parts_of, nparts):
    s = sim_setup(case)
    if s is None:
        return
    x, y, n_t, w, kw = s
    a, b = case[:2]
    st = S.stats(x, y, n_t, w)
    num, den = parts_of(st)
    val = S.ratio((num, den))
    name = fnc.__name__
    v = fnc(a, b, **kw)
    if not near(v, val):
        return '%s%r = %r, expected %s' % (name, case, v, val)
    if w == 'ST':
        if not 0 <= v <= 1:
            return '%s%r = %r outside [0,1]' % (name, case, v)
        if (v == 1) != (x == y):
            return '%s%r = %r, identical: %s' % (name, case, v, x == y)
    one = fnc(a, b, one_minus=True, **kw)
    if not near(one, 1 - val):
        return '%s%r one_minus = %r, expected %s' % (name, case, one, 1 - val)
    parts = fnc(a, b, return_parts=True, **kw)
    if len(parts) != nparts or not near(parts[0], num) or not near(parts[1], Fr(den)):
        return '%s%r return_parts = %r, expected %s / %s' % (name, case, parts, num, den)
    if nparts == 5:
        e = boundary_edit_distance(tuple(x), tuple(y), n_t=n_t)
        key = lambda l: sorted(map(repr, l))
        for got, want in zip(parts[2:], e):
            if key(got) != key(want):
                return '%s%r return_parts edit lists %r, edits %r' % (name, case, parts[2:], e)


def check_C08(case):
    return check_similarity(case, boundary_similarity, S.b_parts, 5)


def check_C09(case):
    return check_similarity(case, segmentation_similarity, S.s_parts, 2)


def bag(l):
    d = {}
    for e in l:
        d[e] = d.get(e, 0) + 1
    return d


def check_C10(case):
    if case[0] == 'weights':
        return check_weights(case)
    s = sim_setup(case)
    if s is None:
        return
    x, y, n_t, w, kw = s
    a, b = case[:2]
    st = S.stats(x, y, n_t, w)
    d = boundary_statistics(a, b, **kw)
    m, f = {}, {}
    for p, q in zip(x, y):
        for t in p & q:
            m[t] = m.get(t, 0) + 1
        for t in p ^ q:
            f[t] = f.get(t, 0) + 1
    if bag(d['matches']) != m:
        return 'boundary_statistics%r matches %r, expected %r' % (case, d['matches'], m)
    if bag(d['full_misses']) != f:
        return 'boundary_statistics%r full_misses %r, expected %r' % (case, d['full_misses'], f)
    if d['boundaries_all'] != 2 * len(d['matches']) + len(d['full_misses']) or d['boundaries_all'] != st['all']:
        return 'boundary_statistics%r boundaries_all %r' % (case, d['boundaries_all'])
    if len(d['full_misses']) != len(d['additions']) + 2 * len(d['substitutions']) + 2 * len(d['transpositions']):
        return 'boundary_statistics%r full misses and edits %r' % (case, d)
    if set(d['boundary_types']) != st['types'] or len(d['boundary_types']) != len(st['types']):
        return 'boundary_statistics%r boundary_types %r' % (case, d['boundary_types'])
    if d['pbs'] != st['pbs']:
        return 'boundary_statistics%r pbs %r, expected %r' % (case, d['pbs'], st['pbs'])
    ty = st['types']
    mx, mn = (max(ty), min(ty)) if ty else (1, 1)
    edits = Fr(len(d['additions']))
    edits += (Fr(sum(abs(e[0] - e[1]) for e in d['substitutions']), mx - mn + 1) if w[0] == 'S'
              else len(d['substitutions']))
    edits += (Fr(sum(abs(e[0] - e[1]) for e in d['transpositions']), n_t) if w[1] == 'T'
              else len(d['transpositions']))
    if not near(d['count_edits'], edits):
        return 'boundary_statistics%r count_edits %r, expected %s' % (case, d['count_edits'], edits)
    if not near(d['count_edits'], st['edits']):
        return 'boundary_statistics%r count_edits %r, expected %s' % (case, d['count_edits'], st['edits'])


def check_weights(case):
    _, pairs, m, lo = case
    n = len(pairs)
    tot = sum(abs(p[0] - p[1]) for p in pairs)
    if weight_a(pairs) != n or weight_s(pairs, m, lo) != n or weight_s(pairs, m) != n or weight_t(pairs, m) != n:
        return 'unscaled weights of %r' % (case,)
    if not near(weight_t_scale(pairs, m), Fr(tot, m)):
        return 'weight_t_scale(%r, %r) = %r' % (pairs, m, weight_t_scale(pairs, m))
    if m - lo + 1 > 0 and not near(weight_s_scale(pairs, m, lo), Fr(tot, m - lo + 1)):
        return 'weight_s_scale(%r, %r, %r) = %r' % (pairs, m, lo, weight_s_scale(pairs, m, lo))
    if not near(weight_s_scale(pairs, m), Fr(tot, m)):
        return 'weight_s_scale(%r, %r) = %r' % (pairs, m, weight_s_scale(pairs, m))


def check_C11(case):
    s = sim_setup(case)
    if s is None:
        return
    x, y, n_t, w, kw = s
    a, b = case[:2]
    d = boundary_statistics(a, b, **kw)
    cm = boundary_confusion_matrix(a, b, **kw)
    want = {}
    def inc(k, v):
        want[k] = want.get(k, 0) + v
    for t in d['matches']:
        inc((t, t), Fr(1))
    for t in d['transpositions']:
        inc((t[2], t[2]), Fr(abs(t[0] - t[1]), n_t) if w[1] == 'T' else Fr(1))
    for t in d['substitutions']:
        inc((t[0], t[1]), Fr(1))
    none_side = {}
    sides = {'a': {}, 'b': {}}
    for t in d['additions']:
        sides[t[1]][t[0]] = sides[t[1]].get(t[0], 0) + 1
    got = {}
    types = set(S.stats(x, y, n_t, w)['types'])
    for p in list(cm.keys()):
        for q, v in dict(dict.__getitem__(cm, p)).items():
            got[(p, q)] = v
    rows = {t: v for (p, t), v in got.items() if p is None and t is not None and v != 0}
    cols = {t: v for (t, q), v in got.items() if q is None and t is not None and v != 0}
    if not ((rows == sides['a'] and cols == sides['b']) or (rows == sides['b'] and cols == sides['a'])):
        return 'boundary_confusion_matrix%r additions: None row %r, None column %r, additions %r' % (
            case, rows, cols, d['additions'])
    if not st_orientation_ok(rows, cols, sides):
        return 'boundary_confusion_matrix%r orientation of additions: %r / %r, additions %r' % (case, rows, cols, d['additions'])
    for k, v in got.items():
        if None in k:
            if k == (None, None) and v != 0:
                return 'boundary_confusion_matrix%r cell %r = %r' % (case, k, v)
            continue
        if not near(v, want.get(k, Fr(0))):
            return 'boundary_confusion_matrix%r cell %r = %r, expected %s' % (case, k, v, want.get(k, 0))
    for k in want:
        if k not in got:
            return 'boundary_confusion_matrix%r lacks cell %r' % (case, k)
    for p in types:
        for q in types:
            if not near(cm[p][q], want.get((p, q), Fr(0))):
                return 'boundary_confusion_matrix%r cell %r = %r' % (case, (p, q), cm[p][q])


ORIENT = []


def st_orientation_ok(rows, cols, sides):
    """One orientation for each side, the same for all inputs: fixed by a probe with a single addition."""
    if not ORIENT:
        m = boundary_confusion_matrix((frozenset([1]),), (frozenset(),), boundary_format='sets')
        ORIENT.append('a' if m[None][1] else 'b')
    return rows == sides[ORIENT[0]]


def check_C12(case):
    s = sim_setup(case)
    if s is None:
        return
    x, y, n_t, w, kw = s
    a, b = case[:2]
    for fnc in (boundary_similarity, segmentation_similarity):
        p, q = fnc(a, b, **kw), fnc(b, a, **kw)
        if not near(p, S.fr(q)):
            return '%s%r = %r, swapped %r' % (fnc.__name__, case, p, q)
    d, e = boundary_statistics(a, b, **kw), boundary_statistics(b, a, **kw)
    for k in ('matches', 'substitutions', 'transpositions', 'additions'):
        if len(d[k]) != len(e[k]):
            return 'boundary_statistics%r: %s %r, swapped %r' % (case, k, d[k], e[k])
    if not near(d['count_edits'], S.fr(e['count_edits'])):
        return 'boundary_statistics%r: count_edits %r, swapped %r' % (case, d['count_edits'], e['count_edits'])
    if set(map(triple, d['transpositions'])) != set(map(triple, e['transpositions'])):
        return 'boundary_statistics%r: transpositions %r, swapped %r' % (case, d['transpositions'], e['transpositions'])
    na, nb = [sum(1 for t in d['additions'] if t[1] == s_) for s_ in 'ab']
    ma, mb = [sum(1 for t in e['additions'] if t[1] == s_) for s_ in 'ab']
    if (na, nb) != (mb, ma):
        return 'boundary_statistics%r: additions %r, swapped %r' % (case, d['additions'], e['additions'])
    p = boundary_edit_distance(tuple(x), tuple(y), n_t=n_t)
    q = boundary_edit_distance(tuple(y), tuple(x), n_t=n_t)
    if set(map(triple, p[2])) != set(map(triple, q[2])) or len(p[0]) != len(q[0]) or len(p[1]) != len(q[1]):
        return 'boundary_edit_distance%r: %r, swapped %r' % (case, p, q)


def ex_C08():
    return ex_sim()


def rnd_C08(r):
    return rnd_sim(r)


ex_C09 = ex_C11 = ex_C12 = ex_C08
rnd_C09 = rnd_C11 = rnd_C12 = rnd_C08


def ex_C10():
    for p in ([], [(1, 2)], [(3, 1), (1, 2)], [(1, 1)], [(5, 2, 1), (2, 9, 3)]):
        for m in (1, 2, 3, 10):
            for lo in (1, 0, -4):
                yield ('weights', p, m, lo)
    for c in ex_sim():
        yield c


def rnd_C10(r):
    if r.random() < .1:
        return ('weights', [(r.randint(-9, 99), r.randint(-9, 99)) for _ in range(r.choice([0, 1, 3, 50]))],
                r.randint(1, 40), r.randint(-10, 1))
    return rnd_sim(r)


# ================================================================ C13
def r_matrix(r, labels=None):
    labels = labels or r.choice([['a', 'b'], ['p', 'n'], [1, 2], [1, 2, 3], ['x'], [None, 1, 2], ['a', 'b', 'c', 'd', 'e'], [0, 1]])
    cells = {}
    style = r.choice(['int', 'int', 'dec', 'sparse', 'zero', 'big'])
    for p in labels:
        for q in labels:
            if style == 'sparse' and r.random() < .6:
                continue
            if style == 'dec':
                v = Decimal(r.randint(0, 400)) / 4 if r.random() < .7 else Decimal(0)
            elif style == 'zero':
                v = r.choice([0, 0, 0, 1, 5])
            elif style == 'big':
                v = r.randint(0, 10 ** 9)
            else:
                v = r.randint(0, 12)
            cells[(p, q)] = v
    if r.random() < .4:
        for p in labels:
            if r.random() < .5:
                cells[(p, p)] = 0 if style != 'dec' else Decimal(0)
    return cells


BETAS = [None, 1, 2, '0.5', 0.5, Decimal('2.0'), Decimal('0.25'), 10, 0.001]


def ex_C13():
    for vals in product((0, 1, 2), repeat=4):
        cells = dict(zip(product('ab', repeat=2), vals))
        yield ('one', cells, None)
        yield ('one', cells, 2)
    for vals in product((0, 3), repeat=9):
        yield ('one', dict(zip(product((1, 2, 3), repeat=2), vals)), None)


def rnd_C13(r):
    if r.random() < .85:
        return ('one', r_matrix(r), r.choice(BETAS))
    return ('dict', {'m%d' % i: r_matrix(r) for i in range(r.randint(0, 3))}, r.choice(BETAS))


def build_matrix(cells):
    m = ConfusionMatrix()
    for (p, q), v in cells.items():
        m[p][q] = v
    return m


def check_C13(case):
    _, data, beta = case
    bfr = Fr(1) if beta is None else Fr(Decimal(str(beta)))
    kwf = {} if beta is None else {'beta': beta}
    fns = (('precision', precision, {}), ('recall', recall, {}), ('fmeasure', fmeasure, kwf))
    single = case[0] == 'one'
    mats = {'': data} if single else data
    built = {k: build_matrix(c) for k, c in mats.items()}
    arg = built[''] if single else built
    infos = {}
    for k, c in mats.items():
        infos[k] = ({kk: S.fr(v) for kk, v in c.items()}, {x for kk in c for x in kk})
    def values(got):
        return {'': got} if single else got
    classes_all = set()
    for k in infos:
        classes_all |= infos[k][1]
    for name, fnc, kw in fns:
        todo = [('micro', Average.micro), ('macro', Average.macro), ('default', None)]
        for vname, ver in todo:
            kk = dict(kw)
            if ver is not None:
                kk['version'] = ver
            got = values(fnc(arg, **kk))
            if set(got) != set(infos):
                return '%s(%r) keys %r' % (name, case, got)
            for k, (cells, classes) in infos.items():
                want = (S.prf_macro if vname == 'macro' else S.prf_micro)(cells, classes, name, bfr)
                if not near(got[k], want):
                    return '%s(%r, %s)[%r] = %r, expected %s' % (name, case, vname, k, got[k], want)
                if vname == 'macro' and not -S.TOL <= S.fr(got[k]) <= 1 + S.TOL:
                    return '%s(%r, %s)[%r] = %r outside [0,1]' % (name, case, vname, k, got[k])
        for cls in sorted(classes_all, key=repr):
            if cls is None:
                continue
            if not single and any(cls not in infos[k][1] for k in infos):
                continue
            got = values(fnc(arg, classification=cls, **kw))
            for k, (cells, classes) in infos.items():
                want = S.prf_value(S.prf(cells, classes, name, bfr, cls))
                if not near(got[k], want):
                    return '%s(%r, %r)[%r] = %r, expected %s' % (name, case, cls, k, got[k], want)
                if not -S.TOL <= S.fr(got[k]) <= 1 + S.TOL:
                    return '%s(%r, %r)[%r] = %r outside [0,1]' % (name, case, cls, k, got[k])
    for k, c in mats.items():
        for (p, q), v in c.items():
            if built[k][p][q] != v:
                return 'matrix changed by precision/recall/fmeasure: %r' % (case,)


# ================================================================ C14
def ex_C14():
    ops = [('r', 0, 'a', 'b'), ('w', 0, 'a', 'b', 2), ('i', 0, 'b', 'a', 1), ('c', 0), ('w', 1, 'c', 'c', 5), ('c', 1),
           ('row', 0, 'a')]
    for n in (1, 2, 3, 4):
        for h in product(ops, repeat=n):
            yield h


def rnd_C14(r):
    labels = r.choice([['a', 'b', 'c'], [1, 2, 3], [None, 1, 'x'], list(range(6)), ['a', ('a', 'b'), 'b']])
    h = []
    for _ in range(r.choice([2, 4, 8, 20, 60])):
        m = r.choice([0, 0, 0, 1, 2])
        k = r.random()
        if k < .25:
            h.append(('c', m))
        elif k < .45:
            h.append(('r', m, r.choice(labels), r.choice(labels)))
        elif k < .7:
            h.append(('w', m, r.choice(labels), r.choice(labels), r.choice([0, 0, 1, 2, 7, Decimal('0.5'), 10 ** 6])))
        elif k < .92:
            h.append(('i', m, r.choice(labels), r.choice(labels), r.choice([1, 1, 1, 2, Decimal('0.5')])))
        elif k < .96:
            h.append(('row', m, r.choice(labels)))
        else:
            h.append(('p', m))
    return tuple(h)


def check_C14(case):
    mats = {}
    model = {}
    for n, op in enumerate(case):
        m = op[1]
        if m not in mats:
            mats[m] = ConfusionMatrix()
            model[m] = {}
        M, D = mats[m], model[m]
        if op[0] == 'r':
            got = M[op[2]][op[3]]
            want = D.setdefault((op[2], op[3]), 0)
            if got != want:
                return 'history %r, step %d: read %r, expected %r' % (case, n, got, want)
        elif op[0] == 'w':
            M[op[2]][op[3]] = op[4]
            D[(op[2], op[3])] = op[4]
        elif op[0] == 'i':
            M[op[2]][op[3]] += op[4]
            D[(op[2], op[3])] = D.get((op[2], op[3]), 0) + op[4]
        elif op[0] == 'row':
            try:
                M[op[2]] = {'z': 1}
                return 'history %r, step %d: whole-row assignment accepted' % (case, n)
            except Exception:
                pass
        elif op[0] == 'p':
            precision(M), recall(M)
            cl = {x for k in D for x in k}
            for p in cl:
                for q in cl:
                    D.setdefault((p, q), 0)
        else:
            got = M.classes()
            want = {x for k in D for x in k}
            if set(got) != want or len(list(got)) != len(want):
                return 'history %r, step %d: classes %r, expected %r' % (case, n, got, want)
    for m in mats:
        for k, v in model[m].items():
            if mats[m][k[0]][k[1]] != v:
                return 'history %r: final cell %r of matrix %r is %r, expected %r' % (case, k, m, mats[m][k[0]][k[1]], v)
        if set(mats[m].classes()) != {x for k in model[m] for x in k}:
            return 'history %r: final classes of matrix %r are %r' % (case, m, mats[m].classes())


# ================================================================ datasets
NAMES = ['alice', 'bob', 'carol', 'dan', 'eve', 'f', '1', '10', 'a b', 'Z', u'\u00e9l', 'x.y', '']

# names that differ only in blanks, case or width, or that look like something else
ODD_NAMES = ['alice', ' alice', 'alice ', 'Alice', 'ali', '0', '00', 'None', 'a', 'A', '\tb', 'b', u'\u00e9', u'e\u0301', ' ']
ODD_ITEMS = ['i', ' i', 'i ', 'I', 'ii', '0', '00', 'None', '', ' ', '\ti', 'total', 'items', u'\u00fc', u'u\u0308']


def r_dataset(r, fmt=None, items=None, coders=None, same=True, minc=1, boundary=False):
    """(data dict, fmt).  same: every item has the same coders."""
    fmt = fmt or r.choice(['mass', 'mass', 'position', 'nltk', 'sets'])
    items = items or r.choice([1, 1, 2, 3, 5])
    coders = coders or r.choice([1, 2, 2, 3, 3, 4, 5])
    coders = max(coders, minc)
    names = r.sample(NAMES if r.random() < .6 else ODD_NAMES, coders)
    labels = r.sample(['i1', 'i2', 'text', 'ch 3', 'q', '7', 'item,x', u'\u00fc', 'zz', 'ii'] if r.random() < .6 else ODD_ITEMS, items)
    data = {}
    for it in labels:
        base = r_masses(r, r.choice([3, 5, 8, 12, 20, 30]))
        n = sum(base)
        types = r.choice(TYPESETS)
        ns = r.randint(1, 8)
        row = {}
        use = list(names)
        if not same:
            use = r.sample(use, r.randint(1, len(use)))
        else:
            r.shuffle(use)
        for c in use:
            if fmt == 'sets':
                row[c] = tuple(frozenset(t for t in types if r.random() < .3) for _ in range(ns))
            else:
                k = r.random()
                m = base if k < .3 else (r_masses(r, n, 'one') if k < .4 else r_masses(r, n))
                row[c] = encode(r, m, fmt)
        data[it] = row
    return data, fmt


def dataset_of(data, fmt):
    return Dataset({i: dict(c) for i, c in data.items()}, boundary_format=fmt)


PAIRWISE = {'pk': pk, 'window_diff': window_diff, 'boundary_similarity': boundary_similarity,
            'segmentation_similarity': segmentation_similarity, 'boundary_statistics': boundary_statistics,
            'boundary_confusion_matrix': boundary_confusion_matrix}
DEFAULT_PERMUTED = {'pk': True, 'window_diff': True}


def r_options(r, metric):
    o = {}
    if metric in ('pk', 'window_diff'):
        if r.random() < .5:
            o['window_size'] = r.randint(1, 9)
        elif r.random() < .3:
            o['fnc_round'] = r.choice(sorted(ROUNDERS))
        if metric == 'window_diff' and r.random() < .3:
            o['lamprier_et_al_2007_fix'] = True
    else:
        if r.random() < .5:
            o['n_t'] = r.choice([1, 2, 3, 4])
        if r.random() < .4:
            o['weight'] = r.choice(sorted(WEIGHTS))
    if metric in ('pk', 'window_diff', 'boundary_similarity', 'segmentation_similarity'):
        k = r.random()
        if k < .2:
            o['one_minus'] = True
        elif k < .4:
            o['return_parts'] = True
    return o


def real_options(o):
    o = dict(o)
    if 'fnc_round' in o:
        o['fnc_round'] = ROUNDERS[o['fnc_round']]
    if 'weight' in o:
        o['weight'] = WEIGHTS[o['weight']]
    return o


def comparable(v):
    """A value that can be compared with ==, for results of any metric."""
    if isinstance(v, ConfusionMatrix):
        return {k: dict(dict.__getitem__(v, k)) for k in v.keys()}
    if isinstance(v, dict):
        return {k: comparable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [comparable(x) for x in v]
    return v


def ex_C15():
    data = {'i1': {'alice': (2, 3), 'bob': (1, 4), 'carol': (5,)}, 'i2': {'bob': (3, 3), 'carol': (2, 2, 2)}, 'i3': {'alice': (4,)}}
    other = {'i1': {'alice': (1, 1, 3), 'dan': (4, 1)}, 'i2': {'eve': (6,)}, 'i9': {'bob': (2, 2)}}
    for m in sorted(PAIRWISE):
        for perm in (None, True, False):
            o = {} if perm is None else {'permuted': perm}
            yield ('one', m, data, 'mass', o)
            yield ('two', m, data, other, 'mass', o)
    odd = {' i': {'x': (2, 3), ' x': (5,)}, 'i': {'x': (1, 4), 'X': (3, 2)}, 'I ': {'x ': (4, 1)}}
    odd2 = {' i': {'x': (1, 4), 'y': (2, 3)}, 'i ': {'x': (5,)}, 'I ': {'x ': (3, 2), 'x': (2, 3)}}
    for m in ('pk', 'boundary_similarity'):
        yield ('one', m, odd, 'mass', {})
        yield ('two', m, odd, odd2, 'mass', {})


def rnd_C15(r):
    m = r.choice(sorted(PAIRWISE))
    fmt = r.choice(['mass', 'mass', 'position', 'nltk'] + (['sets'] if m not in ('pk', 'window_diff') else []))
    o = r_options(r, m)
    if r.random() < .5:
        o['permuted'] = r.random() < .5
    if r.random() < .5:
        data, _ = r_dataset(r, fmt, same=r.random() < .5)
        if r.random() < .1:
            data = {i: {k: v for k, v in enumerate(c.values())} for i, c in data.items()}
        if r.random() < .1:
            data['empty'] = {}
        return ('one', m, data, fmt, o)
    data, _ = r_dataset(r, fmt, same=r.random() < .5)
    other = {}
    for it in data:
        if r.random() < .2:
            continue
        c0 = next(iter(data[it].values()))
        if fmt == 'sets':
            n = len(c0)
            other[it] = {c: tuple(frozenset(t for t in (1, 2, 3) if r.random() < .3) for _ in range(n))
                         for c in r.sample(NAMES, r.randint(1, 3))}
        else:
            n = sum(S.masses_in(c0, fmt))
            other[it] = {c: encode(r, r_masses(r, n), fmt) for c in r.sample(NAMES, r.randint(1, 3))}
    extra, _ = r_dataset(r, fmt, items=1, coders=2)
    other['extra'] = next(iter(extra.values()))
    if r.random() < .5:
        data, other = other, data
    return ('two', m, data, other, fmt, o)


def check_C15(case):
    mname = case[1]
    fnc = PAIRWISE[mname]
    o = real_options(case[-1])
    direct = {k: v for k, v in o.items() if k != 'permuted'}
    fmt = case[-2]
    want = {}
    if case[0] == 'one':
        data = case[2]
        permuted = o.get('permuted', DEFAULT_PERMUTED.get(mname, False))
        for it, row in data.items():
            for x, y in combinations(list(row), 2):
                want[(it, x, y)] = (row[x], row[y])
                want[(it, y, x)] = (row[y], row[x])
        ds = dataset_of(data, fmt)
        got = fnc(ds, **o)
        keys = {}
        for (it, x, y), v in want.items():
            keys[','.join([it, str(x), str(y)])] = (it, x, y)
        exp_n = sum(len(row) * (len(row) - 1) // 2 for row in data.values()) * (2 if permuted else 1)
        if len(got) != exp_n:
            return '%r: %d values, expected %d (keys %r)' % (case, len(got), exp_n, sorted(got))
        for it, row in data.items():
            for x, y in combinations(list(row), 2):
                n = sum(1 for k in (','.join([it, str(x), str(y)]), ','.join([it, str(y), str(x)])) if k in got)
                if n != (2 if permuted else 1):
                    return '%r: pair %r of item %r appears %d times' % (case, (x, y), it, n)
    else:
        data, other = case[2], case[3]
        keys = {}
        for it in data:
            if it in other:
                for x in data[it]:
                    for y in other[it]:
                        keys[','.join([it, str(x), str(y)])] = (it, x, y)
                        want[(it, x, y)] = (data[it][x], other[it][y])
        got = fnc(dataset_of(data, fmt), dataset_of(other, fmt), **o)
        if set(got) != set(keys):
            return '%r: keys %r, expected %r' % (case, sorted(got), sorted(keys))
    for k, v in got.items():
        if k not in keys:
            return '%r: unexpected key %r' % (case, k)
        a, b = want[keys[k]]
        w = fnc(a, b, boundary_format=fmt, **direct)
        if comparable(w) != comparable(v):
            return '%r: value at %r is %r, metric of the pair is %r' % (case, k, v, w)


# ================================================================ C16 C17
def ex_C16():
    cs = list(compositions(3))
    for a in cs:
        for b in cs:
            for cmp_ in 'BS':
                yield ({'i': {'x': a, 'y': b}}, 'mass', cmp_, {}, 'dict')
                for c in cs:
                    yield ({'i': {'x': a, 'y': b, 'z': c}}, 'mass', cmp_, {}, 'dataset')
    cs = list(compositions(4))
    for a in cs:
        for b in cs:
            yield ({'i': {'x': a, 'y': b}, 'j': {'x': (3, 1), 'y': (2, 2)}}, 'mass', 'B', {}, 'dataset')


def rnd_C16(r):
    data, fmt = r_dataset(r, minc=2)
    o = {}
    if r.random() < .4:
        o['n_t'] = r.choice([1, 2, 3, 4])
    if r.random() < .3:
        o['weight'] = r.choice(sorted(WEIGHTS))
    return (data, fmt, r.choice('BBS'), o, r.choice(['dict', 'dataset']) if fmt == 'mass' else r.choice(['dataset', 'dictfmt']))


def agr_setup(case):
    data, fmt, cmp_, o, how = case
    if not any(len(s) for row in data.values() for seg in row.values() for s in S.bstring_in(seg, fmt)):
        return None
    kw = real_options(o)
    if cmp_ == 'S':
        kw['fnc_compare'] = segmentation_similarity
    if how == 'dataset':
        arg = dataset_of(data, fmt)
    else:
        arg = {i: dict(c) for i, c in data.items()}
        if how == 'dictfmt':
            kw['boundary_format'] = fmt
    return arg, kw, o.get('n_t', 2), o.get('weight', 'ST')


def check_C16(case):
    s = agr_setup(case)
    if s is None:
        return
    arg, kw, n_t, w = s
    data, fmt, cmp_, o, how = case
    A = S.agreement(data, fmt, cmp_, n_t, w)[0]
    v = actual_agreement_linear(arg, **kw)
    if not near(v, A):
        return 'actual_agreement_linear%r = %r, expected %s' % (case, v, A)
    if w == 'ST':
        if not 0 <= v <= 1:
            return 'actual_agreement_linear%r = %r outside [0,1]' % (case, v)
        same = all(S.bstring_in(a, fmt) == S.bstring_in(b, fmt)
                   for row in data.values() for a, b in combinations(list(row.values()), 2))
        if (v == 1) != same:
            return 'actual_agreement_linear%r = %r, identical codings: %s' % (case, v, same)
    rev = {i: {c: data[i][c] for c in reversed(list(data[i]))} for i in reversed(list(data))}
    s2 = agr_setup((rev,) + case[1:])
    v2 = actual_agreement_linear(s2[0], **s2[1])
    if not near(v2, S.fr(v)):
        return 'actual_agreement_linear%r depends on order: %r, reversed %r' % (case, v, v2)


def ex_C17():
    for c in ex_C16():
        yield c
    for data in ({'i': {'x': (2, 3)}}, {'i': {'x': (2, 3), 'y': (1, 4)}, 'j': {'x': (3,)}},
                 {'i': {'x': (2, 3), 'y': (1, 4)}, 'j': {'x': (3,), 'y': (1, 2), 'z': (2, 1)}}):
        yield ('reject', data)


def rnd_C17(r):
    if r.random() < .08:
        data, _ = r_dataset(r, 'mass', items=r.choice([2, 3, 4]), minc=3)
        it = r.choice(sorted(data))
        del data[it][r.choice(sorted(data[it]))]
        return ('reject', data)
    return rnd_C16(r)


def check_C17(case):
    if case[0] == 'reject':
        data = case[1]
        few = any(len(row) < 2 for row in data.values())
        uneq = len({len(row) for row in data.values()}) > 1
        for fnc in (fleiss_kappa_linear, artstein_poesio_bias_linear) + ((fleiss_pi_linear,) if uneq else ()):
            if not (few or uneq):
                continue
            for arg in (data, Dataset({i: dict(c) for i, c in data.items()})):
                try:
                    v = fnc(arg)
                except Exception:
                    continue
                return '%s(%r) = %r, expected a rejection' % (fnc.__name__, data, v)
        return
    s = agr_setup(case)
    if s is None:
        return
    arg, kw, n_t, w = s
    data, fmt, cmp_, o, how = case
    A, pi_e, ka_e = S.agreement(data, fmt, cmp_, n_t, w)
    for fnc, E in ((fleiss_pi_linear, pi_e), (fleiss_kappa_linear, ka_e)):
        if E == 1:
            continue
        v = fnc(arg, **kw)
        if not near(v, (A - E) / (1 - E)):
            return '%s%r = %r, expected %s' % (fnc.__name__, case, v, (A - E) / (1 - E))
        parts = fnc(arg, return_parts=True, **kw)
        if len(parts) != 2 or not near(parts[0], A) or not near(parts[1], E):
            return '%s%r parts = %r, expected %s, %s' % (fnc.__name__, case, parts, A, E)
    if pi_e != 1 and ka_e != 1:
        v = artstein_poesio_bias_linear(arg, **kw)
        if not near(v, pi_e - ka_e):
            return 'artstein_poesio_bias_linear%r = %r, expected %s' % (case, v, pi_e - ka_e)
        parts = artstein_poesio_bias_linear(arg, return_parts=True, **kw)
        if len(parts) != 2 or not near(parts[0], pi_e) or not near(parts[1], ka_e):
            return 'artstein_poesio_bias_linear%r parts = %r, expected %s, %s' % (case, parts, pi_e, ka_e)


# ================================================================ C18
def ex_C18():
    a = {'i': {'x': (1, 2)}, 'j': {'y': (3,)}}
    b = {'i': {'y': (2, 1)}, 'k': {'x': (4,)}}
    yield (a, b, 'mass')
    yield (b, a, 'mass')
    yield (a, a, 'mass')
    yield (a, {}, 'mass')
    yield ({}, b, 'mass')
    for empty, fmt in (((), 'mass'), ((), 'position'), ('', 'nltk'), ((), 'sets'), ([], 'mass')):
        yield ({'i': {'x': empty, 'y': empty}}, {'i': {'x': empty}}, fmt)
        yield ({'i': {'x': empty}}, {'i': {'x': (1, 2)}}, fmt)
        yield ({'i': {'x': (1, 2)}}, {'i': {'x': empty}}, fmt)
        yield ({'i': {'x': empty}}, {'i': {'y': empty}}, fmt)
    yield ({'i': {}}, {'i': {}}, 'mass')
    yield ({'i': {}}, {'i': {'x': (1,)}}, 'mass')
    yield ({'i': {' x': (1, 2)}, ' i': {'x': (3,)}}, {'i': {'x': (2, 1)}, 'i ': {'x': (2, 1)}}, 'mass')


def rnd_C18(r):
    a, fmt = r_dataset(r, same=False)
    b, _ = r_dataset(r, fmt, same=False)
    if r.random() < .7:
        ren = dict(zip(sorted(b), r.sample(sorted(a), min(len(a), len(b)))))
        b = {ren.get(i, i): row for i, row in b.items()}
    if r.random() < .7:
        b = {i: {c: s for c, s in row.items() if c not in a.get(i, {})} for i, row in b.items()}
    if r.random() < .2:
        for d in (a, b):
            for row in d.values():
                for c in list(row):
                    if r.random() < .4:
                        row[c] = row[c][:0]
    return (a, b, fmt)


def plain(ds):
    return {i: {c: s for c, s in row.items()} for i, row in ds.items()}


def snapshot(ds):
    return (copy.deepcopy(plain(ds)), set(ds.coders), copy.deepcopy(ds.properties), set(ds.boundary_types), ds.boundary_format)


def mk(data, fmt, tag):
    return Dataset({i: {c: copy.deepcopy(s) for c, s in row.items()} for i, row in data.items()},
                   properties={'p': tag, 'l': [1, 2]}, boundary_types=[1, 2] if tag == 'A' else None, boundary_format=fmt)


def coders_of(data):
    return {c for row in data.values() for c in row}


def mutate(ds):
    """Change everything a caller may later change in a result."""
    for i in list(ds):
        for c in list(ds[i]):
            if isinstance(ds[i][c], list):
                ds[i][c].append(99)
            ds[i][c] = ('changed',)
        ds[i]['newcoder'] = (1,)
    ds['newitem'] = {'n': (1,)}
    ds.coders.add('zzz')
    ds.properties['p'] = 'changed'
    for v in ds.properties.values():
        if isinstance(v, list):
            v.append(5)
    ds.boundary_types.add(77)


def check_C18(case):
    a, b, fmt = case
    A, B = mk(a, fmt, 'A'), mk(b, fmt, 'B')
    if set(A.coders) != coders_of(a) or plain(A) != a or A.boundary_format != fmt:
        return 'Dataset(%r): %r coders %r' % (a, plain(A), A.coders)
    sa, sb = snapshot(A), snapshot(B)
    cp = A.copy()
    if not isinstance(cp, Dataset) or snapshot(cp) != sa:
        return 'copy of %r is %r' % (sa, snapshot(cp))
    mutate(cp)
    if snapshot(A) != sa:
        return 'changing a copy changed the original: %r' % (case,)
    dup = [(i, c) for i in a if i in b for c in a[i] if c in b[i]]
    union = {i: dict(row) for i, row in a.items()}
    for i, row in b.items():
        union.setdefault(i, {}).update(row)
    try:
        R = A + B
    except DataIOError:
        R = None
    if (R is None) != bool(dup):
        return 'adding %r: duplicates %r, raised %s' % (case, dup, R is None)
    if snapshot(A) != sa or snapshot(B) != sb:
        return 'plain addition changed an operand: %r' % (case,)
    if R is not None:
        if plain(R) != union or set(R.coders) != coders_of(union):
            return 'sum of %r is %r with coders %r' % (case, plain(R), R.coders)
        mutate(R)
        if snapshot(A) != sa or snapshot(B) != sb:
            return 'changing the sum changed an operand: %r' % (case,)
        R = A + B
        mutate(A)
        mutate(B)
        if plain(R) != union or set(R.coders) != coders_of(union):
            return 'changing an operand changed the sum: %r' % (case,)
    A, B = mk(a, fmt, 'A'), mk(b, fmt, 'B')
    sb = snapshot(B)
    try:
        C = A
        C += B
        ok = True
    except DataIOError:
        ok = False
    if ok == bool(dup):
        return 'in-place addition of %r: duplicates %r, raised %s' % (case, dup, not ok)
    if ok:
        if C is not A or plain(A) != union or set(A.coders) != coders_of(union):
            return 'in-place sum of %r is %r with coders %r' % (case, plain(C), C.coders)
        mutate(C)
        if snapshot(B) != sb:
            return 'changing the in-place sum changed the other operand: %r' % (case,)


# ================================================================ C19
def ex_C19():
    yield ('json', {'i': {'x': (1, 2), 'y': (3,)}, 'j': {'x': (5,)}}, {'note': 'n', 'list': [1, 2]})
    yield ('json', {}, {})
    yield ('tsv', 'text', [['a', 1, 2], ['b', 3]], '\t', [])
    yield ('tsv', 'my.file', [['a', 1, 2, 3]], ',', [1])
    yield ('tree', {'x': {'t1.tsv': [['a', 2, 3]], 't2.csv': [['b', 1]]}, 'top.tsv': [['c', 4]], 'skip.txt': None}, 'tsv')
    yield ('tree', {'x': {'y': {'j1.json': {'i': {'a': (1, 2)}}, 'j2.jsn': {'i': {'b': (3,)}}}}, 'e': {}}, 'json')


def rnd_C19(r):
    k = r.random()
    if k < .4:
        data, _ = r_dataset(r, 'mass', same=False)
        data = {i: {c: tuple(s) for c, s in row.items()} for i, row in data.items()}
        props = {}
        for _ in range(r.randint(0, 3)):
            props[r.choice(['a', 'note', u'\u00e9', 'items2', 'source'])] = r.choice([1, 'x', [1, 2], {'z': None}, u'\u4e2d', True, 2.5])
        return ('json', data, props)
    if k < .65:
        coders = r.sample([n for n in NAMES if n], r.randint(0, 5))
        delim = r.choice(['\t', '\t', ',', ';'])
        rows = [[c] + list(r_masses(r, r.choice([3, 8, 20]))) for c in coders]
        return ('tsv', r.choice(['text', 'my.file', 'ch1', 'A B']), rows, delim,
                sorted(r.sample(range(len(rows) + 1), r.randint(0, len(rows) + 1))) if r.random() < .4 else [])
    typ = r.choice(['tsv', 'json'])
    cnt = [0]
    def leaf():
        cnt[0] += 1
        if typ == 'tsv':
            return [['c%d' % cnt[0]] + list(r_masses(r, 6)), ['d%d' % cnt[0], 6]]
        return {r.choice(['i', 'k']): {'c%d' % cnt[0]: r_masses(r, 5)}}
    def tree(d):
        t = {}
        for n in r.sample(['f1', 'f2', 'g', 'h.i'], r.randint(0 if d < 2 else 1, 3)):
            if typ == 'tsv':
                t[n + r.choice(['.tsv', '.csv', '.TSV'])] = leaf()
            else:
                t[n + r.choice(['.json', '.jsn', '.JSON'])] = leaf()
        if r.random() < .3:
            t[r.choice(['readme.txt', 'f1.json.bak', 'noext', '.hidden'])] = None
        if r.random() < .3:
            t['other.json' if typ == 'tsv' else 'other.tsv'] = None
        if d > 0:
            for n in r.sample(['x', 'y', 'z w', 'f1'], r.randint(0, 3)):
                t[n] = tree(d - 1)
        return t
    return ('tree', tree(r.choice([1, 2, 3])), typ)


def write_tsv(path, rows, delim, blanks):
    with open(path, 'w', encoding='utf-8') as f:
        f.write(delim.join(['coder', 'm1', 'm2']) + '\n')
        for k, row in enumerate(rows):
            if k in blanks:
                f.write('\n')
            f.write(delim.join(str(c) for c in row) + '\n')
        if len(rows) in blanks:
            f.write('\n\n')


def basename(name):
    return name.rsplit('.', 1)[0] if '.' in name[1:] else name


def make_tree(root, tree, typ, prefix, want):
    os.makedirs(root, exist_ok=True)
    for name, v in tree.items():
        path = os.path.join(root, name)
        if v is None:
            with open(path, 'w') as f:
                f.write('not a data file')
        elif isinstance(v, list):
            write_tsv(path, v, '\t', [])
            row = want.setdefault(','.join(prefix + [basename(name)]), {})
            for line in v:
                row[line[0]] = tuple(line[1:])
        elif is_leaf_json(name, typ):
            with open(path, 'w') as f:
                json.dump({'segmentation_type': 'linear', 'items': v, 'extra': name}, f)
            for it, row in v.items():
                w = want.setdefault(','.join(prefix + [it]), {})
                for c, s in row.items():
                    w[c] = tuple(s)
        else:
            make_tree(path, v, typ, prefix + [name], want)


def is_leaf_json(name, typ):
    return typ == 'json' and name.lower().rsplit('.', 1)[-1] in ('json', 'jsn')


def check_C19(case):
    tmp = tempfile.mkdtemp(prefix='segeval-c19-')
    try:
        if case[0] == 'json':
            _, data, props = case
            ds = Dataset({i: dict(c) for i, c in data.items()}, properties=props)
            before = snapshot(ds)
            path = os.path.join(tmp, 'out.json')
            output_linear_mass_json(path, ds)
            if snapshot(ds) != before:
                return 'writing %r changed the dataset' % (case,)
            got = input_linear_mass_json(path)
            if not isinstance(got, Dataset) or plain(got) != data:
                return 'JSON round trip of %r gives %r' % (case, plain(got))
            if any(not isinstance(s, tuple) for row in got.values() for s in row.values()):
                return 'JSON round trip of %r: codings are not tuples' % (case,)
            if set(got.coders) != coders_of(data):
                return 'JSON round trip of %r: coders %r' % (case, got.coders)
            rest = {k: v for k, v in got.properties.items() if k != 'segmentation_type'}
            if rest != props:
                return 'JSON round trip of %r: properties %r' % (case, got.properties)
            if got.boundary_format != ds.boundary_format or set(got.boundary_types) != set(ds.boundary_types):
                return 'JSON round trip of %r: format %r types %r' % (case, got.boundary_format, got.boundary_types)
            os.mkdir(os.path.join(tmp, 'd'))
            output_linear_mass_json(os.path.join(tmp, 'd'), ds)
            files = os.listdir(os.path.join(tmp, 'd'))
            if len(files) != 1 or plain(input_linear_mass_json(os.path.join(tmp, 'd', files[0]))) != data:
                return 'JSON written to a folder: %r for %r' % (files, case)
            if data and all(len(row) >= 2 for row in data.values()):
                if len({frozenset(row) for row in data.values()}) == 1 and \
                        any(len(s) > 1 for row in data.values() for s in row.values()):
                    if all(len({sum(s) for s in row.values()}) == 1 for row in data.values()):
                        a, b = actual_agreement_linear(ds), actual_agreement_linear(got)
                        if a != b:
                            return 'agreement of %r changes through JSON: %r, %r' % (case, a, b)
        elif case[0] == 'tsv':
            _, name, rows, delim, blanks = case
            path = os.path.join(tmp, name + '.tsv')
            write_tsv(path, rows, delim, blanks)
            got = input_linear_mass_tsv(path, delim) if delim != '\t' else input_linear_mass_tsv(path)
            want = {name: {row[0]: tuple(row[1:]) for row in rows}}
            if plain(got) != want:
                return 'TSV %r read as %r' % (case, plain(got))
            if set(got.coders) != coders_of(want):
                return 'TSV %r coders %r' % (case, got.coders)
        else:
            _, tree, typ = case
            want = {}
            root = os.path.join(tmp, 'root')
            make_tree(root, tree, typ, [], want)
            got = load_nested_folders_dict(root, typ)
            if plain(got) != want:
                return 'folder %r loaded as %r, expected %r' % (case, plain(got), want)
            if set(got.coders) != coders_of(want):
                return 'folder %r coders %r' % (case, got.coders)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ================================================================ C20
def ex_C20():
    for n in range(1, 5):
        for v in product((0, 1, 2, Decimal('0.5')), repeat=n):
            yield v


def rnd_C20(r):
    n = r.choice([1, 2, 3, 5, 10, 50, 400])
    style = r.choice(['int', 'dec', 'mixed', 'const', 'big', 'neg'])
    def one():
        if style == 'int':
            return r.randint(0, 20)
        if style == 'dec':
            return Decimal(r.randint(0, 10 ** 6)) / 10 ** 6
        if style == 'mixed':
            return r.choice([0, 1, Decimal(1) / 3, Decimal('0.25')])
        if style == 'big':
            return r.randint(-10 ** 9, 10 ** 9)
        return r.choice([-3, -1, Decimal('-0.5'), 0, 2])
    c = one()
    return tuple(c if style == 'const' else one() for _ in range(n))


def check_C20(case):
    d = {'k%d' % i: v for i, v in enumerate(case)}
    before = dict(d)
    out = summarize(d)
    if len(out) != 5:
        return 'summarize(%r) = %r' % (case, out)
    n = len(case)
    xs = [S.fr(x) for x in case]
    mean = sum(xs) / n
    var = sum((x - mean) ** 2 for x in xs) / n
    m, sd, v, se, k = out
    scale = max([abs(x) for x in xs] + [1])
    tol = Fr(1, 10 ** 14)
    def close(x, y):
        return abs(S.fr(x) - y) <= tol * max(1, abs(y), scale ** 2 * Fr(1, 10 ** 8))
    if k != n or not close(m, mean) or not close(v, var):
        return 'summarize(%r) = %r, expected mean %s variance %s' % (case, out, mean, var)
    if v < 0 or sd < 0 or not close(S.fr(sd) ** 2, var) or not close(S.fr(se) ** 2 * n, var) or se < 0:
        return 'summarize(%r) = %r: deviation or error, variance %s' % (case, out, var)
    if len(set(case)) == 1 and n == 1 and v != 0:
        return 'summarize(%r): variance %r of equal values' % (case, v)
    if d != before:
        return 'summarize changed %r' % (case,)


# ================================================================ C21
def calls_for(a, b, fmt, o, data, dfmt, cells):
    """(name, function of no argument, inputs) for every public function."""
    L = []
    kw = real_options(o)
    kw['boundary_format'] = fmt
    if fmt != 'sets':
        for m in (pk, window_diff):
            L.append((m.__name__, lambda m=m: m(a, b, boundary_format=fmt), (a, b)))
            L.append((m.__name__ + '/w3', lambda m=m: m(a, b, boundary_format=fmt, window_size=3, return_parts=True), (a, b)))
        L.append(('wdfix', lambda: window_diff(a, b, boundary_format=fmt, lamprier_et_al_2007_fix=True), (a, b)))
    if fmt in ('mass', 'position'):
        L.append(('cws', lambda: compute_window_size(b, boundary_format=fmt), (b,)))
    for m in (boundary_similarity, segmentation_similarity, boundary_statistics, boundary_confusion_matrix):
        L.append((m.__name__, lambda m=m: m(a, b, **kw), (a, b, kw)))
    L.append(('B1', lambda: boundary_similarity(a, b, one_minus=True, **kw), (a, b, kw)))
    L.append(('Bp', lambda: boundary_similarity(a, b, return_parts=True, **kw), (a, b, kw)))
    if fmt == 'sets':
        L.append(('bed', lambda: boundary_edit_distance(a, b, n_t=o.get('n_t', 2)), (a, b)))
        L.append(('bed_mut', lambda ma=[set(s) for s in a], mb=[set(s) for s in b]: boundary_edit_distance(ma, mb, n_t=o.get('n_t', 2)), (a, b)))
    if fmt == 'mass':
        L.append(('c1', lambda: convert_masses_to_positions(a), (a,)))
        L.append(('c2', lambda: boundary_string_from_masses(a), (a,)))
    if fmt == 'position':
        L.append(('c3', lambda: convert_positions_to_masses(a), (a,)))
    if fmt == 'nltk':
        L.append(('c4', lambda: convert_nltk_to_masses(a), (a,)))
    ds = dataset_of(data, dfmt)
    okw = real_options({k: v for k, v in o.items() if k in ('n_t', 'weight')})
    L.append(('dsB', lambda: boundary_similarity(ds, **okw), (ds, okw)))
    L.append(('dsS', lambda: segmentation_similarity(ds, ds, **okw), (ds, okw)))
    L.append(('agr', lambda: actual_agreement_linear(ds, **okw), (ds, okw)))
    L.append(('pi', lambda: fleiss_pi_linear(ds, **okw), (ds, okw)))
    L.append(('kappa', lambda: fleiss_kappa_linear(ds, **okw), (ds, okw)))
    L.append(('bias', lambda: artstein_poesio_bias_linear(ds, **okw), (ds, okw)))
    pl = {i: dict(c) for i, c in data.items()}
    L.append(('agrd', lambda: actual_agreement_linear(pl, boundary_format=dfmt, **okw), (pl, okw)))
    if dfmt != 'sets':
        L.append(('dspk', lambda: pk(ds), (ds,)))
        L.append(('dswd', lambda: window_diff(ds, ds), (ds,)))
    if dfmt == 'mass':
        L.append(('dscws', lambda: compute_window_size(ds), (ds,)))
        L.append(('sum', lambda: summarize(boundary_similarity(ds)), (ds,)))
    cm = build_matrix(cells)
    for fnc in (precision, recall, fmeasure):
        for v in (Average.micro, Average.macro):
            L.append((fnc.__name__, lambda fnc=fnc, v=v: fnc(cm, version=v), (MatrixView(cm),)))
    L.append(('pm', lambda: precision({'m': cm}), (MatrixView(cm),)))
    return L


class MatrixView(object):
    """Snapshot of a matrix as a caller sees it: non-zero cells and classes."""
    def __init__(self, m):
        self.m = m

    def __deepcopy__(self, memo):
        return self.view()

    def view(self):
        cells = {}
        for p in list(self.m.keys()):
            for q, v in list(dict.__getitem__(self.m, p).items()):
                if v != 0:
                    cells[(p, q)] = v
        return (cells, set(self.m.classes()))


def freeze(x):
    if isinstance(x, MatrixView):
        return x.view()
    if isinstance(x, Dataset):
        return snapshot(x)
    if isinstance(x, tuple) and any(isinstance(y, (MatrixView, Dataset, dict)) for y in x):
        return [freeze(y) for y in x]
    return (type(x).__name__, copy.deepcopy(x))


def outcome(f):
    try:
        return comparable(f())
    except Hang:
        raise
    except Exception as e:
        return ('raised', type(e).__name__)


def ex_C21():
    yield ((2, 3, 1), (1, 4, 1), 'mass', {}, {'i': {'x': (2, 1), 'y': (1, 2)}}, 'mass', {('a', 'a'): 1, ('a', 'b'): 2}, 1)
    yield ((frozenset([1]), frozenset([2])), (frozenset([2]), frozenset([1, 2])), 'sets', {'n_t': 3},
           {'i': {'x': (frozenset([1]),), 'y': (frozenset(),)}}, 'sets', {('a', 'a'): 1, ('a', 'b'): 2}, 2)


def rnd_C21(r):
    a, b, fmt = r_formatted_pair(r)
    if fmt == 'sets' and not bed_ok((a, b)):
        a, b, fmt = (1, 2), (2, 1), 'mass'
    o = {}
    if r.random() < .5:
        o['n_t'] = r.choice([1, 2, 3, 4])
    if r.random() < .4:
        o['weight'] = r.choice(sorted(WEIGHTS))
    if r.random() < .3 and fmt in ('mass', 'position'):
        a, b = list(a), list(b)
    data, dfmt = r_dataset(r, items=r.choice([1, 2, 3]), coders=r.choice([2, 3]), minc=2)
    return (a, b, fmt, o, data, dfmt, r_matrix(r), r.randint(0, 10 ** 6))


def check_C21(case):
    import random
    a, b, fmt, o, data, dfmt, cells, seed = case
    if fmt == 'sets' and not bed_ok((a, b)):
        return
    r = random.Random(seed)
    L = calls_for(a, b, fmt, o, data, dfmt, cells)
    first = {}
    seq = list(range(len(L)))
    r.shuffle(seq)
    seq = seq + [r.choice(seq) for _ in range(8)] + seq[::-1]
    for k in seq:
        name, f, inputs = L[k]
        before = [freeze(x) for x in inputs]
        res = outcome(f)
        after = [freeze(x) for x in inputs]
        if before != after:
            return '%s changed its inputs: %r became %r (case %r)' % (name, before, after, case)
        res = copy.deepcopy(res)
        if k in first and not same(first[k], res):
            return '%s gave %r first and %r later (case %r)' % (name, first[k], res, case)
        first.setdefault(k, res)
        if name == 'bed' and k in first:
            o2 = outcome(lambda: boundary_edit_distance([set(s) for s in a], [set(s) for s in b], n_t=o.get('n_t', 2)))
            if not same(o2, res):
                return 'boundary_edit_distance of equal arguments differs: %r, %r (case %r)' % (res, o2, case)
    # the caller may change what it was given: later results must not change
    d1 = boundary_statistics(a, b, boundary_format=fmt, **real_options(o))
    keep = copy.deepcopy(d1)
    for v in d1.values():
        if isinstance(v, list):
            v.append('x')
        elif isinstance(v, set):
            v.add('x')
    d2 = boundary_statistics(a, b, boundary_format=fmt, **real_options(o))
    if not same(comparable(keep), comparable(d2)):
        return 'boundary_statistics%r changes after its earlier result was modified: %r, %r' % ((a, b, fmt, o), keep, d2)


def same(x, y):
    if isinstance(x, dict) and isinstance(y, dict):
        return set(x) == set(y) and all(same(x[k], y[k]) for k in x)
    if isinstance(x, list) and isinstance(y, list):
        return len(x) == len(y) and sorted(map(repr, x)) == sorted(map(repr, y))
    return x == y


# ================================================================ C22
BADFMT = ['bogus', 'Mass', '', None, 'masses', 'positions', 3]
KNOWN_FMT = ('mass', 'position', 'nltk', 'sets')


def ex_C22():
    for m in sorted(PAIRWISE):
        for n in range(1, 5):
            for a in compositions(n):
                for k in (1, 2):
                    for b in compositions(n + k):
                        yield ('len', m, a, b, 'mass', {})
                        yield ('len', m, b, a, 'mass', {})
        for x in ((1,), (2,)):
            for f in ('mass', 'position'):
                x_ = x if f == 'mass' else (1,) * x[0]
                yield ('len', m, (), x_, f, {})
                yield ('len', m, x_, (), f, {})
        for f in BADFMT:
            yield ('fmt', m, (1, 2), (2, 1), f, {})
        yield ('fmt', m, (1, 2), (2, 1), 'sets', {})
        yield ('args', m, 0)
        yield ('args', m, 3)
        yield ('args', m, 'hyp')
        yield ('args', m, 'ref')
        yield ('dsfmt', m, 'mass', 'position')
        yield ('dsfmt', m, 'position', 'mass')
        yield ('dsfmt', m, 'nltk', 'sets')
    for f in BADFMT:
        yield ('agrfmt', f)


def rnd_C22(r):
    m = r.choice(sorted(PAIRWISE))
    k = r.random()
    if k < .7:
        fmt = r.choice(['mass', 'position', 'nltk'] + (['sets'] if m not in ('pk', 'window_diff') else []))
        o = r_options(r, m)
        if fmt == 'sets':
            n = r.randint(1, 8)
            x = tuple(frozenset(t for t in (1, 2) if r.random() < .3) for _ in range(n))
            y = tuple(frozenset(t for t in (1, 2) if r.random() < .3) for _ in range(n + r.randint(1, 9)))
        else:
            p = r_masses(r)
            q = r_masses(r, sum(p) + r.choice([1, 1, 2, 3, 10, 100]))
            if r.random() < .3:
                q = p + (r.randint(1, 5),)
            x, y = encode(r, p, fmt), encode(r, q, fmt)
        if r.random() < .5:
            x, y = y, x
        return ('len', m, x, y, fmt, o)
    if k < .85:
        f = r.choice(BADFMT + [''.join(r.choice('masepotinl') for _ in range(4))])
        if f in KNOWN_FMT:
            f = 'bogus'
        p, q = r_pair(r)
        return ('fmt', m, p, q, f, r_options(r, m))
    f, g = r.sample(['mass', 'position', 'nltk', 'sets'], 2)
    return ('dsfmt', m, f, g)


def must_raise(f, what):
    try:
        v = f()
    except SegmentationMetricError:
        return None
    except Exception as e:
        return '%s raised %r instead of SegmentationMetricError' % (what, e)
    return '%s returned %r' % (what, v)


def check_C22(case):
    kind = case[0]
    if kind == 'agrfmt':
        data = {'i': {'x': (1, 2), 'y': (2, 1)}}
        for f in (actual_agreement_linear, fleiss_pi_linear, fleiss_kappa_linear, artstein_poesio_bias_linear):
            msg = must_raise(lambda: f(data, boundary_format=case[1]), '%s with format %r' % (f.__name__, case[1]))
            if msg:
                return msg
        return
    fnc = PAIRWISE[case[1]]
    if kind in ('len', 'fmt'):
        a, b, fmt, o = case[2:]
        if kind == 'fmt' and fmt == 'sets' and case[1] not in ('pk', 'window_diff'):
            return
        kw = real_options(o)
        return must_raise(lambda: fnc(a, b, boundary_format=fmt, **kw), '%r' % (case,))
    if kind == 'args':
        k = case[2]
        if k == 0:
            return must_raise(lambda: fnc(), '%s()' % case[1])
        if k == 3:
            return must_raise(lambda: fnc((1, 2), (2, 1), (3,)), '%s of three' % case[1])
        if k == 'hyp':
            return must_raise(lambda: fnc(hypothesis=(1, 2)), '%s(hypothesis=)' % case[1])
        return must_raise(lambda: fnc(reference=(1, 2)), '%s(reference=)' % case[1])
    f, g = case[2:]
    enc = {'mass': (1, 2), 'position': (1, 2, 2), 'nltk': '10', 'sets': (frozenset([1]), frozenset())}
    d, e = Dataset({'i': {'x': enc[f]}}, boundary_format=f), Dataset({'i': {'y': enc[g]}}, boundary_format=g)
    return must_raise(lambda: fnc(d, e), '%r' % (case,))


# ================================================================ C23
def ex_C23():
    for n in range(1, 6):
        cs = list(compositions(n))
        for a in cs:
            for b in cs:
                yield (a, b, {}, 0)


def rnd_C23(r):
    a, b = r_pair(r, r.choice([None] * 10 + [200]))
    return (a, b, {'n_t': r.choice([1, 2, 3, 4]), 'weight': r.choice(sorted(WEIGHTS)), 'window_size': r.choice([None, 1, 2, 3, 5, 9])},
            r.randint(0, 10 ** 6))


def stat_view(d):
    return {k: (sorted(map(repr, v)) if isinstance(v, (list, set, frozenset, tuple)) else v) for k, v in d.items()}


def check_C23(case):
    import random
    a, b, o, seed = case
    r = random.Random(seed)
    w = {'window_size': o['window_size']} if o.get('window_size') else {}
    e = real_options({k: v for k, v in o.items() if k in ('n_t', 'weight')})
    fm = {f: (encode(r, a, f), encode(r, b, f)) for f in ('mass', 'position', 'nltk', 'sets')}
    fm2 = {f: encode(r, b if r.random() < .5 else a, f) for f in ('sets',)}
    base = {}
    for f, (x, y) in fm.items():
        res = {}
        if f != 'sets':
            res['pk'] = pk(x, y, boundary_format=f, **w)
            res['wd'] = window_diff(x, y, boundary_format=f, **w)
            res['wdl'] = window_diff(x, y, boundary_format=f, lamprier_et_al_2007_fix=True, **w)
        res['B'] = boundary_similarity(x, y, boundary_format=f, **e)
        res['S'] = segmentation_similarity(x, y, boundary_format=f, **e)
        res['stat'] = stat_view(boundary_statistics(x, y, boundary_format=f, **e))
        res['cm'] = comparable(boundary_confusion_matrix(x, y, boundary_format=f, **e))
        if len(a) > 1 or len(b) > 1:
            ds = Dataset({'i': {'x': x, 'y': y}, 'j': {'x': y, 'y': x, }}, boundary_format=f)
            for fnc in (actual_agreement_linear, fleiss_pi_linear, fleiss_kappa_linear, artstein_poesio_bias_linear):
                res[fnc.__name__] = outcome(lambda: fnc(ds, **e))
                res[fnc.__name__ + ' dict'] = outcome(lambda: fnc({'i': {'x': x, 'y': y}, 'j': {'x': y, 'y': x}}, boundary_format=f, **e))
        if not base:
            base = res
        for k, v in res.items():
            if v != base[k]:
                return '%s of %r, %r: %r as masses, %r in format %s (options %r)' % (k, a, b, base[k], v, f, o)


# ================================================================ C24
def ex_C24():
    for m in sorted(PAIRWISE):
        yield ('pair', m, (2, 3), (1, 4), 'mass', {})
        yield ('int', m, 5, (1, 4), {})
        yield ('int', m, (1, 4), 5, {})
        yield ('int', m, 5, 5, {})
        yield ('int', m, 7, (7,), {})
        yield ('ds', m, {'i': {'x': (1, 2), 'y': (2, 1)}}, 'mass', {})


def rnd_C24(r):
    m = r.choice(sorted(PAIRWISE))
    o = r_options(r, m)
    k = r.random()
    if k < .5:
        fmts = ['mass', 'position', 'nltk'] + (['sets'] if m not in ('pk', 'window_diff') else [])
        a, b, fmt = r_formatted_pair(r, fmts)
        if fmt == 'sets' and not bed_ok((a, b)):
            a, b, fmt = (1, 2), (2, 1), 'mass'
        return ('pair', m, a, b, fmt, o)
    if k < .75:
        n = r.choice([1, 2, 5, 9, 40, 300])
        x = r_masses(r, n)
        return ('int', m) + r.choice([(n, x), (x, n), (n, n)]) + (o,)
    fmt = r.choice(['mass', 'position', 'nltk'] + (['sets'] if m not in ('pk', 'window_diff') else []))
    data, _ = r_dataset(r, fmt, same=False)
    if r.random() < .5:
        o['permuted'] = r.random() < .5
    return ('ds', m, data, fmt, o)


def check_C24(case):
    fnc = PAIRWISE[case[1]]
    o = real_options(case[-1])
    if case[0] == 'pair':
        a, b, fmt = case[2:5]
        p = outcome(lambda: fnc(a, b, boundary_format=fmt, **o))
        q = outcome(lambda: fnc(hypothesis=a, reference=b, boundary_format=fmt, **o))
        q2 = outcome(lambda: fnc(reference=b, boundary_format=fmt, hypothesis=a, **o))
        if p != q or p != q2:
            return '%r: positional %r, keyword %r %r' % (case, p, q, q2)
        if fmt == 'mass' and 'boundary_format' not in o:
            d = outcome(lambda: fnc(a, b, **o))
            d2 = outcome(lambda: fnc(hypothesis=a, reference=b, **o))
            if d != p or d2 != p:
                return '%r: default format %r %r, mass %r' % (case, d, d2, p)
        if isinstance(p, tuple) and p and p[0] == 'raised':
            return '%r raised %r' % (case, p)
        full = dict(one_minus=False, return_parts=False)
        if case[1] in ('pk', 'window_diff'):
            full.update(window_size=None, fnc_round=round)
            if case[1] == 'window_diff':
                full['lamprier_et_al_2007_fix'] = False
        else:
            full.update(n_t=2, weight=WEIGHTS['ST'])
        if case[1] == 'boundary_statistics':
            del full['one_minus'], full['return_parts']
        full.update(o)
        e = outcome(lambda: fnc(a, b, boundary_format=fmt, **full))
        if e != p:
            return '%r: documented defaults spelled out give %r, omitted %r' % (case, e, p)
    elif case[0] == 'int':
        a, b = case[2:4]
        ta, tb = [(x,) if isinstance(x, int) else x for x in (a, b)]
        p = outcome(lambda: fnc(ta, tb, **o))
        for q in (outcome(lambda: fnc(a, b, **o)), outcome(lambda: fnc(hypothesis=a, reference=b, **o))):
            if p != q:
                return '%r: as tuples %r, as integers %r' % (case, p, q)
        if isinstance(p, tuple) and p and p[0] == 'raised':
            return '%r raised %r' % (case, p)
    else:
        data, fmt = case[2:4]
        p = outcome(lambda: fnc(dataset_of(data, fmt), **o))
        q = outcome(lambda: fnc(dataset=dataset_of(data, fmt), **o))
        if p != q:
            return '%r: positional %r, keyword %r' % (case, p, q)
        if isinstance(p, tuple) and p and p[0] == 'raised':
            return '%r raised %r' % (case, p)
        p = outcome(lambda: fnc(dataset_of(data, fmt), dataset_of(data, fmt), **o))
        q = outcome(lambda: fnc(hypothesis=dataset_of(data, fmt), reference=dataset_of(data, fmt), **o))
        if p != q or (isinstance(p, tuple) and p and p[0] == 'raised'):
            return '%r: two datasets, positional %r, keyword %r' % (case, p, q)
