"""Executable reading of the properties: brute-force definitions, written from the property statements and
independent of the package.  Runs under the package's interpreter (PyPy 3.9)."""
from fractions import Fraction as Fr
from itertools import permutations, combinations
from decimal import Decimal

TOL = Fr(1, 10 ** 18)


def fr(x):
    """Exact value of an int / Decimal / float / Fraction."""
    if isinstance(x, bool):
        raise TypeError('bool')
    if isinstance(x, (int, Fr)):
        return Fr(x)
    if isinstance(x, Decimal):
        return Fr(x)
    if isinstance(x, float):
        return Fr(x)
    raise TypeError('not a number: %r' % (x,))


def near(x, y):
    """x (a value the package returned) agrees with the exact value y, up to the rounding of 28-digit decimals
    (or of floats where the package returns floats)."""
    try:
        a = fr(x)
    except (TypeError, ValueError, OverflowError):
        return False
    tol = TOL if not isinstance(x, float) else Fr(1, 10 ** 9)
    return abs(a - y) <= tol * max(1, abs(y))


# ---------------------------------------------------------------- formats
def positions_of(masses):
    out = []
    for i, m in enumerate(masses):
        out += [i + 1] * m
    return out


def runs(labels):
    out = []
    prev = None
    for k, l in enumerate(labels):
        if k and prev == l:
            out[-1] += 1
        else:
            out.append(1)
        prev = l
    return out


def string_of(masses):
    n = sum(masses)
    out = [frozenset() for _ in range(max(n - 1, 0))]
    pos = 0
    for m in masses[:-1]:
        pos += m
        out[pos - 1] = frozenset([1])
    return out


def nltk_of(masses, sym='1', fill='0'):
    return sym.join(fill * (m - 1) for m in masses)


def masses_of_nltk(s, sym='1'):
    out = [1]
    for c in s:
        if c == sym:
            out.append(1)
        else:
            out[-1] += 1
    return out


def masses_in(seg, fmt):
    if fmt == 'mass':
        return list(seg)
    if fmt == 'position':
        return runs(seg)
    if fmt == 'nltk':
        return masses_of_nltk(seg)
    raise ValueError(fmt)


def labels_in(seg, fmt):
    """Segment index of every unit."""
    if fmt == 'position':
        return list(seg)
    return positions_of(masses_in(seg, fmt))


def bstring_in(seg, fmt):
    if fmt == 'sets':
        return [frozenset(s) for s in seg]
    return string_of(masses_in(seg, fmt))


# ---------------------------------------------------------------- windows
def round_half_even(x):
    x = Fr(x)
    f = x.numerator // x.denominator
    d = x - f
    if d > Fr(1, 2) or (d == Fr(1, 2) and f % 2):
        f += 1
    return f


ROUND = {
    None: round_half_even,
    'round': round_half_even,
    'floor': lambda x: Fr(x).numerator // Fr(x).denominator,
    'ceil': lambda x: -((-Fr(x)).numerator // (-Fr(x)).denominator),
    'trunc': lambda x: int(Fr(x)),
    'const7': lambda x: 7,
    'neg': lambda x: -3,
    'plus5': lambda x: round_half_even(x) + 5,
}


def window_size(masses_list, rnd=None):
    mean = Fr(sum(masses_list), len(masses_list)) if masses_list else Fr(0)
    w = ROUND[rnd](mean / 2)
    return 2 if w < 2 else w


def pk(hyp, ref, k):
    n = len(ref)
    cnt = tot = 0
    for i in range(n):
        if i + k < n:
            tot += 1
            if (ref[i] == ref[i + k]) != (hyp[i] == hyp[i + k]):
                cnt += 1
    return cnt, tot


def wd(hyp, ref, k, fix=False):
    n = len(ref)
    if fix:
        ref = [('p', 0)] * k + list(ref) + [('q', 0)] * k
        hyp = [('p', 0)] * k + list(hyp) + [('q', 0)] * k
        n += 2 * k
    bref = [int(ref[i] != ref[i + 1]) for i in range(n - 1)]
    bhyp = [int(hyp[i] != hyp[i + 1]) for i in range(n - 1)]
    windows = max(n - k, 0)
    cnt = 0
    sr = sum(bref[0:k])
    sh = sum(bhyp[0:k])
    for i in range(windows):
        if sr != sh:
            cnt += 1
        if i + 1 < windows:
            sr += bref[i + k] - bref[i]
            sh += bhyp[i + k] - bhyp[i]
    return cnt, windows + (1 if fix else 0)


# ---------------------------------------------------------------- boundary edit distance
def transpositions(a, b, n_t):
    """The greedy rule of C06; returns (set of (i, j, type), uncovered a-only sets, uncovered b-only sets)."""
    n = len(a)
    ao = [set(a[p]) - set(b[p]) for p in range(n)]
    bo = [set(b[p]) - set(a[p]) for p in range(n)]
    ao0 = [frozenset(s) for s in ao]
    bo0 = [frozenset(s) for s in bo]
    covered = set()
    taken = set()
    for span in range(1, n_t):
        for i in range(0, n - span):
            j = i + span
            if not (ao0[i] or bo0[i]) or not (ao0[j] or bo0[j]):
                continue
            cands = (ao0[i] & bo0[j]) | (bo0[i] & ao0[j])
            for d in cands:
                if (i, d) in covered or (j, d) in covered:
                    continue
                if ao[i] and bo[i] and ao[j] and bo[j]:
                    continue
                taken.add((i, j, d))
                covered.add((i, d))
                covered.add((j, d))
                for p in (i, j):
                    ao[p].discard(d)
                    bo[p].discard(d)
    return taken, ao, bo


def optimal_matchings(x, y):
    """Minimal total distance and all optimal maximum one-to-one pairings (as frozensets) of two small sets of
    integers."""
    x, y = sorted(x), sorted(y)
    if not x or not y:
        return 0, {frozenset()}
    best, opts = None, set()
    if len(x) <= len(y):
        it = (tuple(zip(x, q)) for q in permutations(y, len(x)))
    else:
        it = (tuple(zip(q, y)) for q in permutations(x, len(y)))
    for pairing in it:
        c = sum(abs(p - q) for p, q in pairing)
        if best is None or c < best:
            best, opts = c, set()
        if c == best:
            opts.add(frozenset(pairing))
    return best, opts


def min_cost(x, y):
    """Minimal total distance of a maximum pairing, by dynamic programming over the sorted values."""
    x, y = sorted(x), sorted(y)
    if len(x) > len(y):
        x, y = y, x
    INF = None
    row = [0] * (len(y) + 1)
    for i in range(1, len(x) + 1):
        new = [INF] * (len(y) + 1)
        for j in range(i, len(y) + 1):
            take = row[j - 1]
            take = None if take is None else take + abs(x[i - 1] - y[j - 1])
            skip = new[j - 1]
            new[j] = take if skip is None else (skip if take is None else min(take, skip))
        row = new
    return row[len(y)]


def bed(a, b, n_t):
    """Numbers that the properties fix: (additions per side multiset is not unique, so only counts)."""
    tr, ao, bo = transpositions(a, b, n_t)
    adds = sum(abs(len(x) - len(y)) for x, y in zip(ao, bo))
    subs = sum(min(len(x), len(y)) for x, y in zip(ao, bo))
    cost = sum(min_cost(x, y) for x, y in zip(ao, bo))
    add_a = sum(max(0, len(x) - len(y)) for x, y in zip(ao, bo))
    add_b = sum(max(0, len(y) - len(x)) for x, y in zip(ao, bo))
    return dict(tr=tr, ao=ao, bo=bo, adds=adds, subs=subs, cost=cost, add_a=add_a, add_b=add_b)


def weights_value(e, types, n_t, weight):
    """Weighted edit count; weight is a pair of letters: first s|S (substitutions unscaled|scaled),
    second t|T (transpositions unscaled|scaled)."""
    w = Fr(e['adds'])
    if weight[0] == 'S':
        mx = max(types) if types else 1
        mn = min(types) if types else 1
        w += Fr(e['cost'], mx - mn + 1)
    else:
        w += e['subs']
    if weight[1] == 'T':
        w += Fr(sum(j - i for i, j, _ in e['tr']), n_t)
    else:
        w += len(e['tr'])
    return w


def stats(a, b, n_t, weight):
    e = bed(a, b, n_t)
    types = set()
    for s in list(a) + list(b):
        types |= set(s)
    matches = sum(len(set(x) & set(y)) for x, y in zip(a, b))
    misses = sum(len(set(x) ^ set(y)) for x, y in zip(a, b))
    edits = weights_value(e, types, n_t, weight)
    unweighted = e['adds'] + e['subs'] + len(e['tr'])
    return dict(e=e, types=types, matches=matches, misses=misses, edits=edits, unweighted=unweighted,
                pbs=len(a) * len(types), all=sum(len(x) + len(y) for x, y in zip(a, b)))


def b_parts(s):
    den = s['unweighted'] + s['matches']
    return den - s['edits'], den


def s_parts(s):
    return s['pbs'] - s['edits'], s['pbs']


def ratio(parts, empty=1):
    n, d = parts
    return Fr(n) / d if d > 0 else Fr(empty)


# ---------------------------------------------------------------- agreement
def agreement_parts(data, fmt, compare, n_t, weight):
    """data: dict item -> dict coder -> segmentation, every item coded by the same coders."""
    coders = sorted({c for it in data.values() for c in it}, key=repr)
    nums = dens = Fr(0)
    per = {c: [] for c in coders}
    rates = []
    for x, y in combinations(coders, 2):
        for item in data:
            a = bstring_in(data[item][x], fmt)
            b = bstring_in(data[item][y], fmt)
            s = stats(a, b, n_t, weight)
            n, d = b_parts(s) if compare == 'B' else s_parts(s)
            nums += n
            dens += d
            ba, bb = sum(map(len, a)), sum(map(len, b))
            per[x].append((ba, s['pbs']))
            per[y].append((bb, s['pbs']))
    return nums, dens, per


def agreement(data, fmt, compare, n_t, weight):
    nums, dens, per = agreement_parts(data, fmt, compare, n_t, weight)
    A = nums / dens
    rates = [Fr(b, p) if p > 0 else Fr(0) for v in per.values() for b, p in v]
    pe = sum(rates) / len(rates)
    pi_e = pe * pe
    coders = sorted(per, key=repr)
    tot = {c: Fr(sum(b for b, _ in per[c]), sum(p for _, p in per[c])) for c in coders}
    prods = [tot[x] * tot[y] for x, y in combinations(coders, 2)]
    kappa_e = sum(prods) / len(prods)
    return A, pi_e, kappa_e


# ---------------------------------------------------------------- precision / recall / F
def prf(cells, classes, kind, beta=None, cls=None):
    """Returns (numerator, denominator) of the class value, exact."""
    diag = cells.get((cls, cls), Fr(0))
    row = sum((v for (p, _), v in cells.items() if p == cls), Fr(0))
    col = sum((v for (_, q), v in cells.items() if q == cls), Fr(0))
    if kind == 'precision':
        return diag, row
    if kind == 'recall':
        return diag, col
    P = diag / row if diag != 0 else Fr(0)
    R = diag / col if diag != 0 else Fr(0)
    b2 = beta * beta
    return (1 + b2) * P * R, b2 * P + R


def prf_value(parts):
    n, d = parts
    return Fr(0) if n == 0 else n / d


def prf_micro(cells, classes, kind, beta=None):
    n = d = Fr(0)
    for c in classes:
        x, y = prf(cells, classes, kind, beta, c)
        n += x
        d += y
    return Fr(0) if n == 0 else n / d


def prf_macro(cells, classes, kind, beta=None):
    if not classes:
        return Fr(0)
    return sum((prf_value(prf(cells, classes, kind, beta, c)) for c in classes), Fr(0)) / len(classes)
