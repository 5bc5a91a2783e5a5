"""The same segmentation in every format (C08, C09, C23)."""
from spec_common import *
from c01_format import *

# ------------------------------------------------------------------------------------------------ what boundary strings say (C08, C09, C23)
bm, br = BSTR(m), BSTR(r)
Lemma('same_boundaries_starts', [m, r, n], [POS(m), POS(r), total(m) == total(r), bm == br, 0 <= n, n <= ln(m)], z3.And(n <= ln(r), psum(m, n) == psum(r, n)), [], induct=n, auto=False,
      extra=attend(*[BS.at(bm, q_) for q_ in (psum(m, n) - 1, psum(r, n) - 1, psum(m, n - 1) - 1)]) + attend(psum(m, ln(m)), psum(r, ln(r)), psum(m, ln(r))))
SBS = UNITS['same_boundaries_starts']
Lemma('boundaries_tell_masses', [m, r], [POS(m), POS(r), total(m) == total(r)], (bm == br) == (m == r), [], auto=False, uses=['same_boundaries_starts'],
      extra=[each([n], [SBS.inst(m, r, n), SBS.inst(m, r, n + 1), psum(m, n + 1) == psum(m, n) + at(m, n), psum(r, n + 1) == psum(r, n) + at(r, n)], [at(m, n)], z3.And(0 <= n, n < ln(m))),
             SBS.inst(m, r, ln(m))] + attend(psum(r, ln(r)), z3.If(SI.eq(m, r), 1, 0)))
sy = lit('1')
Lemma('same_in_every_format', [m, p, nstr], [POS(m)] + [f for _, f in is_positions(m, p)] + [f for _, f in is_nltk(nstr, sy, m)],
      z3.And(p == POSN(m), NLTKM(nstr, sy) == m, RUNS(p) == m, BSTR(RUNS(p)) == BSTR(m), BSTR(NLTKM(nstr, sy)) == BSTR(m), ln(p) == total(m), SS.len(nstr) + 1 == total(m)), [], auto=False,
      extra=[UNITS['positions_unique'].inst(m, p), UNITS['nltk_unique'].inst(nstr, sy, m)])
