import z3
from logic import *
from values import *
from values import NONEV, lit, inj
from logic import safe
from execu import AND, Unsupported, PyRaise
from contract import *
from contract import A, Case, Lemma, register, both, PTy, PConst, PAny, PTup, PRec, PCustom, fact, each, justify
from lib import split_theory, vals

_seen = {}


def attend(*ts):
    """Terms brought to the solver's attention (true whatever the terms are)."""
    out = []
    for t in ts:
        s = t.sort()
        if str(s) not in _seen:
            f = z3.Function('seen_' + safe(str(s)), s, B)
            x = z3.Const('x!seen', s)
            axiom('def.seen_' + str(s), [x], f(x), [f(x)])
            _seen[str(s)] = f
        out.append(fact(_seen[str(s)](t)))
    return out


def attend_all(vs, pats, *ts):
    return [each(vs, attend(*ts), pats)]
