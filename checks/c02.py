"""C02: commutator-mode contractions against the connected part of the independent enumeration."""
from vlib import wick
from checks import c01
from checks.c01 import ASSUMPTIONS  # noqa: F401

RULE = ("as C01 with 2-5 operators in commutator mode; the oracle keeps exactly the contractions that link all operators and "
        "contain a pairwise contraction.  Non-trivial: at least two such contractions")
BUDGET = {"quick": 60, "thorough": 700}
MIN_NONTRIVIAL = {"quick": 72, "thorough": 1200}
MIN_OBSERVED = {"contractions": 6000, "cumulants_ge2": 180, "hole_or_delta": 600, "windowed": 18,
                "operator_lists_2": 18, "operator_lists_3": 18, "operator_lists_4": 6}


# a fixed list on which the recorded shortfall shows: four one-body active operators, fully contracted
PROBE = dict(ops=[[["a%d" % (2 * i)], ["a%d" % (2 * i + 1)]] for i in range(4)],
             kw=dict(max_cu=1, min_n_open=0, max_n_open=2, expand_hole=False, for_commutator=True))


def probe(sh):
    kw = PROBE["kw"]
    m, lost, n = wick.coefficient_map(PROBE["ops"], kw["max_cu"], kw["min_n_open"], kw["max_n_open"], True, kw["expand_hole"], 10 ** 6)
    r = sh.need("contractions", **PROBE)
    if r is not None:
        sh.count("contractions", len(r["con"]))
        sh.count("probe_lost", len(lost))
        sh.evaluated(key=["probe"], nontrivial=True)
        c01.judge(sh, PROBE, r, m, lost, True)


def shard(sh):
    if sh.idx == 0:
        probe(sh)
    c01.one(sh, True, sh.tier == "thorough")
