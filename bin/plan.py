"""What the check of each property runs. quick: on every change; thorough: as deep as it gets."""

LEVEL = {}
ASSUMPTIONS = {}
CHECKS = {}


def mc(module, spec, inv=(), props=(), consts=None, tags=None, **kw):
    return dict(kind="MC", module=module, spec=spec, inv=list(inv), props=list(props), consts=consts, tags=tags, **kw)


def tr(driver, mode, spec, q, t, tags=None, **kw):
    """q, t: number of runs in the quick and the thorough tier"""
    d = dict(kind="TRACE", driver=driver, mode=mode, spec=spec, quick={"count": q}, thorough={"count": t, "timeout": 1500}, **kw)
    if tags is not None:
        d["tags"] = tags
    return d


def check(prop, quick, thorough_extra=(), level="model_checking", assumptions=()):
    CHECKS[prop] = (list(quick), list(thorough_extra))
    LEVEL[prop] = level
    ASSUMPTIONS[prop] = list(assumptions)


def steps(prop, tier):
    q, t = CHECKS[prop]
    return q + (t if tier == "thorough" else [])


# - Boost.tla ---------------------------------------------------------------------------------------

BOOST_INV = ["Partition", "Consistent", "PredConsistent", "WellFormed", "Objective"]
BOOST_TAGS = ["C01", "C02", "C03", "C05"]
boost_mc = mc("MCBoost", "MCSpec", BOOST_INV, tags=BOOST_TAGS,
              consts={"N": 4, "Depth": 2, "NIter": 1, "MinEx": 1, "Lam2": 1, "MgK": 0, "Bags": "{3, 4}", "MinCand": "{2}"})
boost_live = mc("MCBoost", "MCSpec", BOOST_INV, ["Terminates"], tags=BOOST_TAGS,
                consts={"N": 3, "Depth": 1, "NIter": 2, "MinEx": 1, "Lam2": 0, "MgK": 0, "Bags": "{2}", "MinCand": "{1}"})
boost_deep = mc("MCBoost", "MCSpec", BOOST_INV, tags=BOOST_TAGS, timeout=1500,
                consts={"N": 5, "Depth": 3, "NIter": 1, "MinEx": 1, "Lam2": 1, "MgK": 0, "Bags": "{4}", "MinCand": "{3}"})
A_BOOST = ["gradients are small integers and leaf values distinct tags, prescribed by a recording objective that implements the public trait",
           "gains are compared up to the rounding error of 32-bit floats"]


def boost(q, t):
    n = {"small": (300, 6000), "mid": (120, 1500), "big": (24, 240), "train": (300, 4000), "real": (400, 5000), "duel": (80, 2000), "huge": (60, 800), "bulk": (80, 1200)}
    return [tr("boost", m, "BoostTrace", int(n[m][0] * q.get(m, 0)), int(n[m][1] * t.get(m, q.get(m, 0)))) for m in q]


check("C01", [boost_mc] + boost({"small": 1, "mid": 1, "big": 0.5, "train": 1, "real": 1, "huge": 1, "bulk": 1}, {}), [boost_live, boost_deep], assumptions=A_BOOST)
check("C02", [boost_mc] + boost({"small": 1, "mid": 1, "big": 1, "train": 1, "huge": 1, "bulk": 1}, {}), [boost_live, boost_deep], assumptions=A_BOOST)
check("C03", [boost_mc] + boost({"small": 1.5, "mid": 1, "big": 1, "duel": 1, "huge": 1}, {}), [boost_live, boost_deep], assumptions=A_BOOST)
check("C05", [boost_mc] + boost({"small": 1.5, "mid": 1, "train": 1, "huge": 1, "bulk": 1}, {}), [boost_live, boost_deep], assumptions=A_BOOST)
quant_mc = mc("MCQuantile", "Spec", ["Allowed", "Ordered", "Balanced", "RowsDefined", "RowsOrdered", "MustMay"], ["Finishes"],
              {"MaxValues": 5, "MaxWeight": 3, "MaxCuts": 4})
quant_deep = mc("MCQuantile", "Spec", ["Allowed", "Ordered", "Balanced", "RowsDefined", "RowsOrdered", "MustMay"], ["Finishes"],
                {"MaxValues": 7, "MaxWeight": 3, "MaxCuts": 4}, timeout=1500)


def quant(q, t=20):
    return [tr("quant", "x", "QuantileTrace", 2000 * q, 2000 * q * t), tr("quant", "many", "QuantileTrace", 24 * q, 24 * q * t),
            tr("quant", "wide", "QuantileTrace", 120 * q, 120 * q * t)]


check("C08", [boost_mc, quant_mc] + boost({"small": 2, "mid": 1, "big": 0.5, "huge": 1}, {}) + quant(1), [boost_live, boost_deep, quant_deep], assumptions=A_BOOST)
check("C07", [boost_mc] + boost({"small": 2, "mid": 1, "big": 0.5, "huge": 1}, {}) + quant(1), [boost_live, boost_deep], assumptions=A_BOOST)
check("C17", [boost_mc] + boost({"small": 2, "mid": 1, "huge": 1}, {}), [boost_live, boost_deep], assumptions=A_BOOST)

# - runs that have to be the same -------------------------------------------------------------------

check("C04", [mc("MCCompress", "Spec", ["SameRows", "SameGradients", "Ordered"],
                 consts={"NBlocks": 3, "B": 2, "Depth": 3, "MinBlocks": 1, "Grads": "<- MCGrads"}),
              tr("runs", "compr", "RunsTrace", 250, 3000), tr("runs", "giant", "RunsTrace", 4, 40)],
      [mc("MCCompress", "Spec", ["SameRows", "SameGradients", "Ordered"],
          consts={"NBlocks": 5, "B": 2, "Depth": 3, "MinBlocks": 1, "Grads": "<- MCGrads"}, timeout=1500)])
check("C06", [boost_mc] + boost({"small": 2, "mid": 0.5, "huge": 1, "bulk": 1}, {}) + [tr("runs", "sampled", "RunsTrace", 40, 600), tr("runs", "bigsample", "RunsTrace", 60, 1000), tr("runs", "longsample", "RunsTrace", 60, 600)], [boost_live], assumptions=A_BOOST)
check("C16", [mc("MCParHist", "Spec", ["SameResult", "Exclusive"], ["Finishes"],
                 consts={"Workers": "{w1, w2, w3}", "Locked": "TRUE", "Bins": "<- MCBins"}),
              tr("runs", "det", "RunsTrace", 300, 3000)],
      [mc("MCParHist", "Spec", ["SameResult", "Exclusive"], ["Finishes"],
          consts={"Workers": "{w1, w2, w3, w4}", "Locked": "TRUE", "Bins": "<- MCBins"}, timeout=1500)])

# - kernels and stores --------------------------------------------------------------------------------

harley_mc = mc("MCHarley", "Spec", ["Counted", "Between"], ["Finishes"], {"MaxN": 35})
harley_deep = mc("MCHarley", "Spec", ["Counted", "Between"], ["Finishes"], {"MaxN": 70}, timeout=1500)


def kern(modes):
    return [tr("kern", m, "BitsTrace", n, 30 * n) for m, n in modes.items()]


check("C13", [harley_mc] + kern({"pair": 300, "compr": 400, "slice": 600, "slicec": 600, "setbits": 150, "long": 150}), [harley_deep])

store_mc = mc("MCStore", "Spec", ["Disjoint", "Content", "FreeApart", "Within"], consts={"MaxOps": 7, "Lens": "{1, 2, 3}", "Align": 2}, view="View")
store_gen = dict(kind="GEN", module="MCStore", spec="Spec", inv=["Emit"], consts={"MaxOps": 5, "Lens": "{1, 3}", "Align": 1}, out="store.gen")
check("C12", [store_mc, store_gen, tr("store", "gen", "StoreTrace", 0, 0, gen="store.gen")]
      + [tr("store", m, "StoreTrace", n, 20 * n) for m, n in {"slice": 600, "hist": 600, "bits": 600, "huge": 400}.items()],
      [dict(store_gen, consts={"MaxOps": 6, "Lens": "{1, 3}", "Align": 1}), tr("store", "gen", "StoreTrace", 0, 0, gen="store.gen")])

# - objectives and metrics --------------------------------------------------------------------------

A_LOSS = ["real numbers are represented by integers with a tabulated exponential; results are compared within a tolerance far above float rounding"]
check("C14", [tr("loss", "obj", "LossTrace", 3000, 60000), tr("loss", "huge", "LossTrace", 300, 5000)], assumptions=A_LOSS)
check("C15", [tr("loss", "metric", "LossTrace", 4000, 60000), tr("loss", "hugemetric", "LossTrace", 300, 5000), tr("loss", "names", "LossTrace", 300, 3000)], assumptions=A_LOSS)

# - the binner -------------------------------------------------------------------------------------

def binner_mc(k, hi, n, **kw):
    return mc("MCBinner", "Spec", ["Covers", "Counts", "Found"], consts={"K": k, "Lo": 1, "Hi": hi, "Margin": 2, "MaxIns": n}, **kw)


check("C18", [binner_mc(3, 8, 5), binner_mc(4, 5, 5), tr("binner", "x", "BinnerTrace", 1500, 30000)],
      [binner_mc(5, 9, 6, timeout=1500), binner_mc(2, 12, 6, timeout=1500)])

# - levels ------------------------------------------------------------------------------------------

def levels_mc(n, w, **kw):
    return mc("MCLevels", "Spec", ["Defined", "Unique", "BoundsExact", "Monotone", "Sums"], consts={"N": n, "W": w, "BoundsSet": "<- MCBounds", "Margin": 1}, **kw)


check("C21", [levels_mc(3, 1), levels_mc(3, 2), levels_mc(2, 4)] + kern({"slice": 200, "setvals": 150}), [levels_mc(4, 2, timeout=1500), levels_mc(2, 8, timeout=1500)])

# - settings ----------------------------------------------------------------------------------------

check("C10", [tr("config", "record", "ConfigTrace", 1500, 8000), tr("config", "parse", "ConfigTrace", 2500, 20000)])

# - data --------------------------------------------------------------------------------------------

data_mc = mc("MCData", "Spec", ["RowByRow", "FailsOnlyOnBad", "Described"], consts={"Cols": 2, "Rows": 2, "MaxB": 2, "Vals": "<- MCVals", "MaxSets": 2})
check("C09", [data_mc, tr("data", "csv", "DataTrace", 2500, 40000), tr("data", "mem", "DataTrace", 1000, 15000),
              tr("data", "rows", "DataTrace", 60, 600), tr("data", "cols", "DataTrace", 40, 600)],
      [mc("MCData", "Spec", ["RowByRow", "FailsOnlyOnBad", "Described"], consts={"Cols": 2, "Rows": 3, "MaxB": 2, "Vals": "<- MCVals", "MaxSets": 2}, timeout=1500)])

# - the C interface ---------------------------------------------------------------------------------

CAPI_INV = ["ModelNeedsData", "AcceptedOnly"]
CAPI_PROPS = ["FrozenConfig", "Kept", "ModelOnlyByTrain", "FailuresChangeNothing", "Independent"]


def capi_mc(n, **kw):
    return mc("MCCApi", "Spec", CAPI_INV, CAPI_PROPS, {"Contexts": "{1, 2}", "MaxOps": n, "Ks": "{1, 4, 7}", "Ids": "{1, 8, 10}", "Ns": "{0, 7}", "Nfs": "{0, 1}"}, view="View", **kw)


def capi_gen(num, n, out):
    return dict(kind="GEN", module="MCCApi", spec="GenSpec", inv=["Emit"], simulate=num, depth=n + 2, out=out,
                consts={"Contexts": "{1, 2}", "MaxOps": n, "Ks": "<- AllK", "Ids": "<- AllIds", "Ns": "<- MCNs", "Nfs": "<- MCNfs"})


check("C11", [capi_mc(6), capi_gen(800, 36, "capi.gen"), tr("capi", "x", "CApiTrace", 0, 0, gen="capi.gen"),
              capi_gen(1000, 16, "capi2.gen"), tr("capi", "x", "CApiTrace", 0, 0, gen="capi2.gen")],
      [capi_mc(8, timeout=1500), capi_gen(6000, 40, "capi3.gen"), tr("capi", "x", "CApiTrace", 0, 0, gen="capi3.gen")])

# - the Python classes ---------------------------------------------------------------------------------

def py_mc(n, **kw):
    return mc("MCPy", "Spec", ["Rows", "NoData"], ["Raises", "PredictsModel"], {"Ids": "{0, 1, 8}", "MaxOps": n, "Ks": "{1, 4, 7, 22}"}, view="View", **kw)


def py_gen(num, out, ids="<- AllIds"):
    return dict(kind="GEN", module="MCPy", spec="GenSpec", inv=["Emit"], simulate=num, depth=26, out=out, consts={"Ids": ids, "MaxOps": 24, "Ks": "<- AllK"})


check("C22", [py_mc(5), py_gen(500, "py.gen"), tr("py", "x", "PyTrace", 0, 0, gen="py.gen")],
      [py_mc(7, timeout=1500), py_gen(6000, "py2.gen"), tr("py", "x", "PyTrace", 0, 0, gen="py2.gen")])

# - the command line tool ---------------------------------------------------------------------------

CLI_GEN = dict(kind="GEN", module="MCCli", spec="GenSpec", inv=["Emit"], consts={"MaxArgs": 1}, out="cli.gen")
CLI_LONG = dict(kind="GEN", module="MCCli", spec="LongSpec", inv=["Emit"], simulate=400, depth=7, consts={"MaxArgs": 0}, out="cli2.gen")
check("C20", [mc("MCCli", "Spec", ["ExitTells", "AllOrNothing", "ProgressOk"], ["Ends"], {"MaxArgs": 1}),
              CLI_GEN, tr("cli", "x", "CliTrace", 800, 9000, gen="cli.gen", cli=True),
              CLI_LONG, tr("cli", "long", "CliTrace", 2500, 25000, gen="cli2.gen", cli=True)])

# - nothing panics ----------------------------------------------------------------------------------

def total_mc(n, f, d, **kw):
    return mc("MCTotal", "Spec", ["NoPanic", "TellsApart"], ["Finishes"], {"MaxN": n, "MaxFeats": f, "MaxDepth": d}, **kw)


check("C19", [total_mc(2, 1, 2), tr("total", "x", "TotalTrace", 10000, 120000), tr("total", "hinge", "TotalTrace", 1, 1)],
      [total_mc(4, 1, 2), total_mc(3, 2, 2, timeout=1500)])

TECHNIQUE = {}
NOTE = {}
NOT_APPLICABLE = {}
DEFAULT_NOTE = ("The specification is model checked exhaustively on small instances; the code is bound to it by validating recorded runs "
                "on generated inputs, so the code is covered on the runs made, not on all. Trusted: TLC, the projection in harness/, rustc.")
