"""Generators for the 1D summaries: C03, C04, C05, C06, C15, C23, C22.Extents."""
import numpy as np
import pandas as pd

from gens import AREAS, chance, draw, gen, good_chain, good_table, names, pick, plain_weights, weights


def analysis(rng, *chains):
    from chainconsumer import ChainConsumer

    c = ChainConsumer()
    for x in chains:
        c.add_chain(x)
    return c.analysis


def column(rng, c):
    return pick(rng, *[x for x in c.samples.columns if x not in ("weight", "log_posterior")])


@gen("c03.Cumulative", "c03.Mean", "c05.Hdi", "c04.Max")
def _(rng, i):
    c = good_chain(rng)
    return {"self": analysis(rng, c), "chain": c, "column": column(rng, c)}


@gen("c03.MaxCentral")
def _(rng, i):
    c = good_chain(rng)
    return {"self": analysis(rng, c), "chain": c, "parameter": column(rng, c)}


# ------------------------------------------------------------------ C15
@gen("c15.Bins")
def _(rng, i):
    kw = {"n": int(pick(rng, 10, 60, 3000))} if chance(rng, 0.8) else {"n": int(5e5), "cols": ["a"]}
    return {"chain": good_chain(rng, **kw)}


@gen("c15.GridBins")
def _(rng, i):
    n = int(pick(rng, 2, 3, 10, 25))
    x = np.sort(rng.normal(size=n)) if chance(rng, 0.3) else rng.normal() + np.arange(n) * 10.0 ** pick(rng, 0, -6, 5)
    return {"data": pd.Series(rng.permutation(np.concatenate([x, rng.choice(x, size=n)])))}


@gen("c15.SmoothedBins")
def _(rng, i):
    n = int(pick(rng, 1, 2, 30, 400))
    return {"smooth": int(pick(rng, 0, 1, 3, 7)), "bins": int(pick(rng, 2, 10, 35)), "data": pd.Series(draw(rng, n)), "weight": weights(rng, n),
            "plot": chance(rng, 0.3), "pad": chance(rng, 0.4)}


@gen("c15.Marginal")
def _(rng, i):
    c = good_chain(rng, kde=False)
    return {"self": analysis(rng, c), "chain": c, "column": column(rng, c), "pad": chance(rng, 0.4), "use_kde": None}


@gen("c15.MarginalKde")
def _(rng, i):
    c = good_chain(rng, kde=pick(rng, True, 0.5, 1.0, 1.7, 2))
    return {"self": analysis(rng, c), "chain": c, "column": column(rng, c), "pad": chance(rng, 0.4), "use_kde": pick(rng, None, True)}


@gen("c15.Unit")
def _(rng, i):
    c = good_chain(rng, grid=False, n=int(pick(rng, 60, 200)))
    return {"self": analysis(rng, c), "chain": c, "column": column(rng, c), "pad": chance(rng, 0.4), "use_kde": pick(rng, None, None, False)}


# ------------------------------------------------------------------ C22
@gen("c22.Extents")
def _(rng, i):
    n = int(pick(rng, 1, 2, 5, 30, 400, 3000))
    return {"data": pd.Series(draw(rng, n)), "weight": weights(rng, n), "plot": chance(rng, 0.5), "wide_extents": chance(rng, 0.6), "tiny": chance(rng, 0.2),
            "pad": chance(rng, 0.3)}


# ------------------------------------------------------------------ C23
def stat(rng):
    from chainconsumer.statistics import SummaryStatistic as S

    return pick(rng, *list(S))


def summary_chain(rng, name):
    if chance(rng, 0.35):
        return good_chain(rng, name=name, multimodal=True, shape=pick(rng, "bimodal", "bimodal", "normal"), grid=False, summary_area=float(pick(rng, 0.6827, 0.9, 0.5)), n=300)
    return good_chain(rng, name=name, statistics=stat(rng), n=120, summary_area=float(pick(rng, 0.6827, 0.9, 0.5)))


@gen("c23.Single")
def _(rng, i):
    c = good_chain(rng, statistics=stat(rng))
    return {"self": analysis(rng, c), "chain": c, "column": column(rng, c)}


@gen("c23.Summary")
def _(rng, i):
    cs = [summary_chain(rng, nm) for nm in ["A", "b c", "10", "d"][: int(rng.integers(1, 4))]]
    a = analysis(rng, *cs)
    pool = sorted({x for c in cs for x in c.data_columns}) + ["absent"]
    cols = [pool[j] for j in rng.permutation(len(pool))[: int(rng.integers(0, len(pool) + 1))]]
    sel = [cs[j] for j in rng.permutation(len(cs))[: int(rng.integers(0, len(cs) + 1))]]
    return {"self": a, "chains": sel, "columns": cols}


@gen("c23.Everything")
def _(rng, i):
    from chainconsumer import ChainConfig

    cs = [summary_chain(rng, nm) for nm in ["A", "b c", "10", "d"][: int(rng.integers(1, 4))]]
    a = analysis(rng, *cs)
    if chance(rng, 0.3) and not any(c.multimodal for c in cs):
        a.parent.set_override(ChainConfig(statistics=stat(rng)))
    if chance(rng, 0.3):
        cs[0].plot_contour = False
    return {"self": a, "chains": None, "columns": None}


# ------------------------------------------------------------------ C06
@gen("c06.Mask")
def _(rng, i):
    n = int(pick(rng, 0, 1, 2, 3, 5, 9, 40))
    p = pick(rng, 0.1, 0.5, 0.9)
    return {"x": np.sort(rng.normal(size=n)), "mask": rng.random(n) < p}


def banded(rng):
    kw = {"multimodal": True, "grid": chance(rng, 0.2)}
    if not kw["grid"]:
        kw.update(shape=pick(rng, "bimodal", "bimodal", "normal", "uniform"), n=int(pick(rng, 60, 300, 800)))
        if chance(rng, 0.6):
            kw["scale"] = 1.0
    return good_chain(rng, **kw)


@gen("c06.Intervals")
def _(rng, i):
    c = banded(rng)
    return {"self": analysis(rng, c), "chain": c, "column": column(rng, c)}


@gen("c06.Bands")
def _(rng, i):
    c = banded(rng)
    a, col = analysis(rng, c), column(rng, c)
    try:
        iv = a.get_parameter_hdi_intervals(c, col)
    except Exception:
        iv = []
    xs, _, _ = a._get_smoothed_histogram(c, col, pad=True)
    if chance(rng, 0.3):
        k = np.sort(rng.choice(len(xs), size=4, replace=False))
        iv = [(float(xs[k[0]]), float(xs[k[1]])), (float(xs[k[2]]), float(xs[k[3]]))]
    return {"self": a, "chain": c, "column": col, "intervals": iv}
