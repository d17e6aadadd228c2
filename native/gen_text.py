"""Generators for texts and tables: C13, C14."""
import numpy as np

from gens import chance, chain, consumer, gen, good_chain, names, pick, subset


def error(rng):
    k = int(rng.integers(6))
    if k == 0:
        return 0.0
    e = 10.0 ** int(rng.integers(-9, 9)) if chance(rng, 0.3) else 10.0 ** float(rng.uniform(-4, 4))
    if k == 1:
        e = e * pick(rng, 9.95, 9.99, 0.995, 0.9999999, 1.0000001, 1.5, 2.5)
    return float(e)


def bound(rng, whole=False):
    from chainconsumer.analysis import Bound

    c = float(pick(rng, 0.0, 1.0, -3.5, 0.05, 1234.5678, 1e-5, -2e6, rng.normal(), rng.normal() * 100))
    a = error(rng)
    b = a if chance(rng, 0.3) else error(rng) if chance(rng, 0.5) else a * float(rng.uniform(0.5, 2))
    if chance(rng, 0.3):
        c = c * a
    lo, up = c - a, c + b
    if not whole and chance(rng, 0.25):
        which = int(rng.integers(1, 8))
        lo, c, up = (None if which & 1 else lo), (None if which & 2 else c), (None if which & 4 else up)
    return Bound(lower=lo, center=c, upper=up)


def analysis():
    from chainconsumer import ChainConsumer

    return ChainConsumer().analysis


@gen("c13.Single")
def _(rng, i):
    return {"bound": bound(rng, True), "use_pm": chance(rng, 0.7)}


LABELS = [None, None, "x", r"\Omega_m", "a = b", "", "10%"]


@gen("c13.Text")
def _(rng, i):
    return {"self": analysis(), "bound": None if chance(rng, 0.05) else bound(rng), "wrap": chance(rng, 0.5), "label": pick(rng, *LABELS)}


@gen("c13.Bands")
def _(rng, i):
    return {"self": analysis(), "bound": [bound(rng) for _ in range(int(rng.integers(0, 5)))], "wrap": chance(rng, 0.5), "label": pick(rng, *LABELS)}


# ------------------------------------------------------------------ C14
WORDS = ["", "A caption", "50% of $x_1$", "100\\% {sure} %s %d %%", "tab:model", "a & b \\\\ c", "\\begin{tabular}{c}", None]


def setup(rng, c):
    from chainconsumer import PlotConfig

    if chance(rng, 0.6):
        cols = c._all_columns
        kw = {"labels": {p: pick(rng, r"$\Omega_%s$" % p[:1], p + " [km]", "50\\% x") for p in cols if chance(rng, 0.4)}}
        if chance(rng, 0.3):
            kw["blind"] = True if chance(rng, 0.2) else subset(rng, cols + ["absent"], 0)
        c.set_plot_config(PlotConfig(**kw))
    return c


def fitted(rng, k, **kw):
    from chainconsumer import ChainConsumer
    from chainconsumer.statistics import SummaryStatistic as S

    c = ChainConsumer()
    pool = names(rng, 4)
    for nm in ["A", "B b", "10", "e%", "C_c"][:k]:
        f = dict(n=60, grid=False, cols=subset(rng, pool), summary_area=0.6827, statistics=pick(rng, *list(S)))
        if chance(rng, 0.15):
            f.update(statistics=S.HDI, multimodal=True, shape="bimodal")
        if chance(rng, 0.1):
            f.update(plot_cloud=True, color_param=f["cols"][0])
        f.update(kw)
        c.add_chain(good_chain(rng, name=nm, **f))
    return setup(rng, c)


@gen("c14.Parameters")
def _(rng, i):
    import os
    import tempfile

    c = fitted(rng, int(pick(rng, 1, 2, 3)))
    nm = c.get_names()
    chains = None if chance(rng, 0.5) else [x if chance(rng, 0.5) else c.get_chain(x) for x in subset(rng, nm)]
    if chains and chance(rng, 0.1):
        chains.append(chains[0])
    cols = None if chance(rng, 0.5) else subset(rng, sorted(c._all_columns) + ["absent"], 0)
    fn = None
    if chance(rng, 0.1):
        fn = os.path.join(tempfile.mkdtemp(prefix="verif_c14_"), "t.tex")
        import atexit
        import shutil

        atexit.register(shutil.rmtree, os.path.dirname(fn), True)
    return {"self": c.analysis, "chains": chains, "columns": cols, "transpose": chance(rng, 0.5), "caption": pick(rng, *WORDS), "label": pick(rng, *WORDS),
            "hlines": chance(rng, 0.7), "blank_fill": pick(rng, "--", "--", "n/a", "100\\%", ""), "filename": fn}


@gen("c14.Covariance", "c14.Correlation")
def _(rng, i):
    c = setup(rng, consumer(rng, k=int(pick(rng, 1, 2, 3)), n=int(pick(rng, 5, 20))))
    ch = pick(rng, *c._chains.values())
    cols = None if chance(rng, 0.4) else subset(rng, ch.data_columns)
    return {"self": c.analysis, "chain": ch if chance(rng, 0.5) else ch.name, "columns": cols, "caption": pick(rng, *WORDS[:-1]), "label": pick(rng, *WORDS[:-1])}


@gen("c14.Comparison")
def _(rng, i):
    c = consumer(rng, k=int(pick(rng, 0, 1, 2, 3, 4)), n=int(pick(rng, 3, 8, 20)))
    for ch in list(c._chains.values()):
        if not all(x not in ch.name for x in "&"):
            c.remove_chain(ch)
    return {"self": c.comparison, "caption": pick(rng, *WORDS), "label": pick(rng, *WORDS), "hlines": chance(rng, 0.5), "aic": chance(rng, 0.7), "bic": chance(rng, 0.7),
            "dic": chance(rng, 0.7), "sort": pick(rng, "aic", "bic", "dic", "dic"), "descending": chance(rng, 0.5)}


@gen("c14.Frame")
def _(rng, i):
    return {"caption": pick(rng, *WORDS[:-1]), "label": pick(rng, *WORDS[:-1])}
