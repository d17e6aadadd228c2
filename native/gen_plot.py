"""Generators for figures: C18, C19, C22."""
import numpy as np

from gens import chance, gen, good_table, grid_table, names, pick, subset

import matplotlib

matplotlib.use("Agg")


def fresh():
    import matplotlib.pyplot as plt

    plt.close("all")


POS = ["a", "b", "c", "omega_m", r"$\Omega_\Lambda$", "H0", "10", "A b"]


def positive_table(rng, cols, n, post):
    """columns that allow a log scale"""
    df = good_table(rng, n=n, cols=cols, scale=1.0, post=post)
    for c in cols:
        x = df[c]
        df[c] = (x - x.min() + 0.5) * 10.0 ** pick(rng, 0, 0, -4, 5)
    return df


def member(rng, name, pool, all_cols):
    from chainconsumer import Chain
    from chainconsumer.statistics import SummaryStatistic as S

    cols = pool if all_cols else subset(rng, pool)
    kw = {"statistics": pick(rng, S.MEAN, S.CUMULATIVE, S.MAX, S.HDI)}
    form = int(rng.integers(7))
    df = positive_table(rng, cols, int(pick(rng, 30, 60)), chance(rng, 0.5))
    if form == 0:
        kw.update(plot_contour=False, plot_point=True)
        df["log_posterior"] = -np.arange(len(df), dtype=float)
    elif form == 1:
        kw.update(plot_cloud=True)
        if chance(rng, 0.7):
            kw["color_param"] = pick(rng, *cols)
    elif form == 2:
        kw.update(plot_point=True)
    if chance(rng, 0.3):
        kw["smooth"] = int(pick(rng, 0, 1))
    if chance(rng, 0.2):
        kw["bar_shade"] = False
    kw["bins"] = int(pick(rng, 5, 8))
    return Chain(samples=df, name=name, **kw)


def truth(rng, pool, z):
    from chainconsumer import Truth

    kw = {}
    if chance(rng, 0.4):
        kw["marker"] = pick(rng, "o", "x", "*", "s")
        kw["marker_size"] = float(pick(rng, 50.0, 150.0))
        if kw["marker"] != "x":
            if chance(rng, 0.4):
                kw["edge_color"] = pick(rng, "blue", "#00ff00")
            if chance(rng, 0.4):
                kw["marker_edge_width"] = float(pick(rng, 0.5, 3.0))
    if chance(rng, 0.4):
        kw["color"] = pick(rng, "red", "#123456", "black")
    if chance(rng, 0.4):
        kw["line_style"] = pick(rng, ":", "-", "-.")
    if chance(rng, 0.4):
        kw["line_width"] = 2.5
    if chance(rng, 0.4):
        kw["alpha"] = 0.4
    loc = {p: float(pick(rng, 0.0, 1.0, 2.5, -1.0, rng.normal())) for p in subset(rng, pool + ["absent"], 0)}
    return Truth(location=loc, zorder=1001 + z, **kw)


def stage(rng, truths, nmax=3):
    from chainconsumer import ChainConsumer, PlotConfig

    fresh()
    pool = [POS[j] for j in rng.permutation(len(POS))[: int(rng.integers(2, nmax + 1))]]
    c = ChainConsumer()
    k = int(pick(rng, 1, 1, 2, 3))
    for j in range(k):
        c.add_chain(member(rng, f"c{j}", pool, j == 0))
    if not any(x.plot_contour for x in c._chains.values()):
        c._chains["c0"].plot_contour = True
    kw = {}
    if chance(rng, 0.5):
        kw["blind"] = True if chance(rng, 0.25) else subset(rng, pool + ["absent"])
    shades = [x.color_param for x in c._chains.values() if x.plot_cloud and x.color_param is not None]
    if shades and not truths and chance(rng, 0.5):
        # the colour of a cloud may be the only place a blinded parameter shows
        kw["blind"] = [shades[0]]
    if chance(rng, 0.3):
        kw["log_scales"] = subset(rng, pool)
    if chance(rng, 0.3):
        kw["flip"] = True
    if chance(rng, 0.2):
        kw["plot_hists"] = False
    if chance(rng, 0.3):
        kw["labels"] = {p: pick(rng, "$x_1$", p + " label") for p in subset(rng, pool)}
    if chance(rng, 0.3):
        kw["extents"] = {}
        for p in subset(rng, pool):
            x = np.concatenate([ch.samples[p].to_numpy() for ch in c._chains.values() if p in ch.samples])
            kw["extents"][p] = (float(x.min() * 0.7), float(x.max() * 1.1))
    if chance(rng, 0.2):
        kw["summarise"] = False
    if chance(rng, 0.2):
        kw["show_legend"] = False
    c.set_plot_config(PlotConfig(**kw))
    if truths:
        for z in range(int(rng.integers(1, 4))):
            c.add_truth(truth(rng, pool, z))
    plottable = c.plotter._sanitise_columns(None, c.plotter._sanitise_chains(None))
    need = 2
    cols = None
    if chance(rng, 0.4) and len(plottable) > need:
        cols = [plottable[j] for j in rng.permutation(len(plottable))[: int(rng.integers(need, len(plottable) + 1))]]
    nm = c.get_names()
    chains = None
    if chance(rng, 0.3) and len(nm) > 1 and cols is None:
        chains = nm[::-1]
    if len(plottable) < 2 and kw.get("plot_hists") is False:
        c.plotter.config.plot_hists = True
    return c, cols, chains


@gen("c18.Truths")
def _(rng, i):
    import matplotlib.pyplot as plt

    fresh()
    _, ax = plt.subplots()
    pool = ["a", "b", "c"]
    return {"ax": ax, "truths": [truth(rng, pool, z) for z in range(int(rng.integers(0, 4)))], "px": pick(rng, None, *pool), "py": pick(rng, None, *pool)}


def common(rng, truths, nmax=3):
    c, cols, chains = stage(rng, truths, nmax)
    return {"self": c.plotter, "columns": cols, "chains": chains}


@gen("c18.Triangle")
def _(rng, i):
    return common(rng, True)


@gen("c19.Triangle")
def _(rng, i):
    return common(rng, False)


@gen("c18.Distributions")
def _(rng, i):
    return {**common(rng, True), "col_wrap": int(pick(rng, 1, 2, 4))}


@gen("c19.Distributions")
def _(rng, i):
    return {**common(rng, False), "col_wrap": int(pick(rng, 1, 2, 4))}


@gen("c18.Summary")
def _(rng, i):
    return {**common(rng, True), "errorbar": chance(rng, 0.4)}


@gen("c19.Summary")
def _(rng, i):
    return {**common(rng, False), "errorbar": chance(rng, 0.4)}


def walk(rng, truths):
    return {**common(rng, truths), "plot_weights": chance(rng, 0.5), "plot_posterior": chance(rng, 0.6), "log_weight": chance(rng, 0.3),
            "convolve": None if chance(rng, 0.7) else 5}


@gen("c18.Walks")
def _(rng, i):
    return walk(rng, True)


@gen("c19.Walks")
def _(rng, i):
    return walk(rng, False)


@gen("c19.Dist")
def _(rng, i):
    import matplotlib.pyplot as plt

    c, cols, chains = stage(rng, False)
    _, ax = plt.subplots()
    ch = [x for x in c._get_final_chains().values() if x.plot_contour][0]
    return {"ax": ax, "chain": ch, "px": pick(rng, *ch.data_columns), "config": pick(rng, c.plotter.config, c.plotter.config, None), "summary": chance(rng, 0.7)}


@gen("c19.Blinds")
def _(rng, i):
    from chainconsumer import ChainConsumer

    pool = ["a", "b", "c"]
    return {"self": ChainConsumer().plotter, "blind": pick(rng, None, False, True, [], subset(rng, pool), ["a", "absent"]), "columns": subset(rng, pool)}


@gen("c18.MarkerStyle")
def _(rng, i):
    return {"self": truth(rng, ["a", "b"], 1)}
