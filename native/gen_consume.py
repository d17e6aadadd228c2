"""Generators for options, panels and extents: C11, C22."""
import numpy as np

from gens import chain, chance, consumer, extras, gen, names, pick, subset, table

SETTINGS = {
    "summary_area": [0.5, 0.9], "sigmas": [[0, 1], [1, 2, 3]], "color": ["red", "#123456", None], "linestyle": ["--"], "linewidth": [2.0], "show_contour_labels": [True, False],
    "shade": [True, False], "shade_alpha": [0.1, 0.8, 0.0], "shade_gradient": [0.5], "bar_shade": [True, False], "bins": [10, None], "smooth": [0, 1, None], "cmap": ["plasma"],
    "num_cloud": [50], "plot_cloud": [True, False], "plot_contour": [True, False], "plot_point": [True, False], "marker_style": ["x"], "marker_size": [5.0],
    "marker_alpha": [0.5], "zorder": [3], "kde": [True, 1.5, False],
}


def config(rng, p=0.2):
    return {k: pick(rng, *v) for k, v in SETTINGS.items() if chance(rng, p)}


def override(rng):
    from chainconsumer import ChainConfig

    kw = config(rng, pick(rng, 0.05, 0.2, 0.5))
    kw = {k: v for k, v in kw.items() if not (k == "color" and v is None)}
    return ChainConfig(**kw)


def member(rng, name, cols=None, n=3, **force):
    from chainconsumer import Chain

    kw = config(rng, pick(rng, 0, 0.1, 0.4))
    kw = {k: v for k, v in kw.items() if not (k == "color" and v is None)}
    kw.update(force)
    return Chain(samples=table(rng, n, cols), name=name, **kw)


def crowd(rng, k=None, cols=None, n=3, **force):
    from chainconsumer import ChainConsumer

    c = ChainConsumer()
    k = int(pick(rng, 0, 1, 2, 3, 4, 5, 6, 9, 14)) if k is None else k
    for j in range(k):
        c.add_chain(member(rng, f"chain {j}" if chance(rng, 0.5) else f"c{j}", cols, n, **force))
    if chance(rng, 0.5):
        c.set_override(override(rng))
    return c


@gen("c11.Final")
def _(rng, i):
    if i % 40 == 13:
        return {"self": crowd(rng, k=int(pick(rng, 11, 12, 60, 95)), n=1)}
    return {"self": crowd(rng)}


@gen("c11.Plain")
def _(rng, i):
    c = crowd(rng)
    c._global_chain_override = None
    return {"self": c}


@gen("c11.Overridden")
def _(rng, i):
    c = crowd(rng)
    c.set_override(override(rng))
    return {"self": c}


@gen("c11.Reversible")
def _(rng, i):
    from chainconsumer import ChainConfig, ChainConsumer

    c = ChainConsumer()
    pool = {f"c{j}": member(rng, f"c{j}") for j in range(6)}
    there, over = [], None
    for _ in range(int(rng.integers(1, 14))):
        op = int(rng.integers(6))
        nm = pick(rng, *pool)
        if op <= 1 and nm not in there:
            c.add_chain(pool[nm])
            there.append(nm)
        elif op == 2 and nm in there:
            c.remove_chain(nm)
            there.remove(nm)
        elif op == 3:
            over = override(rng)
            c.set_override(over)
        elif op == 4:
            over = ChainConfig()
            c.set_override(over)
        else:
            c._get_final_chains()
            c.plotter._sanitise_chains(None)
    fresh = ChainConsumer()
    for nm in there:
        fresh.add_chain(pool[nm])
    if over is not None:
        fresh.set_override(over)
    return {"self": c, "ghost_fresh": fresh}


@gen("c11.Override")
def _(rng, i):
    from chainconsumer import ChainConfig

    kw = config(rng)
    return {"self": ChainConfig(**kw), "ghost_kwargs": kw}


@gen("c11.Used")
def _(rng, i):
    c = crowd(rng)
    nm = c.get_names()
    sel = None if chance(rng, 0.4) else [x if chance(rng, 0.6) else c.get_chain(x) for x in subset(rng, nm, 0)] if nm else []
    return {"self": c.plotter, "chains": sel, "include_skip": chance(rng, 0.4)}


# ------------------------------------------------------------------ C22
def panel_chain(rng, name, pool):
    from chainconsumer import Chain
    from gens import good_table, grid_table

    kw = {}
    form = int(rng.integers(5))
    if form == 0:
        kw.update(plot_contour=False, plot_point=True)
        df = table(rng, int(pick(rng, 1, 3)), cols=subset(rng, pool), post=chance(rng, 0.85), weighted=chance(rng, 0.5))
    elif form == 1 and len(pool) >= 1:
        df = grid_table(rng)
        df.columns = [{"x": pool[0], "y": pool[-1] + ("" if len(pool) > 1 else "2")}.get(c, c) for c in df.columns]
        kw["grid"] = True
    else:
        df = good_table(rng, n=int(pick(rng, 30, 120)), cols=subset(rng, pool))
        if form == 2:
            kw.update(plot_cloud=True, plot_contour=chance(rng, 0.5), plot_point=chance(rng, 0.5))
            if "log_posterior" not in df and chance(rng, 0.5):
                df["log_posterior"] = rng.normal(size=len(df))
            if chance(rng, 0.6):
                kw["color_param"] = pick(rng, *list(df.columns))
        if form == 3:
            kw.update(plot_contour=False, plot_point=chance(rng, 0.7))
    return Chain(samples=df, name=name, **kw)


def panels(rng, k=None):
    from chainconsumer import ChainConsumer

    c = ChainConsumer()
    pool = names(rng, 4)
    for j in range(int(rng.integers(0, 5)) if k is None else k):
        c.add_chain(panel_chain(rng, f"c{j}", pool))
    return c, pool


@gen("c22.Columns")
def _(rng, i):
    c, pool = panels(rng)
    return {"self": c.plotter, "columns": None if chance(rng, 0.7) else subset(rng, pool, 0), "chains": list(c._chains.values())}


@gen("c22.ParameterExtents")
def _(rng, i):
    c, pool = panels(rng, int(rng.integers(1, 5)))
    return {"self": c.plotter, "column": pick(rng, *pool), "chains": list(c._chains.values()), "wide_extents": chance(rng, 0.6)}


def given_extents(rng, pool):
    return None if chance(rng, 0.3) else {p: (float(rng.normal()), float(rng.normal() + 5)) for p in subset(rng, pool + ["other"], 0)}


@gen("c22.CustomExtents")
def _(rng, i):
    c, pool = panels(rng, int(rng.integers(1, 5)))
    return {"self": c.plotter, "columns": subset(rng, pool), "chains": list(c._chains.values()), "initial_extents": given_extents(rng, pool),
            "wide_extents": chance(rng, 0.6)}


@gen("c22.Sanitised")
def _(rng, i):
    c, pool = panels(rng, int(rng.integers(1, 5)))
    nm = c.get_names()
    there = [p for p in pool if any(p in x.samples for x in c._chains.values())]
    return {"self": c.plotter, "chains": None if chance(rng, 0.6) else subset(rng, nm), "columns": None if chance(rng, 0.6) else subset(rng, there),
            "extents": given_extents(rng, pool), "blind": pick(rng, None, False, True, subset(rng, pool)), "log_scales": None if chance(rng, 0.5) else subset(rng, pool, 0),
            "wide_extents": chance(rng, 0.6)}
