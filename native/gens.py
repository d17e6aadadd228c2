"""Seeded case generators: for each contract, concrete arguments for its target (deterministic in seed and index)."""
from __future__ import annotations

import ast
import os
import zlib

import numpy as np
import pandas as pd

import rt

GENS = {}


def gen(*ids):
    def deco(f):
        for i in ids:
            GENS[i] = f
        return f

    return deco


def has(cid, con):
    return cid in GENS


def make(cid, con, seed, index):
    rng = np.random.default_rng([seed, zlib.crc32(cid.encode()) & 0x7FFFFFFF, index])
    return GENS[cid](rng, index)


# ------------------------------------------------------------------ literals of the code under test (steer the generators)
_LITS = None


def literals():
    """numeric and string literals of the current source, mixed into generated inputs"""
    global _LITS
    if _LITS is None:
        nums, strs = set(), set()
        root = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src", "chainconsumer")
        for dp, _, fs in os.walk(root):
            for fn in fs:
                if fn.endswith(".py"):
                    try:
                        t = ast.parse(open(os.path.join(dp, fn)).read())
                    except SyntaxError:
                        continue
                    for n in ast.walk(t):
                        if isinstance(n, ast.Constant):
                            if isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                                nums.add(n.value)
                            elif isinstance(n.value, str) and 0 < len(n.value) <= 20:
                                strs.add(n.value)
        _LITS = (sorted(nums), sorted(strs))
    return _LITS


POOL = ["a", "b", "c", "x", "y", "z", "omega_m", r"$\Omega_\Lambda$", "H0", "weight_x", "p0", "w0", "10", "A b", "aa", "Zeta"]


def names(rng, k):
    return [POOL[i] for i in rng.choice(len(POOL), size=k, replace=False)]


def pick(rng, *xs):
    return xs[int(rng.integers(len(xs)))]


def chance(rng, p):
    return bool(rng.random() < p)


SHAPES = ["normal", "uniform", "skew", "bimodal", "spiky", "const-ish"]


def draw(rng, n, shape=None):
    shape = shape or SHAPES[int(rng.integers(len(SHAPES)))]
    if shape == "normal":
        x = rng.normal(size=n)
    elif shape == "uniform":
        x = rng.uniform(-1, 1, size=n)
    elif shape == "skew":
        x = rng.gamma(1.3, size=n)
    elif shape == "bimodal":
        x = np.where(rng.random(n) < rng.uniform(0.2, 0.8), rng.normal(-3, 0.5, n), rng.normal(3, 0.7, n))
    elif shape == "spiky":
        x = rng.standard_t(3, size=n)
    else:
        x = rng.normal(0, 1e-3, size=n) + rng.integers(0, 2, n) * 1e-2
    scale = 10.0 ** pick(rng, 0, 0, 0, 0, -4, 3, 6, -9)
    shift = pick(rng, 0, 0, 1, -5, 100.0)
    return (x + shift) * scale


def weights(rng, n):
    k = rng.integers(5)
    if k == 0:
        return np.ones(n)
    if k == 1:
        return np.full(n, 3.5)
    if k == 2:
        return rng.uniform(0.1, 2, n)
    if k == 3:
        return rng.integers(1, 50, n).astype(float)
    return np.exp(rng.normal(0, 2, n))


def table(rng, n=None, cols=None, shape=None, weighted=None, post=None, index=True, weight_column="weight", posterior_column="log_posterior"):
    n = n or int(pick(rng, 1, 2, 3, 5, 8, 20, 60, 200))
    cols = cols if cols is not None else names(rng, int(rng.integers(1, 5)))
    d = {c: draw(rng, n, shape) for c in cols}
    parts = list(d.items())
    if weighted or (weighted is None and chance(rng, 0.6)):
        parts.insert(int(rng.integers(len(parts) + 1)), (weight_column, weights(rng, n)))
    if post or (post is None and chance(rng, 0.6)):
        parts.insert(int(rng.integers(len(parts) + 1)), (posterior_column, -np.abs(draw(rng, n, "normal")) * 3 - rng.uniform(0, 5)))
    df = pd.DataFrame(dict(parts))
    if index and n > 1:
        k = rng.integers(6)
        if k == 1:
            df.index = np.arange(n)[::-1]
        elif k == 2:
            df.index = rng.permutation(n)
        elif k == 3:
            df.index = [int(x) for x in rng.integers(0, max(2, n // 2), n)]
        elif k == 4:
            df.index = [f"r{i}" for i in range(n)]
        elif k == 5:
            df = df.sort_values(by=df.columns[0])
    return df


def extras(rng, cols, n, level=1.0):
    """a random subset of chain options"""
    kw = {}
    p = 0.15 * level

    def maybe(name, *vals):
        if chance(rng, p):
            kw[name] = pick(rng, *vals)

    maybe("summary_area", 0.5, 0.6827, 0.9, 0.95, 0.3)
    maybe("sigmas", [0, 1], [1, 2, 3], [0, 0.5, 1.7])
    maybe("color", "red", "#123456", "g", "blue")
    maybe("linestyle", "--", ":")
    maybe("linewidth", 2.0, 0.5)
    maybe("show_contour_labels", True)
    maybe("shade", True, False)
    maybe("shade_alpha", 0.1, 0.8)
    maybe("shade_gradient", 0.5)
    maybe("bar_shade", True, False)
    maybe("bins", 10, 37)
    maybe("smooth", 0, 1, 5)
    maybe("cmap", "plasma")
    maybe("num_cloud", 50, 1e4)
    maybe("marker_style", "o", "x")
    maybe("marker_size", 5.0)
    maybe("marker_alpha", 0.5)
    maybe("zorder", 3)
    maybe("show_label_in_legend", False)
    maybe("histogram_relative_height", 0.5)
    return kw


def chain(rng, name="chain", n=None, cols=None, level=1.0, **force):
    from chainconsumer import Chain

    post_name = force.pop("posterior_column", None) or pick(rng, "log_posterior", "log_posterior", "log_posterior", "lp")
    weight_name = force.pop("weight_column", None) or pick(rng, "weight", "weight", "weight", "wts")
    weighted = force.pop("weighted", None)
    if weight_name != "weight":
        weighted = True
    df = force.pop("samples", None)
    if df is None:
        df = table(rng, n, cols, shape=force.pop("shape", None), weighted=weighted, post=force.pop("post", None),
                   index=force.pop("index", True), weight_column=weight_name, posterior_column=post_name)
    kw = extras(rng, [c for c in df.columns], len(df), level)
    if chance(rng, 0.5):
        kw["num_free_params"] = int(pick(rng, 0, 1, 2, 5))
    if chance(rng, 0.5):
        kw["num_eff_data_points"] = float(pick(rng, 10, 50, 1000.5))
    if chance(rng, 0.3):
        ws = [w for w in (2, 3, 4, 5, 8) if len(df) % w == 0]
        if ws:
            kw["walkers"] = int(pick(rng, *ws))
    kw.update(force)
    kw = {k: v for k, v in kw.items() if v is not ...}
    return Chain(samples=df, name=name, weight_column=weight_name, posterior_column=post_name, **kw)


NAMES = ["A", "A2", "B b", "C_c", "10", "C_c prior", "e%", "F&", "a", "100"]


def consumer(rng, k=None, n=None, cols=None, **force):
    from chainconsumer import ChainConsumer

    c = ChainConsumer()
    k = int(rng.integers(0, 5)) if k is None else k
    nm = NAMES
    order = rng.permutation(len(nm))
    pool = cols or names(rng, 4)
    for i in range(k):
        sub = [pool[j] for j in rng.choice(len(pool), size=int(rng.integers(1, len(pool) + 1)), replace=False)] if cols is None else cols
        c.add_chain(chain(rng, name=nm[order[i]], n=n, cols=sub, **dict(force)))
    return c


# ------------------------------------------------------------------ C01
@gen("c01.Aic", "c01.Bic", "c01.Dic")
def _(rng, i):
    return {"self": consumer(rng, k=int(pick(rng, 0, 1, 2, 2, 3, 4)), n=int(pick(rng, 1, 3, 6, 20))).comparison}


# ------------------------------------------------------------------ C10
def peaky(rng, **kw):
    """a chain whose posterior may tie or have one sample"""
    c = chain(rng, **kw)
    if c.posterior_column in c.samples and chance(rng, 0.3):
        c.samples[c.posterior_column] = np.round(c.samples[c.posterior_column])
    return c


@gen("c10.Row", "c10.Point")
def _(rng, i):
    kw = {}
    if chance(rng, 0.4):
        kw["plot_cloud"] = True
    c = peaky(rng, **kw)
    if chance(rng, 0.4):
        c.color_param = pick(rng, *list(c.samples.columns))
    return {"self": c}


@gen("c10.Collect")
def _(rng, i):
    return {"self": consumer(rng, n=int(pick(rng, 1, 3, 6, 20))).analysis, "chains": None}


@gen("c10.CollectNamed")
def _(rng, i):
    c = consumer(rng, n=int(pick(rng, 1, 3, 6, 20)))
    nm = c.get_names()
    return {"self": c.analysis, "chains": [nm[j] for j in rng.permutation(len(nm))[: int(rng.integers(0, len(nm) + 1))]]}


# ------------------------------------------------------------------ C09
def subset(rng, cols, least=1):
    cols = list(cols)
    k = int(rng.integers(min(least, len(cols)), len(cols) + 1))
    return [cols[j] for j in rng.permutation(len(cols))[:k]]


@gen("c09.Covariance", "c09.Correlation")
def _(rng, i):
    c = chain(rng, n=int(pick(rng, 2, 3, 5, 20, 60)), **({"plot_cloud": True} if chance(rng, 0.5) else {}))
    if chance(rng, 0.4):
        c.color_param = pick(rng, *list(c.samples.columns))
    return {"self": c, "columns": None if chance(rng, 0.4) else subset(rng, c.samples.columns)}


# ------------------------------------------------------------------ marginals
def plain_weights(rng, n):
    k = rng.integers(4)
    if k == 0:
        return np.ones(n)
    if k == 1:
        return np.full(n, 3.5)
    if k == 2:
        return rng.uniform(0.1, 2, n)
    return rng.integers(1, 9, n).astype(float)


def good_table(rng, n=None, cols=None, shape=None, scale=None, post=None):
    """a table whose columns all have a proper extent"""
    n = n or int(pick(rng, 60, 120, 300, 800))
    cols = cols if cols is not None else names(rng, int(rng.integers(1, 4)))
    d = {}
    for c in cols:
        sh = shape or pick(rng, "normal", "uniform", "skew", "bimodal")
        s = 10.0 ** pick(rng, 0, 0, 0, -5, 4) if scale is None else scale
        x = draw_unit(rng, n, sh)
        d[c] = (x + pick(rng, 0, 0, 3, -10)) * s
    parts = list(d.items())
    parts.insert(int(rng.integers(len(parts) + 1)), ("weight", plain_weights(rng, n)))
    if post or (post is None and chance(rng, 0.5)):
        parts.append(("log_posterior", -np.abs(rng.normal(size=n)) * 3))
    df = pd.DataFrame(dict(parts))
    if chance(rng, 0.3):
        df.index = rng.permutation(n)
    return df


def draw_unit(rng, n, sh):
    if sh == "normal":
        return rng.normal(size=n)
    if sh == "uniform":
        return rng.uniform(-1, 1, size=n)
    if sh == "skew":
        return rng.gamma(1.3, size=n)
    return np.where(rng.random(n) < rng.uniform(0.3, 0.7), rng.normal(-3, 0.4, n), rng.normal(3, 0.6, n))


def grid_table(rng, post=None):
    """samples on a regular grid, weighted by a density"""
    k = int(pick(rng, 2, 3, 4))
    nx = int(pick(rng, 7, 15, 30))
    x0, dx = rng.normal() * 3, 10.0 ** pick(rng, 0, 0, -3, 2) * rng.uniform(0.2, 2)
    ax = [x0 + dx * np.arange(nx), -1.5 + 0.25 * np.arange(int(pick(rng, 5, 9)))]
    if k == 2:
        g = np.array(np.meshgrid(*ax, indexing="ij")).reshape(2, -1)
        z0 = (g[0] - ax[0][nx // 3]) / (dx * nx / 5)
        w = np.exp(-0.5 * z0**2 - 0.5 * g[1] ** 2) + 1e-3
        df = pd.DataFrame({"x": g[0], "y": g[1], "weight": w})
    else:
        z = (ax[0] - ax[0][nx // 3]) / (dx * nx / 5)
        df = pd.DataFrame({"x": ax[0], "weight": np.exp(-0.5 * z**2) + 1e-3})
    if chance(rng, 0.5):
        df = df.iloc[rng.permutation(len(df))]
    if post:
        df["log_posterior"] = np.log(df["weight"])
    return df


AREAS = [0.6827, 0.6827, 0.5, 0.9, 0.95, 0.3, 0.05, 0.99, 1.0, 0.0]


def good_chain(rng, name="chain", grid=None, kde=None, areas=True, **force):
    """a chain with a usable marginal in every column and varied histogram settings"""
    from chainconsumer import Chain

    kw = {}
    grid = chance(rng, 0.15) if grid is None else grid
    df = force.pop("samples", None)
    sub = {k: force.pop(k) for k in ("n", "cols", "shape", "scale", "post") if k in force}
    if df is None:
        df = grid_table(rng, sub.get("post")) if grid else good_table(rng, **sub)
    kw["grid"] = bool(grid)
    if areas:
        kw["summary_area"] = float(pick(rng, *AREAS)) if chance(rng, 0.7) else float(np.round(rng.uniform(0, 1), 3))
    if chance(rng, 0.3):
        kw["smooth"] = int(pick(rng, 0, 1, 2, 5))
    if chance(rng, 0.3):
        kw["bins"] = int(pick(rng, 5, 10, 23, 60))
    if chance(rng, 0.3):
        kw["power"] = float(pick(rng, 0.5, 2.0, 1.0, 1.7))
    k = (chance(rng, 0.15) if kde is None else kde)
    if k:
        kw["kde"] = k if not isinstance(k, bool) or kde is None or chance(rng, 0.6) else float(pick(rng, 0.5, 1.5, 2.0))
    kw.update(force)
    return Chain(samples=df, name=name, **kw)


import glob  # noqa: E402
import importlib  # noqa: E402

for _f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "gen_*.py"))):
    importlib.import_module(os.path.basename(_f)[:-3])
