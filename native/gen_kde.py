"""Generators for the kernel density estimate and the 2D surfaces: C20, C16."""
import numpy as np

from gens import chance, draw_unit, gen, good_chain, grid_table, names, pick, plain_weights, subset


def training(rng, d=None):
    d = d or int(pick(rng, 1, 1, 2, 2, 3))
    n = int(pick(rng, d + 2, 6, 20, 80, 200))
    t = np.stack([(draw_unit(rng, n, pick(rng, "normal", "uniform", "skew", "bimodal")) + pick(rng, 0, 0, 20)) * 10.0 ** pick(rng, 0, 0, -3, 3) for _ in range(d)], axis=1)
    if d > 1 and chance(rng, 0.5):
        t = t.copy()
        t[:, 1] += 0.7 * t[:, 0] / np.std(t[:, 0]) * np.std(t[:, 1])
    if d == 1 and chance(rng, 0.6):
        t = t[:, 0]
    return t


def made(rng):
    from chainconsumer.kde import MegKDE

    t = training(rng)
    w = None if chance(rng, 0.3) else plain_weights(rng, len(t))
    f = float(pick(rng, 1.0, 1.0, 0.5, 2.0, 0.1))
    kw = {"factor": f}
    if chance(rng, 0.4):
        kw["truncation"] = float(pick(rng, 1.0, 2.0, 5.0, 0.3))
    if chance(rng, 0.4):
        kw["nmin"] = int(pick(rng, 1, 2, 3, 8))
    return MegKDE(t, w, **kw), t, f


@gen("c20.Build")
def _(rng, i):
    t = training(rng)
    return {"train": t, "weights": None if chance(rng, 0.3) else plain_weights(rng, len(t)), "truncation": float(pick(rng, 3.0, 2.0)), "nmin": int(pick(rng, 4, 2)),
            "factor": float(pick(rng, 1.0, 0.5, 2.0))}


def points(rng, t):
    tt = t.reshape(-1, 1) if t.ndim == 1 else t
    m = int(pick(rng, 1, 3, 12))
    base = tt[rng.integers(0, len(tt), m)]
    x = base + rng.normal(size=base.shape) * tt.std(axis=0) * pick(rng, 0.0, 0.2, 1.0, 6.0)
    return x[:, 0] if t.ndim == 1 and chance(rng, 0.7) else x


@gen("c20.Evaluate")
def _(rng, i):
    k, t, f = made(rng)
    return {"self": k, "data": points(rng, t), "ghost_train": t, "ghost_factor": f}


@gen("c20.Pure")
def _(rng, i):
    k, t, f = made(rng)
    return {"self": k, "data": points(rng, t)}


# ------------------------------------------------------------------ C16
@gen("c16.Fraction")
def _(rng, i):
    sh = (int(pick(rng, 1, 2, 5, 12)), int(pick(rng, 1, 3, 7, 12)))
    k = int(rng.integers(5))
    x = np.abs(rng.normal(size=sh)) if k < 2 else rng.integers(0, 4, sh).astype(float) if k == 2 else np.exp(rng.normal(size=sh) * 5) if k == 3 else rng.uniform(0.5, 1, sh)
    if k == 2 and x.sum() == 0:
        x[0, 0] = 1.0
    return {"sigma": x}


@gen("c16.Levels")
def _(rng, i):
    from chainconsumer import PlotConfig

    s = pick(rng, [0, 1, 2], [0, 1, 2, 3], [1], [0, 0.5, 1.7], [0.1, 2.5])
    return {"sigmas": s, "config": PlotConfig(sigma2d=chance(rng, 0.5))}


def flat(rng, **kw):
    force = dict(grid=chance(rng, 0.2), areas=False)
    force.update(kw)
    if not force["grid"]:
        force.setdefault("cols", names(rng, int(pick(rng, 2, 3))))
        return good_chain(rng, **force)
    df = grid_table(rng)
    while "y" not in df:
        df = grid_table(rng)
    return good_chain(rng, samples=df, **force)


def two(rng, c):
    cols = [x for x in c.samples.columns if x not in ("weight", "log_posterior")]
    return [cols[j] for j in rng.permutation(len(cols))[:2]]


@gen("c16.Surface")
def _(rng, i):
    kd = i % 6 == 0
    c = flat(rng, kde=pick(rng, True, 1.0, 0.5, 2.0), n=60, bins=5, smooth=int(pick(rng, 0, 1, 2)), grid=False) if kd else flat(rng, kde=False)
    px, py = two(rng, c)
    if not kd and not c.grid and chance(rng, 0.3):
        # outliers of negligible weight
        j = rng.integers(0, len(c.samples), 2)
        for p in subset(rng, [px, py]):
            x = c.samples[p]
            c.samples.iloc[j, list(c.samples.columns).index(p)] = float(x.mean() + pick(rng, -30, 30) * x.std())
        c.samples.iloc[j, list(c.samples.columns).index("weight")] = 1e-9 * float(c.samples["weight"].min())
    return {"chain": c, "px": px, "py": py}


class Axes:
    """a stand-in for a matplotlib axes that records what is drawn on it"""

    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)

        def call(*a, **k):
            self.calls.append((name, tuple(np.array(x, copy=True) if isinstance(x, np.ndarray) else x for x in a), k))
            return Drawn(k.get("levels", ()))

        return call


class Drawn:
    def __init__(self, levels):
        self.levels = levels

    def __iter__(self):
        return iter(())


@gen("c16.Drawn")
def _(rng, i):
    from chainconsumer import PlotConfig

    c = flat(rng, kde=False, n=60, sigmas=pick(rng, [0, 1, 2], [1, 2], [0, 0.5, 1.5, 3]), shade=chance(rng, 0.6), shade_alpha=float(pick(rng, 0.0, 0.5, 1.0)), color="red",
             show_contour_labels=chance(rng, 0.3))
    px, py = two(rng, c)
    return {"ax": Axes(), "chain": c, "px": px, "py": py, "config": pick(rng, None, PlotConfig(sigma2d=True), PlotConfig())}
