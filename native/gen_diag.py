"""Generators for C02."""
import numpy as np
import pandas as pd

from gens import chain, chance, consumer, gen, names, pick


def walked(rng, name="chain", walkers=None, n=None, k=None, off=None, **kw):
    """a chain of several walkers, converged or not"""
    from chainconsumer import Chain

    w = walkers or int(pick(rng, 2, 3, 4, 5, 8))
    n = n or int(pick(rng, 2, 5, 10, 40, 200))
    k = k or int(pick(rng, 1, 2, 3))
    steady = off is not None
    off = off if steady else pick(rng, 0, 0, 0.1, 0.3, 1.0)
    s = 10.0 ** pick(rng, 0, 0, -6, 4)
    d = {c: (rng.normal(size=w * n) + np.repeat(rng.normal(size=w) * off, n) + pick(rng, 0, 5)) * s for c in names(rng, k)}
    if not steady and chance(rng, 0.3):
        j = pick(rng, *d)
        d[j] = d[j] + np.linspace(0, pick(rng, 0.5, 3) * s, w * n)
    if chance(rng, 0.5):
        d["weight"] = rng.uniform(0.5, 2, w * n)
    if chance(rng, 0.4):
        d["log_posterior"] = rng.normal(size=w * n)
    df = pd.DataFrame(d)
    if chance(rng, 0.3):
        df.index = rng.permutation(w * n)
    return Chain(samples=df, name=name, walkers=w, **kw)


def many(rng, count, **kw):
    from chainconsumer import ChainConsumer

    c = ChainConsumer()
    # often all but one chain, anywhere among them, has converged
    odd = int(rng.integers(0, count)) if not kw and chance(rng, 0.4) else None
    for i, nm in enumerate(["b", "a", "C c", "z"][:count]):
        c.add_chain(walked(rng, name=nm, **(kw if odd is None else {"n": 200, "off": 1.5 if i == odd else 0})))
    return c


THR = [0.05, 0.05, 0.01, 0.1, 0.5, 0.002]


@gen("c02.GelmanRubin")
def _(rng, i):
    c = walked(rng, walkers=1 if chance(rng, 0.05) else None)
    return {"self": many(rng, 1).diagnostic, "chains": c, "threshold": pick(rng, *THR)}


@gen("c02.GelmanRubinMany")
def _(rng, i):
    c = many(rng, int(pick(rng, 2, 3, 4)))
    return {"self": c.diagnostic, "chains": list(c._chains.values()), "threshold": pick(rng, *THR)}


def request(rng, c):
    nm = list(c._chains)
    k = rng.integers(4)
    if k == 0:
        return None
    if k == 1:
        return pick(rng, *nm)
    if k == 2:
        return [nm[j] for j in rng.permutation(len(nm))[: int(rng.integers(1, len(nm) + 1))]]
    return [c._chains[x] if chance(rng, 0.5) else x for x in nm]


@gen("c02.GelmanRubinNamed")
def _(rng, i):
    c = many(rng, int(pick(rng, 1, 2, 3)))
    return {"self": c.diagnostic, "chains": request(rng, c), "threshold": pick(rng, *THR)}


@gen("c02.Geweke")
def _(rng, i):
    k = int(pick(rng, 1, 2, 3, 4))
    c = many(rng, int(pick(rng, 1, 1, 2, 3, 3)), walkers=int(pick(rng, 8, 10, 20)) if k < 4 else int(pick(rng, 2, 4)), k=k, n=int(pick(rng, 60, 100, 200)))
    return {"self": c.diagnostic, "chains": request(rng, c), "first": pick(rng, 0.1, 0.1, 0.2, 0.3), "last": pick(rng, 0.5, 0.5, 0.3, 0.4),
            "threshold": pick(rng, 0.05, 0.05, 0.3, 0.7, 1e-4)}


@gen("c02.Columns")
def _(rng, i):
    c = chain(rng)
    if chance(rng, 0.5):
        c.samples = c.samples.rename(columns={c.samples.columns[0]: pick(rng, "Weights", "POSTERIOR", "log_weights", "log_Posteriors", "weighty", "posterior")})
    return {"self": c}
