"""Generators for the registry, importers and construction: C12, C21, C07, C08."""
import numpy as np
import pandas as pd

from gens import NAMES, POOL, chain, chance, consumer, gen, names, pick, table


def small(rng, name):
    return chain(rng, name=name, n=int(pick(rng, 1, 3, 6)))


@gen("c12.Add")
def _(rng, i):
    c = consumer(rng, n=3)
    return {"self": c, "chain": small(rng, pick(rng, *NAMES))}


@gen("c12.Remove")
def _(rng, i):
    return {"self": consumer(rng, n=3), "remove": pick(rng, *NAMES)}


@gen("c12.RemoveChain")
def _(rng, i):
    c = consumer(rng, n=3)
    own = list(c._chains.values())
    return {"self": c, "remove": pick(rng, *own) if own and chance(rng, 0.6) else small(rng, pick(rng, *NAMES))}


@gen("c12.Get")
def _(rng, i):
    return {"self": consumer(rng, n=3), "name": pick(rng, *NAMES)}


@gen("c12.Names")
def _(rng, i):
    return {"self": consumer(rng, n=3)}


def location(rng):
    ks = names(rng, int(rng.integers(1, 5)))
    return {k: float(pick(rng, 0.0, -1.5, 3e-9, 12345.678901234, rng.normal())) for k in ks}


def marker_kw(rng):
    kw = {}
    if chance(rng, 0.4):
        kw["marker_size"] = float(pick(rng, 5.0, 80.0))
    if chance(rng, 0.4):
        kw["marker_style"] = pick(rng, "x", "*")
    if chance(rng, 0.4):
        kw["marker_alpha"] = float(pick(rng, 0.1, 0.7))
    return kw


@gen("c12.Marker")
def _(rng, i):
    return {"self": consumer(rng, n=3), "location": location(rng), "name": pick(rng, *NAMES), "color": pick(rng, None, "red", "#abcdef"), "kwargs": {}, **marker_kw(rng)}


@gen("c12.History")
def _(rng, i):
    from chainconsumer import ChainConsumer

    c, model, points = ChainConsumer(), {}, {}
    for _ in range(int(rng.integers(1, 14))):
        op = int(rng.integers(5))
        nm = pick(rng, *NAMES[:4])
        ok = True
        try:
            if op <= 1:
                x = small(rng, nm)
                c.add_chain(x)
            elif op == 2:
                loc = location(rng)
                c.add_marker(loc, nm, **marker_kw(rng))
            elif op == 3:
                c.remove_chain(c.get_chain(nm) if nm in model and chance(rng, 0.5) else nm)
            else:
                c.get_chain(nm)
        except AssertionError:
            ok = False
        should = (nm not in model) if op <= 2 else (nm in model)
        if ok != should:
            model["the operation was wrongly " + ("accepted" if ok else "rejected")] = None
        if should:
            if op <= 1:
                model[nm] = x
                points.pop(nm, None)
            elif op == 2:
                model[nm] = None
                points[nm] = loc
            elif op == 3:
                model.pop(nm)
                points.pop(nm, None)
    return {"self": c, "ghost_model": model, "ghost_points": points}


# ------------------------------------------------------------------ C21
def var_list(rng, pool):
    form = int(rng.integers(8))
    if form == 0:
        return None
    if form == 1:
        return []
    k = int(rng.integers(1, len(pool) + 2))
    cand = list(pool) + ["absent", pool[0][:1], pool[0] + "x", ""]
    got = [cand[j] for j in rng.choice(len(cand), size=min(k, len(cand)), replace=False)]
    if chance(rng, 0.2):
        got.append(got[0])
    if form <= 4:
        return got
    if form <= 6:
        return ["~" + v for v in got]
    return [("~" + v) if chance(rng, 0.5) else v for v in got]


VARS = ["mu", "sigma", "m", "mu2", "tau~", "x y", "sig", "~z", "H0", "0"]


def variables(rng, pool=VARS):
    return [pool[j] for j in rng.permutation(len(pool))[: int(rng.integers(1, 6))]]


@gen("c21.Filter")
def _(rng, i):
    v = variables(rng)
    return {"var_names": var_list(rng, v), "all_vars": v}


class Emcee:
    """an ensemble sampler's public output: steps x walkers x dimensions, flattened as emcee does"""

    def __init__(self, a):
        self.a = a

    def get_chain(self, flat=False, thin=1, discard=0, **kw):
        v = self.a[discard + thin - 1 :: thin]
        return v.reshape(-1, self.a.shape[2]) if flat else v

    def __repr__(self):
        return f"Emcee{self.a.shape}"


class Numpyro:
    def __init__(self, d):
        self.d = d

    def get_samples(self, group_by_chain=False):
        return dict(self.d)

    def __repr__(self):
        return f"Numpyro{ {k: v.shape for k, v in self.d.items()} }"


def chain_kw(rng):
    kw = {}
    if chance(rng, 0.5):
        kw["walkers"] = 2
    if chance(rng, 0.5):
        kw["bins"] = 13
    if chance(rng, 0.5):
        kw["num_free_params"] = 3
    if chance(rng, 0.5):
        kw["linewidth"] = 2.5
    return kw


@gen("c21.Emcee")
def _(rng, i):
    steps, walkers, nd = int(pick(rng, 4, 10, 30)), int(pick(rng, 2, 4)), int(pick(rng, 1, 2, 4))
    cols = [VARS[j] for j in rng.permutation(len(VARS))[:nd]]
    return {"sampler": Emcee(rng.normal(size=(steps, walkers, nd))), "columns": cols, "name": pick(rng, "A", "b c"), "thin": int(pick(rng, 1, 1, 2)),
            "discard": int(pick(rng, 0, 0, 2)), "kwargs": chain_kw(rng)}


@gen("c21.Numpyro")
def _(rng, i):
    n = int(pick(rng, 2, 6, 20))
    v = variables(rng, [x for x in VARS if not x.startswith("~")])
    two = chance(rng, 0.3)
    return {"mcmc": Numpyro({k: rng.normal(size=(n, 2) if two else n) for k in v}), "name": "A", "var_names": var_list(rng, v), "kwargs": chain_kw(rng)}


@gen("c21.Arviz")
def _(rng, i):
    import arviz as az

    c, n = int(pick(rng, 1, 2, 4)), int(pick(rng, 2, 6))
    v = variables(rng, [x for x in VARS if "~" not in x])
    return {"arviz_id": az.from_dict(posterior={k: rng.normal(size=(c, n)) for k in v}), "name": "A", "var_names": var_list(rng, v),
            "kwargs": {k: x for k, x in chain_kw(rng).items() if k != "walkers" or True}}
