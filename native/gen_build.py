"""Generators for construction and division: C07, C08."""
import numpy as np
import pandas as pd

from gens import chain, chance, extras, gen, names, pick, table


def spoil(rng, df, wc):
    """break one invariant of a table"""
    k = int(rng.integers(8))
    if k == 0:
        return df.iloc[:0]
    r = int(rng.integers(len(df)))
    c = int(rng.integers(len(df.columns)))
    if k in (1, 2, 3):
        df.iloc[r, c] = [np.nan, np.inf, -np.inf][k - 1]
    elif k in (4, 5) and wc in df.columns:
        df.iloc[r, list(df.columns).index(wc)] = [0.0, -1.0][k - 4]
    elif k == 6:
        df = df.rename(columns={df.columns[c]: 7})
    elif k == 7 and wc in df.columns:
        df = df.drop(columns=[wc])
    return df


@gen("c07.Construct")
def _(rng, i):
    n = int(pick(rng, 1, 2, 3, 4, 6, 12, 40))
    wc = pick(rng, "weight", "weight", "weight", "wts")
    pc = pick(rng, "log_posterior", "log_posterior", "lp")
    df = table(rng, n=n, weight_column=wc, posterior_column=pc)
    if chance(rng, 0.2):
        # extra columns whose names are reserved in any case
        df[pick(rng, "Weights", "posterior", "LOG_POSTERIOR", "log_weights", "weight")] = np.abs(rng.normal(size=n)) + 0.1
    if chance(rng, 0.2):
        for c in df.columns[:1]:
            df[c] = rng.integers(1, 9, n)
    if chance(rng, 0.3):
        df = spoil(rng, df, wc)
    walkers = int(pick(rng, 1, 1, 2, 3, 4, n))
    cp = pick(rng, None, None, None, "absent", *list(df.columns)) if len(df.columns) else None
    return {"samples": df, "name": pick(rng, "A", "b c"), "weight_column": wc, "posterior_column": pc, "walkers": walkers,
            "color_param": cp if cp is None or isinstance(cp, str) else None, "shift_params": chance(rng, 0.4),
            # options that must not matter to what is accepted and kept
            **{k: v for k, v in (("grid", True), ("plot_cloud", True), ("plot_contour", False), ("plot_point", True), ("smooth", 2), ("bins", 11), ("power", 2.0),
                                 ("num_free_params", 3), ("kde", 1.5)) if chance(rng, 0.25)}}


@gen("c07.Options")
def _(rng, i):
    df = table(rng, n=int(pick(rng, 1, 4, 6)))
    return {"samples": df, "name": "A", "summary_area": pick(rng, 0.0, 1.0, 0.5, 0.6827, -0.1, 1.0001, 2), "num_free_params": pick(rng, None, 0, 3, -1),
            "num_eff_data_points": pick(rng, None, 0, 2.5, 100, -0.5), "walkers": int(pick(rng, 1, 2, 0, -1)),
            "color_param": pick(rng, None, None, "weight", "absent", *list(df.columns))}


@gen("c07.Parameters", "c07.Plotting")
def _(rng, i):
    c = chain(rng, n=3)
    if chance(rng, 0.4):
        c.samples[pick(rng, "Weights", "posterior", "LOG_POSTERIOR", "log_weights", "weighty", "log_posteriors")] = 1.0
    if chance(rng, 0.5):
        c.plot_cloud = True
    if chance(rng, 0.5):
        c.color_param = pick(rng, *list(c.samples.columns))
    return {"self": c}


@gen("c08.Divide")
def _(rng, i):
    w = int(pick(rng, 1, 2, 2, 3, 4, 5, 11, 13))
    n = w * int(pick(rng, 1, 2, 3, 7, 20))
    kw = {"walkers": w, "shift_params": chance(rng, 0.3)}
    if chance(rng, 0.15):
        kw["grid"] = True
    if chance(rng, 0.4):
        kw["power"] = 2.0
    if chance(rng, 0.3):
        kw["kde"] = pick(rng, True, 1.5)
    if chance(rng, 0.3):
        kw["multimodal"] = True
    elif chance(rng, 0.3):
        from chainconsumer.statistics import SummaryStatistic as S

        kw["statistics"] = pick(rng, *list(S))
    for k, v in (("plot_cloud", True), ("plot_contour", False), ("plot_point", True), ("smooth", 2), ("bins", 11), ("show_label_in_legend", False)):
        if chance(rng, 0.25):
            kw[k] = v
    c = chain(rng, name=pick(rng, "A", "b c", "10"), n=n, **kw)
    if chance(rng, 0.3):
        c.color_param = pick(rng, *list(c.samples.columns))
    return {"self": c}
