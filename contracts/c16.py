"""C16: contours enclose the stated fraction of probability."""
from contracts.c15 import bins_of, grid_edges, n_edges, smoothing
from contracts.c20 import shape2


class Fraction:
    """each cell holds the mass fraction of itself and of all cells ranked at least as dense"""
    target = "plotting.contours._convert_to_stdev"
    props = ["C16"]
    types = {"sigma": "arr2[real]"}

    def requires(sigma):
        x = np.ravel(sigma)
        return [forall(len(x), lambda i: x[i] >= 0), exists(len(x), lambda i: x[i] > 0)]

    def old(sigma):
        return np.array(sigma)

    def ensures(sigma, old, result):
        if NATIVE:
            return fractions(sigma, old, result)
        x, v = np.ravel(old), np.ravel(result)
        n = len(x)
        order = np.argsort(x)[::-1]
        rank = np.argsort(order)
        t = x[order]
        c = np.cumsum(t)
        return [
            result.shape[0] == old.shape[0] and result.shape[1] == old.shape[1],
            # `order` lists every cell once, densest first, and the values along it are the running fractions of the mass
            forall(n - 1, lambda k: t[k] >= t[k + 1]),
            forall(n, lambda k: 0 <= order[k] and order[k] < n),
            forall(n, lambda i: 0 <= rank[i] and rank[i] < n and order[rank[i]] == i),
            forall(n, lambda k: eq(v[order[k]], c[k] / c[n - 1])),
            # so the values grow as the density falls, up to one
            forall(n - 1, lambda k: v[order[k]] <= v[order[k + 1]]),
            # the least dense cell has the value one: the densest cell has mass, so the total is positive
            forall(n, lambda i: x[i] == t[rank[i]] and t[rank[i]] <= t[0]),
            c[0] == t[0] and c[n - 1] >= c[0],
            forall(n, lambda i: implies(x[i] == t[rank[i]] and t[rank[i]] <= t[0] and c[0] == t[0] and c[n - 1] >= c[0] and x[i] > 0, eq(v[order[n - 1]], 1))),
            forall(n, lambda i: x[i] >= 0 and v[i] >= 0 and v[i] <= 1 + 1e-9),
            forall(len(x), lambda i: np.ravel(sigma)[i] == x[i]),
        ]

    def ensures_native_levels(sigma, old, result):
        """the cells below a level p are the densest ones and hold at most p of the mass"""
        x, v = old.ravel(), np.asarray(result).ravel()
        out = []
        for p in (0.1, 0.393, 0.6827, 0.95):
            s = v <= p
            out.append(x[s].sum() <= p * x.sum() * (1 + 1e-9))
            out.append(not s.any() or s.all() or x[s].min() >= x[~s].max())
        return out


def fractions(sigma, old, result):
    x, v = old.ravel(), np.asarray(result).ravel()
    order = np.lexsort((-x, v))
    c = np.cumsum(x[order]) / x.sum()
    return [
        result.shape == old.shape,
        cells_same(sigma, old),
        # ranked by density, the values are the running fractions
        bool(np.all(np.diff(x[order]) <= 0)) or monotone_up_to_rounding(x, v),
        bool(np.all(np.abs(np.sort(v) - np.cumsum(np.sort(x)[::-1]) / x.sum()) <= 1e-9)),
        bool(np.all(np.abs(v[order] - c) <= 1e-9)),
        bool(np.all(v <= 1 + 1e-9)) and bool(np.all(v >= 0)),
    ]


def cells_same(a, b):
    return bool((np.asarray(a) == b).all())


def monotone_up_to_rounding(x, v):
    """a denser cell never has a larger value, apart from cells whose mass vanishes against the total"""
    order = np.argsort(-x, kind="stable")
    return bool(np.all(np.diff(v[order]) >= -1e-12))


class Levels:
    """the requested sigmas as probabilities under the configured convention"""
    target = "plotting.contours._get_levels"
    props = ["C16"]
    types = {"sigmas": "list[real]"}

    def ensures(sigmas, config, result):
        return [len(result) == len(sigmas), forall(len(sigmas), lambda i: eq(result[i], probability(sigmas[i], config.sigma2d), 1e-12))]


def probability(s, two_dimensional):
    """the probability within s sigma of a two or one dimensional Gaussian"""
    if two_dimensional:
        return 1 - np.exp(-0.5 * s**2)
    return 2 * norm.cdf(s) - 1


def edges2(chain, column):
    from chainconsumer.helpers import get_extents

    x = chain.samples[column]
    if chain.grid:
        return grid_edges(x)
    lo, hi = get_extents(x, chain.samples[chain.weight_column].to_numpy())
    return np.linspace(lo, hi, n_edges(smoothing(chain), bins_of(chain)))


def weighted_counts(x, y, w, ex, ey):
    """the weight in each cell (half open, the last one closed)"""
    nx, ny = len(ex) - 1, len(ey) - 1
    i = np.where(x == ex[-1], nx - 1, np.searchsorted(ex, x, side="right") - 1)
    j = np.where(y == ey[-1], ny - 1, np.searchsorted(ey, y, side="right") - 1)
    ok = (i >= 0) & (i < nx) & (j >= 0) & (j < ny)
    h = np.zeros((nx, ny))
    np.add.at(h, (i[ok], j[ok]), w[ok])
    return h


class Surface:
    target = "helpers.get_smoothed_histogram2d"
    props = ["C16"]
    native_only = True

    def requires(chain, px, py):
        out = [px != py]
        for p in (px, py):
            e = edges2(chain, p)
            out.append(len(e) >= 3 and e[0] < e[-1])
        return out

    def ensures(chain, px, py, result):
        h, cx, cy = result
        ex, ey = edges2(chain, px), edges2(chain, py)
        x, y = chain.samples[px].to_numpy(), chain.samples[py].to_numpy()
        w = chain.samples[chain.weight_column].to_numpy()
        if chain.kde:
            return surface_kde(chain, x, y, w, ex, ey, h, cx, cy)
        # the first axis is x, the second y
        want = weighted_counts(x, y, w, ex, ey) ** chain.power
        s = smoothing(chain)
        if s:
            want = gaussian_filter(want, s, mode="reflect")
        top = want.max()
        return [
            eq(np.asarray(cx), (ex[1:] + ex[:-1]) / 2, 1e-9, np.abs(ex).max()), eq(np.asarray(cy), (ey[1:] + ey[:-1]) / 2, 1e-9, np.abs(ey).max()),
            h.shape == want.shape,
            # a value on a bin edge may fall to either side when the edges differ by rounding
            bool(np.abs(h - want).sum() <= 1e-6 * want.sum()) or bool(np.mean(np.abs(h - want) > 1e-9 * top) < 0.05),
            bool((h >= 0).all()),
        ]


def surface_kde(chain, x, y, w, ex, ey, h, cx, cy):
    t = np.stack([x, y], axis=1).astype(float)
    n = len(t)
    factor = float(chain.kde)
    mean = (t * w[:, None]).sum(axis=0) / w.sum()
    c = t - mean
    cov = (c * w[:, None]).T @ c / (w.sum() - (w**2).sum() / w.sum())
    inv = np.linalg.inv(cov)
    sigma = 2.0 * factor * n ** (-1.0 / 6)
    out = [cx[0] >= ex[0] - 1e-9 * abs(ex[0]) and cx[-1] <= ex[-1] + 1e-9 * abs(ex[-1]), h.shape == (len(cx), len(cy)), bool((h >= 0).all()),
           eq(np.asarray(cx), np.linspace(ex[0], ex[-1], len(cx)), 1e-9, np.abs(ex).max()), eq(np.asarray(cy), np.linspace(ey[0], ey[-1], len(cy)), 1e-9, np.abs(ey).max())]
    for i in range(0, len(cx), max(1, len(cx) // 7)):
        for j in range(0, len(cy), max(1, len(cy) // 7)):
            e = t - np.array([cx[i], cy[j]])
            m2 = np.einsum("ij,jk,ik->i", e, inv, e)
            inside = np.sqrt(np.maximum(m2, 0)) < sigma * 3.0
            if inside.sum() < 5 or np.any(np.abs(np.sqrt(np.maximum(m2, 0)) - 3 * sigma) < 1e-7):
                continue
            want = float((w[inside] * np.exp(-0.5 * m2[inside] / sigma**2)).sum()) ** chain.power
            out.append(abs(float(h[i, j]) - want) <= 1e-6 * want)
    return out


class Drawn:
    """the contours drawn for a chain are those of its surface at its own levels, x on the horizontal axis"""
    target = "plotting.contours.plot_contour"
    props = ["C16"]
    native_only = True

    def ensures(ax, chain, px, py, config):
        from chainconsumer.helpers import get_smoothed_histogram2d
        from chainconsumer.plotting.config import PlotConfig
        from chainconsumer.plotting.contours import _convert_to_stdev, _get_levels

        h, cx, cy = get_smoothed_histogram2d(chain, px, py)
        h[h == 0] = 1e-16
        v = _convert_to_stdev(h)
        lv = _get_levels(chain.sigmas, config or PlotConfig())
        calls = [c for c in ax.calls if c[0] in ("contour", "contourf")]
        out = [len([c for c in calls if c[0] == "contour"]) == 1,
               len([c for c in calls if c[0] == "contourf"]) == (1 if chain.shade and chain.shade_alpha > 0 else 0)]
        for name, a, k in calls:
            out.append(eq(np.asarray(a[0]), cx) and eq(np.asarray(a[1]), cy) and eq(np.asarray(a[2]), v.T) and eq(np.asarray(k["levels"], dtype=float), lv))
        return out
