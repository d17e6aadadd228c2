"""C15: the smoothed 1D marginal is the weighted, powered, smoothed density on a grid fixed by the chain's own settings."""
from chainconsumer.helpers import get_extents
from chainconsumer.kde import MegKDE


def smoothing(chain):
    return lazyif(is_none(chain.smooth), lambda: 0 if chain.grid else 3, lambda: val(chain.smooth))


def bins_of(chain):
    """the number of bins of the chain's own settings"""
    return lazyif(is_none(chain.bins), lambda: default_bins(chain), lambda: val(chain.bins))


def default_bins(chain):
    base = 35 if smoothing(chain) > 0 else 100
    some = int(np.floor(np.power(nrows(chain.samples) / len(chain.samples.columns), 0.25)))
    return base if base >= some else some


def values(chain, column):
    return chain.samples[column]


def weights_of(chain):
    return chain.samples[chain.weight_column].to_numpy()


def grid_edges(data):
    """one bin per grid value, centred on it"""
    b = np.sort(np.unique(data))
    h = (b[1] - b[0]) / 2
    return np.concatenate((b - h, [b[len(b) - 1] + h]))


def n_edges(smooth, bins):
    return bins if smooth == 0 else 2 * smooth * bins


def edges_of(chain, column, pad):
    if chain.grid:
        return grid_edges(values(chain, column))
    lo, hi = get_extents(values(chain, column), weights_of(chain), pad=pad)
    return np.linspace(lo, hi, n_edges(smoothing(chain), bins_of(chain)))


def centres(e):
    return 0.5 * (e[1:] + e[:-1])


def powered(chain, y):
    return y ** chain.power


def histogram(chain, column, e):
    h, _ = np.histogram(values(chain, column), bins=e, density=True, weights=weights_of(chain))
    h = powered(chain, h)
    if smoothing(chain) == 0:
        return h
    return gaussian_filter(h, smoothing(chain), mode="reflect")


def usable(chain, column, pad):
    """the marginal has an extent: not all the weight sits on one value"""
    if chain.grid:
        return len(np.unique(values(chain, column))) >= 2
    lo, hi = get_extents(values(chain, column), weights_of(chain), pad=pad)
    return lo < hi and n_edges(smoothing(chain), bins_of(chain)) >= 3


class Bins:
    target = "helpers.get_bins"
    props = ["C15"]

    def ensures(chain, result):
        return result == bins_of(chain)


class GridBins:
    target = "helpers.get_grid_bins"
    props = ["C15"]
    types = {"data": "pd.Series[float]"}

    def requires(data):
        return len(np.unique(data)) >= 2

    def ensures(data, result):
        b = np.sort(np.unique(data))
        n = len(b)
        return [
            len(result) == n + 1,
            forall(n, lambda i: eq(result[i], b[i] - (b[1] - b[0]) / 2)),
            eq(result[n], b[n - 1] + (b[1] - b[0]) / 2),
        ]


class SmoothedBins:
    target = "helpers.get_smoothed_bins"
    props = ["C15"]
    uses = ["c22.Extents"]
    types = {"data": "pd.Series[float]", "weight": "arr1[real]"}

    def requires(smooth, bins, data, weight, plot, pad):
        return [smooth >= 0, bins >= 2, len(data) == len(weight), len(data) >= 1, forall(len(weight), lambda i: weight[i] > 0)]

    def ensures(smooth, bins, data, weight, plot, pad, result):
        lo, hi = get_extents(data, weight, plot=plot, pad=pad)
        e, s = result
        return [
            s == smooth,
            eq(e, np.linspace(lo, hi, n_edges(smooth, bins))),
        ]


class Curve:
    """the curve of a chain that is sampled and uses histograms"""
    target = "analysis.Analysis._get_smoothed_histogram"
    props = ["C15"]
    pure = {"helpers.get_extents": "tuple[real, real]"}
    uses = ["c15.GridBins"]
    types = {"use_kde": "=False"}

    def requires(self, chain, column, pad, use_kde):
        return [column in chain.samples, usable(chain, column, pad), not chain.grid]

    def ensures(self, chain, column, pad, use_kde, result):
        xs, ys, cs = result
        e = edges_of(chain, column, pad)
        c = centres(e)
        h = histogram(chain, column, e)
        n = len(xs)
        return [
            n >= 2 and len(ys) == n and len(cs) == n,
            eq(xs[0], c[0]) and eq(xs[n - 1], c[len(c) - 1]),
            sorted_lt(xs),
            eq(ys, interp1d(c, h)(np.minimum(np.maximum(xs, c[0]), c[len(c) - 1]) if NATIVE else xs)),
        ]

    def ensures_cumulative(self, chain, column, pad, use_kde, result):
        xs, ys, cs = result
        top = np.max(np.cumsum(ys))
        return [top == 0 or forall(len(xs), lambda i: cs[i] * top == np.cumsum(ys)[i])]


class CurveGrid:
    """the curve of a chain that holds a grid"""
    target = "analysis.Analysis._get_smoothed_histogram"
    props = ["C15"]
    pure = {"helpers.get_extents": "tuple[real, real]"}
    uses = ["c15.GridBins"]
    types = {"use_kde": "=False"}

    def requires(self, chain, column, pad, use_kde):
        return [column in chain.samples, usable(chain, column, pad), chain.grid]

    def ensures(self, chain, column, pad, use_kde, result):
        xs, ys, cs = result
        e = edges_of(chain, column, pad)
        c = centres(e)
        h = histogram(chain, column, e)
        n = len(xs)
        return [
            n >= 2 and len(ys) == n and len(cs) == n,
            eq(xs[0], c[0]) and eq(xs[n - 1], c[len(c) - 1]),
            sorted_lt(xs),
            eq(ys, interp1d(c, h)(np.minimum(np.maximum(xs, c[0]), c[len(c) - 1]) if NATIVE else xs)),
        ]

    def ensures_cumulative(self, chain, column, pad, use_kde, result):
        xs, ys, cs = result
        top = np.max(np.cumsum(ys))
        return [top == 0 or forall(len(xs), lambda i: cs[i] * top == np.cumsum(ys)[i])]


class Marginal:
    """the curve of a chain that uses histograms"""
    target = "analysis.Analysis._get_smoothed_histogram"
    props = ["C15"]
    native_only = True

    def requires(self, chain, column, pad, use_kde):
        return column in chain.samples and usable(chain, column, pad) and not chain.kde

    def ensures(self, chain, column, pad, use_kde, result):
        xs, ys, cs = result
        e = edges_of(chain, column, pad)
        c = centres(e)
        h = histogram(chain, column, e)
        n = len(xs)
        return [
            n >= 2 and len(ys) == n and len(cs) == n,
            eq(xs[0], c[0]) and eq(xs[n - 1], c[len(c) - 1]),
            sorted_lt(xs),
            eq(ys, interp1d(c, h)(np.minimum(np.maximum(xs, c[0]), c[len(c) - 1]) if NATIVE else xs)),
            nonneg(ys),
            eq(cs * np.max(np.cumsum(ys)), np.cumsum(ys)),
        ]

    def ensures_cumulative(self, chain, column, pad, use_kde, result):
        xs, ys, cs = result
        n = len(xs)
        return implies(np.max(ys) > 0, [sorted_le(cs), cs[0] >= 0, eq(cs[n - 1], 1)])


class MarginalKde:
    """the curve of a chain that uses a kernel density estimate"""
    target = "analysis.Analysis._get_smoothed_histogram"
    props = ["C15"]
    native_only = True

    def requires(self, chain, column, pad, use_kde):
        return column in chain.samples and usable(chain, column, pad) and bool(chain.kde) and use_kde is not False

    def ensures(self, chain, column, pad, use_kde, result):
        xs, ys, cs = result
        e = edges_of(chain, column, pad)
        c = centres(e)
        n = len(xs)
        factor = float(chain.kde)
        grid = np.linspace(c[0], c[len(c) - 1], max(200, len(e)))
        h = powered(chain, MegKDE(values(chain, column).to_numpy(), weights_of(chain), factor=factor).evaluate(grid))
        h = h / simpson(h, grid)
        return [
            n >= 2 and len(ys) == n and len(cs) == n,
            eq(xs[0], c[0]) and eq(xs[n - 1], c[len(c) - 1]) and sorted_lt(xs),
            eq(ys, np.interp(xs, grid, h), 1e-9, np.max(h)),
            nonneg(ys) and eq(cs * np.max(np.cumsum(ys)), np.cumsum(ys)),
            sorted_le(cs) and cs[0] >= 0 and eq(cs[n - 1], 1),
        ]


class Unit:
    """the grid does not depend on the parameter's unit, nor the curve on it"""
    target = "analysis.Analysis._get_smoothed_histogram"
    props = ["C15"]
    native_only = True

    def requires(self, chain, column, pad, use_kde):
        return column in chain.samples and usable(chain, column, pad)

    def ensures(self, chain, column, pad, use_kde, result):
        xs, ys, cs = result
        out = []
        for u in (2.0 ** -30, 0.125, 1024.0):
            c2 = chain.model_copy(deep=True)
            c2.samples[column] = c2.samples[column] * u
            x2, y2, s2 = self._get_smoothed_histogram(c2, column, pad=pad, use_kde=use_kde)
            top = np.max(ys)
            out.append(len(x2) == len(xs) and eq(x2 / u, xs, 1e-9, xs[-1] - xs[0]) and eq(s2, cs, 1e-6, 1.0)
                       and eq(y2 / np.max(y2), ys / top, 1e-6, 1.0))
        return out
