"""C04: the max statistic brackets the mode at equal density."""
from contracts.marginal import *

PAD = 1000
MASS_TOL = 0.003


def padded(xs, ys):
    """the marginal with a linear ramp down to zero glued vertically to both of its ends"""
    n = len(xs)
    x = np.concatenate((xs[0] * np.ones(PAD), xs, xs[n - 1] * np.ones(PAD)))
    y = np.concatenate((np.linspace(0, ys[0], PAD), ys, np.linspace(ys[n - 1], 0, PAD)))
    c = y.cumsum()
    return x, y, c / c.max()


def region(x, y, c, k, a, i, j):
    """[i, j) is the connected region around the peak k above one density level, with the mass a"""
    if NATIVE:
        low = y[i:j].min() if i < j else -1.0
        return 0 < i <= k < j and y[i - 1] < low and y[j] < low and abs(c[j] - c[i] - a) < MASS_TOL + 1e-9
    return (
        0 < i and i <= k and k < j and j < len(x)
        and forall(j, lambda t: y[t] > y[i - 1] and y[t] > y[j], i)
        and np.abs(c[j] - c[i] - a) < MASS_TOL
    )


def brackets(x, y, c, k, a, lo, hi):
    """lo and hi are the ends of such a region"""
    if NATIVE:
        return any(region(x, y, c, k, a, i, j) for i in np.where(x[:k + 1] == lo)[0] for j in k + np.where(x[k:] == hi)[0] if i > 0)
    return exists(len(x), lambda i: exists(len(x), lambda j: lo == x[i] and hi == x[j] and region(x, y, c, k, a, i, j)))


def found(x, y, c, k, a, lo, hi, i, j):
    return [0 < i, i < len(x), j < len(x), lo == x[i], hi == x[j], region(x, y, c, k, a, i, j)]


class Max:
    target = "analysis.Analysis.get_parameter_summary_max"
    props = ["C04"]
    pure = {"analysis.Analysis._get_smoothed_histogram": "tuple[arr1[real], arr1[real], arr1[real]]"}
    loops = {0: "inv_bisect"}
    loop_vars = {"max_val": "real", "min_val": "real", "x1": "none|real", "x2": "none|real", "count": "int", "i1": "int", "i2": "int"}

    def requires(self, chain, column):
        return [column in chain.samples, proper(self._get_smoothed_histogram(chain, column))]

    def inv_bisect(self, chain, column, xs, ys, cs, start_index, max_val, min_val, x1, x2, i1, i2):
        m = self._get_smoothed_histogram(chain, column)
        return [
            peak(m[0], m[1], xs[start_index]),
            0 <= min_val,
            min_val <= max_val,
            0 < max_val,
            max_val <= ys[start_index],
            is_none(x1) == is_none(x2),
            *lazyif(is_none(x1), lambda: [True], lambda: found(xs, ys, cs, start_index, chain.summary_area, val(x1), val(x2), i1, i2)),
        ]

    def ensures(self, chain, column, result):
        xs, ys, cs = self._get_smoothed_histogram(chain, column)
        absent = is_none(result.lower) and is_none(result.upper)
        return [
            peak(xs, ys, result.center),
            absent or (not is_none(result.lower) and not is_none(result.upper) and result.lower <= result.center and result.center <= result.upper),
        ]

    def ensures_region(self, chain, column, result):
        """the bounds delimit a connected region around the peak above one density level, with the requested mass"""
        if is_none(result.lower):
            return is_none(result.upper)
        xs, ys, cs = self._get_smoothed_histogram(chain, column)
        x, y, c = padded(xs, ys)
        return brackets(x, y, c, y.argmax(), chain.summary_area, result.lower, result.upper)
