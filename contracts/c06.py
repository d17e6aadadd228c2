"""C06: multimodal bands are exactly the high-density regions."""
from contracts.marginal import *


def runs(mask):
    """the maximal runs of True, as (first, last) index pairs"""
    out, start = [], None
    for i, m in enumerate(list(mask) + [False]):
        if m and start is None:
            start = i
        if not m and start is not None:
            out.append((start, i - 1))
            start = None
    return out


class Mask:
    """exactly the maximal runs of the mask that are longer than one point"""
    target = "analysis._mask_to_intervals"
    props = ["C06"]
    native_only = True

    def requires(x, mask):
        return len(x) == len(mask) and sorted_lt(x)

    def ensures(x, mask, result):
        return eq([tuple(r) for r in result], [(x[a], x[b]) for a, b in runs(mask) if a < b])


class Intervals:
    target = "analysis.Analysis.get_parameter_hdi_intervals"
    props = ["C06"]
    native_only = True

    def requires(self, chain, column):
        return [column in chain.samples, proper(self._get_smoothed_histogram(chain, column, pad=True))]

    def ensures(self, chain, column, result):
        return [len(result) >= 1, all(a < b for a, b in result), all(result[i][1] < result[i + 1][0] for i in range(len(result) - 1))]

    def ensures_threshold(self, chain, column, result):
        """one threshold: the runs at or above it are the result; without a run it is the single narrowest interval"""
        xs, ys, cs = self._get_smoothed_histogram(chain, column, pad=True)
        idx = []
        for a, b in result:
            i, j = np.searchsorted(xs, a), np.searchsorted(xs, b)
            if not (i < len(xs) and j < len(xs) and xs[i] == a and xs[j] == b):
                return False
            idx.append((i, j))
        low = min(ys[i:j + 1].min() for i, j in idx)
        again = [(i, j) for i, j in runs(ys >= low) if i < j]
        if again == idx:
            return True
        h = self.get_parameter_summary_hdi(chain, column)
        return len(result) == 1 and eq(list(result[0]), [h.lower, h.upper]) and (
            chain.summary_area < 1e-3 or not any(b > a for a, b in runs(ys >= ys.max() * (1 - 1e-3))))

    def ensures_mass(self, chain, column, result):
        """the threshold is the density level whose regions hold the requested mass, to a thousandth of the peak density"""
        xs, ys, cs = self._get_smoothed_histogram(chain, column, pad=True)
        d = ys / simpson(ys, x=xs)
        peak_, lo, hi = float(d.max()), 0.0, float(d.max())

        def mass(t):
            return simpson(np.where(d >= t, d, 0.0), x=xs)

        for _ in range(50):
            mid = 0.5 * (lo + hi)
            lo, hi = (mid, hi) if mass(mid) >= chain.summary_area else (lo, mid)
        idx = [(int(np.searchsorted(xs, a)), int(np.searchsorted(xs, b))) for a, b in result]
        low = min(d[i:j + 1].min() for i, j in idx)
        tol = 1e-3 * peak_
        if lo - tol <= low <= lo + tol:
            return True
        again = [(i, j) for i, j in runs(d >= lo + tol) if i < j]
        if low > lo + tol:
            return again == idx or not again
        return not again and not [r for r in runs(d >= lo) if r[0] < r[1]]


def highest(xs, ys, a, b, v):
    """v is a grid point of [a, b] where the density is highest within [a, b]"""
    if NATIVE:
        m = (xs >= a) & (xs <= b)
        return bool(np.any(m & (xs == v) & (ys == ys[m].max())))
    n = len(xs)
    return exists(n, lambda k: v == xs[k] and a <= xs[k] and xs[k] <= b and forall(n, lambda j: implies(a <= xs[j] and xs[j] <= b, ys[j] <= ys[k])))


class Bands:
    """one bound per band: its two ends and the densest grid point between them"""
    target = "analysis.Analysis.get_parameter_multimodal_bounds"
    props = ["C06"]
    pure = {"analysis.Analysis._get_smoothed_histogram": "tuple[arr1[real], arr1[real], arr1[real]]"}

    def requires(self, chain, column, intervals):
        m = self._get_smoothed_histogram(chain, column, pad=True)
        n = len(m[0])
        return [column in chain.samples, proper(m),
                forall(len(intervals), lambda i: exists(n, lambda k: intervals[i][0] == m[0][k]) and exists(n, lambda k: intervals[i][1] == m[0][k])
                       and intervals[i][0] < intervals[i][1])]

    def ensures(self, chain, column, intervals, result):
        xs, ys, cs = self._get_smoothed_histogram(chain, column, pad=True)
        return [
            len(result) == len(intervals),
            forall(len(intervals), lambda i: result[i].lower == intervals[i][0] and result[i].upper == intervals[i][1]),
            forall(len(intervals), lambda i: highest(xs, ys, intervals[i][0], intervals[i][1], result[i].center)),
        ]
