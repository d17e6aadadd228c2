"""C05: the HDI is the narrowest interval with the requested mass."""
from contracts.marginal import *

EPS = 1e-12


def curve(m):
    """the cumulative curve including its start: no mass at the first grid point"""
    xs, ys, cs = m
    return np.concatenate(([xs[0]], xs)), np.concatenate(([0.0], cs))


def holds_mass(x, c, a, lo, hi):
    """lo < hi are grid points with at least the mass a between them"""
    if NATIVE:
        return any(c[j] - c[i] >= a - 1e-9 for i in np.where(x == lo)[0][:2] for j in np.where(x == hi)[0][-1:] if i < j)
    n = len(x)
    return exists(n, lambda i: exists(n, lambda j: i < j and lo == x[i] and hi == x[j] and c[j] >= c[i] + a))


def narrowest(x, c, a, lo, hi):
    """the shortest interval with the mass from any grid point is no narrower (where it is more than one point)"""
    n = len(x)
    if NATIVE:
        need = c + a
        k = np.maximum(np.searchsorted(c, need, side="left"), np.arange(n) + 1)
        ok = k < n
        best = np.min(x[k[ok]] - x[:n][ok], where=(x[k[ok]] > x[:n][ok]), initial=np.inf)
        return lo < hi and hi - lo <= best + 1e-9 * (x[n - 1] - x[0]) + 2e-12
    return forall(n, lambda i: forall(n, lambda j: implies(shortest(x, c, a, i, j) and x[j] - x[i] > EPS, hi - lo <= x[j] - x[i] + EPS)))


def shortest(x, c, a, i, j):
    return i < j and c[j] >= c[i] + a and (j == i + 1 or c[j - 1] < c[i] + a)


class Hdi:
    target = "analysis.Analysis.get_parameter_summary_hdi"
    props = ["C05"]
    pure = {"analysis.Analysis._get_smoothed_histogram": "tuple[arr1[real], arr1[real], arr1[real]]"}
    loops = {0: "inv_scan"}
    loop_vars = {"best_width": "real|+inf", "best_lower": "real", "best_upper": "real", "best_start_mass": "real", "best_end_mass": "real"}

    def requires(self, chain, column):
        return [column in chain.samples, proper(self._get_smoothed_histogram(chain, column, pad=True))]

    def inv_scan(self, chain, x_points, cdf_points, best_width, best_lower, best_upper, best_start_mass, best_end_mass, done):
        """the best interval among those starting at the grid points already visited"""
        x, c, a = x_points, cdf_points, chain.summary_area
        n = len(x)
        found = exists(n, lambda i: exists(n, lambda j: i < j and best_lower == x[i] and best_upper == x[j] and c[j] >= c[i] + a
                                           and best_start_mass == c[i] and best_end_mass == c[j] and x[j] - x[i] > EPS))
        return [
            (best_width == float("inf") and best_lower == x[0] and best_upper == x[n - 1] and best_start_mass == 0.0 and best_end_mass == 1.0)
            or (best_width == best_upper - best_lower and found),
            forall(done, lambda i: forall(n, lambda j: implies(shortest(x, c, a, i, j) and x[j] - x[i] > EPS, best_width <= x[j] - x[i] + EPS))),
        ]

    def ensures_mass(self, chain, column, result):
        x, c = curve(self._get_smoothed_histogram(chain, column, pad=True))
        return holds_mass(x, c, chain.summary_area, result.lower, result.upper)

    def ensures_narrow(self, chain, column, result):
        x, c = curve(self._get_smoothed_histogram(chain, column, pad=True))
        return narrowest(x, c, chain.summary_area, result.lower, result.upper)

    def ensures_native_centre(self, chain, column, result):
        """the centre is where the curve reaches half way between its values at the two ends"""
        xs, ys, cs = self._get_smoothed_histogram(chain, column, pad=True)
        x, c = curve((xs, ys, cs))
        ok = False
        for i in np.where(x == result.lower)[0]:
            j = int(np.where(x == result.upper)[0][-1])
            half = 0.5 * (c[i] + c[j])
            # the curve takes the value half at the centre
            a, b = np.interp(result.center * (1 + 0), xs, cs), half
            k = np.searchsorted(xs, result.center)
            around = cs[max(0, k - 1):k + 2]
            step = float(np.max(np.abs(np.diff(around)))) if len(around) > 1 else 0.0
            ok = ok or abs(a - b) <= 1e-9 + 1e-6 * step or (i == 0 and half <= cs[0] and result.center == xs[0])
        return ok

    def ensures_inside(self, chain, column, result):
        return [result.lower <= result.center, result.center <= result.upper]
