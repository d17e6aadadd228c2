"""C22: plots use the requested chains, columns and extents."""
from chainconsumer.helpers import get_extents


def weight_where(data, weight, f):
    """the weight of the samples whose value meets f"""
    return sumof(len(weight), lambda i: weight[i] if f(data[i]) else 0)


class Extents:
    target = "helpers.get_extents"
    props = ["C22", "C15"]
    types = {"data": "pd.Series[float]", "weight": "arr1[real]"}
    returns = "tuple[real, real]"

    def requires(data, weight):
        return [len(data) == len(weight), len(data) >= 1, forall(len(weight), lambda i: weight[i] > 0)]

    def ensures(data, weight, result):
        return result[0] <= result[1]

    def ensures_native_tail(data, weight, plot, wide_extents, tiny, pad, result):
        """apart from the first histogram bin (the recorded finding), at most the stated tail of the weight lies more than a bin outside"""
        x = np.asarray(data, dtype=float)
        lo, hi = float(x.min()), float(x.max())
        bin_ = (hi - lo) / 2000 if hi > lo else 1 / 2000
        slack = bin_ * 0.51 + 1e-9 * max(abs(lo), abs(hi))
        thr = 0.3 if tiny else 0.05 if plot and not wide_extents else 1e-4 if plot else 1e-5
        a, b = float(result[0]), float(result[1])
        if pad:
            # the padding adds a fifth of the width on both sides
            w = (b - a) / 1.4
            a, b = a + 0.2 * w, b - 0.2 * w
        tot = weight.sum()
        start = x.min() + bin_ * 1.01
        return [
            weight[(x > start) & (x < a - slack)].sum() <= (thr + 1e-9) * tot,
            weight[x > b + slack].sum() <= (thr + 1e-9) * tot,
            a >= lo - 0.5 * (lo == hi) - slack and b <= hi + 0.5 * (lo == hi) + slack,
            # and it does not keep everything when the weight is spread out: the extent is a sub-range, not more
            implies(hi > lo, b - a <= (hi - lo) * (1 + 1e-9)),
        ]


def plottable(c):
    """the parameters of the chain that get panels"""
    reserved = ("weight", "weights", "posterior", "posteriors", "log_weights", "log_posterior", "log_posteriors")
    return [p for p in c.samples.columns if p not in (c.weight_column, c.posterior_column) and p.lower() not in reserved
            and not (c.plot_cloud and p == c.color_param)]


def shown(c):
    return c.plot_contour or c.plot_cloud or c.plot_point


class Columns:
    """the requested columns, else every parameter in order of first appearance"""
    target = "plotter.Plotter._sanitise_columns"
    props = ["C22"]

    def ensures(columns, chains, result):
        if columns is not None:
            return eq(list(result), list(columns))
        want = []
        for c in chains:
            # (what plotting_columns holds is proved by c07.Plotting)
            for p in plottable(c) if NATIVE else c.plotting_columns:
                if p not in want:
                    want.append(p)
        return eq(list(result), want)


def hull_of(self, column, chains, wide):
    """per chain that has the parameter, the range it asks for"""
    out = []
    for c in chains:
        if column not in c.samples:
            continue
        x = c.samples[column].to_numpy(dtype=float)
        if c.plot_contour or c.plot_cloud:
            if c.grid:
                out.append((x.min(), x.max(), 0.0))
            else:
                out.append(get_extents(c.samples[column], c.samples[c.weight_column].to_numpy(), plot=True, wide_extents=wide) + (1e-9 * (np.abs(x).max()),))
        elif c.posterior_column in c.samples and column in plottable(c):
            v = float(x[int(c.samples[c.posterior_column].to_numpy().argmax())])
            out.append((v, v, 0.0))
    return out


def asks(c, column):
    """the chain has a range for the parameter"""
    p = c.get_max_posterior_point()
    return column in c.samples and (c.plot_contour or c.plot_cloud or lazyif(is_none(p), lambda: False, lambda: column in val(p).coordinate))


def range_of(c, column, wide):
    """the range it asks for: of the grid, of the samples, or its point"""
    return lazyif(
        c.plot_contour or c.plot_cloud,
        lambda: lazyif(c.grid, lambda: (c.get_data(column).min(), c.get_data(column).max()),
                       lambda: get_extents(c.get_data(column), c.weights, plot=True, wide_extents=wide)),
        lambda: (val(c.get_max_posterior_point()).coordinate[column], val(c.get_max_posterior_point()).coordinate[column]))


def within(c, column, wide, lo, hi):
    r = range_of(c, column, wide)
    return le(lo, r[0]) and le(r[1], hi)


class ParameterExtents:
    """the hull of what the chains ask for: the grid range, the point, or the sub-range of the samples"""
    target = "plotter.Plotter._get_parameter_extents"
    props = ["C22"]
    pure = {"helpers.get_extents": "tuple[real, real]", "chain.Chain.get_max_posterior_point": ""}
    loops = {0: "inv_hull"}
    loop_vars = {"min_val": "real|+inf", "max_val": "real|-inf"}

    def inv_hull(column, chains, wide_extents, min_val, max_val, done):
        return [
            forall(done, lambda i: not asks(chains[i], column) or within(chains[i], column, wide_extents, min_val, max_val)),
            min_val == float("inf") or exists(done, lambda i: asks(chains[i], column) and eq(min_val, range_of(chains[i], column, wide_extents)[0])),
            max_val == -float("inf") or exists(done, lambda i: asks(chains[i], column) and eq(max_val, range_of(chains[i], column, wide_extents)[1])),
        ]

    def requires(self, column, chains):
        return exists(chains, lambda c: asks(c, column))

    def ensures(self, column, chains, wide_extents, result):
        return [
            forall(chains, lambda c: not asks(c, column) or within(c, column, wide_extents, result[0], result[1])),
            exists(chains, lambda c: asks(c, column) and eq(result[0], range_of(c, column, wide_extents)[0])),
            exists(chains, lambda c: asks(c, column) and eq(result[1], range_of(c, column, wide_extents)[1])),
        ]

    def ensures_native_ranges(self, column, chains, wide_extents, result):
        """the same with the ranges from the samples themselves"""
        h = hull_of(self, column, chains, wide_extents)
        lo, hi, tol = min(a for a, b, t in h), max(b for a, b, t in h), max(t for a, b, t in h)
        return [abs(float(result[0]) - lo) <= tol, abs(float(result[1]) - hi) <= tol, result[0] <= result[1]]


class CustomExtents:
    """given extents verbatim, the others from the chains; one per column"""
    target = "plotter.Plotter._get_custom_extents"
    props = ["C22"]
    pure = {"plotter.Plotter._get_parameter_extents": "tuple[real, real]"}

    def requires(columns):
        # (the proof is for columns that do not repeat)
        return True if NATIVE else distinct(columns)

    def old(initial_extents):
        return {} if is_none(initial_extents) else dict(val(initial_extents))

    def ensures(self, columns, chains, wide_extents, old, result):
        return [
            forall(columns, lambda p: p in result),
            forall(list(old), lambda p: p in result and result[p] == old[p]),
            forall(columns, lambda p: implies(p not in old, eq(result[p], self._get_parameter_extents(p, chains, wide_extents=wide_extents)))),
            forall(list(result), lambda p: p in old or p in columns),
        ]

    def ensures_kept(initial_extents, old):
        """the caller's dictionary is left as it was"""
        return is_none(initial_extents) or eq(val(initial_extents), old)


class Base:
    """the parts every plot is made from are the ones its arguments ask for"""
    target = "plotter.Plotter._sanitise"
    props = ["C22", "C19"]
    pure = {"plotter.Plotter._sanitise_chains": "list[Chain]", "plotter.Plotter._sanitise_columns": "list[str]",
            "plotter.Plotter._get_custom_extents": "dict[str, tuple[real, real]]", "plotter.Plotter._sanitise_blinds": "list[str]",
            "plotter.Plotter._sanitise_logscale": "list[str]"}

    def ensures(self, chains, columns, extents, blind, log_scales, wide_extents, result):
        ch = self._sanitise_chains(chains)
        cols = self._sanitise_columns(columns, ch)
        return [
            eq(result.chains, ch),
            eq(result.columns, cols),
            eq(result.extents, self._get_custom_extents(cols, ch, extents, wide_extents=wide_extents)),
            eq(result.blind, self._sanitise_blinds(blind, cols)),
            eq(result.log_scales, self._sanitise_logscale(log_scales)),
        ]


class Sanitised:
    """what every plot is made from"""
    target = "plotter.Plotter._sanitise"
    props = ["C22", "C19"]
    native_only = True

    def ensures(self, chains, columns, extents, blind, log_scales, wide_extents, result):
        ch = self._sanitise_chains(chains)
        cols = self._sanitise_columns(columns, ch)
        return [
            [c.name for c in result.chains] == [c.name for c in ch],
            list(result.columns) == list(cols),
            all(p in result.extents for p in cols),
            all(eq(list(result.extents[p]), list(v)) for p, v in (extents or {}).items()),
            all(eq(list(result.extents[p]), list(self._get_parameter_extents(p, ch, wide_extents=wide_extents))) for p in cols if p not in (extents or {})),
            list(result.log_scales) == list(log_scales or []),
            all((p in result.blind) == (blind is True or (isinstance(blind, list) and p in blind)) for p in cols),
        ]
