"""C07: an accepted chain always satisfies the data invariants."""
from contracts.invariants import inv_Chain
from chainconsumer.statistics import SummaryStatistic

RESERVED = ("weight", "weights", "posterior", "posteriors", "log_weights", "log_posterior", "log_posteriors")


def parameters(df, weight_column, posterior_column):
    return [c for c in df.columns if c not in (weight_column, posterior_column) and c.lower() not in RESERVED]


def numbers(df):
    return all(np.all(np.isfinite(np.asarray(df[c], dtype=float))) for c in df.columns)


def acceptable(df, weight_column, walkers, color_param):
    return (len(df) >= 1 and len(df.columns) >= 1 and all(isinstance(c, str) for c in df.columns) and numbers(df)
            and (weight_column not in df.columns or bool((np.asarray(df[weight_column]) > 0).all()))
            and (weight_column in df.columns or weight_column == "weight")
            and walkers >= 1 and len(df) % walkers == 0
            and (color_param is None or color_param in df.columns or color_param == weight_column))


class Construct:
    """accepted exactly when the data meet the invariants; the values are the caller's, in a private copy"""
    target = "chain.Chain"
    props = ["C07"]
    native_only = True

    def old(samples):
        return samples.copy(deep=True)

    def raises(samples, weight_column, walkers, color_param):
        return {"ValueError": not acceptable(samples, weight_column, walkers, color_param), "TypeError": not all(isinstance(c, str) for c in samples.columns)}

    def ensures(samples, name, weight_column, posterior_column, walkers, color_param, shift_params, old, result):
        df = result.samples
        w = np.asarray(df[weight_column], dtype=float)
        out = [
            result.name == name, result.walkers == walkers, result.color_param == color_param,
            list(df.columns) == list(old.columns) + ([] if weight_column in old.columns else [weight_column]),
            len(df) == len(old),
            weight_column in old.columns or bool((w == 1).all()),
            cells_equal(samples, old) and list(samples.columns) == list(old.columns) and list(samples.index) == list(old.index),
        ]
        ps = parameters(df, weight_column, posterior_column)
        for c in old.columns:
            a, b = np.asarray(old[c], dtype=float), np.asarray(df[c], dtype=float)
            if shift_params and c in ps:
                m = np.average(a, weights=w)
                s = np.max(np.abs(a)) + 1e-300
                out.append(bool(np.all(np.abs(b - (a - m)) <= 1e-9 * s)))
                out.append(abs(np.average(b, weights=w)) <= 1e-9 * s)
            else:
                out.append(bool((a == b).all()))
        return out

    def ensures_private(samples, result):
        """a change of either table does not show in the other"""
        before = result.samples.copy(deep=True)
        keep = samples.copy(deep=True)
        if len(samples.columns):
            samples.iloc[0, 0] = samples.iloc[0, 0] + 1
        a = cells_equal(result.samples, before)
        samples.iloc[:, :] = keep
        c = result.samples.columns[0]
        result.samples.loc[result.samples.index[0], c] = result.samples[c].iloc[0] + 1
        b = cells_equal(samples, keep)
        result.samples[c] = before[c].to_numpy()
        return [a, b]


def is_parameter(c, weight_column, posterior_column):
    return c != weight_column and c != posterior_column and c.lower() not in RESERVED


class Accepted:
    """accepted exactly when the data and options meet the invariants; every value is the caller's (without the mean shift)"""
    target = "chain.Chain"
    props = ["C07"]
    types = {"samples": "rawdf", "shift_params": "=False"}

    def old(samples):
        return samples.copy()

    def raises(samples, name, weight_column, walkers, color_param, summary_area, num_free_params, num_eff_data_points, multimodal, statistics):
        return {"ValueError": not (
            nrows(samples) >= 1 and len(samples.columns) >= 1 and finite(samples)
            and (weight_column == "weight" or weight_column in samples)
            and (weight_column not in samples or forall(nrows(samples), lambda i: cell(samples, weight_column, i) > 0))
            and walkers >= 1 and nrows(samples) % walkers == 0
            and lazyif(is_none(color_param), lambda: True, lambda: val(color_param) in samples or val(color_param) == weight_column)
            and summary_area >= 0 and summary_area <= 1
            and lazyif(is_none(num_free_params), lambda: True, lambda: val(num_free_params) >= 0)
            and lazyif(is_none(num_eff_data_points), lambda: True, lambda: val(num_eff_data_points) >= 0)
            and (not multimodal or lazyif(is_none(statistics), lambda: True, lambda: val(statistics) == SummaryStatistic.HDI)))}

    def ensures_invariant(result):
        """the class invariant that every other contract relies on"""
        return inv_Chain(result) + [not result.multimodal or val(result.statistics) == SummaryStatistic.HDI]

    def ensures(samples, name, weight_column, posterior_column, walkers, color_param, multimodal, statistics, old, result):
        df = result.samples
        return [
            result.name == name, result.walkers == walkers, eq(result.color_param, color_param),
            result.multimodal == multimodal,
            lazyif(is_none(statistics), lambda: val(result.statistics) == (SummaryStatistic.HDI if multimodal else SummaryStatistic.MAX),
                   lambda: val(result.statistics) == val(statistics)),
            result.weight_column == weight_column, result.posterior_column == posterior_column,
            nrows(df) == nrows(old),
            finite(df),
            cells_equal(samples, old),
            forall(list(old.columns), lambda c: c in df and forall(nrows(old), lambda i: cell(df, c, i) == cell(old, c, i))),
            eq(list(df.columns), list(old.columns) if weight_column in old else list(old.columns) + [weight_column]),
            weight_column in old or forall(nrows(old), lambda i: cell(df, weight_column, i) == 1),
        ]


class Shifted:
    """the mean shift moves every parameter to zero weighted mean and changes nothing else"""
    target = "chain.Chain"
    props = ["C07"]
    types = {"samples": "rawdf", "shift_params": "=True"}

    def old(samples):
        return samples.copy()

    def requires(samples, name, weight_column, walkers):
        return [nrows(samples) >= 1, len(samples.columns) >= 1, finite(samples), weight_column in samples,
                forall(nrows(samples), lambda i: cell(samples, weight_column, i) > 0), walkers == 1]

    def ensures(samples, name, weight_column, posterior_column, old, result):
        df = result.samples
        w = lambda i: cell(old, weight_column, i)
        n = nrows(old)
        return [
            nrows(df) == n,
            eq(list(df.columns), list(old.columns)),
            finite(df),
            cells_equal(samples, old),
            forall(list(old.columns), lambda c: is_parameter(c, weight_column, posterior_column) or forall(n, lambda i: cell(df, c, i) == cell(old, c, i))),
            forall(list(old.columns), lambda c: not is_parameter(c, weight_column, posterior_column) or
                   forall(n, lambda i: cell(df, c, i) == cell(old, c, i) - sumof(n, lambda j: cell(old, c, j) * w(j)) / sumof(n, w))),
        ]

    def ensures_invariant(result):
        return inv_Chain(result)


def sound(c):
    """the class invariant every other contract relies on (contracts/invariants.py)"""
    return [len(c.samples) >= 1, c.walkers >= 1, len(c.samples) % c.walkers == 0, c.weight_column in c.samples, bool((np.asarray(c.samples[c.weight_column]) > 0).all()),
            c.num_free_params is None or c.num_free_params >= 0, c.num_eff_data_points is None or c.num_eff_data_points >= 0,
            c.color_param is None or c.color_param in c.samples, c.statistics is not None, 0 <= c.summary_area, c.summary_area <= 1]


class Options:
    """an accepted chain satisfies the class invariant whatever options it is given; others are refused"""
    target = "chain.Chain"
    props = ["C07"]
    native_only = True

    def raises(samples, name, summary_area, num_free_params, num_eff_data_points, walkers, color_param):
        return {"ValueError": not (0 <= summary_area <= 1) or (num_free_params is not None and num_free_params < 0)
                or (num_eff_data_points is not None and num_eff_data_points < 0) or walkers < 1 or len(samples) % walkers != 0
                or (color_param is not None and color_param not in samples.columns and color_param != "weight")}

    def ensures(samples, name, result):
        return sound(result)


class Parameters:
    """the parameter columns are those that are neither weights nor posteriors, in table order"""
    target = "chain.Chain.data_columns"
    props = ["C07", "C22"]

    def ensures(self, result):
        return eq(list(result), parameters(self.samples, self.weight_column, self.posterior_column))


class Plotting:
    """the plottable columns are the parameters, without the colour parameter of a cloud"""
    target = "chain.Chain.plotting_columns"
    props = ["C07", "C22"]

    def ensures(self, result):
        return eq(list(result), [c for c in parameters(self.samples, self.weight_column, self.posterior_column)
                                 if not (self.plot_cloud and c == self.color_param)])
