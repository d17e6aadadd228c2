"""C03: quantile summaries report the requested points of the cumulative curve."""
from contracts.marginal import *


class Cumulative:
    target = "analysis.Analysis.get_parameter_summary_cumulative"
    props = ["C03"]
    pure = {"analysis.Analysis._get_smoothed_histogram": "tuple[arr1[real], arr1[real], arr1[real]]"}

    def requires(self, chain, column):
        return [column in chain.samples, proper(self._get_smoothed_histogram(chain, column))]

    def ensures(self, chain, column, result):
        xs, ys, cs = self._get_smoothed_histogram(chain, column)
        a = chain.summary_area
        return [
            cdf_point(xs, cs, (1 - a) / 2, result.lower),
            cdf_point(xs, cs, (1 + a) / 2, result.upper),
            cdf_point(xs, cs, 0.5, result.center),
        ]


class Mean:
    target = "analysis.Analysis.get_parameter_summary_mean"
    props = ["C03"]
    pure = {"analysis.Analysis._get_smoothed_histogram": "tuple[arr1[real], arr1[real], arr1[real]]"}

    def requires(self, chain, column):
        return [column in chain.samples, proper(self._get_smoothed_histogram(chain, column))]

    def ensures(self, chain, column, result):
        xs, ys, cs = self._get_smoothed_histogram(chain, column)
        a = chain.summary_area
        return [
            cdf_point(xs, cs, (1 - a) / 2, result.lower),
            cdf_point(xs, cs, (1 + a) / 2, result.upper),
            eq(result.center, (result.lower + result.upper) / 2),
        ]


class MaxCentral:
    target = "analysis.Analysis.get_parameter_summary_max_central"
    props = ["C03"]
    pure = {"analysis.Analysis._get_smoothed_histogram": "tuple[arr1[real], arr1[real], arr1[real]]"}
    types = {"chain": "Chain", "parameter": "str"}

    def requires(self, chain, parameter):
        return [parameter in chain.samples, proper(self._get_smoothed_histogram(chain, parameter))]

    def ensures(self, chain, parameter, result):
        xs, ys, cs = self._get_smoothed_histogram(chain, parameter)
        a = chain.summary_area
        return [
            cdf_point(xs, cs, (1 - a) / 2, result.lower),
            cdf_point(xs, cs, (1 + a) / 2, result.upper),
            peak(xs, ys, result.center),
        ]
