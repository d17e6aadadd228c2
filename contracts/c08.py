"""C08: dividing a chain by walker partitions its samples."""
from chainconsumer.statistics import SummaryStatistic


def options(chain):
    """every option of the chain but the ones a division changes"""
    return {k: getattr(chain, k) for k in type(chain).model_fields if k not in ("samples", "name", "walkers", "color", "shift_params")}


class Divide:
    target = "chain.Chain.divide"
    props = ["C08"]
    native_only = True

    def old(self):
        return self.samples.copy(deep=True), options(self), self.color, self.name, self.walkers

    def raises(self):
        return {"AssertionError": self.walkers <= 1 or self.grid}

    def ensures(self, old, result):
        df, opts, color, name, walkers = old
        n = len(df) // walkers
        return [
            len(result) == walkers,
            distinct([c.name for c in result]),
            forall(walkers, lambda i: result[i].name == f"{name} Walker {i}"),
            forall(walkers, lambda i: result[i].walkers == 1),
            forall(walkers, lambda i: cells_equal(result[i].samples, df.iloc[i * n:(i + 1) * n])),
            forall(walkers, lambda i: eq(options(result[i]), opts)),
        ]

    def ensures_parent(self, old, result):
        df, opts, color, name, walkers = old
        return [cells_equal(self.samples, df), list(self.samples.index) == list(df.index), eq(options(self), opts), eq(self.color, color),
                self.name == name, self.walkers == walkers]


def same_options(a, b):
    return [
        eq(a.statistics, b.statistics), eq(a.summary_area, b.summary_area), eq(a.sigmas, b.sigmas), eq(a.linestyle, b.linestyle), eq(a.linewidth, b.linewidth),
        eq(a.show_contour_labels, b.show_contour_labels), eq(a.shade, b.shade), eq(a.shade_alpha, b.shade_alpha), eq(a.shade_gradient, b.shade_gradient),
        eq(a.bar_shade, b.bar_shade), eq(a.multimodal, b.multimodal), eq(a.bins, b.bins), eq(a.kde, b.kde), eq(a.smooth, b.smooth),
        eq(a.color_param, b.color_param), eq(a.cmap, b.cmap), eq(a.num_cloud, b.num_cloud), eq(a.plot_cloud, b.plot_cloud), eq(a.plot_contour, b.plot_contour),
        eq(a.plot_point, b.plot_point), eq(a.marker_style, b.marker_style), eq(a.marker_size, b.marker_size), eq(a.marker_alpha, b.marker_alpha),
        eq(a.zorder, b.zorder), eq(a.weight_column, b.weight_column), eq(a.posterior_column, b.posterior_column), eq(a.grid, b.grid),
        eq(a.num_free_params, b.num_free_params), eq(a.num_eff_data_points, b.num_eff_data_points), eq(a.power, b.power),
        eq(a.show_label_in_legend, b.show_label_in_legend), eq(a.histogram_relative_height, b.histogram_relative_height),
    ]


class Split:
    """division of every chain (proved)"""
    target = "chain.Chain.divide"
    props = ["C08"]

    def requires(self):
        return [not self.multimodal or val(self.statistics) == SummaryStatistic.HDI]

    def old(self):
        return self.samples.copy()

    def raises(self):
        return {"AssertionError": self.walkers <= 1 or self.grid}

    def ensures(self, old, result):
        n = nrows(old) // self.walkers
        return [
            len(result) == self.walkers,
            forall(self.walkers, lambda i: nrows(result[i].samples) == n),
            forall(self.walkers, lambda i: eq(list(result[i].samples.columns), list(old.columns))),
            forall(list(old.columns), lambda c: forall(self.walkers, lambda i: forall(n, lambda j: cell(result[i].samples, c, j) == cell(old, c, i * n + j)))),
            forall(self.walkers, lambda i: result[i].walkers == 1),
            forall(self.walkers, lambda i: result[i].name == f"{self.name} Walker {i}"),
            forall(self.walkers, lambda i: forall(i, lambda j: result[i].name != result[j].name)),
        ]

    def ensures_options(self, result):
        return [forall(self.walkers, lambda i: all(same_options(result[i], self)))]

    def ensures_parent(self, old):
        return [cells_equal(self.samples, old)]
