"""C10: the maximum-posterior point is a real sample row."""


def has_posterior(c):
    return c.posterior_column in c.samples


def is_peak(c, i):
    return forall(nrows(c.samples), lambda j: cell(c.samples, c.posterior_column, j) <= cell(c.samples, c.posterior_column, i))


def drawn(c, col):
    """the column is one of the plotted parameters"""
    return col in c.plotting_columns


def is_point_of(c, p):
    """p is one row of c at which the posterior peaks, restricted to the plotted parameters"""
    n = nrows(c.samples)
    return [
        exists(n, lambda i: is_peak(c, i) and p.log_posterior == cell(c.samples, c.posterior_column, i)
               and forall(c.plotting_columns, lambda x: x in p.coordinate and p.coordinate[x] == cell(c.samples, x, i))),
        eq(list(p.coordinate), c.plotting_columns),
    ]


class Row:
    target = "chain.Chain.max_posterior_row"
    props = ["C10"]

    def ensures(self, result):
        return [
            is_none(result) == (not has_posterior(self)),
            implies(has_posterior(self), lazyif(is_none(result), lambda: False, lambda: exists(nrows(self.samples), lambda i: is_peak(self, i) and forall(
                self.samples.columns, lambda x: x in val(result) and val(result)[x] == cell(self.samples, x, i))))),
        ]


class Point:
    target = "chain.Chain.get_max_posterior_point"
    props = ["C10"]

    def ensures(self, result):
        return [
            is_none(result) == (not has_posterior(self)),
            lazyif(is_none(result), lambda: True, lambda: is_point_of(self, val(result))),
        ]


class Collect:
    target = "analysis.Analysis.get_max_posteriors"
    props = ["C10"]
    types = {"chains": "None"}
    uses = ["c10.Point"]

    def ensures(self, chains, result):
        loaded = self.parent._chains
        names = [n for n in loaded if has_posterior(loaded[n])]
        return [
            eq(list(result), names),
            forall(names, lambda n: is_point_of(loaded[n], result[n])),
        ]


class CollectNamed:
    target = "analysis.Analysis.get_max_posteriors"
    props = ["C10"]
    types = {"chains": "list[str]"}
    uses = ["c10.Point"]

    def requires(self, chains):
        return forall(chains, lambda n: n in self.parent._chains) and distinct(chains)

    def ensures(self, chains, result):
        loaded = self.parent._chains
        names = [n for n in chains if has_posterior(loaded[n])]
        return [
            eq(list(result), names),
            forall(names, lambda n: is_point_of(loaded[n], result[n])),
        ]
