"""C23: summaries cover exactly the requested chains and parameters, by the chain's own statistic."""
from chainconsumer.statistics import SummaryStatistic

PURE_SUMMARIES = 5


def single(self, chain, p):
    """the bound of the statistic configured for the chain"""
    s = chain.statistics
    if s == SummaryStatistic.MAX:
        return self.get_parameter_summary_max(chain, p)
    if s == SummaryStatistic.MEAN:
        return self.get_parameter_summary_mean(chain, p)
    if s == SummaryStatistic.CUMULATIVE:
        return self.get_parameter_summary_cumulative(chain, p)
    if s == SummaryStatistic.MAX_CENTRAL:
        return self.get_parameter_summary_max_central(chain, p)
    return self.get_parameter_summary_hdi(chain, p)


def bands(self, chain, p):
    return self.get_parameter_hdi_intervals(chain, p)


def several(self, chain, p):
    return chain.multimodal and len(bands(self, chain, p)) >= 2


def entry_ok(self, chain, p, got):
    if several(self, chain, p):
        return eq(got, self.get_parameter_multimodal_bounds(chain, p, intervals=bands(self, chain, p)))
    return eq(got, single(self, chain, p))


class Single:
    target = "analysis.Analysis.get_parameter_summary"
    props = ["C23"]
    pure = {"analysis.Analysis.get_parameter_summary_max": "", "analysis.Analysis.get_parameter_summary_mean": "",
            "analysis.Analysis.get_parameter_summary_cumulative": "", "analysis.Analysis.get_parameter_summary_max_central": "",
            "analysis.Analysis.get_parameter_summary_hdi": ""}
    types = {"chain": "Chain"}

    def requires(self, chain, column):
        return column in chain.samples

    def ensures(self, chain, column, result):
        return eq(result, single(self, chain, column))


class Summary:
    """chains and parameters as requested"""
    target = "analysis.Analysis.get_summary"
    props = ["C23"]
    types = {"chains": "list[Chain]", "columns": "list[str]"}
    pure = {"analysis.Analysis.get_parameter_summary": "", "analysis.Analysis.get_parameter_hdi_intervals": "",
            "analysis.Analysis.get_parameter_multimodal_bounds": ""}

    def requires(self, chains, columns):
        return [distinct([c.name for c in chains]), distinct(columns)]

    def ensures(self, chains, columns, result):
        return [
            eq(list(result), [c.name for c in chains]),
            forall(chains, lambda c: eq(list(result[c.name]), [p for p in columns if p in c.samples])),
            forall(chains, lambda c: forall([p for p in columns if p in c.samples], lambda p: covered(self, c, p, result[c.name][p]))),
        ]


def covered(self, chain, p, got):
    if several(self, chain, p):
        return eq(got, self.get_parameter_multimodal_bounds(chain, p, intervals=bands(self, chain, p)))
    return eq(got, self.get_parameter_summary(chain, p))


class Everything:
    """no request: every loaded chain and every parameter"""
    target = "analysis.Analysis.get_summary"
    props = ["C23"]
    native_only = True

    def ensures(self, chains, columns, result):
        final = self.parent._get_final_chains()
        params = []
        for c in final.values():
            for p in c.plotting_columns:
                if p not in params:
                    params.append(p)
        return [
            eq(list(result), list(self.parent._chains)),
            forall(final.values(), lambda c: eq(list(result[c.name]), [p for p in params if p in c.samples])),
            forall(final.values(), lambda c: forall([p for p in params if p in c.samples], lambda p: entry_ok(self, c, p, result[c.name][p]))),
        ]
