"""C01: AIC, BIC and DIC against the published formulas."""


def chains_of(comp):
    return comp.parent._chains


def posterior(c):
    return c.samples[c.posterior_column].to_numpy()


def has_posterior(c):
    return c.posterior_column in c.samples


def known(c):
    return has_posterior(c) and not is_none(c.num_eff_data_points) and not is_none(c.num_free_params)


def best(c):
    return np.max(posterior(c))


def aicc(c):
    k = val(c.num_free_params)
    n = val(c.num_eff_data_points)
    return 2 * k + 2 * k * (k + 1) / (n - k - 1) - 2 * best(c)


def bicf(c):
    return val(c.num_free_params) * np.log(val(c.num_eff_data_points)) - 2 * best(c)


def weighted_mean(c, x):
    n = nrows(c.samples)
    w = c.weights
    return sumof(n, lambda i: x[i] * w[i]) / sumof(n, lambda i: w[i])


def dicf(c):
    p = posterior(c)
    mean_dev = weighted_mean(c, -2 * p)
    means = np.array([weighted_mean(c, c.samples[x].to_numpy()) for x in c.data_columns])
    dev_of_mean = griddata(c.data_samples, -2 * p, means, method="nearest")[0]
    return mean_dev + (mean_dev - dev_of_mean)


def scores_ok(chains, eligible, score, result):
    names = [n for n in chains if eligible(chains[n])]
    return [
        eq(list(result), names),
        forall(names, lambda a: forall(names, lambda b: eq(result[a] - result[b], score(chains[a]) - score(chains[b]), 1e-7))),
        forall(names, lambda a: result[a] >= 0),
        implies(len(names) > 0, exists(names, lambda a: eq(result[a], 0.0))),
    ]


class Aic:
    target = "comparisons.Comparison.aic"
    props = ["C01"]

    def requires(self):
        return forall(chains_of(self).values(), lambda c: implies(known(c), val(c.num_eff_data_points) != val(c.num_free_params) + 1))

    def ensures(self, result):
        return scores_ok(chains_of(self), known, aicc, result)


class Bic:
    target = "comparisons.Comparison.bic"
    props = ["C01"]

    def requires(self):
        return forall(chains_of(self).values(), lambda c: implies(known(c), val(c.num_eff_data_points) > 0))

    def ensures(self, result):
        return scores_ok(chains_of(self), known, bicf, result)


class Dic:
    target = "comparisons.Comparison.dic"
    props = ["C01"]

    def ensures(self, result):
        return scores_ok(chains_of(self), has_posterior, dicf, result)
