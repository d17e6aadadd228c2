"""C02: convergence verdicts equal the documented statistics."""
from chainconsumer.diagnostic import TestResult


def parameters(chain):
    """the columns that are neither weights nor posteriors"""
    return chain.data_columns


def steps(chain):
    """the length of one walker's segment"""
    return nrows(chain.samples) // chain.walkers


def at(chain, p, j, i):
    """step i of walker j"""
    return cell(chain.samples, p, j * steps(chain) + i)


def segment_mean(chain, p, j):
    return sumof(steps(chain), lambda i: at(chain, p, j, i)) / steps(chain)


def segment_var(chain, p, j):
    m = segment_mean(chain, p, j)
    return sumof(steps(chain), lambda i: (at(chain, p, j, i) - m) ** 2) / (steps(chain) - 1)


def overall_mean(chain, p):
    return sumof(nrows(chain.samples), lambda i: cell(chain.samples, p, i)) / nrows(chain.samples)


def within(chain, p):
    return sumof(chain.walkers, lambda j: segment_var(chain, p, j)) / chain.walkers


def between(chain, p):
    g = overall_mean(chain, p)
    return steps(chain) / (chain.walkers - 1) * sumof(chain.walkers, lambda j: (segment_mean(chain, p, j) - g) ** 2)


def reduction(chain, p):
    """the potential scale reduction of one parameter"""
    n, m = steps(chain), chain.walkers
    w, b = within(chain, p), between(chain, p)
    v = (n - 1) * w / n + b / n + b / (n * m)
    return (v / w) ** 0.5


def varies(chain):
    """the statistic is defined: every parameter moves within some segment"""
    return steps(chain) >= 2 and forall(parameters(chain), lambda p: within(chain, p) > 0)


class GelmanRubin:
    target = "diagnostic.Diagnostic.gelman_rubin"
    props = ["C02"]
    types = {"chains": "Chain"}

    def requires(self, chains):
        return varies(chains)

    def raises(self, chains):
        return {"AssertionError": chains.walkers < 2}

    def value(self, chains, threshold):
        ok = forall(parameters(chains), lambda p: abs(reduction(chains, p) - 1) < threshold)
        return TestResult(passed=ok, results={chains.name: ok})


class GelmanRubinMany:
    """several chains: one verdict each, and all of them overall"""
    target = "diagnostic.Diagnostic.gelman_rubin"
    props = ["C02"]
    types = {"chains": "list[Chain]"}
    uses = ["c02.GelmanRubin"]

    def requires(self, chains):
        return [len(chains) >= 2, distinct([c.name for c in chains]), forall(chains, lambda c: c.walkers >= 2 and varies(c))]

    def ensures(self, chains, threshold, result):
        return [
            eq(list(result.results), [c.name for c in chains]),
            forall(chains, lambda c: result.results[c.name] == self.gelman_rubin(c, threshold=threshold).passed),
            result.passed == forall(chains, lambda c: result.results[c.name]),
        ]


class GelmanRubinNamed:
    """however the chains are named: by name, all of them, or themselves"""
    target = "diagnostic.Diagnostic.gelman_rubin"
    props = ["C02"]
    native_only = True

    def requires(self, chains):
        return forall(wanted(self, chains), lambda c: c.walkers >= 2 and varies(c)) and len(wanted(self, chains)) > 0

    def ensures(self, chains, threshold, result):
        ws = wanted(self, chains)
        return [
            eq(list(result.results), [c.name for c in ws]),
            forall(ws, lambda c: result.results[c.name] == forall(parameters(c), lambda p: abs(reduction(c, p) - 1) < threshold)),
            result.passed == all(result.results.values()),
        ]


def wanted(self, chains):
    if chains is None:
        return list(self.parent._chains.values())
    if not isinstance(chains, list):
        chains = [chains]
    return [self.parent._chains[c] if isinstance(c, str) else c for c in chains]


def spectrum(x):
    """spectral density at zero of an autoregressive model of order two"""
    beta, sigma = yule_walker(x, 2)
    return sigma**2 / (1.0 - np.sum(beta)) ** 2


def piece(chain, p, j, lo, hi):
    n = steps(chain)
    return chain.samples[p].to_numpy()[j * n + lo:j * n + hi]


def zscore(chain, p, j, first, last):
    n = steps(chain)
    a = piece(chain, p, j, 0, int(np.floor(first * n)))
    b = piece(chain, p, j, int(np.floor((1 - last) * n)), n)
    return (np.mean(a) - np.mean(b)) / np.sqrt(spectrum(a) / len(a) + spectrum(b) / len(b))


def pvalue(chain, first, last):
    return normaltest(np.array([zscore(chain, p, j, first, last) for j in range(chain.walkers) for p in parameters(chain)]))[1]


def long_enough(chain, first, last):
    n = steps(chain)
    return first > 0 and last > 0 and first < 1 and last < 1 and np.floor(first * n) >= 5 and n - np.floor((1 - last) * n) >= 5 and chain.walkers * len(parameters(chain)) >= 8


class GewekeOne:
    """one chain: the p-value of the walkers' and parameters' z-scores against the threshold"""
    target = "diagnostic.Diagnostic.geweke"
    props = ["C02"]
    types = {"chains": "Chain"}

    def requires(self, chains, first, last):
        return long_enough(chains, first, last)

    def value(self, chains, first, last, threshold):
        ok = pvalue(chains, first, last) > threshold
        return TestResult(passed=ok, results={chains.name: ok})


class GewekeMany:
    """several chains: one verdict each, and all of them overall"""
    target = "diagnostic.Diagnostic.geweke"
    props = ["C02"]
    types = {"chains": "list[Chain]"}
    uses = ["c02.GewekeOne"]

    def requires(self, chains, first, last):
        return [len(chains) >= 2, distinct([c.name for c in chains]), forall(chains, lambda c: long_enough(c, first, last))]

    def ensures(self, chains, first, last, threshold, result):
        return [
            eq(list(result.results), [c.name for c in chains]),
            forall(chains, lambda c: result.results[c.name] == self.geweke(c, first=first, last=last, threshold=threshold).passed),
            result.passed == forall(chains, lambda c: result.results[c.name]),
        ]


class Geweke:
    target = "diagnostic.Diagnostic.geweke"
    props = ["C02"]
    native_only = True

    def requires(self, chains, first, last):
        return len(wanted(self, chains)) > 0 and forall(wanted(self, chains), lambda c: long_enough(c, first, last))

    def ensures(self, chains, first, last, threshold, result):
        ws = wanted(self, chains)
        return [
            eq(list(result.results), [c.name for c in ws]),
            forall(ws, lambda c: result.results[c.name] == (pvalue(c, first, last) > threshold)),
            result.passed == all(result.results.values()),
        ]


class Columns:
    """the parameters of a chain are its columns without the weights and posteriors, in order"""
    target = "chain.Chain.data_columns"
    props = ["C02", "C09", "C22"]

    def ensures(self, result):
        return eq(list(result), [c for c in self.samples.columns if is_parameter(self, c)])


def is_parameter(chain, c):
    return c != chain.weight_column and c != chain.posterior_column and c.lower() not in RESERVED


RESERVED = ["weight", "weights", "posterior", "posteriors", "log_weights", "log_posterior", "log_posteriors"]
