"""C09: covariance and correlation tables are the weighted statistics."""


def colsum(c, f):
    return sumof(nrows(c.samples), f)


def wmean(c, x):
    w = c.weights
    return colsum(c, lambda i: w[i] * cell(c.samples, x, i)) / colsum(c, lambda i: w[i])


def wcov(c, x, y):
    """sample covariance with reliability weights (the published definition behind numpy's aweights)"""
    w = c.weights
    mx, my = wmean(c, x), wmean(c, y)
    v1 = colsum(c, lambda i: w[i])
    v2 = colsum(c, lambda i: w[i] * w[i])
    return colsum(c, lambda i: w[i] * (cell(c.samples, x, i) - mx) * (cell(c.samples, y, i) - my)) / (v1 - v2 / v1)


def selected(c, columns):
    return lazyif(is_none(columns), lambda: c.data_columns, lambda: val(columns))


def known(c, columns):
    return lazyif(is_none(columns), lambda: True, lambda: forall(val(columns), lambda x: x in c.samples) and len(val(columns)) > 0)


def enough(c):
    """covariances are defined: the weights do not all sit on one sample"""
    w = c.weights
    v1 = colsum(c, lambda i: w[i])
    return nrows(c.samples) > 1 and v1 * v1 != colsum(c, lambda i: w[i] * w[i])


class Covariance:
    target = "chain.Chain.get_covariance"
    props = ["C09"]

    def requires(self, columns):
        return known(self, columns) and enough(self) and len(selected(self, columns)) > 0

    def old(self):
        return self.samples.copy()

    def ensures(self, columns, old, result):
        cols = selected(self, columns)
        sd = [(wcov(self, x, x) + 1e-14 * wmean(self, x) ** 2) ** 0.5 for x in cols] if NATIVE else []
        return [
            eq(list(result.columns), list(cols)),
            result.matrix.ndim == 2,
            result.matrix.shape[0] == len(cols),
            result.matrix.shape[1] == len(cols),
            forall(len(cols), lambda i: forall(len(cols), lambda j: eq(result.matrix[i, j], wcov(self, cols[i], cols[j]), 1e-7,
                                                                         sd[i] * sd[j] if NATIVE else 1))),
            cells_equal(self.samples, old),
        ]


class Correlation:
    target = "chain.Chain.get_correlation"
    props = ["C09"]
    uses = ["c09.Covariance"]
    opaque = {"wcov": "real"}

    def requires(self, columns):
        return known(self, columns) and enough(self) and len(selected(self, columns)) > 0 and forall(
            selected(self, columns), lambda x: wcov(self, x, x) > (1e-9 * (wmean(self, x) ** 2) if NATIVE else 0))

    def old(self):
        return self.samples.copy()

    def ensures(self, columns, old, result):
        cols = selected(self, columns)
        return [
            eq(list(result.columns), list(cols)),
            result.matrix.ndim == 2,
            result.matrix.shape[0] == len(cols),
            result.matrix.shape[1] == len(cols),
            forall(len(cols), lambda i: forall(len(cols), lambda j: eq(
                result.matrix[i, j] * (np.sqrt(wcov(self, cols[i], cols[i])) * np.sqrt(wcov(self, cols[j], cols[j]))), wcov(self, cols[i], cols[j]), 1e-6,
                (wcov(self, cols[i], cols[i]) * wcov(self, cols[j], cols[j])) ** 0.5 if NATIVE else 1))),
            forall(len(cols), lambda i: eq(result.matrix[i, i], 1, 1e-6)),
            cells_equal(self.samples, old),
        ]
