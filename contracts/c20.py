"""C20: the kernel density estimate is the weighted truncated kernel sum."""


def shape2(train):
    t = np.asarray(train, dtype=float)
    return t.reshape(-1, 1) if t.ndim == 1 else t


class Build:
    """whitening from the weighted mean and covariance, bandwidth from the sample size and the factor"""
    target = "kde.MegKDE"
    props = ["C20"]
    native_only = True

    def requires(train, weights):
        t = shape2(train)
        w = np.ones(len(t)) if weights is None else weights
        return len(t) >= 3 and np.linalg.cond(np.atleast_2d(np.cov(t.T, aweights=w))) < 1e10

    def ensures(train, weights, truncation, nmin, factor, result):
        t = shape2(train)
        n, d = t.shape
        w = np.ones(n) if weights is None else np.asarray(weights, dtype=float)
        mean = (t * w[:, None]).sum(axis=0) / w.sum()
        x = t - mean
        # reliability weights, as numpy.cov does with aweights
        cov = (x * w[:, None]).T @ x / (w.sum() - (w**2).sum() / w.sum())
        out = [
            eq(result.mean, mean, 1e-8, np.abs(t).max()), result.num_points == n, result.num_dim == d, eq(np.asarray(result.weights, dtype=float), w),
            eq(result.sigma, 2.0 * factor * n ** (-1.0 / (4 + d))), result.truncation == truncation, result.nmin == nmin,
        ]
        # distances in the whitened space are the Mahalanobis distances
        inv = np.linalg.inv(cov)
        m = np.einsum("ij,jk,ik->i", x, inv, x)
        out.append(eq((result.d**2).sum(axis=1), m, 1e-6, m.max()))
        return out


class Evaluate:
    target = "kde.MegKDE.evaluate"
    props = ["C20"]
    native_only = True

    def ensures(self, data, ghost_train, result):
        t = shape2(ghost_train)
        n, d = t.shape
        w = np.asarray(self.weights, dtype=float)
        x = np.asarray(data, dtype=float)
        x = x.reshape(-1, 1) if x.ndim == 1 and d == 1 else x
        mean = (t * w[:, None]).sum(axis=0) / w.sum()
        c = t - mean
        cov = (c * w[:, None]).T @ c / (w.sum() - (w**2).sum() / w.sum())
        inv = np.linalg.inv(cov)
        out = [isinstance(result, np.ndarray) and result.shape == (len(x),), bool((result >= 0).all())]
        for p, got in zip(x, result):
            e = t - p
            m2 = np.einsum("ij,jk,ik->i", e, inv, e)
            dist = np.sqrt(np.maximum(m2, 0))
            r = self.sigma * self.truncation
            if np.any(np.abs(dist - r) < 1e-7 * (1 + r)):
                continue  # membership of a point on the boundary is not determined
            inside = dist < r
            if inside.sum() < self.nmin:
                order = np.argsort(dist, kind="stable")
                k = min(self.nmin, n)
                if k < n and dist[order[k]] - dist[order[k - 1]] < 1e-9 * (1 + dist[order[k]]):
                    continue  # ties for the nearest
                inside = np.zeros(n, dtype=bool)
                inside[order[:k]] = True
            want = float((w[inside] * np.exp(-0.5 * m2[inside] / self.sigma**2)).sum())
            out.append(abs(float(got) - want) <= 1e-6 * want + 1e-300 + 1e-9 * want)
        return out

    def ensures_bandwidth(self, ghost_factor, ghost_train):
        n, d = shape2(ghost_train).shape
        return eq(self.sigma, 2.0 * ghost_factor * n ** (-1.0 / (4 + d)))


class Pure:
    """estimates do not depend on the other points asked for, nor on earlier calls"""
    target = "kde.MegKDE.evaluate"
    props = ["C20"]
    native_only = True

    def ensures(self, data, result):
        again = self.evaluate(data[::-1])[::-1]
        return [eq(result, again, 1e-12), eq(result[:1], self.evaluate(data[:1]), 1e-12)]
