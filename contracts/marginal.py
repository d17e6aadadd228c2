"""Facts about the smoothed 1D marginal that the summaries rely on (proved for Analysis._get_smoothed_histogram under C15)."""


def proper(m):
    """a marginal on an increasing grid: density >= 0 with some mass, cumulative curve non decreasing and ending at one"""
    xs, ys, cs = m
    return [
        len(xs) >= 2,
        len(ys) == len(xs),
        len(cs) == len(xs),
        sorted_lt(xs),
        nonneg(ys),
        exists(len(ys), lambda k: ys[k] > 0),
        sorted_le(cs),
        cs[0] >= 0,
        eq(cs[len(xs) - 1], 1),
    ]


def cdf_point(xs, cs, p, v):
    """v is a point where the piecewise linear curve through (xs, cs) takes the value p (the first grid point when it starts above p)"""
    return (p <= cs[0] and eq(v, xs[0])) or exists(
        len(xs) - 1,
        lambda k: cs[k] <= p and le(p, cs[k + 1]) and le(xs[k], v) and le(v, xs[k + 1])
        and eq((v - xs[k]) * (cs[k + 1] - cs[k]), (p - cs[k]) * (xs[k + 1] - xs[k]), 1e-9, xs[k + 1] - xs[k]))


def peak(xs, ys, v):
    """v is the grid point of highest density"""
    return exists(len(xs), lambda k: v == xs[k] and forall(len(xs), lambda j: ys[j] <= ys[k]))
