"""C18: truth values are drawn where they belong."""
from contracts.figures import *

ZMIN = 1000


def value_of(t, p):
    return None if p is None else t.location.get(p)


def line_style(t):
    return {"ls": t.line_style, "c": t.color, "lw": t.line_width, "alpha": t.alpha, "zorder": t.zorder}


def as_marker(t, px, py):
    return value_of(t, px) is not None and value_of(t, py) is not None and t.marker is not None


class Truths:
    """one panel: the truths that have a value for its parameters, nothing else, in their own style"""
    target = "plotting.truth.plot_truths"
    props = ["C18"]

    def ensures(ax, truths, px, py):
        if NATIVE:
            return marks(ax, ZMIN) == wanted(truths, px, py)
        return [
            eq(calls(ax, "axvline"), [((value_of(t, px),), line_style(t)) for t in truths if value_of(t, px) is not None and not as_marker(t, px, py)]),
            eq(calls(ax, "axhline"), [((value_of(t, py),), line_style(t)) for t in truths if value_of(t, py) is not None and not as_marker(t, px, py)]),
            eq([c[0] for c in calls(ax, "scatter")], [(value_of(t, px), value_of(t, py)) for t in truths if as_marker(t, px, py)]),
            eq([c[1] for c in calls(ax, "scatter")], [t._marker_kwargs for t in truths if as_marker(t, px, py)]),
            len(calls(ax, "plot")) == 0 and len(calls(ax, "other")) == 0,
        ]


class MarkerStyle:
    """the style of a truth's marker: its own"""
    target = "truth.Truth._marker_kwargs"
    props = ["C18"]

    def ensures(self, result):
        style = {"marker": self.marker, "s": self.marker_size, "color": self.color, "alpha": self.alpha, "zorder": self.zorder}
        edge = {"edgecolor": self.color if self.edge_color is None else self.edge_color, "facecolor": self.color, "linewidth": self.marker_edge_width}
        return [result[k] == style[k] for k in style] + ([result[k] == edge[k] for k in edge] if self.is_filled_marker else [len(result) == len(style)])


class Triangle:
    target = "plotter.Plotter.plot"
    props = ["C18"]
    native_only = True

    def ensures(self, columns, chains, result):
        truths = self.parent._truths
        cols = self._sanitise_columns(columns, self._sanitise_chains(chains))
        used, empty, others, n = triangle(result, cols, self.config)
        return [len(used) == n * (n + 1) // 2] + [marks(ax, ZMIN) == wanted(truths, px, py) for ax, px, py, _, _ in used] + [
            marks(ax, ZMIN) == [] for ax in empty + others]


class Distributions:
    target = "plotter.Plotter.plot_distributions"
    props = ["C18"]
    native_only = True

    def ensures(self, columns, chains, col_wrap, result):
        truths = self.parent._truths
        cols = self._sanitise_columns(columns, self._sanitise_chains(chains))
        panels, others = grid_axes(result)
        wide = min(len(cols), col_wrap)
        out = [len(panels) >= len(cols)]
        for (i, j), ax in panels.items():
            k = i * wide + j
            out.append(marks(ax, ZMIN) == (wanted(truths, cols[k]) if k < len(cols) else []))
        return out


class Summary:
    target = "plotter.Plotter.plot_summary"
    props = ["C18"]
    native_only = True

    def ensures(self, columns, chains, result):
        truths = self.parent._truths
        ch = self._sanitise_chains(chains)
        cols = self._sanitise_columns(columns, ch)
        panels, others = grid_axes(result)
        return [len(panels) == len(ch) * (len(cols) + 1)] + [
            marks(ax, ZMIN) == (wanted(truths, cols[j - 1]) if j > 0 else []) for (i, j), ax in panels.items()]


class Walks:
    target = "plotter.Plotter.plot_walks"
    props = ["C18"]
    native_only = True

    def ensures(self, columns, chains, plot_weights, plot_posterior, result):
        truths = self.parent._truths
        ch = self._sanitise_chains(chains)
        cols = self._sanitise_columns(columns, ch)
        panels, others = grid_axes(result)
        extra = (1 if plot_weights else 0) + (1 if plot_posterior and any(c.posterior_column in c.samples for c in ch) else 0)
        return [len(panels) == len(cols) + extra] + [
            marks(ax, ZMIN) == (wanted(truths, None, cols[i - extra]) if i >= extra else []) for (i, j), ax in panels.items()]
