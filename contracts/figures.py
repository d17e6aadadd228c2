"""What a figure shows: helpers for the properties about plots."""


def grid_axes(fig):
    """{(row, column): axes} of the panels; axes outside the grid (colour bars) come separately"""
    panels, others = {}, []
    main = None
    for ax in fig.axes:
        s = ax.get_subplotspec()
        if s is None or (main is not None and s.get_gridspec() is not main):
            others.append(ax)
            continue
        main = main or s.get_gridspec()
        panels[(s.rowspan.start, s.colspan.start)] = ax
    return panels, others


def colour(c):
    from matplotlib.colors import to_rgba

    return tuple(round(x, 9) for x in to_rgba(c))


def marks(ax, zmin):
    """the truth artists of an axes: straight lines across it and single markers, with their style"""
    out = []
    for line in ax.get_lines():
        if line.get_zorder() < zmin:
            continue
        x, y = list(line.get_xdata()), list(line.get_ydata())
        style = (colour(line.get_color())[:3], line.get_linestyle(), line.get_linewidth(), line.get_alpha(), line.get_zorder())
        if len(x) == 2 and x[0] == x[1]:
            out.append(("v", float(x[0])) + style)
        elif len(y) == 2 and y[0] == y[1]:
            out.append(("h", float(y[0])) + style)
        else:
            out.append(("?",) + style)
    for col in ax.collections:
        if col.get_zorder() < zmin:
            continue
        for o in col.get_offsets():
            path = [tuple(round(float(z), 9) for z in v) for v in col.get_paths()[0].vertices]
            edge = (colour(col.get_edgecolor()[0])[:3], float(col.get_linewidths()[0])) if len(col.get_edgecolor()) else None
            out.append(["m", float(o[0]), float(o[1]), colour(col.get_facecolor()[0])[:3], float(col.get_sizes()[0]), col.get_alpha(), col.get_zorder(), path, edge])
    filled = filled_paths()
    # an unfilled marker is all edge: its width is matplotlib's
    return sorted([tuple(m[:8] + [m[8] if m[7] in filled else None]) if m[0] == "m" else m for m in out], key=str)


def marker_path(marker):
    from matplotlib.markers import MarkerStyle

    m = MarkerStyle(marker)
    return [tuple(round(float(z), 9) for z in v) for v in m.get_path().transformed(m.get_transform()).vertices]


def filled_paths():
    from matplotlib.lines import Line2D

    return [marker_path(m) for m in Line2D.filled_markers]


def line_mark(kind, value, t):
    return (kind, float(value), colour(t.color)[:3], t.line_style, t.line_width, t.alpha, t.zorder)


def wanted(truths, px=None, py=None):
    """the truth artists of a panel with px along x and py along y"""
    out = []
    for t in truths:
        vx = t.location.get(px) if px is not None else None
        vy = t.location.get(py) if py is not None else None
        if vx is not None and vy is not None and t.marker is not None:
            path = marker_path(t.marker)
            edge = (colour(t.color if t.edge_color is None else t.edge_color)[:3], float(t.marker_edge_width)) if path in filled_paths() else None
            out.append(("m", float(vx), float(vy), colour(t.color)[:3], float(t.marker_size), t.alpha, t.zorder, path, edge))
            continue
        if vx is not None:
            out.append(line_mark("v", vx, t))
        if vy is not None:
            out.append(line_mark("h", vy, t))
    return sorted(out, key=str)


def triangle(fig, columns, config):
    """[(axes, column along x or None, column along y or None)] of the drawn panels of a triangle plot, and the other panels"""
    panels, others = grid_axes(fig)
    if config.plot_hists:
        rows, cols = columns, columns
    else:
        rows, cols = columns[1:], columns[:-1]
    used, empty = [], []
    for (i, j), ax in panels.items():
        if i < j:
            empty.append(ax)
        elif config.plot_hists and i == j:
            flipped = config.flip and len(columns) == 2 and i == len(rows) - 1
            used.append((ax, None if flipped else rows[i], rows[i] if flipped else None, i, j))
        else:
            used.append((ax, cols[j], rows[i], i, j))
    return used, empty, others, len(rows)


def tick_texts(axis):
    """the texts the axis shows"""
    if not axis.get_visible() or not axis.axes.get_visible():
        return []
    out = [t.get_text() for t in list(axis.get_ticklabels(which="major")) + list(axis.get_ticklabels(which="minor")) if t.get_visible()]
    off = axis.get_offset_text()
    if off.get_visible() and off.get_text():
        out.append(off.get_text())
    lo, hi = sorted(axis.get_view_interval())
    shown = []
    ticks = list(axis.get_major_ticks()) + list(axis.get_minor_ticks())
    locs = list(axis.get_majorticklocs()) + list(axis.get_minorticklocs())
    for t, v in zip(ticks, locs):
        if (t.label1.get_visible() and t.label1.get_text() or t.label2.get_visible() and t.label2.get_text()) and lo - 1e-9 * abs(lo) <= v <= hi + 1e-9 * abs(hi):
            shown.append(t.label1.get_text() or t.label2.get_text())
    if off.get_visible() and off.get_text():
        shown.append(off.get_text())
    return shown


def drawn(fig):
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fig.canvas.draw()
    return fig


def over(limits, extents):
    """the panel spans the extents; a range of a single value is widened around it by matplotlib"""
    lo, hi = (float(x) for x in limits)
    a, b = (float(x) for x in extents)
    if a == b:
        return lo < a < hi
    return abs(lo - a) <= 1e-9 * max(abs(a), abs(b)) and abs(hi - b) <= 1e-9 * max(abs(a), abs(b))
