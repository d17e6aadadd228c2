"""C19: blinded parameters never reveal their values."""
from contracts.figures import *


def hidden(self, p):
    b = self.config.blind
    return b is True or (isinstance(b, list) and p in b)


def silent(axis):
    return not tick_texts(drawn_axis(axis))


def drawn_axis(axis):
    return axis


def label_only(text, label):
    """an axis label shows the parameter's label and nothing else"""
    return text.strip() in ("", label)


class Triangle:
    target = "plotter.Plotter.plot"
    props = ["C19", "C22"]
    native_only = True

    def ensures_blind(self, columns, chains, result):
        drawn(result)
        ch = self._sanitise_chains(chains)
        cols = self._sanitise_columns(columns, ch)
        used, empty, others, n = triangle(result, cols, self.config)
        out = []
        for ax, px, py, i, j in used:
            for p, axis, text in ((px, ax.xaxis, ax.get_xlabel()), (py, ax.yaxis, ax.get_ylabel())):
                if p is not None and hidden(self, p):
                    out.append(not tick_texts(axis))
                    out.append(label_only(text, self.config.get_label(p)))
            d = px if py is None else py if px is None else None
            if d is not None and hidden(self, d):
                out.append(ax.get_title() == "")
                # the density axis of a marginal shows no values either
                out.append(not tick_texts(ax.xaxis) and not tick_texts(ax.yaxis))
        for ax in others:
            # a colour bar of a blinded parameter
            for p in {c.color_param for c in ch if c.color_param is not None}:
                if hidden(self, p) and p in (ax.get_ylabel(), ax.get_xlabel()):
                    out.append(not tick_texts(ax.yaxis) and not tick_texts(ax.xaxis))
        out.append(all(not tick_texts(ax.xaxis) and not tick_texts(ax.yaxis) for ax in empty))
        return out

    def ensures_others(self, columns, chains, result):
        """parameters that are not blinded keep their tick labels and, for a single chain, their summary"""
        drawn(result)
        ch = self._sanitise_chains(chains)
        cols = self._sanitise_columns(columns, ch)
        used, empty, others, n = triangle(result, cols, self.config)
        single = self.config.summarise and len([c for c in ch if c.plot_contour]) == 1
        out = []
        for ax, px, py, i, j in used:
            if i == n - 1 and px is not None and not hidden(self, px) and not (self.config.flip and len(cols) == 2 and self.config.plot_hists and j == n - 1):
                out.append(len(tick_texts(ax.xaxis)) > 0)
            if j == 0 and not (self.config.plot_hists and i == 0) and py is not None and not hidden(self, py):
                out.append(len(tick_texts(ax.yaxis)) > 0)
            d = px if py is None else py if px is None else None
            if d is not None and not hidden(self, d) and single and self.config.plot_hists:
                c = [c for c in ch if c.plot_contour][0]
                if d in c.samples and c.bar_shade and not c.multimodal:
                    want = self.parent.analysis.get_parameter_text(self.parent.analysis.get_parameter_summary(c, d), wrap=True, label=self.config.get_label(d).strip("$"))
                    out.append(ax.get_title() == want)
        return out

    def ensures_panels(self, columns, chains, result):
        """C22: the panels are the requested columns in order, over the requested extents"""
        ch = self._sanitise_chains(chains)
        cols = self._sanitise_columns(columns, ch)
        used, empty, others, n = triangle(result, cols, self.config)
        ext = self._get_custom_extents(cols, ch, self.config.extents)
        out = [len(used) == n * (n + 1) // 2, len(empty) == n * (n - 1) // 2]
        for ax, px, py, i, j in used:
            if i == n - 1 and px is not None and not (self.config.flip and len(cols) == 2 and self.config.plot_hists and j == n - 1):
                out.append(ax.get_xlabel().split(" [")[0].strip() == self.config.get_label(px).split(" [")[0].strip())
            if px is not None and py is not None:
                out.append(over(ax.get_xlim(), ext[px]) and over(ax.get_ylim(), ext[py]))
            elif px is not None:
                out.append(over(ax.get_xlim(), ext[px]))
            else:
                out.append(over(ax.get_ylim(), ext[py]))
        return out


class Distributions:
    target = "plotter.Plotter.plot_distributions"
    props = ["C19", "C22"]
    native_only = True

    def ensures(self, columns, chains, col_wrap, result):
        drawn(result)
        ch = self._sanitise_chains(chains)
        cols = self._sanitise_columns(columns, ch)
        ext = self._get_custom_extents(cols, ch, self.config.extents)
        panels, others = grid_axes(result)
        wide = min(len(cols), col_wrap)
        single = self.config.summarise and len(ch) == 1
        out = []
        for (i, j), ax in panels.items():
            k = i * wide + j
            if k >= len(cols):
                continue
            p = cols[k]
            out.append(over(ax.get_xlim(), ext[p]) and ax.get_xlabel() == p and not tick_texts(ax.yaxis))
            if hidden(self, p):
                out.append(not tick_texts(ax.xaxis) and ax.get_title() == "")
            else:
                out.append(len(tick_texts(ax.xaxis)) > 0)
                if single and ch[0].plot_contour and p in ch[0].plotting_columns and ch[0].bar_shade and not ch[0].multimodal:
                    a = self.parent.analysis
                    out.append(ax.get_title() == a.get_parameter_text(a.get_parameter_summary(ch[0], p), wrap=True, label=self.config.get_label(p).strip("$")))
        return out


class Summary:
    target = "plotter.Plotter.plot_summary"
    props = ["C19", "C22"]
    native_only = True

    def ensures(self, columns, chains, errorbar, result):
        drawn(result)
        ch = self._sanitise_chains(chains)
        cols = self._sanitise_columns(columns, ch)
        ext = self._get_custom_extents(cols, ch, self.config.extents, wide_extents=not errorbar)
        panels, others = grid_axes(result)
        out = [len(panels) == len(ch) * (len(cols) + 1)]
        for (i, j), ax in panels.items():
            if j == 0:
                out.append([t.get_text() for t in ax.texts] == [ch[i].name])
                continue
            p = cols[j - 1]
            out.append(over(ax.get_xlim(), ext[p]) and not tick_texts(ax.yaxis))
            out.append(ax.get_title() == (self.config.get_label(p) if i == 0 else ""))
            if hidden(self, p):
                out.append(not tick_texts(ax.xaxis))
            elif i == len(ch) - 1:
                out.append(len(tick_texts(ax.xaxis)) > 0)
        return out


class Walks:
    target = "plotter.Plotter.plot_walks"
    props = ["C19", "C22"]
    native_only = True

    def ensures(self, columns, chains, plot_weights, plot_posterior, result):
        drawn(result)
        ch = self._sanitise_chains(chains)
        cols = self._sanitise_columns(columns, ch)
        panels, others = grid_axes(result)
        extra = (1 if plot_weights else 0) + (1 if plot_posterior and any(c.posterior_column in c.samples for c in ch) else 0)
        out = [len(panels) == len(cols) + extra]
        for (i, j), ax in panels.items():
            if i < extra:
                continue
            p = cols[i - extra]
            if hidden(self, p):
                out.append(not tick_texts(ax.yaxis) and ax.get_title() == "" and label_only(ax.get_ylabel(), self.config.get_label(p)))
            elif any(p in c.data_columns for c in ch):
                out.append(len(tick_texts(ax.yaxis)) > 0 and ax.get_ylabel() == self.config.get_label(p))
                if p in (self.config.extents or {}):
                    out.append(over(ax.get_ylim(), self.config.extents[p]))
        return out


class Dist:
    target = "plotting.contours.plot_dist"
    props = ["C19"]
    native_only = True

    def ensures(ax, chain, px, config, summary):
        hide = config is not None and (config.blind is True or (isinstance(config.blind, list) and px in config.blind))
        return implies(hide or not summary, ax.get_title() == "") and implies(summary and not hide, ax.get_title() != "")


class Blinds:
    target = "plotter.Plotter._sanitise_blinds"
    props = ["C19"]

    def ensures(self, blind, columns, result):
        if NATIVE:
            return [p in result for p in columns if blinded(blind, p)] + [p not in result for p in columns if not blinded(blind, p)]
        if blind is True:
            return [forall(len(columns), lambda i: columns[i] in result)]
        if blind is None or blind is False:
            return [forall(len(columns), lambda i: columns[i] not in result)]
        return [forall(len(columns), lambda i: (columns[i] in result) == (columns[i] in blind)), forall(len(blind), lambda i: blind[i] in result)]


def blinded(blind, p):
    return blind is True or (isinstance(blind, list) and p in blind)
