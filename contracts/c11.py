"""C11: override precedence and isolation of chain options."""


def given(c):
    """the options the user gave explicitly"""
    return c._user_specified


def plotted(chains):
    return sumof(len(chains), lambda i: 1 if list(chains.values())[i].plot_contour else 0)


def inferred(c, option, n):
    """the default that depends on the set of loaded chains"""
    if option in ("bar_shade", "shade"):
        return n < 5
    if option == "sigmas":
        return [0, 1, 2]
    if option == "shade_alpha":
        return (1.0 if n < 1 else 1.0 / np.sqrt(n)) * (0.5 if c.show_contour_labels else 1.0)
    return None


INFERRED = ["bar_shade", "shade", "sigmas", "shade_alpha"]


class Final:
    target = "chainconsumer.ChainConsumer._get_final_chains"
    props = ["C11"]
    native_only = True

    def old(self):
        return {k: (c, dict(c.__dict__), set(c.__dict__), set(c._user_specified), c.samples.copy()) for k, c in self._chains.items()}

    def ensures(self, old, result):
        """the override where it was set explicitly, else the user's value, else the inferred default"""
        o = self._global_chain_override
        n = plotted(self._chains)
        out = [list(result) == list(self._chains)]
        for name, c in self._chains.items():
            f = result[name]
            for k in type(c).model_fields:
                if o is not None and k in given(o):
                    out.append(eq(getattr(f, k), getattr(o, k)))
                elif k in given(c):
                    out.append(eq(getattr(f, k), getattr(c, k)))
                elif k in INFERRED:
                    out.append(eq(getattr(f, k), inferred(c, k, n)))
                elif k != "color":
                    out.append(eq(getattr(f, k), getattr(c, k)))
                elif c.color is not None:
                    out.append(f.color == c.color)
        return out

    def ensures_colours(self, result):
        """automatic colours are valid, and different as long as the palette lasts"""
        o = self._global_chain_override
        if o is not None and "color" in given(o):
            return True
        auto = [result[k].color for k, c in self._chains.items() if c.color is None and "color" not in given(c)]
        return [all(isinstance(x, str) and x.startswith("#") for x in auto), distinct(auto[:88])]

    def ensures_isolated(self, old, result):
        """the loaded chains are as they were, and writing to a result does not reach them"""
        out = [list(old) == list(self._chains)]
        for k, (c, fields, names, given_, samples) in old.items():
            out.append(self._chains[k] is c and set(c.__dict__) == names and all(c.__dict__[x] is fields[x] for x in names))
            out.append(set(c._user_specified) == given_ and cells_equal(c.samples, samples))
            out.append(result[k] is not c)
            keep = {x: getattr(c, x) for x in ("bins", "linewidth", "zorder")}
            result[k].bins, result[k].linewidth, result[k].zorder = 99, 17.5, -3
            out.append(all(getattr(c, x) is v for x, v in keep.items()))
        return out


def keeps(f, c):
    """the options a set of chains never changes are the user's"""
    return [
        eq(f.statistics, c.statistics), eq(f.summary_area, c.summary_area), eq(f.linestyle, c.linestyle), eq(f.linewidth, c.linewidth),
        eq(f.show_contour_labels, c.show_contour_labels), eq(f.shade_gradient, c.shade_gradient), eq(f.multimodal, c.multimodal), eq(f.bins, c.bins),
        eq(f.kde, c.kde), eq(f.smooth, c.smooth), eq(f.color_param, c.color_param), eq(f.cmap, c.cmap), eq(f.num_cloud, c.num_cloud),
        eq(f.plot_cloud, c.plot_cloud), eq(f.plot_contour, c.plot_contour), eq(f.plot_point, c.plot_point), eq(f.marker_style, c.marker_style),
        eq(f.marker_size, c.marker_size), eq(f.marker_alpha, c.marker_alpha), eq(f.zorder, c.zorder), eq(f.shift_params, c.shift_params),
        eq(f.weight_column, c.weight_column), eq(f.posterior_column, c.posterior_column), eq(f.walkers, c.walkers), eq(f.grid, c.grid),
        eq(f.num_free_params, c.num_free_params), eq(f.num_eff_data_points, c.num_eff_data_points), eq(f.power, c.power),
        eq(f.show_label_in_legend, c.show_label_in_legend), eq(f.histogram_relative_height, c.histogram_relative_height), eq(f.name, c.name),
        cells_equal(f.samples, c.samples),
    ]


class Plain:
    """without an override: the user's value, else the inferred default (proved)"""
    target = "chainconsumer.ChainConsumer._get_final_chains"
    props = ["C11"]

    def requires(self):
        return [is_none(self._global_chain_override)]

    def old(self):
        return dict(self._chains)

    def ensures(self, old, result):
        n = len([c for c in old.values() if c.plot_contour])
        return [
            eq(list(result), list(old)),
            forall(list(old), lambda k: all(keeps(result[k], old[k]))),
            forall(list(old), lambda k: result[k].shade == (old[k].shade if "shade" in old[k]._user_specified else n < 5)),
            forall(list(old), lambda k: lazyif("sigmas" in old[k]._user_specified, lambda: eq(result[k].sigmas, old[k].sigmas), lambda: eq(result[k].sigmas, [0, 1, 2]))),
            forall(list(old), lambda k: lazyif("color" in old[k]._user_specified or not is_none(old[k].color), lambda: eq(result[k].color, old[k].color), lambda: not is_none(result[k].color))),
            forall(list(old), lambda k: eq(result[k].shade_alpha, old[k].shade_alpha if "shade_alpha" in old[k]._user_specified else
                                           (1.0 if n < 1 else 1.0 / np.sqrt(n)) * (0.5 if old[k].show_contour_labels else 1.0))),
            forall(list(old), lambda k: result[k].bar_shade == (old[k].bar_shade if "bar_shade" in old[k]._user_specified else n < 5)),
        ]

    def ensures_kept(self, old):
        return [eq(list(self._chains), list(old)), forall(list(old), lambda k: same_object(self._chains[k], old[k]))]


def overridden(f, c, o):
    """the override where it was set explicitly, else the user's value (options without an inferred default)"""
    g = o._user_specified
    return [
        eq(f.linestyle, o.linestyle if "linestyle" in g else c.linestyle), eq(f.linewidth, o.linewidth if "linewidth" in g else c.linewidth),
        eq(f.show_contour_labels, o.show_contour_labels if "show_contour_labels" in g else c.show_contour_labels),
        eq(f.shade_gradient, o.shade_gradient if "shade_gradient" in g else c.shade_gradient),
        eq(f.multimodal, o.multimodal if "multimodal" in g else c.multimodal), eq(f.bins, o.bins if "bins" in g else c.bins),
        eq(f.kde, o.kde if "kde" in g else c.kde), eq(f.smooth, o.smooth if "smooth" in g else c.smooth),
        eq(f.color_param, o.color_param if "color_param" in g else c.color_param), eq(f.cmap, o.cmap if "cmap" in g else c.cmap),
        eq(f.num_cloud, o.num_cloud if "num_cloud" in g else c.num_cloud), eq(f.plot_cloud, o.plot_cloud if "plot_cloud" in g else c.plot_cloud),
        eq(f.plot_contour, o.plot_contour if "plot_contour" in g else c.plot_contour),
        eq(f.plot_point, o.plot_point if "plot_point" in g else c.plot_point),
        eq(f.marker_style, o.marker_style if "marker_style" in g else c.marker_style),
        eq(f.marker_size, o.marker_size if "marker_size" in g else c.marker_size),
        eq(f.marker_alpha, o.marker_alpha if "marker_alpha" in g else c.marker_alpha), eq(f.zorder, o.zorder if "zorder" in g else c.zorder),
        eq(f.shift_params, o.shift_params if "shift_params" in g else c.shift_params),
        eq(f.statistics, o.statistics if "statistics" in g else c.statistics),
        eq(f.summary_area, o.summary_area if "summary_area" in g else c.summary_area),
    ]


def own(f, c):
    """the options an override has not are the user's"""
    return [
        eq(f.name, c.name), eq(f.weight_column, c.weight_column), eq(f.posterior_column, c.posterior_column), eq(f.walkers, c.walkers), eq(f.grid, c.grid),
        eq(f.num_free_params, c.num_free_params), eq(f.num_eff_data_points, c.num_eff_data_points), eq(f.power, c.power),
        eq(f.show_label_in_legend, c.show_label_in_legend), eq(f.histogram_relative_height, c.histogram_relative_height), cells_equal(f.samples, c.samples),
    ]


def overridden_inferred(f, c, o, n):
    """the override where it was set explicitly, else the user's value, else the inferred default"""
    g, u = o._user_specified, c._user_specified
    return [
        f.shade == (o.shade if "shade" in g else c.shade if "shade" in u else n < 5),
        f.bar_shade == (o.bar_shade if "bar_shade" in g else c.bar_shade if "bar_shade" in u else n < 5),
        lazyif("sigmas" in g, lambda: eq(f.sigmas, o.sigmas), lambda: lazyif("sigmas" in u, lambda: eq(f.sigmas, c.sigmas), lambda: eq(f.sigmas, [0, 1, 2]))),
        lazyif("color" in g, lambda: eq(f.color, o.color), lambda: "color" not in u and is_none(c.color) or eq(f.color, c.color)),
        eq(f.shade_alpha, o.shade_alpha if "shade_alpha" in g else c.shade_alpha if "shade_alpha" in u else
           (1.0 if n < 1 else 1.0 / np.sqrt(n)) * (0.5 if c.show_contour_labels else 1.0)),
    ]


class Overridden:
    """with an override (proved)"""
    target = "chainconsumer.ChainConsumer._get_final_chains"
    props = ["C11"]

    def requires(self):
        return [not is_none(self._global_chain_override)]

    def old(self):
        return dict(self._chains)

    def ensures(self, old, result):
        n = len([c for c in old.values() if c.plot_contour])
        o = val(self._global_chain_override)
        return [
            eq(list(result), list(old)),
            forall(list(old), lambda k: all(overridden(result[k], old[k], o))),
            forall(list(old), lambda k: all(own(result[k], old[k]))),
            forall(list(old), lambda k: overridden_inferred(result[k], old[k], o, n)[0]),
            forall(list(old), lambda k: overridden_inferred(result[k], old[k], o, n)[1]),
            forall(list(old), lambda k: overridden_inferred(result[k], old[k], o, n)[2]),
            forall(list(old), lambda k: overridden_inferred(result[k], old[k], o, n)[3]),
            forall(list(old), lambda k: overridden_inferred(result[k], old[k], o, n)[4]),
        ]

    def ensures_kept(self, old):
        return [eq(list(self._chains), list(old)), forall(list(old), lambda k: same_object(self._chains[k], old[k]))]


class Reversible:
    """any history of overrides, additions and removals leaves the options those of a fresh consumer"""
    target = "chainconsumer.ChainConsumer._get_final_chains"
    props = ["C11"]
    native_only = True

    def ensures(self, ghost_fresh, result):
        want = ghost_fresh._get_final_chains()
        return [list(result) == list(want)] + [
            eq(getattr(result[k], x), getattr(want[k], x)) for k in want for x in type(want[k]).model_fields if x != "samples"]


class Override:
    """only the explicitly given options of a config are dumped"""
    target = "base.BetterBase.get_user_specified_dump"
    props = ["C11"]
    native_only = True

    def ensures(self, ghost_kwargs, result):
        return set(result) == set(ghost_kwargs) and all(eq(result[k], getattr(self, k)) for k in result)


def listed(c):
    """a chain without data or without any way to show it is left out"""
    return not (nrows(c.samples) == 0 or not (c.plot_contour or c.plot_cloud or c.plot_point))


class UsedAll:
    """all final chains but the skipped ones, in their order"""
    target = "plotter.Plotter._sanitise_chains"
    types = {"chains": "None"}
    pure = {"chainconsumer.ChainConsumer._get_final_chains": "dict[str, Chain]"}
    props = ["C11", "C22"]

    def ensures(self, include_skip, result):
        final = self.parent._get_final_chains()
        return eq(list(result), [final[n] for n in final if include_skip or listed(final[n])])


class UsedNamed:
    """the final versions of the named chains, in the order they were named"""
    target = "plotter.Plotter._sanitise_chains"
    types = {"chains": "list[str]"}
    pure = {"chainconsumer.ChainConsumer._get_final_chains": "dict[str, Chain]"}
    props = ["C11", "C22"]

    def requires(self, chains):
        return forall(chains, lambda n: n in self.parent._get_final_chains())

    def ensures(self, chains, include_skip, result):
        final = self.parent._get_final_chains()
        return eq(list(result), [final[n] for n in chains if include_skip or listed(final[n])])


class UsedChains:
    """the final versions of the given chains, in their order"""
    target = "plotter.Plotter._sanitise_chains"
    types = {"chains": "list[Chain]"}
    pure = {"chainconsumer.ChainConsumer._get_final_chains": "dict[str, Chain]"}
    props = ["C11", "C22"]

    def requires(self, chains):
        return forall(chains, lambda c: c.name in self.parent._get_final_chains())

    def ensures(self, chains, include_skip, result):
        final = self.parent._get_final_chains()
        return eq(list(result), [final[c.name] for c in chains if include_skip or listed(final[c.name])])


class Used:
    """plots and summaries use the final options"""
    target = "plotter.Plotter._sanitise_chains"
    props = ["C11", "C22"]
    native_only = True

    def requires(self, chains):
        return not isinstance(chains, dict)

    def ensures(self, chains, include_skip, result):
        final = self.parent._get_final_chains()
        want = [final[c if isinstance(c, str) else c.name] for c in (list(final) if chains is None else chains)]
        if not include_skip:
            want = [c for c in want if not (len(c.samples) == 0 or not (c.plot_contour or c.plot_cloud or c.plot_point))]
        return [[c.name for c in result] == [c.name for c in want]] + [
            eq(getattr(a, x), getattr(b, x)) for a, b in zip(result, want) for x in type(b).model_fields if x != "samples"] + [
            a.samples is b.samples or cells_equal(a.samples, b.samples) for a, b in zip(result, want)]
