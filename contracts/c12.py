"""C12: the chain registry is an ordered map by name; a marker is a point-only chain at the given location.

Every operation relates the registry before and after it, so by induction over a history the registry holds exactly the chains added and not
since removed, in order of addition."""


def keyed(chains):
    """each chain is found under its own name"""
    return forall(chains, lambda n: chains[n].name == n)


def before(self):
    return dict(self._chains)


def unchanged(self, old):
    return [eq(list(self._chains), list(old)), forall(old, lambda n: same_object(self._chains[n], old[n]))]


class Add:
    target = "chainconsumer.ChainConsumer.add_chain"
    props = ["C12"]

    def requires(self):
        return keyed(self._chains)

    def old(self):
        return before(self)

    def raises(self, chain, old):
        return {"AssertionError": chain.name in old}

    def ensures_raised(self, old):
        return unchanged(self, old)

    def ensures(self, chain, old, result):
        return [
            same_object(result, self),
            eq(list(self._chains), list(old) + [chain.name]),
            same_object(self._chains[chain.name], chain),
            forall(old, lambda n: same_object(self._chains[n], old[n])),
            keyed(self._chains),
        ]


class Remove:
    target = "chainconsumer.ChainConsumer.remove_chain"
    props = ["C12"]
    types = {"remove": "str"}

    def requires(self):
        return keyed(self._chains)

    def old(self):
        return before(self)

    def raises(self, remove, old):
        return {"AssertionError": remove not in old}

    def ensures_raised(self, old):
        return unchanged(self, old)

    def ensures(self, remove, old, result):
        left = [n for n in old if n != remove]
        return [
            same_object(result, self),
            eq(list(self._chains), left),
            forall(left, lambda n: same_object(self._chains[n], old[n])),
            keyed(self._chains),
        ]


class RemoveChain:
    """removal by the chain itself is removal by its name"""
    target = "chainconsumer.ChainConsumer.remove_chain"
    props = ["C12"]
    types = {"remove": "Chain"}

    def requires(self):
        return keyed(self._chains)

    def old(self):
        return before(self)

    def raises(self, remove, old):
        return {"AssertionError": remove.name not in old}

    def ensures_raised(self, old):
        return unchanged(self, old)

    def ensures(self, remove, old, result):
        left = [n for n in old if n != remove.name]
        return [
            eq(list(self._chains), left),
            forall(left, lambda n: same_object(self._chains[n], old[n])),
        ]


class Get:
    target = "chainconsumer.ChainConsumer.get_chain"
    props = ["C12"]

    def old(self):
        return before(self)

    def raises(self, name, old):
        return {"AssertionError": name not in old}

    def ensures_raised(self, old):
        return unchanged(self, old)

    def ensures(self, name, old, result):
        return [same_object(result, old[name])] + unchanged(self, old)


class Names:
    target = "chainconsumer.ChainConsumer.get_names"
    props = ["C12"]

    def old(self):
        return before(self)

    def ensures(self, old, result):
        return [eq(list(result), list(old))] + unchanged(self, old)


RESERVED = ["weight", "weights", "posterior", "posteriors", "log_weights", "log_posterior", "log_posteriors"]


class Marker:
    target = "chainconsumer.ChainConsumer.add_marker"
    props = ["C12"]
    types = {"color": "None"}

    def requires(self, location):
        return [keyed(self._chains), forall(location, lambda k: k not in RESERVED and k.lower() not in RESERVED), finite(list(location.values()))]

    def old(self):
        return before(self)

    def raises(self, name, marker_size, old):
        return {"ValidationError": marker_size < 1, "AssertionError": marker_size >= 1 and name in old}

    def ensures_raised(self, old):
        return unchanged(self, old)

    def ensures(self, location, name, old, result):
        c = self._chains[name]
        p = val(c.get_max_posterior_point())
        return [
            same_object(result, self),
            eq(list(self._chains), list(old) + [name]),
            forall(old, lambda n: same_object(self._chains[n], old[n])),
            c.name == name,
            c.plot_point and not c.plot_contour and not c.plot_cloud,
            nrows(c.samples) == 1,
            eq(list(p.coordinate), list(location)),
            forall(location, lambda k: p.coordinate[k] == location[k]),
        ]

    def ensures_options(self, marker_size, marker_style, marker_alpha, name):
        c = self._chains[name]
        return [c.marker_size == marker_size, c.marker_style == marker_style, c.marker_alpha == marker_alpha]


class History:
    """after any history of operations the registry is the model's (the model is kept by the generator)"""
    target = "chainconsumer.ChainConsumer.get_names"
    props = ["C12"]
    native_only = True

    def ensures(self, ghost_model, ghost_points, result):
        return [
            eq(list(result), list(ghost_model)),
            forall(ghost_model, lambda n: ghost_model[n] is None or self.get_chain(n) is ghost_model[n]),
            forall(ghost_points, lambda n: n not in ghost_model or eq(dict(self.get_chain(n).get_max_posterior_point().coordinate), ghost_points[n])),
            forall(ghost_model, lambda n: self.get_chain(n).name == n),
        ]
