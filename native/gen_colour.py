"""Generators for C17."""
import numpy as np

from gens import chance, gen, literals, pick

ALPHA = list("bgrkfmcoyapewxz0123456789abcdef#ABCDEFG ")


def colour(rng, i):
    from chainconsumer.color_finder import ALL_COLOURS, Colors

    alias = list(Colors().aliases)
    fixed = [None, *ALL_COLOURS, *alias, "#123456", "#ABCDEF", "#abc", "#12345678", "#000000", "#ffffff", "#12 456", "# 1f2a3", "123456", "#12345", "#1234567",
             "Blue", "BLACK", "Black", "K", "white ", "tab:blue", "C0", "salmon", "grey", "0.5", "#gggggg", "#", "bb"]
    if i < len(fixed):
        return fixed[i]
    k = rng.integers(6)
    if k == 0:
        return "#" + "".join(rng.choice(list("0123456789abcdefABCDEF"), size=6))
    if k == 1:
        return "".join(rng.choice(ALPHA, size=int(rng.integers(1, 9))))
    if k == 2:
        v = rng.random(int(pick(rng, 3, 4)))
        return v if chance(rng, 0.5) else [float(x) for x in v]
    if k == 3:
        v = rng.integers(0, 256, int(pick(rng, 3, 4))) / 255.0
        return v if chance(rng, 0.5) else [float(x) for x in v]
    if k == 4:
        return pick(rng, *ALL_COLOURS, *alias)
    return pick(rng, [s for s in literals()[1] if s] or ["x"])[int(rng.integers(0, len(literals()[1])))]


def valid(rng, i):
    from chainconsumer.color_finder import ALL_COLOURS, Colors

    k = rng.integers(5)
    if k < 2:
        return "#" + "".join(rng.choice(list("0123456789abcdef"), size=6))
    if k == 2:
        return pick(rng, *ALL_COLOURS, *Colors().aliases)
    if k == 3:
        return [float(x) for x in rng.random(3)]
    return pick(rng, "#000000", "#ffffff", "#ff0000", "#0000ff", "#010203", "#fefefe")


def colors():
    from chainconsumer.color_finder import Colors

    return Colors()


@gen("c17.Format")
def _(rng, i):
    return {"self": colors(), "color": colour(rng, i)}


@gen("c17.Name")
def _(rng, i):
    c = colour(rng, i)
    return {"self": colors(), "color": c if isinstance(c, str) and c else "blue"}


@gen("c17.Clamp")
def _(rng, i):
    lo, hi = int(rng.integers(-10, 10)), int(rng.integers(10, 300))
    e = {"self": colors(), "val": int(pick(rng, -1, 0, 255, 256, int(rng.integers(-300, 600))))}
    return e if chance(rng, 0.6) else {**e, "minimum": lo, "maximum": hi}


@gen("c17.Scale")
def _(rng, i):
    return {"self": colors(), "color": valid(rng, i), "scalefactor": float(pick(rng, 0, 1, 0.5, 2.0, 1.2, rng.uniform(0, 3), rng.uniform(0, 1), 1e6, 1e-3))}


@gen("c17.Sequence")
def _(rng, i):
    return {"self": colors(), "ghost_n": int(pick(rng, 1, 11, 12, 88, 89, 100, 500))}


@gen("c17.Formatted")
def _(rng, i):
    return {"self": colors(), "list_colors": [valid(rng, i) for _ in range(int(rng.integers(0, 6)))]}


@gen("c17.Chained")
def _(rng, i):
    return {"color": colour(rng, i)}


@gen("c17.Contours")
def _(rng, i):
    return {"colour": "#" + "".join(rng.choice(list("0123456789abcdef"), size=6)), "num": int(rng.integers(1, 6)), "shade_gradient": float(pick(rng, 0, 1, 0.5, rng.uniform(0, 4)))}
