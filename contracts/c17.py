"""C17: colour inputs resolve to valid, stable colours."""
from chainconsumer.color_finder import ALL_COLOURS

# the palette entry each alias stands for
ALIASES = {
    "b": ("blue", 4), "r": ("red", 4), "g": ("green", 4), "k": ("gray", 8), "f": ("gray", 0), "m": ("rose", 4), "c": ("cyan", 4), "o": ("orange", 4),
    "y": ("yellow", 4), "a": ("amber", 4), "p": ("purple", 4), "e": ("gray", 4), "lg": ("lime", 4), "lb": ("sky", 4), "black": ("gray", 8),
    "white": ("gray", 0),
}


def is_hex(s):
    return isinstance(s, str) and len(s) in (4, 5, 7, 9) and s[0] == "#" and all(c in "0123456789abcdefABCDEF" for c in s[1:])


def is_hex6(s):
    return is_hex(s) and len(s) == 7


def is_rgba(v):
    try:
        a = [float(x) for x in v]
    except (TypeError, ValueError):
        return False
    return len(a) in (3, 4) and all(0 <= x <= 1 for x in a)


def known(color):
    if color is None:
        return True
    if not isinstance(color, str):
        return is_rgba(color)
    return color in ALL_COLOURS or color in ALIASES or is_hex(color)


class Format:
    target = "color_finder.Colors.format"
    props = ["C17"]
    native_only = True

    def raises(color):
        return {"ValueError": not known(color)}

    def ensures(color, result):
        return is_hex(result)

    def ensures_entry(color, result):
        if not isinstance(color, str):
            return True
        if color in ALL_COLOURS:
            return result == ALL_COLOURS[color][4]
        if color in ALIASES:
            return result == ALL_COLOURS[ALIASES[color][0]][ALIASES[color][1]]
        return result.lower() == color.lower()

    def ensures_channels(color, result):
        """an RGB(A) input keeps its channels to the nearest 255th"""
        if color is None or isinstance(color, str):
            return True
        got = [int(result[1 + 2 * i:3 + 2 * i], 16) for i in range(3)]
        return is_hex6(result) and all(abs(g - 255 * float(v)) <= 0.5 + 1e-9 for g, v in zip(got, color))


class Name:
    """a palette name resolves to an entry of its own palette, an alias to its own; nothing else passes"""
    target = "color_finder.Colors.format"
    props = ["C17"]
    types = {"color": "str"}

    def requires(color):
        return [color != "", color[0] != "#"]

    def raises(color):
        return {"ValueError": color not in ALL_COLOURS and color not in ALIASES}

    def ensures(color, result):
        return [
            forall(ALL_COLOURS, lambda n: implies(color == n, result == ALL_COLOURS[n][4])),
            forall(ALIASES, lambda n: implies(color == n and color not in ALL_COLOURS, result == ALL_COLOURS[ALIASES[n][0]][ALIASES[n][1]])),
        ]


class Clamp:
    target = "color_finder.Colors._clamp"
    props = ["C17"]

    def requires(minimum, maximum):
        return minimum <= maximum

    def ensures(val, minimum, maximum, result):
        return [minimum <= result and result <= maximum, implies(minimum <= val and val <= maximum, result == val),
                implies(val < minimum, result == minimum), implies(val > maximum, result == maximum)]


class Scale:
    """every channel is the truncated scaled channel, clamped"""
    target = "color_finder.Colors.scale_colour"
    props = ["C17"]
    native_only = True

    def requires(self, color, scalefactor):
        return known(color) and is_hex6(self.format(color)) and scalefactor >= 0

    def ensures(self, color, scalefactor, result):
        h = self.format(color)
        want = [max(0, min(255, int(int(h[1 + 2 * i:3 + 2 * i], 16) * scalefactor))) for i in range(3)]
        return is_hex6(result) and [int(result[1 + 2 * i:3 + 2 * i], 16) for i in range(3)] == want


class Sequence:
    """the automatic sequence goes on for ever"""
    target = "color_finder.Colors.next_colour"
    props = ["C17", "C11"]
    native_only = True

    def ensures(self, ghost_n, result):
        import itertools

        got = list(itertools.islice(result, ghost_n))
        again = list(itertools.islice(self.next_colour(), ghost_n))
        palette = {c for v in ALL_COLOURS.values() for c in v}
        return [len(got) == ghost_n, all(is_hex6(c) and c in palette for c in got), got == again, len(set(got[:88])) == len(got[:88])]


class Formatted:
    target = "color_finder.Colors.get_formatted"
    props = ["C17"]
    native_only = True

    def ensures(self, list_colors, result):
        return [len(result) == len(list_colors), all(r == self.format(c) for r, c in zip(result, list_colors))]


class Chained:
    """a chain stores the resolved colour"""
    target = "chain.ChainConfig"
    props = ["C17"]
    native_only = True

    def raises(color):
        return {"ValueError": not known(color)}

    def ensures(color, result):
        return result.color is None if color is None else is_hex(result.color) and eq(result.color, Resolver().format(color))


def Resolver():
    from chainconsumer.color_finder import Colors

    return Colors()


class Contours:
    """the colours of contours are valid, as many as asked"""
    target = "plotting.contours._scale_colours"
    props = ["C17"]
    native_only = True

    def requires(colour, num, shade_gradient):
        return is_hex6(colour) and 0 <= shade_gradient and shade_gradient <= 5

    def ensures(colour, num, shade_gradient, result):
        return [len(result) == num, all(is_hex6(c) for c in result)]
