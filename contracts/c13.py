"""C13: parameter text shows the bounds it was given."""
import re

NUM = r"-?\d+(?:\.\d+)?"
SHAPE = re.compile(
    rf"^(?P<open>\\left\( )?(?P<centre>{NUM})(?:\\pm (?P<both>{NUM})|\^\{{\+(?P<up>{NUM})\}}_\{{-(?P<low>{NUM})\}})"
    rf"(?P<close> \\right\) \\times 10\^\{{(?P<power>-?\d+)\}})?$")


def complete(b):
    return b is not None and b.lower is not None and b.center is not None and b.upper is not None


def read(text):
    """(centre, upper error, lower error, symmetric form) as displayed, the power of ten undone; None if the text has another shape"""
    m = SHAPE.match(text)
    if m is None or (m["open"] is None) != (m["close"] is None):
        return None
    s = 10.0 ** int(m["power"]) if m["power"] is not None else 1.0
    up, low = (m["both"], m["both"]) if m["both"] is not None else (m["up"], m["low"])
    return float(m["centre"]) * s, float(up) * s, float(low) * s, m["both"] is not None, up == low


def unit(b):
    """one unit of the second significant digit of the smaller non-zero error (of the centre when both errors are zero)"""
    e = [abs(x) for x in (b.upper - b.center, b.center - b.lower) if x != 0]
    top = min(e) if e else abs(b.center)
    if top == 0:
        return 0.1
    k = int(np.floor(np.log10(top)))
    # a value one float away from a power of ten may be read on either side of it
    near = abs(np.log10(top) - round(np.log10(top))) < 1e-12
    return 10.0 ** ((max(k, int(round(np.log10(top)))) if near else k) - 1)


def shows(text, b, use_pm):
    r = read(text)
    if r is None:
        return False
    c, up, low, pm, same = r
    u = unit(b) * (1 + 1e-9)
    return (abs(c - b.center) <= u + 1e-12 * abs(b.center) and abs(up - (b.upper - b.center)) <= u + 1e-12 * abs(b.upper)
            and abs(low - (b.center - b.lower)) <= u + 1e-12 * abs(b.lower) and pm == (use_pm and same))


class Single:
    target = "analysis.Analysis._format_single_bound"
    props = ["C13"]
    native_only = True

    def requires(bound):
        return complete(bound)

    def ensures(bound, use_pm, result):
        return shows(result, bound, use_pm)


class Text:
    """one complete bound: its text, labelled and wrapped as asked; a missing value: nothing"""
    target = "analysis.Analysis.get_parameter_text"
    props = ["C13"]
    native_only = True

    def requires(bound):
        return bound is None or hasattr(bound, "center")

    def ensures(self, bound, wrap, label, result):
        if not complete(bound):
            return result == ""
        t = result
        if wrap:
            if not (t.startswith("$") and t.endswith("$") and len(t) > 2):
                return False
            t = t[1:-1]
        if label:
            if not t.startswith(f"{label} = "):
                return False
            t = t[len(label) + 3:]
        return shows(t, bound, True)


class Bands:
    """several bands: a line for the label, then one numbered line per complete band in order, never in the symmetric form"""
    target = "analysis.Analysis.get_parameter_text"
    props = ["C13"]
    native_only = True

    def requires(bound):
        return isinstance(bound, (list, tuple))

    def ensures(self, bound, wrap, label, result):
        full = [b for b in bound if complete(b)]
        if not full:
            return result == ""
        if len(bound) == 1:
            return result == self.get_parameter_text(bound[0], wrap=wrap, label=label)
        lines = result.split("\n")
        if label:
            if lines[0] != (f"${label}$" if wrap else label):
                return False
            lines = lines[1:]
        out = [len(lines) == len(full)]
        for i, (x, b) in enumerate(zip(lines, full), start=1):
            p = f"I{i}: "
            out.append(x.startswith(p))
            e = x[len(p):]
            if wrap:
                out.append(e.startswith("$") and e.endswith("$"))
                e = e[1:-1]
            out.append(shows(e, b, False))
        return out
