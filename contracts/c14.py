"""C14: LaTeX tables are rectangular and complete.  Names and parameter labels are LaTeX cell texts (no bare & or line break)."""
NAN = float("nan")


def cell_text(s):
    return "&" not in s and "\\\\" not in s and "\\hline" not in s and s == s.strip() and s != ""


def table_of(text, caption, label):
    """(declared columns, rows of cells) of a table text; None when it is not one table with that caption and label"""
    pos = 0
    for mark in ("\\begin{table}", "\\caption{" + caption + "}", "\\label{" + label + "}", "\\begin{tabular}{"):
        pos = text.find(mark, pos)
        if pos < 0:
            return None
        pos += len(mark)
    end = text.find("}", pos)
    stop = text.rfind("\\end{tabular}")
    if end < 0 or stop < 0 or text.find("\\end{table}", stop) < 0:
        return None
    spec, body = text[pos:end], text[end + 1:stop]
    rows = body.replace("\\hline", "").split("\\\\")
    if rows[-1].strip():
        return None
    return spec.count("c"), [[c.strip() for c in r.split("&")] for r in rows[:-1]]


def is_table(text, caption, label, rows):
    t = table_of(text, caption or "", label or "")
    if t is None:
        return False
    n, got = t
    return all(len(r) == n for r in got) and got == [[c.strip() for c in r] for r in rows]


class Parameters:
    target = "analysis.Analysis.get_latex_table"
    props = ["C14", "C19"]
    native_only = True

    def requires(self, chains, columns):
        ch = self.parent.plotter._sanitise_chains(chains)
        cols = self.parent.plotter._sanitise_columns(columns, ch)
        return [len(ch) >= 1, all(cell_text(c.name) for c in ch), all(cell_text(self.parent.plotter.config.get_label(p)) for p in cols)]

    def ensures(self, chains, columns, transpose, caption, label, blank_fill, result):
        pl = self.parent.plotter
        ch = pl._sanitise_chains(chains)
        cols = pl._sanitise_columns(columns, ch)
        b = pl.config.blind
        cols = [c for c in cols if not (b is True or (isinstance(b, list) and c in b))]
        fits = {c.name: self.get_summary([c], cols)[c.name] for c in ch}

        def cell(c, p):
            return self.get_parameter_text(fits[c.name][p], wrap=True) if p in c.samples else blank_fill

        if transpose:
            rows = [["Parameter"] + [c.name for c in ch]] + [[pl.config.get_label(p)] + [cell(c, p) for c in ch] for p in cols]
        else:
            rows = [["Model"] + [pl.config.get_label(p) for p in cols]] + [[c.name] + [cell(c, p) for p in cols] for c in ch]
        return is_table(result, caption, label, rows)

    def ensures_file(self, filename, result):
        return filename is None or open(filename).read() == result

    def ensures_lines(self, caption, label, hlines, result):
        t = result[result.rfind("\\begin{tabular}"):]
        return (t.count("\\hline") == 3) if hlines else (t.count("\\hline") == 0)


class Covariance:
    target = "analysis.Analysis.get_covariance_table"
    props = ["C14"]
    native_only = True

    def ensures(self, chain, columns, caption, label, result):
        c = self.parent._chains[chain] if isinstance(chain, str) else chain
        m = c.get_covariance(columns=columns)
        lab = [self.parent.plotter.config.get_label(p) for p in m.columns]
        return is_table(result, caption, label, [[""] + lab] + [[p] + [f"{x:5.2f}" for x in r] for p, r in zip(lab, m.matrix)])


class Correlation:
    target = "analysis.Analysis.get_correlation_table"
    props = ["C14"]
    native_only = True

    def ensures(self, chain, columns, caption, label, result):
        c = self.parent._chains[chain] if isinstance(chain, str) else chain
        m = c.get_correlation(columns=columns)
        lab = [self.parent.plotter.config.get_label(p) for p in m.columns]
        return is_table(result, caption, label, [[""] + lab] + [[p] + [f"{x:5.2f}" for x in r] for p, r in zip(lab, m.matrix)])


class Comparison:
    """one row per chain that has a value for at least one compared criterion, sorted as asked"""
    target = "comparisons.Comparison.comparison_table"
    props = ["C14", "C01"]
    native_only = True

    def raises(self, aic, bic, dic, sort):
        return {"AssertionError": not {"aic": aic, "bic": bic, "dic": dic}.get(sort, False)}

    def ensures(self, caption, label, aic, bic, dic, sort, descending, result):
        vals = {k: getattr(self, k)() for k, on in (("aic", aic), ("bic", bic), ("dic", dic)) if on}
        t = table_of(result, caption or "", label or "")
        if t is None:
            return False
        n, got = t
        head = ["Model"] + [{"aic": "AIC", "bic": "BIC", "dic": "DIC"}[k] for k in vals]
        names = {c for v in vals.values() for c in v}
        want = {c: [c] + [f"{vals[k].get(c, NAN):5.1f}".strip() for k in vals] for c in names}
        rows = got[1:]
        order = [vals[sort].get(r[0], NAN) for r in rows]
        there = [x for x in order if x == x]
        return [n == len(head), got[0] == head, all(len(r) == n for r in got), sorted(r[0] for r in rows) == sorted(names),
                all(r == want.get(r[0]) for r in rows), there == sorted(there, reverse=descending), order[:len(there)] == there]


class Frame:
    """the frame holds the caption and the label verbatim once the two places are filled in"""
    target = "helpers.get_latex_table_frame"
    props = ["C14"]
    native_only = True

    def ensures(caption, label, result):
        t = result % ("<A%s>", "<B%%>")
        return [t.count("<A%s>") == 1, t.count("<B%%>") == 1, t.find("<A%s>") < t.find("<B%%>"), "\\caption{" + caption + "}" in t,
                "\\label{" + label + "}" in t]
