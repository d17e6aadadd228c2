"""C21: importing samples keeps exactly the requested variables."""


def dropping(v):
    return v.startswith("~")


def mixed(names):
    """not all of one form"""
    return exists(names, lambda v: dropping(v)) and exists(names, lambda v: not dropping(v))


def bad(var_names):
    return lazyif(is_none(var_names), lambda: False, lambda: len(val(var_names)) == 0 or mixed(val(var_names)))


def kept(var_names, v):
    """v is one of the requested variables"""
    return lazyif(is_none(var_names), lambda: True, lambda: exists(val(var_names), lambda x: x == v) if not exists(val(var_names), lambda x: dropping(x))
                  else not exists(val(var_names), lambda x: x[1:] == v))


class Filter:
    target = "chain._filter_var_names"
    props = ["C21"]

    def raises(var_names):
        return {"ValueError": bad(var_names)}

    def ensures(var_names, all_vars, result):
        return eq(list(result), [v for v in all_vars if kept(var_names, v)])


def imported(c, name, cols, values):
    """the chain holds one column per variable with those values (and unit weights)"""
    return [
        c.name == name,
        forall(cols, lambda k: k in c.samples),
        eq([k for k in c.samples.columns if k != "weight" or k in cols], list(cols)),
        forall(cols, lambda k: eq(c.samples[k].to_numpy(), values(k))),
    ]


class Emcee:
    target = "chain.Chain.from_emcee"
    props = ["C21"]
    types = {"sampler": "stub:{'get_chain': 'arr2[real]'}"}

    def requires(sampler, columns, thin, discard):
        s = sampler.get_chain(flat=True, thin=thin, discard=discard)
        return [s.shape[0] >= 1, s.shape[1] == len(columns), len(columns) >= 1, distinct(columns), "weight" not in columns]

    def ensures(sampler, columns, name, thin, discard, result):
        s = sampler.get_chain(flat=True, thin=thin, discard=discard)
        return [
            result.name == name,
            nrows(result.samples) == s.shape[0],
            eq([k for k in result.samples.columns if k != "weight"], list(columns)),
            forall(len(columns), lambda j: forall(s.shape[0], lambda i: cell(result.samples, columns[j], i) == s[i, j])),
        ]

    def ensures_native_options(kwargs, result):
        return all(getattr(result, k) == v for k, v in kwargs.items())


class Numpyro:
    target = "chain.Chain.from_numpyro"
    props = ["C21"]
    native_only = True

    def requires(mcmc, var_names):
        d = mcmc.get_samples()
        return [bad(var_names) or any(kept(var_names, k) for k in d)]

    def raises(var_names):
        return {"ValueError": bad(var_names)}

    def ensures(mcmc, name, var_names, kwargs, result):
        d = mcmc.get_samples()
        return imported(result, name, [k for k in d if kept(var_names, k)], lambda k: np.ravel(d[k])) + [
            all(getattr(result, k) == v for k, v in kwargs.items())]


class Arviz:
    target = "chain.Chain.from_arviz"
    props = ["C21"]
    native_only = True

    def requires(arviz_id, var_names):
        return [bad(var_names) or any(kept(var_names, k) for k in arviz_id.posterior)]

    def raises(var_names):
        return {"ValueError": bad(var_names)}

    def ensures(arviz_id, name, var_names, kwargs, result):
        post = arviz_id.posterior
        want = [k for k in post if kept(var_names, k)]
        return imported(result, name, [k for k in result.samples.columns if k in want], lambda k: np.asarray(post[k]).ravel()) + [
            sorted(k for k in result.samples.columns if k != "weight") == sorted(want),
            all(getattr(result, k) == v for k, v in kwargs.items())]
