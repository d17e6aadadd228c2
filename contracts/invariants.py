"""Class invariants: what the constructors establish (proved for Chain by C07) and every method may rely on."""


# element types the annotations leave open
FIELD_TYPES = {"Named2DMatrix.matrix": "arr2[real]"}


def inv_Chain(c):
    return [
        nrows(c.samples) >= 1,
        c.walkers >= 1,
        c.summary_area >= 0,
        c.summary_area <= 1,
        nrows(c.samples) % c.walkers == 0,
        c.weight_column in c.samples,
        forall(nrows(c.samples), lambda i: cell(c.samples, c.weight_column, i) > 0),
        lazyif(is_none(c.num_free_params), lambda: True, lambda: val(c.num_free_params) >= 0),
        lazyif(is_none(c.num_eff_data_points), lambda: True, lambda: val(c.num_eff_data_points) >= 0),
        lazyif(is_none(c.color_param), lambda: True, lambda: val(c.color_param) in c.samples),
        not is_none(c.statistics),
    ]
