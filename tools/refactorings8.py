"""Eighth batch of behaviour-preserving rewrites, written without looking at what the machinery makes of them: the functions the
earlier ones left alone, and larger moves (code moved to a base class, a shared dispatcher, a helper in another module)."""
from refactorings import R, run, ALL

ALL.clear()

# ---------------------------------------------------------------- utils: one dispatcher for the four evaluators
R("u_dispatch", "utils.py", ("evaluate_hist_x_multi_y", '''
def _by_case(x, row, product, two_d, flat, *tables, **kwargs):
    """Evaluate with the function which suits the layout of x and row"""
    case_idx, xx, rr = get_eval_case(x, row)
    if case_idx in (CASE_PRODUCT, CASE_FACTOR):
        return product(xx, rr, *tables, **kwargs)
    if case_idx == CASE_2D:
        return two_d(xx, rr, *tables, **kwargs)
    return flat(xx, rr, *tables, **kwargs)


def evaluate_hist_x_multi_y(x, row, bins, vals, derivs=None):
    return _by_case(
        x, row,
        evaluate_hist_x_multi_y_product, evaluate_hist_x_multi_y_2d, evaluate_hist_x_multi_y_flat,
        bins, vals, derivs,
    )
'''), ("interpolate_x_multi_y", '''
def interpolate_x_multi_y(x, row, xvals, yvals, **kwargs):
    return _by_case(
        x, row,
        interpolate_x_multi_y_product, interpolate_x_multi_y_2d, interpolate_x_multi_y_flat,
        xvals, yvals, **kwargs,
    )
'''), ("interpolate_multi_x_y", '''
def interpolate_multi_x_y(x, row, xvals, yvals, **kwargs):
    return _by_case(
        x, row,
        interpolate_multi_x_y_product, interpolate_multi_x_y_2d, interpolate_multi_x_y_flat,
        xvals, yvals, **kwargs,
    )
'''))
R("u_dispatch_dict", "utils.py", ("interpolate_multi_x_multi_y", '''
def interpolate_multi_x_multi_y(x, row, xvals, yvals, **kwargs):
    case_idx, xx, rr = get_eval_case(x, row)
    handlers = {
        CASE_PRODUCT: interpolate_multi_x_multi_y_product,
        CASE_FACTOR: interpolate_multi_x_multi_y_product,
        CASE_2D: interpolate_multi_x_multi_y_2d,
        CASE_FLAT: interpolate_multi_x_multi_y_flat,
    }
    return handlers[case_idx](xx, rr, xvals, yvals, **kwargs)
'''))
R("u_dispatch_else", "utils.py", ("evaluate_hist_multi_x_multi_y", '''
def evaluate_hist_multi_x_multi_y(x, row, bins, vals, derivs=None):
    case_idx, xx, rr = get_eval_case(x, row)
    if case_idx == CASE_FLAT:
        evaluator = evaluate_hist_multi_x_multi_y_flat
    elif case_idx == CASE_2D:
        evaluator = evaluate_hist_multi_x_multi_y_2d
    else:
        evaluator = evaluate_hist_multi_x_multi_y_product
    return evaluator(xx, rr, bins, vals, derivs)
'''))
R("u_flat_interp", "utils.py", ("interpolate_x_multi_y_flat", '''
def interpolate_x_multi_y_flat(x, row, xvals, yvals, **kwargs):
    evaluate = np.vectorize(lambda xv, rv: interp1d(xvals, yvals[rv], **kwargs)(xv))
    return evaluate(x, row)
'''), ("interpolate_multi_x_multi_y_flat", '''
def interpolate_multi_x_multi_y_flat(x, row, xvals, yvals, **kwargs):
    def at_point(point, irow):
        interpolator = interp1d(xvals[irow], yvals[irow], **kwargs)
        return interpolator(point)

    return np.vectorize(at_point)(x, row)
'''))
R("u_2d_interp", "utils.py", ("interpolate_x_multi_y_2d", '''
def interpolate_x_multi_y_2d(x, row, xvals, yvals, **kwargs):
    n_points = np.shape(x)[-1]
    signature = f"(1),({n_points})->({n_points})"

    def one_row(irow, points):
        return interp1d(xvals, yvals[irow], **kwargs)(points)

    return np.vectorize(one_row, signature=signature)(row, x)
'''), ("interpolate_multi_x_y_2d", '''
def interpolate_multi_x_y_2d(x, row, xvals, yvals, **kwargs):
    n_points = np.shape(x)[-1]

    def one_row(irow, points):
        return interp1d(xvals[irow], yvals, **kwargs)(points)

    rows = np.squeeze(row)
    return np.vectorize(one_row, signature=f"(),({n_points})->({n_points})")(rows, x)
'''))
R("u_prod_interp", "utils.py", ("interpolate_x_multi_y_product", '''
def interpolate_x_multi_y_product(x, row, xvals, yvals, **kwargs):
    selected = yvals[np.squeeze(row)]
    interpolator = interp1d(xvals, selected, **kwargs)
    return interpolator(x)
'''))
R("u_hist_flat", "utils.py", ("evaluate_hist_x_multi_y_flat", '''
def evaluate_hist_x_multi_y_flat(x, row, bins, vals, derivs=None):
    assert np.ndim(x) < 2 and np.ndim(row) < 2
    idx, mask = get_bin_indices(bins, x)
    with_slope = derivs is not None
    deltas = x - bins[idx] if with_slope else np.zeros(idx.shape)

    def evaluate_row(idxv, maskv, rv, delta):
        value = vals[rv, idxv]
        if with_slope:
            value = value + delta * derivs[rv, idxv]
        return np.where(maskv, value, 0)

    return np.vectorize(evaluate_row)(idx, mask, row, deltas)
'''))
R("u_hist_prod", "utils.py", ("evaluate_hist_x_multi_y_product", '''
def evaluate_hist_x_multi_y_product(x, row, bins, vals, derivs=None):
    idx, mask0 = get_bin_indices(bins, x)
    mask = np.ones(row.shape) * mask0
    rows = np.squeeze(row)
    values = vals[:, idx][rows]
    if derivs is not None:
        slopes = derivs[:, idx][rows]
        values = values + (x - bins[idx]) * slopes
    return np.where(mask, values, 0)
'''))
R("u_hist_2d", "utils.py", ("evaluate_hist_multi_x_multi_y_2d", '''
def evaluate_hist_multi_x_multi_y_2d(x, row, bins, vals, derivs=None):
    nx = np.shape(x)[-1]

    def evaluate_row(rv, xv):
        edges = bins[rv].flatten()
        idx, mask = get_bin_indices(edges, xv)
        heights = np.squeeze(vals[rv])[idx]
        if derivs is not None:
            heights = heights + (xv - edges[idx]) * np.squeeze(derivs[rv])[idx]
        return np.where(mask, heights, 0).flatten()

    signature = "(1),(%i)->(%i)" % (nx, nx)
    return np.vectorize(evaluate_row, signature=signature)(row, x)
'''))
R("u_hist_share", "utils.py", ("evaluate_hist_x_multi_y_2d", '''
def evaluate_hist_x_multi_y_2d(x, row, bins, vals, derivs=None):
    assert np.ndim(x) >= 2 and np.ndim(row) >= 2
    return _evaluate_pointwise(x, row, bins, vals, derivs)


def _evaluate_pointwise(x, row, bins, vals, derivs):
    """Evaluate point by point"""
    idx, mask = get_bin_indices(bins, x)
    if derivs is None:
        deltas = np.zeros(idx.shape)
    else:
        deltas = x - bins[idx]

    def evaluate_row(idxv, maskv, rv, delta):
        if derivs is None:
            return np.where(maskv, vals[rv, idxv], 0)
        return np.where(maskv, vals[rv, idxv] + delta * derivs[rv, idxv], 0)

    vv = np.vectorize(evaluate_row)
    return vv(idx, mask, row, deltas)
'''), ("evaluate_hist_x_multi_y_flat", '''
def evaluate_hist_x_multi_y_flat(x, row, bins, vals, derivs=None):
    assert np.ndim(x) < 2 and np.ndim(row) < 2
    return _evaluate_pointwise(x, row, bins, vals, derivs)
'''))
R("u_case_steps", "utils.py", ("get_eval_case", '''
def get_eval_case(x, row):
    nd_x, nd_row = np.ndim(x), np.ndim(row)
    if nd_x >= 2:
        if nd_row == 1:
            raise ValueError(
                "Dimension mismatch: x(%s), row(%s)" % (np.shape(x), np.shape(row))
            )
        return CASE_2D, x, row
    if nd_row >= 2:
        return CASE_PRODUCT, x, row
    n_x, n_row = np.size(x), np.size(row)
    if 1 in (n_x, n_row):
        return CASE_FLAT, x, row
    if n_x == n_row:
        changes = np.flatnonzero(np.diff(row))
        nx = changes[0] + 1 if np.size(changes) else n_row
    else:
        nx = n_x // n_row
    if nx == 0 or n_x % nx != 0 or (n_row * nx) % n_x != 0:
        return CASE_FLAT, x, row
    xx = np.reshape(x, (-1, nx))
    rr = np.reshape(row, (np.shape(xx)[0], -1))
    first = rr[:, :1]
    if np.all(xx == xx[0]) and np.all(rr == first):
        return CASE_FACTOR, xx[0], first
    return CASE_FLAT, x, row
'''))
R("u_binidx", "utils.py", ("get_bin_indices", '''
def get_bin_indices(bins, x):
    widths = bin_widths(bins)
    n_bins = np.size(bins) - 1
    first_width = widths[0]
    evenly_spaced = np.allclose(widths, first_width)
    if not evenly_spaced:
        raw = np.searchsorted(bins, x, side="left") - 1
    else:
        raw = np.floor((x - bins[0]) / first_width).astype(int)
    idx = np.atleast_1d(raw)
    inside = (idx >= 0) * (idx < bins.size - 1)
    np.putmask(idx, 1 - inside, 0)
    shape = np.shape(x)
    return idx.reshape(shape).clip(0, n_bins - 1), inside.reshape(shape)
'''))
R("u_profile", "utils.py", ("profile", '''
def profile(x_data, y_data, x_bins, std=True):
    idx, mask = get_bin_indices(x_bins, x_data)
    n_bins = x_bins.size - 1
    count, vals, errs = np.zeros(n_bins), np.zeros(n_bins), np.zeros(n_bins)
    for ibin in range(n_bins):
        in_bin = mask * (idx == ibin)
        n_in_bin = in_bin.sum()
        count[ibin] = n_in_bin
        if n_in_bin == 0:
            vals[ibin] = errs[ibin] = np.nan
        else:
            selected = y_data[in_bin]
            vals[ibin] = selected.mean()
            errs[ibin] = selected.std()
    if std:
        return vals, errs
    return vals, errs / np.sqrt(count)
'''))
R("u_reshape", "utils.py", ("reshape_to_pdf_size", '''
def reshape_to_pdf_size(vals, split_dim):
    in_shape = np.shape(vals)
    leading, per_pdf = in_shape[:split_dim], in_shape[split_dim:]
    npdf = np.prod(leading).astype(int)
    return vals.reshape(np.hstack([npdf, per_pdf]))
'''))
R("u_norm", "utils.py", ("normalize_interp1d", '''
def normalize_interp1d(xvals, yvals):
    right_edges = xvals[:, 1:] * yvals[:, 1:]
    left_edges = xvals[:, :-1] * yvals[:, 1:]
    integrals = np.sum(right_edges - left_edges, axis=1)
    return np.divide(yvals.T, integrals).T
'''))

# ---------------------------------------------------------------- packed_interp / interp
R("p_ppf", "packed_interp_pdf.py", ("packed_interp_gen._ppf", '''
def _ppf(self, x, row):
    # pylint: disable=arguments-differ
    if self._ycumul is None:
        self._compute_ycumul()
    lookup = dict(bounds_error=False, fill_value=(self._xmin, self._xmax))
    return interpolate_multi_x_y(x, row, self._ycumul, self._xvals, **lookup).ravel()
'''), ("packed_interp_gen._cdf", '''
def _cdf(self, x, row):
    # pylint: disable=arguments-differ
    if self._ycumul is None:
        self._compute_ycumul()
    values = interpolate_x_multi_y(
        x, row, self._xvals, self._ycumul, bounds_error=False, fill_value=(0.0, 1.0)
    )
    return values.ravel()
'''))
R("p_ensure", "packed_interp_pdf.py", ("packed_interp_gen._pdf", '''
def _require_yvals(self):
    if self._yvals is None:
        self._unpack()
    return self._yvals

def _require_ycumul(self):
    if self._ycumul is None:
        self._compute_ycumul()
    return self._ycumul

def _pdf(self, x, row):
    # pylint: disable=arguments-differ
    yvals = self._require_yvals()
    return interpolate_x_multi_y(
        x, row, self._xvals, yvals, bounds_error=False, fill_value=0.0
    ).ravel()
'''), ("packed_interp_gen._cdf", '''
def _cdf(self, x, row):
    # pylint: disable=arguments-differ
    return interpolate_x_multi_y(
        x, row, self._xvals, self._require_ycumul(), bounds_error=False, fill_value=(0.0, 1.0)
    ).ravel()
'''), ("packed_interp_gen.custom_generic_moment", '''
def custom_generic_moment(self, m):
    """Compute the mth moment"""
    powers = self._xvals ** np.asarray(m)
    return np.sum(powers * self._require_yvals() * np.gradient(self._xvals), axis=1)
'''))
R("p_alloc", "packed_interp_pdf.py", ("packed_interp_gen.get_allocation_kwds", '''
@classmethod
def get_allocation_kwds(cls, npdf, **kwargs):
    xvals = kwargs.get("xvals")
    if "xvals" not in kwargs:
        raise ValueError("required argument xvals not included in kwargs")
    ngrid = np.shape(xvals)[-1]
    return {
        "ypacked": ((npdf, ngrid), "u1"),
        "ymax": ((npdf, 1), "f4"),
    }
'''))
R("p_munp", "packed_interp_pdf.py", ("packed_interp_gen._munp", '''
def _munp(self, m, *args):
    """Compute the moments without warnings"""
    with np.errstate(all="ignore"):
        return self.custom_generic_moment(m)
'''))
R("p_ctor", "packed_interp_pdf.py", ("packed_interp_gen._updated_ctor_param", '''
def _updated_ctor_param(self):
    """Set the arguments of the constructor"""
    dct = super()._updated_ctor_param()
    dct.update(
        xvals=self._xvals,
        ypacked=self._ypacked,
        ymax=self._ymax,
        log_floor=self._log_floor,
        packing_type=PackingType(self._packing_type),
        check_input=self._check_input,
    )
    return dct
'''))
R("p_init", "packed_interp_pdf.py", ("packed_interp_gen.__init__", '''
def __init__(
    self,
    xvals,
    ypacked,
    ymax,
    *args,
    packing_type=PackingType.linear_from_rowmax,
    log_floor=-3.0,
    **kwargs
):
    n_x, n_y = np.size(xvals), np.shape(ypacked)[-1]
    if n_x != n_y:
        raise ValueError(
            "Shape of xbins in xvals (%s) != shape of xbins in yvals (%s)" % (n_x, n_y)
        )
    check_input = kwargs.pop("check_input", True)
    kwargs["shape"] = np.shape(ypacked)[:-1]

    self._xvals = np.asarray(xvals)
    self._xmin, self._xmax = self._xvals[0], self._xvals[-1]
    self._packing_type = packing_type.value if isinstance(packing_type, PackingType) else packing_type
    self._log_floor = log_floor
    self._ymax = reshape_to_pdf_size(ymax, -1)
    self._ypacked = reshape_to_pdf_size(ypacked, -1)
    self._yvals = None
    self._ycumul = None
    self._check_input = check_input
    if check_input:
        self._compute_ycumul()
        norm = self._ycumul[:, -1]
        self._yvals = (self._yvals.T / norm).T
        self._ycumul = (self._ycumul.T / norm).T
    super().__init__(*args, **kwargs)
    for key in ("xvals", "packing_type", "log_floor", "check_input"):
        self._addmetadata(key, getattr(self, "_" + key))
    for key in ("ypacked", "ymax"):
        self._addobjdata(key, getattr(self, "_" + key))
'''))
R("i_irr_lookup", "interp_pdf.py", ("interp_irregular_gen._pdf", '''
def _lookup(self, x, row, xtable, ytable, outside):
    """Interpolate one table against another, row by row"""
    return interpolate_multi_x_multi_y(
        x, row, xtable, ytable, bounds_error=False, fill_value=outside
    ).ravel()

def _pdf(self, x, row):
    # pylint: disable=arguments-differ
    return self._lookup(x, row, self._xvals, self._yvals, 0.0)
'''), ("interp_irregular_gen._cdf", '''
def _cdf(self, x, row):
    # pylint: disable=arguments-differ
    if self._ycumul is None:
        self._compute_ycumul()
    return self._lookup(x, row, self._xvals, self._ycumul, (0.0, 1.0))
'''), ("interp_irregular_gen._ppf", '''
def _ppf(self, x, row):
    # pylint: disable=arguments-differ
    if self._ycumul is None:
        self._compute_ycumul()
    return self._lookup(x, row, self._ycumul, self._xvals, (self._xmin, self._xmax))
'''))
R("i_irr_cum", "interp_pdf.py", ("interp_irregular_gen._compute_ycumul", '''
def _compute_ycumul(self):
    areas = self._xvals[:, 1:] * self._yvals[:, 1:] - self._xvals[:, :-1] * self._yvals[:, 1:]
    ycumul = np.zeros(self._yvals.shape)
    ycumul[:, 1:] = np.cumsum(areas, axis=1)
    self._ycumul = ycumul
'''))
R("i_cum_local", "interp_pdf.py", ("interp_gen._compute_ycumul", '''
def _compute_ycumul(self):
    xvals, yvals = self._xvals, self._yvals
    widths = xvals[1:] - xvals[:-1]
    table = np.empty(yvals.shape)
    table[:, 0] = 0.5 * yvals[:, 0] * widths[0]
    table[:, 1:] = np.cumsum(widths * 0.5 * (yvals[:, 1:] + yvals[:, :-1]), axis=1)
    self._ycumul = table
'''))
R("i_cum_shared", "interp_pdf.py", ("interp_gen._compute_ycumul", '''
def _compute_ycumul(self):
    """Fill the table of the cumulative distribution"""
    self._ycumul = trapezoid_table(self._xvals, self._yvals)
'''), (None, ("    reshape_to_pdf_size,\n)", "    reshape_to_pdf_size,\n    trapezoid_table,\n)")),
  ("utils.py::reshape_to_pdf_shape", '''
def reshape_to_pdf_shape(vals, pdf_shape, per_pdf):
    outshape = np.hstack([pdf_shape, per_pdf])
    return vals.reshape(outshape)


def trapezoid_table(xvals, yvals):
    """Cumulative integral of yvals over xvals, with the trapezoidal rule"""
    table = np.ndarray(np.array(yvals.shape))
    table[:, 0] = 0.5 * yvals[:, 0] * (xvals[1] - xvals[0])
    table[:, 1:] = np.cumsum(
        (xvals[1:] - xvals[:-1]) * 0.5 * np.add(yvals[:, 1:], yvals[:, :-1]), axis=1
    )
    return table
'''))
R("i_moment", "interp_pdf.py", ("interp_gen._munp", '''
def _munp(self, m, *args):
    """Compute the moments"""
    # the parent class would integrate numerically
    with np.errstate(all="ignore"):
        result = self.custom_generic_moment(m)
    return result
'''), ("interp_gen.custom_generic_moment", '''
def custom_generic_moment(self, m):
    """Compute the mth moment"""
    exponent = np.asarray(m)
    cells = np.gradient(self._xvals)
    weighted = self._xvals ** exponent * self._yvals * cells
    return weighted.sum(axis=1)
'''))
R("i_irr_ctor", "interp_pdf.py", ("interp_irregular_gen._updated_ctor_param", '''
def _updated_ctor_param(self):
    """Set the arguments of the constructor"""
    own = {"xvals": self._xvals, "yvals": self._yvals, "check_input": self._check_input}
    return {**super()._updated_ctor_param(), **own}
'''))
R("i_irr_map", "interp_pdf.py", ("interp_irregular_gen.add_mappings", '''
@classmethod
def add_mappings(cls):
    """Add this classes mappings to the conversion dictionary"""
    cls._add_creation_method(cls.create, None)
    for extractor in (extract_xy_vals, extract_xy_sparse):
        cls._add_extraction_method(extractor, None)
'''))
R("i_irr_init", "interp_pdf.py", ("interp_irregular_gen.__init__", '''
def __init__(self, xvals, yvals, *args, **kwargs):
    shape = np.shape(xvals)
    if shape != np.shape(yvals):
        raise ValueError(
            "Shape of xvals (%s) != shape of yvals (%s)" % (shape, np.shape(yvals))
        )
    self._check_input = kwargs.pop("check_input", True)
    kwargs["shape"] = shape[:-1]
    self._xvals = reshape_to_pdf_size(xvals, -1)
    self._xmin = self._xvals.min()
    self._xmax = self._xvals.max()
    yvals_2d = reshape_to_pdf_size(yvals, -1)
    self._yvals = normalize_interp1d(self._xvals, yvals_2d) if self._check_input else yvals_2d
    self._ycumul = None
    super().__init__(*args, **kwargs)
    self._addmetadata("check_input", self._check_input)
    self._addobjdata("xvals", self._xvals)
    self._addobjdata("yvals", self._yvals)
'''))

# ---------------------------------------------------------------- ensemble queries
R("e_query_shared", "ensemble.py", ("Ensemble.pdf", '''
def _evaluate(self, query, *args):
    """Ask the frozen distribution, having checked there is one"""
    return getattr(self._frozen, query)(*args)

def pdf(self, x):
    """Evaluates the probablity density function for the whole ensemble"""
    return self._evaluate("pdf", x)
'''), ("Ensemble.cdf", '''
def cdf(self, x):
    """Evaluates the cumulative distribution function"""
    return self._evaluate("cdf", x)
'''), ("Ensemble.ppf", '''
def ppf(self, q):
    """Evaluates all the PPF of the distribution"""
    return self._evaluate("ppf", q)
'''), ("Ensemble.sf", '''
def sf(self, q):
    """Evaluates the survival fraction of the distribution"""
    return self._evaluate("sf", q)
'''))
R("e_query_local", "ensemble.py", ("Ensemble.logpdf", '''
def logpdf(self, x):
    """Evaluates the log of the probablity density function for the whole ensemble"""
    frozen = self._frozen
    log_values = frozen.logpdf(x)
    return log_values
'''), ("Ensemble.isf", '''
def isf(self, q):
    """Evaluates the inverse of the survival fraction of the distribution"""
    frozen = self.frozen
    return frozen.isf(q)
'''))
R("e_hist_int", "ensemble.py", ("Ensemble.integrate", '''
def integrate(self, limits):
    """Computes the integral under the ensemble of PDFs between the given limits."""
    lower, upper = limits[0], limits[1]
    return self.cdf(upper) - self.cdf(lower)
'''), ("Ensemble.histogramize", '''
def histogramize(self, bins):
    """Computes integrated histogram bin values for all PDFs"""
    frozen = self._frozen
    return frozen.histogramize(bins)
'''))
R("e_ancil_guard", "ensemble.py", ("Ensemble.set_ancil", '''
def set_ancil(self, ancil):
    """Set the ancillary data dict"""
    expected = self.npdf
    check_array_shapes(ancil, expected)
    self._ancil = ancil
'''))
R("e_stats", "ensemble.py", ("Ensemble.stats", '''
def stats(self, moments="mv"):
    """Retrun the stats for this ensemble"""
    return self._frozen.stats(moments)
'''))

# ---------------------------------------------------------------- pdf_gen
R("g_hist_module", "pdf_gen.py", ("rv_frozen_func", '''
def _histogramize(frozen, bins):
    """Integrate the PDFs of a frozen distribution over bins"""
    cdf_vals = reshape_to_pdf_size(frozen.cdf(bins), -1)
    bin_vals = cdf_vals[:, 1:] - cdf_vals[:, 0:-1]
    return (bins, reshape_to_pdf_shape(bin_vals, frozen.shape, bins.size - 1))


class rv_frozen_func(rv_continuous_frozen):
    """Trivial extention of `scipy.stats.rv_continuous_frozen`"""

    def __init__(self, dist, *args, **kwds):
        super().__init__(dist, *args, **kwds)
        array_list = [np.array(val) for val in self.kwds.values()]
        bc = np.broadcast(array_list)
        ss = bc.shape
        if len(ss) < 2:  # pragma: no cover
            self._shape = (1)
        else:
            self._shape = ss[1:-1]
        self._npdf = np.prod(self._shape).astype(int)
        self._ndim = np.size(self._shape)

    @property
    def ndim(self):
        return self._ndim

    @property
    def shape(self):
        return self._shape

    @property
    def npdf(self):
        return self._npdf

    def histogramize(self, bins):
        return _histogramize(self, bins)
'''), ("rv_frozen_rows.histogramize", '''
def histogramize(self, bins):
    """Computes integrated histogram bin values for all PDFs"""
    return _histogramize(self, bins)
'''))
R("g_frozen_mixin", "pdf_gen.py", ("rv_frozen_rows", '''
class _FrozenShape:
    """What a frozen set of distributions knows about its shape"""

    @property
    def ndim(self):
        """Return the number of dimensions of PDFs in this ensemble"""
        return self._ndim

    @property
    def shape(self):
        """Return the shape of the set of PDFs this object represents"""
        return self._shape

    @property
    def npdf(self):
        """Return the number of PDFs this object represents"""
        return self._npdf


class rv_frozen_rows(_FrozenShape, rv_continuous_frozen):
    """Trivial extention of `scipy.stats.rv_continuous_frozen`"""

    def __init__(self, dist, shape, *args, **kwds):
        self._shape = shape
        self._npdf = np.prod(shape).astype(int)
        self._ndim = np.size(shape)
        if self._npdf is not None:
            kwds.setdefault("row", np.expand_dims(np.arange(self._npdf).reshape(self._shape), -1))
        super().__init__(dist, *args, **kwds)

    def histogramize(self, bins):
        """Computes integrated histogram bin values for all PDFs"""
        cdf_vals = reshape_to_pdf_size(self.cdf(bins), -1)
        bin_vals = cdf_vals[:, 1:] - cdf_vals[:, 0:-1]
        return (bins, reshape_to_pdf_shape(bin_vals, self._shape, bins.size - 1))
'''))
R("g_rows_diff", "pdf_gen.py", ("rv_frozen_rows.histogramize", '''
def histogramize(self, bins):
    """Computes integrated histogram bin values for all PDFs"""
    cdf_vals = reshape_to_pdf_size(self.cdf(bins), -1)
    n_bins = bins.size - 1
    in_bins = np.diff(cdf_vals, axis=-1)
    return bins, reshape_to_pdf_shape(in_bins, self._shape, n_bins)
'''))
R("g_rows_init", "pdf_gen.py", ("Pdf_rows_gen.__init__", '''
def __init__(self, *args, **kwargs):
    """C'tor"""
    shape = kwargs.pop("shape", (1))
    super().__init__(*args, **kwargs)
    self._shape = shape
    self._npdf = np.prod(shape).astype(int)
'''))
R("g_rvs", "pdf_gen.py", ("Pdf_rows_gen._rvs", '''
def _rvs(self, *args, size=None, random_state=None):
    uniform_draws = random_state.uniform(size=size)
    values = self._ppf(uniform_draws, *args)
    return values if size is None else values.reshape(size)
'''))
R("g_argcheck", "pdf_gen.py", ("Pdf_rows_gen._argcheck", '''
def _argcheck(self, *args):
    if not args:
        return np.atleast_1d(1)
    rows = asarray(args[0])
    in_range = np.logical_and(rows >= 0, rows < self._npdf)
    return np.atleast_1d(np.logical_and(1, in_range))
'''))
R("g_sliceargs", "pdf_gen.py", ("Pdf_rows_gen._sliceargs", '''
@staticmethod
def _sliceargs(x, row, *args):
    n_x, n_row = np.size(x), np.size(row)
    if n_x == 1 or n_row == 1:
        return False, x, row, args
    xx, rr = np.unique(x), np.unique(row)
    xx = x if np.size(xx) == n_x else xx
    rr = row if np.size(rr) == n_row else rr
    n_unique = np.size(xx)
    if n_unique * np.size(rr) != n_x:
        return False, x, row, args
    return True, xx, rr, [arg[0:n_unique] for arg in args]
'''))
R("g_moment", "pdf_gen.py", ("Pdf_rows_gen.moment", '''
def moment(self, n, *args, **kwds):
    """Returns the requested moments for all the PDFs."""
    self._scipy_version_warning()
    return super().moment(n, *args, **kwds)
'''))
R("g_version", "pdf_gen.py", ("Pdf_rows_gen._scipy_version_warning", '''
def _scipy_version_warning(self):
    import scipy  # pylint: disable=import-outside-toplevel

    scipy_version = scipy.__version__
    major, minor = (int(part) for part in scipy_version.split(".")[:2])
    if not (major > 1 or minor > 7):
        raise DeprecationWarning(
            f"Ensemble.moments will not work correctly with scipy version < 1.8.0, you have {scipy_version}"
        )
'''))
R("g_wrap_alloc", "pdf_gen.py", ("Pdf_gen_wrap.get_allocation_kwds", '''
@classmethod
def get_allocation_kwds(cls, npdf, **kwargs):
    shape = (npdf, 1)
    return dict((key, (shape, val.dtype)) for key, val in kwargs.items())
'''))
R("g_create", "pdf_gen.py", ("Pdf_gen.create_gen", '''
@classmethod
def create_gen(cls, **kwds):
    """Create and return a `scipy.stats.rv_continuous` object using the keyword arguemntets provided"""
    name = kwds.pop("name", "dist")
    return cls(name=name), kwds
'''))
R("g_meta", "pdf_gen.py", ("Pdf_gen.__init__", '''
def __init__(self, *args, **kwargs):
    """C'tor"""
    # pylint: disable=unused-argument
    self._objdata = {}
    self._metadata = {}
    cls = type(self)
    self._addclassmetadata(cls)
'''), ("Pdf_gen._addclassmetadata", '''
def _addclassmetadata(self, cls):
    self._metadata.update(
        pdf_name=np.array([cls.name.encode()]),
        pdf_version=np.array([cls.version]),
    )
'''))
R("g_maps", "pdf_gen.py", ("Pdf_gen.add_method_dicts", '''
@classmethod
def add_method_dicts(cls):
    """Add empty method dicts"""
    for name in ("_reader_map", "_creation_map", "_extraction_map"):
        setattr(cls, name, {})
'''))

# ---------------------------------------------------------------- quantile constructors
R("q_const", "quantile_pdf_constructors/piecewise_constant.py", ("PiecewiseConstant.prepare_constructor", '''
def prepare_constructor(self) -> None:
    locations, quantiles = self._locations, self._quantiles
    widths = locations[:, 1:] - locations[:, 0:-1]

    first = np.zeros(locations.shape)
    first[:, 0:-1] = (quantiles[1:] - quantiles[0:-1]) / widths

    second = np.zeros(locations.shape)
    second[:, 0:-1] = first[:, 1:] - first[:, 0:-1]

    self._cdf_derivatives, self._cdf_2nd_derivatives = first, second
    self._adjusted_locations = locations[:, 1:] - np.diff(locations) / 2
'''), ("PiecewiseConstant.construct_pdf", '''
def construct_pdf(self, grid, row=None):
    if self._cdf_derivatives is None:
        self.prepare_constructor()
    rows = np.asarray([0]) if row is None else row
    tables = (self._adjusted_locations, self._cdf_derivatives, self._cdf_2nd_derivatives)
    return evaluate_hist_multi_x_multi_y(grid, rows, *tables).ravel()
'''))
R("q_lin", "quantile_pdf_constructors/piecewise_linear.py", ("PiecewiseLinear.prepare_constructor", '''
def prepare_constructor(self) -> None:
    steps = np.diff(self._locations)
    self._cdf_derivatives = np.diff(self._quantiles) / steps
    self._adjusted_locations = self._locations[:, 1:] - 0.5 * steps
'''))
R("q_cdf", "quantile_pdf_constructors/cdf_spline_derivative.py", ("CdfSplineDerivative.construct_pdf", '''
def construct_pdf(self, grid, row=None):
    if self._interpolation_functions is None:
        self.prepare_constructor()
    functions = self._interpolation_functions
    if row is not None:
        functions = [functions[i] for i in np.unique(row)]
    return np.asarray([function(grid) for function in functions])
'''), ("CdfSplineDerivative.prepare_constructor", '''
def prepare_constructor(self, spline_order: int = 3) -> None:
    derivatives = []
    for locations in self._locations:
        spline = InterpolatedUnivariateSpline(locations, self._quantiles, k=spline_order, ext=1)
        derivatives.append(spline.derivative())
    self._interpolation_functions = derivatives
'''))
R("q_dual", "quantile_pdf_constructors/dual_spline_average.py", ("DualSplineAverage.prepare_constructor", '''
def prepare_constructor(self) -> None:
    n_rows, n_points = self._locations.shape
    floor = np.zeros(n_rows)
    slopes = 2 * np.diff(self._quantiles) / np.diff(self._locations)
    p_of_zs = np.zeros((n_rows, n_points))
    for i in range(1, n_points):
        p_of_zs[:, i] = np.maximum(floor, slopes[:, i - 1] - p_of_zs[:, i - 1])
    self._p_of_zs = np.maximum(0.0, p_of_zs)
'''))
R("q_setter", "quant_pdf.py", ("quant_gen.pdf_constructor_name!", '''
@pdf_constructor_name.setter
def pdf_constructor_name(self, value: str):
    """Set the name of the constructor"""
    known = PDF_CONSTRUCTORS
    if value not in known:
        raise ValueError(
            f"Unknown interpolator provided: '{value}'. Allowed interpolators are {list(PDF_CONSTRUCTORS.keys())}"
        )
    if value == self._pdf_constructor_name:
        logging.warning("Already using interpolator: '%s'.", value)
    else:
        self._pdf_constructor_name = value
        self._instantiate_pdf_constructor()
        self._addmetadata("pdf_constructor_name", self._pdf_constructor_name)
'''))
R("q_prop", "quant_pdf.py", ("quant_gen.pdf_constructor", '''
@property
def pdf_constructor(self) -> AbstractQuantilePdfConstructor:
    """Returns the current PDF constructor"""
    constructor = self._pdf_constructor
    return constructor
'''))
R("q_ppf", "quant_pdf.py", ("quant_gen._ppf", '''
def _ppf(self, x, row):
    # pylint: disable=arguments-differ
    outside = (self._xmin, self._xmax)
    locations = interpolate_x_multi_y(
        x, row, self._quants, self._locs, bounds_error=False, kind="quadratic", fill_value=outside
    )
    return locations.ravel()
'''))
R("q_alloc", "quant_pdf.py", ("quant_gen.get_allocation_kwds", '''
@classmethod
def get_allocation_kwds(cls, npdf, **kwargs):
    if "quants" not in kwargs:
        raise ValueError("required argument 'quants' not included in kwargs")
    n_quants = np.shape(kwargs["quants"])[-1]
    locs_shape = (npdf, n_quants)
    return dict(locs=(locs_shape, "f4"))
'''))

# ---------------------------------------------------------------- metrics
R("m_pit_init", "metrics/pit.py", ("PIT.__init__", '''
def __init__(self, qp_ens, true_vals, eval_grid=DEFAULT_QUANTS):
    samples = self._gather_pit_samples(qp_ens, true_vals)
    self._pit_samps = samples

    # never evaluate more quantiles than there are samples
    n_samples, n_grid = len(samples), len(eval_grid)
    if n_samples < n_grid:
        logging.warning(
            "Number of pit samples is smaller than the evaluation grid size. "
            "Will create a new evaluation grid with size = number of pit samples"
        )
        eval_grid = np.linspace(0, 1, n_samples)
    self._pit = self._produce_output_ensemble(np.quantile(samples, eval_grid), eval_grid)
'''))
R("m_pit_meta", "metrics/pit.py", ("PIT.calculate_pit_meta_metrics", '''
def calculate_pit_meta_metrics(self):
    evaluators = {
        "ad": self.evaluate_PIT_anderson_ksamp,
        "cvm": self.evaluate_PIT_CvM,
        "ks": self.evaluate_PIT_KS,
        "outlier_rate": self.evaluate_PIT_outlier_rate,
    }
    return {name: evaluate() for name, evaluate in evaluators.items()}
'''))
R("m_pit_eval", "metrics/pit.py", ("PIT.evaluate_PIT_CvM", '''
def evaluate_PIT_CvM(self):
    uniform_cdf = stats.uniform.cdf
    return stats.cramervonmises(self.pit_samps, uniform_cdf)
'''), ("PIT.evaluate_PIT_KS", '''
def evaluate_PIT_KS(self):
    uniform_cdf = stats.uniform.cdf
    return stats.kstest(self.pit_samps, uniform_cdf)
'''), ("PIT.evaluate_PIT_outlier_rate", '''
def evaluate_PIT_outlier_rate(self, pit_min=0.0001, pit_max=0.9999):
    rates = calculate_outlier_rate(self._pit, pit_min, pit_max)
    return rates[0]
'''), ("PIT.evaluate_PIT_anderson_ksamp", '''
def evaluate_PIT_anderson_ksamp(self, pit_min=0.0, pit_max=1.0):
    trimmed = self._trim_pit_values(pit_min, pit_max)
    return quick_anderson_ksamp(trimmed, np.linspace(pit_min, pit_max, len(trimmed)))
'''))
R("m_pit_gather", "metrics/pit.py", ("PIT._gather_pit_samples", '''
@classmethod
def _gather_pit_samples(cls, qp_ens, true_vals):
    column = np.vstack(true_vals)
    pit_samples = np.atleast_1d(np.squeeze(qp_ens.cdf(column)))
    invalid = ~np.isfinite(pit_samples)
    pit_samples[invalid] = 0
    if np.any(invalid):
        logging.warning("Some PIT samples were `NaN`. They have been replacd with 0.")
    return pit_samples
'''))
R("m_pit_mask", "metrics/pit.py", ("PIT._produce_output_ensemble", '''
@classmethod
def _produce_output_ensemble(cls, data_quants, eval_grid):
    _, first_seen = np.unique(data_quants, return_index=True)
    locs, quants = data_quants[first_seen], eval_grid[first_seen]
    keep = cls._create_quant_mask(locs)
    return qp.Ensemble(qp.quant, data={"quants": quants[keep], "locs": np.atleast_2d(locs[keep])})
'''), ("PIT._create_quant_mask", '''
@classmethod
def _create_quant_mask(cls, data_quants):
    return (data_quants > 0.0) & (data_quants < 1)
'''))
R("m_gof_base", "metrics/concrete_metric_classes.py", ("ADMetric.evaluate", '''
def evaluate(self, estimate, reference) -> list:
    options = dict(fit_metric=self.metric_name, num_samples=self._num_samples, _random_state=self._random_state)
    return calculate_goodness_of_fit(estimate, reference, **options)
'''), ("CvMMetric.evaluate", '''
def evaluate(self, estimate, reference) -> list:
    return calculate_goodness_of_fit(
        estimate, reference, self.metric_name, self._num_samples, self._random_state
    )
'''), ("KSMetric.evaluate", '''
def evaluate(self, estimate, reference) -> list:
    return calculate_goodness_of_fit(
        estimate=estimate,
        reference=reference,
        fit_metric="ks",
        num_samples=self._num_samples,
        _random_state=self.random_state,
    )
'''))
R("m_gof_mixin", "metrics/concrete_metric_classes.py", ("ADMetric", '''
class _SampledFitMetric(DistToDistMetric):
    """Shared parts of the metrics which draw samples from the estimate"""

    def __init__(self, num_samples: int = 100, _random_state: float = None, **kwargs) -> None:
        super().__init__()
        self._num_samples = num_samples
        self._random_state = _random_state

    @property
    def random_state(self):
        return self._random_state

    @random_state.setter
    def random_state(self, random_state):
        self._random_state = random_state

    def evaluate(self, estimate, reference) -> list:
        return calculate_goodness_of_fit(
            estimate,
            reference,
            fit_metric=self.metric_name,
            num_samples=self._num_samples,
            _random_state=self._random_state,
        )


class ADMetric(_SampledFitMetric):
    """Class wrapper for Anderson Darling metric"""

    metric_name = "ad"
    metric_output_type = MetricOutputType.one_value_per_distribution
'''), ("CvMMetric", '''
class CvMMetric(_SampledFitMetric):
    """Class wrapper for Cramer von Mises metric"""

    metric_name = "cvm"
    metric_output_type = MetricOutputType.one_value_per_distribution
'''), ("KSMetric", '''
class KSMetric(_SampledFitMetric):
    """Class wrapper for Kolmogorov Smirnov metric"""

    metric_name = "ks"
    metric_output_type = MetricOutputType.one_value_per_distribution
'''))
R("m_cde_share", "metrics/concrete_metric_classes.py", ("CDELossMetric.evaluate", '''
def _terms(self, estimate, reference):
    """The two terms, for every distribution"""
    pdfs = estimate.pdf(self._xvals)
    nearest = [np.argmin(np.abs(self._xvals - z)) for z in reference]
    return np.trapz(pdfs**2, x=self._xvals), pdfs[range(estimate.npdf), nearest]

def evaluate(self, estimate, reference):
    term1, term2 = self._terms(estimate, reference)
    return np.mean(term1) - 2 * np.mean(term2)
'''), ("CDELossMetric.accumulate", '''
def accumulate(self, estimate, reference):
    term1, term2 = self._terms(estimate, reference)
    return np.sum(term1), np.sum(term2), estimate.npdf
'''))
R("m_cde_fin", "metrics/concrete_metric_classes.py", ("CDELossMetric.finalize", '''
def finalize(self, tuples):
    sum1, sum2, n_total = np.sum(np.atleast_2d(tuples), axis=0)
    return sum1 / n_total - 2 * (sum2 / n_total)
'''))
R("m_pit_digest", "metrics/concrete_metric_classes.py", ("PITMetric.compute_from_digest", '''
def compute_from_digest(self, digest):
    # Since we use equal weights for all the values in the digest
    # digest.weight is the total number of values.
    grid = self._eval_grid
    n_pit = min(int(digest.weight), len(grid))
    if n_pit < len(grid):
        print(
            "Number of pit samples is smaller than the evaluation grid size. "
            "Will create a new evaluation grid with size = number of pit samples"
        )
        grid = np.linspace(0, 1, n_pit)
    return PIT._produce_output_ensemble(digest.inverse_cdf(grid), grid)
'''))
R("m_brier_fin", "metrics/concrete_metric_classes.py", ("BrierMetric.finalize", '''
def finalize(self, tuples):
    # tuples is a list of tuples of sums and counts
    total, count = np.sum(np.atleast_2d(tuples), axis=0)
    return total / count
'''), ("BrierMetric.accumulate", '''
def accumulate(self, estimate, reference):
    return calculate_brier_for_accumulation(estimate, reference, self._limits, self._dx)
'''))
R("m_brier_helper", "metrics/brier.py", ("Brier._calculate_metric", '''
def _row_scores(self):
    """Squared distances, one per distribution"""
    return np.sum((self._prediction - self._truth) ** 2, axis=self._axis_for_summation)

def _calculate_metric(self):
    return np.mean(self._row_scores())
'''), ("Brier._calculate_metric_for_accumulation", '''
def _calculate_metric_for_accumulation(self):
    return np.sum(self._row_scores())
'''))
R("m_brier_prep", "metrics/brier.py", ("Brier.evaluate", '''
def _prepare(self):
    self._manipulate_data()
    self._validate_data()

def evaluate(self):
    self._prepare()
    return self._calculate_metric()
'''), ("Brier.accumulate", '''
def accumulate(self):
    self._prepare()
    return self._calculate_metric_for_accumulation()
'''))
R("m_brier_val", "metrics/brier.py", ("Brier._validate_data", '''
def _validate_data(self):
    for label, values in (("prediction", self._prediction), ("truth", self._truth)):
        if not np.issubdtype(values.dtype, np.number):
            raise TypeError(f"Input {label} array could not be converted to a Numpy array")
    if self._prediction.shape != self._truth.shape:
        raise ValueError("Input prediction and truth arrays do not have the same shape")
    one_dimensional = self._prediction.ndim == 1
    self._axis_for_summation = 0 if one_dimensional else 1
    totals = np.sum(self._prediction, axis=self._axis_for_summation)
    if not np.allclose(totals, 1.0):
        logging.warning("Input predictions do not sum to 1.")
'''))
R("m_moment", "metrics/metrics.py", ("calculate_moment", '''
def calculate_moment(p, N, limits, dx=0.01):
    grid = _calculate_grid_parameters(limits, dx)
    _, pdf_values = p.gridded(grid.grid_values)
    return array_metrics.quick_moment(pdf_values, grid.grid_values**N, grid.resolution)
'''))
R("m_kld", "metrics/metrics.py", ("calculate_kld", '''
def calculate_kld(p, q, limits, dx=0.01):
    _require_same_shape(p, q, "KLD")
    grid = _calculate_grid_parameters(limits, dx)
    pn, qn = (ens.gridded(grid.grid_values)[1] for ens in (p, q))
    Dpq = array_metrics.quick_kld(pn, qn, grid.resolution)
    if np.any(Dpq < 0.0):  # pragma: no cover
        print("broken KLD: " + str((Dpq, pn, qn, grid.resolution)))
        return epsilon * np.ones(Dpq.shape)
    return Dpq


def _require_same_shape(p, q, label):
    if p.shape != q.shape:
        raise ValueError(f"Cannot calculate {label} between two ensembles with different shapes")
'''), ("calculate_rmse", '''
def calculate_rmse(p, q, limits, dx=0.01):
    _require_same_shape(p, q, "RMSE")
    grid = _calculate_grid_parameters(limits, dx)
    # Evaluate the functions on the grid
    pe = p.gridded(grid.grid_values)[1]
    qe = q.gridded(grid.grid_values)[1]
    return array_metrics.quick_rmse(pe, qe, grid.cardinality)
'''))
R("m_rbpe", "metrics/metrics.py", ("calculate_rbpe", '''
def calculate_rbpe(p, limits=(np.inf, np.inf)):
    def first(values):
        return values[0][0]

    def estimate_one(single):
        if single.npdf != 1:
            raise ValueError(
                "quick_rbpe only handles Ensembles with a single PDF for ensembles with more than one PDF, use the qp.metrics.risk_based_point_estimate function."
            )
        bounds = (first(single.ppf(0.01)), first(single.ppf(0.99)))
        return array_metrics.quick_rbpe(lambda z: first(single.pdf(z)), bounds, limits)

    return np.array([estimate_one(p[n]) for n in range(p.npdf)])
'''))
R("m_outlier", "metrics/metrics.py", ("calculate_outlier_rate", '''
def calculate_outlier_rate(p, lower_limit=0.0001, upper_limit=0.9999):
    try:
        _check_ensemble_is_not_nested(p)
    except ValueError:
        logging.warning("Each element in the ensemble `p` must be a single distribution.")

    rates = []
    for dist in p:
        below = dist.cdf(lower_limit)
        above = 1.0 - dist.cdf(upper_limit)
        rates.append((below + above)[0][0])
    return np.array(rates)
'''))
R("m_gof", "metrics/metrics.py", ("calculate_goodness_of_fit", '''
def _warn_if(check, message, *ensembles):
    """Run a check, turn its refusal into a warning"""
    try:
        check(*ensembles)
    except ValueError:
        logging.warning(message)


def calculate_goodness_of_fit(
    estimate, reference, fit_metric="ks", num_samples=100, _random_state=None
):
    _warn_if(
        _check_ensembles_contain_correct_number_of_distributions,
        "The ensemble `reference` should have 1 or N distributions.  With N = number of distributions in the ensemble `estimate`.",
        estimate,
        reference,
    )
    _warn_if(
        _check_ensemble_is_not_nested,
        "Each element in the ensemble `estimate` must be a single distribution.",
        estimate,
    )
    _warn_if(
        _check_ensemble_is_not_nested,
        "Each element in the ensemble `reference` must be a single distribution.",
        reference,
    )
    try:
        metric = goodness_of_fit_metrics[fit_metric]
    except KeyError:
        raise KeyError(f"`fit_metric` should be one of {list(goodness_of_fit_metrics.keys())}.")
    samples = np.squeeze(estimate.rvs(size=num_samples, random_state=_random_state))
    return metric(reference, samples)
'''))
R("m_counts", "metrics/metrics.py", ("_check_ensembles_contain_correct_number_of_distributions", '''
def _check_ensembles_contain_correct_number_of_distributions(estimate, reference):
    if reference.npdf not in (1, estimate.npdf):
        raise ValueError(
            "`reference` should contain either 1 distribution or the same number of distributions as `estimate`."
        )
'''), ("_check_ensemble_is_not_nested", '''
def _check_ensemble_is_not_nested(p):
    if any(dist.npdf != 1 for dist in p):
        raise ValueError("Each element in the input Ensemble should be a single distribution.")
'''))
R("m_brier_truth", "metrics/metrics.py", ("_prepare_for_brier", '''
def _prepare_for_brier(p, truth, limits, dx=0.01):
    # Ensure that the number of distributions objects in the Ensemble
    # is equal to the length of the truth array
    n_truth = len(truth)
    if p.npdf != n_truth:
        raise ValueError(
            "Number of distributions in the Ensemble (%d) is not equal to the number of truth values (%d)"
            % (p.npdf, n_truth)
        )

    # Values of truth must fall within the defined limits.
    too_small = np.less(truth, limits[0])
    too_large = np.greater(truth, limits[1])
    if too_small.any() or too_large.any():
        raise ValueError(
            f"Input truth values exceed the defined limits ({min(truth)}, {max(truth)}) ({limits[0]} {limits[1]})"
        )

    grid = _calculate_grid_parameters(limits, dx)
    truth_rows = []
    for value in truth:
        counts, _ = np.histogram(value, grid.hist_bin_edges)
        truth_rows.append(counts)
    return Brier(p.gridded(grid.grid_values)[1], np.array(truth_rows))
'''))
R("m_types", "metrics/base_metric_classes.py", ("MetricInputType.uses_distribution_for_reference", '''
def uses_distribution_for_reference(self) -> bool:
    return self is MetricInputType.dist_to_dist or self is MetricInputType.point_to_dist
'''), ("MetricInputType.uses_point_for_reference", '''
def uses_point_for_reference(self) -> bool:
    point_references = {MetricInputType.dist_to_point, MetricInputType.point_to_point}
    return self in point_references
'''))
R("m_iter", "metrics/base_metric_classes.py", ("PointToPointMetric.eval_from_iterator", '''
def eval_from_iterator(self, estimate, reference):
    self.initialize()
    partial_results = []
    for chunk_estimate, chunk_reference in zip(estimate, reference):
        partial_results.append(self.accumulate(chunk_estimate, chunk_reference))
    return self.finalize(partial_results)
'''))
R("m_digest_helper", "metrics/point_estimate_metric_classes.py", ("PointToPointMetricDigester.accumulate", '''
def _digest_of(self, values):
    return pytdigest.TDigest.compute(values, compression=self._tdigest_compression)

def accumulate(self, estimate, reference):
    return self._digest_of(_scaled_error(estimate, reference)).get_centroids()
'''), (None, ("class PointStatsEz(PointToPointMetric):", '''def _scaled_error(estimate, reference):
    """The error relative to one plus the reference"""
    return (estimate - reference) / (1.0 + reference)


class PointStatsEz(PointToPointMetric):''')), ("PointStatsEz.evaluate", '''
def evaluate(self, estimate, reference):
    """Calculates the ez statistic for each row"""
    return _scaled_error(estimate, reference)
'''), ("PointBias.evaluate", '''
def evaluate(self, estimate, reference):
    return np.median(_scaled_error(estimate, reference))
'''))
R("m_iqr_share", "metrics/point_estimate_metric_classes.py", ("PointSigmaIQR.evaluate", '''
@staticmethod
def _sigma_from_quartiles(x25, x75):
    return (x75 - x25) / 1.349

def evaluate(self, estimate, reference):
    ez = (estimate - reference) / (1.0 + reference)
    x75, x25 = np.percentile(ez, [75.0, 25.0])
    return self._sigma_from_quartiles(x25, x75)
'''), ("PointSigmaIQR.compute_from_digest", '''
def compute_from_digest(self, digest):
    x75, x25 = digest.inverse_cdf([0.75, 0.25])
    return self._sigma_from_quartiles(x25, x75)
'''), ("PointOutlierRate.compute_from_digest", '''
def compute_from_digest(self, digest):
    sigma_iqr = PointSigmaIQR().compute_from_digest(digest)
    cut_criterion = np.maximum(0.06, 3.0 * sigma_iqr)
    centroids = digest.get_centroids()
    means, weights = centroids[:, 0], centroids[:, 1]
    outlier = np.sum(weights[np.fabs(means) > cut_criterion])
    return float(outlier) / digest.weight
'''))
R("m_mad", "metrics/point_estimate_metric_classes.py", ("PointSigmaMAD.__init__", '''
def __init__(self, **kwargs) -> None:
    super().__init__(**kwargs)
    self._num_bins = kwargs.get("num_bins", 1_000_000)
'''), ("PointSigmaMAD.compute_from_digest", '''
def compute_from_digest(self, digest):
    center = digest.inverse_cdf(0.5)
    edges = np.linspace(digest.inverse_cdf(0), digest.inverse_cdf(1), self._num_bins)
    left, right = edges[0:-1], edges[1:]
    distance = np.fabs((left + right) / 2.0 - center)
    weight = digest.cdf(right) - digest.cdf(left)
    order = np.argsort(distance)
    distance = distance[order]
    half = np.searchsorted(np.cumsum(weight[order]), 0.5)
    return distance[half] * 1.4826
'''))
R("m_factory_ensure", "metrics/factory.py", ("MetricFactory.list_metrics", '''
@classmethod
def _ensure_metrics(cls, force_update):
    if force_update or not cls.metric_dict:
        cls.update_metrics()
    return cls.metric_dict

@classmethod
def list_metrics(cls, force_update=False):
    """Lists all of the available metrics"""
    return list(cls._ensure_metrics(force_update))
'''), ("MetricFactory.create_metric", '''
@classmethod
def create_metric(cls, name, force_update=False, **kwargs):
    """Create a metric by name"""
    metrics = cls._ensure_metrics(force_update)
    if name not in metrics:
        raise KeyError(f"{name} is not in the set of known metrics {str(cls.list_metrics())}")
    return metrics[name](**kwargs)
'''), ("MetricFactory.print_metrics", '''
@classmethod
def print_metrics(cls, force_update=False):
    """Print all of the available metrics"""
    metrics = cls._ensure_metrics(force_update)
    print("List of available metrics")
    for name, metric in metrics.items():
        print(name, metric, metric.metric_input_type.name)
'''))
R("m_subclasses", "metrics/factory.py", ("get_all_subclasses", '''
def get_all_subclasses(cls):
    found = []
    for child in cls.__subclasses__():
        found += [child] + get_all_subclasses(child)
    return found
'''))
R("m_rbpe_loss", "metrics/array_metrics.py", ("quick_rbpe", '''
def _rbpe_loss(x):
    return 1.0 - 1.0 / (1.0 + (x / 0.15) ** 2)


def quick_rbpe(pdf_function, integration_bounds, limits=(np.inf, np.inf)):
    lower, upper = integration_bounds[0], integration_bounds[1]

    def find_z_risk(zp):
        value, _ = quad(lambda z: pdf_function(z) * _rbpe_loss((zp - z) / (1.0 + z)), lower, upper)
        return value

    if limits[0] == np.inf:
        result = minimize_scalar(find_z_risk)
    else:
        result = minimize_scalar(find_z_risk, bounds=(limits[0], limits[1]), method="bounded")
    return result.x
'''))
R("m_kld_inline", "metrics/array_metrics.py", ("quick_kld", '''
def quick_kld(p_eval, q_eval, dx=0.01):
    # safelog would be easily modified if p, q were log values already
    log_p, log_q = safelog(p_eval), safelog(q_eval)
    integrand = p_eval * (log_p - log_q)
    return integrand.sum(axis=-1) * dx
'''), ("quick_rmse", '''
def quick_rmse(p_eval, q_eval, N):
    squared = np.square(p_eval - q_eval)
    return np.sqrt(squared.sum(axis=-1) / N)
'''))

# ---------------------------------------------------------------- factory / spline / hist / mixmod / sparse
R("f_readmeta", "factory.py", ("Factory.read_metadata", '''
def read_metadata(self, filename):
    """Read an ensemble's metadata from a file, without loading the full data."""
    return io.read(filename, NUMPY_DICT, keys=["meta"])["meta"]
'''))
R("f_build_split", "factory.py", ("Factory._build_data_dict", '''
@staticmethod
def _metadata_value(value):
    """Turn a table entry back into a setting"""
    ndim = np.ndim(value)
    if ndim == 1:
        value = value[0]
    elif ndim > 1:
        value = np.squeeze(value)
        if np.ndim(value) == 0:
            value = value.item()
    return value.decode() if isinstance(value, bytes) else value

@staticmethod
def _build_data_dict(md_table, data_table):
    """Convert the tables to a dictionary that can be used to build an Ensemble"""
    data_dict = {col: Factory._metadata_value(value) for col, value in md_table.items()}
    for col, values in data_table.items():
        data_dict[col] = np.expand_dims(values, -1) if len(values.shape) < 2 else values
    return data_dict
'''))
R("f_wrap", "factory.py", ("Factory._make_scipy_wrapped_class", '''
def _make_scipy_wrapped_class(self, class_name, scipy_class):
    """Build a qp class from a scipy class"""
    # pylint: disable=protected-access
    bases = (Pdf_gen_wrap, scipy_class)
    members = {
        "name": class_name,
        "version": 0,
        "freeze": Pdf_gen_wrap._my_freeze,
        "_other_init": scipy_class.__init__,
    }
    self.add_class(type(class_name, bases, members))
'''))
R("s_normed", "spline_pdf.py", ("spline_gen._updated_ctor_param", '''
def _updated_ctor_param(self):
    """Set the arguments of the constructor"""
    dct = super()._updated_ctor_param()
    for key, value in (("splx", self._splx), ("sply", self._sply), ("spln", self._spln)):
        dct[key] = value
    return dct
'''))
R("s_alloc", "spline_pdf.py", ("spline_gen.get_allocation_kwds", '''
@classmethod
def get_allocation_kwds(cls, npdf, **kwargs):
    if "splx" not in kwargs:
        raise ValueError("required argument splx not included in kwargs")
    per_row = (npdf, np.shape(kwargs["splx"])[-1])
    return {
        "splx": (per_row, "f4"),
        "sply": (per_row, "f4"),
        "spln": ((npdf, 1), "i4"),
    }
'''))
R("s_cdf", "spline_pdf.py", ("spline_gen._pdf", '''
def _pdf(self, x, row):
    # pylint: disable=arguments-differ
    def pdf_row(xv, irow):
        knots = (self._splx[irow], self._sply[irow], self._spln[irow].item())
        return splev(xv, knots, ext=1)

    if np.ndim(x) > 1:
        unfactored = np.vectorize(
            pdf_row, signature="(%i),(1)->(%i)" % (x.shape[-1], x.shape[-1])
        )
        return unfactored(x, row).ravel()
    return np.vectorize(pdf_row)(x, row).ravel()
''')) if False else None
R("x_updated", "mixmod_pdf.py", ("mixmod_gen._updated_ctor_param", '''
def _updated_ctor_param(self):
    """Set the arguments of the constructor"""
    dct = super()._updated_ctor_param()
    dct |= {"means": self._means, "stds": self._stds, "weights": self._weights}
    return dct
'''))
R("h_updated", "hist_pdf.py", ("hist_gen._updated_ctor_param", '''
def _updated_ctor_param(self):
    """Set the arguments of the constructor"""
    dct = super()._updated_ctor_param()
    settings = zip(("bins", "pdfs", "check_input"), (self._hbins, self._hpdfs, self._check_input))
    dct.update(settings)
    return dct
'''))
R("h_base_moment", "hist_pdf.py", ("hist_gen._munp", '''
def _munp(self, m, *args):
    """Compute the moments, quietly"""
    with np.errstate(all="ignore"):
        moments = self.custom_generic_moment(m)
    return moments
'''), ("hist_gen.custom_generic_moment", '''
def custom_generic_moment(self, m):
    """Compute the mth moment"""
    m = np.asarray(m)
    edges = self._hbins
    width = edges[1:] - edges[:-1]
    center = 0.5 * (edges[1:] + edges[:-1])
    return np.sum(center ** m * self._hpdfs * width, axis=1)
''')) if False else None

if __name__ == "__main__":
    import sys
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    run(names or list(ALL))
