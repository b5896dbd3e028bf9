"""Second batch of behaviour-preserving rewrites, written after the machinery had been adjusted to the first."""
from refactorings import R, run, ALL

ALL.clear()

# ---------------------------------------------------------------- utils
R("u_center", "utils.py", ("edge_to_center", '''
def edge_to_center(edges):
    """Return the centers of a set of bins given the edges"""
    left, right = edges[:-1], edges[1:]
    return (left + right) / 2.0
'''), ("bin_widths", '''
def bin_widths(edges):
    """Return the widths of a set of bins given the edges"""
    return np.diff(edges)
'''))
R("u_bin_indices", "utils.py", ("get_bin_indices", '''
def _raw_bin_indices(bins, widths, x):
    if np.allclose(widths, widths[0]):
        return np.floor((x - bins[0]) / widths[0]).astype(int)
    return np.searchsorted(bins, x, side="left") - 1


def get_bin_indices(bins, x):
    """Return the bin indexes for a set of values"""
    n_bins = np.size(bins) - 1
    idx = np.atleast_1d(_raw_bin_indices(bins, bin_widths(bins), x))
    in_range = (idx >= 0) * (idx < n_bins)
    np.putmask(idx, 1 - in_range, 0)
    xshape = np.shape(x)
    idx = idx.reshape(xshape)
    return idx.clip(0, n_bins - 1), in_range.reshape(xshape)
'''))
R("u_eval_case", "utils.py", ("get_eval_case", '''
def _points_per_row(x, row):
    """Number of points each row is evaluated at if the flattened input factors"""
    if np.size(x) != np.size(row):
        return np.size(x) // np.size(row)
    changes = np.flatnonzero(np.diff(row))
    if np.size(changes) > 0:
        return changes[0] + 1
    return np.size(row)


def get_eval_case(x, row):
    nd_x, nd_row = np.ndim(x), np.ndim(row)
    if nd_x >= 2:
        if nd_row != 1:
            return CASE_2D, x, row
        raise ValueError(
            "Dimension mismatch: x(%s), row(%s)" % (np.shape(x), np.shape(row))
        )
    if nd_row >= 2:
        return CASE_PRODUCT, x, row
    if np.size(x) == 1 or np.size(row) == 1:
        return CASE_FLAT, x, row
    nx = _points_per_row(x, row)
    factors = nx != 0 and np.size(x) % nx == 0 and np.size(row) * nx % np.size(x) == 0
    if not factors:
        return CASE_FLAT, x, row
    xx = np.reshape(x, (-1, nx))
    rr = np.reshape(row, (np.shape(xx)[0], -1))
    same_grid = np.all(xx == xx[0])
    same_row = np.all(rr == rr[:, :1])
    if same_grid and same_row:
        return CASE_FACTOR, xx[0], rr[:, :1]
    return CASE_FLAT, x, row
'''))
R("u_hist_flat", "utils.py", ("evaluate_hist_x_multi_y_flat", '''
def _hist_row(vals, derivs):
    """Function evaluating one entry of a set of histograms"""
    if derivs is None:
        def evaluate_row(idxv, maskv, rv, delta):
            return np.where(maskv, vals[rv, idxv], 0)
    else:
        def evaluate_row(idxv, maskv, rv, delta):
            return np.where(maskv, vals[rv, idxv] + delta * derivs[rv, idxv], 0)
    return evaluate_row


def evaluate_hist_x_multi_y_flat(x, row, bins, vals, derivs=None):
    assert np.ndim(x) < 2 and np.ndim(row) < 2
    idx, mask = get_bin_indices(bins, x)
    deltas = np.zeros(idx.shape) if derivs is None else x - bins[idx]
    return np.vectorize(_hist_row(vals, derivs))(idx, mask, row, deltas)
'''))
R("u_hist_product", "utils.py", ("evaluate_hist_x_multi_y_product", '''
def evaluate_hist_x_multi_y_product(x, row, bins, vals, derivs=None):
    idx, in_range = get_bin_indices(bins, x)
    mask = np.ones(row.shape) * in_range
    rows = np.squeeze(row)
    out = vals[:, idx][rows]
    if derivs is not None:
        out = out + (x - bins[idx]) * derivs[:, idx][rows]
    return np.where(mask, out, 0)
'''))
R("u_hist_dispatch", "utils.py", ("evaluate_hist_x_multi_y", '''
def evaluate_hist_x_multi_y(x, row, bins, vals, derivs=None):
    case_idx, xx, rr = get_eval_case(x, row)
    if case_idx in (CASE_PRODUCT, CASE_FACTOR):
        func = evaluate_hist_x_multi_y_product
    elif case_idx == CASE_2D:
        func = evaluate_hist_x_multi_y_2d
    else:
        func = evaluate_hist_x_multi_y_flat
    return func(xx, rr, bins, vals, derivs)
'''))
R("u_interp_dispatch", "utils.py", ("interpolate_x_multi_y", '''
def interpolate_x_multi_y(x, row, xvals, yvals, **kwargs):
    case_idx, x_use, row_use = get_eval_case(x, row)
    if case_idx == CASE_2D:
        return interpolate_x_multi_y_2d(x_use, row_use, xvals, yvals, **kwargs)
    if case_idx == CASE_PRODUCT or case_idx == CASE_FACTOR:
        return interpolate_x_multi_y_product(x_use, row_use, xvals, yvals, **kwargs)
    return interpolate_x_multi_y_flat(x_use, row_use, xvals, yvals, **kwargs)
'''))
R("u_interp_flat_lambda", "utils.py", ("interpolate_multi_x_multi_y_flat", '''
def interpolate_multi_x_multi_y_flat(x, row, xvals, yvals, **kwargs):
    vv = np.vectorize(lambda xv, rv: interp1d(xvals[rv], yvals[rv], **kwargs)(xv))
    return vv(x, row)
'''))
R("u_interp_prod_helper", "utils.py", ("interpolate_multi_x_y_product", '''
def interpolate_multi_x_y_product(x, row, xvals, yvals, **kwargs):
    nx = np.shape(x)[-1]

    def single_row(rv):
        interpolator = interp1d(xvals[rv], yvals, **kwargs)
        return interpolator(x)

    return np.vectorize(single_row, signature="()->(%i)" % nx)(np.squeeze(row))
'''))
R("u_interp_2d", "utils.py", ("interpolate_multi_x_multi_y_2d", '''
def interpolate_multi_x_multi_y_2d(x, row, xvals, yvals, **kwargs):
    nx = np.shape(x)[-1]
    signature = f"(),({nx})->({nx})"
    vv = np.vectorize(
        lambda rv, xv: interp1d(xvals[rv], yvals[rv], **kwargs)(xv), signature=signature
    )
    return vv(np.squeeze(row), x)
'''))
R("u_profile", "utils.py", ("profile", '''
def profile(x_data, y_data, x_bins, std=True):
    idx, mask = get_bin_indices(x_bins, x_data)
    n_bins = x_bins.size - 1
    count = np.zeros(n_bins)
    vals = np.zeros(n_bins)
    errs = np.zeros(n_bins)
    for i in range(n_bins):
        mask_col = mask * (idx == i)
        n_in_bin = mask_col.sum()
        count[i] = n_in_bin
        if n_in_bin == 0:
            vals[i] = np.nan
            errs[i] = np.nan
        else:
            masked_vals = y_data[mask_col]
            vals[i] = masked_vals.mean()
            errs[i] = masked_vals.std()
    if std:
        return vals, errs
    return vals, errs / np.sqrt(count)
'''))
R("u_reshape", "utils.py", ("reshape_to_pdf_size", '''
def reshape_to_pdf_size(vals, split_dim):
    shape = np.shape(vals)
    pdf_dims, per_pdf = shape[:split_dim], shape[split_dim:]
    npdf = np.prod(pdf_dims).astype(int)
    return vals.reshape(np.hstack([npdf, per_pdf]))
'''))
R("u_norm", "utils.py", ("normalize_interp1d", '''
def normalize_interp1d(xvals, yvals):
    upper, lower = xvals[:, 1:], xvals[:, :-1]
    heights = yvals[:, 1:]
    integrals = np.sum(upper * heights - lower * heights, axis=1)
    return yvals / integrals[:, np.newaxis]
'''))
R("u_kdes", "utils.py", ("build_kdes", '''
def build_kdes(samples, **kwargs):
    kdes = []
    for row in samples:
        kdes.append(sps.gaussian_kde(row, **kwargs))
    return kdes
'''), ("evaluate_kdes", '''
def evaluate_kdes(xvals, kdes):
    rows = []
    for kde in kdes:
        rows.append(kde(xvals))
    return np.vstack(rows)
'''))
# ---------------------------------------------------------------- interp
R("i_cumul_inline", "interp_pdf.py", ("interp_gen._compute_ycumul", '''
def _compute_ycumul(self):
    widths = np.diff(self._xvals)
    mids = 0.5 * (self._yvals[:, 1:] + self._yvals[:, :-1])
    ycumul = np.empty(self._yvals.shape)
    ycumul[:, 0] = 0.5 * self._yvals[:, 0] * (self._xvals[1] - self._xvals[0])
    ycumul[:, 1:] = np.cumsum(widths * mids, axis=1)
    self._ycumul = ycumul
'''))
R("i_init_norm", "interp_pdf.py", ("interp_gen.__init__", '''
def __init__(self, xvals, yvals, *args, **kwargs):
    n_x, n_y = np.size(xvals), np.shape(yvals)[-1]
    if n_x != n_y:
        raise ValueError(
            "Shape of xbins in xvals (%s) != shape of xbins in yvals (%s)"
            % (n_x, n_y)
        )
    self._xvals = np.asarray(xvals)
    # Set support
    self._xmin, self._xmax = self._xvals[0], self._xvals[-1]
    kwargs["shape"] = np.shape(yvals)[:-1]
    self._yvals = reshape_to_pdf_size(yvals, -1)
    self._ycumul = None
    self._check_input = kwargs.pop("check_input", True)
    if self._check_input:
        self._normalize()
    super().__init__(*args, **kwargs)
    self._addmetadata("xvals", self._xvals)
    self._addmetadata("check_input", self._check_input)
    self._addobjdata("yvals", self._yvals)

def _normalize(self):
    """Scale the tables so that the cdf reaches one"""
    self._compute_ycumul()
    totals = self._ycumul[:, -1]
    self._yvals = (self._yvals.T / totals).T
    self._ycumul = (self._ycumul.T / totals).T
'''))
R("i_cdf_getter", "interp_pdf.py", ("interp_gen._cdf", '''
def _get_ycumul(self):
    if self._ycumul is None:
        self._compute_ycumul()
    return self._ycumul

def _cdf(self, x, row):
    # pylint: disable=arguments-differ
    ycumul = self._get_ycumul()
    return interpolate_x_multi_y(
        x, row, self._xvals, ycumul, bounds_error=False, fill_value=(0.0, 1.0)
    ).ravel()
'''), ("interp_gen._ppf", '''
def _ppf(self, x, row):
    # pylint: disable=arguments-differ
    vals = interpolate_multi_x_y(
        x,
        row,
        self._get_ycumul(),
        self._xvals,
        bounds_error=False,
        fill_value=(self._xmin, self._xmax),
    )
    return vals.ravel()
'''))
R("i_ctor_param", "interp_pdf.py", ("interp_gen._updated_ctor_param", '''
def _updated_ctor_param(self):
    """
    Set the bins as additional constructor argument
    """
    dct = super()._updated_ctor_param()
    dct.update(xvals=self._xvals, yvals=self._yvals, check_input=self._check_input)
    return dct
'''))
R("i_moment", "interp_pdf.py", ("interp_gen.custom_generic_moment", '''
def custom_generic_moment(self, m):
    powers = self._xvals ** np.asarray(m)
    weights = powers * np.gradient(self._xvals)
    return np.sum(self._yvals * weights, axis=1)
'''), ("interp_gen._munp", '''
def _munp(self, m, *args):
    with np.errstate(all="ignore"):
        return self.custom_generic_moment(m)
'''))
R("i_alloc", "interp_pdf.py", ("interp_gen.get_allocation_kwds", '''
@classmethod
def get_allocation_kwds(cls, npdf, **kwargs):
    try:
        xvals = kwargs["xvals"]
    except KeyError:
        raise ValueError("required argument xvals not included in kwargs") from None
    return {"yvals": ((npdf, np.shape(xvals)[-1]), "f4")}
'''))
R("i_irr_init", "interp_pdf.py", ("interp_irregular_gen.__init__", '''
def __init__(self, xvals, yvals, *args, **kwargs):
    x_shape, y_shape = np.shape(xvals), np.shape(yvals)
    if x_shape != y_shape:
        raise ValueError("Shape of xvals (%s) != shape of yvals (%s)" % (x_shape, y_shape))
    check_input = kwargs.pop("check_input", True)
    kwargs["shape"] = x_shape[:-1]
    self._check_input = check_input
    self._xvals = reshape_to_pdf_size(xvals, -1)
    yvals_2d = reshape_to_pdf_size(yvals, -1)
    self._yvals = normalize_interp1d(self._xvals, yvals_2d) if check_input else yvals_2d
    self._ycumul = None
    self._xmin = np.min(self._xvals)
    self._xmax = np.max(self._xvals)
    super().__init__(*args, **kwargs)
    self._addmetadata("check_input", self._check_input)
    self._addobjdata("xvals", self._xvals)
    self._addobjdata("yvals", self._yvals)
'''))
R("i_testdata", "interp_pdf.py", ("interp_gen.make_test_data", '''
@classmethod
def make_test_data(cls):
    interp_data = {
        "gen_func": interp,
        "ctor_data": {"xvals": XBINS, "yvals": YARRAY},
        "convert_data": {"xvals": XBINS},
        "test_xvals": TEST_XVALS,
    }
    cls.test_data = {"interp": interp_data}
'''))
# ---------------------------------------------------------------- hist
R("h_init", "hist_pdf.py", ("hist_gen.__init__", '''
def __init__(self, bins, pdfs, *args, **kwargs):
    edges = np.asarray(bins)
    self._hbins = edges
    self._nbins = edges.size - 1
    self._hbin_widths = np.diff(edges)
    self._xmin, self._xmax = edges[0], edges[-1]
    n_vals = np.shape(pdfs)[-1]
    if n_vals != self._nbins:
        raise ValueError("Number of bins (%i) != number of values (%i)" % (self._nbins, n_vals))
    self._check_input = kwargs.pop("check_input", True)
    kwargs["shape"] = pdfs.shape[:-1]
    hpdfs = reshape_to_pdf_size(pdfs, -1)
    if self._check_input:
        integrals = np.sum(hpdfs * self._hbin_widths, axis=1)
        hpdfs = hpdfs / integrals[:, None]
    self._hpdfs = hpdfs
    self._hcdfs = None
    super().__init__(*args, **kwargs)
    self._addmetadata("bins", self._hbins)
    self._addmetadata("check_input", self._check_input)
    self._addobjdata("pdfs", self._hpdfs)
'''))
R("h_cdfs", "hist_pdf.py", ("hist_gen._compute_cdfs", '''
def _compute_cdfs(self):
    bin_integrals = self._hpdfs * self._hbin_widths
    npdf, nbins = self._hpdfs.shape
    hcdfs = np.zeros((npdf, nbins + 1))
    hcdfs[:, 1:] = bin_integrals.cumsum(axis=1)
    self._hcdfs = hcdfs
'''))
R("h_cdfs_concat", "hist_pdf.py", ("hist_gen._compute_cdfs", '''
def _compute_cdfs(self):
    cumul = np.cumsum(self._hpdfs * self._hbin_widths, axis=1)
    zeros = np.zeros((cumul.shape[0], 1))
    self._hcdfs = np.hstack([zeros, cumul])
'''))
R("h_moment", "hist_pdf.py", ("hist_gen.custom_generic_moment", '''
def custom_generic_moment(self, m):
    m = np.asarray(m)
    centers = (self._hbins[1:] + self._hbins[:-1]) / 2
    weights = self._hpdfs * self._hbin_widths
    return np.sum(weights * centers**m, axis=1)
'''))
R("h_ppf_lazy", "hist_pdf.py", ("hist_gen._ppf", '''
def _ppf(self, x, row):
    # pylint: disable=arguments-differ
    self._ensure_cdfs()
    limits = (self._xmin, self._xmax)
    return interpolate_multi_x_y(
        x, row, self._hcdfs, self._hbins, bounds_error=False, fill_value=limits
    ).ravel()
'''), ("hist_gen._cdf", '''
def _ensure_cdfs(self):
    if self._hcdfs is None:
        self._compute_cdfs()

def _cdf(self, x, row):
    # pylint: disable=arguments-differ
    self._ensure_cdfs()
    return interpolate_x_multi_y(
        x, row, self._hbins, self._hcdfs, bounds_error=False, fill_value=(0.0, 1.0)
    ).ravel()
'''))
R("h_alloc", "hist_pdf.py", ("hist_gen.get_allocation_kwds", '''
@classmethod
def get_allocation_kwds(cls, npdf, **kwargs):
    bins = kwargs.get("bins")
    if bins is None:
        raise ValueError("required argument 'bins' not included in kwargs")
    n_edges = bins.flatten().size
    return dict(pdfs=((npdf, n_edges - 1), "f4"))
'''))
# ---------------------------------------------------------------- quant
R("q_pad", "quant_pdf.py", ("pad_quantiles", '''
def pad_quantiles(quants, locs):
    pad_lo = quants[0] > sys.float_info.epsilon
    pad_hi = quants[-1] < 1.0
    if not pad_lo and not pad_hi:
        return quants, locs
    n_vals = quants.size
    offset_lo = 1 if pad_lo else 0
    n_out = n_vals + offset_lo + (1 if pad_hi else 0)
    quants_out = np.zeros(n_out, quants.dtype)
    locs_out = np.zeros((locs.shape[0], n_out), quants.dtype)
    quants_out[offset_lo:n_vals + offset_lo] = quants
    locs_out[:, offset_lo:n_vals + offset_lo] = locs
    if pad_lo:
        slope_lo = (locs[:, 1] - locs[:, 0]) / (quants[1] - quants[0])
        locs_out[:, 0] = locs[:, 0] - quants[0] * slope_lo
    if pad_hi:
        quants_out[-1] = 1.0
        slope_hi = (locs[:, -2] - locs[:, -1]) / (quants[-1] - quants[-2])
        locs_out[:, -1] = locs[:, -1] - (1.0 - quants[-1]) * slope_hi
    return quants_out, locs_out
'''))
R("q_setter", "quant_pdf.py", ("quant_gen.pdf_constructor_name!", '''
@pdf_constructor_name.setter
def pdf_constructor_name(self, value: str):
    if value not in PDF_CONSTRUCTORS:
        allowed = list(PDF_CONSTRUCTORS.keys())
        raise ValueError(
            f"Unknown interpolator provided: '{value}'. Allowed interpolators are {allowed}"
        )
    if value is self._pdf_constructor_name:
        logging.warning("Already using interpolator: '%s'.", value)
    else:
        self._pdf_constructor_name = value
        self._instantiate_pdf_constructor()
        self._addmetadata("pdf_constructor_name", self._pdf_constructor_name)
'''))
R("q_init", "quant_pdf.py", ("quant_gen.__init__", '''
def __init__(self, quants, locs, *args, **kwargs):
    self._check_input = kwargs.pop("check_input", True)
    name = str(kwargs.pop("pdf_constructor_name", DEFAULT_PDF_CONSTRUCTOR))
    kwargs["shape"] = locs.shape[:-1]
    self._xmin, self._xmax = np.min(locs), np.max(locs)
    locs_2d = reshape_to_pdf_size(locs, -1)
    if self._check_input:
        quants, locs_2d = pad_quantiles(quants, locs_2d)
    self._quants = np.asarray(quants)
    self._nquants = self._quants.size
    n_locs = locs_2d.shape[-1]
    if n_locs != self._nquants:
        raise ValueError(
            "Number of locations (%i) != number of quantile values (%i)" % (self._nquants, n_locs)
        )
    self._locs = locs_2d
    self._pdf_constructor_name = name
    self._pdf_constructor = None
    self._instantiate_pdf_constructor()
    super().__init__(*args, **kwargs)
    for key, val in (
        ("quants", self._quants),
        ("pdf_constructor_name", self._pdf_constructor_name),
        ("check_input", self._check_input),
    ):
        self._addmetadata(key, val)
    self._addobjdata("locs", self._locs)
'''))
R("q_pdf", "quant_pdf.py", ("quant_gen._pdf", '''
def _pdf_one_row(self, x, irow):
    return np.ravel(self._pdf_constructor.construct_pdf(x, np.array([[irow]])))

def _pdf(self, x, *args):
    x, row = np.broadcast_arrays(x, args[0])
    x, row = np.ravel(x), np.ravel(row)
    order = np.argsort(row, kind="stable")
    rows, starts = np.unique(row[order], return_index=True)
    yvals = np.zeros(np.shape(x))
    for irow, idx in zip(rows, np.split(order, starts[1:])):
        yvals[idx] = self._pdf_one_row(x[idx], irow)
    return yvals
'''))
R("q_cdf_kw", "quant_pdf.py", ("quant_gen._cdf", '''
def _cdf(self, x, row):
    # pylint: disable=arguments-differ
    interp_kwds = dict(bounds_error=False, fill_value=(0.0, 1), kind="quadratic")
    return interpolate_multi_x_y(x, row, self._locs, self._quants, **interp_kwds).ravel()
'''))
R("q_inst", "quant_pdf.py", ("quant_gen._instantiate_pdf_constructor", '''
def _instantiate_pdf_constructor(self):
    constructor_class = PDF_CONSTRUCTORS[self._pdf_constructor_name]
    self._pdf_constructor = constructor_class(self._quants, self._locs)
'''))
# ---------------------------------------------------------------- mixmod
R("m_comp", "mixmod_pdf.py", ("mixmod_gen._pdf", '''
def _components(self, x, row):
    """The frozen components and their weights for the given rows"""
    if np.ndim(x) > 1:
        x = np.expand_dims(x, -2)
    weights = self.weights[row].swapaxes(-2, -1)
    dist = sps.norm(
        loc=self._means[row].swapaxes(-2, -1), scale=self._stds[row].swapaxes(-2, -1)
    )
    return x, weights, dist

def _pdf(self, x, row):
    # pylint: disable=arguments-differ
    x, weights, dist = self._components(x, row)
    return (weights * dist.pdf(x)).sum(axis=0)
'''), ("mixmod_gen._cdf", '''
def _cdf(self, x, row):
    # pylint: disable=arguments-differ
    x, weights, dist = self._components(x, row)
    return (weights * dist.cdf(x)).sum(axis=0)
'''))
R("m_ppf", "mixmod_pdf.py", ("mixmod_gen._ppf", '''
def _ppf(self, x, row):
    # pylint: disable=arguments-differ
    half_width = 6 * self._stds
    limits = (np.min(self._means - half_width), np.max(self._means + half_width))
    grid = np.linspace(limits[0], limits[1], 201)
    rows, table_row = np.unique(row, return_inverse=True)
    cdf_vals = self.cdf(grid, rows[..., np.newaxis])
    table_row = table_row.reshape(np.shape(row))
    out = interpolate_multi_x_y(
        x, table_row, cdf_vals, grid, bounds_error=False, fill_value=limits
    )
    return out.ravel()
'''))
R("m_init", "mixmod_pdf.py", ("mixmod_gen.__init__", '''
def __init__(self, means, stds, weights, *args, **kwargs):
    self._scipy_version_warning()
    kwargs["shape"], self._ncomps = means.shape[:-1], means.shape[-1]
    self._means = reshape_to_pdf_size(means, -1)
    self._stds = reshape_to_pdf_size(stds, -1)
    weights = reshape_to_pdf_size(weights, -1)
    if np.any(weights < 0):
        raise ValueError("All weights need to be larger than zero")
    super().__init__(*args, **kwargs)
    self._weights = weights / np.sum(weights, axis=1, keepdims=True)
    for key in ("weights", "stds", "means"):
        self._addobjdata(key, getattr(self, "_" + key))
'''))
R("m_alloc", "mixmod_pdf.py", ("mixmod_gen.get_allocation_kwds", '''
@classmethod
def get_allocation_kwds(cls, npdf, **kwargs):
    if "means" not in kwargs:
        raise ValueError("required argument means not included in kwargs")
    ncomp = np.shape(kwargs["means"])[-1]
    column = ((npdf, ncomp), "f4")
    return {key: column for key in ("means", "stds", "weights")}
'''))
# ---------------------------------------------------------------- spline
R("s_build", "spline_pdf.py", ("build_splines", '''
def build_splines(xvals, yvals):
    reps = [splrep(xrow, yrow) for xrow, yrow in zip(xvals, yvals)]
    l_x, l_y, l_n = zip(*reps)
    return np.vstack(l_x), np.vstack(l_y), np.vstack(l_n)
'''))
R("s_rowrep", "spline_pdf.py", ("spline_gen._pdf", '''
def _row_rep(self, irow):
    """The representation of one spline as scipy wants it"""
    return (self._splx[irow], self._sply[irow], self._spln[irow].item())

def _pdf(self, x, row):
    # pylint: disable=arguments-differ
    with errstate(all="ignore"):
        vv = np.vectorize(lambda xv, irow: splev(xv, self._row_rep(irow)))
    return vv(x, row).ravel()
'''), ("spline_gen._cdf", '''
def _cdf(self, x, row):
    # pylint: disable=arguments-differ
    def cdf_row(xv, irow):
        return splint(self._xmin, xv, self._row_rep(irow))

    with errstate(all="ignore"):
        vv = np.vectorize(cdf_row)
    return vv(x, row).ravel()
'''))
R("s_init", "spline_pdf.py", ("spline_gen.__init__", '''
def __init__(self, *args, **kwargs):
    splx, sply, spln = (kwargs.pop(key, None) for key in ("splx", "sply", "spln"))
    if splx is None:
        raise ValueError("splx must be provided")
    if splx.shape != sply.shape:
        raise ValueError(
            "Shape of xvals (%s) != shape of yvals (%s)" % (splx.shape, sply.shape)
        )
    kwargs["shape"] = splx.shape[:-1]
    self._xmin = np.min(splx)
    self._xmax = np.max(splx)
    self._splx = reshape_to_pdf_size(splx, -1)
    self._sply = reshape_to_pdf_size(sply, -1)
    self._spln = reshape_to_pdf_size(spln, -1)
    super().__init__(*args, **kwargs)
    self._addobjdata("splx", self._splx)
    self._addobjdata("sply", self._sply)
    self._addobjdata("spln", self._spln)
'''))
R("s_samples", "spline_pdf.py", ("spline_gen.create_from_samples", '''
@classmethod
def create_from_samples(cls, xvals, samples, **kwargs):
    kwargs.pop("yvals", None)
    yvals = evaluate_kdes(xvals, build_kdes(samples))
    n_samples = samples.shape[0]
    xvals_expand = np.expand_dims(xvals, -1) * np.ones(n_samples)
    return cls.create_from_xy_vals(xvals_expand.T, yvals, **kwargs)
'''))
R("s_norm", "spline_pdf.py", ("normalize_spline", '''
def normalize_spline(xvals, yvals, limits, **kwargs):
    lower, upper = limits[0], limits[1]

    def row_integral(irow):
        rep_x, rep_y = xvals[irow], yvals[irow]
        return quad(lambda xv: splev(xv, splrep(rep_x, rep_y)), lower, upper, **kwargs)[0]

    with errstate(all="ignore"):
        integrals = np.vectorize(row_integral)(np.arange(xvals.shape[0]))
    return (yvals.T / integrals).T
'''))
# ---------------------------------------------------------------- packing
R("p_pack", "packing_utils.py", ("linear_pack_from_rowmax", '''
def _row_max(input_array):
    """Maximum of each row, as a column"""
    return np.expand_dims(input_array.max(axis=1), -1)


def linear_pack_from_rowmax(input_array):
    row_max = _row_max(input_array)
    scaled = 255 * input_array / row_max
    return np.round(scaled).astype(np.uint8), row_max
'''), ("log_pack_from_rowmax", '''
def log_pack_from_rowmax(input_array, log_floor=-3.0):
    row_max = _row_max(input_array)
    neg_log_floor = -log_floor
    epsilon = np.power(10.0, 3 * log_floor)
    log_ratio = np.log10((input_array + epsilon) / row_max)
    scaled = 255 * (log_ratio + neg_log_floor) / neg_log_floor
    return np.round(scaled).clip(0.0, 255.0).astype(np.uint8), row_max
'''))
R("p_unpack", "packing_utils.py", ("log_unpack_from_rowmax", '''
def log_unpack_from_rowmax(packed_array, row_max, log_floor=-3.0):
    neg_log_floor = -1.0 * log_floor
    exponent = neg_log_floor * ((packed_array / 255.0) - 1.0)
    fraction = np.where(packed_array != 0, np.power(10, exponent), 0.0)
    return row_max * fraction
'''), ("linear_unpack_from_rowmax", '''
def linear_unpack_from_rowmax(packed_array, row_max):
    return packed_array / 255.0 * row_max
'''))
R("p_dispatch", "packing_utils.py", ("unpack_array", '''
def unpack_array(packing_type, packed_array, **kwargs):
    row_max = kwargs.get("row_max")
    if packing_type == PackingType.linear_from_rowmax:
        return linear_unpack_from_rowmax(packed_array, row_max)
    if packing_type == PackingType.log_from_rowmax:
        log_floor = kwargs.get("log_floor", -3)
        return log_unpack_from_rowmax(packed_array, row_max, log_floor)
    raise ValueError(f"Unpacking for packing type {packing_type} is not implemetned")
'''))
# ---------------------------------------------------------------- dict_utils
R("d_compare", "dict_utils.py", ("compare_two_dicts", '''
def _values_match(v, vv):
    try:
        return not v != vv
    except ValueError:
        return np.allclose(v, vv)


def compare_two_dicts(d1, d2):
    if d1.keys() != d2.keys():
        return False
    for k, v in d1.items():
        if not _values_match(v, d2[k]):
            return False
    return True
'''))
R("d_compare_all", "dict_utils.py", ("compare_dicts", '''
def compare_dicts(in_dicts):
    if not in_dicts:
        return True
    first_dict, *others = in_dicts
    return all(compare_two_dicts(first_dict, other) for other in others)
'''))
R("d_check", "dict_utils.py", ("check_array_shapes", '''
def check_array_shapes(in_dict, npdf):
    if in_dict is None:
        return
    for key, val in in_dict.items():
        if np.size(val) == 1 and npdf == 1:
            continue
        n_rows = np.shape(val)[0]
        if n_rows == npdf:
            continue
        raise ValueError(
            "First dimension of array %s does not match npdf: %i != %i" % (key, n_rows, npdf)
        )
'''))
R("d_concat", "dict_utils.py", ("concatenate_dicts", '''
def concatenate_dicts(in_dicts):
    if not in_dicts:
        return {}
    check_keys(in_dicts)
    out_dict = {}
    for key in in_dicts[0]:
        out_dict[key] = np.concatenate([in_dict[key] for in_dict in in_dicts])
    return out_dict
'''))
R("d_slice", "dict_utils.py", ("slice_dict", '''
def slice_dict(in_dict, subslice):
    out_dict = dict(in_dict)
    for key, val in in_dict.items():
        try:
            out_dict[key] = val[subslice]
        except (KeyError, TypeError):
            pass
    return out_dict
'''))
R("d_default", "dict_utils.py", ("get_val_or_default", '''
def get_val_or_default(in_dict, key):
    return in_dict.get(key, in_dict.get(None))
'''), ("set_val_or_default", '''
def set_val_or_default(in_dict, key, val):
    if key not in in_dict:
        in_dict[key] = val
    return in_dict[key]
'''))
# ---------------------------------------------------------------- ensemble
R("e_getitem_helper", "ensemble.py", ("Ensemble.__getitem__", '''
def _ctor_metadata(self):
    """Metadata without the entries that are not constructor arguments"""
    return {
        k: np.squeeze(v)
        for k, v in self.metadata().items()
        if k not in ("pdf_name", "pdf_version")
    }

def __getitem__(self, key):
    red_data = self._ctor_metadata()
    for k, v in slice_dict(self.objdata(), key).items():
        red_data[k] = np.expand_dims(v, 0) if len(np.shape(v)) < 2 else v
    ancil = None
    if self._ancil is not None:
        ancil = slice_dict(self._ancil, key)
    return Ensemble(self._gen_obj.create, data=red_data, ancil=ancil)
'''), ("Ensemble.update_objdata", '''
def update_objdata(self, data, ancil=None):
    new_data = self._ctor_metadata()
    new_data.update(self.objdata())
    new_data.update(data)
    self.update(new_data, ancil)
'''))
R("e_update_cache", "ensemble.py", ("Ensemble.update", '''
def _reset_caches(self):
    self._gridded = None
    self._samples = None

def update(self, data, ancil=None):
    frozen = self._gen_func(**data)
    check_array_shapes(ancil, frozen.npdf)
    self._frozen = frozen
    self._gen_obj = frozen.dist
    self.set_ancil(ancil)
    self._reset_caches()
'''))
R("e_init", "ensemble.py", ("Ensemble.__init__", '''
def __init__(self, gen_func, data, ancil=None):
    self._gridded = None
    self._samples = None
    self._ancil = None
    self._gen_func = gen_func
    frozen = gen_func(**data)
    self._frozen = frozen
    self._gen_obj = frozen.dist
    self._gen_class = type(self._gen_obj)
    self.set_ancil(ancil)
'''))
R("e_convert", "ensemble.py", ("Ensemble.convert_to", '''
def convert_to(self, to_class, **kwargs):
    kwds = dict(kwargs)
    method = kwds.pop("method", None)
    ctor_func, extract_func = to_class.creation_method(method), to_class.extraction_method(method)
    for what, func in (("creation", ctor_func), ("extraction", extract_func)):
        if func is None:
            raise KeyError(
                "Class named %s does not have a %s_method named %s" % (to_class.name, what, method)
            )
    return Ensemble(ctor_func, data=extract_func(self, **kwds))
'''))
R("e_metadata", "ensemble.py", ("Ensemble.metadata", '''
def metadata(self):
    return dict(self._gen_obj.metadata)
'''), ("Ensemble.objdata", '''
def objdata(self):
    dd = dict(self._frozen.kwds)
    dd.pop("row", None)
    dd.update(self._gen_obj.objdata)
    return dd
'''))
R("e_append", "ensemble.py", ("Ensemble.append", '''
def append(self, other_ens):
    if not compare_dicts([self.metadata(), other_ens.metadata()]):
        raise KeyError("Metadata does not match, can not append")
    full_ancil = None
    if self._ancil is not None and other_ens.ancil is not None:
        full_ancil = concatenate_dicts([self.ancil, other_ens.ancil])
    full_objdata = concatenate_dicts([self.objdata(), other_ens.objdata()])
    self.update_objdata(full_objdata, full_ancil)
'''))
R("e_gridded", "ensemble.py", ("Ensemble.gridded", '''
def gridded(self, grid):
    if self._gridded is not None and np.array_equal(self._gridded[0], grid):
        return self._gridded
    self._gridded = (np.array(grid), self.pdf(grid))
    return self._gridded
'''))
R("e_gridded2", "ensemble.py", ("Ensemble.gridded", '''
def gridded(self, grid):
    cached = self._gridded
    if cached is None or not np.array_equal(cached[0], grid):
        cached = (np.array(grid), self.pdf(grid))
        self._gridded = cached
    return cached
'''))
R("e_mode", "ensemble.py", ("Ensemble.mode", '''
def mode(self, grid):
    new_grid, griddata = self.gridded(grid)
    peak_idx = np.argmax(griddata, axis=-1)
    return new_grid[peak_idx][..., np.newaxis]
'''))
R("e_partial", "ensemble.py", ("Ensemble.moment_partial", '''
def moment_partial(self, n, limits, dx=0.01):
    width = limits[-1] - limits[0]
    n_points = int(width / dx)
    grid = np.linspace(limits[0], limits[1], n_points)
    _, p_eval = self.gridded(grid)
    return quick_moment(p_eval, grid**n, width / (n_points - 1))
'''))
R("e_alloc", "ensemble.py", ("Ensemble._get_allocation_kwds", '''
def _get_allocation_kwds(self, npdf):
    keywords = {}
    for group, tab in self.build_tables().items():
        if group == "meta":
            continue
        group_kwds = {}
        for key, array in tab.items():
            shape = list(array.shape)
            shape[0] = npdf
            group_kwds[key] = (shape, array.dtype)
        keywords[group] = group_kwds
    return keywords
'''))
R("e_chunk", "ensemble.py", ("Ensemble.writeHdf5Chunk", '''
def writeHdf5Chunk(self, fname, start, end):
    odict = self.build_tables()
    del odict["meta"]
    io.writeDictToHdf5Chunk(fname, odict, start, end)
'''), ("Ensemble.finalizeHdf5Write", '''
def finalizeHdf5Write(self, filename):
    io.finalizeHdf5Write(filename, "meta", **self.metadata())
'''), ("Ensemble.initializeHdf5Write", '''
def initializeHdf5Write(self, filename, npdf, comm=None):
    return io.initializeHdf5Write(filename, comm=comm, **self._get_allocation_kwds(npdf))
'''))
R("e_add_ancil", "ensemble.py", ("Ensemble.add_to_ancil", '''
def add_to_ancil(self, to_add):
    check_array_shapes(to_add, self.npdf)
    if self._ancil is None:
        ancil = dict(to_add)
    else:
        ancil = dict(self._ancil)
        ancil.update(to_add)
    self._ancil = ancil
'''))
R("e_tables", "ensemble.py", ("Ensemble.build_tables", '''
def build_tables(self):
    dd = {"meta": self.metadata(), "data": self.objdata()}
    ancil = self._ancil
    if ancil is not None:
        dd["ancil"] = ancil
    return dd
'''), ("Ensemble.write_to", '''
def write_to(self, filename):
    basename, ext = os.path.splitext(filename)
    io.write(self.build_tables(), basename, ext.lstrip("."))
'''))
R("e_integrate", "ensemble.py", ("Ensemble.integrate", '''
def integrate(self, limits):
    upper = self.cdf(limits[1])
    lower = self.cdf(limits[0])
    return upper - lower
'''), ("Ensemble.rvs", '''
def rvs(self, size=None, random_state=None):
    full_size = (self.npdf, size)
    return self._frozen.rvs(size=full_size, random_state=random_state)
'''))
# ---------------------------------------------------------------- factory
R("f_build", "factory.py", ("Factory._build_data_dict", '''
@staticmethod
def _decode_metadata(col_data):
    """Turn a stored metadata column back into the original value"""
    ndim = np.ndim(col_data)
    if ndim == 1:
        col_data = col_data[0]
    elif ndim > 1:
        col_data = np.squeeze(col_data)
        if np.ndim(col_data) == 0:
            col_data = col_data.item()
    if isinstance(col_data, bytes):
        return col_data.decode()
    return col_data

@staticmethod
def _build_data_dict(md_table, data_table):
    data_dict = {col: Factory._decode_metadata(col_data) for col, col_data in md_table.items()}
    for col, col_data in data_table.items():
        if len(col_data.shape) < 2:
            col_data = np.expand_dims(col_data, -1)
        data_dict[col] = col_data
    return data_dict
'''))
R("f_lookup", "factory.py", ("Factory.create", '''
def _get_class(self, class_name):
    """Class with the given name"""
    if class_name not in self:
        raise KeyError("Class nameed %s is not in factory" % class_name)
    return self[class_name]

def create(self, class_name, data, method=None):
    ctor_func = self._get_class(class_name).creation_method(method)
    return Ensemble(ctor_func, data)
'''), ("Factory.convert", '''
def convert(self, in_dist, class_name, **kwds):
    kwds_copy = kwds.copy()
    method = kwds_copy.pop("method", None)
    the_class = self._get_class(class_name)
    extract_func = the_class.extraction_method(method)
    if extract_func is None:
        raise KeyError(
            "Class named %s does not have a extraction_method named %s" % (class_name, method)
        )
    return self.create(class_name, extract_func(in_dist, **kwds_copy), method)
'''), ("Factory.from_tables", '''
def from_tables(self, tables):
    data = self._build_data_dict(tables["meta"], tables["data"])
    pdf_name = data.pop("pdf_name")
    pdf_version = data.pop("pdf_version")
    the_class = self._get_class(pdf_name)
    reader_convert = the_class.reader_method(pdf_version)
    if reader_convert is not None:
        data = reader_convert(data)
    ctor_func = the_class.creation_method(None)
    return Ensemble(ctor_func, data=data, ancil=tables.get("ancil"))
'''))
R("f_iter", "factory.py", ("Factory.iterator", '''
@staticmethod
def _read_chunk(group, start, end):
    """Read one range of rows of every dataset in a group"""
    chunk = OrderedDict()
    for key, val in group.items():
        chunk[key] = io.readHdf5DatasetToArray(val, start, end)
    return chunk

def iterator(self, filename, chunk_size=100000, rank=0, parallel_size=1):
    extension = os.path.splitext(filename)[1]
    if extension not in [".hdf5"]:
        raise TypeError("Can only use qp.iterator on hdf5 files")

    metadata = io.readHdf5ToDict(filename, "meta")
    pdf_name = metadata.pop("pdf_name")[0].decode()
    _pdf_version = metadata.pop("pdf_version")[0]
    if pdf_name not in self:
        raise KeyError("Class nameed %s is not in factory" % pdf_name)
    ctor_func = self[pdf_name].creation_method(None)
    f, infp = io.readHdf5Group(filename, "data")
    try:
        ancil_f, ancil_infp = io.readHdf5Group(filename, "ancil")
    except KeyError:
        ancil_f, ancil_infp = None, None
    num_rows = io.getGroupInputDataLength(f)
    try:
        for start, end in io.data_ranges_by_rank(num_rows, chunk_size, parallel_size, rank):
            data = self._build_data_dict(metadata, self._read_chunk(f, start, end))
            ancil_data = None
            if ancil_f is not None:
                ancil_data = self._read_chunk(ancil_f, start, end)
            yield start, end, Ensemble(ctor_func, data=data, ancil=ancil_data)
    finally:
        infp.close()
        if ancil_infp is not None:
            ancil_infp.close()
'''))
R("f_concat", "factory.py", ("Factory.concatenate", '''
@staticmethod
def concatenate(ensembles):
    if not ensembles:
        return None
    metadata_list = [ensemble.metadata() for ensemble in ensembles]
    objdata_list = [ensemble.objdata() for ensemble in ensembles]
    ancil_list = [ensemble.ancil for ensemble in ensembles]
    if not compare_dicts(metadata_list):
        raise ValueError("Metadata does not match")
    data = concatenate_dicts(objdata_list)
    ancil = None
    if all(anc is not None for anc in ancil_list):
        ancil = concatenate_dicts(ancil_list)
    for k, v in metadata_list[0].items():
        if k not in ("pdf_name", "pdf_version"):
            data[k] = np.squeeze(v)
    return Ensemble(ensembles[0].gen_obj.create, data, ancil)
'''))
R("f_read_dict", "factory.py", ("Factory.read_dict", '''
@staticmethod
def _read_group(filename, path):
    group_object, infp = io.readHdf5Group(filename, path)
    try:
        return io.readHdf5GroupToDict(group_object)
    finally:
        infp.close()

@staticmethod
def read_dict(filename):
    results = {}
    for top_level_group in io.readHdf5GroupNames(filename):
        tables = {}
        for key_name in io.readHdf5GroupNames(filename, top_level_group):
            tables[key_name] = Factory._read_group(filename, f"{top_level_group}/{key_name}")
        results[top_level_group] = from_tables(tables)
    return results
'''), ("Factory.write_dict", '''
@staticmethod
def write_dict(filename, ensemble_dict, **kwargs):
    for val in ensemble_dict.values():
        if not isinstance(val, Ensemble):
            raise ValueError("All values in ensemble_dict must be qp.Ensemble")
    output_tables = {key: val.build_tables() for key, val in ensemble_dict.items()}
    io.writeDictsToHdf5(output_tables, filename, **kwargs)
'''))
R("f_read", "factory.py", ("Factory.read", '''
def read(self, filename):
    is_parquet = os.path.splitext(filename)[1] == ".pq"
    tables = io.read(
        filename,
        NUMPY_DICT,
        keys=["data", "meta", "ancil"] if is_parquet else None,
        allow_missing_keys=is_parquet,
    )
    return self.from_tables(tables)
'''), ("Factory.is_qp_file", '''
def is_qp_file(self, filename):
    try:
        meta = io.readNative(filename, keys=["meta"])["meta"]
        found = len(meta["pdf_name"]) > 0
    except Exception as msg:
        print(f"This is not a qp file because {msg}")
        return False
    return found
'''))
R("f_add", "factory.py", ("Factory.add_class", '''
def add_class(self, the_class):
    if not hasattr(the_class, "name"):
        raise AttributeError(
            "Can not add class %s to factory because it doesn't have a name attribute" % the_class
        )
    name = the_class.name
    if name in self:
        raise KeyError("Class nameed %s is already in factory, point to %s" % (name, self[name]))
    the_class.add_method_dicts()
    the_class.add_mappings()
    self[name] = the_class
    setattr(self, f"{name}_gen", the_class)
    setattr(self, name, the_class.create)
'''), ("Factory._load_scipy_classes", '''
def _load_scipy_classes(self):
    for name in sps.__all__:
        attr = getattr(sps, name)
        if not isinstance(attr, sps.rv_continuous):
            continue
        self._make_scipy_wrapped_class(name, type(attr))
'''))
# ---------------------------------------------------------------- pdf_gen
R("g_hist", "pdf_gen.py", ("rv_frozen_func.histogramize", '''
def histogramize(self, bins):
    """Histogram the distribution"""
    return _histogramize(self, bins)
'''), ("rv_frozen_rows.histogramize", '''
def histogramize(self, bins):
    """Histogram the distribution"""
    return _histogramize(self, bins)
'''), (None, ("class rv_frozen_func(rv_continuous_frozen):", '''def _histogramize(frozen, bins):
    """Integrate a frozen distribution over each bin"""
    cdf_vals = reshape_to_pdf_size(frozen.cdf(bins), -1)
    bin_vals = np.diff(cdf_vals, axis=1)
    return (bins, reshape_to_pdf_shape(bin_vals, frozen.shape, bins.size - 1))


class rv_frozen_func(rv_continuous_frozen):''')))
R("g_rvs", "pdf_gen.py", ("Pdf_rows_gen._rvs", '''
def _rvs(self, *args, size=None, random_state=None):
    samples = self._ppf(random_state.uniform(size=size), *args)
    return samples if size is None else samples.reshape(size)
'''))
R("g_argcheck", "pdf_gen.py", ("Pdf_rows_gen._argcheck", '''
def _argcheck(self, *args):
    if not args:
        return np.atleast_1d(1)
    row = asarray(args[0])
    in_range = np.logical_and(row >= 0, row < self._npdf)
    return np.atleast_1d(np.logical_and(1, in_range))
'''))
R("g_frozen", "pdf_gen.py", ("rv_frozen_func.__init__", '''
def __init__(self, dist, *args, **kwds):
    super().__init__(dist, *args, **kwds)
    shape = np.broadcast([np.array(val) for val in self.kwds.values()]).shape
    self._shape = 1 if len(shape) < 2 else shape[1:-1]
    self._npdf = np.prod(self._shape).astype(int)
    self._ndim = np.size(self._shape)
'''))
R("g_create", "pdf_gen.py", ("Pdf_gen.create", '''
@classmethod
def create(cls, **kwds):
    gen_obj, freeze_kwds = cls.create_gen(**kwds)
    return gen_obj(**freeze_kwds)
'''), ("Pdf_gen.create_gen", '''
@classmethod
def create_gen(cls, **kwds):
    kwds_copy = dict(kwds)
    gen_obj = cls(name=kwds_copy.pop("name", "dist"))
    return gen_obj, kwds_copy
'''))
# ---------------------------------------------------------------- conversions
R("c_require", "conversion_funcs.py", ("extract_vals_at_x", '''
def extract_vals_at_x(in_dist, **kwargs):
    xvals = kwargs.get("xvals")
    if xvals is None:
        raise ValueError("To convert to extract_xy_vals you must specify xvals")
    return {"xvals": xvals, "yvals": in_dist.pdf(xvals)}
'''), ("extract_xy_vals", '''
def extract_xy_vals(in_dist, **kwargs):
    xvals = kwargs.pop("xvals", None)
    if xvals is None:
        raise ValueError("To convert using extract_xy_vals you must specify xvals")
    yvals = in_dist.pdf(xvals)
    return dict(xvals=np.squeeze(xvals) * np.ones(yvals.shape), yvals=yvals)
'''))
R("c_hist", "conversion_funcs.py", ("extract_hist_values", '''
def extract_hist_values(in_dist, **kwargs):
    bins = kwargs.pop("bins", None)
    if bins is None:
        raise ValueError("To convert using extract_hist_samples you must specify bins")
    bins, bin_integrals = in_dist.histogramize(bins)
    densities = bin_integrals / bin_widths(bins)
    return dict(bins=bins, pdfs=densities)
'''), ("extract_hist_samples", '''
def extract_hist_samples(in_dist, **kwargs):
    bins = kwargs.pop("bins", None)
    if bins is None:
        raise ValueError("To convert using extract_hist_samples you must specify bins")
    size = kwargs.pop("size", 1000)
    random_state = kwargs.pop("random_state", None)
    samples = in_dist.rvs(size=size, random_state=random_state)
    signature = "(%i)->(%i)" % (samples.shape[-1], bins.size - 1)
    counts = np.vectorize(lambda sample: np.histogram(sample, bins=bins)[0], signature=signature)(samples)
    return dict(bins=bins, pdfs=counts / bin_widths(bins))
'''))
R("c_mixfit", "conversion_funcs.py", ("extract_mixmod_fit_samples", '''
def extract_mixmod_fit_samples(in_dist, **kwargs):
    n_comps = kwargs.pop("ncomps", 3)
    n_sample = kwargs.pop("nsamples", 1000)
    random_state = kwargs.pop("random_state", None)
    samples = in_dist.rvs(size=n_sample, random_state=random_state)
    if isinstance(random_state, np.random.Generator):
        random_state = np.random.RandomState(random_state.bit_generator)

    def mixmod_helper(samps):
        estimator = mixture.GaussianMixture(n_components=n_comps, random_state=random_state)
        estimator.fit(samps.reshape(-1, 1))
        variances = estimator.covariances_[:, 0, 0]
        return np.vstack([estimator.weights_, estimator.means_[:, 0], np.sqrt(variances)])

    vv = np.vectorize(mixmod_helper, signature="(%i)->(3,%i)" % (n_sample, n_comps))
    fit_vals = vv(samples)
    keys = ("weights", "means", "stds")
    return {key: fit_vals[:, i, :] for i, key in enumerate(keys)}
'''))
R("c_sparse", "conversion_funcs.py", ("extract_sparse_from_xy", '''
def _resample(xvals, yvals, nvals):
    """Interpolate onto a regular grid covering the region with non-zero values"""
    _, j = np.where(yvals > 0)
    newx = np.linspace(np.min(xvals), np.max(xvals[j]), nvals)
    return newx, sciinterp.interp1d(xvals, yvals, assume_sorted=True)(newx)


def extract_sparse_from_xy(in_dist, **kwargs):
    yvals = kwargs.pop("yvals", in_dist.objdata()["yvals"])
    xvals = kwargs.pop("xvals", in_dist.metadata()["xvals"][0])
    nvals = kwargs.pop("nvals", 300)
    newx, newpdf = _resample(xvals, yvals, nvals)
    sparse_indices, metadata, _ = build_sparse_representation(newx, newpdf)
    metadata.pop("Ntot")
    metadata["xvals"] = newx
    metadata["sparse_indices"] = sparse_indices
    return metadata
'''))
R("c_xysparse", "conversion_funcs.py", ("extract_voigt_xy_sparse", '''
def extract_voigt_xy_sparse(in_dist, **kwargs):
    yvals = in_dist.objdata()["yvals"]
    z = kwargs.pop("xvals", in_dist.metadata()["xvals"][0])
    nz = kwargs.pop("nz", 300)
    positive = np.where(yvals > 0)[1]
    newz = np.linspace(np.min(z), np.max(z[positive]), nz)
    newpdf = sciinterp.interp1d(z, yvals, assume_sorted=True)(newz)
    norms = sciint.trapezoid(newpdf, newz).reshape(-1, 1)
    indices, meta, _ = build_sparse_representation(newz, newpdf / norms)
    return {"indices": indices, "metadata": meta}
'''))
R("c_voigt", "conversion_funcs.py", ("extract_voigt_mixmod", '''
def extract_voigt_mixmod(in_dist, **kwargs):
    objdata = in_dist.objdata()
    out = {key: objdata[key] for key in ("means", "stds", "weights")}
    out["gammas"] = np.zeros_like(out["means"])
    out.update(kwargs)
    return out
'''))

# ---------------------------------------------------------------- metrics
R("m_ad", "metrics/goodness_of_fit.py", ("_anderson_darling", '''
def _anderson_darling(dist, data):
    n = data.shape[-1]
    ordered = np.sort(data, axis=-1)
    weights = (2 * np.arange(1, n + 1) - 1) / n
    log_terms = dist.logcdf(ordered) + dist.logsf(ordered[..., ::-1])
    return -n - (weights * log_terms).sum(axis=-1)
'''))
R("m_ks", "metrics/goodness_of_fit.py", ("_kolmogorov_smirnov", '''
def _kolmogorov_smirnov(dist, data):
    cdfvals = dist.cdf(np.sort(data, axis=-1))
    return np.maximum(_compute_dplus(cdfvals), _compute_dminus(cdfvals))
'''), ("_compute_dplus", '''
def _compute_dplus(cdfvals):
    num = cdfvals.shape[-1]
    steps = np.arange(1.0, num + 1) / num
    return np.max(steps - cdfvals, axis=-1)
'''), ("_compute_dminus", '''
def _compute_dminus(cdfvals, axis=-1):
    num = cdfvals.shape[-1]
    steps = np.arange(0.0, num) / num
    return np.max(cdfvals - steps, axis=axis)
'''))
R("m_cvm", "metrics/goodness_of_fit.py", ("_cramer_von_mises", '''
def _cramer_von_mises(dist, data):
    n = data.shape[-1]
    cdfvals = dist.cdf(np.sort(data, axis=-1))
    midpoints = (2 * np.arange(1, n + 1) - 1) / (2 * n)
    diff = midpoints - cdfvals
    return 1 / (12 * n) + np.sum(diff * diff, axis=-1)
'''))
R("m_grid", "metrics/metrics.py", ("_calculate_grid_parameters", '''
def _calculate_grid_parameters(limits, dx: float = 0.01) -> Grid:
    low, high = limits[0], limits[1]
    extent = limits[-1] - limits[0]
    cardinality = int(extent / dx)
    resolution = extent / (cardinality - 1)
    half = resolution / 2
    return Grid(
        grid_values=np.linspace(low, high, cardinality),
        cardinality=cardinality,
        resolution=resolution,
        hist_bin_edges=np.histogram_bin_edges((low - half, high + half), cardinality),
        limits=limits,
    )
'''))
R("m_moment", "metrics/metrics.py", ("calculate_moment", '''
def calculate_moment(p, N, limits, dx=0.01):
    grid = _calculate_grid_parameters(limits, dx)
    _, pe = p.gridded(grid.grid_values)
    return array_metrics.quick_moment(pe, np.power(grid.grid_values, N), grid.resolution)
'''))
R("m_kld", "metrics/metrics.py", ("calculate_kld", '''
def _gridded_pdfs(p, q, grid):
    """Evaluate both ensembles on the grid"""
    return p.gridded(grid.grid_values)[1], q.gridded(grid.grid_values)[1]


def calculate_kld(p, q, limits, dx=0.01):
    if p.shape != q.shape:
        raise ValueError("Cannot calculate KLD between two ensembles with different shapes")
    grid = _calculate_grid_parameters(limits, dx)
    pn, qn = _gridded_pdfs(p, q, grid)
    Dpq = array_metrics.quick_kld(pn, qn, grid.resolution)
    if (Dpq < 0.0).any():
        print("broken KLD: " + str((Dpq, pn, qn, grid.resolution)))
        return epsilon * np.ones(Dpq.shape)
    return Dpq
'''))
R("m_rmse", "metrics/metrics.py", ("calculate_rmse", '''
def calculate_rmse(p, q, limits, dx=0.01):
    if not p.shape == q.shape:
        raise ValueError("Cannot calculate RMSE between two ensembles with different shapes")
    grid = _calculate_grid_parameters(limits, dx)
    pdfs = [ens.gridded(grid.grid_values)[1] for ens in (p, q)]
    return array_metrics.quick_rmse(pdfs[0], pdfs[1], grid.cardinality)
'''))
R("m_quick", "metrics/array_metrics.py", ("quick_kld", '''
def quick_kld(p_eval, q_eval, dx=0.01):
    integrand = p_eval * (safelog(p_eval) - safelog(q_eval))
    return np.sum(integrand, axis=-1) * dx
'''), ("quick_rmse", '''
def quick_rmse(p_eval, q_eval, N):
    diff = p_eval - q_eval
    return np.sqrt((diff * diff).sum(axis=-1) / N)
'''), ("quick_moment", '''
def quick_moment(p_eval, grid_to_N, dx):
    return dx * p_eval.dot(grid_to_N)
'''))
R("m_rbpe", "metrics/array_metrics.py", ("quick_rbpe", '''
def _loss(x):
    """Calculate the loss"""
    return 1.0 - 1.0 / (1.0 + (x / 0.15) ** 2)


def quick_rbpe(pdf_function, integration_bounds, limits=(np.inf, np.inf)):
    lower, upper = integration_bounds[0], integration_bounds[1]

    def find_z_risk(zp):
        result = quad(lambda z: pdf_function(z) * _loss((zp - z) / (1.0 + z)), lower, upper)
        return result[0]

    if limits[0] == np.inf:
        best = minimize_scalar(find_z_risk)
    else:
        best = minimize_scalar(find_z_risk, bounds=(limits[0], limits[1]), method="bounded")
    return best.x
'''))
R("m_calc_rbpe", "metrics/metrics.py", ("calculate_rbpe", '''
def calculate_rbpe(p, limits=(np.inf, np.inf)):
    rbpes = []
    for n in range(p.npdf):
        dist = p[n]
        if dist.npdf != 1:
            raise ValueError(
                "quick_rbpe only handles Ensembles with a single PDF "
                "for ensembles with more than one PDF, use the qp.metrics.risk_based_point_estimate function."
            )
        bounds = (dist.ppf(0.01)[0][0], dist.ppf(0.99)[0][0])
        rbpe = array_metrics.quick_rbpe(lambda z, d=dist: d.pdf(z)[0][0], bounds, limits)
        rbpes.append(rbpe)
    return np.array(rbpes)
'''))
R("m_brier_prep", "metrics/metrics.py", ("_prepare_for_brier", '''
def _check_brier_inputs(p, truth, limits):
    n_truth = len(truth)
    if p.npdf != n_truth:
        raise ValueError(
            "Number of distributions in the Ensemble (%d) is not equal to the number of truth values (%d)"
            % (p.npdf, n_truth)
        )
    below = np.any(np.less(truth, limits[0]))
    if below or np.any(np.greater(truth, limits[1])):
        raise ValueError(
            f"Input truth values exceed the defined limits ({min(truth)}, {max(truth)}) ({limits[0]} {limits[1]})"
        )


def _prepare_for_brier(p, truth, limits, dx=0.01):
    _check_brier_inputs(p, truth, limits)
    grid = _calculate_grid_parameters(limits, dx)
    rows = []
    for t in truth:
        counts, _ = np.histogram(t, grid.hist_bin_edges)
        rows.append(counts)
    return Brier(p.gridded(grid.grid_values)[1], np.array(rows))
'''), ("calculate_brier", '''
def calculate_brier(p, truth, limits, dx=0.01):
    return _prepare_for_brier(p, truth, limits, dx).evaluate()
'''), ("calculate_brier_for_accumulation", '''
def calculate_brier_for_accumulation(p, truth, limits, dx=0.01):
    return _prepare_for_brier(p, truth, limits, dx).accumulate(), p.npdf
'''))
R("m_brier_cls", "metrics/brier.py", ("Brier._calculate_metric", '''
def _scores(self):
    return np.sum((self._prediction - self._truth) ** 2, axis=self._axis_for_summation)

def _calculate_metric(self):
    return np.mean(self._scores())
'''), ("Brier._calculate_metric_for_accumulation", '''
def _calculate_metric_for_accumulation(self):
    return self._scores().sum()
'''), ("Brier.evaluate", '''
def _prepare(self):
    self._manipulate_data()
    self._validate_data()

def evaluate(self):
    self._prepare()
    return self._calculate_metric()
'''), ("Brier.accumulate", '''
def accumulate(self):
    self._prepare()
    return self._calculate_metric_for_accumulation()
'''))
R("m_brier_valid", "metrics/brier.py", ("Brier._validate_data", '''
def _validate_data(self):
    for label, array in (("prediction", self._prediction), ("truth", self._truth)):
        if not np.issubdtype(array.dtype, np.number):
            raise TypeError(f"Input {label} array could not be converted to a Numpy array")

    if self._prediction.shape != self._truth.shape:
        raise ValueError("Input prediction and truth arrays do not have the same shape")

    self._axis_for_summation = 1
    if self._prediction.ndim == 1:
        self._axis_for_summation = 0

    totals = np.sum(self._prediction, axis=self._axis_for_summation)
    if not np.allclose(totals, 1.0):
        logging.warning("Input predictions do not sum to 1.")
'''))
R("m_outlier", "metrics/metrics.py", ("calculate_outlier_rate", '''
def calculate_outlier_rate(p, lower_limit=0.0001, upper_limit=0.9999):
    try:
        _check_ensemble_is_not_nested(p)
    except ValueError:
        logging.warning("Each element in the ensemble `p` must be a single distribution.")

    rates = []
    for dist in p:
        outside = dist.cdf(lower_limit) + (1.0 - dist.cdf(upper_limit))
        rates.append(outside[0][0])
    return np.array(rates)
'''))
R("m_gof", "metrics/metrics.py", ("calculate_goodness_of_fit", '''
def _warn_on(check, message, *args):
    try:
        check(*args)
    except ValueError:
        logging.warning(message)


def calculate_goodness_of_fit(
    estimate, reference, fit_metric="ks", num_samples=100, _random_state=None
):
    _warn_on(
        _check_ensembles_contain_correct_number_of_distributions,
        "The ensemble `reference` should have 1 or N distributions.  With N = number of distributions in the ensemble `estimate`.",
        estimate, reference,
    )
    _warn_on(_check_ensemble_is_not_nested, "Each element in the ensemble `estimate` must be a single distribution.", estimate)
    _warn_on(_check_ensemble_is_not_nested, "Each element in the ensemble `reference` must be a single distribution.", reference)

    if fit_metric not in goodness_of_fit_metrics:
        raise KeyError(f"`fit_metric` should be one of {list(goodness_of_fit_metrics.keys())}.")

    samples = estimate.rvs(size=num_samples, random_state=_random_state)
    metric = goodness_of_fit_metrics[fit_metric]
    return metric(reference, np.squeeze(samples))
'''))
R("m_check_num", "metrics/metrics.py", ("_check_ensembles_contain_correct_number_of_distributions", '''
def _check_ensembles_contain_correct_number_of_distributions(estimate, reference):
    if reference.npdf not in (1, estimate.npdf):
        raise ValueError(
            "`reference` should contain either 1 distribution or the same number of distributions as `estimate`."
        )
'''), ("_check_ensemble_is_not_nested", '''
def _check_ensemble_is_not_nested(p):
    if any(dist.npdf != 1 for dist in p):
        raise ValueError("Each element in the input Ensemble should be a single distribution.")
'''))
R("m_pit_init", "metrics/pit.py", ("PIT.__init__", '''
def __init__(self, qp_ens, true_vals, eval_grid=DEFAULT_QUANTS):
    samples = self._gather_pit_samples(qp_ens, true_vals)
    self._pit_samps = samples
    n_pit = np.min([len(samples), len(eval_grid)])
    if len(eval_grid) > n_pit:
        logging.warning(
            "Number of pit samples is smaller than the evaluation grid size. Will create a new evaluation grid with size = number of pit samples"
        )
        eval_grid = np.linspace(0, 1, n_pit)
    self._pit = self._produce_output_ensemble(np.quantile(samples, eval_grid), eval_grid)
'''))
R("m_pit_gather", "metrics/pit.py", ("PIT._gather_pit_samples", '''
@classmethod
def _gather_pit_samples(cls, qp_ens, true_vals):
    cdf_vals = qp_ens.cdf(np.vstack(true_vals))
    pit_samples = np.atleast_1d(np.squeeze(cdf_vals))
    bad = ~np.isfinite(pit_samples)
    pit_samples[bad] = 0
    if np.any(bad):
        logging.warning("Some PIT samples were `NaN`. They have been replacd with 0.")
    return pit_samples
'''))
R("m_pit_out", "metrics/pit.py", ("PIT._produce_output_ensemble", '''
@classmethod
def _produce_output_ensemble(cls, data_quants, eval_grid):
    unique_locs, first = np.unique(data_quants, return_index=True)
    mask = cls._create_quant_mask(data_quants[first])
    locs = data_quants[first][mask]
    quants = eval_grid[first][mask]
    data = {"quants": quants, "locs": np.atleast_2d(locs)}
    return qp.Ensemble(qp.quant, data=data)
'''), ("PIT._create_quant_mask", '''
@classmethod
def _create_quant_mask(cls, data_quants):
    return (data_quants > 0.0) & (data_quants < 1)
'''))
R("m_pit_trim", "metrics/pit.py", ("PIT._trim_pit_values", '''
def _trim_pit_values(self, cdf_min, cdf_max):
    samples = self._pit_samps
    trimmed = samples[np.logical_and(samples >= cdf_min, samples <= cdf_max)]
    n_removed = len(samples) - len(trimmed)
    if n_removed > 0:
        logging.warning("Removed %d PITs from the sample.", n_removed)
    return trimmed
'''), ("PIT.calculate_pit_meta_metrics", '''
def calculate_pit_meta_metrics(self):
    return dict(
        ad=self.evaluate_PIT_anderson_ksamp(),
        cvm=self.evaluate_PIT_CvM(),
        ks=self.evaluate_PIT_KS(),
        outlier_rate=self.evaluate_PIT_outlier_rate(),
    )
'''))
R("m_pitmetric", "metrics/concrete_metric_classes.py", ("PITMetric.accumulate", '''
def accumulate(self, estimate, reference):
    samples = PIT._gather_pit_samples(estimate, reference)
    return pytdigest.TDigest.compute(samples, compression=self._tdigest_compression).get_centroids()
'''), ("PITMetric.compute_from_digest", '''
def compute_from_digest(self, digest):
    grid = self._eval_grid
    n_grid = len(grid)
    n_pit = np.min([int(digest.weight), n_grid])
    if n_pit < n_grid:
        print(
            "Number of pit samples is smaller than the evaluation grid size. Will create a new evaluation grid with size = number of pit samples"
        )
        grid = np.linspace(0, 1, n_pit)
    return PIT._produce_output_ensemble(digest.inverse_cdf(grid), grid)
'''))
R("m_cde", "metrics/concrete_metric_classes.py", ("CDELossMetric.evaluate", '''
def _terms(self, estimate, reference):
    """Per-pdf contributions to the two terms of the loss"""
    pdfs = estimate.pdf(self._xvals)
    nearest = [np.argmin(np.abs(self._xvals - z)) for z in reference]
    return np.trapz(pdfs**2, x=self._xvals), pdfs[range(estimate.npdf), nearest]

def evaluate(self, estimate, reference):
    term1, term2 = self._terms(estimate, reference)
    return np.mean(term1) - 2 * np.mean(term2)
'''), ("CDELossMetric.accumulate", '''
def accumulate(self, estimate, reference):
    term1, term2 = self._terms(estimate, reference)
    return np.sum(term1), np.sum(term2), estimate.npdf
'''), ("CDELossMetric.finalize", '''
def finalize(self, tuples):
    term1_sum, term2_sum, npdf = np.sum(np.atleast_2d(tuples), axis=0)
    return (term1_sum - 2 * term2_sum) / npdf
'''))
R("m_brier_final", "metrics/concrete_metric_classes.py", ("BrierMetric.finalize", '''
def finalize(self, tuples):
    brier_sum, npdf = np.sum(np.atleast_2d(tuples), axis=0)
    return brier_sum / npdf
'''), ("BrierMetric.accumulate", '''
def accumulate(self, estimate, reference):
    return calculate_brier_for_accumulation(estimate, reference, self._limits, self._dx)
'''))
R("m_digester", "metrics/concrete_metric_classes.py", ("DistToPointMetricDigester.finalize", '''
def finalize(self, centroids=[]):
    combined = None
    for centroid in centroids:
        digest = pytdigest.TDigest.of_centroids(
            np.array(centroid), compression=self._tdigest_compression
        )
        combined = digest if combined is None else combined + digest
    return self.compute_from_digest(combined)
'''))
R("m_kld_cls", "metrics/concrete_metric_classes.py", ("KLDMetric.evaluate", '''
def evaluate(self, estimate, reference) -> list:
    return calculate_kld(p=estimate, q=reference, limits=self._limits, dx=self._dx)
'''), ("OutlierMetric.evaluate", '''
def evaluate(self, estimate) -> list:
    lower, upper = self._cdf_limits[0], self._cdf_limits[1]
    return calculate_outlier_rate(estimate, lower_limit=lower, upper_limit=upper)
'''))
R("m_gof_cls", "metrics/concrete_metric_classes.py", ("KSMetric.evaluate", '''
def evaluate(self, estimate, reference) -> list:
    options = dict(num_samples=self._num_samples, _random_state=self._random_state)
    return calculate_goodness_of_fit(estimate, reference, fit_metric=self.metric_name, **options)
'''), ("ADMetric.evaluate", '''
def evaluate(self, estimate, reference) -> list:
    return calculate_goodness_of_fit(estimate, reference, self.metric_name, self._num_samples, self.random_state)
'''))
R("p_iqr", "metrics/point_estimate_metric_classes.py", ("PointSigmaIQR.evaluate", '''
def evaluate(self, estimate, reference):
    ez = (estimate - reference) / (1.0 + reference)
    return self._sigma(*np.percentile(ez, [75.0, 25.0]))

@staticmethod
def _sigma(x75, x25):
    return (x75 - x25) / 1.349
'''), ("PointSigmaIQR.compute_from_digest", '''
def compute_from_digest(self, digest):
    x75, x25 = digest.inverse_cdf([0.75, 0.25])
    return self._sigma(x75, x25)
'''))
R("p_outlier", "metrics/point_estimate_metric_classes.py", ("PointOutlierRate.compute_from_digest", '''
def compute_from_digest(self, digest):
    sigma_iqr = PointSigmaIQR().compute_from_digest(digest)
    cut = np.maximum(0.06, 3.0 * sigma_iqr)
    centroids = digest.get_centroids()
    means, weights = centroids[:, 0], centroids[:, 1]
    n_outliers = np.sum(weights[np.abs(means) > cut])
    return float(n_outliers) / digest.weight
'''))
R("p_mad", "metrics/point_estimate_metric_classes.py", ("PointSigmaMAD.compute_from_digest", '''
def compute_from_digest(self, digest):
    median = digest.inverse_cdf(0.5)
    bins = np.linspace(digest.inverse_cdf(0), digest.inverse_cdf(1), self._num_bins)
    lower, upper = bins[0:-1], bins[1:]
    mass = digest.cdf(upper) - digest.cdf(lower)
    distance = np.fabs((lower + upper) / 2.0 - median)

    order = np.argsort(distance)
    cumulative = np.cumsum(mass[order])
    return 1.4826 * distance[order][np.searchsorted(cumulative, 0.5)]
'''), ("PointSigmaMAD.__init__", '''
def __init__(self, **kwargs) -> None:
    super().__init__(**kwargs)
    self._num_bins = kwargs.get("num_bins", 1_000_000)
'''))
R("p_ez_base", "metrics/point_estimate_metric_classes.py", ("PointBias.evaluate", '''
def evaluate(self, estimate, reference):
    ez = PointStatsEz().evaluate(estimate, reference)
    return np.median(ez)
'''))
R("mf_create", "metrics/factory.py", ("MetricFactory.create_metric", '''
@classmethod
def create_metric(cls, name, force_update=False, **kwargs):
    if force_update or not cls.metric_dict:
        cls.update_metrics()
    if name not in cls.metric_dict:
        raise KeyError(f"{name} is not in the set of known metrics {str(cls.list_metrics())}")
    return cls.metric_dict[name](**kwargs)
'''), ("MetricFactory.update_metrics", '''
@classmethod
def update_metrics(cls):
    metrics = {}
    for subcls in get_all_subclasses(BaseMetric):
        if subcls.metric_name:
            metrics[subcls.metric_name.replace("Metric", "")] = subcls
    cls.metric_dict = metrics
'''), ("MetricFactory.list_metrics", '''
@classmethod
def list_metrics(cls, force_update=False):
    cls._refresh(force_update)
    return list(cls.metric_dict)

@classmethod
def _refresh(cls, force_update):
    if force_update or not cls.metric_dict:
        cls.update_metrics()
'''), ("get_all_subclasses", '''
def get_all_subclasses(cls):
    found = []
    for subclass in cls.__subclasses__():
        found += [subclass] + get_all_subclasses(subclass)
    return found
'''))
R("b_uses", "metrics/base_metric_classes.py", ("MetricInputType.uses_distribution_for_estimate", '''
def uses_distribution_for_estimate(self) -> bool:
    return self.value in (
        MetricInputType.single_ensemble.value,
        MetricInputType.dist_to_point.value,
        MetricInputType.dist_to_dist.value,
    )
'''))

# ---------------------------------------------------------------- constructors
R("q_const", "quantile_pdf_constructors/piecewise_constant.py", ("PiecewiseConstant.prepare_constructor", '''
def prepare_constructor(self) -> None:
    locs = self._locations
    slopes = np.zeros(locs.shape)
    curvatures = np.zeros(locs.shape)
    slopes[:, :-1] = np.diff(self._quantiles) / np.diff(locs)
    curvatures[:, :-1] = np.diff(slopes)
    self._cdf_derivatives = slopes
    self._cdf_2nd_derivatives = curvatures
    self._adjusted_locations = locs[:, 1:] - np.diff(locs) / 2
'''))
R("q_linear", "quantile_pdf_constructors/piecewise_linear.py", ("PiecewiseLinear.prepare_constructor", '''
def prepare_constructor(self) -> None:
    quantiles, locations = self._quantiles, self._locations
    widths = locations[:, 1:] - locations[:, :-1]
    self._cdf_derivatives = (quantiles[1:] - quantiles[:-1]) / widths
    self._adjusted_locations = locations[:, 1:] - 0.5 * widths
'''), ("PiecewiseLinear.construct_pdf", '''
def construct_pdf(self, grid, row=None):
    if self._cdf_derivatives is None:
        self.prepare_constructor()
    rows = np.asarray([0]) if row is None else row
    options = dict(bounds_error=False, fill_value=(0.0, 0.0), kind="linear")
    pdf = interpolate_multi_x_multi_y(grid, rows, self._adjusted_locations, self._cdf_derivatives, **options)
    return pdf.ravel()
'''))
R("q_spline", "quantile_pdf_constructors/cdf_spline_derivative.py", ("CdfSplineDerivative.prepare_constructor", '''
def prepare_constructor(self, spline_order: int = 3) -> None:
    functions = []
    for locs in self._locations:
        spline = InterpolatedUnivariateSpline(locs, self._quantiles, k=spline_order, ext=1)
        functions.append(spline.derivative())
    self._interpolation_functions = functions
'''), ("CdfSplineDerivative.construct_pdf", '''
def construct_pdf(self, grid, row=None):
    if self._interpolation_functions is None:
        self.prepare_constructor()
    functions = self._interpolation_functions
    if row is not None:
        functions = [functions[i] for i in np.unique(row)]
    return np.asarray([func(grid) for func in functions])
'''))
R("q_dual", "quantile_pdf_constructors/dual_spline_average.py", ("DualSplineAverage.construct_pdf", '''
def construct_pdf(self, grid, row=None):
    if self._p_of_zs is None:
        self.prepare_constructor()

    p_of_zs, locations = self._p_of_zs, self._locations
    if row is not None:
        wanted = np.unique(row)
        p_of_zs = [self._p_of_zs[i] for i in wanted]
        locations = [self._locations[i] for i in wanted]

    self.y1 = self._evaluate(grid, p_of_zs, locations, 0)
    self.y2 = self._evaluate(grid, p_of_zs, locations, 1)
    return (self.y1 + self.y2) / 2

@staticmethod
def _evaluate(grid, p_of_zs, locations, start):
    """Evaluate the splines through every second point"""
    values = []
    for p_of_z, location in zip(p_of_zs, locations):
        func = interp1d(
            np.squeeze(location[start::2]),
            np.squeeze(p_of_z[start::2]),
            bounds_error=False,
            fill_value=0.0,
            kind="cubic",
        )
        values.append(func(grid))
    return np.asarray(values)
'''))
R("q_dual_prep", "quantile_pdf_constructors/dual_spline_average.py", ("DualSplineAverage.prepare_constructor", '''
def prepare_constructor(self) -> None:
    n_rows, n_locs = self._locations.shape
    slopes = 2 * np.diff(self._quantiles) / np.diff(self._locations)
    p_of_zs = np.zeros((n_rows, n_locs))
    for i in range(1, n_locs):
        p_of_zs[:, i] = np.maximum(np.zeros(n_rows), slopes[:, i - 1] - p_of_zs[:, i - 1])
    self._p_of_zs = np.maximum(np.zeros(self._locations.shape), p_of_zs)
'''))

# ---------------------------------------------------------------- sparse, packing
R("s_shapes", "sparse_rep.py", ("shapes2pdf", '''
def _clip_small(values, cut):
    return np.where(values >= cut, values, 0.0)


def shapes2pdf(wa, ma, sa, ga, meta, cut=1.0e-5):
    x = meta["xvals"]
    pdf = np.zeros_like(x)
    for weight, mean, sigma, gamma in zip(wa, ma, sa, ga):
        profile = _clip_small(voigt_profile(x - mean, sigma, gamma), cut)
        pdf += weight * profile / sla.norm(profile)
    pdf = _clip_small(pdf, cut)
    return pdf / sciint.trapezoid(pdf, x)
'''))
R("s_basis", "sparse_rep.py", ("create_voigt_basis", '''
def create_voigt_basis(xvals, mu, Nmu, sigma, Nsigma, Nv, cut=1.0e-5):
    means = np.linspace(mu[0], mu[1], Nmu)
    sig = np.linspace(sigma[0], sigma[1], Nsigma)
    gamma = np.linspace(0, 0.5, Nv)
    A = np.zeros((len(xvals), Nmu * Nsigma * Nv))
    column = 0
    for mean in means:
        for s in sig:
            for g in gamma:
                profile = voigt_profile(xvals - mean, s, g)
                profile = np.where(profile >= cut, profile, 0.0)
                A[:, column] = profile / sla.norm(profile)
                column += 1
    return A
'''), ("create_basis", '''
def create_basis(metadata, cut=1.0e-5):
    Nmu, Nsigma, Nv = metadata["dims"][0], metadata["dims"][1], metadata["dims"][2]
    return create_voigt_basis(
        metadata["xvals"], metadata["mu"], Nmu, metadata["sig"], Nsigma, Nv, cut=cut
    )
'''))
R("s_decode", "sparse_rep.py", ("decode_sparse_indices", '''
def decode_sparse_indices(indices):
    Ncoef = 32001
    decoded = np.array([get_N(row) for row in indices])
    coefficients, basis = decoded[:, 0, :], decoded[:, 1, :]
    vals = coefficients / (Ncoef - 1)
    vals[:, 0] = 1.0
    return basis, vals
'''), ("get_N", '''
def get_N(longN):
    coefficient = longN >> 16
    base = longN & 0xFFFF
    return coefficient, base
'''), ("combine_int", '''
def combine_int(Ncoef, Nbase):
    shifted = Ncoef << 16
    return shifted | Nbase
'''))
R("s_indices", "sparse_rep.py", ("indices2shapes", '''
def indices2shapes(sparse_indices, meta):
    Nmu, Nsigma, Nv = meta["dims"][0], meta["dims"][1], meta["dims"][2]
    Ncoef = meta["dims"][3]

    means_array = np.linspace(meta["mu"][0], meta["mu"][1], Nmu)
    sig_array = np.linspace(meta["sig"][0], meta["sig"][1], Nsigma)
    gam_array = np.linspace(0, 0.5, Nv)

    sp_ind = np.array([get_N(index) for index in sparse_indices])
    vals = sp_ind[:, 0, :] * (1.0 / (Ncoef - 1))
    vals[:, 0] = 1.0

    indices = sp_ind[:, 1, :]
    per_mean = Nsigma * Nv
    rest = indices % per_mean
    means = means_array[np.array(indices / per_mean, int)]
    sigmas = sig_array[np.array(rest / Nv, int)]
    gammas = gam_array[np.array(rest % Nv, int)]
    return vals, means, sigmas, gammas
'''))
R("s_pdf", "sparse_rep.py", ("pdf_from_sparse", '''
def pdf_from_sparse(sparse_indices, A, xvals, cut=1.0e-5):
    indices, vals = decode_sparse_indices(sparse_indices)
    pdf_y = np.sum(A[:, indices] * vals, axis=-1)
    pdf_y = np.where(pdf_y >= cut, pdf_y, 0.0)
    return pdf_y / sciint.trapezoid(pdf_y.T, xvals)
'''))
R("s_init", "sparse_pdf.py", ("sparse_gen.__init__", '''
def __init__(self, xvals, mu, sig, dims, sparse_indices, *args, **kwargs):
    self._xvals, self.mu, self.sig, self.dims = xvals, mu, sig, dims
    self.sparse_indices = sparse_indices
    self._cut = kwargs.pop("cut", 1.0e-5)

    basis = sparse_rep.create_basis(
        {"xvals": xvals, "mu": mu, "sig": sig, "dims": dims}, cut=self._cut
    )
    basis_indices, weights = sparse_rep.decode_sparse_indices(sparse_indices)
    y = np.sum(basis[:, basis_indices] * weights, axis=-1)
    y /= sciint.trapezoid(y.T, xvals)
    kwargs.setdefault("xvals", xvals)
    kwargs.setdefault("yvals", y.T)
    super().__init__(*args, **kwargs)

    self._clearobjdata()
    for key, value in (
        ("xvals", self._xvals),
        ("mu", self.mu),
        ("sig", self.sig),
        ("dims", self.dims),
        ("cut", self._cut),
    ):
        self._addmetadata(key, value)
    self._addobjdata("sparse_indices", self.sparse_indices)
'''), ("sparse_gen._updated_ctor_param", '''
def _updated_ctor_param(self):
    dct = super()._updated_ctor_param()
    dct.update(
        sparse_indices=self.sparse_indices,
        xvals=self._xvals,
        mu=self.mu,
        sig=self.sig,
        dims=self.dims,
        cut=self._cut,
    )
    return dct
'''), ("sparse_gen.get_allocation_kwds", '''
@classmethod
def get_allocation_kwds(cls, npdf, **kwargs):
    try:
        dims = kwargs["dims"]
    except KeyError:
        raise ValueError("required argument dims not in kwargs")
    return {"sparse_indices": ((npdf, np.array(dims).flatten()[4]), "i8")}
'''))
R("k_init", "packed_interp_pdf.py", ("packed_interp_gen.__init__", '''
def __init__(
    self,
    xvals,
    ypacked,
    ymax,
    *args,
    packing_type=PackingType.linear_from_rowmax,
    log_floor=-3.0,
    **kwargs,
):
    n_x, n_y = np.size(xvals), np.shape(ypacked)[-1]
    if n_x != n_y:
        raise ValueError(
            "Shape of xbins in xvals (%s) != shape of xbins in yvals (%s)" % (n_x, n_y)
        )
    self._xvals = np.asarray(xvals)
    self._xmin, self._xmax = self._xvals[0], self._xvals[-1]

    kwargs["shape"] = np.shape(ypacked)[:-1]
    self._packing_type = (
        packing_type.value if isinstance(packing_type, PackingType) else packing_type
    )
    self._log_floor = log_floor
    self._ymax = reshape_to_pdf_size(ymax, -1)
    self._ypacked = reshape_to_pdf_size(ypacked, -1)
    self._yvals = None
    self._ycumul = None

    self._check_input = kwargs.pop("check_input", True)
    if self._check_input:
        self._compute_ycumul()
        norms = self._ycumul[:, -1]
        self._yvals = (self._yvals.T / norms).T
        self._ycumul = (self._ycumul.T / norms).T

    super().__init__(*args, **kwargs)
    self._addmetadata("xvals", self._xvals)
    self._addmetadata("packing_type", self._packing_type)
    self._addmetadata("log_floor", self._log_floor)
    self._addmetadata("check_input", self._check_input)
    self._addobjdata("ypacked", self._ypacked)
    self._addobjdata("ymax", self._ymax)
'''))
R("k_cumul", "packed_interp_pdf.py", ("packed_interp_gen._compute_ycumul", '''
def _compute_ycumul(self):
    if self._yvals is None:
        self._unpack()
    y = self._yvals
    widths = np.diff(self._xvals)
    ycumul = np.ndarray(np.array(y.shape))
    ycumul[:, 0] = 0.5 * y[:, 0] * (self._xvals[1] - self._xvals[0])
    ycumul[:, 1:] = np.cumsum(0.5 * widths * (y[:, 1:] + y[:, :-1]), axis=1)
    self._ycumul = ycumul
'''), ("packed_interp_gen._updated_ctor_param", '''
def _updated_ctor_param(self):
    dct = super()._updated_ctor_param()
    dct.update(
        xvals=self._xvals,
        ypacked=self._ypacked,
        ymax=self._ymax,
        log_floor=self._log_floor,
        packing_type=PackingType(self._packing_type),
        check_input=self._check_input,
    )
    return dct
'''))
R("k_extract", "packed_interp_pdf.py", ("extract_and_pack_vals_at_x", '''
def extract_and_pack_vals_at_x(in_dist, **kwargs):
    options = dict(kwargs)
    xvals = options.pop("xvals", None)
    packing_type = options.pop("packing_type")
    if xvals is None:
        raise ValueError("To convert to extract_xy_vals you must specify xvals")
    ypacked, ymax = pack_array(packing_type, in_dist.pdf(xvals), **options)
    return {"xvals": xvals, "ypacked": ypacked, "ymax": ymax, "packing_type": packing_type, **options}
'''), ("packed_interp_gen.custom_generic_moment", '''
def custom_generic_moment(self, m):
    if self._yvals is None:
        self._unpack()
    weights = np.power(self._xvals, np.asarray(m)) * np.gradient(self._xvals)
    return (weights * self._yvals).sum(axis=1)
'''))
R("k_pack", "packing_utils.py", ("linear_pack_from_rowmax", '''
def _row_max(array):
    return array.max(axis=1)[:, np.newaxis]


def linear_pack_from_rowmax(input_array):
    row_max = _row_max(input_array)
    scaled = 255 * input_array / row_max
    return np.round(scaled).astype(np.uint8), row_max
'''), ("log_unpack_from_rowmax", '''
def log_unpack_from_rowmax(packed_array, row_max, log_floor=-3.0):
    exponent = -log_floor * (packed_array / 255.0 - 1.0)
    fractions = np.where(packed_array != 0, np.power(10, exponent), 0.0)
    return row_max * fractions
'''), ("linear_unpack_from_rowmax", '''
def linear_unpack_from_rowmax(packed_array, row_max):
    return packed_array * row_max / 255.0
'''))
R("k_logpack", "packing_utils.py", ("log_pack_from_rowmax", '''
def log_pack_from_rowmax(input_array, log_floor=-3.0):
    decades = -1.0 * log_floor
    floor = np.power(10.0, 3 * log_floor)
    row_max = np.expand_dims(np.max(input_array, axis=1), -1)
    logs = np.log10((input_array + floor) / row_max)
    packed = np.round(255 * (logs + decades) / decades)
    return np.clip(packed, 0.0, 255.0).astype(np.uint8), row_max
'''), ("pack_array", '''
def pack_array(packing_type, input_array, **kwargs):
    if packing_type == PackingType.log_from_rowmax:
        log_floor = kwargs.get("log_floor", -3)
        return log_pack_from_rowmax(input_array, log_floor)
    if packing_type == PackingType.linear_from_rowmax:
        return linear_pack_from_rowmax(input_array)
    raise ValueError(f"Packing for packing type {packing_type} is not implemetned")
'''))


if __name__ == "__main__":
    import sys
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    run(names or list(ALL))
