"""Fifth batch of behaviour-preserving rewrites, written without looking at what the machinery makes of them."""
from refactorings import R, run, ALL

ALL.clear()

# ---------------------------------------------------------------- ensemble
R("e_getitem", "ensemble.py", ("Ensemble.__getitem__", '''
def __getitem__(self, key):
    skip = ("pdf_name", "pdf_version")
    red_data = {name: np.squeeze(value) for name, value in self.metadata().items() if name not in skip}
    for name, value in slice_dict(self.objdata(), key).items():
        red_data[name] = value if np.ndim(value) >= 2 else np.expand_dims(value, 0)
    ancil = None if self._ancil is None else slice_dict(self._ancil, key)
    return Ensemble(self._gen_obj.create, data=red_data, ancil=ancil)
'''))
R("e_convert", "ensemble.py", ("Ensemble.convert_to", '''
def convert_to(self, to_class, **kwargs):
    options = dict(kwargs)
    method = options.pop("method", None)

    def require(func, kind):
        if func is None:
            raise KeyError("Class named %s does not have a %s_method named %s" % (to_class.name, kind, method))
        return func

    ctor_func = require(to_class.creation_method(method), "creation")
    extract_func = require(to_class.extraction_method(method), "extraction")
    return Ensemble(ctor_func, data=extract_func(self, **options))
'''))
R("e_updobj", "ensemble.py", ("Ensemble.update_objdata", '''
def update_objdata(self, data, ancil=None):
    settings = {k: np.squeeze(v) for k, v in self.metadata().items() if k not in ("pdf_name", "pdf_version")}
    new_data = {**settings, **self.objdata(), **data}
    frozen = self._gen_obj.create(**new_data)
    self._update_frozen(frozen, ancil)
'''))
R("e_objdata", "ensemble.py", ("Ensemble.objdata", '''
def objdata(self):
    dd = {k: v for k, v in self._frozen.kwds.items() if k != "row"}
    dd.update(self._gen_obj.objdata)
    return dd
'''), ("Ensemble.metadata", '''
def metadata(self):
    return dict(self._gen_obj.metadata)
'''))
R("e_ancil", "ensemble.py", ("Ensemble.add_to_ancil", '''
def add_to_ancil(self, to_add):
    check_array_shapes(to_add, self.npdf)
    merged = dict(self._ancil or {})
    merged.update(to_add)
    self._ancil = merged
'''))
R("e_append", "ensemble.py", ("Ensemble.append", '''
def append(self, other_ens):
    mine, theirs = self.metadata(), other_ens.metadata()
    if not compare_dicts([mine, theirs]):  # pragma: no cover
        raise KeyError("Metadata does not match, can not append")
    pair = [self.objdata(), other_ens.objdata()]
    full_ancil = None
    if not (self._ancil is None or other_ens.ancil is None):
        full_ancil = concatenate_dicts([self._ancil, other_ens.ancil])
    self.update_objdata(concatenate_dicts(pair), full_ancil)
'''))
R("e_grid", "ensemble.py", ("Ensemble.gridded", '''
def gridded(self, grid):
    cached = self._gridded
    if cached is not None and np.array_equal(cached[0], grid):
        return cached
    self._gridded = (np.array(grid), self.pdf(grid))
    return self._gridded
'''), ("Ensemble.mode", '''
def mode(self, grid):
    points, values = self.gridded(grid)
    best = np.argmax(values, axis=-1)
    return points[best][..., np.newaxis]
'''))
R("e_mompart", "ensemble.py", ("Ensemble.moment_partial", '''
def moment_partial(self, n, limits, dx=0.01):
    lo, hi = limits[0], limits[-1]
    npts = int((hi - lo) / dx)
    grid = np.linspace(lo, limits[1], npts)
    _, values = self.gridded(grid)
    return quick_moment(values, grid**n, (hi - lo) / (npts - 1))
'''))
R("e_alloc", "ensemble.py", ("Ensemble._get_allocation_kwds", '''
def _get_allocation_kwds(self, npdf):
    keywords = {}
    for group, tab in self.build_tables().items():
        if group == "meta":
            continue
        keywords[group] = {key: ([npdf] + list(array.shape[1:]), array.dtype) for key, array in tab.items()}
    return keywords
'''), ("Ensemble.writeHdf5Chunk", '''
def writeHdf5Chunk(self, fname, start, end):
    tables = {key: val for key, val in self.build_tables().items() if key != "meta"}
    io.writeDictToHdf5Chunk(fname, tables, start, end)
'''))
R("e_tables", "ensemble.py", ("Ensemble.build_tables", '''
def build_tables(self):
    tables = {"meta": self.metadata(), "data": self.objdata()}
    if self._ancil is None:
        return tables
    tables["ancil"] = self._ancil
    return tables
'''), ("Ensemble.write_to", '''
def write_to(self, filename):
    root, ext = os.path.splitext(filename)
    fmt = ext[1:]
    io.write(self.build_tables(), root, fmt)
'''))

# ---------------------------------------------------------------- hist
R("h_init5", "hist_pdf.py", ("hist_gen.__init__", '''
def __init__(self, bins, pdfs, *args, **kwargs):
    self._hbins = np.asarray(bins)
    self._hbin_widths = np.diff(self._hbins)
    self._nbins = self._hbin_widths.size
    self._xmin, *_, self._xmax = self._hbins
    if pdfs.shape[-1] != self._nbins:  # pragma: no cover
        raise ValueError("Number of bins (%i) != number of values (%i)" % (self._nbins, pdfs.shape[-1]))
    check_input = kwargs.pop("check_input", True)
    self._check_input = check_input
    self._hpdfs = reshape_to_pdf_size(pdfs, -1)
    if check_input:
        norms = (self._hpdfs * self._hbin_widths).sum(axis=1)
        self._hpdfs = self._hpdfs / norms[:, None]
    self._hcdfs = None
    super().__init__(*args, shape=pdfs.shape[:-1], **kwargs)
    self._addmetadata("bins", self._hbins)
    self._addmetadata("check_input", check_input)
    self._addobjdata("pdfs", self._hpdfs)
'''))
R("h_cdf5", "hist_pdf.py", ("hist_gen._compute_cdfs", '''
def _compute_cdfs(self):
    probs = np.cumsum(self._hpdfs * self._hbin_widths, axis=1)
    zeros = np.zeros((probs.shape[0], 1))
    self._hcdfs = np.hstack([zeros, probs])
'''))
R("h_eval5", "hist_pdf.py", ("hist_gen._cdf", '''
@property
def _tabulated_cdfs(self):
    """The cumulative table, made on first use"""
    if self._hcdfs is None:
        self._compute_cdfs()
    return self._hcdfs

def _cdf(self, x, row):
    values = interpolate_x_multi_y(
        x, row, self._hbins, self._tabulated_cdfs, fill_value=(0.0, 1.0), bounds_error=False
    )
    return values.ravel()
'''), ("hist_gen._ppf", '''
def _ppf(self, x, row):
    ends = (self._xmin, self._xmax)
    return interpolate_multi_x_y(
        x, row, self._tabulated_cdfs, self._hbins, bounds_error=False, fill_value=ends
    ).ravel()
'''))
R("h_mom5", "hist_pdf.py", ("hist_gen.custom_generic_moment", '''
def custom_generic_moment(self, m):
    """Compute the mth moment"""
    edges = self._hbins
    centers = edges[:-1] / 2 + edges[1:] / 2
    weights = self._hpdfs * self._hbin_widths
    return np.sum(weights * np.power(centers, np.asarray(m)), axis=1)
'''), ("hist_gen._munp", '''
def _munp(self, m, *args):
    with np.errstate(all="ignore"):
        return self.custom_generic_moment(m)
'''))
R("h_ctor5", "hist_pdf.py", ("hist_gen._updated_ctor_param", '''
def _updated_ctor_param(self):
    own = dict(bins=self._hbins, pdfs=self._hpdfs, check_input=self._check_input)
    return {**super()._updated_ctor_param(), **own}
'''), ("hist_gen.get_allocation_kwds", '''
@classmethod
def get_allocation_kwds(cls, npdf, **kwargs):
    try:
        bins = kwargs["bins"]
    except KeyError as err:  # pragma: no cover
        raise ValueError("required argument 'bins' not included in kwargs") from err
    shape = (npdf, bins.size - 1)
    return {"pdfs": (shape, "f4")}
'''))

# ---------------------------------------------------------------- interp
R("i_init5", "interp_pdf.py", ("interp_gen.__init__", '''
def __init__(self, xvals, yvals, *args, **kwargs):
    nx, ny = np.size(xvals), np.shape(yvals)[-1]
    if nx != ny:  # pragma: no cover
        raise ValueError("Shape of xbins in xvals (%s) != shape of xbins in yvals (%s)" % (nx, ny))
    self._xvals = np.asarray(xvals)
    self._xmin = self._xvals[0]
    self._xmax = self._xvals[-1]
    self._yvals = reshape_to_pdf_size(yvals, -1)
    self._ycumul = None
    self._check_input = kwargs.pop("check_input", True)
    if self._check_input:
        self._compute_ycumul()
        total = self._ycumul[:, -1].copy()[:, np.newaxis]
        self._yvals = self._yvals / total
        self._ycumul = self._ycumul / total
    kwargs["shape"] = np.shape(yvals)[:-1]
    super().__init__(*args, **kwargs)
    for key, val in (("xvals", self._xvals), ("check_input", self._check_input)):
        self._addmetadata(key, val)
    self._addobjdata("yvals", self._yvals)
'''))
R("i_cum5", "interp_pdf.py", ("interp_gen._compute_ycumul", '''
def _compute_ycumul(self):
    dx = np.diff(self._xvals)
    left, right = self._yvals[:, :-1], self._yvals[:, 1:]
    first = 0.5 * dx[0] * self._yvals[:, 0]
    rest = np.cumsum(0.5 * dx * (left + right), axis=1)
    self._ycumul = np.column_stack([first, rest])
'''))
R("i_pdf5", "interp_pdf.py", ("interp_gen._pdf", '''
def _evaluate(self, func, x, row, *tables, **kwargs):
    """Run one of the interpolators and flatten what it returns"""
    return func(x, row, *tables, bounds_error=False, **kwargs).ravel()

def _pdf(self, x, row):
    return self._evaluate(interpolate_x_multi_y, x, row, self._xvals, self._yvals, fill_value=0.0)
'''), ("interp_gen._ppf", '''
def _ppf(self, x, row):
    if self._ycumul is None:
        self._compute_ycumul()
    return self._evaluate(
        interpolate_multi_x_y, x, row, self._ycumul, self._xvals, fill_value=(self._xmin, self._xmax)
    )
'''))
R("i_irr5", "interp_pdf.py", ("interp_irregular_gen.__init__", '''
def __init__(self, xvals, yvals, *args, **kwargs):
    shape = np.shape(xvals)
    if shape != np.shape(yvals):  # pragma: no cover
        raise ValueError("Shape of xvals (%s) != shape of yvals (%s)" % (shape, np.shape(yvals)))
    self._check_input = kwargs.pop("check_input", True)
    xvals_2d, yvals_2d = (reshape_to_pdf_size(arr, -1) for arr in (xvals, yvals))
    self._xvals = xvals_2d
    self._yvals = normalize_interp1d(xvals_2d, yvals_2d) if self._check_input else yvals_2d
    self._xmin, self._xmax = np.min(xvals_2d), np.max(xvals_2d)
    self._ycumul = None
    kwargs["shape"] = shape[:-1]
    super().__init__(*args, **kwargs)
    self._addmetadata("check_input", self._check_input)
    self._addobjdata("xvals", self._xvals)
    self._addobjdata("yvals", self._yvals)
'''), ("interp_irregular_gen._compute_ycumul", '''
def _compute_ycumul(self):
    areas = self._yvals[:, 1:] * np.diff(self._xvals, axis=1)
    self._ycumul = np.pad(np.cumsum(areas, axis=1), ((0, 0), (1, 0)))
'''))
R("i_mom5", "interp_pdf.py", ("interp_gen.custom_generic_moment", '''
def custom_generic_moment(self, m):
    """Compute the mth moment"""
    m = np.asarray(m)
    weights = self._xvals**m * np.gradient(self._xvals)
    return np.dot(self._yvals, weights)
'''))

# ---------------------------------------------------------------- mixmod
R("m_init5", "mixmod_pdf.py", ("mixmod_gen.__init__", '''
def __init__(self, means, stds, weights, *args, **kwargs):
    self._scipy_version_warning()
    *pdf_shape, ncomps = means.shape
    weights_2d = reshape_to_pdf_size(weights, -1)
    if (weights_2d < 0).any():
        raise ValueError("All weights need to be larger than zero")
    self._ncomps = ncomps
    self._means = reshape_to_pdf_size(means, -1)
    self._stds = reshape_to_pdf_size(stds, -1)
    self._weights = weights_2d / weights_2d.sum(axis=1, keepdims=True)
    kwargs["shape"] = tuple(pdf_shape)
    super().__init__(*args, **kwargs)
    self._addobjdata("weights", self._weights)
    self._addobjdata("stds", self._stds)
    self._addobjdata("means", self._means)
'''))
R("m_eval5", "mixmod_pdf.py", ("mixmod_gen._pdf", '''
def _components(self, row):
    """Weights and component distributions for some rows, with the components on the second last axis"""
    weights, means, stds = (np.swapaxes(arr[row], -2, -1) for arr in (self._weights, self._means, self._stds))
    return weights, sps.norm(loc=means, scale=stds)

def _pdf(self, x, row):
    weights, comps = self._components(row)
    xx = np.expand_dims(x, -2) if np.ndim(x) > 1 else x
    return np.sum(weights * comps.pdf(xx), axis=0)
'''), ("mixmod_gen._cdf", '''
def _cdf(self, x, row):
    weights, comps = self._components(row)
    xx = np.expand_dims(x, -2) if np.ndim(x) > 1 else x
    return np.sum(weights * comps.cdf(xx), axis=0)
'''))
R("m_ppf5", "mixmod_pdf.py", ("mixmod_gen._ppf", '''
def _ppf(self, x, row):
    reach = 6 * self._stds
    limits = (np.min(self._means - reach), np.max(self._means + reach))
    grid = np.linspace(*limits, 201)
    rows, table_row = np.unique(row, return_inverse=True)
    tables = self.cdf(grid, rows[:, np.newaxis])
    values = interpolate_multi_x_y(
        x, np.reshape(table_row, np.shape(row)), tables, grid, bounds_error=False, fill_value=limits
    )
    return values.ravel()
'''))

# ---------------------------------------------------------------- quantiles
R("q_pad5", "quant_pdf.py", ("pad_quantiles", '''
def pad_quantiles(quants, locs):
    """Pad the quantiles and locations used to build a quantile representation"""
    pad_lo = quants[0] > sys.float_info.epsilon
    pad_hi = quants[-1] < 1.0
    if not (pad_lo or pad_hi):
        return quants, locs

    n_vals = quants.size
    n_out = n_vals + int(pad_lo) + int(pad_hi)
    first = int(pad_lo)
    inner = slice(first, n_vals + first)
    quants_out = np.zeros(n_out, quants.dtype)
    locs_out = np.zeros((locs.shape[0], n_out), quants.dtype)
    quants_out[inner] = quants
    locs_out[:, inner] = locs
    if pad_lo:
        slope = (locs[:, 1] - locs[:, 0]) / (quants[1] - quants[0])
        locs_out[:, 0] = locs[:, 0] - quants[0] * slope
    if pad_hi:
        quants_out[-1] = 1.0
        slope = (locs[:, -1] - locs[:, -2]) / (quants[-1] - quants[-2])
        locs_out[:, -1] = locs[:, -1] + (1.0 - quants[-1]) * slope
    return quants_out, locs_out
'''))
R("q_init5", "quant_pdf.py", ("quant_gen.__init__", '''
def __init__(self, quants, locs, *args, **kwargs):
    kwargs.setdefault("check_input", True)
    kwargs.setdefault("pdf_constructor_name", DEFAULT_PDF_CONSTRUCTOR)
    self._check_input = kwargs.pop("check_input")
    self._pdf_constructor_name = str(kwargs.pop("pdf_constructor_name"))
    self._pdf_constructor = None
    self._xmin = np.min(locs)
    self._xmax = np.max(locs)
    padded = (quants, reshape_to_pdf_size(locs, -1))
    if self._check_input:
        padded = pad_quantiles(*padded)
    self._quants, self._locs = np.asarray(padded[0]), padded[1]
    self._nquants = self._quants.size
    nlocs = self._locs.shape[-1]
    if nlocs != self._nquants:  # pragma: no cover
        raise ValueError(
            "Number of locations (%i) != number of quantile values (%i)" % (self._nquants, nlocs)
        )
    self._instantiate_pdf_constructor()
    kwargs["shape"] = locs.shape[:-1]
    super().__init__(*args, **kwargs)

    self._addmetadata("quants", self._quants)
    self._addmetadata("pdf_constructor_name", self._pdf_constructor_name)
    self._addmetadata("check_input", self._check_input)
    self._addobjdata("locs", self._locs)
'''))
R("q_pdf5", "quant_pdf.py", ("quant_gen._pdf", '''
def _pdf(self, x, *args):
    x, row = np.broadcast_arrays(x, args[0])
    x = x.ravel()
    row = row.ravel()
    yvals = np.zeros(x.shape)
    for irow in np.unique(row):
        idx = np.flatnonzero(row == irow)
        yvals[idx] = np.ravel(self._pdf_constructor.construct_pdf(x[idx], np.array([[irow]])))
    return yvals
'''))
R("q_set5", "quant_pdf.py", ("quant_gen.pdf_constructor_name!", '''
@pdf_constructor_name.setter
def pdf_constructor_name(self, value: str):
    known = list(PDF_CONSTRUCTORS)
    if value not in known:
        raise ValueError(f"Unknown interpolator provided: '{value}'. Allowed interpolators are {known}")
    if value is self._pdf_constructor_name:
        logging.warning("Already using interpolator: '%s'.", value)
    else:
        self._pdf_constructor_name = value
        self._instantiate_pdf_constructor()
        self._addmetadata("pdf_constructor_name", value)
'''))
R("q_lin5", "quantile_pdf_constructors/piecewise_linear.py", ("PiecewiseLinear.prepare_constructor", '''
def prepare_constructor(self) -> None:
    steps = np.diff(self._locations)
    self._cdf_derivatives = np.diff(self._quantiles) / steps
    self._adjusted_locations = self._locations[:, 1:] - 0.5 * steps
'''), ("PiecewiseLinear.construct_pdf", '''
def construct_pdf(self, grid: List[float], row: List[int] = None) -> List[List[float]]:
    if self._cdf_derivatives is None:  # pragma: no cover
        self.prepare_constructor()

    options = {"bounds_error": False, "fill_value": (0.0, 0.0), "kind": "linear"}
    selected = np.asarray([0]) if row is None else row
    values = interpolate_multi_x_multi_y(grid, selected, self._adjusted_locations, self._cdf_derivatives, **options)
    return values.ravel()
'''))
R("q_spl5", "quantile_pdf_constructors/cdf_spline_derivative.py", ("CdfSplineDerivative.prepare_constructor", '''
def prepare_constructor(self, spline_order: int = 3) -> None:
    functions = []
    for locations in self._locations:
        cdf = InterpolatedUnivariateSpline(locations, self._quantiles, k=spline_order, ext=1)
        functions.append(cdf.derivative())
    self._interpolation_functions = functions
'''), ("CdfSplineDerivative.construct_pdf", '''
def construct_pdf(self, grid: List[float], row: List[int] = None) -> List[List[float]]:
    if self._interpolation_functions is None:
        self.prepare_constructor()
    functions = self._interpolation_functions
    if row is not None:
        functions = [functions[irow] for irow in np.unique(row)]
    return np.asarray([func(grid) for func in functions])
'''))
R("q_dual5", "quantile_pdf_constructors/dual_spline_average.py", ("DualSplineAverage.prepare_constructor", '''
def prepare_constructor(self) -> None:
    npdf, nlocs = self._locations.shape
    p_of_zs = np.zeros((npdf, nlocs))
    slopes = 2 * np.diff(self._quantiles) / np.diff(self._locations)
    for i in range(nlocs - 1):
        p_of_zs[:, i + 1] = np.maximum(0, slopes[:, i] - p_of_zs[:, i])
    self._p_of_zs = np.maximum(0, p_of_zs)
'''))
R("q_const5", "quantile_pdf_constructors/piecewise_constant.py", ("PiecewiseConstant.prepare_constructor", '''
def prepare_constructor(self) -> None:
    widths = self._locations[:, 1:] - self._locations[:, :-1]
    first = np.zeros(self._locations.shape)
    first[:, :-1] = np.diff(self._quantiles) / widths
    second = np.zeros(self._locations.shape)
    second[:, :-1] = np.diff(first, axis=1)
    self._cdf_derivatives = first
    self._cdf_2nd_derivatives = second
    self._adjusted_locations = self._locations[:, 1:] - widths / 2
'''))

# ---------------------------------------------------------------- packed
R("p_init5", "packed_interp_pdf.py", ("packed_interp_gen.__init__", '''
def __init__(
    self, xvals, ypacked, ymax, *args, packing_type=PackingType.linear_from_rowmax, log_floor=-3.0, **kwargs
):
    shape = np.shape(ypacked)
    if np.size(xvals) != shape[-1]:  # pragma: no cover
        raise ValueError(
            "Shape of xbins in xvals (%s) != shape of xbins in yvals (%s)" % (np.size(xvals), shape[-1])
        )
    self._log_floor = log_floor
    self._packing_type = packing_type.value if isinstance(packing_type, PackingType) else packing_type
    self._xvals = np.asarray(xvals)
    self._xmin, self._xmax = self._xvals[0], self._xvals[-1]
    self._ypacked = reshape_to_pdf_size(ypacked, -1)
    self._ymax = reshape_to_pdf_size(ymax, -1)
    self._yvals = self._ycumul = None
    self._check_input = kwargs.pop("check_input", True)
    if self._check_input:
        self._compute_ycumul()
        norm = np.array(self._ycumul[:, -1]).reshape(-1, 1)
        self._yvals = self._yvals / norm
        self._ycumul = self._ycumul / norm
    kwargs["shape"] = shape[:-1]
    super().__init__(*args, **kwargs)
    self._addmetadata("xvals", self._xvals)
    self._addmetadata("packing_type", self._packing_type)
    self._addmetadata("log_floor", self._log_floor)
    self._addmetadata("check_input", self._check_input)
    self._addobjdata("ypacked", self._ypacked)
    self._addobjdata("ymax", self._ymax)
'''))
R("p_unpack5", "packed_interp_pdf.py", ("packed_interp_gen._unpack", '''
def _unpack(self):
    options = {"row_max": self._ymax, "log_floor": self._log_floor}
    self._yvals = unpack_array(PackingType(self._packing_type), self._ypacked, **options)

def _ensure(self, cumulative=False):
    """Unpack the values, and add them up, if that was not done yet"""
    if self._yvals is None:
        self._unpack()
    if cumulative and self._ycumul is None:
        self._compute_ycumul()
'''), ("packed_interp_gen._pdf", '''
def _pdf(self, x, row):
    self._ensure()
    return interpolate_x_multi_y(x, row, self._xvals, self._yvals, bounds_error=False, fill_value=0.0).ravel()
'''), ("packed_interp_gen._cdf", '''
def _cdf(self, x, row):
    self._ensure(cumulative=True)
    return interpolate_x_multi_y(
        x, row, self._xvals, self._ycumul, bounds_error=False, fill_value=(0.0, 1.0)
    ).ravel()
'''))
R("p_pack5", "packing_utils.py", ("linear_pack_from_rowmax", '''
def linear_pack_from_rowmax(input_array):
    row_max = input_array.max(axis=1, keepdims=True)
    scaled = 255 * input_array / row_max
    return scaled.round().astype(np.uint8), row_max
'''), ("log_pack_from_rowmax", '''
def log_pack_from_rowmax(input_array, log_floor=-3.0):
    depth = -log_floor
    offset = np.power(10.0, 3 * log_floor)
    row_max = input_array.max(axis=1, keepdims=True)
    levels = (np.log10((input_array + offset) / row_max) + depth) / depth
    packed = np.clip(np.round(255 * levels), 0.0, 255.0)
    return packed.astype(np.uint8), row_max
'''), ("log_unpack_from_rowmax", '''
def log_unpack_from_rowmax(packed_array, row_max, log_floor=-3.0):
    exponent = -1.0 * log_floor * (packed_array / 255.0 - 1.0)
    fractions = np.where(packed_array == 0, 0.0, np.power(10, exponent))
    return row_max * fractions
'''))
R("p_disp5", "packing_utils.py", ("pack_array", '''
def pack_array(packing_type, input_array, **kwargs):
    if packing_type == PackingType.log_from_rowmax:
        log_floor = kwargs.get("log_floor", -3)
        return log_pack_from_rowmax(input_array, log_floor)
    if packing_type != PackingType.linear_from_rowmax:  # pragma: no cover
        raise ValueError(f"Packing for packing type {packing_type} is not implemetned")
    return linear_pack_from_rowmax(input_array)
'''), ("unpack_array", '''
def unpack_array(packing_type, packed_array, **kwargs):
    row_max = kwargs.get("row_max")
    if packing_type == PackingType.log_from_rowmax:
        return log_unpack_from_rowmax(packed_array, row_max, kwargs.get("log_floor", -3))
    if packing_type == PackingType.linear_from_rowmax:
        return linear_unpack_from_rowmax(packed_array, row_max)
    raise ValueError(f"Unpacking for packing type {packing_type} is not implemetned")  # pragma: no cover
'''))
R("p_extract5", "packed_interp_pdf.py", ("extract_and_pack_vals_at_x", '''
def extract_and_pack_vals_at_x(in_dist, **kwargs):
    options = dict(kwargs)
    xvals = options.pop("xvals", None)
    packing_type = options.pop("packing_type")
    if xvals is None:  # pragma: no cover
        raise ValueError("To convert to extract_xy_vals you must specify xvals")
    ypacked, ymax = pack_array(packing_type, in_dist.pdf(xvals), **options)
    result = dict(xvals=xvals, ypacked=ypacked, ymax=ymax, packing_type=packing_type)
    result.update(options)
    return result
'''))

# ---------------------------------------------------------------- spline
R("s_build5", "spline_pdf.py", ("build_splines", '''
def build_splines(xvals, yvals):
    """Build a set of 1D spline representations"""
    reps = [splrep(xrow, yrow) for xrow, yrow in zip(xvals, yvals)]
    return tuple(np.vstack([rep[i] for rep in reps]) for i in range(3))
'''))
R("s_norm5", "spline_pdf.py", ("normalize_spline", '''
def normalize_spline(xvals, yvals, limits, **kwargs):
    lo, hi = limits[0], limits[1]

    def row_integral(irow):
        tck = splrep(xvals[irow], yvals[irow])
        result = quad(lambda xv: splev(xv, tck), lo, hi, **kwargs)
        return result[0]

    with errstate(all="ignore"):
        integrals = np.vectorize(row_integral)(np.arange(len(xvals)))
    return yvals / integrals[:, np.newaxis]
'''))
R("s_init5", "spline_pdf.py", ("spline_gen.__init__", '''
def __init__(self, *args, **kwargs):
    splx, sply, spln = (kwargs.pop(name, None) for name in ("splx", "sply", "spln"))
    if splx is None:  # pragma: no cover
        raise ValueError("splx must be provided")
    if splx.shape != sply.shape:  # pragma: no cover
        raise ValueError("Shape of xvals (%s) != shape of yvals (%s)" % (splx.shape, sply.shape))
    self._splx = reshape_to_pdf_size(splx, -1)
    self._sply = reshape_to_pdf_size(sply, -1)
    self._spln = reshape_to_pdf_size(spln, -1)
    self._xmin = splx.min()
    self._xmax = splx.max()
    kwargs["shape"] = splx.shape[:-1]
    super().__init__(*args, **kwargs)
    self._addobjdata("splx", self._splx)
    self._addobjdata("sply", self._sply)
    self._addobjdata("spln", self._spln)
'''))

# ---------------------------------------------------------------- pdf_gen
R("g_frozen5", "pdf_gen.py", ("rv_frozen_rows.__init__", '''
def __init__(self, dist, shape, *args, **kwds):
    self._shape = shape
    self._ndim = np.size(shape)
    self._npdf = npdf = np.prod(shape).astype(int)
    if npdf is not None and "row" not in kwds:
        kwds["row"] = np.arange(npdf).reshape(shape)[..., np.newaxis]
    super().__init__(dist, *args, **kwds)
'''), ("rv_frozen_rows.histogramize", '''
def histogramize(self, bins):
    edges = reshape_to_pdf_size(self.cdf(bins), -1)
    contents = np.diff(edges, axis=-1)
    return bins, reshape_to_pdf_shape(contents, self._shape, bins.size - 1)
'''))
R("g_rvs5", "pdf_gen.py", ("Pdf_rows_gen._rvs", '''
def _rvs(self, *args, size=None, random_state=None):
    quantiles = random_state.uniform(size=size)
    draws = self._ppf(quantiles, *args)
    return draws if size is None else draws.reshape(size)
'''), ("Pdf_rows_gen._argcheck", '''
def _argcheck(self, *args):
    """Set up check for argument"""
    if not args:
        return np.atleast_1d(1)
    rows = asarray(args[0])
    inside = np.logical_and(rows >= 0, rows < self._npdf)
    return np.atleast_1d(np.logical_and(1, inside))
'''))
R("g_slice5", "pdf_gen.py", ("Pdf_rows_gen._sliceargs", '''
@staticmethod
def _sliceargs(x, row, *args):  # pragma: no cover
    nx, nrow = np.size(x), np.size(row)
    unchanged = (False, x, row, args)
    if 1 in (nx, nrow):
        return unchanged
    xx, rr = np.unique(x), np.unique(row)
    if np.size(xx) == nx:
        xx = x
    if np.size(rr) == nrow:
        rr = row
    if np.size(xx) * np.size(rr) == nx:
        outargs = [arg[: np.size(xx)] for arg in args]
        return True, xx, rr, outargs
    return unchanged
'''))
R("g_create5", "pdf_gen.py", ("Pdf_gen.create", '''
@classmethod
def create(cls, **kwds):
    """Create and return a `scipy.stats.rv_continuous` object using the keyword arguemntets provided"""
    made = cls.create_gen(**kwds)
    return made[0](**made[1])
'''), ("Pdf_gen._addmetadata", '''
def _addmetadata(self, key, val):
    self._metadata.update({key: np.expand_dims(val, 0)})
'''), ("Pdf_gen._addclassmetadata", '''
def _addclassmetadata(self, cls):
    self._metadata.update(
        pdf_name=np.array([cls.name.encode()]),
        pdf_version=np.array([cls.version]),
    )
'''))

# ---------------------------------------------------------------- factory
R("f_build5", "factory.py", ("Factory.from_tables", '''
def from_tables(self, tables):
    data = self._build_data_dict(tables["meta"], tables["data"])
    ancil = tables["ancil"] if "ancil" in tables else None
    pdf_name, pdf_version = data.pop("pdf_name"), data.pop("pdf_version")
    if pdf_name not in self:  # pragma: no cover
        raise KeyError("Class nameed %s is not in factory" % pdf_name)
    the_class = self[pdf_name]
    reader_convert = the_class.reader_method(pdf_version)
    if reader_convert is not None:  # pragma: no cover
        data = reader_convert(data)
    return Ensemble(the_class.creation_method(None), data=data, ancil=ancil)
'''))
R("f_concat5", "factory.py", ("Factory.concatenate", '''
@staticmethod
def concatenate(ensembles):
    if not ensembles:  # pragma: no cover
        return None
    metadata_list = [ens.metadata() for ens in ensembles]
    objdata_list = [ens.objdata() for ens in ensembles]
    ancil_list = [ens.ancil for ens in ensembles]
    if not compare_dicts(metadata_list):  # pragma: no cover
        raise ValueError("Metadata does not match")
    data = concatenate_dicts(objdata_list)
    ancil = None
    if all(table is not None for table in ancil_list):
        ancil = concatenate_dicts(ancil_list)
    for k, v in metadata_list[0].items():
        if k not in ("pdf_name", "pdf_version"):
            data[k] = np.squeeze(v)
    return Ensemble(ensembles[0].gen_obj.create, data, ancil)
'''))
R("f_iter5", "factory.py", ("Factory.iterator", '''
def iterator(self, filename, chunk_size=100_000, rank=0, parallel_size=1):
    _, extension = os.path.splitext(filename)
    if extension != ".hdf5":  # pragma: no cover
        raise TypeError("Can only use qp.iterator on hdf5 files")

    metadata = io.readHdf5ToDict(filename, "meta")
    pdf_name = metadata.pop("pdf_name")[0].decode()
    metadata.pop("pdf_version")
    if pdf_name not in self:  # pragma: no cover
        raise KeyError("Class nameed %s is not in factory" % pdf_name)
    ctor_func = self[pdf_name].creation_method(None)

    f, infp = io.readHdf5Group(filename, "data")
    try:
        ancil_f, ancil_infp = io.readHdf5Group(filename, "ancil")
    except KeyError:  # pragma: no cover
        ancil_f = ancil_infp = None
    num_rows = io.getGroupInputDataLength(f)

    def read_chunk(group, start, end):
        return OrderedDict((key, io.readHdf5DatasetToArray(val, start, end)) for key, val in group.items())

    try:
        for start, end in io.data_ranges_by_rank(num_rows, chunk_size, parallel_size, rank):
            data = self._build_data_dict(metadata, read_chunk(f, start, end))
            ancil_data = read_chunk(ancil_f, start, end) if ancil_f is not None else None
            yield start, end, Ensemble(ctor_func, data=data, ancil=ancil_data)
    finally:
        infp.close()
        if ancil_infp is not None:
            ancil_infp.close()
'''))
R("f_conv5", "factory.py", ("Factory.convert", '''
def convert(self, in_dist, class_name, **kwds):
    method = kwds.get("method")
    options = {k: v for k, v in kwds.items() if k != "method"}
    if class_name not in self:  # pragma: no cover
        raise KeyError("Class nameed %s is not in factory" % class_name)
    extract_func = self[class_name].extraction_method(method)
    if extract_func is None:  # pragma: no cover
        raise KeyError("Class named %s does not have a extraction_method named %s" % (class_name, method))
    return self.create(class_name, extract_func(in_dist, **options), method)
'''), ("Factory.create", '''
def create(self, class_name, data, method=None):
    try:
        the_class = self[class_name]
    except KeyError:  # pragma: no cover
        raise KeyError("Class nameed %s is not in factory" % class_name) from None
    return Ensemble(the_class.creation_method(method), data)
'''))
R("f_dict5", "factory.py", ("Factory.write_dict", '''
@staticmethod
def write_dict(filename, ensemble_dict, **kwargs):
    if not all(isinstance(val, Ensemble) for val in ensemble_dict.values()):
        raise ValueError("All values in ensemble_dict must be qp.Ensemble")
    tables = {key: val.build_tables() for key, val in ensemble_dict.items()}
    io.writeDictsToHdf5(tables, filename, **kwargs)
'''), ("Factory.read_dict", '''
@staticmethod
def _read_tables(filename, group):
    """Read all the tables of one group"""
    tables = {}
    for key_name in io.readHdf5GroupNames(filename, group):
        group_object, infp = io.readHdf5Group(filename, f"{group}/{key_name}")
        try:
            tables[key_name] = io.readHdf5GroupToDict(group_object)
        finally:
            infp.close()
    return tables

@staticmethod
def read_dict(filename):
    return {
        group: from_tables(Factory._read_tables(filename, group)) for group in io.readHdf5GroupNames(filename)
    }
'''))
R("f_read5", "factory.py", ("Factory.read", '''
def read(self, filename):
    is_parquet = os.path.splitext(filename)[1] == ".pq"
    keys = ["data", "meta", "ancil"] if is_parquet else None
    tables = io.read(filename, NUMPY_DICT, keys=keys, allow_missing_keys=is_parquet)
    return self.from_tables(tables)
'''), ("Factory.data_length", '''
def data_length(self, filename):
    group, handle = io.readHdf5Group(filename, "data")
    try:
        return io.getGroupInputDataLength(group)
    finally:
        handle.close()
'''))

# ---------------------------------------------------------------- dicts
R("d_check5", "dict_utils.py", ("check_keys", '''
def check_keys(in_dicts):
    """Check that the keys in all the in_dicts match"""
    if not in_dicts:
        return
    first, *others = in_dicts
    for other in others:
        if set(other) == set(first):
            continue
        raise ValueError("Keys to not match: %s != %s" % (other.keys(), first.keys()))
'''), ("compare_two_dicts", '''
def _values_match(v, vv):
    try:
        return not v != vv
    except ValueError:
        return bool(np.allclose(v, vv))

def compare_two_dicts(d1, d2):
    """Check that all the items in d1 and d2 match"""
    if set(d1) != set(d2):
        return False
    return all(_values_match(d1[k], d2[k]) for k in d1)
'''))
R("d_shape5", "dict_utils.py", ("check_array_shapes", '''
def check_array_shapes(in_dict, npdf):
    """Check that all the arrays in in_dict match the number of pdfs"""
    for key, val in (in_dict or {}).items():
        single = npdf == 1 and np.size(val) == 1
        if not single and np.shape(val)[0] != npdf:
            raise ValueError(
                "First dimension of array %s does not match npdf: %i != %i" % (key, np.shape(val)[0], npdf)
            )
'''), ("get_val_or_default", '''
def get_val_or_default(in_dict, key):
    """Helper functions to return either an item in a dictionary or the default value of the dictionary"""
    for candidate in (key, None):
        if candidate in in_dict:
            return in_dict[candidate]
    return None
'''))

# ---------------------------------------------------------------- utils
R("u_bins5", "utils.py", ("get_bin_indices", '''
def get_bin_indices(bins, x):
    n_bins = np.size(bins) - 1
    widths = np.diff(bins)
    uniform = np.allclose(widths, widths[0])
    if uniform:
        raw = np.floor((x - bins[0]) / widths[0]).astype(int)
    else:
        raw = np.searchsorted(bins, x, side="left") - 1
    raw = np.atleast_1d(raw)
    mask = np.logical_and(raw >= 0, raw < n_bins)
    idx = np.where(mask, raw, 0)
    xshape = np.shape(x)
    return np.clip(idx.reshape(xshape), 0, n_bins - 1), mask.reshape(xshape)
'''))
R("u_norm5", "utils.py", ("normalize_interp1d", '''
def normalize_interp1d(xvals, yvals):
    steps = xvals[:, 1:] - xvals[:, :-1]
    integrals = np.sum(steps * yvals[:, 1:], axis=1)
    return yvals / integrals.reshape(-1, 1)
'''), ("reshape_to_pdf_size", '''
def reshape_to_pdf_size(vals, split_dim):
    shape = np.shape(vals)
    leading, trailing = shape[:split_dim], shape[split_dim:]
    return vals.reshape((int(np.prod(leading)),) + trailing)
'''))
R("u_case5", "utils.py", ("get_eval_case", '''
def get_eval_case(x, row):
    nd_x, nd_row = np.ndim(x), np.ndim(row)
    n_x, n_row = np.size(x), np.size(row)
    if nd_x >= 2:
        if nd_row == 1:  # pragma: no cover
            raise ValueError("Dimension mismatch: x(%s), row(%s)" % (np.shape(x), np.shape(row)))
        return CASE_2D, x, row
    if nd_row >= 2:
        return CASE_PRODUCT, x, row
    flat = (CASE_FLAT, x, row)
    if n_x == 1 or n_row == 1:
        return flat
    if n_x == n_row:
        changes = np.flatnonzero(np.diff(row))
        nx = changes[0] + 1 if np.size(changes) else n_row
    else:
        nx = n_x // n_row
    if nx == 0 or n_x % nx != 0 or (n_row * nx) % n_x != 0:
        return flat
    xx = np.reshape(x, (-1, nx))
    rr = np.reshape(row, (len(xx), -1))
    if np.all(xx == xx[0]) and np.all(rr == rr[:, :1]):
        return CASE_FACTOR, xx[0], rr[:, :1]
    return flat
'''))
R("u_disp5", "utils.py", ("interpolate_x_multi_y", '''
def interpolate_x_multi_y(x, row, xvals, yvals, **kwargs):
    case_idx, xx, rr = get_eval_case(x, row)
    if case_idx == CASE_2D:
        evaluator = interpolate_x_multi_y_2d
    elif case_idx == CASE_FLAT:
        evaluator = interpolate_x_multi_y_flat
    else:
        evaluator = interpolate_x_multi_y_product
    return evaluator(xx, rr, xvals, yvals, **kwargs)
'''), ("interpolate_multi_x_y", '''
def interpolate_multi_x_y(x, row, xvals, yvals, **kwargs):
    evaluators = {
        CASE_PRODUCT: interpolate_multi_x_y_product,
        CASE_FACTOR: interpolate_multi_x_y_product,
        CASE_2D: interpolate_multi_x_y_2d,
        CASE_FLAT: interpolate_multi_x_y_flat,
    }
    case_idx, xx, rr = get_eval_case(x, row)
    return evaluators[case_idx](xx, rr, xvals, yvals, **kwargs)
'''))
R("u_hist5", "utils.py", ("evaluate_hist_x_multi_y_flat", '''
def evaluate_hist_x_multi_y_flat(x, row, bins, vals, derivs=None):
    assert np.ndim(x) < 2 and np.ndim(row) < 2
    idx, mask = get_bin_indices(bins, x)
    deltas = np.zeros(idx.shape) if derivs is None else x - bins[idx]

    def evaluate_row(idxv, maskv, rv, delta):
        value = vals[rv, idxv]
        if derivs is not None:
            value = value + delta * derivs[rv, idxv]
        return np.where(maskv, value, 0)

    return np.vectorize(evaluate_row)(idx, mask, row, deltas)
'''), ("evaluate_hist_x_multi_y_product", '''
def evaluate_hist_x_multi_y_product(x, row, bins, vals, derivs=None):
    idx, mask0 = get_bin_indices(bins, x)
    mask = np.ones(row.shape) * mask0
    rows = np.squeeze(row)
    values = vals[:, idx][rows]
    if derivs is not None:
        values = values + (x - bins[idx]) * derivs[:, idx][rows]
    return np.where(mask, values, 0)
'''))
R("u_prof5", "utils.py", ("profile", '''
def profile(x_data, y_data, x_bins, std=True):
    idx, mask = get_bin_indices(x_bins, x_data)
    nbins = x_bins.size - 1
    count, vals, errs = np.zeros(nbins), np.zeros(nbins), np.zeros(nbins)
    for i in range(nbins):
        selected = y_data[mask & (idx == i)]
        count[i] = selected.size
        if selected.size == 0:  # pragma: no cover
            vals[i] = errs[i] = np.nan
        else:
            vals[i] = selected.mean()
            errs[i] = selected.std()
    if not std:
        errs = errs / np.sqrt(count)
    return vals, errs
'''))
R("u_multi5", "utils.py", ("interpolate_multi_x_y_product", '''
def interpolate_multi_x_y_product(x, row, xvals, yvals, **kwargs):
    def single_row(rv):
        table = interp1d(xvals[rv], yvals, **kwargs)
        return table(x)

    signature = "()->(%i)" % np.shape(x)[-1]
    return np.vectorize(single_row, signature=signature)(np.squeeze(row))
'''))

# ---------------------------------------------------------------- conversions
R("c_hist5", "conversion_funcs.py", ("extract_hist_samples", '''
def extract_hist_samples(in_dist, **kwargs):
    bins = kwargs.pop("bins", None)
    if bins is None:  # pragma: no cover
        raise ValueError("To convert using extract_hist_samples you must specify bins")
    draw = dict(size=kwargs.pop("size", 1000), random_state=kwargs.pop("random_state", None))
    samples = in_dist.rvs(**draw)
    counter = np.vectorize(
        lambda sample: np.histogram(sample, bins=bins)[0],
        signature="(%i)->(%i)" % (samples.shape[-1], bins.size - 1),
    )
    return {"bins": bins, "pdfs": counter(samples) / bin_widths(bins)}
'''), ("extract_hist_values", '''
def extract_hist_values(in_dist, **kwargs):
    if kwargs.get("bins") is None:  # pragma: no cover
        raise ValueError("To convert using extract_hist_samples you must specify bins")
    bins, contents = in_dist.histogramize(kwargs["bins"])
    densities = contents / bin_widths(bins)
    return dict(bins=bins, pdfs=densities)
'''))
R("c_mix5", "conversion_funcs.py", ("extract_mixmod_fit_samples", '''
def extract_mixmod_fit_samples(in_dist, **kwargs):
    n_comps = kwargs.pop("ncomps", 3)
    n_sample = kwargs.pop("nsamples", 1000)
    random_state = kwargs.pop("random_state", None)
    samples = in_dist.rvs(size=n_sample, random_state=random_state)
    if isinstance(random_state, np.random.Generator):
        random_state = np.random.RandomState(random_state.bit_generator)

    def fit_row(row_samples):
        model = mixture.GaussianMixture(n_components=n_comps, random_state=random_state)
        model.fit(row_samples[:, np.newaxis])
        return np.vstack([model.weights_, model.means_[:, 0], np.sqrt(model.covariances_[:, 0, 0])])

    fits = np.vectorize(fit_row, signature=f"({n_sample})->(3,{n_comps})")(samples)
    names = ("weights", "means", "stds")
    return {name: fits[:, i, :] for i, name in enumerate(names)}
'''))
R("c_sparse5", "conversion_funcs.py", ("extract_sparse_from_xy", '''
def _refine(xvals, yvals, nvals):
    """Interpolate the values onto a finer grid which ends where the densities do"""
    _, j = np.where(yvals > 0)
    newx = np.linspace(np.min(xvals), np.max(xvals[j]), nvals)
    return newx, sciinterp.interp1d(xvals, yvals, assume_sorted=True)(newx)

def extract_sparse_from_xy(in_dist, **kwargs):
    yvals = kwargs.pop("yvals", in_dist.objdata()["yvals"])
    xvals = kwargs.pop("xvals", in_dist.metadata()["xvals"][0])
    newx, newpdf = _refine(xvals, yvals, kwargs.pop("nvals", 300))
    sparse_indices, metadata, _ = build_sparse_representation(newx, newpdf)
    metadata["xvals"] = newx
    metadata["sparse_indices"] = sparse_indices
    metadata.pop("Ntot")
    return metadata
'''))
R("c_voigt5", "conversion_funcs.py", ("extract_voigt_mixmod", '''
def extract_voigt_mixmod(in_dist, **kwargs):
    objdata = in_dist.objdata()
    result = {key: objdata[key] for key in ("means", "stds", "weights")}
    result["gammas"] = np.zeros_like(result["means"])
    return dict(**result, **kwargs)
'''), ("extract_voigt_xy", '''
def extract_voigt_xy(in_dist, **kwargs):
    found = extract_voigt_xy_sparse(in_dist, **kwargs)
    weights, means, stds, gammas = indices2shapes(found["indices"], found["metadata"])
    return dict(weights=weights, means=means, stds=stds, gammas=gammas)
'''))

# ---------------------------------------------------------------- sparse
R("r_basis5", "sparse_rep.py", ("create_voigt_basis", '''
def create_voigt_basis(xvals, mu, Nmu, sigma, Nsigma, Nv, cut=1.e-5):
    means = np.linspace(mu[0], mu[1], Nmu)
    sig = np.linspace(sigma[0], sigma[1], Nsigma)
    gamma = np.linspace(0, 0.5, Nv)
    A = np.zeros((len(xvals), Nmu * Nsigma * Nv))
    column = 0
    for mean in means:
        for width in sig:
            for g in gamma:
                pdft = voigt_profile(xvals - mean, width, g)
                pdft = np.where(pdft >= cut, pdft, 0.)
                A[:, column] = pdft / sla.norm(pdft)
                column += 1
    return A
'''))
R("r_bits5", "sparse_rep.py", ("combine_int", '''
def combine_int(Ncoef, Nbase):
    """combine index of base (up to 62500 bases) and value (16 bits integer with sign) in a 32 bit integer"""
    shifted = Ncoef << 16
    return shifted | Nbase
'''), ("get_N", '''
def get_N(longN):
    """Extract coefficients fro the 32bits integer"""
    low_bits = 2**16 - 1
    coef, base = longN >> 16, longN & low_bits
    return coef, base
'''), ("decode_sparse_indices", '''
def decode_sparse_indices(indices):
    """decode sparse indices into basis indices and weigth"""
    decoded = np.array([get_N(index) for index in indices])
    coefs, bases = decoded[:, 0, :], decoded[:, 1, :]
    step = 1. / (32001 - 1)
    vals = coefs * step
    vals[:, 0] = 1.
    return bases, vals
'''))
R("r_shapes5", "sparse_rep.py", ("indices2shapes", '''
def indices2shapes(sparse_indices, meta):
    """compute the Voigt shape parameters from the sparse index"""
    Nmu, Nsigma, Nv, Ncoef = (meta["dims"][i] for i in range(4))
    mu, sigma = meta["mu"], meta["sig"]
    means_array = np.linspace(mu[0], mu[1], Nmu)
    sig_array = np.linspace(sigma[0], sigma[1], Nsigma)
    gam_array = np.linspace(0, 0.5, Nv)
    Dind2, vals = decode_sparse_indices(sparse_indices)
    per_mean = Nsigma * Nv
    within = Dind2 % per_mean
    means = means_array[np.array(Dind2 / per_mean, int)]
    sigmas = sig_array[np.array(within / Nv, int)]
    gammas = gam_array[np.array(within % Nv, int)]
    return vals, means, sigmas, gammas
'''))
R("r_pdf5", "sparse_rep.py", ("pdf_from_sparse", '''
def pdf_from_sparse(sparse_indices, A, xvals, cut=1.e-5):
    indices, vals = decode_sparse_indices(sparse_indices)
    pdf_y = np.sum(A[:, indices] * vals, axis=-1)
    pdf_y = np.where(pdf_y < cut, 0., pdf_y)
    return pdf_y / sciint.trapezoid(pdf_y.T, xvals)
'''), ("shapes2pdf", '''
def shapes2pdf(wa, ma, sa, ga, meta, cut=1.e-5):
    x = meta["xvals"]
    pdf = np.zeros_like(x)
    for weight, mean, sigma, gamma in zip(wa, ma, sa, ga):
        component = voigt_profile(x - mean, sigma, gamma)
        component = np.where(component >= cut, component, 0.)
        pdf += weight * component / sla.norm(component)
    total = np.where(pdf >= cut, pdf, 0.)
    norm = sciint.trapezoid(total, x)
    return total / norm
'''))

# ---------------------------------------------------------------- metrics
R("x_kld5", "metrics/metrics.py", ("calculate_kld", '''
def _on_grid(ensembles, grid):
    """Evaluate several ensembles on one grid"""
    return [ens.gridded(grid.grid_values)[1] for ens in ensembles]

def calculate_kld(p, q, limits, dx=0.01):
    if p.shape != q.shape:
        raise ValueError("Cannot calculate KLD between two ensembles with different shapes")
    grid = _calculate_grid_parameters(limits, dx)
    pn, qn = _on_grid((p, q), grid)
    Dpq = array_metrics.quick_kld(pn, qn, grid.resolution)
    if (Dpq < 0.0).any():  # pragma: no cover
        print("broken KLD: " + str((Dpq, pn, qn, grid.resolution)))
        Dpq = np.full(Dpq.shape, epsilon)
    return Dpq
'''), ("calculate_rmse", '''
def calculate_rmse(p, q, limits, dx=0.01):
    if p.shape != q.shape:
        raise ValueError("Cannot calculate RMSE between two ensembles with different shapes")
    grid = _calculate_grid_parameters(limits, dx)
    pe, qe = _on_grid([p, q], grid)
    return array_metrics.quick_rmse(pe, qe, grid.cardinality)
'''))
R("x_grid5", "metrics/metrics.py", ("_calculate_grid_parameters", '''
def _calculate_grid_parameters(limits, dx: float = 0.01) -> Grid:
    span = limits[-1] - limits[0]
    cardinality = int(span / dx)
    resolution = span / (cardinality - 1)
    half = resolution / 2
    edges = np.histogram_bin_edges((limits[0] - half, limits[1] + half), cardinality)
    return Grid(
        grid_values=np.linspace(limits[0], limits[1], cardinality),
        cardinality=cardinality,
        resolution=resolution,
        hist_bin_edges=edges,
        limits=limits,
    )
'''))
R("x_rbpe5", "metrics/metrics.py", ("calculate_rbpe", '''
def calculate_rbpe(p, limits=(np.inf, np.inf)):
    def one_estimate(dist):
        if dist.npdf != 1:
            raise ValueError(
                "quick_rbpe only handles Ensembles with a single PDF "
                "for ensembles with more than one PDF, use the qp.metrics.risk_based_point_estimate function."
            )
        bounds = tuple(dist.ppf(q)[0][0] for q in (0.01, 0.99))
        return array_metrics.quick_rbpe(lambda z: dist.pdf(z)[0][0], bounds, limits)

    return np.array([one_estimate(p[n]) for n in range(p.npdf)])
'''))
R("x_brier5", "metrics/metrics.py", ("_prepare_for_brier", '''
def _prepare_for_brier(p, truth, limits, dx=0.01):
    n_truth = len(truth)
    if n_truth != p.npdf:
        raise ValueError(
            "Number of distributions in the Ensemble (%d) is not equal to the number of truth values (%d)"
            % (p.npdf, n_truth)
        )
    lo, hi = limits[0], limits[1]
    outside = np.less(truth, lo) | np.greater(truth, hi)
    if np.any(outside):
        raise ValueError(
            f"Input truth values exceed the defined limits ({min(truth)}, {max(truth)}) ({limits[0]} {limits[1]})"
        )
    grid = _calculate_grid_parameters(limits, dx)
    counts = [np.histogram(value, grid.hist_bin_edges)[0] for value in truth]
    return Brier(p.gridded(grid.grid_values)[1], np.array(counts))
'''), ("calculate_brier_for_accumulation", '''
def calculate_brier_for_accumulation(p, truth, limits, dx=0.01):
    return _prepare_for_brier(p, truth, limits, dx).accumulate(), p.npdf
'''))
R("x_brierc5", "metrics/brier.py", ("Brier._calculate_metric", '''
def _squared_distances(self):
    """Sum of the squared differences of each prediction"""
    return np.sum(np.square(self._prediction - self._truth), axis=self._axis_for_summation)

def _calculate_metric(self):
    return self._squared_distances().mean()
'''), ("Brier._calculate_metric_for_accumulation", '''
def _calculate_metric_for_accumulation(self):
    return self._squared_distances().sum()
'''))
R("x_gof5", "metrics/metrics.py", ("calculate_goodness_of_fit", '''
def _warn_unless(check, message, *ensembles):
    try:
        check(*ensembles)
    except ValueError:  # pragma: no cover
        logging.warning(message)

def calculate_goodness_of_fit(estimate, reference, fit_metric="ks", num_samples=100, _random_state=None):
    _warn_unless(
        _check_ensembles_contain_correct_number_of_distributions,
        "The ensemble `reference` should have 1 or N distributions.  "
        "With N = number of distributions in the ensemble `estimate`.",
        estimate,
        reference,
    )
    _warn_unless(
        _check_ensemble_is_not_nested, "Each element in the ensemble `estimate` must be a single distribution.", estimate
    )
    _warn_unless(
        _check_ensemble_is_not_nested, "Each element in the ensemble `reference` must be a single distribution.", reference
    )
    if fit_metric not in goodness_of_fit_metrics:
        raise KeyError(f"`fit_metric` should be one of {list(goodness_of_fit_metrics)}.")
    samples = estimate.rvs(size=num_samples, random_state=_random_state)
    return goodness_of_fit_metrics[fit_metric](reference, np.squeeze(samples))
'''))
R("x_gofs5", "metrics/goodness_of_fit.py", ("_kolmogorov_smirnov", '''
def _kolmogorov_smirnov(dist, data):
    cdfvals = dist.cdf(np.sort(data, axis=-1))
    return np.maximum(_compute_dplus(cdfvals), _compute_dminus(cdfvals))
'''), ("_cramer_von_mises", '''
def _cramer_von_mises(dist, data):
    n = data.shape[-1]
    cdfvals = dist.cdf(np.sort(data, axis=-1))
    i = np.arange(1, n + 1)
    expected = (2 * i - 1) / (2 * n)
    return 1 / (12 * n) + ((expected - cdfvals) ** 2).sum(axis=-1)
'''), ("_anderson_darling", '''
def _anderson_darling(dist, data):
    x = np.sort(data, axis=-1)
    n = data.shape[-1]
    coefs = (2 * np.arange(1, n + 1) - 1) / n
    upper = dist.logsf(x[..., ::-1])
    total = np.sum(coefs * (dist.logcdf(x) + upper), axis=-1)
    return -(n + total)
'''))
R("x_arr5", "metrics/array_metrics.py", ("quick_kld", '''
def quick_kld(p_eval, q_eval, dx=0.01):
    log_p, log_q = safelog(p_eval), safelog(q_eval)
    return np.sum(p_eval * (log_p - log_q), axis=-1) * dx
'''), ("quick_rmse", '''
def quick_rmse(p_eval, q_eval, N):
    squares = np.square(p_eval - q_eval)
    return np.sqrt(squares.sum(axis=-1) / N)
'''), ("quick_rbpe", '''
def quick_rbpe(pdf_function, integration_bounds, limits=(np.inf, np.inf)):
    lower, upper = integration_bounds[0], integration_bounds[1]

    def loss(x):
        return 1.0 - 1.0 / (1.0 + (x / 0.15) ** 2)

    def find_z_risk(zp):
        result = quad(lambda z: pdf_function(z) * loss((zp - z) / (1.0 + z)), lower, upper)
        return result[0]

    options = {}
    if limits[0] != np.inf:
        options = dict(bounds=(limits[0], limits[1]), method="bounded")
    return minimize_scalar(find_z_risk, **options).x
'''))
R("x_out5", "metrics/metrics.py", ("calculate_outlier_rate", '''
def calculate_outlier_rate(p, lower_limit=0.0001, upper_limit=0.9999):
    try:
        _check_ensemble_is_not_nested(p)
    except ValueError:  # pragma: no cover
        logging.warning("Each element in the ensemble `p` must be a single distribution.")
    rates = []
    for dist in p:
        below = dist.cdf(lower_limit)
        above = 1.0 - dist.cdf(upper_limit)
        rates.append((below + above)[0][0])
    return np.array(rates)
'''), ("_check_ensembles_contain_correct_number_of_distributions", '''
def _check_ensembles_contain_correct_number_of_distributions(estimate, reference):
    if reference.npdf not in (1, estimate.npdf):
        raise ValueError(
            "`reference` should contain either 1 distribution or the same number of distributions as `estimate`."
        )
'''))
R("x_pit5", "metrics/pit.py", ("PIT.__init__", '''
def __init__(self, qp_ens, true_vals, eval_grid=DEFAULT_QUANTS):
    samples = self._gather_pit_samples(qp_ens, true_vals)
    if len(samples) < len(eval_grid):
        logging.warning(
            "Number of pit samples is smaller than the evaluation grid size. "
            "Will create a new evaluation grid with size = number of pit samples"
        )
        eval_grid = np.linspace(0, 1, len(samples))
    self._pit_samps = samples
    self._pit = self._produce_output_ensemble(np.quantile(samples, eval_grid), eval_grid)
'''), ("PIT._gather_pit_samples", '''
@classmethod
def _gather_pit_samples(cls, qp_ens, true_vals):
    cdf_values = qp_ens.cdf(np.vstack(true_vals))
    pit_samples = np.atleast_1d(np.squeeze(cdf_values))
    bad = ~np.isfinite(pit_samples)
    if bad.any():
        logging.warning("Some PIT samples were `NaN`. They have been replacd with 0.")
    pit_samples[bad] = 0
    return pit_samples
'''))
R("x_pitout5", "metrics/pit.py", ("PIT._produce_output_ensemble", '''
@classmethod
def _produce_output_ensemble(cls, data_quants, eval_grid):
    locs, first_index = np.unique(data_quants, return_index=True)
    keep = cls._create_quant_mask(locs)
    data = {"quants": eval_grid[first_index][keep], "locs": np.atleast_2d(locs[keep])}
    return qp.Ensemble(qp.quant, data=data)
'''), ("PIT._trim_pit_values", '''
def _trim_pit_values(self, cdf_min, cdf_max):
    samples = self._pit_samps
    inside = np.logical_and(samples >= cdf_min, samples <= cdf_max)
    n_removed = np.sum(~inside)
    if n_removed > 0:
        logging.warning("Removed %d PITs from the sample.", n_removed)
    return samples[inside]
'''), ("PIT.calculate_pit_meta_metrics", '''
def calculate_pit_meta_metrics(self):
    return {
        "ad": self.evaluate_PIT_anderson_ksamp(),
        "cvm": self.evaluate_PIT_CvM(),
        "ks": self.evaluate_PIT_KS(),
        "outlier_rate": self.evaluate_PIT_outlier_rate(),
    }
'''))
R("x_cde5", "metrics/concrete_metric_classes.py", ("CDELossMetric.evaluate", '''
def _terms(self, estimate, reference):
    """The two terms of the loss for every distribution"""
    pdfs = estimate.pdf(self._xvals)
    nearest = [np.abs(self._xvals - z).argmin() for z in reference]
    return np.trapz(pdfs**2, x=self._xvals), pdfs[range(estimate.npdf), nearest]

def evaluate(self, estimate, reference):
    first, second = self._terms(estimate, reference)
    return np.mean(first) - 2 * np.mean(second)
'''), ("CDELossMetric.accumulate", '''
def accumulate(self, estimate, reference):
    first, second = self._terms(estimate, reference)
    return np.sum(first), np.sum(second), estimate.npdf
'''), ("CDELossMetric.finalize", '''
def finalize(self, tuples):
    first, second, total = np.sum(np.atleast_2d(tuples), axis=0)
    return (first / total) - 2 * (second / total)
'''))
R("x_pitm5", "metrics/concrete_metric_classes.py", ("PITMetric.compute_from_digest", '''
def compute_from_digest(self, digest):
    # Since we equally weight the CDF samples when creating the digest, we can use the weight
    n_pit = min(int(digest.weight), len(self._eval_grid))
    if n_pit < len(self._eval_grid):
        print(
            "Number of pit samples is smaller than the evaluation grid size. "
            "Will create a new evaluation grid with size = number of pit samples"
        )
        grid = np.linspace(0, 1, n_pit)
    else:
        grid = self._eval_grid
    return PIT._produce_output_ensemble(digest.inverse_cdf(grid), grid)
'''), ("BrierMetric.finalize", '''
def finalize(self, tuples):
    total, npdf = np.atleast_2d(tuples).sum(axis=0)
    return total / npdf
'''))
R("x_point5", "metrics/point_estimate_metric_classes.py", ("PointOutlierRate.evaluate", '''
def evaluate(self, estimate, reference):
    ez = (estimate - reference) / (1.0 + reference)
    three_sig = 3.0 * PointSigmaIQR().evaluate(estimate, reference)
    cut_criterion = np.maximum(0.06, three_sig)
    n_outliers = np.count_nonzero(np.fabs(ez) > cut_criterion)
    return float(n_outliers) / float(len(ez))
'''), ("PointSigmaIQR.evaluate", '''
def evaluate(self, estimate, reference):
    ez = (estimate - reference) / (1.0 + reference)
    x25, x75 = np.percentile(ez, [25.0, 75.0])
    return (x75 - x25) / 1.349
'''), ("PointSigmaIQR.compute_from_digest", '''
def compute_from_digest(self, digest):
    quartiles = digest.inverse_cdf([0.75, 0.25])
    return (quartiles[0] - quartiles[1]) / 1.349
'''))
R("x_mad5", "metrics/point_estimate_metric_classes.py", ("PointSigmaMAD.compute_from_digest", '''
def compute_from_digest(self, digest):
    SCALE_FACTOR = 1.4826
    center = digest.inverse_cdf(0.5)
    bins = np.linspace(digest.inverse_cdf(0), digest.inverse_cdf(1), self._num_bins)
    mids = 0.5 * (bins[:-1] + bins[1:])
    probs = np.diff(digest.cdf(bins))
    dist = np.fabs(mids - center)
    order = np.argsort(dist)
    dist = dist[order]
    position = np.searchsorted(np.cumsum(probs[order]), 0.5)
    return SCALE_FACTOR * dist[position]
'''), ("PointSigmaMAD.__init__", '''
def __init__(self, **kwargs) -> None:
    super().__init__(**kwargs)
    self._num_bins = kwargs.get("num_bins", 1_000_000)
'''))
R("x_dig5", "metrics/point_estimate_metric_classes.py", ("PointToPointMetricDigester.finalize", '''
def finalize(self, centroids: np.ndarray = []):
    compression = self._tdigest_compression
    digests = [pytdigest.TDigest.of_centroids(np.array(c), compression=compression) for c in centroids]
    total = digests[0]
    for digest in digests[1:]:
        total = total + digest
    return self.compute_from_digest(total)
'''))
R("x_base5", "metrics/base_metric_classes.py", ("PointToPointMetric.eval_from_iterator", '''
def eval_from_iterator(self, estimate, reference):
    self.initialize()
    centroids = []
    for est, ref in zip(estimate, reference):
        centroids.append(self.accumulate(est, ref))
    return self.finalize(centroids)
'''), ("MetricInputType.uses_point_for_reference", '''
def uses_point_for_reference(self) -> bool:
    return self is MetricInputType.dist_to_point or self is MetricInputType.point_to_point
'''))

if __name__ == "__main__":
    import sys
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    run(names or list(ALL))
