"""Fourth batch of behaviour-preserving rewrites, written without looking at what the machinery makes of them."""
from refactorings import R, run, ALL

ALL.clear()

# ---------------------------------------------------------------- hist
R("h_init", "hist_pdf.py", ("hist_gen.__init__", '''
def __init__(self, bins, pdfs, *args, **kwargs):
    edges = np.asarray(bins)
    nbins = edges.size - 1
    nvals = np.shape(pdfs)[-1]
    if nvals != nbins:  # pragma: no cover
        raise ValueError("Number of bins (%i) != number of values (%i)" % (nbins, nvals))
    self._hbins = edges
    self._nbins = nbins
    self._hbin_widths = np.diff(edges)
    self._xmin, self._xmax = edges[0], edges[-1]
    self._check_input = kwargs.pop("check_input", True)
    values = reshape_to_pdf_size(pdfs, -1)
    if self._check_input:
        values = self._normalize(values)
    self._hpdfs = values
    self._hcdfs = None
    # Set support
    kwargs["shape"] = pdfs.shape[:-1]
    super().__init__(*args, **kwargs)
    self._addobjdata("pdfs", self._hpdfs)
    self._addmetadata("bins", self._hbins)
    self._addmetadata("check_input", self._check_input)

def _normalize(self, values):
    """Scale the bin values so that every histogram integrates to one"""
    sums = np.sum(values * self._hbin_widths, axis=1)
    return values / sums[:, np.newaxis]
'''))
R("h_cdfs", "hist_pdf.py", ("hist_gen._compute_cdfs", '''
def _compute_cdfs(self):
    npdf, nbins = self._hpdfs.shape
    cdfs = np.zeros((npdf, nbins + 1))
    np.cumsum(self._hpdfs * self._hbin_widths, axis=1, out=cdfs[:, 1:])
    self._hcdfs = cdfs
'''))
R("h_cdf_loop", "hist_pdf.py", ("hist_gen._compute_cdfs", '''
def _compute_cdfs(self):
    probs = self._hpdfs * self._hbin_widths
    cdfs = np.zeros((probs.shape[0], probs.shape[1] + 1))
    for i in range(probs.shape[0]):
        cdfs[i, 1:] = np.cumsum(probs[i])
    self._hcdfs = cdfs
'''))
R("h_ppf", "hist_pdf.py", ("hist_gen._cdf", '''
def _get_cdfs(self):
    """The cumulative values at the bin edges, computed on first use"""
    if self._hcdfs is None:  # pragma: no cover
        self._compute_cdfs()
    return self._hcdfs

def _cdf(self, x, row):
    # pylint: disable=arguments-differ
    vals = interpolate_x_multi_y(
        x, row, self._hbins, self._get_cdfs(), bounds_error=False, fill_value=(0.0, 1.0)
    )
    return vals.ravel()
'''), ("hist_gen._ppf", '''
def _ppf(self, x, row):
    # pylint: disable=arguments-differ
    limits = (self._xmin, self._xmax)
    vals = interpolate_multi_x_y(
        x, row, self._get_cdfs(), self._hbins, bounds_error=False, fill_value=limits
    )
    return vals.ravel()
'''))
R("h_moment", "hist_pdf.py", ("hist_gen._munp", '''
def _munp(self, m, *args):
    """compute moments"""
    # pylint: disable=arguments-differ
    with np.errstate(all="ignore"):
        return self.custom_generic_moment(m)
'''), ("hist_gen.custom_generic_moment", '''
def custom_generic_moment(self, m):
    """Compute the mth moment"""
    centers = (self._hbins[:-1] + self._hbins[1:]) / 2
    probs = self._hpdfs * self._hbin_widths
    return (probs * centers ** np.asarray(m)).sum(axis=-1)
'''))
R("h_misc", "hist_pdf.py", ("hist_gen._updated_ctor_param", '''
def _updated_ctor_param(self):
    """
    Set the bins as additional constructor argument
    """
    return dict(
        super()._updated_ctor_param(),
        bins=self._hbins,
        pdfs=self._hpdfs,
        check_input=self._check_input,
    )
'''), ("hist_gen.get_allocation_kwds", '''
@classmethod
def get_allocation_kwds(cls, npdf, **kwargs):
    try:
        bins = kwargs["bins"]
    except KeyError as msg:  # pragma: no cover
        raise ValueError("required argument 'bins' not included in kwargs") from msg
    return {"pdfs": ((npdf, bins.size - 1), "f4")}
'''), ("hist_gen.plot_native", '''
@classmethod
def plot_native(cls, pdf, **kwargs):
    """Plot the PDF in a way that is particular to this type of distibution"""
    axes, _, kw = get_axes_and_xlims(**kwargs)
    row = pdf.kwds["row"]
    dist = pdf.dist
    hist_data = (dist.bins, dist.pdfs[row])
    return plot_pdf_histogram_on_axes(axes, hist=hist_data, **kw)
'''))

# ---------------------------------------------------------------- interp
R("i_init", "interp_pdf.py", ("interp_gen.__init__", '''
def __init__(self, xvals, yvals, *args, **kwargs):
    shape = np.shape(yvals)
    if np.size(xvals) != shape[-1]:  # pragma: no cover
        raise ValueError(
            "Shape of xbins in xvals (%s) != shape of xbins in yvals (%s)" % (np.size(xvals), shape[-1])
        )
    self._check_input = kwargs.pop("check_input", True)
    self._xvals = np.asarray(xvals)
    self._xmin, self._xmax = self._xvals[0], self._xvals[-1]
    self._yvals = reshape_to_pdf_size(yvals, -1)
    self._ycumul = None
    if self._check_input:
        self._compute_ycumul()
        norms = self._ycumul[:, -1:]
        self._yvals = self._yvals / norms
        self._ycumul = self._ycumul / norms

    # Set support
    kwargs["shape"] = shape[:-1]
    super().__init__(*args, **kwargs)
    self._addmetadata("xvals", self._xvals)
    self._addmetadata("check_input", self._check_input)
    self._addobjdata("yvals", self._yvals)
'''))
R("i_cumul", "interp_pdf.py", ("interp_gen._compute_ycumul", '''
def _compute_ycumul(self):
    widths = np.diff(self._xvals)
    areas = 0.5 * widths * (self._yvals[:, 1:] + self._yvals[:, :-1])
    ycumul = np.empty(self._yvals.shape)
    ycumul[:, 0] = 0.5 * self._yvals[:, 0] * widths[0]
    ycumul[:, 1:] = np.cumsum(areas, axis=1)
    self._ycumul = ycumul
'''), ("interp_irregular_gen._compute_ycumul", '''
def _compute_ycumul(self):
    ycumul = np.zeros(self._yvals.shape)
    steps = self._yvals[:, 1:] * (self._xvals[:, 1:] - self._xvals[:, :-1])
    ycumul[:, 1:] = steps.cumsum(axis=1)
    self._ycumul = ycumul
'''))
R("i_eval", "interp_pdf.py", ("interp_gen._pdf", '''
def _interpolate(self, x, row, table, fill_value):
    """Interpolate one of the tables on the x-values"""
    return interpolate_x_multi_y(
        x, row, self._xvals, table, bounds_error=False, fill_value=fill_value
    ).ravel()

def _pdf(self, x, row):
    # pylint: disable=arguments-differ
    return self._interpolate(x, row, self._yvals, 0.0)
'''), ("interp_gen._cdf", '''
def _cdf(self, x, row):
    # pylint: disable=arguments-differ
    if self._ycumul is None:  # pragma: no cover
        self._compute_ycumul()
    return self._interpolate(x, row, self._ycumul, (0.0, 1.0))
'''))
R("i_irr_init", "interp_pdf.py", ("interp_irregular_gen.__init__", '''
def __init__(self, xvals, yvals, *args, **kwargs):
    xshape, yshape = np.shape(xvals), np.shape(yvals)
    if xshape != yshape:  # pragma: no cover
        raise ValueError("Shape of xvals (%s) != shape of yvals (%s)" % (xshape, yshape))
    kwargs["shape"] = xshape[:-1]
    self._check_input = kwargs.pop("check_input", True)
    x_2d = reshape_to_pdf_size(xvals, -1)
    y_2d = reshape_to_pdf_size(yvals, -1)
    self._xvals = x_2d
    self._yvals = normalize_interp1d(x_2d, y_2d) if self._check_input else y_2d
    self._xmin = x_2d.min()
    self._xmax = x_2d.max()
    self._ycumul = None
    super().__init__(*args, **kwargs)
    for name, vals in (("xvals", self._xvals), ("yvals", self._yvals)):
        self._addobjdata(name, vals)
    self._addmetadata("check_input", self._check_input)
'''))
R("i_alloc", "interp_pdf.py", ("interp_gen.get_allocation_kwds", '''
@classmethod
def get_allocation_kwds(cls, npdf, **kwargs):
    xvals = kwargs.get("xvals")
    if xvals is None:  # pragma: no cover
        raise ValueError("required argument xvals not included in kwargs")
    return dict(yvals=((npdf, np.shape(xvals)[-1]), "f4"))
'''), ("interp_irregular_gen.get_allocation_kwds", '''
@classmethod
def get_allocation_kwds(cls, npdf, **kwargs):
    if "xvals" not in kwargs:  # pragma: no cover
        raise ValueError("required argument xvals not included in kwargs")
    shape = (npdf, np.shape(kwargs["xvals"])[-1])
    return {name: (shape, "f4") for name in ("xvals", "yvals")}
'''))

# ---------------------------------------------------------------- quant
R("q_pad", "quant_pdf.py", ("pad_quantiles", '''
def _extrapolate(locs, quants, outer, inner, target):
    """Extrapolate the locations linearly to the target quantile"""
    slope = (locs[:, inner] - locs[:, outer]) / (quants[inner] - quants[outer])
    return locs[:, outer] + (target - quants[outer]) * slope


def pad_quantiles(quants, locs):
    pad_lo = quants[0] > sys.float_info.epsilon
    pad_hi = quants[-1] < 1.0
    if not (pad_lo or pad_hi):
        return quants, locs
    quants_out, locs_out = quants, locs
    npdf = locs.shape[0]
    n_vals = quants.size
    offset_lo = int(pad_lo)
    n_out = n_vals + int(pad_lo) + int(pad_hi)
    quants_out = np.zeros((n_out), quants.dtype)
    locs_out = np.zeros((npdf, n_out), quants.dtype)
    quants_out[offset_lo : n_vals + offset_lo] = quants
    locs_out[:, offset_lo : n_vals + offset_lo] = locs
    if pad_lo:
        locs_out[:, 0] = _extrapolate(locs, quants, 0, 1, 0.0)
    if pad_hi:
        quants_out[-1] = 1.0
        locs_out[:, -1] = _extrapolate(locs, quants, -1, -2, 1.0)
    return quants_out, locs_out
'''))
R("q_pad2", "quant_pdf.py", ("pad_quantiles", '''
def pad_quantiles(quants, locs):
    pad_lo = quants[0] > epsilon
    pad_hi = quants[-1] < 1.0
    if not pad_lo and not pad_hi:
        return quants, locs
    n_vals = quants.size
    n_out = n_vals
    start = 0
    if pad_lo:
        n_out += 1
        start = 1
    if pad_hi:
        n_out += 1
    middle = slice(start, start + n_vals)
    quants_out = np.zeros((n_out), quants.dtype)
    quants_out[middle] = quants
    locs_out = np.zeros((locs.shape[0], n_out), quants.dtype)
    locs_out[:, middle] = locs
    if pad_hi:
        top = locs[:, -1]
        quants_out[-1] = 1.0
        locs_out[:, -1] = top - (1.0 - quants[-1]) * (locs[:, -2] - top) / (quants[-1] - quants[-2])
    if pad_lo:
        bottom = locs[:, 0]
        locs_out[:, 0] = bottom - quants[0] * (locs[:, 1] - bottom) / (quants[1] - quants[0])
    return quants_out, locs_out
'''))
R("q_init", "quant_pdf.py", ("quant_gen.__init__", '''
def __init__(self, quants, locs, *args, **kwargs):
    self._check_input = kwargs.pop("check_input", True)
    constructor_name = kwargs.pop("pdf_constructor_name", DEFAULT_PDF_CONSTRUCTOR)
    locs_2d = reshape_to_pdf_size(locs, -1)
    if self._check_input:
        quants, locs_2d = pad_quantiles(quants, locs_2d)
    quants = np.asarray(quants)
    if locs_2d.shape[-1] != quants.size:  # pragma: no cover
        raise ValueError(
            "Number of locations (%i) != number of quantile values (%i)" % (quants.size, locs_2d.shape[-1])
        )
    self._xmin, self._xmax = np.min(locs), np.max(locs)
    self._quants = quants
    self._nquants = quants.size
    self._locs = locs_2d
    self._pdf_constructor_name = str(constructor_name)
    self._pdf_constructor = None
    self._instantiate_pdf_constructor()

    kwargs["shape"] = locs.shape[:-1]
    super().__init__(*args, **kwargs)

    self._addobjdata("locs", self._locs)
    self._addmetadata("quants", self._quants)
    self._addmetadata("pdf_constructor_name", self._pdf_constructor_name)
    self._addmetadata("check_input", self._check_input)
'''), ("quant_gen._instantiate_pdf_constructor", '''
def _instantiate_pdf_constructor(self):
    constructor_class = PDF_CONSTRUCTORS[self._pdf_constructor_name]
    self._pdf_constructor = constructor_class(self._quants, self._locs)
'''))
R("q_setter", "quant_pdf.py", ("quant_gen.pdf_constructor_name!", '''
@pdf_constructor_name.setter
def pdf_constructor_name(self, value: str):
    if value not in PDF_CONSTRUCTORS.keys():
        allowed = list(PDF_CONSTRUCTORS)
        raise ValueError(f"Unknown interpolator provided: '{value}'. Allowed interpolators are {allowed}")
    if value is not self._pdf_constructor_name:
        self._pdf_constructor_name = value
        self._instantiate_pdf_constructor()
        self._addmetadata("pdf_constructor_name", value)
    else:
        logging.warning("Already using interpolator: '%s'.", value)
'''))
R("q_pdf", "quant_pdf.py", ("quant_gen._pdf", '''
def _pdf(self, x, *args):
    x, row = np.broadcast_arrays(x, args[0])
    x = np.ravel(x)
    row = np.ravel(row)
    yvals = np.zeros(x.shape)
    for irow in np.unique(row):
        mask = row == irow
        vals = self._pdf_constructor.construct_pdf(x[mask], np.array([[irow]]))
        yvals[mask] = np.ravel(vals)
    return yvals
'''))
R("q_eval", "quant_pdf.py", ("quant_gen._cdf", '''
def _cdf(self, x, row):
    # pylint: disable=arguments-differ
    options = dict(bounds_error=False, fill_value=(0.0, 1), kind="quadratic")
    return interpolate_multi_x_y(x, row, self._locs, self._quants, **options).ravel()
'''), ("quant_gen._ppf", '''
def _ppf(self, x, row):
    # pylint: disable=arguments-differ
    options = {"bounds_error": False, "kind": "quadratic", "fill_value": (self._xmin, self._xmax)}
    return interpolate_x_multi_y(x, row, self._quants, self._locs, **options).ravel()
'''), ("quant_gen.plot_native", '''
@classmethod
def plot_native(cls, pdf, **kwargs):
    """Plot the PDF in a way that is particular to this type of distibution"""
    axes, (lo, hi), kw = get_axes_and_xlims(**kwargs)
    npts = kw.pop("npts", 101)
    xvals = np.linspace(lo, hi, npts)
    dist = pdf.dist
    quantiles = (np.squeeze(dist.quants), np.squeeze(dist.locs[pdf.kwds["row"]]))
    return plot_pdf_quantiles_on_axes(axes, xvals, np.squeeze(pdf.pdf(xvals)), quantiles=quantiles, **kw)
'''))

# ---------------------------------------------------------------- mixmod
R("m_init", "mixmod_pdf.py", ("mixmod_gen.__init__", '''
def __init__(self, means, stds, weights, *args, **kwargs):
    self._scipy_version_warning()
    kwargs["shape"] = means.shape[:-1]
    self._ncomps = means.shape[-1]
    self._means, self._stds, self._weights = (
        reshape_to_pdf_size(vals, -1) for vals in (means, stds, weights)
    )
    super().__init__(*args, **kwargs)
    if (self._weights < 0).any():
        raise ValueError("All weights need to be larger than zero")
    self._weights = self._weights / np.sum(self._weights, axis=1, keepdims=True)
    self._addobjdata("means", self._means)
    self._addobjdata("stds", self._stds)
    self._addobjdata("weights", self._weights)
'''))
R("m_eval", "mixmod_pdf.py", ("mixmod_gen._pdf", '''
def _components(self, row):
    """The weights of the components of the given rows, and their distributions"""
    weights, means, stds = (
        vals[row].swapaxes(-2, -1) for vals in (self._weights, self._means, self._stds)
    )
    return weights, sps.norm(loc=means, scale=stds)

def _pdf(self, x, row):
    # pylint: disable=arguments-differ
    if np.ndim(x) > 1:  # pragma: no cover
        x = np.expand_dims(x, -2)
    weights, components = self._components(row)
    return np.sum(weights * components.pdf(x), axis=0)
'''), ("mixmod_gen._cdf", '''
def _cdf(self, x, row):
    # pylint: disable=arguments-differ
    if np.ndim(x) > 1:  # pragma: no cover
        x = np.expand_dims(x, -2)
    weights, components = self._components(row)
    return np.sum(weights * components.cdf(x), axis=0)
'''))
R("m_ppf", "mixmod_pdf.py", ("mixmod_gen._ppf", '''
def _ppf(self, x, row):
    # pylint: disable=arguments-differ
    spread = 6 * self._stds
    limits = (np.min(self._means - spread), np.max(self._means + spread))
    grid = np.linspace(*limits, 201)
    rows, inverse = np.unique(row, return_inverse=True)
    inverse = inverse.reshape(np.shape(row))
    cdf_vals = self.cdf(grid, rows[:, np.newaxis])
    vals = interpolate_multi_x_y(x, inverse, cdf_vals, grid, bounds_error=False, fill_value=limits)
    return vals.ravel()
'''), ("mixmod_gen.get_allocation_kwds", '''
@classmethod
def get_allocation_kwds(cls, npdf, **kwargs):
    if "means" not in kwargs:  # pragma: no cover
        raise ValueError("required argument means not included in kwargs")
    column = ((npdf, np.shape(kwargs["means"])[-1]), "f4")
    return dict(means=column, stds=column, weights=column)
'''))

# ---------------------------------------------------------------- sparse
R("s_init", "sparse_pdf.py", ("sparse_gen.__init__", '''
def __init__(self, xvals, mu, sig, dims, sparse_indices, *args, **kwargs):  # pylint: disable=too-many-arguments
    self._cut = kwargs.pop("cut", 1.0e-5)
    self._xvals = xvals
    self.mu, self.sig, self.dims = mu, sig, dims
    self.sparse_indices = sparse_indices
    yvals = self._decode_yvals()
    kwargs.setdefault("xvals", xvals)
    kwargs.setdefault("yvals", yvals)
    super().__init__(*args, **kwargs)

    self._clearobjdata()
    self._addmetadata("xvals", self._xvals)
    self._addmetadata("mu", self.mu)
    self._addmetadata("sig", self.sig)
    self._addmetadata("dims", self.dims)
    self._addmetadata("cut", self._cut)
    self._addobjdata("sparse_indices", self.sparse_indices)

def _decode_yvals(self):
    """The normalized pdf values on the grid, one row per object"""
    meta = dict(xvals=self._xvals, mu=self.mu, sig=self.sig, dims=self.dims)
    basis = sparse_rep.create_basis(meta, cut=self._cut)
    basis_indices, weights = sparse_rep.decode_sparse_indices(self.sparse_indices)
    y = (basis[:, basis_indices] * weights).sum(axis=-1)
    return (y / sciint.trapezoid(y.T, self._xvals)).T
'''))
R("s_ctor", "sparse_pdf.py", ("sparse_gen._updated_ctor_param", '''
def _updated_ctor_param(self):
    """
    Add the two constructor's arguments for the Factory
    """
    dct = super()._updated_ctor_param()
    dct.update(xvals=self._xvals, mu=self.mu, sig=self.sig, dims=self.dims, cut=self._cut)
    dct["sparse_indices"] = self.sparse_indices
    return dct
'''), ("sparse_gen.get_allocation_kwds", '''
@classmethod
def get_allocation_kwds(cls, npdf, **kwargs):
    if "dims" in kwargs:
        dims = np.ravel(np.array(kwargs["dims"]))
        return dict(sparse_indices=((npdf, dims[4]), "i8"))
    raise ValueError("required argument dims not in kwargs")  # pragma: no cover
'''))
R("s_basis", "sparse_rep.py", ("create_voigt_basis", '''
def _voigt_column(x, sigma, gamma, cut):
    """One normalized column of the basis"""
    profile = voigt_profile(x, sigma, gamma)
    profile = np.where(profile >= cut, profile, 0.0)
    return profile / sla.norm(profile)


def create_voigt_basis(xvals, mu, Nmu, sigma, Nsigma, Nv, cut=1.0e-5):  # pylint: disable=too-many-arguments
    means = np.linspace(mu[0], mu[1], Nmu)
    sig = np.linspace(sigma[0], sigma[1], Nsigma)
    gamma = np.linspace(0, 0.5, Nv)
    A = np.zeros((len(xvals), Nmu * Nsigma * Nv))
    for i in range(Nmu):
        for j in range(Nsigma):
            for k in range(Nv):
                A[:, (i * Nsigma + j) * Nv + k] = _voigt_column(xvals - means[i], sig[j], gamma[k], cut)
    return A
'''))
R("s_create_basis", "sparse_rep.py", ("create_basis", '''
def create_basis(metadata, cut=1.0e-5):
    """create the Voigt basis matrix out of a metadata dictionary"""
    n_mu, n_sigma, n_v = metadata["dims"][:3]
    return create_voigt_basis(
        metadata["xvals"], metadata["mu"], n_mu, metadata["sig"], n_sigma, n_v, cut=cut
    )
'''), ("decode_sparse_indices", '''
def decode_sparse_indices(indices):
    """decode sparse indices into basis indices and weigth array"""
    Ncoef = 32001
    decoded = np.array([get_N(index) for index in indices])
    weights = decoded[:, 0, :] * (1.0 / (Ncoef - 1))
    weights[:, 0] = 1.0
    return decoded[:, 1, :], weights
'''), ("get_N", '''
def get_N(longN):
    """Extract coefficients fro the 32bits integer"""
    Ncoef = longN >> 16
    Nbase = longN & 0xFFFF
    return Ncoef, Nbase
'''))
R("s_shapes", "sparse_rep.py", ("indices2shapes", '''
def indices2shapes(sparse_indices, meta):
    Nmu, Nsigma, Nv, Ncoef = meta["dims"][0], meta["dims"][1], meta["dims"][2], meta["dims"][3]
    mu, sigma = meta["mu"], meta["sig"]
    per_mu = Nsigma * Nv

    sp_ind = np.array(list(map(get_N, sparse_indices)))
    vals = sp_ind[:, 0, :] * (1.0 / (Ncoef - 1))
    vals[:, 0] = 1.0

    index = sp_ind[:, 1, :]
    rest = index % per_mu
    means = np.linspace(mu[0], mu[1], Nmu)[np.array(index / per_mu, int)]
    sigmas = np.linspace(sigma[0], sigma[1], Nsigma)[np.array(rest / Nv, int)]
    gammas = np.linspace(0, 0.5, Nv)[np.array(rest % Nv, int)]
    return vals, means, sigmas, gammas
'''))
R("s_from", "sparse_rep.py", ("pdf_from_sparse", '''
def pdf_from_sparse(sparse_indices, A, xvals, cut=1.0e-5):
    """return the array of evaluations at xvals from the sparse indices"""
    indices, weights = decode_sparse_indices(sparse_indices)
    pdf_y = np.sum(A[:, indices] * weights, axis=-1)
    pdf_y = np.where(pdf_y < cut, 0.0, pdf_y)
    return pdf_y / sciint.trapezoid(pdf_y.T, xvals)
'''), ("shapes2pdf", '''
def shapes2pdf(wa, ma, sa, ga, meta, cut=1.0e-5):  # pylint: disable=too-many-arguments
    """return a pdf evaluated at the meta['xvals'] values for the
    given set of Voigt parameters"""
    x = meta["xvals"]
    pdf = np.zeros_like(x)
    for weight, mean, sigma, gamma in zip(wa, ma, sa, ga):
        profile = voigt_profile(x - mean, sigma, gamma)
        profile = np.where(profile >= cut, profile, 0.0)
        pdf = pdf + weight * profile / sla.norm(profile)
    pdf = np.where(pdf >= cut, pdf, 0.0)
    norm = sciint.trapezoid(pdf, x)
    return pdf / norm
'''))

# ---------------------------------------------------------------- spline
R("sp_build", "spline_pdf.py", ("build_splines", '''
def build_splines(xvals, yvals):
    """
    Build a set of 1D spline representations
    """
    reps = [splrep(xrow, yrow) for xrow, yrow in zip(xvals, yvals)]
    knots, coeffs, orders = zip(*reps)
    return np.vstack(knots), np.vstack(coeffs), np.vstack(orders)
'''))
R("sp_build2", "spline_pdf.py", ("build_splines", '''
def build_splines(xvals, yvals):
    """
    Build a set of 1D spline representations
    """
    reps = [splrep(xvals[i], yvals[i]) for i in range(len(xvals))]
    return tuple(np.vstack([rep[part] for rep in reps]) for part in range(3))
'''))
R("sp_eval", "spline_pdf.py", ("spline_gen._pdf", '''
def _tck(self, irow):
    """The spline representation of one distribution"""
    return self._splx[irow], self._sply[irow], self._spln[irow].item()

def _pdf(self, x, row):
    # pylint: disable=arguments-differ
    with errstate(all="ignore"):
        vv = np.vectorize(lambda xv, irow: splev(xv, self._tck(irow)))
    return vv(x, row).ravel()
'''), ("spline_gen._cdf", '''
def _cdf(self, x, row):
    # pylint: disable=arguments-differ
    xmin = self._xmin

    def integral(xv, irow):
        return splint(xmin, xv, self._tck(irow))

    with errstate(all="ignore"):
        vectorized = np.vectorize(integral)
    return np.ravel(vectorized(x, row))
'''))
R("sp_init", "spline_pdf.py", ("spline_gen.__init__", '''
def __init__(self, *args, **kwargs):
    splx, sply, spln = (kwargs.pop(name, None) for name in ("splx", "sply", "spln"))
    if splx is None:  # pragma: no cover
        raise ValueError("splx must be provided")
    if splx.shape != sply.shape:  # pragma: no cover
        raise ValueError("Shape of xvals (%s) != shape of yvals (%s)" % (splx.shape, sply.shape))
    kwargs["shape"] = splx.shape[:-1]
    self._splx = reshape_to_pdf_size(splx, -1)
    self._sply = reshape_to_pdf_size(sply, -1)
    self._spln = reshape_to_pdf_size(spln, -1)
    self._xmin = splx.min()
    self._xmax = splx.max()
    super().__init__(*args, **kwargs)
    self._addobjdata("spln", self._spln)
    self._addobjdata("sply", self._sply)
    self._addobjdata("splx", self._splx)
'''))
R("sp_norm", "spline_pdf.py", ("normalize_spline", '''
def normalize_spline(xvals, yvals, limits, **kwargs):
    """
    Normalize a set of 1D interpolators
    """
    lower, upper = limits[0], limits[1]

    def row_integral(irow):
        return quad(lambda xv: splev(xv, splrep(xvals[irow], yvals[irow])), lower, upper, **kwargs)[0]

    vectorized = np.vectorize(row_integral)
    nrows = xvals.shape[0]
    with errstate(all="ignore"):
        integrals = vectorized(np.arange(nrows))
    return yvals / integrals[:, None]
'''))
R("sp_create", "spline_pdf.py", ("spline_gen.create_from_xy_vals", '''
@classmethod
def create_from_xy_vals(cls, xvals, yvals, **kwargs):
    splines = spline_gen.build_normed_splines(xvals, yvals, **kwargs)
    gen_obj = cls(**dict(zip(("splx", "sply", "spln"), splines)))
    return gen_obj(**kwargs)
'''), ("spline_gen.create_from_samples", '''
@classmethod
def create_from_samples(cls, xvals, samples, **kwargs):
    kwargs.pop("yvals", None)
    nrows = samples.shape[0]
    yvals = evaluate_kdes(xvals, build_kdes(samples))
    return cls.create_from_xy_vals(np.ones(nrows)[:, None] * xvals, yvals, **kwargs)
'''))

# ---------------------------------------------------------------- packed
R("p_unpack", "packed_interp_pdf.py", ("packed_interp_gen._unpack", '''
def _unpack(self):
    packing = PackingType(self._packing_type)
    options = dict(row_max=self._ymax, log_floor=self._log_floor)
    self._yvals = unpack_array(packing, self._ypacked, **options)
'''), ("packed_interp_gen._compute_ycumul", '''
def _compute_ycumul(self):
    if self._yvals is None:
        self._unpack()
    yvals = self._yvals
    dx = self._xvals[1:] - self._xvals[:-1]
    first = 0.5 * yvals[:, 0] * dx[0]
    ycumul = np.ndarray(np.array(yvals.shape))
    ycumul[:, 0] = first
    ycumul[:, 1:] = np.cumsum(0.5 * dx * (yvals[:, 1:] + yvals[:, :-1]), axis=1)
    self._ycumul = ycumul
'''))
R("p_init", "packed_interp_pdf.py", ("packed_interp_gen.__init__", '''
def __init__(
    self,
    xvals,
    ypacked,
    ymax,
    *args,
    packing_type=PackingType.linear_from_rowmax,
    log_floor=-3.0,
    **kwargs,
):
    npts = np.size(xvals)
    shape = np.shape(ypacked)
    if npts != shape[-1]:  # pragma: no cover
        raise ValueError("Shape of xbins in xvals (%s) != shape of xbins in yvals (%s)" % (npts, shape[-1]))
    self._packing_type = packing_type.value if isinstance(packing_type, PackingType) else packing_type
    self._log_floor = log_floor
    self._xvals = np.asarray(xvals)
    self._xmin = self._xvals[0]
    self._xmax = self._xvals[-1]
    self._ypacked = reshape_to_pdf_size(ypacked, -1)
    self._ymax = reshape_to_pdf_size(ymax, -1)
    self._yvals = None
    self._ycumul = None
    self._check_input = kwargs.pop("check_input", True)
    if self._check_input:
        self._compute_ycumul()
        norm = self._ycumul[:, -1]
        self._yvals = (self._yvals.T / norm).T
        self._ycumul = (self._ycumul.T / norm).T
    kwargs["shape"] = shape[:-1]
    super().__init__(*args, **kwargs)
    self._addmetadata("xvals", self._xvals)
    self._addmetadata("packing_type", self._packing_type)
    self._addmetadata("log_floor", self._log_floor)
    self._addmetadata("check_input", self._check_input)
    self._addobjdata("ypacked", self._ypacked)
    self._addobjdata("ymax", self._ymax)
'''))
R("p_utils", "packing_utils.py", ("linear_pack_from_rowmax", '''
def _row_max(input_array):
    """The maximum of each row, as a column"""
    return input_array.max(axis=1)[:, np.newaxis]


def linear_pack_from_rowmax(input_array):
    """Pack an array into 8bit unsigned integers, using the maximum of each row as a refrence"""
    row_max = _row_max(input_array)
    scaled = 255 * input_array / row_max
    return np.round(scaled).astype(np.uint8), row_max
'''), ("log_pack_from_rowmax", '''
def log_pack_from_rowmax(input_array, log_floor=-3.0):
    """Pack an array into 8bit unsigned integers, using the maximum of each row as a refrence"""
    depth = -1.0 * log_floor
    epsilon = np.power(10.0, 3 * log_floor)
    row_max = _row_max(input_array)
    logs = np.log10((input_array + epsilon) / row_max)
    scaled = np.round(255 * (logs + depth) / depth)
    return np.clip(scaled, 0.0, 255.0).astype(np.uint8), row_max
'''))
R("p_utils2", "packing_utils.py", ("pack_array", '''
def pack_array(packing_type, input_array, **kwargs):
    """Pack an array into 8bit unsigned integers"""
    if packing_type == PackingType.log_from_rowmax:
        log_floor = kwargs.get("log_floor", -3)
        return log_pack_from_rowmax(input_array, log_floor)
    if packing_type == PackingType.linear_from_rowmax:
        return linear_pack_from_rowmax(input_array)
    raise ValueError(
        f"Packing for packing type {packing_type} is not implemetned"
    )  # pragma: no cover
'''), ("unpack_array", '''
def unpack_array(packing_type, packed_array, **kwargs):
    """Unpack an array from 8bit unsigned integers"""
    row_max = kwargs.get("row_max")
    if packing_type == PackingType.linear_from_rowmax:
        unpacked = linear_unpack_from_rowmax(packed_array, row_max)
    elif packing_type == PackingType.log_from_rowmax:
        unpacked = log_unpack_from_rowmax(packed_array, row_max, kwargs.get("log_floor", -3))
    else:
        raise ValueError(
            f"Unpacking for packing type {packing_type} is not implemetned"
        )  # pragma: no cover
    return unpacked
'''), ("log_unpack_from_rowmax", '''
def log_unpack_from_rowmax(packed_array, row_max, log_floor=-3.0):
    """Unpack an array into 8bit unsigned integers, using the maximum of each row as a refrence"""
    exponent = -log_floor * (packed_array / 255.0 - 1.0)
    return np.where(packed_array == 0, 0.0, np.power(10, exponent)) * row_max
'''))

# ---------------------------------------------------------------- utils
R("u_bins", "utils.py", ("get_bin_indices", '''
def get_bin_indices(bins, x):
    widths = bin_widths(bins)
    n_bins = np.size(bins) - 1
    xshape = np.shape(x)
    if np.allclose(widths, widths[0]):
        idx = np.floor((x - bins[0]) / widths[0]).astype(int)
    else:
        idx = np.searchsorted(bins, x, side="left") - 1
    idx = np.atleast_1d(idx)
    mask = (idx >= 0) & (idx < n_bins)
    idx = np.where(mask, idx, 0)
    return idx.reshape(xshape).clip(0, n_bins - 1), mask.reshape(xshape)
'''))
R("u_norm", "utils.py", ("normalize_interp1d", '''
def normalize_interp1d(xvals, yvals):
    widths = np.diff(xvals)
    integrals = (widths * yvals[:, 1:]).sum(axis=1)
    return yvals / integrals[:, np.newaxis]
'''), ("edge_to_center", '''
def edge_to_center(edges):
    """Return the centers of a set of bins given the edges"""
    return (edges[:-1] + edges[1:]) / 2
'''), ("bin_widths", '''
def bin_widths(edges):
    """Return the widths of a set of bins given the edges"""
    return np.diff(edges)
'''))
R("u_case", "utils.py", ("get_eval_case", '''
def _points_per_row(x, row):
    """Number of points at which each of the rows is evaluated"""
    if np.size(x) != np.size(row):
        return np.size(x) // np.size(row)
    changes = np.flatnonzero(np.diff(row))
    if np.size(changes) == 0:
        return np.size(row)
    return changes[0] + 1


def get_eval_case(x, row):
    nd_x = np.ndim(x)
    nd_row = np.ndim(row)
    if nd_x >= 2:
        if nd_row == 1:  # pragma: no cover
            raise ValueError(
                "Dimension mismatch: x(%s), row(%s)" % (np.shape(x), np.shape(row))
            )
        return CASE_2D, x, row
    if nd_row >= 2:
        return CASE_PRODUCT, x, row
    if 1 in (np.size(x), np.size(row)):
        return CASE_FLAT, x, row
    nx = _points_per_row(x, row)
    if nx == 0 or np.size(x) % nx != 0 or np.size(row) * nx % np.size(x) != 0:
        return CASE_FLAT, x, row
    xx = np.reshape(x, (-1, nx))
    rr = np.reshape(row, (np.shape(xx)[0], -1))
    if np.all(xx == xx[0]) and np.all(rr == rr[:, :1]):
        return CASE_FACTOR, xx[0], rr[:, :1]
    return CASE_FLAT, x, row
'''))
R("u_dispatch", "utils.py", ("interpolate_x_multi_y", '''
def interpolate_x_multi_y(x, row, xvals, yvals, **kwargs):
    """
    Interpolate a set of values
    """
    case_idx, xx, rr = get_eval_case(x, row)
    if case_idx == CASE_2D:
        func = interpolate_x_multi_y_2d
    elif case_idx == CASE_FLAT:
        func = interpolate_x_multi_y_flat
    else:
        func = interpolate_x_multi_y_product
    return func(xx, rr, xvals, yvals, **kwargs)
'''), ("evaluate_hist_x_multi_y", '''
def evaluate_hist_x_multi_y(x, row, bins, vals, derivs=None):
    """
    Evaluate a set of values from histograms
    """
    case_idx, xx, rr = get_eval_case(x, row)
    evaluators = {
        CASE_PRODUCT: evaluate_hist_x_multi_y_product,
        CASE_FACTOR: evaluate_hist_x_multi_y_product,
        CASE_2D: evaluate_hist_x_multi_y_2d,
        CASE_FLAT: evaluate_hist_x_multi_y_flat,
    }
    return evaluators[case_idx](xx, rr, bins, vals, derivs)
'''))
R("u_flat", "utils.py", ("evaluate_hist_x_multi_y_flat", '''
def evaluate_hist_x_multi_y_flat(x, row, bins, vals, derivs=None):  # pragma: no cover
    """
    Evaluate a set of values from histograms
    """
    assert np.ndim(x) < 2 and np.ndim(row) < 2
    idx, mask = get_bin_indices(bins, x)
    deltas = np.zeros(idx.shape) if derivs is None else x - bins[idx]

    def bin_value(idxv, maskv, rv, delta):
        value = vals[rv, idxv]
        if derivs is not None:
            value = value + delta * derivs[rv, idxv]
        return np.where(maskv, value, 0)

    return np.vectorize(bin_value)(idx, mask, row, deltas)
'''), ("evaluate_hist_x_multi_y_product", '''
def evaluate_hist_x_multi_y_product(
    x, row, bins, vals, derivs=None
):  # pragma: no cover
    """
    Evaluate a set of values from histograms
    """
    idx, in_range = get_bin_indices(bins, x)
    rows = np.squeeze(row)
    mask = np.ones(row.shape) * in_range
    out = vals[:, idx][rows]
    if derivs is not None:
        out = out + (x - bins[idx]) * derivs[:, idx][rows]
    return np.where(mask, out, 0)
'''))
R("u_multi", "utils.py", ("evaluate_hist_multi_x_multi_y_2d", '''
def evaluate_hist_multi_x_multi_y_2d(
    x, row, bins, vals, derivs=None
):  # pragma: no cover
    """
    Evaluate a set of values from histograms
    """
    nx = np.shape(x)[-1]

    def evaluate_row(rv, xv):
        edges = bins[rv].flatten()
        idx, mask = get_bin_indices(edges, xv)
        values = np.squeeze(vals[rv])[idx]
        if derivs is not None:
            values = values + (xv - edges[idx]) * np.squeeze(derivs[rv])[idx]
        return np.where(mask, values, 0).flatten()

    signature = "(1),(%i)->(%i)" % (nx, nx)
    return np.vectorize(evaluate_row, signature=signature)(row, x)
'''))
R("u_profile", "utils.py", ("profile", '''
def profile(x_data, y_data, x_bins, std=True):
    """Make a 'profile' plot"""
    nbins = x_bins.size - 1
    idx, mask = get_bin_indices(x_bins, x_data)
    count = np.zeros(nbins)
    vals = np.full(nbins, np.nan)
    errs = np.full(nbins, np.nan)
    for i in range(nbins):
        in_bin = mask * (idx == i)
        count[i] = in_bin.sum()
        if count[i] > 0:
            selected = y_data[in_bin]
            vals[i] = selected.mean()
            errs[i] = selected.std()
    if std:
        return vals, errs
    return vals, errs / np.sqrt(count)
'''))
R("u_reshape", "utils.py", ("reshape_to_pdf_size", '''
def reshape_to_pdf_size(vals, split_dim):
    """Reshape an array to match the number of PDFs in a distribution"""
    shape = np.shape(vals)
    pdf_shape, per_pdf = shape[:split_dim], shape[split_dim:]
    npdf = np.prod(pdf_shape).astype(int)
    return np.reshape(vals, np.hstack([npdf, per_pdf]))
'''), ("reshape_to_pdf_shape", '''
def reshape_to_pdf_shape(vals, pdf_shape, per_pdf):
    """Reshape an array to match the shape of PDFs in a distribution"""
    return np.reshape(vals, np.hstack([pdf_shape, per_pdf]))
'''))

# ---------------------------------------------------------------- pdf_gen
R("g_rows", "pdf_gen.py", ("rv_frozen_rows.__init__", '''
def __init__(self, dist, shape, *args, **kwds):
    """C'tor"""
    npdf = np.prod(shape).astype(int)
    self._shape = shape
    self._npdf = npdf
    self._ndim = np.size(shape)
    if npdf is not None and "row" not in kwds:
        kwds["row"] = np.arange(npdf).reshape(shape)[..., np.newaxis]
    super().__init__(dist, *args, **kwds)
'''), ("rv_frozen_rows.histogramize", '''
def histogramize(self, bins):
    """
    Computes integrated histogram bin values for all PDFs
    """
    nbins = bins.size - 1
    bin_vals = np.diff(reshape_to_pdf_size(self.cdf(bins), -1), axis=1)
    return bins, reshape_to_pdf_shape(bin_vals, self._shape, nbins)
'''))
R("g_argcheck", "pdf_gen.py", ("Pdf_rows_gen._argcheck", '''
def _argcheck(self, *args):
    """Default check for correct values on args and keywords."""
    if not args:
        return np.atleast_1d(1)
    row = asarray(args[0])
    return np.atleast_1d(np.logical_and(row >= 0, row < self._npdf))
'''), ("Pdf_rows_gen._rvs", '''
def _rvs(self, *args, size=None, random_state=None):
    # Use basic inverse cdf algorithm for RV generation as default.
    uniforms = random_state.uniform(size=size)
    samples = self._ppf(uniforms, *args)
    return samples if size is None else samples.reshape(size)
'''))
R("g_base", "pdf_gen.py", ("Pdf_gen.create_gen", '''
@classmethod
def create_gen(cls, **kwds):
    """Create and return a `scipy.stats.rv_continuous` object using the
    keyword arguemntets provided"""
    name = kwds.get("name", "dist")
    freeze_kwds = {key: val for key, val in kwds.items() if key != "name"}
    return cls(name=name), freeze_kwds
'''), ("Pdf_gen.create", '''
@classmethod
def create(cls, **kwds):
    """Create and return a `scipy.stats.rv_frozen` object using the
    keyword arguemntets provided"""
    # pylint: disable=not-callable
    gen = cls.create_gen(**kwds)
    return gen[0](**gen[1])
'''), ("Pdf_gen._addclassmetadata", '''
def _addclassmetadata(self, cls):
    self._metadata.update(
        pdf_name=np.array([cls.name.encode()]), pdf_version=np.array([cls.version])
    )
'''))

# ---------------------------------------------------------------- factory
R("f_data", "factory.py", ("Factory._build_data_dict", '''
@staticmethod
def _unwrap(value):
    """Turn a column of the metadata table back to the value it was made from"""
    ndim = np.ndim(value)
    if ndim == 1:
        value = value[0]
    elif ndim > 1:
        value = np.squeeze(value)
        if np.ndim(value) == 0:
            value = value.item()
    return value.decode() if isinstance(value, bytes) else value

@staticmethod
def _build_data_dict(md_table, data_table):
    """Convert the tables to a dictionary that can be used to build an Ensemble"""
    data_dict = {col: Factory._unwrap(val) for col, val in md_table.items()}
    for col, col_data in data_table.items():
        if len(col_data.shape) >= 2:
            data_dict[col] = col_data
        else:  # pragma: no cover
            data_dict[col] = np.expand_dims(col_data, -1)
    return data_dict
'''))
R("f_tables", "factory.py", ("Factory.from_tables", '''
def _lookup(self, pdf_name):
    """The class of that name"""
    if pdf_name not in self:  # pragma: no cover
        raise KeyError("Class nameed %s is not in factory" % pdf_name)
    return self[pdf_name]

def from_tables(self, tables):
    data = self._build_data_dict(tables["meta"], tables["data"])
    the_class = self._lookup(data.pop("pdf_name"))
    reader_convert = the_class.reader_method(data.pop("pdf_version"))
    if reader_convert is not None:  # pragma: no cover
        data = reader_convert(data)
    return Ensemble(the_class.creation_method(None), data=data, ancil=tables.get("ancil"))
'''), ("Factory.create", '''
def create(self, class_name, data, method=None):
    the_class = self._lookup(class_name)
    return Ensemble(the_class.creation_method(method), data)
'''), ("Factory.convert", '''
def convert(self, in_dist, class_name, **kwds):
    options = dict(kwds)
    method = options.pop("method", None)
    extract_func = self._lookup(class_name).extraction_method(method)
    if extract_func is None:  # pragma: no cover
        raise KeyError(
            "Class named %s does not have a extraction_method named %s" % (class_name, method)
        )
    return self.create(class_name, extract_func(in_dist, **options), method)
'''))
R("f_iter", "factory.py", ("Factory.iterator", '''
@staticmethod
def _read_range(group, start, end):
    """Read the rows of all the columns of a group"""
    table = OrderedDict()
    for key, val in group.items():
        table[key] = io.readHdf5DatasetToArray(val, start, end)
    return table

def iterator(self, filename, chunk_size=100_000, rank=0, parallel_size=1):
    extension = os.path.splitext(filename)[1]
    if extension not in [".hdf5"]:  # pragma: no cover
        raise TypeError("Can only use qp.iterator on hdf5 files")

    metadata = io.readHdf5ToDict(filename, "meta")
    pdf_name = metadata.pop("pdf_name")[0].decode()
    metadata.pop("pdf_version")
    if pdf_name not in self:  # pragma: no cover
        raise KeyError("Class nameed %s is not in factory" % pdf_name)
    ctor_func = self[pdf_name].creation_method(None)

    data_group, data_file = io.readHdf5Group(filename, "data")
    try:
        ancil_group, ancil_file = io.readHdf5Group(filename, "ancil")
    except KeyError:  # pragma: no cover
        ancil_group, ancil_file = None, None
    num_rows = io.getGroupInputDataLength(data_group)
    try:
        for start, end in io.data_ranges_by_rank(num_rows, chunk_size, parallel_size, rank):
            data = self._build_data_dict(metadata, self._read_range(data_group, start, end))
            ancil = None if ancil_group is None else self._read_range(ancil_group, start, end)
            yield start, end, Ensemble(ctor_func, data=data, ancil=ancil)
    finally:
        for handle in (data_file, ancil_file):
            if handle is not None:
                handle.close()
'''))
R("f_concat", "factory.py", ("Factory.concatenate", '''
@staticmethod
def concatenate(ensembles):
    if not ensembles:  # pragma: no cover
        return None
    metadata_list = [ens.metadata() for ens in ensembles]
    if not compare_dicts(metadata_list):  # pragma: no cover
        raise ValueError("Metadata does not match")
    data = concatenate_dicts([ens.objdata() for ens in ensembles])
    ancils = [ens.ancil for ens in ensembles]
    ancil = None
    if all(table is not None for table in ancils):  # pragma: no cover
        ancil = concatenate_dicts(ancils)
    shared = {k: np.squeeze(v) for k, v in metadata_list[0].items() if k not in ("pdf_name", "pdf_version")}
    data.update(shared)
    return Ensemble(ensembles[0].gen_obj.create, data, ancil)
'''))
R("f_dict", "factory.py", ("Factory.write_dict", '''
@staticmethod
def write_dict(filename, ensemble_dict, **kwargs):
    if not all(isinstance(val, Ensemble) for val in ensemble_dict.values()):
        raise ValueError("All values in ensemble_dict must be qp.Ensemble") # pragma: no cover
    tables = {key: val.build_tables() for key, val in ensemble_dict.items()}
    io.writeDictsToHdf5(tables, filename, **kwargs)
'''), ("Factory.read_dict", '''
@staticmethod
def _read_group(filename, path):
    """Read one group of a file"""
    group_object, infp = io.readHdf5Group(filename, path)
    try:
        return io.readHdf5GroupToDict(group_object)
    finally:
        infp.close()

@staticmethod
def read_dict(filename):
    """Assume that filename is an HDF5 file, containing multiple qp.Ensembles
    that have been stored at nparrays."""
    results = {}
    for name in io.readHdf5GroupNames(filename):
        tables = {
            key: Factory._read_group(filename, f"{name}/{key}")
            for key in io.readHdf5GroupNames(filename, name)
        }
        results[name] = from_tables(tables)
    return results
'''))
R("f_misc", "factory.py", ("Factory.read", '''
def read(self, filename):
    options = dict(keys=None, allow_missing_keys=False)
    if os.path.splitext(filename)[1] == ".pq":
        options = dict(keys=["data", "meta", "ancil"], allow_missing_keys=True)
    return self.from_tables(io.read(filename, NUMPY_DICT, **options))
'''), ("Factory.data_length", '''
def data_length(self, filename):
    group, infp = io.readHdf5Group(filename, "data")
    try:
        return io.getGroupInputDataLength(group)
    finally:
        infp.close()
'''), ("Factory.is_qp_file", '''
def is_qp_file(self, filename):
    try:
        names = io.readNative(filename, keys=["meta"])["meta"]["pdf_name"]
        found = len(names) > 0
    except Exception as msg:
        # Any exception means it isn't a qp file
        print(f"This is not a qp file because {msg}")
        found = False
    return found
'''), ("Factory._load_scipy_classes", '''
def _load_scipy_classes(self):
    """Build qp classes from all the scipy classes"""
    for name in sps.__all__:
        dist = getattr(sps, name)
        if not isinstance(dist, sps.rv_continuous):
            continue
        self._make_scipy_wrapped_class(name, type(dist))
'''))
R("f_add", "factory.py", ("Factory.add_class", '''
def add_class(self, the_class):
    if not hasattr(the_class, "name"):  # pragma: no cover
        raise AttributeError(
            "Can not add class %s to factory because it doesn't have a name attribute" % the_class
        )
    name = the_class.name
    if name in self:  # pragma: no cover
        raise KeyError("Class nameed %s is already in factory, point to %s" % (name, self[name]))
    the_class.add_method_dicts()
    the_class.add_mappings()
    setattr(self, f"{name}_gen", the_class)
    setattr(self, name, the_class.create)
    self[name] = the_class
'''))

# ---------------------------------------------------------------- ensemble
R("e_getitem", "ensemble.py", ("Ensemble.__getitem__", '''
def _shared_data(self):
    """The constructor arguments which are the same for all the PDFs"""
    return {k: np.squeeze(v) for k, v in self.metadata().items() if k not in ["pdf_name", "pdf_version"]}

def __getitem__(self, key):
    data = self._shared_data()
    for k, v in slice_dict(self.objdata(), key).items():
        data[k] = v if np.ndim(v) > 1 else np.expand_dims(v, 0)
    ancil = None
    if self._ancil is not None:
        ancil = slice_dict(self._ancil, key)
    return Ensemble(self._gen_obj.create, data=data, ancil=ancil)
'''), ("Ensemble.update_objdata", '''
def update_objdata(self, data, ancil=None):
    new_data = self._shared_data()
    new_data.update(self.objdata())
    new_data.update(data)
    # gen_func may expect the arguments of another creation method
    self._update_frozen(self._gen_obj.create(**new_data), ancil)
'''))
R("e_alloc", "ensemble.py", ("Ensemble._get_allocation_kwds", '''
def _get_allocation_kwds(self, npdf):
    """Get the keywords necessary to allocate the columns"""
    tables = self.build_tables()
    tables.pop("meta")
    return {
        group: {key: ([npdf] + list(array.shape[1:]), array.dtype) for key, array in table.items()}
        for group, table in tables.items()
    }
'''), ("Ensemble.writeHdf5Chunk", '''
def writeHdf5Chunk(self, fname, start, end):
    tables = {group: table for group, table in self.build_tables().items() if group != "meta"}
    io.writeDictToHdf5Chunk(fname, tables, start, end)
'''))
R("e_grid", "ensemble.py", ("Ensemble.gridded", '''
def gridded(self, grid):
    cached = self._gridded
    if cached is not None and np.array_equal(cached[0], grid):
        return cached
    self._gridded = (np.array(grid), self.pdf(grid))
    return self._gridded
'''), ("Ensemble.mode", '''
def mode(self, grid):
    xvals, yvals = self.gridded(grid)
    peaks = xvals[yvals.argmax(axis=-1)]
    return peaks[..., np.newaxis]
'''), ("Ensemble.moment_partial", '''
def moment_partial(self, n, limits, dx=0.01):
    """Moment between the limits"""
    span = limits[-1] - limits[0]
    npts = int(span / dx)
    grid = np.linspace(limits[0], limits[1], npts)
    _, pdf_vals = self.gridded(grid)
    return quick_moment(pdf_vals, grid**n, span / (npts - 1))
'''))
R("e_ancil", "ensemble.py", ("Ensemble.add_to_ancil", '''
def add_to_ancil(self, to_add):  # pragma: no cover
    check_array_shapes(to_add, self.npdf)
    columns = {}
    if self._ancil is not None:
        columns.update(self._ancil)
    columns.update(to_add)
    self._ancil = columns
'''), ("Ensemble.append", '''
def append(self, other_ens):
    if not compare_dicts([self.metadata(), other_ens.metadata()]):  # pragma: no cover
        raise KeyError("Metadata does not match, can not append")
    full_ancil = None
    if not (self._ancil is None or other_ens.ancil is None):  # pragma: no cover
        full_ancil = concatenate_dicts([self.ancil, other_ens.ancil])
    self.update_objdata(concatenate_dicts([self.objdata(), other_ens.objdata()]), full_ancil)
'''), ("Ensemble.objdata", '''
def objdata(self):
    """Return the object data for this ensemble"""
    columns = {name: vals for name, vals in self._frozen.kwds.items() if name != "row"}
    columns.update(self._gen_obj.objdata)
    return columns
'''))

# ---------------------------------------------------------------- dict_utils
R("d_utils", "dict_utils.py", ("get_val_or_default", '''
def get_val_or_default(in_dict, key):
    for candidate in (key, None):
        if candidate in in_dict:
            return in_dict[candidate]
    return None
'''), ("set_val_or_default", '''
def set_val_or_default(in_dict, key, val):
    if key not in in_dict:
        in_dict[key] = val
    return in_dict[key]
'''), ("compare_two_dicts", '''
def _same_value(v1, v2):
    """Compare two values, which may be arrays"""
    try:
        return not v1 != v2
    except ValueError:
        return np.allclose(v1, v2)


def compare_two_dicts(d1, d2):
    """Check that all the items in d1 and d2 match"""
    if d1.keys() != d2.keys():  # pragma: no cover
        return False
    return all(_same_value(v, d2[k]) for k, v in d1.items())
'''))
R("d_concat", "dict_utils.py", ("concatenate_dicts", '''
def concatenate_dicts(in_dicts):
    """Create a new `dict` by concatenate each array in `in_dicts`"""
    out_dict = {}
    if in_dicts:
        check_keys(in_dicts)
        for key in in_dicts[0]:
            out_dict[key] = np.concatenate([in_dict[key] for in_dict in in_dicts])
    return out_dict
'''), ("check_array_shapes", '''
def check_array_shapes(in_dict, npdf):
    """Check that all the arrays in in_dict match the number of pdfs"""
    if in_dict is None:
        return
    for key, val in in_dict.items():
        if npdf == 1 and np.size(val) == 1:  # pragma: no cover
            continue
        length = np.shape(val)[0]
        if length == npdf:
            continue
        raise ValueError(
            "First dimension of array %s does not match npdf: %i != %i" % (key, length, npdf)
        )  # pragma: no cover
'''), ("compare_dicts", '''
def compare_dicts(in_dicts):
    """Check that all the dicts in in_dicts match"""
    return all(compare_two_dicts(in_dicts[0], in_dict) for in_dict in in_dicts[1:])
'''), ("slice_dict", '''
def slice_dict(in_dict, subslice):
    """Create a new `dict` by taking a slice of of every array in a `dict`"""
    out_dict = dict(in_dict)
    for key, val in in_dict.items():
        try:
            out_dict[key] = val[subslice]
        except (KeyError, TypeError):
            pass
    return out_dict
'''))

# ---------------------------------------------------------------- conversions
R("c_hist", "conversion_funcs.py", ("extract_hist_samples", '''
def _bin_counts(samples, bins):
    """Histogram every row of samples"""
    def hist_helper(sample):
        return np.histogram(sample, bins=bins)[0]

    signature = "(%i)->(%i)" % (samples.shape[-1], bins.size - 1)
    return np.vectorize(hist_helper, signature=signature)(samples)


def extract_hist_samples(in_dist, **kwargs):
    bins = kwargs.pop("bins", None)
    if bins is None:  # pragma: no cover
        raise ValueError("To convert using extract_hist_samples you must specify bins")
    size = kwargs.pop("size", 1000)
    random_state = kwargs.pop("random_state", None)
    samples = in_dist.rvs(size=size, random_state=random_state)
    return dict(bins=bins, pdfs=_bin_counts(samples, bins) / bin_widths(bins))
'''), ("extract_samples", '''
def extract_samples(in_dist, **kwargs):
    """Convert using a set of values sampled from the PDF"""
    size = kwargs.get("size", 1000)
    random_state = kwargs.get("random_state")
    samples = in_dist.rvs(size=size, random_state=random_state)
    return dict(samples=samples, xvals=kwargs["xvals"], yvals=None)
'''))
R("c_xy", "conversion_funcs.py", ("extract_xy_vals", '''
def extract_xy_vals(in_dist, **kwargs):
    xvals = kwargs.get("xvals")
    if xvals is None:  # pragma: no cover
        raise ValueError("To convert using extract_xy_vals you must specify xvals")
    yvals = in_dist.pdf(xvals)
    return dict(xvals=np.squeeze(xvals) * np.ones(yvals.shape), yvals=yvals)
'''), ("extract_hist_values", '''
def extract_hist_values(in_dist, **kwargs):
    bins = kwargs.get("bins")
    if bins is None:  # pragma: no cover
        raise ValueError("To convert using extract_hist_samples you must specify bins")
    out_bins, probs = in_dist.histogramize(bins)
    return {"bins": out_bins, "pdfs": probs / bin_widths(out_bins)}
'''), ("extract_mixmod_fit_samples", '''
def _fit_mixture(sample, n_comps, random_state):
    """Fit one set of samples"""
    estimator = mixture.GaussianMixture(n_components=n_comps, random_state=random_state)
    estimator.fit(sample.reshape(-1, 1))
    stdevs = np.sqrt(estimator.covariances_[:, 0, 0])
    return np.vstack([estimator.weights_, estimator.means_[:, 0], stdevs])


def extract_mixmod_fit_samples(in_dist, **kwargs):
    n_comps = kwargs.pop("ncomps", 3)
    n_sample = kwargs.pop("nsamples", 1000)
    random_state = kwargs.pop("random_state", None)
    samples = in_dist.rvs(size=n_sample, random_state=random_state)
    if isinstance(random_state, np.random.Generator):
        random_state = np.random.RandomState(random_state.bit_generator)

    def mixmod_helper(sample):
        return _fit_mixture(sample, n_comps, random_state)

    fit = np.vectorize(mixmod_helper, signature="(%i)->(3,%i)" % (n_sample, n_comps))
    params = fit(samples)
    return dict(means=params[:, 1, :], stds=params[:, 2, :], weights=params[:, 0, :])
'''))

# ---------------------------------------------------------------- metrics
R("x_kld", "metrics/metrics.py", ("calculate_kld", '''
def _gridded_pair(p, q, grid, what):
    """Evaluate two ensembles on a grid"""
    if p.shape != q.shape:
        raise ValueError(f"Cannot calculate {what} between two ensembles with different shapes")
    return p.gridded(grid.grid_values)[1], q.gridded(grid.grid_values)[1]


def calculate_kld(p, q, limits, dx=0.01):
    grid = _calculate_grid_parameters(limits, dx)
    pn, qn = _gridded_pair(p, q, grid, "KLD")
    Dpq = array_metrics.quick_kld(pn, qn, grid.resolution)
    if np.any(Dpq < 0.0):  # pragma: no cover
        print("broken KLD: " + str((Dpq, pn, qn, grid.resolution)))
        Dpq = epsilon * np.ones(Dpq.shape)
    return Dpq
'''), ("calculate_rmse", '''
def calculate_rmse(p, q, limits, dx=0.01):
    grid = _calculate_grid_parameters(limits, dx)
    pe, qe = _gridded_pair(p, q, grid, "RMSE")
    return array_metrics.quick_rmse(pe, qe, grid.cardinality)
'''))
R("x_rbpe", "metrics/metrics.py", ("calculate_rbpe", '''
def calculate_rbpe(p, limits=(np.inf, np.inf)):
    def evaluate_pdf_at_z(z, dist):
        return dist.pdf(z)[0][0]

    rbpes = []
    for n in range(p.npdf):
        dist = p[n]
        if dist.npdf != 1:
            raise ValueError(
                "quick_rbpe only handles Ensembles with a single PDF "
                "for ensembles with more than one PDF, use the qp.metrics.risk_based_point_estimate function."
            )
        lower, upper = (dist.ppf(level)[0][0] for level in (0.01, 0.99))
        pdf_at_z = partial(evaluate_pdf_at_z, dist=dist)
        rbpes.append(array_metrics.quick_rbpe(pdf_at_z, (lower, upper), limits))
    return np.array(rbpes)
'''), ("calculate_outlier_rate", '''
def calculate_outlier_rate(p, lower_limit=0.0001, upper_limit=0.9999):
    """Fraction of outliers in each distribution"""
    try:
        _check_ensemble_is_not_nested(p)
    except ValueError:  #pragma: no cover - unittest coverage for _check_ensemble_is_not_nested is complete
        logging.warning("Each element in the ensemble `p` must be a single distribution.")

    rates = []
    for dist in p:
        below = dist.cdf(lower_limit)
        above = 1.0 - dist.cdf(upper_limit)
        rates.append((below + above)[0][0])
    return np.array(rates)
'''))
R("x_brier", "metrics/brier.py", ("Brier.evaluate", '''
def _row_scores(self):
    """The score of each of the distributions"""
    residuals = self._prediction - self._truth
    return np.sum(residuals**2, axis=self._axis_for_summation)

def _prepare(self):
    self._manipulate_data()
    self._validate_data()

def evaluate(self):
    """Evaluate the Brier score."""
    self._prepare()
    return self._calculate_metric()
'''), ("Brier.accumulate", '''
def accumulate(self):
    self._prepare()
    return self._calculate_metric_for_accumulation()
'''), ("Brier._calculate_metric", '''
def _calculate_metric(self):
    """
    Calculate the Brier metric for the input data.
    """
    return np.mean(self._row_scores())
'''), ("Brier._calculate_metric_for_accumulation", '''
def _calculate_metric_for_accumulation(self):
    return self._row_scores().sum()
'''))
R("x_pit", "metrics/pit.py", ("PIT._gather_pit_samples", '''
@classmethod
def _gather_pit_samples(cls, qp_ens, true_vals):
    cdf_vals = qp_ens.cdf(np.vstack(true_vals))
    pit_samples = np.atleast_1d(np.squeeze(cdf_vals))
    bad = ~np.isfinite(pit_samples)
    pit_samples[bad] = 0
    if np.any(bad):  #pragma: no cover
        logging.warning(
            "Some PIT samples were `NaN`. They have been replacd with 0."
        )
    return pit_samples
'''), ("PIT._produce_output_ensemble", '''
@classmethod
def _produce_output_ensemble(cls, data_quants, eval_grid):
    # Remove duplicates values as well as values outside the range (0,1)
    locs, first = np.unique(data_quants, return_index=True)
    quants = eval_grid[first]
    keep = cls._create_quant_mask(locs)
    data = dict(quants=quants[keep], locs=np.atleast_2d(locs[keep]))
    return qp.Ensemble(qp.quant, data=data)
'''), ("PIT._trim_pit_values", '''
def _trim_pit_values(self, cdf_min, cdf_max):
    """Remove and report any cdf(x) that are outside the min/max range."""
    samples = self._pit_samps
    kept = samples[np.logical_and(samples >= cdf_min, samples <= cdf_max)]
    n_removed = len(samples) - len(kept)
    if n_removed > 0:
        logging.warning("Removed %d PITs from the sample.", n_removed)
    return kept
'''), ("PIT.calculate_pit_meta_metrics", '''
def calculate_pit_meta_metrics(self):
    """Convenience method that will calculate all of the PIT meta metrics and return
    them as a dictionary."""
    return dict(
        ad=self.evaluate_PIT_anderson_ksamp(),
        cvm=self.evaluate_PIT_CvM(),
        ks=self.evaluate_PIT_KS(),
        outlier_rate=self.evaluate_PIT_outlier_rate(),
    )
'''))
R("x_array", "metrics/array_metrics.py", ("quick_kld", '''
def quick_kld(p_eval, q_eval, dx=0.01):
    log_p = safelog(p_eval)
    log_q = safelog(q_eval)
    return np.sum(p_eval * (log_p - log_q), axis=-1) * dx
'''), ("quick_rmse", '''
def quick_rmse(p_eval, q_eval, N):
    squares = np.square(p_eval - q_eval)
    return np.sqrt(squares.sum(axis=-1) / N)
'''), ("quick_rbpe", '''
def quick_rbpe(pdf_function, integration_bounds, limits=(np.inf, np.inf)):
    lower, upper = integration_bounds[0], integration_bounds[1]

    def loss(x):
        scaled = x / 0.15
        return 1.0 - 1.0 / (1.0 + scaled**2)

    def find_z_risk(zp):
        return quad(lambda z: pdf_function(z) * loss((zp - z) / (1.0 + z)), lower, upper)[0]

    options = {}
    if limits[0] != np.inf:
        options = dict(bounds=(limits[0], limits[1]), method="bounded")
    return minimize_scalar(find_z_risk, **options).x
'''))
R("x_cde", "metrics/concrete_metric_classes.py", ("CDELossMetric.evaluate", '''
def _terms(self, estimate, reference):
    """The values of the two terms, for each of the distributions"""
    pdfs = estimate.pdf(self._xvals)
    nns = [np.argmin(np.abs(self._xvals - z)) for z in reference]
    squares = np.trapz(pdfs**2, x=self._xvals)
    at_truth = pdfs[range(estimate.npdf), nns]
    return squares, at_truth

def evaluate(self, estimate, reference):
    squares, at_truth = self._terms(estimate, reference)
    return np.mean(squares) - 2 * np.mean(at_truth)
'''), ("CDELossMetric.accumulate", '''
def accumulate(self, estimate, reference):
    squares, at_truth = self._terms(estimate, reference)
    return (np.sum(squares), np.sum(at_truth), estimate.npdf)
'''), ("CDELossMetric.finalize", '''
def finalize(self, tuples):
    sum1, sum2, npdf = np.sum(np.atleast_2d(tuples), axis=0)
    return sum1 / npdf - 2 * (sum2 / npdf)
'''))
R("x_pitm", "metrics/concrete_metric_classes.py", ("PITMetric.compute_from_digest", '''
def compute_from_digest(self, digest):
    eval_grid = self._eval_grid
    n_pit = min(int(digest.weight), len(eval_grid))
    if n_pit < len(eval_grid):  # pragma: no cover
        print(
            "Number of pit samples is smaller than the evaluation grid size. "
            "Will create a new evaluation grid with size = number of pit samples"
        )
        eval_grid = np.linspace(0, 1, n_pit)
    return PIT._produce_output_ensemble(digest.inverse_cdf(eval_grid), eval_grid)
'''), ("DistToPointMetricDigester.finalize", '''
def finalize(self, centroids: np.ndarray = []):
    total = None
    digests = [
        pytdigest.TDigest.of_centroids(np.array(points), compression=self._tdigest_compression)
        for points in centroids
    ]
    total = reduce(add, digests)
    return self.compute_from_digest(total)
'''), ("BrierMetric.accumulate", '''
def accumulate(self, estimate, reference):
    return calculate_brier_for_accumulation(estimate, reference, self._limits, self._dx)
'''), ("BrierMetric.finalize", '''
def finalize(self, tuples):
    total, count = np.sum(np.atleast_2d(tuples), axis=0)
    return total / count
'''))
R("x_point", "metrics/point_estimate_metric_classes.py", ("PointOutlierRate.evaluate", '''
def evaluate(self, estimate, reference):
    ez = (estimate - reference) / (1.0 + reference)
    cut = self._cut(PointSigmaIQR().evaluate(estimate, reference))
    n_outliers = np.sum(np.fabs(ez) > cut)
    return float(n_outliers) / float(len(ez))

@staticmethod
def _cut(sigma_iqr):
    """Values further out than this are outliers"""
    return np.maximum(0.06, 3.0 * sigma_iqr)
'''), ("PointOutlierRate.compute_from_digest", '''
def compute_from_digest(self, digest):
    x75, x25 = digest.inverse_cdf([0.75, 0.25])
    cut = self._cut((x75 - x25) / 1.349)
    centroids = digest.get_centroids()
    means, weights = centroids[:, 0], centroids[:, 1]
    return float(np.sum(weights[np.fabs(means) > cut])) / digest.weight
'''), ("PointSigmaIQR.evaluate", '''
def evaluate(self, estimate, reference):
    ez = (estimate - reference) / (1.0 + reference)
    upper, lower = np.percentile(ez, 75.0), np.percentile(ez, 25.0)
    return (upper - lower) / 1.349
'''), ("PointToPointMetricDigester.accumulate", '''
def accumulate(self, estimate, reference):
    ez = (estimate - reference) / (1.0 + reference)
    return pytdigest.TDigest.compute(ez, compression=self._tdigest_compression).get_centroids()
'''))
R("x_factory", "metrics/factory.py", ("get_all_subclasses", '''
def get_all_subclasses(cls):
    """Utility function to recursively get all the subclasses of a class"""
    found = []
    for subclass in cls.__subclasses__():
        found += [subclass] + get_all_subclasses(subclass)
    return found
'''), ("MetricFactory.create_metric", '''
@classmethod
def _refresh(cls, force_update):
    if force_update or not cls.metric_dict:
        cls.update_metrics()

@classmethod
def create_metric(cls, name, force_update=False, **kwargs):
    """Create a metric evaluator"""
    cls._refresh(force_update)
    if name not in cls.metric_dict:
        raise KeyError(f"{name} is not in the set of known metrics {str(cls.list_metrics())}")
    return cls.metric_dict[name](**kwargs)
'''), ("MetricFactory.list_metrics", '''
@classmethod
def list_metrics(cls, force_update=False):
    """Get the list of all the metric names"""
    cls._refresh(force_update)
    return list(cls.metric_dict)
'''))
R("x_gof", "metrics/goodness_of_fit.py", ("_cramer_von_mises", '''
def _cramer_von_mises(dist, data):
    x = np.sort(data, axis=-1)
    n = data.shape[-1]
    expected = (np.arange(1, n + 1) - 0.5) / n
    return 1 / (12 * n) + np.sum((expected - dist.cdf(x)) ** 2, axis=-1)
'''), ("_kolmogorov_smirnov", '''
def _kolmogorov_smirnov(dist, data):
    cdfvals = dist.cdf(np.sort(data, axis=-1))
    return np.maximum(_compute_dplus(cdfvals), _compute_dminus(cdfvals))
'''), ("_anderson_darling", '''
def _anderson_darling(dist, data):
    x = np.sort(data, axis=-1)
    n = data.shape[-1]
    weights = (2 * np.arange(1, n + 1) - 1) / n
    logs = dist.logcdf(x) + dist.logsf(np.flip(x, axis=-1))
    return -n - np.sum(weights * logs, axis=-1)
'''))

# ---------------------------------------------------------------- quantile constructors
R("k_linear", "quantile_pdf_constructors/piecewise_linear.py", ("PiecewiseLinear.prepare_constructor", '''
def prepare_constructor(self) -> None:
    widths = np.diff(self._locations)
    self._cdf_derivatives = np.diff(self._quantiles) / widths
    self._adjusted_locations = self._locations[:, 1:] - widths / 2
'''))
R("k_const", "quantile_pdf_constructors/piecewise_constant.py", ("PiecewiseConstant.prepare_constructor", '''
def prepare_constructor(self) -> None:
    locations = self._locations
    widths = np.diff(locations)
    derivs = np.zeros(locations.shape)
    second = np.zeros(locations.shape)
    derivs[:, :-1] = np.diff(self._quantiles) / widths
    second[:, :-1] = derivs[:, 1:] - derivs[:, :-1]
    self._cdf_derivatives = derivs
    self._cdf_2nd_derivatives = second
    self._adjusted_locations = locations[:, 1:] - widths / 2
'''))
R("k_spline", "quantile_pdf_constructors/cdf_spline_derivative.py", ("CdfSplineDerivative.prepare_constructor", '''
def prepare_constructor(self, spline_order:int = 3) -> None:
    functions = []
    for locations in self._locations:
        spline = InterpolatedUnivariateSpline(locations, self._quantiles, k=spline_order, ext=1)
        functions.append(spline.derivative())
    self._interpolation_functions = functions
'''), ("CdfSplineDerivative.construct_pdf", '''
def construct_pdf(self, grid: List[float], row: List[int] = None) -> List[List[float]]:
    if self._interpolation_functions is None:
        self.prepare_constructor()
    functions = self._interpolation_functions
    if row is not None:
        functions = [functions[irow] for irow in np.unique(row)]
    return np.asarray([function(grid) for function in functions])
'''))
R("k_dual", "quantile_pdf_constructors/dual_spline_average.py", ("DualSplineAverage.prepare_constructor", '''
def prepare_constructor(self) -> None:
    steps = 2 * np.diff(self._quantiles) / np.diff(self._locations)
    p_of_zs = np.zeros(self._locations.shape)
    for i in range(steps.shape[-1]):
        p_of_zs[:, i + 1] = np.maximum(0.0, steps[:, i] - p_of_zs[:, i])
    self._p_of_zs = p_of_zs
'''))
R("k_dual2", "quantile_pdf_constructors/dual_spline_average.py", ("DualSplineAverage.construct_pdf", '''
@staticmethod
def _evaluate(grid, locations, p_of_zs, first):
    """Evaluate the splines through every other point, starting at first"""
    splines = [
        interp1d(
            np.squeeze(locs[first::2]),
            np.squeeze(vals[first::2]),
            bounds_error=False, fill_value=0.0, kind='cubic'
        )
        for vals, locs in zip(p_of_zs, locations)
    ]
    return np.asarray([spline(grid) for spline in splines])

def construct_pdf(self, grid: List[float], row: List[int] = None) -> List[List[float]]:
    if self._p_of_zs is None:
        self.prepare_constructor()
    p_of_zs = self._p_of_zs
    locations = self._locations
    if row is not None:
        rows = np.unique(row)
        p_of_zs = [p_of_zs[irow] for irow in rows]
        locations = [locations[irow] for irow in rows]
    self.y1 = self._evaluate(grid, locations, p_of_zs, 0)
    self.y2 = self._evaluate(grid, locations, p_of_zs, 1)
    return (self.y1 + self.y2) / 2
'''))

if __name__ == "__main__":
    import sys
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    run(names or list(ALL))
