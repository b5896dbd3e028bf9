"""Eleventh batch of behaviour-preserving rewrites: evaluation helpers, packing, conversions, reconstructions and metrics, each written anew
by another route (masks for branches, helpers shared between siblings, tables of functions, loops for comprehensions)."""
from refactorings import R, run, ALL

ALL.clear()
U, C, K = "utils.py", "conversion_funcs.py", "packing_utils.py"
QC = "quantile_pdf_constructors/"

R("u_binidx", U, ("get_bin_indices", '''
def get_bin_indices(bins, x):
    """Return the bin indexes for a set of values, and which of them are inside the bins"""
    n_bins = np.size(bins) - 1
    idx = _raw_bin_indices(bins, x)
    inside = np.logical_and(idx >= 0, idx < n_bins)
    idx[~inside] = 0
    out_shape = np.shape(x)
    idx = idx.reshape(out_shape).clip(0, n_bins - 1)
    return idx, inside.reshape(out_shape)


def _raw_bin_indices(bins, x):
    widths = bin_widths(bins)
    if np.allclose(widths, widths[0]):
        steps = (x - bins[0]) / widths[0]
        return np.atleast_1d(np.floor(steps).astype(int))
    return np.atleast_1d(np.searchsorted(bins, x, side="left") - 1)
'''))
R("u_binidx2", U, (None, ('''    n_bins = np.size(bins) - 1
    if np.allclose(widths, widths[0]):''', '''    n_bins = len(bins) - 1
    even = np.allclose(widths, widths[0])
    if even:''')))
R("u_case", U, (None, ('''    if nd_x >= 2 and nd_row != 1:
        return CASE_2D, x, row
    if nd_x >= 2 and nd_row == 1:  # pragma: no cover
        raise ValueError(
            "Dimension mismatch: x(%s), row(%s)" % (np.shape(x), np.shape(row))
        )
''', '''    if nd_x >= 2:
        if nd_row == 1:  # pragma: no cover
            raise ValueError("Dimension mismatch: x(%s), row(%s)" % (np.shape(x), np.shape(row)))
        return CASE_2D, x, row
''')))
R("u_disp", U, ("evaluate_hist_x_multi_y", '''
def evaluate_hist_x_multi_y(x, row, bins, vals, derivs=None):
    """Evaluate a set of values from histograms"""
    case_idx, xx, rr = get_eval_case(x, row)
    by_case = {
        CASE_PRODUCT: evaluate_hist_x_multi_y_product,
        CASE_FACTOR: evaluate_hist_x_multi_y_product,
        CASE_2D: evaluate_hist_x_multi_y_2d,
    }
    return by_case.get(case_idx, evaluate_hist_x_multi_y_flat)(xx, rr, bins, vals, derivs)
'''))
R("u_disp2", U, ("interpolate_x_multi_y", '''
def interpolate_x_multi_y(x, row, xvals, yvals, **kwargs):
    """Interpolate a set of values"""
    case_idx, xx, rr = get_eval_case(x, row)
    if case_idx == CASE_FLAT:
        func = interpolate_x_multi_y_flat
    elif case_idx == CASE_2D:
        func = interpolate_x_multi_y_2d
    else:
        func = interpolate_x_multi_y_product
    return func(xx, rr, xvals, yvals, **kwargs)
'''))
R("u_prod", U, ("evaluate_hist_x_multi_y_product", '''
def evaluate_hist_x_multi_y_product(x, row, bins, vals, derivs=None):
    """Evaluate a set of values from histograms"""
    idx, inside = get_bin_indices(bins, x)
    rows = np.squeeze(row)
    keep = np.ones(row.shape) * inside
    out = vals[:, idx][rows]
    if derivs is not None:
        out = out + (x - bins[idx]) * derivs[:, idx][rows]
    return np.where(keep, out, 0)
'''))
R("u_flat", U, ("evaluate_hist_x_multi_y_flat", '''
def evaluate_hist_x_multi_y_flat(x, row, bins, vals, derivs=None):  # pragma: no cover
    """Evaluate a set of values from histograms"""
    assert np.ndim(x) < 2 and np.ndim(row) < 2
    idx, mask = get_bin_indices(bins, x)

    if derivs is None:
        def evaluate_row(idxv, maskv, rv):
            return np.where(maskv, vals[rv, idxv], 0)

        return np.vectorize(evaluate_row)(idx, mask, row)

    def evaluate_row_slope(idxv, maskv, rv, delta):
        return np.where(maskv, vals[rv, idxv] + delta * derivs[rv, idxv], 0)

    return np.vectorize(evaluate_row_slope)(idx, mask, row, x - bins[idx])
'''))
R("u_mflat", U, ("evaluate_hist_multi_x_multi_y_flat", '''
def evaluate_hist_multi_x_multi_y_flat(x, row, bins, vals, derivs=None):  # pragma: no cover
    """Evaluate a set of values from histograms"""
    def evaluate_row(xv, rv):
        edges = bins[rv]
        idx, mask = get_bin_indices(edges, xv)
        val = vals[rv, idx]
        if derivs is not None:
            val = val + (xv - edges[idx]) * derivs[rv, idx]
        return np.where(mask, val, 0)

    return np.vectorize(evaluate_row)(x, row)
'''))
R("u_iflat", U, ("interpolate_multi_x_multi_y_flat", '''
def interpolate_multi_x_multi_y_flat(x, row, xvals, yvals, **kwargs):
    """Interpolate a set of values"""
    def single_row(xv, rv):
        interpolator = interp1d(xvals[rv], yvals[rv], **kwargs)
        return interpolator(xv)

    evaluate = np.vectorize(single_row)
    return evaluate(x, row)
'''))
R("u_iprod", U, ("interpolate_multi_x_y_product", '''
def interpolate_multi_x_y_product(x, row, xvals, yvals, **kwargs):
    """Interpolate a set of values"""
    n_points = np.shape(x)[-1]
    vv = np.vectorize(lambda rv: interp1d(xvals[rv], yvals, **kwargs)(x), signature=f"()->({n_points})")
    return vv(np.squeeze(row))
'''))
R("u_norm", U, ("normalize_interp1d", '''
def normalize_interp1d(xvals, yvals):
    """Normalize a set of 1D interpolators"""
    upper, lower, heights = xvals[:, 1:], xvals[:, :-1], yvals[:, 1:]
    integrals = np.sum(upper * heights - lower * heights, axis=1)
    return (yvals.T / integrals).T
'''))
R("u_profile", U, ("profile", '''
def profile(x_data, y_data, x_bins, std=True):
    """Make a 'profile' plot"""
    idx, mask = get_bin_indices(x_bins, x_data)
    n_bins = x_bins.size - 1
    count, vals, errs = np.zeros(n_bins), np.zeros(n_bins), np.zeros(n_bins)
    for i in range(n_bins):
        in_bin = mask * (idx == i)
        count[i] = in_bin.sum()
        if count[i] == 0:
            vals[i], errs[i] = np.nan, np.nan
        else:
            selected = y_data[in_bin]
            vals[i], errs[i] = selected.mean(), selected.std()
    if not std:
        errs = errs / np.sqrt(count)
    return vals, errs
'''))
R("u_reshape", U, ("reshape_to_pdf_size", '''
def reshape_to_pdf_size(vals, split_dim):
    """Reshape an array to match the number of PDFs in a distribution"""
    full = np.shape(vals)
    leading, trailing = full[:split_dim], full[split_dim:]
    npdf = np.prod(leading).astype(int)
    return vals.reshape(np.hstack([npdf, trailing]))
'''))
R("u_safelog", U, ("safelog", '''
def safelog(arr, threshold=epsilon):
    """Take the natural log of an array of potentially non-positive numbers"""
    clipped = np.array(arr).clip(threshold, np.inf)
    return np.log(clipped)
'''))
R("u_kdes", U, ("evaluate_kdes", '''
def evaluate_kdes(xvals, kdes):
    """Build a evaluate a set of kdes"""
    rows = []
    for kde in kdes:
        rows.append(kde(xvals))
    return np.vstack(rows)
'''))

# ---------------------------------------------------------------- packing
R("k_lin", K, ("linear_pack_from_rowmax", '''
def linear_pack_from_rowmax(input_array):
    """Pack an array into 8bit unsigned integers, using the maximum of each row as a refrence"""
    row_max = _row_max(input_array)
    scaled = 255 * input_array / row_max
    return np.round(scaled).astype(np.uint8), row_max


def _row_max(arr):
    return np.expand_dims(arr.max(axis=1), -1)
'''))
R("k_lin2", K, (None, ("    row_max = np.expand_dims(input_array.max(axis=1), -1)\n    return np.round(255 * input_array / row_max).astype(np.uint8), row_max",
                       "    row_max = input_array.max(axis=1)[:, np.newaxis]\n    packed = np.round(255 * input_array / row_max).astype(np.uint8)\n    return packed, row_max")))
R("k_log", K, ("log_pack_from_rowmax", '''
def log_pack_from_rowmax(input_array, log_floor=-3.):
    """Pack an array into 8bit unsigned integers, using the maximum of each row as a refrence"""
    depth = -log_floor
    tiny = np.power(10., 3 * log_floor)
    row_max = np.expand_dims(input_array.max(axis=1), -1)
    logs = np.log10((input_array + tiny) / row_max)
    levels = np.round(255*(logs + depth)/depth)
    return levels.clip(0., 255.).astype(np.uint8), row_max
'''))
R("k_unlog", K, ("log_unpack_from_rowmax", '''
def log_unpack_from_rowmax(packed_array, row_max, log_floor=-3.):
    """Unpack an array into 8bit unsigned integers, using the maximum of each row as a refrence"""
    neg_log_floor = -1. * log_floor
    exponent = neg_log_floor * ((packed_array / 255.) - 1.)
    heights = np.where(packed_array == 0, 0., np.power(10, exponent))
    return row_max * heights
'''))
R("k_pack", K, ("pack_array", '''
def pack_array(packing_type, input_array, **kwargs):
    """Pack an array into 8bit unsigned integers"""
    if packing_type == PackingType.log_from_rowmax:
        floor = kwargs.get('log_floor', -3)
        return log_pack_from_rowmax(input_array, floor)
    if packing_type == PackingType.linear_from_rowmax:
        return linear_pack_from_rowmax(input_array)
    raise ValueError(f"Packing for packing type {packing_type} is not implemetned")  # pragma: no cover
'''))

# ---------------------------------------------------------------- conversions
R("c_xy", C, ("extract_xy_vals", '''
def extract_xy_vals(in_dist, **kwargs):
    """Convert using a set of x and y values."""
    xvals = kwargs.get("xvals")
    if xvals is None:  # pragma: no cover
        raise ValueError("To convert using extract_xy_vals you must specify xvals")
    yvals = in_dist.pdf(xvals)
    return {"xvals": np.ones(yvals.shape) * np.squeeze(xvals), "yvals": yvals}
'''))
R("c_samples", C, ("extract_samples", '''
def extract_samples(in_dist, **kwargs):
    """Convert using a set of values samples that is sampled from the PDF"""
    random_state = kwargs.pop("random_state", None)
    n = kwargs.pop("size", 1000)
    xvals = kwargs.pop("xvals")
    return dict(samples=in_dist.rvs(size=n, random_state=random_state), xvals=xvals, yvals=None)
'''))
R("c_hist", C, ("extract_hist_samples", '''
def extract_hist_samples(in_dist, **kwargs):
    """Convert using a set of values samples that are then histogramed"""
    bins = kwargs.pop("bins", None)
    if bins is None:  # pragma: no cover
        raise ValueError("To convert using extract_hist_samples you must specify bins")
    n = kwargs.pop("size", 1000)
    samples = in_dist.rvs(size=n, random_state=kwargs.pop("random_state", None))

    def counts_of(sample):
        counts, _ = np.histogram(sample, bins=bins)
        return counts

    signature = "(%i)->(%i)" % (samples.shape[-1], bins.size - 1)
    counts = np.vectorize(counts_of, signature=signature)(samples)
    return dict(bins=bins, pdfs=counts / bin_widths(bins))
'''))
R("c_mix", C, ("extract_mixmod_fit_samples", '''
def extract_mixmod_fit_samples(in_dist, **kwargs):
    """Convert to a mixture model using a set of values sample from the pdf"""
    random_state = kwargs.pop("random_state", None)
    n_comps = kwargs.pop("ncomps", 3)
    n_sample = kwargs.pop("nsamples", 1000)
    samples = in_dist.rvs(size=n_sample, random_state=random_state)
    if isinstance(random_state, np.random.Generator):
        random_state = np.random.RandomState(random_state.bit_generator)

    def fit_row(samps):
        model = mixture.GaussianMixture(n_components=n_comps, random_state=random_state)
        model.fit(samps.reshape(-1, 1))
        return np.vstack([model.weights_, model.means_[:, 0], np.sqrt(model.covariances_[:, 0, 0])])

    fits = np.vectorize(fit_row, signature="(%i)->(3,%i)" % (n_sample, n_comps))(samples)
    weights, means, stds = fits[:, 0, :], fits[:, 1, :], fits[:, 2, :]
    return dict(weights=weights, means=means, stds=stds)
'''))
R("c_sparse", C, ("extract_sparse_from_xy", '''
def extract_sparse_from_xy(in_dist, **kwargs):
    """Extract sparse representation from an xy interpolated representation"""
    yvals = kwargs.pop("yvals", in_dist.objdata()["yvals"])
    xvals = kwargs.pop("xvals", in_dist.metadata()["xvals"][0])
    newx = _common_grid(xvals, yvals, kwargs.pop("nvals", 300))
    newpdf = sciinterp.interp1d(xvals, yvals, assume_sorted=True)(newx)
    sparse_indices, metadata, _ = build_sparse_representation(newx, newpdf)
    metadata["xvals"] = newx
    metadata["sparse_indices"] = sparse_indices
    del metadata["Ntot"]
    return metadata


def _common_grid(xvals, yvals, nvals):
    _, j = np.where(yvals > 0)
    return np.linspace(np.min(xvals), np.max(xvals[j]), nvals)
'''))
R("c_voigt", C, ("extract_voigt_mixmod", '''
def extract_voigt_mixmod(in_dist, **kwargs):  # pragma: no cover
    """Convert to a voigt mixture model starting with a gaussian mixture model, trivially by setting gammas to 0"""
    objdata = in_dist.objdata()
    columns = {name: objdata[name] for name in ("means", "stds", "weights")}
    columns["gammas"] = np.zeros_like(columns["means"])
    return dict(**columns, **kwargs)
'''))

# ---------------------------------------------------------------- reconstructions
R("q_spline", QC + "cdf_spline_derivative.py", ("CdfSplineDerivative.construct_pdf", '''
    def construct_pdf(self, grid: List[float], row: List[int] = None) -> List[List[float]]:
        """Take the intermediate calculations and return the interpolated y values given the input grid."""
        if self._interpolation_functions is None:
            self.prepare_constructor()

        if row is None:
            chosen = self._interpolation_functions
        else:
            chosen = [self._interpolation_functions[i] for i in np.unique(row)]

        return np.asarray([func(grid) for func in chosen])
'''))
R("q_spline2", QC + "cdf_spline_derivative.py", ("CdfSplineDerivative.prepare_constructor", '''
    def prepare_constructor(self, spline_order: int = 3) -> None:
        """This method solves for f'(x), the derivative of the CDF"""
        derivatives = []
        for locations in self._locations:
            spline = InterpolatedUnivariateSpline(locations, self._quantiles, k=spline_order, ext=1)
            derivatives.append(spline.derivative())
        self._interpolation_functions = derivatives
'''))
R("q_const", QC + "piecewise_constant.py", ("PiecewiseConstant.prepare_constructor", '''
    def prepare_constructor(self) -> None:
        """This method will calculate the numerical derivative as well as the adjusted locations"""
        steps = np.diff(self._locations)
        slopes = np.zeros(self._locations.shape)
        slopes[:, :-1] = np.diff(self._quantiles) / steps
        changes = np.zeros(self._locations.shape)
        changes[:, :-1] = np.diff(slopes)
        self._cdf_derivatives = slopes
        self._cdf_2nd_derivatives = changes
        self._adjusted_locations = self._locations[:, 1:] - steps / 2
'''))
R("q_lin", QC + "piecewise_linear.py", ("PiecewiseLinear.prepare_constructor", '''
    def prepare_constructor(self) -> None:
        """This method will calculate the numerical derivative as well as the adjusted locations"""
        widths = self._locations[:, 1:] - self._locations[:, :-1]
        heights = self._quantiles[1:] - self._quantiles[:-1]
        self._cdf_derivatives = heights / widths
        self._adjusted_locations = self._locations[:, 1:] - widths / 2
'''))
R("q_dual", QC + "dual_spline_average.py", (None, ('''        return (self.y1 + self.y2) / 2
''', '''        total = self.y1 + self.y2
        return 0.5 * total
''')))
R("q_dual2", QC + "dual_spline_average.py", (None, ('''        if row is not None:
            filtered_p_of_zs = list(map(self._p_of_zs.__getitem__, np.unique(row)))
            filtered_locations = list(map(self._locations.__getitem__, np.unique(row)))
''', '''        if row is not None:
            rows = np.unique(row)
            filtered_p_of_zs = [self._p_of_zs[i] for i in rows]
            filtered_locations = [self._locations[i] for i in rows]
''')))

# ---------------------------------------------------------------- metrics
R("m_brier", "metrics/brier.py", ("Brier._calculate_metric", '''
    def _calculate_metric(self):
        """Calculate the Brier metric for the input data."""
        return np.mean(self._squared_errors())

    def _squared_errors(self):
        return np.sum((self._prediction - self._truth) ** 2, axis=self._axis_for_summation)
'''))
R("m_brier2", "metrics/brier.py", ("Brier.evaluate", '''
    def evaluate(self):
        """Evaluate the Brier score."""
        self._prepare()
        return self._calculate_metric()

    def _prepare(self):
        self._manipulate_data()
        self._validate_data()
'''))
R("m_pit", "metrics/pit.py", ("PIT._gather_pit_samples", '''
    @classmethod
    def _gather_pit_samples(cls, qp_ens, true_vals):
        cdf_at_truth = qp_ens.cdf(np.vstack(true_vals))
        pit_samples = np.atleast_1d(np.squeeze(cdf_at_truth))

        # replace non-finite values with 0
        bad = ~np.isfinite(pit_samples)
        pit_samples[bad] = 0
        if np.any(bad):
            logging.warning("Some PIT samples were `NaN`. They have been replacd with 0.")
        return pit_samples
'''))
R("m_pit2", "metrics/pit.py", ("PIT._trim_pit_values", '''
    def _trim_pit_values(self, cdf_min, cdf_max):
        """Remove and report any cdf(x) that are outside the min/max range."""
        samples = self._pit_samps
        kept = samples[np.logical_and(samples >= cdf_min, samples <= cdf_max)]
        n_removed = len(samples) - len(kept)
        if n_removed > 0:
            logging.warning("Removed %d PITs from the sample.", n_removed)
        return kept
'''))
R("m_meta", "metrics/pit.py", ("PIT.calculate_pit_meta_metrics", '''
    def calculate_pit_meta_metrics(self):
        """Convenience method that will calculate all of the PIT meta metrics and return them as a dictionary."""
        return {
            "ad": self.evaluate_PIT_anderson_ksamp(),
            "cvm": self.evaluate_PIT_CvM(),
            "ks": self.evaluate_PIT_KS(),
            "outlier_rate": self.evaluate_PIT_outlier_rate(),
        }
'''))
R("m_grid", "metrics/metrics.py", ("_calculate_grid_parameters", '''
def _calculate_grid_parameters(limits, dx: float = 0.01) -> Grid:
    """Create a grid of points and return parameters describing it."""
    lower, upper = limits[0], limits[-1]
    cardinality = int((upper - lower) / dx)
    resolution = (upper - lower) / (cardinality - 1)
    half = resolution / 2
    hist_bin_edges = np.histogram_bin_edges((limits[0] - half, limits[1] + half), cardinality)
    return Grid(
        grid_values=np.linspace(limits[0], limits[1], cardinality),
        cardinality=cardinality,
        resolution=resolution,
        hist_bin_edges=hist_bin_edges,
        limits=limits,
    )
'''))
R("m_kld", "metrics/metrics.py", ("calculate_kld", '''
def calculate_kld(p, q, limits, dx=0.01):
    """Calculates the Kullback-Leibler Divergence between two qp.Ensemble objects."""
    if p.shape != q.shape:
        raise ValueError("Cannot calculate KLD between two ensembles with different shapes")
    grid = _calculate_grid_parameters(limits, dx)
    p_vals, q_vals = (ens.gridded(grid.grid_values)[1] for ens in (p, q))
    kld = array_metrics.quick_kld(p_vals, q_vals, grid.resolution)
    if np.any(kld < 0.0):  # pragma: no cover
        print("broken KLD: " + str((kld, p_vals, q_vals, grid.resolution)))
        kld = epsilon * np.ones(kld.shape)
    return kld
'''))
R("m_outlier", "metrics/metrics.py", ("calculate_outlier_rate", '''
def calculate_outlier_rate(p, lower_limit=0.0001, upper_limit=0.9999):
    """Fraction of outliers in each distribution"""
    try:
        _check_ensemble_is_not_nested(p)
    except ValueError:
        logging.warning("Each element in the ensemble `p` must be a single distribution.")

    rates = []
    for dist in p:
        below = dist.cdf(lower_limit)
        above = 1.0 - dist.cdf(upper_limit)
        rates.append((below + above)[0][0])
    return np.array(rates)
'''))
R("m_size", "metrics/metrics.py", ("_check_ensembles_contain_correct_number_of_distributions", '''
def _check_ensembles_contain_correct_number_of_distributions(estimate, reference):
    """The reference holds one distribution, or as many as the estimate"""
    if reference.npdf not in (1, estimate.npdf):
        raise ValueError("`reference` should contain either 1 distribution or the same number of distributions as `estimate`.")
'''))
R("m_rbpe", "metrics/metrics.py", ("calculate_rbpe", '''
def calculate_rbpe(p, limits=(np.inf, np.inf)):
    """Calculates the risk based point estimates of a qp.Ensemble object."""
    def evaluate_pdf_at_z(z, dist):
        return dist.pdf(z)[0][0]

    def one(dist):
        if dist.npdf != 1:
            raise ValueError("quick_rbpe only handles Ensembles with a single PDF")
        bounds = (dist.ppf(0.01)[0][0], dist.ppf(0.99)[0][0])
        return array_metrics.quick_rbpe(partial(evaluate_pdf_at_z, dist=dist), bounds, limits)

    return np.array([one(p[n]) for n in range(p.npdf)])
'''))

if __name__ == "__main__":
    import sys
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    run(names or list(ALL))
