"""Ninth batch of behaviour-preserving rewrites, written against the newer judgements (a formula which is another function of the same
quantities, a step left out, a renamed option, a value worked out from another argument): the edits here change formulas, steps,
names and arguments in ways which leave every result what it was."""
from refactorings import R, run, ALL

ALL.clear()

# ---------------------------------------------------------------- formulas written another way
R("f_center", "utils.py", ("edge_to_center", '''
def edge_to_center(edges):
    lo, hi = edges[:-1], edges[1:]
    return lo + 0.5 * (hi - lo)
'''))
R("f_center2", "utils.py", ("edge_to_center", '''
def edge_to_center(edges):
    return np.add(edges[1:], edges[:-1]) / 2.0
'''))
R("f_widths", "utils.py", ("bin_widths", '''
def bin_widths(edges):
    """Get the widths of the bins"""
    return np.diff(edges)
'''))
R("f_norm_interp", "utils.py", ("normalize_interp1d", '''
def normalize_interp1d(xvals, yvals):
    dx = xvals[:, 1:] - xvals[:, :-1]
    integrals = np.sum(dx * yvals[:, 1:], axis=1)
    return (yvals.T / integrals).T
'''))
R("f_norm_interp2", "utils.py", ("normalize_interp1d", '''
def normalize_interp1d(xvals, yvals):
    steps = np.diff(xvals, axis=1)
    norms = (steps * yvals[:, 1:]).sum(axis=-1)
    return yvals / norms[:, np.newaxis]
'''))
R("f_hist_norm", "hist_pdf.py", (None, ('''            self._hpdfs = (pdfs_2d.T / sums).T
''', '''            self._hpdfs = pdfs_2d / sums[:, np.newaxis]
''')))
R("f_hist_norm2", "hist_pdf.py", (None, ('''            sums = np.sum(pdfs_2d * self._hbin_widths, axis=1)
            self._hpdfs = (pdfs_2d.T / sums).T
''', '''            totals = (pdfs_2d * self._hbin_widths).sum(axis=-1, keepdims=True)
            self._hpdfs = pdfs_2d / totals
''')))
R("f_hist_moment", "hist_pdf.py", ("hist_gen.custom_generic_moment", '''
    def custom_generic_moment(self, m):
        """Compute the mth moment"""
        m = np.asarray(m)
        lo, hi = self._hbins[:-1], self._hbins[1:]
        centers = (lo + hi) / 2
        masses = self._hpdfs * self._hbin_widths
        return (np.power(centers, m) * masses).sum(axis=1)
'''))
R("f_interp_cumul", "interp_pdf.py", ("interp_gen._compute_ycumul", '''
    def _compute_ycumul(self):
        dx = np.diff(self._xvals)
        heights = (self._yvals[:, 1:] + self._yvals[:, :-1]) / 2
        self._ycumul = np.ndarray(self._yvals.shape)
        self._ycumul[:, 0] = self._yvals[:, 0] * dx[0] / 2
        self._ycumul[:, 1:] = np.cumsum(dx * heights, axis=1)
'''))
R("f_irr_cumul", "interp_pdf.py", ("interp_irregular_gen._compute_ycumul", '''
    def _compute_ycumul(self):
        steps = self._xvals[:, 1:] - self._xvals[:, :-1]
        self._ycumul = np.zeros(np.shape(self._yvals))
        self._ycumul[:, 1:] = np.cumsum(steps * self._yvals[:, 1:], axis=1)
'''))
R("f_interp_norm", "interp_pdf.py", (None, ('''            self._compute_ycumul()
            self._yvals = (self._yvals.T / self._ycumul[:, -1]).T
            self._ycumul = (self._ycumul.T / self._ycumul[:, -1]).T
''', '''            self._compute_ycumul()
            norms = self._ycumul[:, -1].copy()
            self._yvals = (self._yvals.T / norms).T
            self._ycumul = (self._ycumul.T / norms).T
''')))
R("f_interp_norm2", "interp_pdf.py", (None, ('''            self._yvals = (self._yvals.T / self._ycumul[:, -1]).T
            self._ycumul = (self._ycumul.T / self._ycumul[:, -1]).T
''', '''            totals = self._ycumul[:, -1][:, None]
            self._yvals, self._ycumul = self._yvals / totals, self._ycumul / totals
''')))
R("f_mixmod_norm", "mixmod_pdf.py", (None, ('''        self._weights = self._weights / self._weights.sum(axis=1)[:, None]
''', '''        self._weights = (self._weights.T / np.sum(self._weights, axis=1)).T
''')))
R("f_mixmod_span", "mixmod_pdf.py", (None, ('''        min_val = np.min(self._means - 6 * self._stds)
        max_val = np.max(self._means + 6 * self._stds)
''', '''        reach = 6 * self._stds
        min_val, max_val = (self._means - reach).min(), (self._means + reach).max()
''')))
R("f_lin_pack", "packing_utils.py", ("linear_pack_from_rowmax", '''
def linear_pack_from_rowmax(input_array):
    row_max = input_array.max(axis=1, keepdims=True)
    scaled = np.round(input_array * 255 / row_max)
    return scaled.astype(np.uint8), row_max
'''))
R("f_log_unpack", "packing_utils.py", ("log_unpack_from_rowmax", '''
def log_unpack_from_rowmax(packed_array, row_max, log_floor=-3.0):
    exponents = -log_floor * (packed_array / 255.0 - 1.0)
    values = np.where(packed_array == 0, 0.0, np.power(10, exponents))
    return row_max * values
'''))
R("f_log_pack", "packing_utils.py", ("log_pack_from_rowmax", '''
def log_pack_from_rowmax(input_array, log_floor=-3.0):
    decades = -log_floor
    epsilon = np.power(10.0, 3 * log_floor)
    row_max = np.expand_dims(np.max(input_array, axis=1), -1)
    logs = np.log10((input_array + epsilon) / row_max)
    packed = np.round(255 * (logs + decades) / decades)
    packed = np.clip(packed, 0.0, 255.0)
    return packed.astype(np.uint8), row_max
'''))
R("f_kld", "metrics/array_metrics.py", ("quick_kld", '''
def quick_kld(p_eval, q_eval, dx=0.01):
    log_p, log_q = safelog(p_eval), safelog(q_eval)
    integrand = p_eval * (log_p - log_q)
    return integrand.sum(axis=-1) * dx
'''))
R("f_rmse", "metrics/array_metrics.py", ("quick_rmse", '''
def quick_rmse(p_eval, q_eval, N):
    residuals = q_eval - p_eval
    return np.sqrt(np.sum(residuals * residuals, axis=-1) / N)
'''))
R("f_loss", "metrics/array_metrics.py", (None, ('''        return 1.0 - (1.0 / (1.0 + (pow((x / 0.15), 2))))
''', '''        scaled = x / 0.15
        return 1.0 - 1.0 / (1.0 + scaled**2)
''')))
R("f_ad", "metrics/goodness_of_fit.py", ("_anderson_darling", '''
def _anderson_darling(dist, data):
    x = np.sort(data, axis=-1)
    n = np.shape(data)[-1]
    ranks = np.arange(n) + 1
    log_terms = dist.logcdf(x) + dist.logsf(np.flip(x, axis=-1))
    weighted = (2 * ranks - 1) * log_terms / n
    return -n - weighted.sum(axis=-1)
'''))
R("f_cvm", "metrics/goodness_of_fit.py", ("_cramer_von_mises", '''
def _cramer_von_mises(dist, data):
    n = data.shape[-1]
    cdfvals = dist.cdf(np.sort(data, axis=-1))
    midpoints = (np.arange(1, n + 1) - 0.5) / n
    return np.sum((cdfvals - midpoints) ** 2, axis=-1) + 1 / (12 * n)
'''))
R("f_ks", "metrics/goodness_of_fit.py", ("_kolmogorov_smirnov", '''
def _kolmogorov_smirnov(dist, data):
    cdfvals = dist.cdf(np.sort(data, axis=-1))
    n = cdfvals.shape[-1]
    upper = np.arange(1.0, n + 1) / n
    lower = np.arange(0.0, n) / n
    return np.maximum((upper - cdfvals).max(axis=-1), (cdfvals - lower).max(axis=-1))
'''))
R("f_outlier", "metrics/metrics.py", (None, ('''[(dist.cdf(lower_limit) + (1. - dist.cdf(upper_limit)))[0][0] for dist in p]''',
   '''[(1.0 - (dist.cdf(upper_limit) - dist.cdf(lower_limit)))[0][0] for dist in p]''')))
R("f_grid", "metrics/metrics.py", ("_calculate_grid_parameters", '''
def _calculate_grid_parameters(limits, dx: float = 0.01) -> Grid:
    low, high = limits[0], limits[-1]
    span = high - low
    cardinality = int(span / dx)
    grid_values = np.linspace(low, limits[1], cardinality)
    resolution = span / (cardinality - 1)
    half = resolution / 2
    hist_bin_edges = np.histogram_bin_edges((low - half, limits[1] + half), cardinality)
    return Grid(grid_values, cardinality, resolution, hist_bin_edges, limits)
'''))
R("f_cde", "metrics/concrete_metric_classes.py", ("CDELossMetric.finalize", '''
    def finalize(self, tuples):
        term1_sum, term2_sum, npdf_sum = np.sum(np.atleast_2d(tuples), axis=0)
        return (term1_sum - 2 * term2_sum) / npdf_sum
'''))
R("f_cde2", "metrics/concrete_metric_classes.py", ("CDELossMetric.evaluate", '''
    def evaluate(self, estimate, reference):
        """Evaluate the CDE loss"""
        grid = self._xvals
        pdfs = estimate.pdf(grid)
        nns = [np.abs(grid - z).argmin() for z in reference]
        term2 = pdfs[np.arange(estimate.npdf), nns].mean()
        term1 = np.trapz(pdfs**2, x=grid).mean()
        return term1 - 2 * term2
'''))
R("f_ez", "metrics/point_estimate_metric_classes.py", ("PointBias.evaluate", '''
    def evaluate(self, estimate, reference):
        scaled = (estimate - reference) / (reference + 1.0)
        return np.median(scaled)
'''))
R("f_iqr", "metrics/point_estimate_metric_classes.py", ("PointSigmaIQR.evaluate", '''
    def evaluate(self, estimate, reference):
        ez = (estimate - reference) / (1.0 + reference)
        q25, q75 = np.percentile(ez, [25.0, 75.0])
        return (q75 - q25) / 1.349
'''))
R("f_iqr_digest", "metrics/point_estimate_metric_classes.py", ("PointSigmaIQR.compute_from_digest", '''
    def compute_from_digest(self, digest):
        quartiles = digest.inverse_cdf([0.25, 0.75])
        return (quartiles[1] - quartiles[0]) / 1.349
'''))
R("f_mad", "metrics/point_estimate_metric_classes.py", ("PointSigmaMAD.evaluate", '''
    def evaluate(self, estimate, reference):
        ez = (estimate - reference) / (1.0 + reference)
        deviations = np.abs(ez - np.median(ez))
        return 1.4826 * np.median(deviations)
'''))
R("f_pc_prep", "quantile_pdf_constructors/piecewise_constant.py", ("PiecewiseConstant.prepare_constructor", '''
    def prepare_constructor(self) -> None:
        """Get ready"""
        widths = np.diff(self._locations)
        slopes = np.zeros(self._locations.shape)
        slopes[:, :-1] = np.diff(self._quantiles) / widths
        curves = np.zeros(self._locations.shape)
        curves[:, :-1] = np.diff(slopes)
        self._cdf_derivatives = slopes
        self._cdf_2nd_derivatives = curves
        self._adjusted_locations = self._locations[:, 1:] - widths / 2
'''))
R("f_pl_prep", "quantile_pdf_constructors/piecewise_linear.py", ("PiecewiseLinear.prepare_constructor", '''
    def prepare_constructor(self) -> None:
        lower, upper = self._locations[:, :-1], self._locations[:, 1:]
        self._cdf_derivatives = (self._quantiles[1:] - self._quantiles[:-1]) / (upper - lower)
        self._adjusted_locations = (lower + upper) / 2
'''))
R("f_dual", "quantile_pdf_constructors/dual_spline_average.py", (None, ('''        return (self.y1 + self.y2) / 2
''', '''        return 0.5 * (self.y1 + self.y2)
''')))
R("f_pad_lo", "quant_pdf.py", (None, ('''        locs_out[:, 0] = locs[:, 0] - quants[0] * (locs[:, 1] - locs[:, 0]) / (
            quants[1] - quants[0]
        )
''', '''        slope = (locs[:, 1] - locs[:, 0]) / (quants[1] - quants[0])
        locs_out[:, 0] = locs[:, 0] - quants[0] * slope
''')))
R("f_integrate", "ensemble.py", (None, ('''        return self.cdf(limits[1]) - self.cdf(limits[0])
''', '''        lower, upper = limits[0], limits[1]
        below = self.cdf(lower)
        return self.cdf(upper) - below
''')))
R("f_sparse_norm", "sparse_rep.py", ("shapes2pdf", '''
def shapes2pdf(wa, ma, sa, ga, meta, cut=1.0e-5):
    x = meta["xvals"]
    pdf = np.zeros_like(x)
    for w, m, s, g in zip(wa, ma, sa, ga):
        pdft = voigt_profile(x - m, s, g)
        pdft = np.where(pdft < cut, 0.0, pdft)
        pdf += pdft * w / sla.norm(pdft)
    pdf = np.where(pdf < cut, 0.0, pdf)
    return pdf / sciint.trapezoid(pdf, x)
'''))
R("f_decode", "sparse_rep.py", ("decode_sparse_indices", '''
def decode_sparse_indices(indices):
    Ncoef = 32001
    sp_ind = np.array([get_N(ind) for ind in indices])
    vals = sp_ind[:, 0, :] / (Ncoef - 1)
    vals[:, 0] = 1.0
    return sp_ind[:, 1, :], vals
'''))
R("f_combine", "sparse_rep.py", ("combine_int", '''
def combine_int(Ncoef, Nbase):
    shifted = Ncoef << 16
    return shifted | Nbase
'''))
R("f_getn", "sparse_rep.py", ("get_N", '''
def get_N(longN):
    low_bits = (1 << 16) - 1
    return longN >> 16, longN & low_bits
'''))
R("f_shapes", "sparse_rep.py", (None, ('''    means = means_array[np.array(Dind2 / (Nsigma * Nv), int)]
''', '''    per_mean = Nsigma * Nv
    means = means_array[(Dind2 / per_mean).astype(int)]
''')))
R("f_profile", "utils.py", ("profile", '''
def profile(x_data, y_data, x_bins, std=True):
    idx, mask = get_bin_indices(x_bins, x_data)
    n_bins = x_bins.size - 1
    count = np.zeros(n_bins)
    vals = np.zeros(n_bins)
    errs = np.zeros(n_bins)
    for i in range(n_bins):
        mask_col = mask * (idx == i)
        n_in_bin = mask_col.sum()
        count[i] = n_in_bin
        if n_in_bin == 0:
            vals[i], errs[i] = np.nan, np.nan
        else:
            selected = y_data[mask_col]
            vals[i], errs[i] = selected.mean(), selected.std()
    if std:
        return vals, errs
    return vals, errs / np.sqrt(count)
'''))
R("f_extract_hist", "conversion_funcs.py", ("extract_hist_values", '''
def extract_hist_values(in_dist, **kwargs):
    bins = kwargs.pop("bins", None)
    if bins is None:
        raise ValueError("To convert using extract_hist_samples you must specify bins")
    bins, masses = in_dist.histogramize(bins)
    densities = masses / np.diff(bins)
    return dict(bins=bins, pdfs=densities)
'''))
R("f_mixfit", "conversion_funcs.py", (None, ('''        ov = np.vstack([weights, means, stdevs])
        return ov
''', '''        return np.stack([weights, means, stdevs])
''')))

# ---------------------------------------------------------------- steps moved, split, merged
R("s_getitem", "ensemble.py", ("Ensemble.__getitem__", '''
    def __getitem__(self, key):
        """Build a qp.Ensemble object for a sub-set of the distributions in this ensemble"""
        not_parameters = ("pdf_name", "pdf_version")
        red_data = {k: np.squeeze(v) for k, v in self.metadata().items() if k not in not_parameters}
        for k, v in slice_dict(self.objdata(), key).items():
            red_data[k] = v if np.ndim(v) >= 2 else np.expand_dims(v, 0)
        ancil = None if self._ancil is None else slice_dict(self._ancil, key)
        return Ensemble(self._gen_obj.create, data=red_data, ancil=ancil)
'''))
R("s_update", "ensemble.py", ("Ensemble.update_objdata", '''
    def _parameters(self):
        """The parameters which are the same for every distribution"""
        params = self.metadata()
        for k in ("pdf_name", "pdf_version"):
            params.pop(k, None)
        return {k: np.squeeze(v) for k, v in params.items()}

    def update_objdata(self, data, ancil=None):
        new_data = {**self._parameters(), **self.objdata(), **data}
        self._update_frozen(self._gen_obj.create(**new_data), ancil)
'''))
R("s_add_ancil", "ensemble.py", ("Ensemble.add_to_ancil", '''
    def add_to_ancil(self, to_add):
        check_array_shapes(to_add, self.npdf)
        if self._ancil is None:
            self._ancil = dict(to_add)
        else:
            self._ancil = {**self._ancil, **to_add}
'''))
R("s_append", "ensemble.py", ("Ensemble.append", '''
    def append(self, other_ens):
        mine, theirs = self.metadata(), other_ens.metadata()
        if not compare_dicts([mine, theirs]):
            raise KeyError("Metadata does not match, can not append")
        full_objdata = concatenate_dicts([self.objdata(), other_ens.objdata()])
        full_ancil = None
        if not (self._ancil is None or other_ens.ancil is None):
            full_ancil = concatenate_dicts([self.ancil, other_ens.ancil])
        self.update_objdata(full_objdata, full_ancil)
'''))
R("s_convert", "ensemble.py", ("Ensemble.convert_to", '''
    def convert_to(self, to_class, **kwargs):
        """Convert a distribution or ensemble"""
        kwds = dict(kwargs)
        method = kwds.pop("method", None)
        found = []
        for kind, lookup in (("creation", to_class.creation_method), ("extraction", to_class.extraction_method)):
            func = lookup(method)
            if func is None:
                raise KeyError("Class named %s does not have a %s_method named %s" % (to_class.name, kind, method))
            found.append(func)
        ctor_func, extract_func = found
        return Ensemble(ctor_func, data=extract_func(self, **kwds))
'''))
R("s_gridded", "ensemble.py", ("Ensemble.gridded", '''
    def gridded(self, grid):
        stale = self._gridded is None
        if not stale:
            stale = not np.array_equal(self._gridded[0], grid)
        if stale:
            values = self.pdf(grid)
            self._gridded = (np.array(grid), values)
        return self._gridded
'''))
R("s_mode", "ensemble.py", ("Ensemble.mode", '''
    def mode(self, grid):
        xvals, yvals = self.gridded(grid)
        peaks = yvals.argmax(axis=-1)
        return xvals[peaks][..., np.newaxis]
'''))
R("s_alloc", "ensemble.py", ("Ensemble._get_allocation_kwds", '''
    def _get_allocation_kwds(self, npdf):
        tables = self.build_tables()
        tables.pop("meta")
        return {
            group: {key: ([npdf, *array.shape[1:]], array.dtype) for key, array in tab.items()}
            for group, tab in tables.items()
        }
'''))
R("s_chunk", "ensemble.py", ("Ensemble.writeHdf5Chunk", '''
    def writeHdf5Chunk(self, fname, start, end):
        columns = {group: tab for group, tab in self.build_tables().items() if group != "meta"}
        io.writeDictToHdf5Chunk(fname, columns, start, end)
'''))
R("s_moment_partial", "ensemble.py", ("Ensemble.moment_partial", '''
    def moment_partial(self, n, limits, dx=0.01):
        extent = limits[-1] - limits[0]
        n_points = int(extent / dx)
        grid = np.linspace(limits[0], limits[1], n_points)
        step = extent / (n_points - 1)
        _, values = self.gridded(grid)
        return quick_moment(values, grid**n, step)
'''))
R("s_tables", "ensemble.py", ("Ensemble.build_tables", '''
    def build_tables(self):
        tables = {"meta": self.metadata(), "data": self.objdata()}
        ancil = self.ancil
        if ancil is None:
            return tables
        tables["ancil"] = ancil
        return tables
'''))
R("s_read", "factory.py", (None, ('''        if ext in [".pq"]:
            keys = ["data", "meta", "ancil"]
            allow_missing_keys = True
        else:
            keys = None
            allow_missing_keys = False
''', '''        allow_missing_keys = ext == ".pq"
        keys = ["data", "meta", "ancil"] if allow_missing_keys else None
''')))
R("s_from_tables", "factory.py", ("Factory.from_tables", '''
    def from_tables(self, tables):
        data = self._build_data_dict(tables["meta"], tables["data"])
        pdf_name, pdf_version = data.pop("pdf_name"), data.pop("pdf_version")
        try:
            the_class = self[pdf_name]
        except KeyError as missing:
            raise KeyError("Class nameed %s is not in factory" % pdf_name) from missing
        reader_convert = the_class.reader_method(pdf_version)
        if reader_convert is not None:
            data = reader_convert(data)
        return Ensemble(the_class.creation_method(None), data=data, ancil=tables.get("ancil"))
'''))
R("s_build", "factory.py", ("Factory._build_data_dict", '''
    @staticmethod
    def _scalar_or_row(value):
        """One value of the metadata table, as it was before it was written"""
        ndim = np.ndim(value)
        if ndim == 1:
            value = value[0]
        elif ndim > 1:
            value = np.squeeze(value)
            if np.ndim(value) == 0:
                value = value.item()
        return value.decode() if isinstance(value, bytes) else value

    @staticmethod
    def _build_data_dict(md_table, data_table):
        data_dict = {col: Factory._scalar_or_row(val) for col, val in md_table.items()}
        data_dict.update(
            {col: np.expand_dims(val, -1) if len(val.shape) < 2 else val for col, val in data_table.items()}
        )
        return data_dict
'''))
R("s_create", "factory.py", ("Factory.create", '''
    def create(self, class_name, data, method=None):
        if class_name in self:
            return Ensemble(self[class_name].creation_method(method), data)
        raise KeyError("Class nameed %s is not in factory" % class_name)
'''))
R("s_convert_f", "factory.py", ("Factory.convert", '''
    def convert(self, in_dist, class_name, **kwds):
        options = {k: v for k, v in kwds.items() if k != "method"}
        method = kwds.get("method")
        if class_name not in self:
            raise KeyError("Class nameed %s is not in factory" % class_name)
        extract_func = self[class_name].extraction_method(method)
        if extract_func is None:
            raise KeyError("Class named %s does not have a extraction_method named %s" % (class_name, method))
        return self.create(class_name, extract_func(in_dist, **options), method)
'''))
R("s_iter", "factory.py", (None, ('''                data_table = OrderedDict()
                for key, val in f.items():
                    data_table[key] = io.readHdf5DatasetToArray(val, start, end)
''', '''                data_table = {key: io.readHdf5DatasetToArray(val, start, end) for key, val in f.items()}
''')))
R("s_concat", "factory.py", ("Factory.concatenate", '''
    @staticmethod
    def concatenate(ensembles):
        """Concatenate a list of ensembles"""
        if not ensembles:
            return None
        metadata_list = [ens.metadata() for ens in ensembles]
        objdata_list = [ens.objdata() for ens in ensembles]
        gen_func = ensembles[0].gen_obj.create
        if not compare_dicts(metadata_list):
            raise ValueError("Metadata does not match")
        data = concatenate_dicts(objdata_list)
        ancil = None
        if all(ens.ancil is not None for ens in ensembles):
            ancil = concatenate_dicts([ens.ancil for ens in ensembles])
        for k, v in metadata_list[0].items():
            if k not in ("pdf_name", "pdf_version"):
                data[k] = np.squeeze(v)
        return Ensemble(gen_func, data, ancil)
'''))
R("s_write_dict", "factory.py", ("Factory.write_dict", '''
    @staticmethod
    def write_dict(filename, ensemble_dict, **kwargs):
        if not all(isinstance(val, Ensemble) for val in ensemble_dict.values()):
            raise ValueError("All values in ensemble_dict must be qp.Ensemble")
        tables = {key: val.build_tables() for key, val in ensemble_dict.items()}
        io.writeDictsToHdf5(tables, filename, **kwargs)
'''))
R("s_slice", "dict_utils.py", ("slice_dict", '''
def slice_dict(in_dict, subslice):
    def cut(val):
        """One entry, as it is if it can not be sliced"""
        try:
            return val[subslice]
        except (KeyError, TypeError):
            return val

    return {key: cut(val) for key, val in in_dict.items()}
'''))
R("s_check_shapes", "dict_utils.py", ("check_array_shapes", '''
def check_array_shapes(in_dict, npdf):
    for key, val in (in_dict or {}).items():
        if npdf == 1 and np.size(val) == 1:
            continue
        length = np.shape(val)[0]
        if length != npdf:
            raise ValueError("First dimension of array %s does not match npdf: %i != %i" % (key, length, npdf))
'''))
R("s_concat_d", "dict_utils.py", ("concatenate_dicts", '''
def concatenate_dicts(in_dicts):
    if len(in_dicts) == 0:
        return {}
    check_keys(in_dicts)
    out_dict = {}
    for key in in_dicts[0]:
        arrays = [one[key] for one in in_dicts]
        out_dict[key] = np.concatenate(arrays)
    return out_dict
'''))
R("s_check_keys", "dict_utils.py", ("check_keys", '''
def check_keys(in_dicts):
    if not in_dicts:
        return
    expected, *others = [in_dict.keys() for in_dict in in_dicts]
    for keys in others:
        if not keys == expected:
            raise ValueError("Keys to not match: %s != %s" % (keys, expected))
'''))
R("s_cmp2", "dict_utils.py", ("compare_two_dicts", '''
def _same_value(first, second):
    """True if two values are the same"""
    try:
        return not first != second
    except ValueError:
        return np.allclose(first, second)


def compare_two_dicts(d1, d2):
    if d1.keys() != d2.keys():
        return False
    for k in d1:
        if not _same_value(d1[k], d2[k]):
            return False
    return True
'''))
R("s_cmp", "dict_utils.py", ("compare_dicts", '''
def compare_dicts(in_dicts):
    if not in_dicts:
        return True
    return all(compare_two_dicts(in_dicts[0], other) for other in in_dicts[1:])
'''))
R("s_default", "dict_utils.py", ("get_val_or_default", '''
def get_val_or_default(in_dict, key):
    for candidate in (key, None):
        if candidate in in_dict:
            return in_dict[candidate]
    return None
'''))
R("s_samples", "conversion_funcs.py", ("extract_samples", '''
def extract_samples(in_dist, **kwargs):
    size = kwargs.pop("size", 1000)
    random_state = kwargs.pop("random_state", None)
    xvals = kwargs.pop("xvals")
    return {"samples": in_dist.rvs(size=size, random_state=random_state), "xvals": xvals, "yvals": None}
'''))
R("s_hist_samples", "conversion_funcs.py", ("extract_hist_samples", '''
def extract_hist_samples(in_dist, **kwargs):
    bins = kwargs.pop("bins", None)
    if bins is None:
        raise ValueError("To convert using extract_hist_samples you must specify bins")
    random_state = kwargs.pop("random_state", None)
    samples = in_dist.rvs(size=kwargs.pop("size", 1000), random_state=random_state)
    n_samples, n_bins = samples.shape[-1], bins.size - 1

    def counts_of(sample):
        counts, _ = np.histogram(sample, bins=bins)
        return counts

    histogram_rows = np.vectorize(counts_of, signature="(%i)->(%i)" % (n_samples, n_bins))
    return dict(bins=bins, pdfs=histogram_rows(samples) / bin_widths(bins))
'''))
R("s_xy", "conversion_funcs.py", ("extract_xy_vals", '''
def extract_xy_vals(in_dist, **kwargs):
    xvals = kwargs.pop("xvals", None)
    if xvals is None:
        raise ValueError("To convert using extract_xy_vals you must specify xvals")
    yvals = in_dist.pdf(xvals)
    return dict(xvals=np.ones_like(yvals) * np.squeeze(xvals), yvals=yvals)
'''))
R("s_splines", "spline_pdf.py", ("build_splines", '''
def build_splines(xvals, yvals):
    reps = [splrep(xrow, yrow) for xrow, yrow in zip(xvals, yvals)]
    knots, coeffs, orders = zip(*reps)
    return np.vstack(knots), np.vstack(coeffs), np.vstack(orders)
'''))
R("s_norm_spline", "spline_pdf.py", ("normalize_spline", '''
def normalize_spline(xvals, yvals, limits, **kwargs):
    lower, upper = limits[0], limits[1]

    def row_integral(irow):
        rep = splrep(xvals[irow], yvals[irow])
        return quad(lambda xv: splev(xv, rep), lower, upper, **kwargs)[0]

    rows = np.arange(xvals.shape[0])
    with errstate(all="ignore"):
        integrals = np.vectorize(row_integral)(rows)
    return (yvals.T / integrals).T
'''))
R("s_quant_pdf", "quant_pdf.py", (None, ('''        for irow, idx in zip(rows, np.split(order, starts[1:])):
            yvals[idx] = np.ravel(
                self._pdf_constructor.construct_pdf(x[idx], np.array([[irow]]))
            )
''', '''        groups = np.split(order, starts[1:])
        for i, irow in enumerate(rows):
            where = groups[i]
            row_vals = self._pdf_constructor.construct_pdf(x[where], np.array([[irow]]))
            yvals[where] = np.ravel(row_vals)
''')))
R("s_rvs", "pdf_gen.py", ("Pdf_rows_gen._rvs", '''
    def _rvs(self, *args, size=None, random_state=None):
        uniforms = random_state.uniform(size=size)
        draws = self._ppf(uniforms, *args)
        return draws if size is None else draws.reshape(size)
'''))
R("s_argcheck", "pdf_gen.py", ("Pdf_rows_gen._argcheck", '''
    def _argcheck(self, *args):
        if not args:
            return np.atleast_1d(1)
        row = asarray(args[0])
        return np.atleast_1d((row >= 0) & (row < self._npdf))
'''))
R("s_frozen", "pdf_gen.py", ("rv_frozen_rows.histogramize", '''
    def histogramize(self, bins):
        """Compute integrated histogram bin values"""
        edges_cdf = reshape_to_pdf_size(self.cdf(bins), -1)
        masses = np.diff(edges_cdf)
        return bins, reshape_to_pdf_shape(masses, self.shape, bins.size - 1)
'''))
R("s_gof", "metrics/metrics.py", (None, ('''    return goodness_of_fit_metrics[fit_metric](
        reference,
        np.squeeze(estimate.rvs(size=num_samples, random_state=_random_state)),
    )
''', '''    statistic = goodness_of_fit_metrics[fit_metric]
    draws = estimate.rvs(size=num_samples, random_state=_random_state)
    return statistic(reference, np.squeeze(draws))
''')))
R("s_brier", "metrics/brier.py", ("Brier._calculate_metric", '''
    def _squared_errors(self):
        return np.square(self._prediction - self._truth).sum(axis=self._axis_for_summation)

    def _calculate_metric(self):
        return self._squared_errors().mean()
'''))
R("s_pit", "metrics/pit.py", ("PIT._gather_pit_samples", '''
    @classmethod
    def _gather_pit_samples(cls, qp_ens, true_vals):
        values = qp_ens.cdf(np.vstack(true_vals))
        pit_samples = np.atleast_1d(np.squeeze(values))
        bad = ~np.isfinite(pit_samples)
        pit_samples[bad] = 0
        if np.any(bad):
            logging.warning("Some PIT samples were `NaN`. They have been replacd with 0.")
        return pit_samples
'''))
R("s_pit_trim", "metrics/pit.py", ("PIT._trim_pit_values", '''
    def _trim_pit_values(self, cdf_min, cdf_max):
        samples = self._pit_samps
        outside = (samples < cdf_min) | (samples > cdf_max)
        kept = samples[~outside]
        n_removed = len(samples) - len(kept)
        if n_removed > 0:
            logging.warning("Removed %d PITs from the sample.", n_removed)
        return kept
'''))
R("s_pit_out", "metrics/pit.py", ("PIT._produce_output_ensemble", '''
    @classmethod
    def _produce_output_ensemble(cls, data_quants, eval_grid):
        _, first = np.unique(data_quants, return_index=True)
        locs, quants = data_quants[first], eval_grid[first]
        inside = cls._create_quant_mask(locs)
        return qp.Ensemble(qp.quant, data={"quants": quants[inside], "locs": np.atleast_2d(locs[inside])})
'''))
R("s_outlier_pt", "metrics/point_estimate_metric_classes.py", ("PointOutlierRate.evaluate", '''
    def evaluate(self, estimate, reference):
        ez = (estimate - reference) / (1.0 + reference)
        sig_iqr = PointSigmaIQR().evaluate(estimate, reference)
        threshold = np.maximum(0.06, 3.0 * sig_iqr)
        n_outliers = np.sum(np.abs(ez) > threshold)
        return float(n_outliers) / len(ez)
'''))
R("s_finalize", "metrics/concrete_metric_classes.py", ("DistToPointMetricDigester.finalize", '''
    def finalize(self, centroids: np.ndarray = []):
        combined = None
        for centroid in centroids:
            digest = pytdigest.TDigest.of_centroids(np.array(centroid), compression=self._tdigest_compression)
            combined = digest if combined is None else combined + digest
        if combined is None:
            raise TypeError("reduce() of empty iterable with no initial value")
        return self.compute_from_digest(combined)
'''))
R("s_subclasses", "metrics/factory.py", ("get_all_subclasses", '''
def get_all_subclasses(cls):
    direct = cls.__subclasses__()
    found = []
    for subclass in direct:
        found += [subclass] + get_all_subclasses(subclass)
    return found
'''))
R("s_metric_create", "metrics/factory.py", ("MetricFactory.create_metric", '''
    @classmethod
    def create_metric(cls, name, force_update=False, **kwargs):
        if force_update or not cls.metric_dict:
            cls.update_metrics()
        if name not in cls.metric_dict:
            raise KeyError(f"{name} is not in the set of known metrics {str(cls.list_metrics())}")
        return cls.metric_dict[name](**kwargs)
'''))
R("s_plot_dist", "plotting.py", ("plot_dist_pdf", '''
def plot_dist_pdf(pdf, **kwargs):
    axes, (xlow, xhigh), options = get_axes_and_xlims(**kwargs)
    npoints = options.pop("npts", 101)
    return plot_pdf_on_axes(axes, pdf, np.linspace(xlow, xhigh, npoints), **options)
'''))
R("s_axes", "plotting.py", ("get_axes_and_xlims", '''
def get_axes_and_xlims(**kwargs):
    axes, xlim = kwargs.pop("axes", None), kwargs.pop("xlim", None)
    if axes is not None:
        if xlim is not None:
            raise ValueError("Only one of xlim and axes should be provided")
        return axes, axes.get_xlim(), kwargs
    if xlim is None:
        raise ValueError("Either xlim or axes must be provided")
    axes = make_figure_axes(xlim, **kwargs)[1]
    return axes, xlim, kwargs
'''))
R("s_spline_prep", "quantile_pdf_constructors/cdf_spline_derivative.py", ("CdfSplineDerivative.prepare_constructor", '''
    def prepare_constructor(self, spline_order: int = 3) -> None:
        self._interpolation_functions = []
        for row_locations in self._locations:
            spline = InterpolatedUnivariateSpline(row_locations, self._quantiles, k=spline_order, ext=1)
            self._interpolation_functions.append(spline.derivative())
'''))
R("s_spline_con", "quantile_pdf_constructors/cdf_spline_derivative.py", ("CdfSplineDerivative.construct_pdf", '''
    def construct_pdf(self, grid: List[float], row: List[int] = None) -> List[List[float]]:
        if self._interpolation_functions is None:
            self.prepare_constructor()
        if row is None:
            chosen = self._interpolation_functions
        else:
            chosen = [self._interpolation_functions[i] for i in np.unique(row)]
        return np.asarray([derivative(grid) for derivative in chosen])
'''))
R("s_alloc_spline", "spline_pdf.py", ("spline_gen.get_allocation_kwds", '''
    @classmethod
    def get_allocation_kwds(cls, npdf, **kwargs):
        try:
            splx = kwargs["splx"]
        except KeyError as missing:
            raise ValueError("required argument splx not included in kwargs") from missing
        table = ((npdf, np.shape(splx)[-1]), "f4")
        return {"splx": table, "sply": table, "spln": ((npdf, 1), "i4")}
'''))
R("s_alloc_hist", "hist_pdf.py", ("hist_gen.get_allocation_kwds", '''
    @classmethod
    def get_allocation_kwds(cls, npdf, **kwargs):
        bins = kwargs.get("bins")
        if bins is None:
            raise ValueError("required argument 'bins' not included in kwargs")
        n_edges = np.size(bins)
        return dict(pdfs=((npdf, n_edges - 1), "f4"))
'''))
R("s_sliceargs", "pdf_gen.py", ("Pdf_rows_gen._sliceargs", '''
    @staticmethod
    def _sliceargs(x, row, *args):  # pragma: no cover
        if 1 in (np.size(x), np.size(row)):
            return False, x, row, args
        xx, rr = np.unique(x), np.unique(row)
        if xx.size == np.size(x):
            xx = x
        if rr.size == np.size(row):
            rr = row
        if np.size(xx) * np.size(rr) != np.size(x):
            return False, x, row, args
        n = np.size(xx)
        return True, xx, rr, [arg[:n] for arg in args]
'''))
R("s_get_eval", "utils.py", (None, ('''    if nd_x >= 2 and nd_row != 1:
        return CASE_2D, x, row
    if nd_x >= 2 and nd_row == 1:  # pragma: no cover
        raise''', '''    if nd_x >= 2:
        if nd_row != 1:
            return CASE_2D, x, row
        raise''')))

if __name__ == "__main__":
    import sys
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    run(names or list(ALL))
