"""Which functions a property is decided on.  A cone is a set of patterns over unit keys (Class.method,
function, module:<module>, Class:<class>); 'except' takes some away again."""
import fnmatch

GENS = "hist_gen interp_gen interp_irregular_gen mixmod_gen packed_interp_gen quant_gen sparse_gen spline_gen".split()
TAB = "hist_gen interp_gen interp_irregular_gen mixmod_gen packed_interp_gen quant_gen spline_gen".split()
BASES = "Pdf_gen Pdf_rows_gen Pdf_gen_wrap rv_frozen_func rv_frozen_rows".split()
RECON = "AbstractQuantilePdfConstructor CdfSplineDerivative DualSplineAverage PiecewiseConstant PiecewiseLinear".split()
METRICS = ("SingleEnsembleMetric DistToDistMetric DistToPointMetric PointToPointMetric PointToDistMetric BaseMetric Brier "
           "DistToPointMetricDigester MomentMetric KLDMetric RMSEMetric RBPEMetric BrierMetric OutlierMetric ADMetric CvMMetric "
           "KSMetric PITMetric CDELossMetric PIT PointToPointMetricDigester PointStatsEz PointSigmaIQR PointBias PointOutlierRate "
           "PointSigmaMAD").split()


def of(classes, *methods):
    return [f"{c}.{m}" for c in classes for m in methods]


EVALUATORS = ["get_eval_case", "evaluate_hist_*", "interpolate_*", "get_bin_indices"]
CTOR = of(GENS, "__init__", "_compute_*", "_unpack", "build_normed_splines", "_updated_ctor_param")
CUMUL = of(GENS, "_compute_*", "_unpack", "build_normed_splines", "_instantiate_pdf_constructor")
EVALS = of(GENS, "_pdf", "_cdf", "_ppf", "_rvs", "_sf", "_isf", "_logpdf", "_logcdf")
LOOKUPS = ["utils:*"] + EVALUATORS
ACCESS = of(GENS, "xvals", "yvals", "bins", "pdfs", "weights", "means", "stds", "splx", "sply", "spln", "quants", "locs",
            "packing_type", "log_floor", "ypacked", "ymax", "pdf_constructor", "pdf_constructor_name")
NORMERS = ["normalize_interp1d", "normalize_spline", "build_splines", "edge_to_center", "bin_widths"]
MAPPINGS = of(GENS + ["Pdf_gen_wrap"], "add_mappings")
EXTRACT = ["extract_*", "extract_and_pack_vals_at_x"]
SPARSE = ["shapes2pdf", "create_basis", "create_voigt_basis", "sparse_basis", "combine_int", "get_N", "decode_sparse_indices",
          "indices2shapes", "build_sparse_representation", "pdf_from_sparse"]
PACK = ["linear_*pack_from_rowmax", "log_*pack_from_rowmax", "pack_array", "unpack_array", "PackingType:<class>"]
DICTS = ["slice_dict", "check_keys", "concatenate_dicts", "check_array_shapes", "compare_two_dicts", "compare_dicts"]
GOF = ["_anderson_darling", "_kolmogorov_smirnov", "_compute_dplus", "_compute_dminus", "_cramer_von_mises"]
CALC = ["calculate_*", "_prepare_for_brier", "_calculate_grid_parameters", "quick_*"]
ENSQ = ["Ensemble." + m for m in ("pdf logpdf cdf logcdf ppf sf logsf isf rvs stats median mean var std moment entropy interval histogramize "
                                  "integrate mix_mod_fit moment_partial mode gridded ndim shape npdf frozen dist gen_obj gen_func gen_class kwds").split()]
FROZEN = of(["rv_frozen_func", "rv_frozen_rows", "Pdf_rows_gen", "Pdf_gen", "Pdf_gen_wrap"], "*")
IOF = ["Factory." + m for m in "from_tables _build_data_dict read read_metadata is_qp_file write_dict read_dict data_length iterator".split()]

CONES = {
    "C01": dict(units=CTOR + ACCESS + of(GENS, "create_gen", "create") + ["Pdf_gen.*", "Pdf_rows_gen.freeze", "Pdf_rows_gen.create_gen", "Pdf_rows_gen.__init__",
                "Pdf_gen_wrap.*", "rv_frozen_rows.__init__", "rv_frozen_func.__init__", "Ensemble.metadata", "Ensemble.objdata", "Ensemble.build_tables",
                "Ensemble.__getitem__", "Ensemble.__init__", "Ensemble.kwds", "Ensemble.append", "Ensemble.update*", "Factory.concatenate",
                "Factory._build_data_dict", "Factory.from_tables", "Factory.create", "Factory._make_scipy_wrapped_class", "extract_and_pack_vals_at_x",
                "spline_gen.create_*"]
               + [g + ":<class>" for g in GENS]),
    "C02": dict(units=["Ensemble.__getitem__", "Ensemble.__init__", "Ensemble.ancil", "Ensemble.set_ancil", "Ensemble.metadata", "Ensemble.objdata",
                       "Ensemble.gen_func", "Ensemble.frozen", "Ensemble.dist", "Ensemble.npdf", "slice_dict",
                       "Pdf_gen.metadata", "Pdf_gen.objdata", "Pdf_gen._add*", "Pdf_gen.create", "Pdf_gen.creation_method", "Pdf_rows_gen.freeze", "Pdf_rows_gen.npdf", "Pdf_rows_gen.shape"]
               + of(GENS, "__init__")),
    "C03": dict(units=["Ensemble.append", "Ensemble.metadata", "Ensemble.objdata", "Ensemble.set_ancil", "Ensemble.ancil",
                       "Factory.concatenate", "Pdf_gen.metadata", "Pdf_gen.objdata", "Pdf_gen._add*"] + [d for d in DICTS if d != "check_array_shapes"]),
    "C04": dict(units=["Ensemble.update", "Ensemble.update_objdata", "Ensemble.append", "Ensemble.gridded", "Ensemble.__init__", "Ensemble.set_ancil",
                       "Ensemble.add_to_ancil", "Ensemble.frozen", "Ensemble.gen_obj", "Ensemble.dist", "Ensemble.kwds", "Ensemble.ancil", "Ensemble.gen_func", "Ensemble.gen_class",
                       "Ensemble.mode", "Ensemble.npdf", "Ensemble.ndim", "Ensemble.shape", "Ensemble.metadata", "Ensemble.objdata", "quant_gen.pdf_constructor_name*", "Pdf_gen._clearobjdata", "Ensemble:<class>"]
               + of(["rv_frozen_func", "rv_frozen_rows"], "*")),
    "C05": dict(units=["Ensemble.__init__", "Ensemble.__getitem__", "Ensemble.set_ancil", "Ensemble.add_to_ancil", "Ensemble.update", "Ensemble._update_frozen", "Ensemble.update_objdata", "Ensemble.append",
                       "Ensemble.ancil", "Ensemble.npdf", "Ensemble.shape", "Factory.from_tables", "Factory.concatenate", "rv_frozen_*.npdf", "rv_frozen_*.shape", "rv_frozen_*.__init__", "Pdf_rows_gen.npdf", "Pdf_rows_gen.shape"] + DICTS),
    "C06": dict(units=["*"], only="effects"),
    "C07": dict(units=CTOR + EVALS + ACCESS + of(GENS, "_munp", "custom_generic_moment", "_instantiate_pdf_constructor", "plot_native", "pdf_constructor_name.setter") + of(RECON, "*") +
                ["Pdf_rows_gen._rvs", "Pdf_rows_gen.moment"] + [g + ":<class>" for g in GENS]),
    "C08": dict(units=EVALS + ["evaluate_hist_*", "interpolate_*", "get_bin_indices"] + CUMUL + of(GENS, "__init__", "_get_support", "_support_mask") + of(RECON, "*") + NORMERS + ["Pdf_rows_gen._*", "quant_gen.*", "pad_quantiles"]),
    "C09": dict(units=EVALS + CUMUL + of(GENS, "__init__") + ["interpolate_*"] + ["Pdf_rows_gen._rvs", "Pdf_rows_gen._sliceargs", "Pdf_rows_gen.__init__", "Ensemble.ppf", "Ensemble.rvs", "quant_gen.*", "pad_quantiles", "reshape_*"] + ACCESS),
    "C10": dict(units=of(GENS, "__init__", "_pdf") + CUMUL + NORMERS + of(GENS, "_cdf") + ["pdf_from_sparse", "spline_gen.create_*", "extract_*", "build_sparse_representation"]),
    "C11": dict(units=EVALUATORS + EVALS + ["Pdf_rows_gen._sliceargs", "Pdf_rows_gen._argcheck", "Pdf_rows_gen._rvs", "reshape_*", "build_kdes", "evaluate_kdes", "Ensemble.pdf", "Ensemble.cdf", "Ensemble.ppf", "Ensemble.logpdf", "Ensemble.logcdf"]
                + of(["rv_frozen_rows", "rv_frozen_func", "Pdf_rows_gen"], "*") + of(RECON, "construct_pdf")),
    "C12": dict(units=MAPPINGS + EXTRACT + ["Factory.add_class", "Factory.create", "Factory.convert", "Factory.__init__", "Factory._load_scipy_classes",
                       "Factory._make_scipy_wrapped_class", "Factory.pretty_print", "Ensemble.convert_to", "Ensemble.__init__", "Ensemble.gen_class", "Ensemble.gen_func", "get_val_or_default", "set_val_or_default", "pretty_print",
                       "Pdf_gen.*method*", "Pdf_gen.create", "Pdf_gen.create_gen", "Pdf_rows_gen.create_gen", "spline_gen.create_*", "build_kdes", "evaluate_kdes", "Factory:<class>", "instance", "qp.factory:<module>", "qp.scipy_pdfs:<module>", "qp:<module>"]
                + [g + ":<class>" for g in GENS] + ["qp." + m + ":<module>" for m in "hist_pdf interp_pdf mixmod_pdf packed_interp_pdf quant_pdf sparse_pdf spline_pdf conversion_funcs".split()]),
    "C13": dict(units=IOF + ["Ensemble.build_tables", "Ensemble.write_to", "Ensemble.metadata", "Ensemble.objdata", "Ensemble.ancil", "Ensemble.set_ancil", "compare_dicts", "compare_two_dicts",
                       "Factory.create", "Factory.add_class", "Pdf_gen.*", "Pdf_rows_gen.create_gen", "qp.factory:<module>", "print_dict_shape"] + CTOR),
    "C14": dict(units=["Factory.iterator", "Factory._build_data_dict", "Factory.data_length", "Factory.from_tables", "Factory.is_qp_file", "Factory.create", "Pdf_gen.create", "Pdf_gen.creation_method", "Pdf_gen.reader_method",
                       "Ensemble.set_ancil", "qp.factory:<module>"]),
    "C15": dict(units=of(GENS + ["Pdf_gen", "Pdf_gen_wrap"], "get_allocation_kwds") + ["Ensemble._get_allocation_kwds", "Ensemble.initializeHdf5Write", "Ensemble.writeHdf5Chunk",
                       "Ensemble.finalizeHdf5Write", "Ensemble.objdata", "Ensemble.build_tables", "Ensemble.metadata", "Ensemble.npdf", "Ensemble.ancil", "Pdf_gen.objdata", "Pdf_gen._add*"] + of(GENS, "__init__") + of(RECON, "__init__")),
    "C16": dict(units=EXTRACT + ["Pdf_rows_gen._rvs", "Ensemble.rvs", "Ensemble.mix_mod_fit", "Ensemble.convert_to", "Factory.convert", "calculate_goodness_of_fit", "calculate_anderson_darling",
                       "calculate_cramer_von_mises", "calculate_kolmogorov_smirnov", "ADMetric.*", "CvMMetric.*", "KSMetric.*", "quick_anderson_ksamp", "PIT.*", "PITMetric.*", "sparse_basis", "create_*basis", "*._rvs"] + GOF + MAPPINGS
                + ["qp.test_data:<module>", "qp.utils:<module>", "plot_pdf_samples_on_axes", "spline_gen.create_from_samples", "build_kdes", "_prepare_for_brier", "Brier*", "qp.conversion_funcs:<module>"]),
    "C17": dict(units=of(METRICS, "accumulate", "finalize", "initialize", "compute_from_digest", "eval_from_iterator", "evaluate", "__init__", "_calculate*", "_manipulate_data", "_validate_data")
                + ["calculate_brier*", "_prepare_for_brier", "PIT.*", "calculate_outlier_rate", "Brier.*", "qp.metrics.concrete_metric_classes:<module>", "qp.metrics.point_estimate_metric_classes:<module>"]),
    "C18": dict(units=CALC + GOF + of(METRICS, "*") + ["_check_*", "Ensemble.gridded", "safelog", "reshape_*", "evaluate_kdes", "build_kdes",
                       "qp.metrics*:<module>"] + [m + ":<class>" for m in METRICS]),
    "C19": dict(units=["MetricFactory.*", "MetricFactory:<class>", "MetricInputType*", "MetricOutputType*", "BaseMetric*", "get_all_subclasses", "qp.metrics*:<module>"]
                + [m + ":<class>" for m in METRICS] + of(METRICS, "__init__", "evaluate", "uses_*")),
    "C20": dict(units=["*"], only="raises"),
    "C21": dict(units=PACK + ["packed_interp_gen.*", "packed_interp_gen:<class>", "extract_and_pack_vals_at_x", "qp.packing_utils:<module>", "qp.packed_interp_pdf:<module>", "safelog"]),
    "C22": dict(units=["quant_gen.*", "quant_gen:<class>", "pad_quantiles", "extract_quantiles", "qp.quant_pdf:<module>", "qp.quantile_pdf_constructors*:<module>"] + of(RECON, "*")
                + [r + ":<class>" for r in RECON] + ["evaluate_hist_multi_x_multi_y*", "interpolate_multi_x_multi_y*"]),
    "C23": dict(units=of(GENS, "_munp", "custom_generic_moment", "_compute_*", "_unpack", "yvals", "xvals", "bins", "pdfs") + ["Pdf_rows_gen.moment", "Ensemble.moment_partial", "Ensemble.integrate", "Ensemble.mode",
                       "Ensemble.histogramize", "Ensemble.moment", "Ensemble.gridded", "rv_frozen_*.histogramize", "extract_hist_*", "edge_to_center", "bin_widths", "profile", "quick_moment", "calculate_moment", "reshape_*", "_calculate_grid_parameters"]),
    "C24": dict(units=ENSQ + ["Ensemble:<class>", "Ensemble.plot*", "rv_frozen_*", "Pdf_rows_gen.npdf", "Pdf_rows_gen.shape", "Pdf_rows_gen.moment", "Pdf_rows_gen._rvs", "Pdf_rows_gen.freeze", "Pdf_gen_wrap.*"]),
    "C25": dict(units=SPARSE + ["sparse_gen.*", "sparse_gen:<class>", "extract_sparse_from_xy", "extract_voigt_*", "extract_xy_sparse", "qp.sparse_rep:<module>", "qp.sparse_pdf:<module>"]),
}


# what counts of a function that several properties share: only the named outcomes (attributes, or 'effect')
TABLES = "_metadata _objdata"
PARTS = {
    "C01": {"*_gen.__init__": TABLES + " _check_input _log_floor _packing_type _cut _pdf_constructor_name sparse_indices dims mu sig _xvals _shape _npdf",
            "Ensemble.__init__": "_gen_func _frozen _gen_obj _gen_class"},
    "C02": {"*_gen.__init__": TABLES + " _shape _npdf", "Ensemble.__init__": "_ancil _frozen effect"},
    "C04": {"Ensemble.__init__": "_gridded _samples _frozen _gen_obj _gen_class effect"},
    "C05": {"Ensemble.__init__": "_ancil effect _frozen"},
    "C07": {"*_gen.__init__": "_hcdfs _ycumul _yvals _ypacked _pdf_constructor _spln _check_input _normed _sply"},
    "C08": {"*_gen.__init__": "_xmin _xmax _hbins _xvals _quants _locs _ycumul _hcdfs _splx"},
    "C09": {"*_gen.__init__": "_hcdfs _ycumul _xvals _yvals _hbins _quants _locs _nquants _xmin _xmax _weights _means _stds"},
    "C10": {"*_gen.__init__": "_hpdfs _yvals _ycumul _hcdfs _hbin_widths _weights _check_input _sply _spln _xmin _xmax"},
    "C12": {"Ensemble.__init__": "_gen_func _gen_obj _gen_class _frozen"},
    "C13": {"*_gen.__init__": TABLES},
    "C15": {"*_gen.__init__": TABLES + " _shape _npdf"},
}


def part(prop, key):
    """names of the outcomes that count for the property, or None for all"""
    for g, names in PARTS.get(prop, {}).items():
        if fnmatch.fnmatchcase(key, g):
            return set(names.split())
    return None


def members(prop, keys):
    pats = CONES[prop]["units"]
    plain = {p for p in pats if not any(c in p for c in "*?")}
    globs = [p for p in set(pats) if p not in plain]
    out = []
    for k in keys:
        if k in plain or any(fnmatch.fnmatchcase(k, g) for g in globs):
            out.append(k)
    return out
