"""Writes /verif/properties.jsonl (kept as a generator so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, na=False):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=["src/qp/" + f for f in files],
                          mechanism=[dict(name=n, where="src/qp/" + w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where="src/qp/" + w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("C01", "Every constructor setting of a PDF survives freezing, slicing and storage",
  "Whatever setting a parameterisation accepts when it is created and that influences its values (grids, normalisation switch, packing scheme, log floor, basis cut, reconstruction choice, per-PDF tables) is handed on, under the constructor's own argument name and with the value in force, both when the distribution is frozen or copied and in the tables an ensemble stores, slices and rebuilds from. A setting is never replaced by its default, by another setting, or by the value before normalisation.",
  ["inputs", "configurations"], "all parameterisations x all constructor settings x all re-creation routes (freeze, copy, slice, append, concatenate, update, write/read, chunked read)",
  "The tests re-create objects almost only with default settings, where a forgotten or mixed-up setting is invisible; the set (parameterisation x setting x route) is not sampled.",
  ["hist_pdf.py", "interp_pdf.py", "packed_interp_pdf.py", "spline_pdf.py", "sparse_pdf.py", "mixmod_pdf.py", "quant_pdf.py", "pdf_gen.py"],
  [("_updated_ctor_param of each generator", "*_pdf.py"), ("_addmetadata/_addobjdata calls in each constructor", "*_pdf.py"), ("Pdf_gen._addmetadata/_addobjdata", "pdf_gen.py")],
  ["Ensemble.metadata()", "Ensemble.objdata()", "Ensemble.__getitem__", "dist.freeze / copy.copy", "Ensemble.build_tables"])

p("C02", "Slicing an ensemble selects the same rows in every column",
  "Indexing an ensemble with any integer, slice, boolean mask or index array applies that same key to every per-PDF data column and to every ancillary column, keeps the columns' order and names, carries over every setting of the parameterisation, and leaves the parent ensemble as it was. The selected ensemble has ancillary data exactly when the parent has.",
  ["inputs", "configurations"], "all keys x all parameterisations x all ancillary tables",
  "Tests index a few ensembles with 0 or a short slice; a key applied to one table only, or a special key form handled differently, agrees on those.",
  ["ensemble.py", "dict_utils.py"],
  [("Ensemble.__getitem__", "ensemble.py"), ("slice_dict", "dict_utils.py")],
  ["Ensemble.__getitem__", "for dist in ensemble", "Ensemble.ancil"])

p("C03", "Append and concatenate keep order and pairing, and refuse mismatches",
  "Appending or concatenating ensembles joins every data and ancillary column along the PDF axis in the order the ensembles are given, so row i of every column still belongs to the same PDF; settings are compared over all of the inputs (all keys and all values), and inputs that differ in settings or column names are refused before anything is modified. The inputs themselves are not modified, and ancillary data is kept only when every input has it.",
  ["inputs", "histories"], "all lists of ensembles, all sequences of appends",
  "Tests join two or three ensembles built from the same data, for which swapped order, a comparison of only neighbouring or leading entries, or a shared column look right.",
  ["ensemble.py", "factory.py", "dict_utils.py"],
  [("Ensemble.append", "ensemble.py"), ("Factory.concatenate", "factory.py"), ("concatenate_dicts, check_keys, compare_dicts, compare_two_dicts", "dict_utils.py")],
  ["Ensemble.append", "qp.concatenate"])

p("C04", "Changing an ensemble never leaves stale derived values or a half-done update",
  "After an update, a data update or an append, every later query is answered from the new distributions: the values cached on a grid are dropped, and the frozen distribution, its generator and its ancillary table are replaced together. A cached evaluation is reused only for a grid equal element by element to the one it was made for, and the cache does not change when the caller later changes that grid. An update that fails leaves the ensemble exactly as it was.",
  ["histories", "inputs"], "all interleavings of queries, updates, appends and changes of the caller's grid array; all rejected updates",
  "Each test performs one call on a fresh ensemble; staleness needs a query, a change and a second query.",
  ["ensemble.py"],
  [("Ensemble.update/update_objdata/append", "ensemble.py"), ("Ensemble.gridded", "ensemble.py")],
  ["Ensemble.gridded", "Ensemble.mode", "Ensemble.moment_partial", "metrics over gridded values", "Ensemble.ancil"],
  state=[("_gridded, _samples", "evaluation caches", "ensemble.py"), ("_frozen, _gen_obj, _ancil", "current distributions", "ensemble.py")])

p("C05", "Ancillary tables always have one row per PDF, at every way in",
  "Through the constructor, setting, adding, updating and appending, an ancillary table is accepted only if the first dimension of every one of its columns equals the number of PDFs of the ensemble it is attached to (a lone value being accepted for a single PDF); otherwise an error is raised and the previous table stays. Adding columns keeps the existing ones and works when there is no table yet.",
  ["inputs", "histories"], "all ancillary tables, all sequences of ancillary operations",
  "One wrong-length table is tried at one entry point; columns after the first, other entry points, and state after the refusal are not.",
  ["ensemble.py", "dict_utils.py"],
  [("check_array_shapes", "dict_utils.py"), ("Ensemble.set_ancil/add_to_ancil/update/__init__", "ensemble.py")],
  ["Ensemble(...)", "Ensemble.set_ancil", "Ensemble.add_to_ancil", "Ensemble.update"])

p("C06", "The library never writes into arrays or dictionaries that belong to the caller",
  "Constructing, evaluating, slicing, converting, concatenating, packing, scoring, reading or writing never modifies the arrays and dictionaries passed in, including keyword dictionaries passed by the caller, the tables given to the readers, the tables and metadata an ensemble hands out while it is being read, and evaluation points. Functions documented to work in place on an ensemble change only that ensemble.",
  ["inputs", "histories"], "all inputs, all aliasings between inputs and internal state",
  "A test that reuses fixtures only notices a write that changes a later expected value; views (reshape, squeeze, slices, transposes) make the aliasing depend on the layout of the input.",
  ["ensemble.py", "factory.py", "dict_utils.py", "pdf_gen.py", "utils.py", "conversion_funcs.py", "packing_utils.py", "hist_pdf.py", "interp_pdf.py", "quant_pdf.py", "sparse_rep.py", "metrics/brier.py", "metrics/pit.py"],
  [("fresh arrays/dicts built by each entry point", "all modules")],
  ["all public functions and methods"])

p("C07", "Tables that are built on first use are built before anything reads them",
  "Whatever derived table a distribution builds lazily (cumulative tables, unpacked values, reconstruction splines) is built, completely, before any evaluation reads it, whichever of pdf, cdf, ppf, moments or properties is called first and whatever the normalisation setting. Building it depends only on the distribution's own parameters, so the answer to a query never depends on which queries came before.",
  ["histories", "configurations"], "all first-call orders of the evaluation methods x settings",
  "Tests call the methods in one order on objects where the table is already there (normalisation on).",
  ["hist_pdf.py", "interp_pdf.py", "packed_interp_pdf.py", "quantile_pdf_constructors/piecewise_linear.py", "quantile_pdf_constructors/piecewise_constant.py", "quantile_pdf_constructors/cdf_spline_derivative.py", "quantile_pdf_constructors/dual_spline_average.py"],
  [("_compute_cdfs/_compute_ycumul/_unpack and their None guards", "*_pdf.py"), ("prepare_constructor guards", "quantile_pdf_constructors/*.py")],
  ["pdf, cdf, ppf, moment of every tabulated parameterisation"])

p("C08", "Outside its table a PDF is 0, its CDF is 0 or 1, its quantiles are the ends",
  "For every tabulated parameterisation, evaluation outside the tabulated range gives density 0, cumulative probability 0 below and 1 above, and for probabilities outside the tabulated ones the lower or upper end of the distribution's own range, on every evaluation layout, and never raises for being out of range.",
  ["inputs", "configurations"], "all points outside the grid x parameterisations x evaluation layouts x rows",
  "Tests evaluate inside or barely outside one grid, mostly with one layout.",
  ["hist_pdf.py", "interp_pdf.py", "packed_interp_pdf.py", "quant_pdf.py", "mixmod_pdf.py", "utils.py", "quantile_pdf_constructors/piecewise_linear.py", "quantile_pdf_constructors/dual_spline_average.py", "quantile_pdf_constructors/cdf_spline_derivative.py"],
  [("fill_value/bounds_error arguments", "*_pdf.py"), ("mask of get_bin_indices", "utils.py"), ("ext=1 splines", "quantile_pdf_constructors/cdf_spline_derivative.py")],
  ["pdf, cdf, ppf"])

p("C09", "Quantiles are looked up in the same table and the same row as the CDF",
  "For every parameterisation with a tabulated quantile function, the quantile function interpolates the very table the cumulative distribution interpolates, with the roles of positions and probabilities exchanged, with the same interpolation kind, and for the same PDF as the row asked for. The evaluation points and row numbers reach the interpolation unchanged and in the same order.",
  ["inputs", "configurations"], "all parameterisations x rows x probabilities",
  "Inverse consistency is tested on a few centrally placed probabilities with loose tolerances, for whole ensembles with rows in natural order.",
  ["hist_pdf.py", "interp_pdf.py", "packed_interp_pdf.py", "quant_pdf.py", "mixmod_pdf.py", "pdf_gen.py"],
  [("_cdf/_ppf pairs", "*_pdf.py"), ("Pdf_rows_gen._rvs", "pdf_gen.py")],
  ["cdf, ppf, median, interval, rvs"])

p("C10", "Each PDF is normalised by its own integral, the one its CDF accumulates",
  "When normalisation is on, every PDF's values are divided by that PDF's own integral over its own grid (never by that of another PDF or a common number), computed with the same cell widths and the same quadrature as its cumulative table, so that the cumulative table ends at one. When normalisation is off the given values are used as they are.",
  ["inputs", "configurations"], "all numbers of PDFs, grids (uneven too) and shapes",
  "Tests use evenly spaced grids and PDFs that share an integral up to scale, where a wrong axis, a common divisor or a fixed width cancel.",
  ["hist_pdf.py", "interp_pdf.py", "packed_interp_pdf.py", "mixmod_pdf.py", "spline_pdf.py", "sparse_pdf.py", "utils.py", "sparse_rep.py"],
  [("constructors and _compute_* helpers", "*_pdf.py"), ("normalize_interp1d", "utils.py"), ("normalize_spline", "spline_pdf.py")],
  ["pdf, cdf after construction"])

p("C11", "A PDF's value at a point does not depend on how the points are laid out",
  "Evaluating PDF i at point x gives the same value whether it is asked for alone, in a flat list of (point, row) pairs, as a grid of points for a list of rows, or as one set of points per row, in any order and with repeats: every layout picks the same bin or interpolation interval, the same row of every table and the same treatment of range limits. The layout that is chosen is one that represents the request exactly.",
  ["inputs"], "all combinations of point arrays and row arrays (dimensions, order, repeats)",
  "Tests evaluate sorted grids over all rows; the dispatch depends on run-time array shapes that only unsorted, repeated or partial requests reach.",
  ["utils.py", "pdf_gen.py", "quant_pdf.py", "mixmod_pdf.py", "spline_pdf.py", "quantile_pdf_constructors/piecewise_constant.py"],
  [("get_eval_case and the flat/product/2d siblings of the four evaluators", "utils.py"), ("get_bin_indices", "utils.py"), ("Pdf_rows_gen._sliceargs", "pdf_gen.py")],
  ["pdf, cdf, ppf on any layout"])

p("C12", "Conversion and creation tables agree: same class, method and argument names",
  "Every registered parameterisation has a unique name under which it is found, and for each of its named methods the conversion extracts exactly arguments that the creation of the same method accepts and needs; an unknown class, or a method for which the class has neither an entry nor a default, is refused. Converting through the ensemble and through the library-level function follows the same lookup and passes the caller's options on unchanged, and the method name selects both the extraction and the creation.",
  ["configurations", "programs"], "all registered classes x methods x conversion routes x options",
  "Tests convert to each class by one route and a default method; a name that collides, falls back silently or passes wrong options is not seen.",
  ["factory.py", "ensemble.py", "pdf_gen.py", "dict_utils.py", "conversion_funcs.py", "packed_interp_pdf.py", "hist_pdf.py", "interp_pdf.py", "spline_pdf.py", "sparse_pdf.py", "mixmod_pdf.py", "quant_pdf.py"],
  [("add_mappings of each class", "*_pdf.py"), ("Factory.add_class/create/convert", "factory.py"), ("Ensemble.convert_to", "ensemble.py"), ("get_val_or_default/set_val_or_default", "dict_utils.py"), ("extract_* functions", "conversion_funcs.py")],
  ["qp.convert", "Ensemble.convert_to", "qp.create"])

p("C13", "What is written is what is read: tables, names, versions and ancillary data",
  "An ensemble is written as its metadata table, its data table and, if it has one, its ancillary table, and reading those tables looks each of them up under the same name, strips exactly the name and version entries, selects the class by the stored name and the reader by the stored version, hands every other entry to the constructor unchanged (only undoing the storage's extra dimension and byte strings), and reattaches the ancillary table. This holds for single files in every format and for dictionaries of ensembles, and a file opened for it is closed again also when reading fails.",
  ["inputs", "configurations", "histories"], "all parameterisations x formats x with/without ancillary data x single files and dictionaries",
  "Round-trip tests use default settings in a couple of formats and compare evaluated values; a dropped or swapped table entry that equals the default goes unseen.",
  ["ensemble.py", "factory.py", "pdf_gen.py"],
  [("Ensemble.build_tables/write_to", "ensemble.py"), ("Factory.from_tables/_build_data_dict/read/read_metadata/is_qp_file/write_dict/read_dict/data_length", "factory.py")],
  ["qp.read", "qp.from_tables", "qp.write_dict/read_dict", "Ensemble.write_to"])

p("C14", "Chunked reading yields every row once, aligned, in independent ensembles",
  "Iterating over a file yields chunks that partition the rows assigned to the reader; within a chunk the data columns and the ancillary columns come from exactly the same row range as the reported start and end, with all columns present and all settings of the file. The chunks are independent ensembles: producing a later chunk never changes an earlier one, and the file is closed when iteration ends, is abandoned or fails.",
  ["inputs", "histories", "schedules"], "all file lengths, chunk sizes, ranks and number of readers; all ways of consuming the iterator",
  "Tests iterate once, with chunk sizes that divide the length, and look at each chunk before asking for the next.",
  ["factory.py"],
  [("Factory.iterator", "factory.py"), ("Factory._build_data_dict", "factory.py")],
  ["qp.iterator"])

p("C15", "Space allocated for chunked writing matches what the chunks then write",
  "For every parameterisation the columns allocated for a chunked write are exactly the per-PDF columns the ensembles will write (data and ancillary, not the settings), each with the requested total number of PDFs as its first dimension and the remaining dimensions and types of the data; each chunk is written to the row range the caller names and the settings are written at the end. Class-level allocation derives the same column names from the same settings and refuses a request that lacks them.",
  ["inputs", "configurations"], "all parameterisations, ensemble sizes, totals and chunk ranges",
  "Tests allocate for one or two classes and write chunks that fill the file evenly.",
  ["ensemble.py", "hist_pdf.py", "interp_pdf.py", "packed_interp_pdf.py", "spline_pdf.py", "sparse_pdf.py", "mixmod_pdf.py", "quant_pdf.py", "pdf_gen.py"],
  [("Ensemble._get_allocation_kwds/initializeHdf5Write/writeHdf5Chunk/finalizeHdf5Write", "ensemble.py"), ("get_allocation_kwds of each class", "*_pdf.py")],
  ["Ensemble.initializeHdf5Write", "Ensemble.writeHdf5Chunk", "Ensemble.finalizeHdf5Write"])

p("C16", "Randomness comes only from the caller's random state",
  "Everything that draws random numbers (sampling, conversions that sample, mixture fits, sampling-based metrics) takes its randomness from the random state the caller passes, handing it on unchanged to every place that draws, and the requested number of draws is the number made. The library neither seeds nor draws from the process-wide generator on the caller's behalf when a random state was given, and results are the same for the same state.",
  ["inputs", "histories", "configurations"], "all random states and sample sizes, all calls before",
  "Tests do not compare two runs with equal states through each route; a dropped state only shows as irreproducibility.",
  ["pdf_gen.py", "ensemble.py", "conversion_funcs.py", "metrics/concrete_metric_classes.py", "metrics/metrics.py", "test_data.py"],
  [("Pdf_rows_gen._rvs", "pdf_gen.py"), ("Ensemble.rvs", "ensemble.py"), ("extract_samples/extract_hist_samples/extract_mixmod_fit_samples", "conversion_funcs.py"), ("calculate_goodness_of_fit", "metrics/metrics.py")],
  ["Ensemble.rvs", "qp.convert(method='samples')", "ad/cvm/ks metrics"])

p("C17", "A metric accumulated over chunks is the metric of the whole",
  "For every metric with a chunked form, accumulating any partition of the data and finalising gives the metric of the whole: per-chunk results are sums or mergeable digests (never averages of averages), every chunk enters once and with its own weight, and the final formula, constants and cuts are those of the whole evaluation. Chunks of a single PDF are handled like any other.",
  ["inputs", "histories"], "all partitions of all inputs into chunks, all chunked metrics",
  "Tests accumulate equally sized chunks, for which weighting mistakes cancel, or a single chunk.",
  ["metrics/concrete_metric_classes.py", "metrics/point_estimate_metric_classes.py", "metrics/base_metric_classes.py", "metrics/brier.py", "metrics/pit.py", "metrics/metrics.py"],
  [("accumulate/finalize/compute_from_digest pairs", "metrics/concrete_metric_classes.py, metrics/point_estimate_metric_classes.py"), ("eval_from_iterator", "metrics/base_metric_classes.py"), ("Brier accumulation", "metrics/brier.py")],
  ["accumulate, finalize, eval_from_iterator of each metric"])

p("C18", "Each metric evaluates its own formula on the estimate, reference, limits given",
  "Every metric passes the estimate, the reference, the limits, the step, the order, the number of samples and its other settings to the computation in the roles they were given in, evaluates both inputs on one grid spanning exactly the given limits, uses that grid's own spacing and cardinality, and returns one value per PDF in PDF order where it is declared to. The formulas (divergence, root mean square, Brier sum, outlier fraction, loss, probability integral transform, distances between distributions, robust spreads) keep their definition, asymmetric ones their direction.",
  ["inputs", "configurations"], "all estimates, references, limits, steps and orders",
  "Tests compare with stored numbers for one pair of nearly symmetric ensembles at the default limits and step.",
  ["metrics/metrics.py", "metrics/array_metrics.py", "metrics/concrete_metric_classes.py", "metrics/goodness_of_fit.py", "metrics/brier.py", "metrics/pit.py", "metrics/point_estimate_metric_classes.py"],
  [("calculate_*", "metrics/metrics.py"), ("quick_*", "metrics/array_metrics.py"), ("evaluate of each metric class", "metrics/*.py"), ("goodness-of-fit statistics", "metrics/goodness_of_fit.py"), ("PIT", "metrics/pit.py")],
  ["evaluate of each metric", "calculate_* functions"])

p("C19", "The metric catalogue is complete, unambiguous and correctly typed",
  "Every concrete metric is listed under its own unique name and creating it by that name gives that class with the caller's options; unknown names are refused with the list of known ones. What a metric declares it needs (distributions or point estimates, for estimate and for reference) and what it declares to return match the kind of metric it is, and each kind is classified by exactly one answer to each of those questions.",
  ["programs", "configurations"], "all metric classes, names and input kinds",
  "Tests list some names and check some flags; the tables are written by hand in several places.",
  ["metrics/factory.py", "metrics/base_metric_classes.py", "metrics/concrete_metric_classes.py", "metrics/point_estimate_metric_classes.py"],
  [("MetricFactory", "metrics/factory.py"), ("MetricInputType/MetricOutputType and class attributes", "metrics/base_metric_classes.py, metrics/*_classes.py")],
  ["qp.metrics.create_metric", "qp.metrics.list_metrics", "uses_* queries"])

p("C20", "Invalid input is refused, with an error, before it is used",
  "Inconsistent table shapes, negative mixture weights, missing required conversion or allocation arguments, unknown classes, packing schemes and reconstruction names, wrong kinds of file, truth values outside the limits, mismatched sizes of compared ensembles and dimension mismatches between points and rows raise the documented kind of error for every such input, before any result is produced or state changed; valid input is not refused.",
  ["inputs", "configurations"], "all invalid inputs at all validated entry points",
  "Tests try at most one invalid example per check; a check narrowed to that example, moved after its use, or given another error class still passes.",
  ["hist_pdf.py", "interp_pdf.py", "packed_interp_pdf.py", "spline_pdf.py", "sparse_pdf.py", "mixmod_pdf.py", "quant_pdf.py", "conversion_funcs.py", "packing_utils.py", "factory.py", "ensemble.py", "utils.py", "metrics/metrics.py", "metrics/brier.py", "metrics/factory.py", "dict_utils.py"],
  [("raise statements and their conditions", "all modules")],
  ["constructors, conversions, readers, metrics"])

p("C21", "Packed values unpack with the inverse of the formula they were packed with",
  "For each packing scheme, packing scales each row by that row's own maximum into the full range of one byte, rounding to nearest and clipping, and unpacking applies the inverse scaling with the same maximum, the same range and the same floor, zero staying zero; the scheme, the row maxima and the floor used for packing are those passed to unpacking. Every scheme that can be packed can be unpacked, and conversions store the scheme and floor they packed with.",
  ["inputs", "configurations"], "all arrays, schemes and floors",
  "Tests pack one positive array with the default floor and compare loosely.",
  ["packing_utils.py", "packed_interp_pdf.py"],
  [("pack_array/unpack_array and the per-scheme functions", "packing_utils.py"), ("packed_interp_gen._unpack, extract_and_pack_vals_at_x", "packed_interp_pdf.py")],
  ["packed_interp", "qp.packing_utils"])

p("C22", "Each quantile PDF is reconstructed from its own quantiles and locations",
  "A PDF given by quantiles is reconstructed, by whichever reconstruction is selected, from the stored (padded) quantiles and from the locations of the very row asked for, with every evaluation point matched to its own row; padding adds the missing ends by linear extrapolation of the outermost interval for each row and adds nothing when the ends are there. Choosing another reconstruction changes the reconstruction used, the recorded choice and nothing else.",
  ["inputs", "histories", "configurations"], "all quantile tables, rows, points and reconstruction choices and changes of choice",
  "Tests evaluate single-PDF ensembles or compare shapes; a row mix-up needs several different PDFs and a partial or unordered request.",
  ["quant_pdf.py", "quantile_pdf_constructors/piecewise_linear.py", "quantile_pdf_constructors/piecewise_constant.py", "quantile_pdf_constructors/cdf_spline_derivative.py", "quantile_pdf_constructors/dual_spline_average.py"],
  [("quant_gen._pdf, pad_quantiles, pdf_constructor_name", "quant_pdf.py"), ("prepare_constructor/construct_pdf of each reconstruction", "quantile_pdf_constructors/*.py")],
  ["quant.pdf", "pdf_constructor_name"])

p("C23", "Moments, integrals and histograms weight each point by its own cell",
  "Moments, partial moments, integrals between limits, histogram contents and modes are computed per PDF along the grid axis, with each grid point or bin weighted by its own cell width (whatever the spacing), over exactly the limits or bin edges given and with the power asked for; an integral is upper minus lower cumulative value, and a histogram content is the difference of the cumulative values at its two edges.",
  ["inputs", "configurations"], "all grids (uneven too), orders, limits and numbers of PDFs",
  "Tests use evenly spaced grids, one order and default limits, where widths and axes are interchangeable.",
  ["hist_pdf.py", "interp_pdf.py", "packed_interp_pdf.py", "ensemble.py", "pdf_gen.py", "metrics/array_metrics.py", "utils.py", "conversion_funcs.py"],
  [("custom_generic_moment/_munp", "*_pdf.py"), ("Ensemble.moment_partial/integrate/mode/histogramize", "ensemble.py"), ("histogramize", "pdf_gen.py"), ("extract_hist_values/extract_hist_samples", "conversion_funcs.py"), ("edge_to_center, bin_widths, profile", "utils.py")],
  ["moment, mean, var, histogramize, integrate, moment_partial, mode"])

p("C24", "Ensemble queries go to the distribution method of that name, unchanged",
  "Each query of an ensemble (density, log density, cumulative, log cumulative, quantile, survival and its inverse and logarithm, statistics, median, mean, variance, standard deviation, moment, entropy, interval, samples, histogram) is answered by the current frozen distribution's method of that same meaning with the caller's arguments unchanged and in order, and its size, shape and dimension queries report those of the current distribution. Per-PDF samples come back with one row per PDF.",
  ["inputs", "configurations"], "all queries x all arguments x all parameterisations",
  "Many of these one-line forwards are called in tests without their values being compared for asymmetric arguments.",
  ["ensemble.py", "pdf_gen.py"],
  [("forwarding methods", "ensemble.py"), ("ndim/shape/npdf of frozen distributions", "pdf_gen.py")],
  ["all Ensemble query methods"])

p("C25", "Sparse codes decode to the basis entries and weights they were encoded from",
  "In the sparse representation, each stored integer packs a quantised weight and a basis index in disjoint bit fields, encoding and decoding agree on the field sizes and on the quantisation step, the basis is rebuilt from exactly the stored grid, ranges, sizes and cut in the order the indices count it, and each PDF is the weighted sum of its own basis entries. The number of stored terms, the dimensions list and its order are the same wherever they are written or read.",
  ["inputs", "configurations"], "all grids, basis sizes, cuts and stored codes",
  "The only test decodes one stored sample built by the same code with the default sizes.",
  ["sparse_rep.py", "sparse_pdf.py", "conversion_funcs.py"],
  [("combine_int/get_N/decode_sparse_indices/indices2shapes", "sparse_rep.py"), ("build_sparse_representation/create_basis/create_voigt_basis", "sparse_rep.py"), ("sparse_gen constructor", "sparse_pdf.py"), ("extract_sparse_from_xy, extract_voigt_*", "conversion_funcs.py")],
  ["sparse.pdf", "qp.convert(..., 'sparse')"])

# ---- properties outside the family
p("N01", "Converting between parameterisations keeps the PDFs within stated accuracy",
  "After conversion to another parameterisation with enough points, densities and cumulative values agree with the original within an accuracy that improves with the number of points.",
  ["inputs", "configurations"], "all distributions, target classes and sizes",
  "Tests compare a few smooth distributions with hand-picked tolerances.",
  ["conversion_funcs.py"], [("extract_* functions", "conversion_funcs.py")], ["qp.convert"])
p("N02", "Densities integrate to one and cumulative values are monotone, numerically",
  "For every distribution the numerical integral of the density is one within rounding and the cumulative values never decrease along the axis.",
  ["inputs"], "all parameter values",
  "Sampled on a few distributions.",
  ["interp_pdf.py", "spline_pdf.py", "quant_pdf.py"], [("cumulative tables", "*_pdf.py")], ["pdf, cdf"])
p("N03", "Parallel readers and writers on one file together cover it under every schedule",
  "Several processes reading or writing one file in parallel cover its rows exactly once whatever their relative speed, and no process sees a partly written row.",
  ["schedules"], "all interleavings of ranks",
  "Tests run in one process.",
  ["factory.py", "ensemble.py"], [("iterator, initializeHdf5Write", "factory.py, ensemble.py")], ["HDF5 file"])
p("N04", "A crash during writing leaves a file that is either complete or recognisably not",
  "If writing stops at any point, reading the file afterwards either gives the complete ensemble or fails.",
  ["crash_points"], "all crash points of all writes",
  "No test interrupts a write.",
  ["ensemble.py"], [("write_to, finalizeHdf5Write", "ensemble.py")], ["file on disk"])
p("N05", "The greedy sparse fit reaches its tolerance",
  "The sparse fit of a PDF on the basis stops with a residual below the tolerance or with the allowed number of terms in use, and never returns a worse fit with more terms.",
  ["inputs"], "all PDFs and bases",
  "One sample is fitted.",
  ["sparse_rep.py"], [("sparse_basis", "sparse_rep.py")], ["sparse pdf values"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
