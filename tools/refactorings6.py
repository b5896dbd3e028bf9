"""Sixth batch of behaviour-preserving rewrites, written without looking at what the machinery makes of them."""
from refactorings import R, run, ALL

ALL.clear()

# ---------------------------------------------------------------- ensemble
R("e_init_set", "ensemble.py", ("Ensemble.__init__", '''
def __init__(self, gen_func, data, ancil=None):
    self._gen_func = gen_func
    self._frozen = None
    self._gen_obj = None
    self._gen_class = None
    self._ancil = None
    self._reset_caches()
    self._adopt(gen_func(**data))
    self._gen_class = type(self._gen_obj)
    self.set_ancil(ancil)

def _reset_caches(self):
    """Forget everything derived from the current distribution"""
    self._gridded = None
    self._samples = None

def _adopt(self, frozen):
    self._frozen = frozen
    self._gen_obj = frozen.dist
'''), ("Ensemble._update_frozen", '''
def _update_frozen(self, frozen, ancil=None):
    """Update the frozen distribution"""
    check_array_shapes(ancil, frozen.npdf)
    self._adopt(frozen)
    self.set_ancil(ancil)
    self._reset_caches()
'''))
R("e_settings", "ensemble.py", ("Ensemble.__getitem__", '''
def _settings(self):
    """The metadata without the entries which identify the class"""
    return {
        key: np.squeeze(value)
        for key, value in self.metadata().items()
        if key not in ("pdf_name", "pdf_version")
    }

def __getitem__(self, key):
    red_data = self._settings()
    for name, value in slice_dict(self.objdata(), key).items():
        if np.ndim(value) < 2:
            value = np.expand_dims(value, 0)
        red_data[name] = value
    ancil = None
    if self._ancil is not None:
        ancil = slice_dict(self._ancil, key)
    return Ensemble(self._gen_obj.create, data=red_data, ancil=ancil)
'''), ("Ensemble.update_objdata", '''
def update_objdata(self, data, ancil=None):
    new_data = self._settings()
    for part in (self.objdata(), data):
        new_data.update(part)
    self._update_frozen(self._gen_obj.create(**new_data), ancil)
'''))
R("e_append_helper", "ensemble.py", ("Ensemble.append", '''
def _joined_ancil(self, other_ens):
    if self._ancil is None or other_ens.ancil is None:  # pragma: no cover
        return None
    return concatenate_dicts([self.ancil, other_ens.ancil])

def append(self, other_ens):
    same_metadata = compare_dicts([self.metadata(), other_ens.metadata()])
    if not same_metadata:  # pragma: no cover
        raise KeyError("Metadata does not match, can not append")
    self.update_objdata(
        concatenate_dicts([self.objdata(), other_ens.objdata()]),
        self._joined_ancil(other_ens),
    )
'''))
R("e_convert_lookup", "ensemble.py", ("Ensemble.convert_to", '''
def convert_to(self, to_class, **kwargs):
    method = kwargs.get("method")
    extract_kwds = {key: val for key, val in kwargs.items() if key != "method"}
    class_name = to_class.name
    ctor_func = to_class.creation_method(method)
    if ctor_func is None:
        msg = f"Class named {class_name} does not have a creation_method named {method}"
        raise KeyError(msg)
    extract_func = to_class.extraction_method(method)
    if extract_func is None:
        msg = f"Class named {class_name} does not have a extraction_method named {method}"
        raise KeyError(msg)
    return Ensemble(ctor_func, data=extract_func(self, **extract_kwds))
'''))
R("e_gridded_early", "ensemble.py", ("Ensemble.gridded", '''
def _has_grid(self, grid):
    cached = self._gridded
    return cached is not None and np.array_equal(cached[0], grid)

def gridded(self, grid):
    if self._has_grid(grid):
        return self._gridded
    values = self.pdf(grid)
    self._gridded = (np.array(grid), values)
    return self._gridded
'''))
R("e_mode_idx", "ensemble.py", ("Ensemble.mode", '''
def mode(self, grid):
    points, values = self.gridded(grid)
    highest = np.argmax(values, axis=-1)
    modes = points[highest]
    return modes[..., np.newaxis]
'''))
R("e_moment_alias", "ensemble.py", ("Ensemble.moment_partial", '''
def moment_partial(self, n, limits, dx=0.01):
    low, high = limits[0], limits[1]
    n_points = int((limits[-1] - low) / dx)
    step = (limits[-1] - low) / (n_points - 1)
    grid = np.linspace(low, high, n_points)
    _, pdf_values = self.gridded(grid)
    return quick_moment(pdf_values, grid**n, step)
'''))
R("e_alloc_comp", "ensemble.py", ("Ensemble._get_allocation_kwds", '''
def _get_allocation_kwds(self, npdf):
    def describe(table):
        return {key: ([npdf] + list(array.shape)[1:], array.dtype) for key, array in table.items()}

    return {group: describe(table) for group, table in self.build_tables().items() if group != "meta"}
'''))
R("e_tables", "ensemble.py", ("Ensemble.build_tables", '''
def build_tables(self):
    tables = {"meta": self.metadata(), "data": self.objdata()}
    ancil = self.ancil
    if ancil is None:
        return tables
    tables["ancil"] = ancil
    return tables
'''), ("Ensemble.writeHdf5Chunk", '''
def writeHdf5Chunk(self, fname, start, end):
    odict = {group: table for group, table in self.build_tables().items() if group != "meta"}
    io.writeDictToHdf5Chunk(fname, odict, start, end)
'''))
R("e_write_ext", "ensemble.py", ("Ensemble.write_to", '''
def write_to(self, filename):
    root, suffix = os.path.splitext(filename)
    io.write(self.build_tables(), root, suffix[1:])
'''), ("Ensemble.initializeHdf5Write", '''
def initializeHdf5Write(self, filename, npdf, comm=None):
    return io.initializeHdf5Write(filename, comm=comm, **self._get_allocation_kwds(npdf))
'''))
R("e_rvs_n", "ensemble.py", ("Ensemble.rvs", '''
def rvs(self, size=None, random_state=None):
    frozen = self._frozen
    shape = (frozen.npdf, size)
    return frozen.rvs(size=shape, random_state=random_state)
'''), ("Ensemble.integrate", '''
def integrate(self, limits):
    upper = self.cdf(limits[1])
    lower = self.cdf(limits[0])
    return upper - lower
'''))
R("e_objdata_merge", "ensemble.py", ("Ensemble.objdata", '''
def objdata(self):
    merged = {**self._frozen.kwds}
    if "row" in merged:
        del merged["row"]
    merged.update(self._gen_obj.objdata)
    return merged
'''))

# ---------------------------------------------------------------- dict_utils
R("d_default_try", "dict_utils.py", ("get_val_or_default", '''
def get_val_or_default(in_dict, key):
    for candidate in (key, None):
        if candidate in in_dict:
            return in_dict[candidate]
    return None
'''))
R("d_setdefault", "dict_utils.py", ("set_val_or_default", '''
def set_val_or_default(in_dict, key, val):
    if key not in in_dict:
        in_dict[key] = val
    return in_dict[key]
'''))
R("d_checkkeys", "dict_utils.py", ("check_keys", '''
def check_keys(in_dicts):
    if len(in_dicts) < 2:
        return
    expected = in_dicts[0].keys()
    for current in (in_dict.keys() for in_dict in in_dicts[1:]):
        if current != expected:
            raise ValueError("Keys to not match: %s != %s" % (current, expected))
'''))
R("d_concat_gather", "dict_utils.py", ("concatenate_dicts", '''
def _gather(in_dicts, key):
    return [in_dict[key] for in_dict in in_dicts]


def concatenate_dicts(in_dicts):
    if not in_dicts:
        return {}
    check_keys(in_dicts)
    return {key: np.concatenate(_gather(in_dicts, key)) for key in in_dicts[0]}
'''))
R("d_shapes_gen", "dict_utils.py", ("check_array_shapes", '''
def _fits(val, npdf):
    if npdf == 1 and np.size(val) == 1:
        return True
    return np.shape(val)[0] == npdf


def check_array_shapes(in_dict, npdf):
    if in_dict is None:
        return
    for key, val in in_dict.items():
        if not _fits(val, npdf):
            raise ValueError(
                "First dimension of array %s does not match npdf: %i != %i" % (key, np.shape(val)[0], npdf)
            )
'''))
R("d_same_values", "dict_utils.py", ("compare_two_dicts", '''
def _differ(left, right):
    try:
        return bool(left != right)
    except ValueError:
        return not np.allclose(left, right)


def compare_two_dicts(d1, d2):
    if d1.keys() != d2.keys():
        return False
    for key in d1:
        if _differ(d1[key], d2[key]):
            return False
    return True
'''))
R("d_compare_all", "dict_utils.py", ("compare_dicts", '''
def compare_dicts(in_dicts):
    if not in_dicts:
        return True
    first, *others = in_dicts
    return all(compare_two_dicts(first, other) for other in others)
'''))
R("d_slice_copy", "dict_utils.py", ("slice_dict", '''
def slice_dict(in_dict, subslice):
    out_dict = dict(in_dict)
    for key in in_dict:
        try:
            out_dict[key] = in_dict[key][subslice]
        except (KeyError, TypeError):
            pass
    return out_dict
'''))

# ---------------------------------------------------------------- factory
R("f_need", "factory.py", ("Factory.create", '''
def _lookup(self, class_name):
    if class_name in self:
        return self[class_name]
    raise KeyError("Class nameed %s is not in factory" % class_name)

def create(self, class_name, data, method=None):
    return Ensemble(self._lookup(class_name).creation_method(method), data)
'''), ("Factory.from_tables", '''
def from_tables(self, tables):
    ancil_table = tables.get("ancil")
    data = self._build_data_dict(tables["meta"], tables["data"])
    pdf_name, pdf_version = data.pop("pdf_name"), data.pop("pdf_version")
    the_class = self._lookup(pdf_name)
    reader_convert = the_class.reader_method(pdf_version)
    if reader_convert is not None:  # pragma: no cover
        data = reader_convert(data)
    return Ensemble(the_class.creation_method(None), data=data, ancil=ancil_table)
'''), ("Factory.convert", '''
def convert(self, in_dist, class_name, **kwds):
    options = dict(kwds)
    method = options.pop("method", None)
    extract_func = self._lookup(class_name).extraction_method(method)
    if extract_func is None:  # pragma: no cover
        raise KeyError("Class named %s does not have a extraction_method named %s" % (class_name, method))
    return self.create(class_name, extract_func(in_dist, **options), method)
'''))
R("f_meta_value", "factory.py", ("Factory._build_data_dict", '''
@staticmethod
def _build_data_dict(md_table, data_table):
    def scalar_or_array(value):
        if np.ndim(value) > 1:
            value = np.squeeze(value)
            if np.ndim(value) == 0:
                return value.item()
            return value
        if np.ndim(value) == 1:
            return value[0]
        return value

    def text(value):
        return value.decode() if isinstance(value, bytes) else value

    data_dict = {col: text(scalar_or_array(value)) for col, value in md_table.items()}
    for col, value in data_table.items():
        data_dict[col] = value if len(value.shape) >= 2 else np.expand_dims(value, -1)
    return data_dict
'''))
R("f_read_keys", "factory.py", ("Factory.read", '''
def read(self, filename):
    ext = os.path.splitext(filename)[1]
    options = dict(keys=None, allow_missing_keys=False)
    if ext == ".pq":
        options = dict(keys=["data", "meta", "ancil"], allow_missing_keys=True)
    return self.from_tables(io.read(filename, NUMPY_DICT, **options))
'''))
R("f_iter_chunk", "factory.py", ("Factory.iterator", '''
@staticmethod
def _read_rows(group, start, end):
    rows = OrderedDict()
    for key, val in group.items():
        rows[key] = io.readHdf5DatasetToArray(val, start, end)
    return rows

def iterator(self, filename, chunk_size=100_000, rank=0, parallel_size=1):
    if os.path.splitext(filename)[1] != ".hdf5":
        raise TypeError("Can only use qp.iterator on hdf5 files")

    metadata = io.readHdf5ToDict(filename, "meta")
    pdf_name = metadata.pop("pdf_name")[0].decode()
    metadata.pop("pdf_version")
    if pdf_name not in self:  # pragma: no cover
        raise KeyError("Class nameed %s is not in factory" % pdf_name)
    ctor_func = self[pdf_name].creation_method(None)

    f, infp = io.readHdf5Group(filename, "data")
    try:
        ancil_f, ancil_infp = io.readHdf5Group(filename, "ancil")
    except KeyError:
        ancil_f = ancil_infp = None
    num_rows = io.getGroupInputDataLength(f)
    ranges = io.data_ranges_by_rank(num_rows, chunk_size, parallel_size, rank)
    try:
        for start, end in ranges:
            data = self._build_data_dict(metadata, self._read_rows(f, start, end))
            ancil_data = None if ancil_f is None else self._read_rows(ancil_f, start, end)
            yield start, end, Ensemble(ctor_func, data=data, ancil=ancil_data)
    finally:
        infp.close()
        if ancil_infp is not None:
            ancil_infp.close()
'''))
R("f_concat_loops", "factory.py", ("Factory.concatenate", '''
@staticmethod
def concatenate(ensembles):
    if not ensembles:  # pragma: no cover
        return None
    metadata_list = [ensemble.metadata() for ensemble in ensembles]
    objdata_list = [ensemble.objdata() for ensemble in ensembles]
    gen_func = ensembles[0].gen_obj.create
    if not compare_dicts(metadata_list):  # pragma: no cover
        raise ValueError("Metadata does not match")
    data = concatenate_dicts(objdata_list)
    ancil = None
    if all(ensemble.ancil is not None for ensemble in ensembles):
        ancil = concatenate_dicts([ensemble.ancil for ensemble in ensembles])
    for k, v in metadata_list[0].items():
        if k not in ("pdf_name", "pdf_version"):
            data[k] = np.squeeze(v)
    return Ensemble(gen_func, data, ancil)
'''))
R("f_write_dict", "factory.py", ("Factory.write_dict", '''
@staticmethod
def write_dict(filename, ensemble_dict, **kwargs):
    if not all(isinstance(val, Ensemble) for val in ensemble_dict.values()):
        raise ValueError("All values in ensemble_dict must be qp.Ensemble")
    output_tables = {key: val.build_tables() for key, val in ensemble_dict.items()}
    io.writeDictsToHdf5(output_tables, filename, **kwargs)
'''))
R("f_read_dict", "factory.py", ("Factory.read_dict", '''
@staticmethod
def read_dict(filename):
    def read_table(path):
        group_object, infp = io.readHdf5Group(filename, path)
        try:
            return io.readHdf5GroupToDict(group_object)
        finally:
            infp.close()

    results = {}
    for name in io.readHdf5GroupNames(filename):
        members = io.readHdf5GroupNames(filename, name)
        results[name] = from_tables({member: read_table(f"{name}/{member}") for member in members})
    return results
'''))
R("f_add_class", "factory.py", ("Factory.add_class", '''
def add_class(self, the_class):
    if not hasattr(the_class, "name"):  # pragma: no cover
        raise AttributeError("Can not add class %s to factory because it doesn't have a name attribute" % the_class)
    name = the_class.name
    if name in self:  # pragma: no cover
        raise KeyError("Class nameed %s is already in factory, point to %s" % (name, self[name]))
    the_class.add_method_dicts()
    the_class.add_mappings()
    self[name] = the_class
    setattr(self, f"{name}_gen", the_class)
    setattr(self, name, the_class.create)
'''))
R("f_length", "factory.py", ("Factory.data_length", '''
def data_length(self, filename):
    group, handle = io.readHdf5Group(filename, "data")
    try:
        return io.getGroupInputDataLength(group)
    finally:
        handle.close()
'''), ("Factory.is_qp_file", '''
def is_qp_file(self, filename):
    try:
        name = io.readNative(filename, keys=["meta"])["meta"]["pdf_name"]
        return len(name) > 0
    except Exception as msg:
        print(f"This is not a qp file because {msg}")
    return False
'''))

# ---------------------------------------------------------------- utils
R("u_bin_lookup", "utils.py", ("get_bin_indices", '''
def _locate(bins, x):
    """The index of the bin each value falls in, not limited to the range of bins"""
    widths = bin_widths(bins)
    if np.allclose(widths, widths[0]):
        return np.floor((x - bins[0]) / widths[0]).astype(int)
    return np.searchsorted(bins, x, side="left") - 1


def get_bin_indices(bins, x):
    n_bins = np.size(bins) - 1
    idx = np.atleast_1d(_locate(bins, x))
    mask = (idx >= 0) * (idx < bins.size - 1)
    np.putmask(idx, 1 - mask, 0)
    xshape = np.shape(x)
    idx, mask = idx.reshape(xshape), mask.reshape(xshape)
    return idx.clip(0, n_bins - 1), mask
'''))
R("u_norm_interp", "utils.py", ("normalize_interp1d", '''
def normalize_interp1d(xvals, yvals):
    left, right = xvals[:, :-1], xvals[:, 1:]
    heights = yvals[:, 1:]
    integrals = np.sum(right * heights - left * heights, axis=1)
    return (yvals.T / integrals).T
'''))
R("u_kdes", "utils.py", ("build_kdes", '''
def build_kdes(samples, **kwargs):
    kdes = []
    for sample in samples:
        kdes.append(sps.gaussian_kde(sample, **kwargs))
    return kdes
'''), ("evaluate_kdes", '''
def evaluate_kdes(xvals, kdes):
    rows = []
    for kde in kdes:
        rows.append(kde(xvals))
    return np.vstack(rows)
'''))
R("u_eval_nx", "utils.py", ("get_eval_case", '''
def _points_per_row(x, row):
    """How many values go with each row"""
    n_x, n_row = np.size(x), np.size(row)
    if n_x != n_row:
        return n_x // n_row
    changes = np.flatnonzero(np.diff(row))
    if np.size(changes) == 0:
        return n_row
    return changes[0] + 1


def get_eval_case(x, row):
    nd_x, nd_row = np.ndim(x), np.ndim(row)
    if nd_x >= 2:
        if nd_row == 1:
            raise ValueError("Dimension mismatch: x(%s), row(%s)" % (np.shape(x), np.shape(row)))
        return CASE_2D, x, row
    if nd_row >= 2:
        return CASE_PRODUCT, x, row
    if np.size(x) == 1 or np.size(row) == 1:
        return CASE_FLAT, x, row
    nx = _points_per_row(x, row)
    if nx == 0 or np.size(x) % nx != 0 or (np.size(row) * nx) % np.size(x) != 0:
        return CASE_FLAT, x, row
    xx = np.reshape(x, (-1, nx))
    rr = np.reshape(row, (np.shape(xx)[0], -1))
    same_x = np.all(xx == xx[0])
    same_row = np.all(rr == rr[:, :1])
    if same_x and same_row:
        return CASE_FACTOR, xx[0], rr[:, :1]
    return CASE_FLAT, x, row
'''))
R("u_hist_flat_split", "utils.py", ("evaluate_hist_x_multi_y_flat", '''
def evaluate_hist_x_multi_y_flat(x, row, bins, vals, derivs=None):  # pragma: no cover
    assert np.ndim(x) < 2 and np.ndim(row) < 2
    idx, mask = get_bin_indices(bins, x)
    has_derivs = derivs is not None
    deltas = x - bins[idx] if has_derivs else np.zeros(idx.shape)

    def evaluate_row(idxv, maskv, rv, delta):
        value = vals[rv, idxv]
        if has_derivs:
            value = value + delta * derivs[rv, idxv]
        return np.where(maskv, value, 0)

    return np.vectorize(evaluate_row)(idx, mask, row, deltas)
'''))
R("u_hist_prod_rows", "utils.py", ("evaluate_hist_x_multi_y_product", '''
def evaluate_hist_x_multi_y_product(x, row, bins, vals, derivs=None):  # pragma: no cover
    idx, in_range = get_bin_indices(bins, x)
    mask = np.ones(row.shape) * in_range
    rows = np.squeeze(row)
    values = vals[:, idx][rows]
    if derivs is not None:
        deltas = x - bins[idx]
        values = values + deltas * derivs[:, idx][rows]
    return np.where(mask, values, 0)
'''))
R("u_hist_multi_flat", "utils.py", ("evaluate_hist_multi_x_multi_y_flat", '''
def evaluate_hist_multi_x_multi_y_flat(x, row, bins, vals, derivs=None):  # pragma: no cover
    def evaluate_row(xv, rv):
        edges = bins[rv]
        idx, mask = get_bin_indices(edges, xv)
        value = vals[rv, idx]
        if derivs is not None:
            value = value + (xv - edges[idx]) * derivs[rv, idx]
        return np.where(mask, value, 0)

    vv = np.vectorize(evaluate_row)
    return vv(x, row)
'''))
R("u_dispatch", "utils.py", ("evaluate_hist_x_multi_y", '''
def evaluate_hist_x_multi_y(x, row, bins, vals, derivs=None):
    case_idx, xx, rr = get_eval_case(x, row)
    if case_idx in (CASE_PRODUCT, CASE_FACTOR):
        evaluate = evaluate_hist_x_multi_y_product
    elif case_idx == CASE_2D:
        evaluate = evaluate_hist_x_multi_y_2d
    else:
        evaluate = evaluate_hist_x_multi_y_flat
    return evaluate(xx, rr, bins, vals, derivs)
'''), ("interpolate_multi_x_y", '''
def interpolate_multi_x_y(x, row, xvals, yvals, **kwargs):
    case_idx, xx, rr = get_eval_case(x, row)
    if case_idx == CASE_2D:
        return interpolate_multi_x_y_2d(xx, rr, xvals, yvals, **kwargs)
    if case_idx not in (CASE_PRODUCT, CASE_FACTOR):
        return interpolate_multi_x_y_flat(xx, rr, xvals, yvals, **kwargs)
    return interpolate_multi_x_y_product(xx, rr, xvals, yvals, **kwargs)
'''))
R("u_profile_sel", "utils.py", ("profile", '''
def profile(x_data, y_data, x_bins, std=True):
    idx, mask = get_bin_indices(x_bins, x_data)
    n_bins = x_bins.size - 1
    count, vals, errs = np.zeros(n_bins), np.zeros(n_bins), np.zeros(n_bins)
    for i in range(n_bins):
        selected = mask * (idx == i)
        n_selected = selected.sum()
        count[i] = n_selected
        if n_selected == 0:  # pragma: no cover
            vals[i] = errs[i] = np.nan
        else:
            in_bin = y_data[selected]
            vals[i] = in_bin.mean()
            errs[i] = in_bin.std()
    if not std:
        errs /= np.sqrt(count)
    return vals, errs
'''))
R("u_reshape", "utils.py", ("reshape_to_pdf_size", '''
def reshape_to_pdf_size(vals, split_dim):
    shape = np.shape(vals)
    leading, trailing = shape[:split_dim], shape[split_dim:]
    npdf = np.prod(leading).astype(int)
    return vals.reshape(np.hstack([npdf, trailing]))
'''), ("reshape_to_pdf_shape", '''
def reshape_to_pdf_shape(vals, pdf_shape, per_pdf):
    return vals.reshape(np.hstack([pdf_shape, per_pdf]))
'''))
R("u_safelog", "utils.py", ("safelog", '''
def safelog(arr, threshold=epsilon):
    clipped = np.clip(np.array(arr), threshold, np.inf)
    return np.log(clipped)
'''), ("edge_to_center", '''
def edge_to_center(edges):
    lower, upper = edges[:-1], edges[1:]
    return 0.5 * (upper + lower)
'''))

# ---------------------------------------------------------------- generators
R("h_init_order", "hist_pdf.py", ("hist_gen.__init__", '''
def __init__(self, bins, pdfs, *args, **kwargs):
    self._check_input = kwargs.pop("check_input", True)
    self._set_bins(bins)
    n_values = np.shape(pdfs)[-1]
    if n_values != self._nbins:  # pragma: no cover
        raise ValueError("Number of bins (%i) != number of values (%i)" % (self._nbins, n_values))
    self._hpdfs = self._prepare(pdfs)
    self._hcdfs = None
    kwargs["shape"] = pdfs.shape[:-1]
    super().__init__(*args, **kwargs)
    for key, val in (("bins", self._hbins), ("check_input", self._check_input)):
        self._addmetadata(key, val)
    self._addobjdata("pdfs", self._hpdfs)

def _set_bins(self, bins):
    self._hbins = np.asarray(bins)
    self._nbins = self._hbins.size - 1
    self._hbin_widths = self._hbins[1:] - self._hbins[:-1]
    self._xmin = self._hbins[0]
    self._xmax = self._hbins[-1]

def _prepare(self, pdfs):
    pdfs_2d = reshape_to_pdf_size(pdfs, -1)
    if not self._check_input:
        return pdfs_2d
    sums = np.sum(pdfs_2d * self._hbin_widths, axis=1)
    return (pdfs_2d.T / sums).T
'''))
R("h_cdfs_pad", "hist_pdf.py", ("hist_gen._compute_cdfs", '''
def _compute_cdfs(self):
    n_rows, n_bins = self._hpdfs.shape
    cdfs = np.ndarray((n_rows, n_bins + 1))
    cdfs[:, 0] = 0.0
    cdfs[:, 1:] = np.cumsum(self._hpdfs * self._hbin_widths, axis=1)
    self._hcdfs = cdfs
'''))
R("h_cdf_prop", "hist_pdf.py", ("hist_gen._cdf", '''
def _cdf_table(self):
    """The cumulative values at the bin edges, computed when first needed"""
    if self._hcdfs is None:  # pragma: no cover
        self._compute_cdfs()
    return self._hcdfs

def _cdf(self, x, row):
    # pylint: disable=arguments-differ
    return interpolate_x_multi_y(
        x, row, self._hbins, self._cdf_table(), bounds_error=False, fill_value=(0.0, 1.0)
    ).ravel()
'''), ("hist_gen._ppf", '''
def _ppf(self, x, row):
    # pylint: disable=arguments-differ
    limits = (self._xmin, self._xmax)
    return interpolate_multi_x_y(
        x, row, self._cdf_table(), self._hbins, bounds_error=False, fill_value=limits
    ).ravel()
'''))
R("h_moment", "hist_pdf.py", ("hist_gen.custom_generic_moment", '''
def custom_generic_moment(self, m):
    order = np.asarray(m)
    centers = 0.5 * (self._hbins[1:] + self._hbins[:-1])
    weights = self._hpdfs * self._hbin_widths
    return (centers**order * weights).sum(axis=1)
'''), ("hist_gen._munp", '''
def _munp(self, m, *args):
    with np.errstate(all="ignore"):
        return self.custom_generic_moment(m)
'''))
R("h_ctor_update", "hist_pdf.py", ("hist_gen._updated_ctor_param", '''
def _updated_ctor_param(self):
    dct = super()._updated_ctor_param()
    dct.update(bins=self._hbins, pdfs=self._hpdfs, check_input=self._check_input)
    return dct
'''), ("hist_gen.get_allocation_kwds", '''
@classmethod
def get_allocation_kwds(cls, npdf, **kwargs):
    try:
        bins = kwargs["bins"]
    except KeyError:
        raise ValueError("required argument 'bins' not included in kwargs")
    return {"pdfs": ((npdf, len(bins.flatten()) - 1), "f4")}
'''))
R("i_norm_helper", "interp_pdf.py", ("interp_gen.__init__", '''
def __init__(self, xvals, yvals, *args, **kwargs):
    n_x, n_y = np.size(xvals), np.shape(yvals)[-1]
    if n_x != n_y:  # pragma: no cover
        raise ValueError("Shape of xbins in xvals (%s) != shape of xbins in yvals (%s)" % (n_x, n_y))
    self._xvals = np.asarray(xvals)
    self._xmin, self._xmax = self._xvals[0], self._xvals[-1]
    kwargs["shape"] = np.shape(yvals)[:-1]
    self._yvals = reshape_to_pdf_size(yvals, -1)
    self._ycumul = None
    self._check_input = kwargs.pop("check_input", True)
    if self._check_input:
        self._normalize()
    super().__init__(*args, **kwargs)
    self._addmetadata("xvals", self._xvals)
    self._addmetadata("check_input", self._check_input)
    self._addobjdata("yvals", self._yvals)

def _normalize(self):
    """Scale the values and their integral so that each row integrates to one"""
    self._compute_ycumul()
    total = self._ycumul[:, -1]
    self._yvals = (self._yvals.T / total).T
    self._ycumul = (self._ycumul.T / total).T
'''))
R("i_cumul_local", "interp_pdf.py", ("interp_gen._compute_ycumul", '''
def _compute_ycumul(self):
    dx = self._xvals[1:] - self._xvals[:-1]
    sums = np.add(self._yvals[:, 1:], self._yvals[:, :-1])
    ycumul = np.ndarray(np.array(self._yvals.shape))
    ycumul[:, 0] = 0.5 * self._yvals[:, 0] * (self._xvals[1] - self._xvals[0])
    ycumul[:, 1:] = np.cumsum(dx * 0.5 * sums, axis=1)
    self._ycumul = ycumul
'''))
R("i_irr_order", "interp_pdf.py", ("interp_irregular_gen.__init__", '''
def __init__(self, xvals, yvals, *args, **kwargs):
    x_shape, y_shape = np.shape(xvals), np.shape(yvals)
    if x_shape != y_shape:  # pragma: no cover
        raise ValueError("Shape of xvals (%s) != shape of yvals (%s)" % (x_shape, y_shape))
    check_input = kwargs.pop("check_input", True)
    self._check_input = check_input
    kwargs["shape"] = x_shape[:-1]
    self._xvals = reshape_to_pdf_size(xvals, -1)
    self._xmin, self._xmax = np.min(self._xvals), np.max(self._xvals)
    y_2d = reshape_to_pdf_size(yvals, -1)
    self._yvals = normalize_interp1d(self._xvals, y_2d) if check_input else y_2d
    self._ycumul = None
    super().__init__(*args, **kwargs)
    self._addmetadata("check_input", self._check_input)
    self._addobjdata("xvals", self._xvals)
    self._addobjdata("yvals", self._yvals)
'''))
R("i_irr_cumul", "interp_pdf.py", ("interp_irregular_gen._compute_ycumul", '''
def _compute_ycumul(self):
    heights = self._yvals[:, 1:]
    areas = self._xvals[:, 1:] * heights - self._xvals[:, :-1] * heights
    self._ycumul = np.ndarray(np.array(self._yvals.shape))
    self._ycumul[:, 0] = 0.0
    self._ycumul[:, 1:] = np.cumsum(areas, axis=1)
'''))
R("i_moment_dot", "interp_pdf.py", ("interp_gen.custom_generic_moment", '''
def custom_generic_moment(self, m):
    """Compute the mth moment"""
    steps = np.gradient(self._xvals)
    powers = self._xvals ** np.asarray(m)
    return np.sum(powers * self._yvals * steps, axis=1)
'''))
R("i_kw", "interp_pdf.py", ("interp_gen._cdf", '''
def _cdf(self, x, row):
    # pylint: disable=arguments-differ
    if self._ycumul is None:  # pragma: no cover
        self._compute_ycumul()
    outside = dict(bounds_error=False, fill_value=(0.0, 1.0))
    values = interpolate_x_multi_y(x, row, self._xvals, self._ycumul, **outside)
    return values.ravel()
'''))
R("q_pad_split", "quant_pdf.py", ("pad_quantiles", '''
def _first_location(quants, locs):
    slope = locs[:, 1] - locs[:, 0]
    return locs[:, 0] - quants[0] * slope / (quants[1] - quants[0])


def _last_location(quants, locs):
    slope = locs[:, -2] - locs[:, -1]
    return locs[:, -1] - (1.0 - quants[-1]) * slope / (quants[-1] - quants[-2])


def pad_quantiles(quants, locs):
    """Pad the quantiles and locations used to build a quantile representation"""
    pad_lo = quants[0] > sys.float_info.epsilon
    pad_hi = quants[-1] < 1.0
    if not (pad_lo or pad_hi):
        return quants, locs

    n_vals = quants.size
    offset_lo = 1 if pad_lo else 0
    n_out = n_vals + offset_lo + (1 if pad_hi else 0)
    quants_out = np.zeros(n_out, quants.dtype)
    locs_out = np.zeros((locs.shape[0], n_out), quants.dtype)
    quants_out[offset_lo : n_vals + offset_lo] = quants
    locs_out[:, offset_lo : n_vals + offset_lo] = locs
    if pad_lo:
        locs_out[:, 0] = _first_location(quants, locs)
    if pad_hi:
        quants_out[-1] = 1.0
        locs_out[:, -1] = _last_location(quants, locs)
    return quants_out, locs_out
'''))
R("q_ctor_build", "quant_pdf.py", ("quant_gen._instantiate_pdf_constructor", '''
def _instantiate_pdf_constructor(self):
    constructor_class = PDF_CONSTRUCTORS[self._pdf_constructor_name]
    self._pdf_constructor = constructor_class(self._quants, self._locs)
'''), ("quant_gen._updated_ctor_param", '''
def _updated_ctor_param(self):
    own = {
        "quants": self._quants,
        "locs": self._locs,
        "pdf_constructor_name": self._pdf_constructor_name,
        "check_input": self._check_input,
    }
    return {**super()._updated_ctor_param(), **own}
'''))
R("q_setter_guard", "quant_pdf.py", ("quant_gen.pdf_constructor_name!", '''
@pdf_constructor_name.setter
def pdf_constructor_name(self, value: str):
    allowed = list(PDF_CONSTRUCTORS.keys())
    if value not in allowed:
        raise ValueError(f"Unknown interpolator provided: '{value}'. Allowed interpolators are {allowed}")
    if value is not self._pdf_constructor_name:
        self._pdf_constructor_name = value
        self._instantiate_pdf_constructor()
        self._addmetadata("pdf_constructor_name", value)
    else:
        logging.warning("Already using interpolator: '%s'.", value)
'''))
R("q_pdf_rows", "quant_pdf.py", ("quant_gen._pdf", '''
def _pdf(self, x, *args):
    points, rows_of_points = np.broadcast_arrays(x, args[0])
    points, rows_of_points = np.ravel(points), np.ravel(rows_of_points)
    order = np.argsort(rows_of_points, kind="stable")
    rows, starts = np.unique(rows_of_points[order], return_index=True)
    groups = np.split(order, starts[1:])
    yvals = np.zeros(points.shape)
    for irow, members in zip(rows, groups):
        row_values = self._pdf_constructor.construct_pdf(points[members], np.array([[irow]]))
        yvals[members] = np.ravel(row_values)
    return yvals
'''))
R("m_weights_first", "mixmod_pdf.py", ("mixmod_gen.__init__", '''
def __init__(self, means, stds, weights, *args, **kwargs):
    self._scipy_version_warning()
    kwargs["shape"] = means.shape[:-1]
    self._ncomps = means.shape[-1]
    self._means, self._stds, weights_2d = (reshape_to_pdf_size(vals, -1) for vals in (means, stds, weights))
    self._weights = weights_2d
    super().__init__(*args, **kwargs)
    if np.any(weights_2d < 0):
        raise ValueError("All weights need to be larger than zero")
    totals = weights_2d.sum(axis=1)
    self._weights = weights_2d / totals[:, None]
    self._addobjdata("weights", self._weights)
    self._addobjdata("stds", self._stds)
    self._addobjdata("means", self._means)
'''))
R("m_sum_comps", "mixmod_pdf.py", ("mixmod_gen._pdf", '''
def _components(self, row):
    """Weights and normal distributions of the components, along the second to last axis"""
    weights = self.weights[row].swapaxes(-2, -1)
    normals = sps.norm(
        loc=self._means[row].swapaxes(-2, -1),
        scale=self._stds[row].swapaxes(-2, -1),
    )
    return weights, normals

def _pdf(self, x, row):
    # pylint: disable=arguments-differ
    if np.ndim(x) > 1:  # pragma: no cover
        x = np.expand_dims(x, -2)
    weights, normals = self._components(row)
    return (weights * normals.pdf(x)).sum(axis=0)
'''), ("mixmod_gen._cdf", '''
def _cdf(self, x, row):
    # pylint: disable=arguments-differ
    if np.ndim(x) > 1:  # pragma: no cover
        x = np.expand_dims(x, -2)
    weights, normals = self._components(row)
    return (weights * normals.cdf(x)).sum(axis=0)
'''))
R("m_ppf_range", "mixmod_pdf.py", ("mixmod_gen._ppf", '''
def _ppf(self, x, row):
    # pylint: disable=arguments-differ
    spread = 6 * self._stds
    lowest, highest = np.min(self._means - spread), np.max(self._means + spread)
    grid = np.linspace(lowest, highest, 201)
    rows, table_row = np.unique(row, return_inverse=True)
    table_row = table_row.reshape(np.shape(row))
    cdf_vals = self.cdf(grid, np.expand_dims(rows, -1))
    values = interpolate_multi_x_y(
        x, table_row, cdf_vals, grid, bounds_error=False, fill_value=(lowest, highest)
    )
    return values.ravel()
'''))
R("s_build_cols", "spline_pdf.py", ("build_splines", '''
def build_splines(xvals, yvals):
    reps = [splrep(xrow, yrow) for xrow, yrow in zip(xvals, yvals)]
    return tuple(np.vstack([rep[part] for rep in reps]) for part in range(3))
'''))
R("s_norm_rep", "spline_pdf.py", ("normalize_spline", '''
def normalize_spline(xvals, yvals, limits, **kwargs):
    low, high = limits[0], limits[1]

    def row_integral(irow):
        x_row, y_row = xvals[irow], yvals[irow]
        result = quad(lambda xv: splev(xv, splrep(x_row, y_row)), low, high, **kwargs)
        return result[0]

    n_rows = xvals.shape[0]
    with errstate(all="ignore"):
        integrals = np.vectorize(row_integral)(np.arange(n_rows))
    return (yvals.T / integrals).T
'''))
R("s_init_pops", "spline_pdf.py", ("spline_gen.__init__", '''
def __init__(self, *args, **kwargs):
    splx, sply, spln = (kwargs.pop(key, None) for key in ("splx", "sply", "spln"))
    if splx is None:  # pragma: no cover
        raise ValueError("splx must be provided")
    if splx.shape != sply.shape:  # pragma: no cover
        raise ValueError("Shape of xvals (%s) != shape of yvals (%s)" % (splx.shape, sply.shape))
    kwargs["shape"] = splx.shape[:-1]
    self._xmin, self._xmax = np.min(splx), np.max(splx)
    self._splx, self._sply, self._spln = (reshape_to_pdf_size(vals, -1) for vals in (splx, sply, spln))
    super().__init__(*args, **kwargs)
    self._addobjdata("splx", self._splx)
    self._addobjdata("sply", self._sply)
    self._addobjdata("spln", self._spln)
'''))
R("s_tck", "spline_pdf.py", ("spline_gen._pdf", '''
def _tck(self, irow):
    """The spline of one row, as scipy wants it"""
    return (self._splx[irow], self._sply[irow], self._spln[irow].item())

def _pdf(self, x, row):
    # pylint: disable=arguments-differ
    with errstate(all="ignore"):
        vv = np.vectorize(lambda xv, irow: splev(xv, self._tck(irow)))
    return vv(x, row).ravel()
'''), ("spline_gen._cdf", '''
def _cdf(self, x, row):
    # pylint: disable=arguments-differ
    low = self._xmin
    with errstate(all="ignore"):
        vv = np.vectorize(lambda xv, irow: splint(low, xv, self._tck(irow)))
    return vv(x, row).ravel()
'''))
R("s_samples", "spline_pdf.py", ("spline_gen.create_from_samples", '''
@classmethod
def create_from_samples(cls, xvals, samples, **kwargs):
    options = {key: val for key, val in kwargs.items() if key != "yvals"}
    yvals = evaluate_kdes(xvals, build_kdes(samples))
    n_rows = samples.shape[0]
    xvals_expand = (np.expand_dims(xvals, -1) * np.ones(n_rows)).T
    return cls.create_from_xy_vals(xvals_expand, yvals, **options)
'''))
R("p_init_type", "packed_interp_pdf.py", ("packed_interp_gen.__init__", '''
def __init__(
    self, xvals, ypacked, ymax, *args, packing_type=PackingType.linear_from_rowmax, log_floor=-3.0, **kwargs
):
    if np.size(xvals) != np.shape(ypacked)[-1]:  # pragma: no cover
        raise ValueError(
            "Shape of xbins in xvals (%s) != shape of xbins in yvals (%s)" % (np.size(xvals), np.shape(ypacked)[-1])
        )
    self._check_input = kwargs.pop("check_input", True)
    kwargs["shape"] = np.shape(ypacked)[:-1]
    self._packing_type = packing_type.value if isinstance(packing_type, PackingType) else packing_type
    self._log_floor = log_floor
    self._xvals = np.asarray(xvals)
    self._xmin = self._xvals[0]
    self._xmax = self._xvals[-1]
    self._ypacked = reshape_to_pdf_size(ypacked, -1)
    self._ymax = reshape_to_pdf_size(ymax, -1)
    self._yvals = None
    self._ycumul = None
    if self._check_input:
        self._compute_ycumul()
        norms = self._ycumul[:, -1]
        self._yvals = (self._yvals.T / norms).T
        self._ycumul = (self._ycumul.T / norms).T

    super().__init__(*args, **kwargs)
    self._addmetadata("xvals", self._xvals)
    self._addmetadata("packing_type", self._packing_type)
    self._addmetadata("log_floor", self._log_floor)
    self._addmetadata("check_input", self._check_input)
    self._addobjdata("ypacked", self._ypacked)
    self._addobjdata("ymax", self._ymax)
'''))
R("p_lazy", "packed_interp_pdf.py", ("packed_interp_gen._pdf", '''
def _get_yvals(self):
    if self._yvals is None:  # pragma: no cover
        self._unpack()
    return self._yvals

def _pdf(self, x, row):
    # pylint: disable=arguments-differ
    yvals = self._get_yvals()
    return interpolate_x_multi_y(x, row, self._xvals, yvals, bounds_error=False, fill_value=0.0).ravel()
'''), ("packed_interp_gen.custom_generic_moment", '''
def custom_generic_moment(self, m):
    order = np.asarray(m)
    dx = np.gradient(self._xvals)
    return np.sum(self._xvals**order * self._get_yvals() * dx, axis=1)
'''))
R("p_extract", "packed_interp_pdf.py", ("extract_and_pack_vals_at_x", '''
def extract_and_pack_vals_at_x(in_dist, **kwargs):
    options = dict(kwargs)
    xvals = options.pop("xvals", None)
    packing_type = options.pop("packing_type")
    if xvals is None:  # pragma: no cover
        raise ValueError("To convert to extract_xy_vals you must specify xvals")
    ypacked, ymax = pack_array(packing_type, in_dist.pdf(xvals), **options)
    result = dict(xvals=xvals, ypacked=ypacked, ymax=ymax, packing_type=packing_type)
    result.update(options)
    return result
'''))
R("k_lin", "packing_utils.py", ("linear_pack_from_rowmax", '''
def _row_max(input_array):
    return np.expand_dims(input_array.max(axis=1), -1)


def linear_pack_from_rowmax(input_array):
    row_max = _row_max(input_array)
    scaled = 255 * input_array / row_max
    return np.round(scaled).astype(np.uint8), row_max
'''), ("log_pack_from_rowmax", '''
def log_pack_from_rowmax(input_array, log_floor=-3.0):
    neg_log_floor = -1.0 * log_floor
    epsilon = np.power(10.0, 3 * log_floor)
    row_max = _row_max(input_array)
    logs = np.log10((input_array + epsilon) / row_max)
    scaled = np.round(255 * (logs + neg_log_floor) / neg_log_floor)
    return scaled.clip(0.0, 255.0).astype(np.uint8), row_max
'''))
R("k_unlog", "packing_utils.py", ("log_unpack_from_rowmax", '''
def log_unpack_from_rowmax(packed_array, row_max, log_floor=-3.0):
    neg_log_floor = -1.0 * log_floor
    fraction = np.power(10, neg_log_floor * (packed_array / 255.0 - 1.0))
    fraction = np.where(packed_array == 0, 0.0, fraction)
    return row_max * fraction
'''), ("unpack_array", '''
def unpack_array(packing_type, packed_array, **kwargs):
    row_max = kwargs.get("row_max")
    if packing_type == PackingType.linear_from_rowmax:
        return linear_unpack_from_rowmax(packed_array, row_max=row_max)
    if packing_type == PackingType.log_from_rowmax:
        log_floor = kwargs.get("log_floor", -3)
        return log_unpack_from_rowmax(packed_array, row_max=row_max, log_floor=log_floor)
    raise ValueError(f"Unpacking for packing type {packing_type} is not implemetned")
'''))
R("sp_init", "sparse_pdf.py", ("sparse_gen.__init__", '''
def __init__(self, xvals, mu, sig, dims, sparse_indices, *args, **kwargs):
    self._cut = kwargs.pop("cut", 1e-5)
    self._xvals = xvals
    self.mu, self.sig, self.dims = mu, sig, dims
    self.sparse_indices = sparse_indices

    yvals = self._expand(xvals, mu, sig, dims, sparse_indices)
    kwargs.setdefault("xvals", xvals)
    kwargs.setdefault("yvals", yvals)
    super().__init__(*args, **kwargs)

    self._clearobjdata()
    self._addmetadata("xvals", self._xvals)
    self._addmetadata("mu", self.mu)
    self._addmetadata("sig", self.sig)
    self._addmetadata("dims", self.dims)
    self._addmetadata("cut", self._cut)
    self._addobjdata("sparse_indices", self.sparse_indices)

def _expand(self, xvals, mu, sig, dims, sparse_indices):
    """The values on the grid, one row per pdf"""
    basis = sparse_rep.create_basis(dict(xvals=xvals, mu=mu, sig=sig, dims=dims), cut=self._cut)
    basis_indices, weights = sparse_rep.decode_sparse_indices(sparse_indices)
    y = (basis[:, basis_indices] * weights).sum(axis=-1)
    y /= sciint.trapezoid(y.T, xvals)
    return y.T
'''))
R("sr_decode", "sparse_rep.py", ("decode_sparse_indices", '''
def decode_sparse_indices(indices):
    """decode sparse indices into basis indices and weigths"""
    Ncoef = 32001
    decoded = np.array([get_N(index) for index in indices])
    coefs, basis = decoded[:, 0, :], decoded[:, 1, :]
    vals = coefs * (1.0 / (Ncoef - 1))
    vals[:, 0] = 1.0
    return basis, vals
'''))
R("sr_basis_iter", "sparse_rep.py", ("create_voigt_basis", '''
def create_voigt_basis(xvals, mu, Nmu, sigma, Nsigma, Nv, cut=1.0e-5):
    means = np.linspace(mu[0], mu[1], Nmu)
    sig = np.linspace(sigma[0], sigma[1], Nsigma)
    gamma = np.linspace(0, 0.5, Nv)

    def column(mean, sd, gam):
        profile = voigt_profile(xvals - mean, sd, gam)
        profile = np.where(profile >= cut, profile, 0.0)
        return profile / sla.norm(profile)

    A = np.zeros((len(xvals), Nmu * Nsigma * Nv))
    kk = 0
    for i in range(Nmu):
        for j in range(Nsigma):
            for k in range(Nv):
                A[:, kk] = column(means[i], sig[j], gamma[k])
                kk += 1
    return A
'''))
R("sr_shapes", "sparse_rep.py", ("indices2shapes", '''
def indices2shapes(sparse_indices, meta):
    Nmu, Nsigma, Nv, Ncoef = (meta["dims"][i] for i in range(4))
    mu, sigma = meta["mu"], meta["sig"]

    means_array = np.linspace(mu[0], mu[1], Nmu)
    sig_array = np.linspace(sigma[0], sigma[1], Nsigma)
    gam_array = np.linspace(0, 0.5, Nv)

    sp_ind = np.array(list(map(get_N, sparse_indices)))
    spi, Dind2 = sp_ind[:, 0, :], sp_ind[:, 1, :]
    dVals = 1.0 / (Ncoef - 1)
    vals = spi * dVals
    vals[:, 0] = 1.0

    per_mean = Nsigma * Nv
    within = Dind2 % per_mean
    means = means_array[np.array(Dind2 / per_mean, int)]
    sigmas = sig_array[np.array(within / Nv, int)]
    gammas = gam_array[np.array(within % Nv, int)]
    return vals, means, sigmas, gammas
'''))
R("sr_pdf", "sparse_rep.py", ("pdf_from_sparse", '''
def pdf_from_sparse(sparse_indices, A, xvals, cut=1.0e-5):
    indices, vals = decode_sparse_indices(sparse_indices)
    weighted = A[:, indices] * vals
    pdf_y = weighted.sum(axis=-1)
    pdf_y = np.where(pdf_y >= cut, pdf_y, 0.0)
    pdf_y /= sciint.trapezoid(pdf_y.T, xvals)
    return pdf_y
'''), ("shapes2pdf", '''
def shapes2pdf(wa, ma, sa, ga, meta, cut=1e-5):
    x = meta["xvals"]
    pdf = np.zeros_like(x)
    for weight, mean, sd, gam in zip(wa, ma, sa, ga):
        profile = voigt_profile(x - mean, sd, gam)
        kept = np.where(profile >= cut, profile, 0.0)
        pdf += weight * kept / sla.norm(kept)
    pdf = np.where(pdf >= cut, pdf, 0.0)
    total = sciint.trapezoid(pdf, x)
    return pdf / total
'''))
R("sr_bits", "sparse_rep.py", ("get_N", '''
def get_N(longN):
    """Extract coefficients fron the 32bits integer"""
    mask = (1 << 16) - 1
    return longN >> 16, longN & mask
'''), ("combine_int", '''
def combine_int(Ncoef, Nbase):
    shifted = Ncoef << 16
    return shifted | Nbase
'''))

# ---------------------------------------------------------------- pdf_gen
R("g_hist_shared", "pdf_gen.py", ("rv_frozen_func", '''
def _histogramize(frozen, bins):
    """Integrate the distributions over bins"""
    cdf_vals = reshape_to_pdf_size(frozen.cdf(bins), -1)
    bin_vals = cdf_vals[:, 1:] - cdf_vals[:, 0:-1]
    return (bins, reshape_to_pdf_shape(bin_vals, frozen.shape, bins.size - 1))


class rv_frozen_func(rv_continuous_frozen):
    """Trivial extension of `scipy.stats.rv_continuous_frozen`"""

    def __init__(self, dist, *args, **kwds):
        super().__init__(dist, *args, **kwds)
        array_list = [np.array(val) for val in self.kwds.values()]
        bc = np.broadcast(array_list)
        ss = bc.shape
        self._shape = ss[1:-1] if len(ss) >= 2 else 1
        self._npdf = np.prod(self._shape).astype(int)
        self._ndim = np.size(self._shape)

    @property
    def ndim(self):
        return self._ndim

    @property
    def shape(self):
        return self._shape

    @property
    def npdf(self):
        return self._npdf

    def histogramize(self, bins):
        return _histogramize(self, bins)
'''), ("rv_frozen_rows.histogramize", '''
def histogramize(self, bins):
    return _histogramize(self, bins)
'''))
R("g_rows_init", "pdf_gen.py", ("rv_frozen_rows.__init__", '''
def __init__(self, dist, shape, *args, **kwds):
    npdf = np.prod(shape).astype(int)
    self._shape = shape
    self._npdf = npdf
    self._ndim = np.size(shape)
    if npdf is not None:
        row = np.arange(npdf).reshape(shape)
        kwds.setdefault("row", np.expand_dims(row, -1))
    super().__init__(dist, *args, **kwds)
'''))
R("g_rvs", "pdf_gen.py", ("Pdf_rows_gen._rvs", '''
def _rvs(self, *args, size=None, random_state=None):
    draws = random_state.uniform(size=size)
    values = self._ppf(draws, *args)
    return values if size is None else values.reshape(size)
'''))
R("g_argcheck", "pdf_gen.py", ("Pdf_rows_gen._argcheck", '''
def _argcheck(self, *args):
    if not args:
        return np.atleast_1d(1)
    row = asarray(args[0])
    valid = np.logical_and(row >= 0, row < self._npdf)
    return np.atleast_1d(np.logical_and(1, valid))
'''))
R("g_create", "pdf_gen.py", ("Pdf_gen.create_gen", '''
@classmethod
def create_gen(cls, **kwds):
    """Create and return a `scipy.stats.rv_continuous` object using the keyword arguemntets provided"""
    name = kwds.get("name", "dist")
    rest = {key: val for key, val in kwds.items() if key != "name"}
    return cls(name=name), rest
'''), ("Pdf_gen._addclassmetadata", '''
def _addclassmetadata(self, cls):
    self._metadata.update(
        pdf_name=np.array([cls.name.encode()]),
        pdf_version=np.array([cls.version]),
    )
'''))
R("g_wrap_alloc", "pdf_gen.py", ("Pdf_gen_wrap.get_allocation_kwds", '''
@classmethod
def get_allocation_kwds(cls, npdf, **kwargs):
    shape = (npdf, 1)
    keywords = {}
    for key, val in kwargs.items():
        keywords[key] = (shape, val.dtype)
    return keywords
'''))

# ---------------------------------------------------------------- conversions
R("c_required", "conversion_funcs.py", ("extract_vals_at_x", '''
def _required(kwargs, key, message):
    value = kwargs.pop(key, None)
    if value is None:
        raise ValueError(message)
    return value


def extract_vals_at_x(in_dist, **kwargs):
    xvals = _required(kwargs, "xvals", "To convert to extract_xy_vals you must specify xvals")
    return dict(xvals=xvals, yvals=in_dist.pdf(xvals))
'''), ("extract_xy_vals", '''
def extract_xy_vals(in_dist, **kwargs):
    xvals = _required(kwargs, "xvals", "To convert using extract_xy_vals you must specify xvals")
    yvals = in_dist.pdf(xvals)
    return dict(xvals=np.ones(yvals.shape) * np.squeeze(xvals), yvals=yvals)
'''), ("extract_quantiles", '''
def extract_quantiles(in_dist, **kwargs):
    quants = _required(kwargs, "quants", "To convert using extract_quantiles you must specify quants")
    return dict(quants=quants, locs=in_dist.ppf(quants))
'''), ("extract_hist_values", '''
def extract_hist_values(in_dist, **kwargs):
    edges = _required(kwargs, "bins", "To convert using extract_hist_samples you must specify bins")
    bins, counts = in_dist.histogramize(edges)
    return dict(bins=bins, pdfs=counts / bin_widths(bins))
'''))
R("c_samples", "conversion_funcs.py", ("extract_samples", '''
def extract_samples(in_dist, **kwargs):
    size = kwargs.pop("size", 1000)
    random_state = kwargs.pop("random_state", None)
    xvals = kwargs.pop("xvals")
    samples = in_dist.rvs(size=size, random_state=random_state)
    return {"samples": samples, "xvals": xvals, "yvals": None}
'''))
R("c_hist_samples", "conversion_funcs.py", ("extract_hist_samples", '''
def extract_hist_samples(in_dist, **kwargs):
    bins = kwargs.pop("bins", None)
    if bins is None:
        raise ValueError("To convert using extract_hist_samples you must specify bins")
    size = kwargs.pop("size", 1000)
    random_state = kwargs.pop("random_state", None)
    samples = in_dist.rvs(size=size, random_state=random_state)
    signature = "(%i)->(%i)" % (samples.shape[-1], bins.size - 1)
    count = np.vectorize(lambda sample: np.histogram(sample, bins=bins)[0], signature=signature)
    return dict(bins=bins, pdfs=count(samples) / bin_widths(bins))
'''))
R("c_mixmod", "conversion_funcs.py", ("extract_mixmod_fit_samples", '''
def extract_mixmod_fit_samples(in_dist, **kwargs):
    n_comps = kwargs.pop("ncomps", 3)
    n_sample = kwargs.pop("nsamples", 1000)
    random_state = kwargs.pop("random_state", None)
    samples = in_dist.rvs(size=n_sample, random_state=random_state)
    if isinstance(random_state, np.random.Generator):
        random_state = np.random.RandomState(random_state.bit_generator)

    def mixmod_helper(samps):
        estimator = mixture.GaussianMixture(n_components=n_comps, random_state=random_state)
        estimator.fit(samps.reshape(-1, 1))
        stdevs = np.sqrt(estimator.covariances_[:, 0, 0])
        return np.vstack([estimator.weights_, estimator.means_[:, 0], stdevs])

    vv = np.vectorize(mixmod_helper, signature="(%i)->(3,%i)" % (n_sample, n_comps))
    fit_vals = vv(samples)
    names = ("weights", "means", "stds")
    return {name: fit_vals[:, i, :] for i, name in enumerate(names)}
'''))
R("c_sparse", "conversion_funcs.py", ("extract_sparse_from_xy", '''
def _regrid(xvals, yvals, nvals):
    """Interpolate onto an even grid which ends where the last positive value is"""
    xmin = np.min(xvals)
    _, j = np.where(yvals > 0)
    xmax = np.max(xvals[j])
    grid = np.linspace(xmin, xmax, nvals)
    return grid, sciinterp.interp1d(xvals, yvals, assume_sorted=True)(grid)


def extract_sparse_from_xy(in_dist, **kwargs):
    yvals = kwargs.pop("yvals", in_dist.objdata()["yvals"])
    xvals = kwargs.pop("xvals", in_dist.metadata()["xvals"][0])
    nvals = kwargs.pop("nvals", 300)
    newx, newpdf = _regrid(xvals, yvals, nvals)
    sparse_indices, metadata, _ = build_sparse_representation(newx, newpdf)
    metadata.pop("Ntot")
    metadata.update(xvals=newx, sparse_indices=sparse_indices)
    return metadata
'''))
R("c_voigt", "conversion_funcs.py", ("extract_voigt_mixmod", '''
def extract_voigt_mixmod(in_dist, **kwargs):
    objdata = in_dist.objdata()
    means, stds, weights = (objdata[key] for key in ("means", "stds", "weights"))
    return dict(means=means, stds=stds, weights=weights, gammas=np.zeros_like(means), **kwargs)
'''), ("extract_voigt_xy", '''
def extract_voigt_xy(in_dist, **kwargs):
    sparse_results = extract_voigt_xy_sparse(in_dist, **kwargs)
    shapes = indices2shapes(sparse_results["indices"], sparse_results["metadata"])
    weights, means, stds, gammas = shapes
    return dict(means=means, stds=stds, weights=weights, gammas=gammas)
'''))

# ---------------------------------------------------------------- reconstruction
R("r_dual", "quantile_pdf_constructors/dual_spline_average.py", ("DualSplineAverage.prepare_constructor", '''
def prepare_constructor(self) -> None:
    n_rows, n_cols = self._locations.shape
    slopes = 2 * np.diff(self._quantiles) / np.diff(self._locations)
    zeros = np.zeros(n_rows)
    p_of_zs = np.zeros(self._locations.shape)
    for i in range(1, n_cols):
        candidate = slopes[:, i - 1] - p_of_zs[:, i - 1]
        p_of_zs[:, i] = np.maximum(zeros, candidate)
    self._p_of_zs = np.maximum(np.zeros(self._locations.shape), p_of_zs)
'''))
R("r_cdfspline", "quantile_pdf_constructors/cdf_spline_derivative.py", ("CdfSplineDerivative.prepare_constructor", '''
def prepare_constructor(self, spline_order: int = 3) -> None:
    def derivative_of(locations):
        spline = InterpolatedUnivariateSpline(locations, self._quantiles, k=spline_order, ext=1)
        return spline.derivative()

    self._interpolation_functions = [derivative_of(locations) for locations in self._locations]
'''))
R("r_linear", "quantile_pdf_constructors/piecewise_linear.py", ("PiecewiseLinear.prepare_constructor", '''
def prepare_constructor(self) -> None:
    dq = self._quantiles[1:] - self._quantiles[0:-1]
    dx = self._locations[:, 1:] - self._locations[:, 0:-1]
    self._adjusted_locations = self._locations[:, 1:] - np.diff(self._locations) / 2
    self._cdf_derivatives = dq / dx
'''))
R("r_const", "quantile_pdf_constructors/piecewise_constant.py", ("PiecewiseConstant.prepare_constructor", '''
def prepare_constructor(self) -> None:
    locations = self._locations
    slopes = (self._quantiles[1:] - self._quantiles[0:-1]) / (locations[:, 1:] - locations[:, 0:-1])
    first = np.zeros(locations.shape)
    first[:, 0:-1] = slopes
    second = np.zeros(locations.shape)
    second[:, 0:-1] = first[:, 1:] - first[:, 0:-1]
    self._cdf_derivatives = first
    self._cdf_2nd_derivatives = second
    self._adjusted_locations = locations[:, 1:] - np.diff(locations) / 2
'''))

# ---------------------------------------------------------------- metrics
R("x_grid", "metrics/metrics.py", ("_calculate_grid_parameters", '''
def _calculate_grid_parameters(limits, dx: float = 0.01) -> Grid:
    extent = limits[-1] - limits[0]
    cardinality = int(extent / dx)
    resolution = extent / (cardinality - 1)
    half = resolution / 2
    return Grid(
        grid_values=np.linspace(limits[0], limits[1], cardinality),
        cardinality=cardinality,
        resolution=resolution,
        hist_bin_edges=np.histogram_bin_edges((limits[0] - half, limits[1] + half), cardinality),
        limits=limits,
    )
'''))
R("x_kld_pair", "metrics/metrics.py", ("calculate_kld", '''
def _values_on_grid(ensemble, grid):
    return ensemble.gridded(grid.grid_values)[1]


def calculate_kld(p, q, limits, dx=0.01):
    if p.shape != q.shape:
        raise ValueError("Cannot calculate KLD between two ensembles with different shapes")
    grid = _calculate_grid_parameters(limits, dx)
    pn, qn = _values_on_grid(p, grid), _values_on_grid(q, grid)
    Dpq = array_metrics.quick_kld(pn, qn, grid.resolution)
    if np.any(Dpq < 0.0):  # pragma: no cover
        print("broken KLD: " + str((Dpq, pn, qn, grid.resolution)))
        return epsilon * np.ones(Dpq.shape)
    return Dpq
'''), ("calculate_rmse", '''
def calculate_rmse(p, q, limits, dx=0.01):
    if p.shape != q.shape:
        raise ValueError("Cannot calculate RMSE between two ensembles with different shapes")
    grid = _calculate_grid_parameters(limits, dx)
    return array_metrics.quick_rmse(_values_on_grid(p, grid), _values_on_grid(q, grid), grid.cardinality)
'''))
R("x_rbpe_one", "metrics/metrics.py", ("calculate_rbpe", '''
def calculate_rbpe(p, limits=(np.inf, np.inf)):
    def risk_of(dist):
        if dist.npdf != 1:
            raise ValueError(
                "quick_rbpe only handles Ensembles with a single PDF for ensembles with more than one PDF, "
                "use the qp.metrics.risk_based_point_estimate function."
            )
        bounds = (dist.ppf(0.01)[0][0], dist.ppf(0.99)[0][0])
        return array_metrics.quick_rbpe(lambda z: dist.pdf(z)[0][0], bounds, limits)

    return np.array([risk_of(p[n]) for n in range(p.npdf)])
'''))
R("x_outlier", "metrics/metrics.py", ("calculate_outlier_rate", '''
def calculate_outlier_rate(p, lower_limit=0.0001, upper_limit=0.9999):
    try:
        _check_ensemble_is_not_nested(p)
    except ValueError:
        logging.warning("Each element in the ensemble `p` must be a single distribution.")
    rates = []
    for dist in p:
        below = dist.cdf(lower_limit)
        above = 1.0 - dist.cdf(upper_limit)
        rates.append((below + above)[0][0])
    return np.array(rates)
'''))
R("x_gof", "metrics/goodness_of_fit.py", ("_anderson_darling", '''
def _anderson_darling(dist, data):
    n = data.shape[-1]
    x = np.sort(data, axis=-1)
    weights = (2 * np.arange(1, n + 1) - 1) / n
    logs = dist.logcdf(x) + dist.logsf(x[..., ::-1])
    return -n - np.sum(weights * logs, axis=-1)
'''), ("_kolmogorov_smirnov", '''
def _kolmogorov_smirnov(dist, data):
    cdfvals = dist.cdf(np.sort(data, axis=-1))
    return np.maximum(_compute_dplus(cdfvals), _compute_dminus(cdfvals))
'''), ("_cramer_von_mises", '''
def _cramer_von_mises(dist, data):
    n = data.shape[-1]
    cdfvals = dist.cdf(np.sort(data, axis=-1))
    expected = (2 * np.arange(1, n + 1) - 1) / (2 * n)
    return 1 / (12 * n) + np.sum((expected - cdfvals) ** 2, axis=-1)
'''))
R("x_brier_errors", "metrics/brier.py", ("Brier._calculate_metric", '''
def _squared_errors(self):
    return np.sum((self._prediction - self._truth) ** 2, axis=self._axis_for_summation)

def _calculate_metric(self):
    return np.mean(self._squared_errors())
'''), ("Brier._calculate_metric_for_accumulation", '''
def _calculate_metric_for_accumulation(self):
    return np.sum(self._squared_errors())
'''), ("Brier.evaluate", '''
def _prepare(self):
    self._manipulate_data()
    self._validate_data()

def evaluate(self):
    self._prepare()
    return self._calculate_metric()
'''), ("Brier.accumulate", '''
def accumulate(self):
    self._prepare()
    return self._calculate_metric_for_accumulation()
'''))
R("x_cde", "metrics/concrete_metric_classes.py", ("CDELossMetric.evaluate", '''
def _terms(self, estimate, reference):
    """Squared densities integrated over the grid, and densities at the point nearest each reference"""
    grid = self._xvals
    pdfs = estimate.pdf(grid)
    nearest = [np.argmin(np.abs(grid - z)) for z in reference]
    return np.trapz(pdfs**2, x=grid), pdfs[range(estimate.npdf), nearest]

def evaluate(self, estimate, reference):
    squares, at_reference = self._terms(estimate, reference)
    return np.mean(squares) - 2 * np.mean(at_reference)
'''), ("CDELossMetric.accumulate", '''
def accumulate(self, estimate, reference):
    squares, at_reference = self._terms(estimate, reference)
    return (np.sum(squares), np.sum(at_reference), estimate.npdf)
'''), ("CDELossMetric.finalize", '''
def finalize(self, tuples):
    sum1, sum2, count = np.sum(np.atleast_2d(tuples), axis=0)
    return sum1 / count - 2 * (sum2 / count)
'''))
R("x_digest", "metrics/concrete_metric_classes.py", ("DistToPointMetricDigester.finalize", '''
def finalize(self, centroids: np.ndarray = []):
    def digest_of(centroid):
        return pytdigest.TDigest.of_centroids(np.array(centroid), compression=self._tdigest_compression)

    total = reduce(add, [digest_of(centroid) for centroid in centroids])
    return self.compute_from_digest(total)
'''))
R("x_pitdigest", "metrics/concrete_metric_classes.py", ("PITMetric.compute_from_digest", '''
def compute_from_digest(self, digest):
    n_samples = int(digest.weight)
    n_grid = len(self._eval_grid)
    if n_samples < n_grid:
        print(
            "Number of pit samples is smaller than the evaluation grid size. "
            "Will create a new evaluation grid with size = number of pit samples"
        )
        eval_grid = np.linspace(0, 1, n_samples)
    else:
        eval_grid = self._eval_grid
    return PIT._produce_output_ensemble(digest.inverse_cdf(eval_grid), eval_grid)
'''))
R("x_point_ez", "metrics/point_estimate_metric_classes.py", ("PointStatsEz", '''
def _ez(estimate, reference):
    """Scaled differences"""
    return (estimate - reference) / (1.0 + reference)


class PointStatsEz(PointToPointMetric):
    """Copied from PZDC1paper repo. Adapted to remove the cut based on
    magnitude."""

    metric_name = "point_stats_ez"
    metric_output_type = MetricOutputType.one_value_per_distribution

    def __init__(self) -> None:
        super().__init__()

    def evaluate(self, estimate, reference):
        return _ez(estimate, reference)
'''), ("PointBias.evaluate", '''
def evaluate(self, estimate, reference):
    return np.median(_ez(estimate, reference))
'''), ("PointSigmaIQR.evaluate", '''
def evaluate(self, estimate, reference):
    upper, lower = np.percentile(_ez(estimate, reference), [75.0, 25.0])
    return (upper - lower) / 1.349
'''))
R("x_point_out", "metrics/point_estimate_metric_classes.py", ("PointOutlierRate.evaluate", '''
def evaluate(self, estimate, reference):
    ez = (estimate - reference) / (1.0 + reference)
    cut = np.maximum(0.06, 3.0 * PointSigmaIQR().evaluate(estimate, reference))
    n_outliers = np.sum(np.fabs(ez) > cut)
    return float(n_outliers) / float(len(ez))
'''), ("PointOutlierRate.compute_from_digest", '''
def compute_from_digest(self, digest):
    x75, x25 = digest.inverse_cdf([0.75, 0.25])
    cut = np.maximum(0.06, 3.0 * ((x75 - x25) / 1.349))
    centroids = digest.get_centroids()
    positions, weights = centroids[:, 0], centroids[:, 1]
    return float(np.sum(weights[np.fabs(positions) > cut])) / digest.weight
'''))
R("x_metric_names", "metrics/factory.py", ("get_all_subclasses", '''
def get_all_subclasses(cls):
    """Utility function to recursively get all the subclasses of a class"""
    found = []
    for subclass in cls.__subclasses__():
        found += [subclass] + get_all_subclasses(subclass)
    return found
'''), ("MetricFactory.update_metrics", '''
@classmethod
def update_metrics(cls):
    """Update the dictionary of available metrics"""
    metrics = {}
    for subcls in get_all_subclasses(BaseMetric):
        if subcls.metric_name:
            metrics[subcls.metric_name.replace("Metric", "")] = subcls
    cls.metric_dict = metrics
'''))

if __name__ == "__main__":
    import sys
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    run(names or list(ALL))
