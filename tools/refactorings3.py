"""Third batch of behaviour-preserving rewrites, written without looking at what the machinery makes of them."""
from refactorings import R, run, ALL

ALL.clear()

# ---------------------------------------------------------------- ensemble
R("e_getitem", "ensemble.py", ("Ensemble.__getitem__", '''
def __getitem__(self, key):
    data = {}
    for name, value in self.metadata().items():
        if name not in ("pdf_name", "pdf_version"):
            data[name] = np.squeeze(value)
    for name, value in slice_dict(self.objdata(), key).items():
        data[name] = value if np.ndim(value) >= 2 else np.expand_dims(value, 0)
    ancil = None
    if self._ancil is not None:
        ancil = slice_dict(self._ancil, key)
    return Ensemble(self._gen_obj.create, data=data, ancil=ancil)
'''))
R("e_getitem2", "ensemble.py", ("Ensemble.__getitem__", '''
def _sliced_objdata(self, key):
    """Object data of the selected PDFs, always two-dimensional"""
    sliced = slice_dict(self.objdata(), key)
    return {
        name: np.expand_dims(value, 0) if len(np.shape(value)) < 2 else value
        for name, value in sliced.items()
    }

def __getitem__(self, key):
    shared = self.metadata()
    del shared["pdf_name"]
    del shared["pdf_version"]
    red_data = {name: np.squeeze(value) for name, value in shared.items()}
    red_data.update(self._sliced_objdata(key))
    return Ensemble(
        self._gen_obj.create,
        data=red_data,
        ancil=slice_dict(self._ancil, key) if self._ancil is not None else None,
    )
'''))
R("e_objdata", "ensemble.py", ("Ensemble.objdata", '''
def objdata(self):
    """Return the object data for this ensemble"""
    frozen_kwds = {k: v for k, v in self._frozen.kwds.items() if k != "row"}
    return {**frozen_kwds, **self._gen_obj.objdata}
'''), ("Ensemble.metadata", '''
def metadata(self):
    """Return the metadata for this ensemble"""
    return dict(self._gen_obj.metadata)
'''))
R("e_update_objdata", "ensemble.py", ("Ensemble.update_objdata", '''
def update_objdata(self, data, ancil=None):
    skipped = ("pdf_name", "pdf_version")
    new_data = {k: np.squeeze(v) for k, v in self.metadata().items() if k not in skipped}
    for source in (self.objdata(), data):
        new_data.update(source)
    self.update(new_data, ancil)
'''))
R("e_append", "ensemble.py", ("Ensemble.append", '''
def append(self, other_ens):
    metas = [self.metadata(), other_ens.metadata()]
    if not compare_dicts(metas):  # pragma: no cover
        raise KeyError("Metadata does not match, can not append")
    full_ancil = None
    if not (self._ancil is None or other_ens.ancil is None):  # pragma: no cover
        full_ancil = concatenate_dicts([self.ancil, other_ens.ancil])
    self.update_objdata(concatenate_dicts([ens.objdata() for ens in (self, other_ens)]), full_ancil)
'''))
R("e_tables", "ensemble.py", ("Ensemble.build_tables", '''
def build_tables(self):
    tables = {"meta": self.metadata(), "data": self.objdata()}
    ancil = self.ancil
    if ancil is None:
        return tables
    tables["ancil"] = ancil
    return tables
'''), ("Ensemble.mode", '''
def mode(self, grid):
    xs, pdf_vals = self.gridded(grid)
    best = pdf_vals.argmax(axis=-1)
    modes = xs[best]
    return modes[..., np.newaxis]
'''))
R("e_gridded", "ensemble.py", ("Ensemble.gridded", '''
def _has_grid(self, grid):
    """True if the cached grid is the requested one"""
    return self._gridded is not None and np.array_equal(self._gridded[0], grid)

def gridded(self, grid):
    if self._has_grid(grid):
        return self._gridded
    pdf_vals = self.pdf(grid)
    self._gridded = (np.array(grid), pdf_vals)
    return self._gridded
'''))
R("e_alloc", "ensemble.py", ("Ensemble._get_allocation_kwds", '''
def _get_allocation_kwds(self, npdf):
    tables = self.build_tables()
    tables.pop("meta")
    keywords = {}
    for group, tab in tables.items():
        keywords[group] = {
            key: ([npdf] + list(array.shape[1:]), array.dtype) for key, array in tab.items()
        }
    return keywords
'''))
R("e_write", "ensemble.py", ("Ensemble.write_to", '''
def write_to(self, filename):
    root, extension = os.path.splitext(filename)
    io.write(self.build_tables(), root, extension[1:])
'''), ("Ensemble.writeHdf5Chunk", '''
def writeHdf5Chunk(self, fname, start, end):
    chunk = {group: table for group, table in self.build_tables().items() if group != "meta"}
    io.writeDictToHdf5Chunk(fname, chunk, start, end)
'''), ("Ensemble.finalizeHdf5Write", '''
def finalizeHdf5Write(self, filename):
    io.finalizeHdf5Write(filename, "meta", **self.metadata())
'''))
R("e_convert", "ensemble.py", ("Ensemble.convert_to", '''
def convert_to(self, to_class, **kwargs):
    method = kwargs.get("method", None)
    options = {k: v for k, v in kwargs.items() if k != "method"}
    ctor_func = to_class.creation_method(method)
    if ctor_func is None:  # pragma: no cover
        raise KeyError(f"Class named {to_class.name} does not have a creation_method named {method}")
    extract_func = to_class.extraction_method(method)
    if extract_func is None:  # pragma: no cover
        raise KeyError(f"Class named {to_class.name} does not have a extraction_method named {method}")
    return Ensemble(ctor_func, data=extract_func(self, **options))
'''))
R("e_partial", "ensemble.py", ("Ensemble.moment_partial", '''
def moment_partial(self, n, limits, dx=0.01):
    lower, upper = limits[0], limits[-1]
    width = upper - lower
    npoints = int(width / dx)
    grid = np.linspace(lower, upper, npoints)
    _, pdf_vals = self.gridded(grid)
    return quick_moment(pdf_vals, np.power(grid, n), width / (npoints - 1))
'''), ("Ensemble.integrate", '''
def integrate(self, limits):
    lower, upper = limits[0], limits[1]
    return self.cdf(upper) - self.cdf(lower)
'''))
R("e_ancil", "ensemble.py", ("Ensemble.add_to_ancil", '''
def add_to_ancil(self, to_add):  # pragma: no cover
    check_array_shapes(to_add, self.npdf)
    if self._ancil is None:
        merged = {}
    else:
        merged = self._ancil.copy()
    for key, val in to_add.items():
        merged[key] = val
    self._ancil = merged
'''))
R("e_rvs", "ensemble.py", ("Ensemble.rvs", '''
def rvs(self, size=None, random_state=None):
    shape = (self.npdf, size)
    return self._frozen.rvs(size=shape, random_state=random_state)
'''), ("Ensemble.initializeHdf5Write", '''
def initializeHdf5Write(self, filename, npdf, comm=None):
    return io.initializeHdf5Write(filename, comm=comm, **self._get_allocation_kwds(npdf))
'''))

# ---------------------------------------------------------------- factory
R("f_build", "factory.py", ("Factory._build_data_dict", '''
@staticmethod
def _unwrap_metadata(value):
    """Take the only element of a metadata column"""
    if np.ndim(value) == 1:
        value = value[0]
    elif np.ndim(value) > 1:
        value = np.squeeze(value)
        if np.ndim(value) == 0:
            value = value.item()
    return value.decode() if isinstance(value, bytes) else value

@staticmethod
def _build_data_dict(md_table, data_table):
    data_dict = {col: Factory._unwrap_metadata(col_data) for col, col_data in md_table.items()}
    for col, col_data in data_table.items():
        if col_data.ndim >= 2:
            data_dict[col] = col_data
        else:
            data_dict[col] = np.expand_dims(col_data, -1)
    return data_dict
'''))
R("f_from_tables", "factory.py", ("Factory.from_tables", '''
def from_tables(self, tables):
    data = self._build_data_dict(tables["meta"], tables["data"])
    pdf_name, pdf_version = data.pop("pdf_name"), data.pop("pdf_version")
    if pdf_name not in self:  # pragma: no cover
        raise KeyError("Class nameed %s is not in factory" % pdf_name)
    the_class = self[pdf_name]
    reader_convert = the_class.reader_method(pdf_version)
    if reader_convert is not None:  # pragma: no cover
        data = reader_convert(data)
    return Ensemble(the_class.creation_method(None), data=data, ancil=tables.get("ancil", None))
'''))
R("f_read", "factory.py", ("Factory.read", '''
def read(self, filename):
    if os.path.splitext(filename)[1] == ".pq":
        options = dict(keys=["data", "meta", "ancil"], allow_missing_keys=True)
    else:
        options = dict(keys=None, allow_missing_keys=False)
    return self.from_tables(io.read(filename, NUMPY_DICT, **options))
'''))
R("f_iterator", "factory.py", ("Factory.iterator", '''
@staticmethod
def _read_chunk(group, start, end):
    chunk = OrderedDict()
    for key, val in group.items():
        chunk[key] = io.readHdf5DatasetToArray(val, start, end)
    return chunk

def iterator(self, filename, chunk_size=100000, rank=0, parallel_size=1):
    _, extension = os.path.splitext(filename)
    if extension != ".hdf5":  # pragma: no cover
        raise TypeError("Can only use qp.iterator on hdf5 files")

    metadata = io.readHdf5ToDict(filename, "meta")
    pdf_name = metadata.pop("pdf_name")[0].decode()
    metadata.pop("pdf_version")
    if pdf_name not in self:  # pragma: no cover
        raise KeyError("Class nameed %s is not in factory" % pdf_name)
    ctor_func = self[pdf_name].creation_method(None)
    data_group, data_file = io.readHdf5Group(filename, "data")
    try:
        ancil_group, ancil_file = io.readHdf5Group(filename, "ancil")
    except KeyError:
        ancil_group = ancil_file = None
    num_rows = io.getGroupInputDataLength(data_group)
    try:
        for start, end in io.data_ranges_by_rank(num_rows, chunk_size, parallel_size, rank):
            data = self._build_data_dict(metadata, self._read_chunk(data_group, start, end))
            ancil_data = None if ancil_group is None else self._read_chunk(ancil_group, start, end)
            yield start, end, Ensemble(ctor_func, data=data, ancil=ancil_data)
    finally:
        data_file.close()
        if ancil_file is not None:
            ancil_file.close()
'''))
R("f_add_class", "factory.py", ("Factory.add_class", '''
def add_class(self, the_class):
    if not hasattr(the_class, "name"):  # pragma: no cover
        raise AttributeError(
            "Can not add class %s to factory because it doesn't have a name attribute"
            % the_class
        )
    class_name = the_class.name
    if class_name in self:  # pragma: no cover
        raise KeyError(
            "Class nameed %s is already in factory, point to %s"
            % (class_name, self[class_name])
        )
    the_class.add_method_dicts()
    the_class.add_mappings()
    self[class_name] = the_class
    setattr(self, f"{class_name}_gen", the_class)
    setattr(self, class_name, the_class.create)
'''), ("Factory._load_scipy_classes", '''
def _load_scipy_classes(self):
    candidates = ((name, getattr(sps, name)) for name in sps.__all__)
    for name, dist in candidates:
        if not isinstance(dist, sps.rv_continuous):
            continue
        self._make_scipy_wrapped_class(name, type(dist))
'''))
R("f_convert", "factory.py", ("Factory.convert", '''
def convert(self, in_dist, class_name, **kwds):
    options = dict(kwds)
    method = options.pop("method", None)
    if class_name not in self:  # pragma: no cover
        raise KeyError("Class nameed %s is not in factory" % class_name)
    extract_func = self[class_name].extraction_method(method)
    if extract_func is None:  # pragma: no cover
        raise KeyError(
            "Class named %s does not have a extraction_method named %s"
            % (class_name, method)
        )
    return self.create(class_name, extract_func(in_dist, **options), method)
'''), ("Factory.create", '''
def create(self, class_name, data, method=None):
    try:
        the_class = self[class_name]
    except KeyError:
        raise KeyError("Class nameed %s is not in factory" % class_name)
    return Ensemble(the_class.creation_method(method), data)
'''))
R("f_write_dict", "factory.py", ("Factory.write_dict", '''
@staticmethod
def write_dict(filename, ensemble_dict, **kwargs):
    if not all(isinstance(val, Ensemble) for val in ensemble_dict.values()):
        raise ValueError("All values in ensemble_dict must be qp.Ensemble")
    tables = {key: ens.build_tables() for key, ens in ensemble_dict.items()}
    io.writeDictsToHdf5(tables, filename, **kwargs)
'''), ("Factory.read_dict", '''
@staticmethod
def _read_tables(filename, top_level_group):
    tables = {}
    for key_name in io.readHdf5GroupNames(filename, top_level_group):
        group_object, infp = io.readHdf5Group(filename, f"{top_level_group}/{key_name}")
        try:
            tables[key_name] = io.readHdf5GroupToDict(group_object)
        finally:
            infp.close()
    return tables

@staticmethod
def read_dict(filename):
    return {
        group: from_tables(Factory._read_tables(filename, group))
        for group in io.readHdf5GroupNames(filename)
    }
'''))
R("f_data_length", "factory.py", ("Factory.data_length", '''
def data_length(self, filename):
    group, infp = io.readHdf5Group(filename, "data")
    try:
        return io.getGroupInputDataLength(group)
    finally:
        infp.close()
'''), ("Factory.is_qp_file", '''
def is_qp_file(self, filename):
    try:
        # If this isn't a table-like file with a 'meta' table this will throw an exception
        meta = io.readNative(filename, keys=["meta"])["meta"]
        names = meta["pdf_name"]
        return len(names) > 0
    except Exception as msg:
        print(f"This is not a qp file because {msg}")
    return False
'''))

# ---------------------------------------------------------------- dict_utils
R("d_concat", "dict_utils.py", ("concatenate_dicts", '''
def concatenate_dicts(in_dicts):
    if len(in_dicts) == 0:  # pragma: no cover
        return {}
    check_keys(in_dicts)
    first = in_dicts[0]
    return {key: np.concatenate([d[key] for d in in_dicts]) for key in first}
'''), ("check_keys", '''
def check_keys(in_dicts):
    if not in_dicts:  # pragma: no cover
        return
    first_keys = set(in_dicts[0])
    for other in in_dicts[1:]:
        if set(other) != first_keys:  # pragma: no cover
            raise ValueError("Keys to not match: %s != %s" % (other.keys(), in_dicts[0].keys()))
'''))
R("d_compare", "dict_utils.py", ("compare_two_dicts", '''
def _values_match(v, vv):
    try:
        return not (v != vv)
    except ValueError:
        return np.allclose(v, vv)


def compare_two_dicts(d1, d2):
    if d1.keys() != d2.keys():
        return False
    return all(_values_match(v, d2[k]) for k, v in d1.items())
'''), ("compare_dicts", '''
def compare_dicts(in_dicts):
    if not in_dicts:
        return True
    first_dict, *others = in_dicts
    return all(compare_two_dicts(first_dict, other) for other in others)
'''))
R("d_shapes", "dict_utils.py", ("check_array_shapes", '''
def check_array_shapes(in_dict, npdf):
    for key, val in (in_dict or {}).items():
        is_scalar_for_one = npdf == 1 and np.size(val) == 1
        if is_scalar_for_one:
            continue
        nrows = np.shape(val)[0]
        if nrows != npdf:
            raise ValueError(f"First dimension of array {key} does not match npdf: {nrows} != {npdf}")
'''), ("slice_dict", '''
def slice_dict(in_dict, subslice):
    out_dict = dict(in_dict)
    for key in in_dict:
        try:
            out_dict[key] = in_dict[key][subslice]
        except (KeyError, TypeError):
            pass
    return out_dict
'''))
R("d_defaults", "dict_utils.py", ("get_val_or_default", '''
def get_val_or_default(in_dict, key):
    for candidate in (key, None):
        if candidate in in_dict:
            return in_dict[candidate]
    return None
'''), ("set_val_or_default", '''
def set_val_or_default(in_dict, key, val):
    if key not in in_dict:
        in_dict[key] = val
    return in_dict[key]
'''), ("pretty_print", '''
def pretty_print(in_dict, prefixes, idx=0, stream=sys.stdout):
    prefix = prefixes[idx]
    for key, val in in_dict.items():
        label = "default" if key is None else key
        if not isinstance(val, dict):
            stream.write("%s%s : %s\\n" % (prefix, label, val))
            continue
        stream.write("%s%s:\\n" % (prefix, label))
        pretty_print(val, prefixes, idx + 1, stream)
'''))

# ---------------------------------------------------------------- conversion functions
R("c_vals", "conversion_funcs.py", ("extract_vals_at_x", '''
def extract_vals_at_x(in_dist, **kwargs):
    xvals = kwargs.get("xvals")
    if xvals is None:  # pragma: no cover
        raise ValueError("To convert to extract_xy_vals you must specify xvals")
    return {"xvals": xvals, "yvals": in_dist.pdf(xvals)}
'''), ("extract_xy_vals", '''
def extract_xy_vals(in_dist, **kwargs):
    xvals = kwargs.pop("xvals", None)
    if xvals is None:  # pragma: no cover
        raise ValueError("To convert using extract_xy_vals you must specify xvals")
    yvals = in_dist.pdf(xvals)
    ones = np.ones_like(yvals)
    return dict(xvals=ones * np.squeeze(xvals), yvals=yvals)
'''))
R("c_hist", "conversion_funcs.py", ("extract_hist_values", '''
def _required_bins(kwargs):
    bins = kwargs.pop("bins", None)
    if bins is None:  # pragma: no cover
        raise ValueError("To convert using extract_hist_samples you must specify bins")
    return bins


def extract_hist_values(in_dist, **kwargs):
    edges, probabilities = in_dist.histogramize(_required_bins(kwargs))
    densities = probabilities / bin_widths(edges)
    return dict(bins=edges, pdfs=densities)
'''), ("extract_hist_samples", '''
def extract_hist_samples(in_dist, **kwargs):
    bins = _required_bins(kwargs)
    size = kwargs.pop("size", 1000)
    random_state = kwargs.pop("random_state", None)
    samples = in_dist.rvs(size=size, random_state=random_state)

    def hist_helper(sample):
        counts, _ = np.histogram(sample, bins=bins)
        return counts

    signature = "(%i)->(%i)" % (samples.shape[-1], bins.size - 1)
    counts = np.vectorize(hist_helper, signature=signature)(samples)
    return dict(bins=bins, pdfs=counts / bin_widths(bins))
'''))
R("c_mixmod", "conversion_funcs.py", ("extract_mixmod_fit_samples", '''
def _fit_mixture(sample, n_comps, random_state):
    """Fit a gaussian mixture, return an array with rows weights, means, stds"""
    fit = mixture.GaussianMixture(n_components=n_comps, random_state=random_state)
    fit.fit(np.reshape(sample, (-1, 1)))
    return np.vstack([fit.weights_, fit.means_[:, 0], np.sqrt(fit.covariances_[:, 0, 0])])


def extract_mixmod_fit_samples(in_dist, **kwargs):
    n_comps = kwargs.pop("ncomps", 3)
    n_sample = kwargs.pop("nsamples", 1000)
    random_state = kwargs.pop("random_state", None)
    samples = in_dist.rvs(size=n_sample, random_state=random_state)
    if isinstance(random_state, np.random.Generator):
        random_state = np.random.RandomState(random_state.bit_generator)

    def fit_one(sample):
        return _fit_mixture(sample, n_comps, random_state)

    fits = np.vectorize(fit_one, signature=f"({n_sample})->(3,{n_comps})")(samples)
    weights, means, stds = fits[:, 0, :], fits[:, 1, :], fits[:, 2, :]
    return dict(weights=weights, means=means, stds=stds)
'''))
R("c_sparse", "conversion_funcs.py", ("extract_sparse_from_xy", '''
def _regrid(xvals, yvals, nvals):
    """Interpolate onto an even grid that ends where the last positive value is"""
    _, j = np.where(yvals > 0)
    newx = np.linspace(np.min(xvals), np.max(xvals[j]), nvals)
    return newx, sciinterp.interp1d(xvals, yvals, assume_sorted=True)(newx)


def extract_sparse_from_xy(in_dist, **kwargs):
    yvals = kwargs.pop("yvals", in_dist.objdata()["yvals"])
    xvals = kwargs.pop("xvals", in_dist.metadata()["xvals"][0])
    nvals = kwargs.pop("nvals", 300)
    newx, newpdf = _regrid(xvals, yvals, nvals)
    sparse_indices, metadata, _ = build_sparse_representation(newx, newpdf)
    metadata.update(xvals=newx, sparse_indices=sparse_indices)
    del metadata["Ntot"]
    return metadata
'''), ("extract_voigt_xy", '''
def extract_voigt_xy(in_dist, **kwargs):
    sparse = extract_voigt_xy_sparse(in_dist, **kwargs)
    weights, means, stds, gammas = indices2shapes(sparse["indices"], sparse["metadata"])
    return dict(means=means, stds=stds, weights=weights, gammas=gammas)
'''))
R("c_samples", "conversion_funcs.py", ("extract_samples", '''
def extract_samples(in_dist, **kwargs):
    size = kwargs.pop("size", 1000)
    random_state = kwargs.pop("random_state", None)
    samples = in_dist.rvs(size=size, random_state=random_state)
    return dict(samples=samples, xvals=kwargs.pop("xvals"), yvals=None)
'''), ("extract_quantiles", '''
def extract_quantiles(in_dist, **kwargs):
    try:
        quants = kwargs["quants"]
    except KeyError:
        quants = None
    if quants is None:  # pragma: no cover
        raise ValueError("To convert using extract_quantiles you must specify quants")
    return {"quants": quants, "locs": in_dist.ppf(quants)}
'''), ("extract_voigt_mixmod", '''
def extract_voigt_mixmod(in_dist, **kwargs):
    objdata = in_dist.objdata()
    shapes = {name: objdata[name] for name in ("means", "stds", "weights")}
    return dict(gammas=np.zeros_like(shapes["means"]), **shapes, **kwargs)
'''))

# ---------------------------------------------------------------- pdf_gen
R("p_frozen", "pdf_gen.py", ("rv_frozen_func.histogramize", '''
def histogramize(self, bins):
    cdf_at_edges = reshape_to_pdf_size(self.cdf(bins), -1)
    contents = np.diff(cdf_at_edges)
    nbins = bins.size - 1
    return bins, reshape_to_pdf_shape(contents, self._shape, nbins)
'''), ("rv_frozen_rows.histogramize", '''
def histogramize(self, bins):
    cdf_vals = self.cdf(bins)
    cdf_vals = reshape_to_pdf_size(cdf_vals, -1)
    upper, lower = cdf_vals[:, 1:], cdf_vals[:, :-1]
    return bins, reshape_to_pdf_shape(upper - lower, self._shape, bins.size - 1)
'''))
R("p_rows", "pdf_gen.py", ("rv_frozen_rows.__init__", '''
def __init__(self, dist, shape, *args, **kwds):
    npdf = np.prod(shape).astype(int)
    self._shape, self._npdf, self._ndim = shape, npdf, np.size(shape)
    if npdf is not None and "row" not in kwds:
        rows = np.arange(npdf).reshape(shape)
        kwds["row"] = rows[..., np.newaxis]
    super().__init__(dist, *args, **kwds)
'''), ("Pdf_rows_gen._rvs", '''
def _rvs(self, *args, size=None, random_state=None):
    uniform = random_state.uniform(size=size)
    draws = self._ppf(uniform, *args)
    return draws if size is None else draws.reshape(size)
'''), ("Pdf_rows_gen._argcheck", '''
def _argcheck(self, *args):
    if not args:
        return np.atleast_1d(1)
    row = asarray(args[0])
    return np.atleast_1d(np.logical_and(row >= 0, row < self._npdf))
'''))
R("p_meta", "pdf_gen.py", ("Pdf_gen._addclassmetadata", '''
def _addclassmetadata(self, cls):
    self._metadata.update(
        pdf_name=np.array([cls.name.encode()]), pdf_version=np.array([cls.version])
    )
'''), ("Pdf_gen.create", '''
@classmethod
def create(cls, **kwds):
    gen, freeze_kwds = cls.create_gen(**kwds)
    frozen = gen(**freeze_kwds)
    return frozen
'''), ("Pdf_gen.create_gen", '''
@classmethod
def create_gen(cls, **kwds):
    name = kwds.get("name", "dist")
    return cls(name=name), {k: v for k, v in kwds.items() if k != "name"}
'''))
R("p_slice", "pdf_gen.py", ("Pdf_rows_gen._sliceargs", '''
@staticmethod
def _sliceargs(x, row, *args):  # pragma: no cover
    untouched = False, x, row, args
    if 1 in (np.size(x), np.size(row)):
        return untouched
    xx, rr = np.unique(x), np.unique(row)
    if xx.size == np.size(x):
        xx = x
    if rr.size == np.size(row):
        rr = row
    nx = np.size(xx)
    if nx * np.size(rr) != np.size(x):
        return untouched
    return True, xx, rr, [arg[:nx] for arg in args]
'''), ("Pdf_gen_wrap.get_allocation_kwds", '''
@classmethod
def get_allocation_kwds(cls, npdf, **kwargs):
    allocation = {}
    for key, val in kwargs.items():
        allocation[key] = ((npdf, 1), val.dtype)
    return allocation
'''))

# ---------------------------------------------------------------- utils
R("u_interp_norm", "utils.py", ("normalize_interp1d", '''
def normalize_interp1d(xvals, yvals):
    right_y = yvals[:, 1:]
    areas = xvals[:, 1:] * right_y - xvals[:, :-1] * right_y
    integrals = areas.sum(axis=1)
    return yvals / integrals[:, np.newaxis]
'''), ("build_kdes", '''
def build_kdes(samples, **kwargs):
    kdes = []
    for row in samples:
        kdes.append(sps.gaussian_kde(row, **kwargs))
    return kdes
'''), ("evaluate_kdes", '''
def evaluate_kdes(xvals, kdes):
    evaluated = [kde(xvals) for kde in kdes]
    return np.vstack(evaluated)
'''))
R("u_dispatch", "utils.py", ("interpolate_x_multi_y", '''
def interpolate_x_multi_y(x, row, xvals, yvals, **kwargs):
    case_idx, xx, rr = get_eval_case(x, row)
    if case_idx == CASE_2D:
        evaluator = interpolate_x_multi_y_2d
    elif case_idx == CASE_FLAT:
        evaluator = interpolate_x_multi_y_flat
    else:
        evaluator = interpolate_x_multi_y_product
    return evaluator(xx, rr, xvals, yvals, **kwargs)
'''), ("interpolate_multi_x_y", '''
def interpolate_multi_x_y(x, row, xvals, yvals, **kwargs):
    case_idx, xx, rr = get_eval_case(x, row)
    if case_idx == CASE_PRODUCT or case_idx == CASE_FACTOR:
        return interpolate_multi_x_y_product(xx, rr, xvals, yvals, **kwargs)
    elif case_idx == CASE_2D:
        return interpolate_multi_x_y_2d(xx, rr, xvals, yvals, **kwargs)
    else:
        return interpolate_multi_x_y_flat(xx, rr, xvals, yvals, **kwargs)
'''))
R("u_dispatch2", "utils.py", ("evaluate_hist_x_multi_y", '''
def evaluate_hist_x_multi_y(x, row, bins, vals, derivs=None):
    case_idx, xx, rr = get_eval_case(x, row)
    evaluators = {
        CASE_PRODUCT: evaluate_hist_x_multi_y_product,
        CASE_FACTOR: evaluate_hist_x_multi_y_product,
        CASE_2D: evaluate_hist_x_multi_y_2d,
        CASE_FLAT: evaluate_hist_x_multi_y_flat,
    }
    return evaluators[case_idx](xx, rr, bins, vals, derivs)
'''))
R("u_hist_product", "utils.py", ("evaluate_hist_x_multi_y_product", '''
def evaluate_hist_x_multi_y_product(x, row, bins, vals, derivs=None):
    idx, in_range = get_bin_indices(bins, x)
    mask = np.ones(row.shape) * in_range
    rows = np.squeeze(row)
    result = vals[:, idx][rows]
    if derivs is not None:
        result = result + (x - bins[idx]) * derivs[:, idx][rows]
    return np.where(mask, result, 0)
'''))
R("u_hist_flat", "utils.py", ("evaluate_hist_x_multi_y_flat", '''
def evaluate_hist_x_multi_y_flat(x, row, bins, vals, derivs=None):
    assert np.ndim(x) < 2 and np.ndim(row) < 2
    idx, mask = get_bin_indices(bins, x)
    if derivs is None:

        def at_point(i, inside, r, _):
            return np.where(inside, vals[r, i], 0)

        deltas = np.zeros(idx.shape)
    else:

        def at_point(i, inside, r, delta):
            return np.where(inside, vals[r, i] + delta * derivs[r, i], 0)

        deltas = x - bins[idx]
    return np.vectorize(at_point)(idx, mask, row, deltas)
'''))
R("u_multi_product", "utils.py", ("evaluate_hist_multi_x_multi_y_product", '''
def evaluate_hist_multi_x_multi_y_product(x, row, bins, vals, derivs=None):
    def evaluate_row(rv):
        row_bins, row_vals = bins[rv].flatten(), np.squeeze(vals[rv])
        idx, mask = get_bin_indices(row_bins, x)
        if derivs is None:
            return np.where(mask, row_vals[idx], 0).flatten()
        delta = x - row_bins[idx]
        row_derivs = np.squeeze(derivs[rv])
        return np.where(mask, row_vals[idx] + delta * row_derivs[idx], 0)

    signature = f"(1)->({x.size})"
    return np.vectorize(evaluate_row, signature=signature)(row)
'''))
R("u_profile", "utils.py", ("profile", '''
def profile(x_data, y_data, x_bins, std=True):
    idx, mask = get_bin_indices(x_bins, x_data)
    nbins = x_bins.size - 1
    count, vals, errs = np.zeros(nbins), np.zeros(nbins), np.zeros(nbins)
    for i in range(nbins):
        in_bin = mask * (idx == i)
        count[i] = in_bin.sum()
        if count[i] == 0:  # pragma: no cover
            vals[i] = errs[i] = np.nan
        else:
            values = y_data[in_bin]
            vals[i], errs[i] = values.mean(), values.std()
    if std:
        return vals, errs
    errs /= np.sqrt(count)
    return vals, errs
'''))
R("u_reshape", "utils.py", ("reshape_to_pdf_size", '''
def reshape_to_pdf_size(vals, split_dim):
    shape = np.shape(vals)
    head, tail = shape[:split_dim], shape[split_dim:]
    return vals.reshape(np.hstack([np.prod(head).astype(int), tail]))
'''), ("reshape_to_pdf_shape", '''
def reshape_to_pdf_shape(vals, pdf_shape, per_pdf):
    return vals.reshape(np.hstack([pdf_shape, per_pdf]))
'''), ("safelog", '''
def safelog(arr, threshold=epsilon):
    clipped = np.clip(np.array(arr), threshold, np.inf)
    return np.log(clipped)
'''))
R("u_case", "utils.py", ("get_eval_case", '''
def get_eval_case(x, row):
    nd_x, nd_row = np.ndim(x), np.ndim(row)
    if nd_x >= 2:
        if nd_row == 1:
            raise ValueError("Dimension mismatch: x(%s), row(%s)" % (np.shape(x), np.shape(row)))
        return CASE_2D, x, row
    if nd_row >= 2:
        return CASE_PRODUCT, x, row
    n_x, n_row = np.size(x), np.size(row)
    if n_x == 1 or n_row == 1:
        return CASE_FLAT, x, row
    if n_x == n_row:
        changes = np.flatnonzero(np.diff(row))
        nx = changes[0] + 1 if np.size(changes) else n_row
    else:
        nx = n_x // n_row
    flat = CASE_FLAT, x, row
    if nx == 0 or n_x % nx != 0 or (n_row * nx) % n_x != 0:
        return flat
    xx = np.reshape(x, (-1, nx))
    rr = np.reshape(row, (np.shape(xx)[0], -1))
    same_x = np.all(xx == xx[0])
    same_row = np.all(rr == rr[:, :1])
    if same_x and same_row:
        return CASE_FACTOR, xx[0], rr[:, :1]
    return flat
'''))

# ---------------------------------------------------------------- parameterizations
R("h_init", "hist_pdf.py", ("hist_gen.__init__", '''
def __init__(self, bins, pdfs, *args, **kwargs):
    edges = np.asarray(bins)
    self._hbins = edges
    self._nbins = edges.size - 1
    self._hbin_widths = np.diff(edges)
    self._xmin, self._xmax = edges[0], edges[-1]
    nvals = np.shape(pdfs)[-1]
    if nvals != self._nbins:  # pragma: no cover
        raise ValueError(
            "Number of bins (%i) != number of values (%i)" % (self._nbins, nvals)
        )

    self._check_input = kwargs.pop("check_input", True)
    self._hpdfs = reshape_to_pdf_size(pdfs, -1)
    if self._check_input:
        self._hpdfs = self._normalized(self._hpdfs)
    self._hcdfs = None
    kwargs["shape"] = pdfs.shape[:-1]
    super().__init__(*args, **kwargs)
    self._addmetadata("bins", self._hbins)
    self._addmetadata("check_input", self._check_input)
    self._addobjdata("pdfs", self._hpdfs)

def _normalized(self, values):
    areas = np.sum(values * self._hbin_widths, axis=1)
    return (values.T / areas).T
'''))
R("h_cdf", "hist_pdf.py", ("hist_gen._compute_cdfs", '''
def _compute_cdfs(self):
    npdf, nbins = self._hpdfs.shape
    cdfs = np.zeros((npdf, nbins + 1))
    cdfs[:, 1:] = (self._hpdfs * self._hbin_widths).cumsum(axis=1)
    self._hcdfs = cdfs
'''), ("hist_gen._cdf", '''
def _cumulative(self):
    if self._hcdfs is None:  # pragma: no cover
        self._compute_cdfs()
    return self._hcdfs

def _cdf(self, x, row):
    options = dict(bounds_error=False, fill_value=(0.0, 1.0))
    return interpolate_x_multi_y(x, row, self._hbins, self._cumulative(), **options).ravel()
'''), ("hist_gen._ppf", '''
def _ppf(self, x, row):
    cumulative = self._cumulative()
    limits = (self._xmin, self._xmax)
    vals = interpolate_multi_x_y(x, row, cumulative, self._hbins, bounds_error=False, fill_value=limits)
    return vals.ravel()
'''))
R("h_moment", "hist_pdf.py", ("hist_gen.custom_generic_moment", '''
def custom_generic_moment(self, m):
    centers = (self._hbins[1:] + self._hbins[:-1]) / 2
    weighted = centers ** np.asarray(m) * self._hpdfs * self._hbin_widths
    return weighted.sum(axis=1)
'''), ("hist_gen._munp", '''
def _munp(self, m, *args):
    """compute moments"""
    with np.errstate(all="ignore"):
        return self.custom_generic_moment(m)
'''), ("hist_gen._updated_ctor_param", '''
def _updated_ctor_param(self):
    dct = super()._updated_ctor_param()
    dct.update(bins=self._hbins, pdfs=self._hpdfs, check_input=self._check_input)
    return dct
'''), ("hist_gen.get_allocation_kwds", '''
@classmethod
def get_allocation_kwds(cls, npdf, **kwargs):
    try:
        bins = kwargs["bins"]
    except KeyError:
        raise ValueError("required argument 'bins' not included in kwargs")
    ncols = len(bins.flatten()) - 1
    return {"pdfs": ((npdf, ncols), "f4")}
'''))
R("i_init", "interp_pdf.py", ("interp_gen.__init__", '''
def __init__(self, xvals, yvals, *args, **kwargs):
    ngrid, nvals = np.size(xvals), np.shape(yvals)[-1]
    if ngrid != nvals:  # pragma: no cover
        raise ValueError(
            "Shape of xbins in xvals (%s) != shape of xbins in yvals (%s)" % (ngrid, nvals)
        )
    self._xvals = np.asarray(xvals)
    self._xmin, self._xmax = self._xvals[0], self._xvals[-1]
    kwargs["shape"] = np.shape(yvals)[:-1]
    self._yvals = reshape_to_pdf_size(yvals, -1)
    self._ycumul = None
    self._check_input = kwargs.pop("check_input", True)
    if self._check_input:
        self._normalize()
    super().__init__(*args, **kwargs)
    self._addmetadata("xvals", self._xvals)
    self._addmetadata("check_input", self._check_input)
    self._addobjdata("yvals", self._yvals)

def _normalize(self):
    self._compute_ycumul()
    totals = self._ycumul[:, -1]
    self._yvals = (self._yvals.T / totals).T
    self._ycumul = (self._ycumul.T / totals).T
'''))
R("i_cumul", "interp_pdf.py", ("interp_gen._compute_ycumul", '''
def _compute_ycumul(self):
    dx = np.diff(self._xvals)
    heights = self._yvals[:, 1:] + self._yvals[:, :-1]
    ycumul = np.empty(self._yvals.shape)
    ycumul[:, 0] = 0.5 * self._yvals[:, 0] * dx[0]
    ycumul[:, 1:] = np.cumsum(0.5 * dx * heights, axis=1)
    self._ycumul = ycumul
'''), ("interp_irregular_gen._compute_ycumul", '''
def _compute_ycumul(self):
    right = self._yvals[:, 1:]
    steps = self._xvals[:, 1:] * right - self._xvals[:, :-1] * right
    self._ycumul = np.zeros(self._yvals.shape)
    self._ycumul[:, 1:] = steps.cumsum(axis=1)
'''))
R("i_irregular", "interp_pdf.py", ("interp_irregular_gen.__init__", '''
def __init__(self, xvals, yvals, *args, **kwargs):
    x_shape, y_shape = np.shape(xvals), np.shape(yvals)
    if x_shape != y_shape:  # pragma: no cover
        raise ValueError("Shape of xvals (%s) != shape of yvals (%s)" % (x_shape, y_shape))
    kwargs["shape"] = x_shape[:-1]
    self._check_input = kwargs.pop("check_input", True)
    self._xvals = reshape_to_pdf_size(xvals, -1)
    self._xmin, self._xmax = self._xvals.min(), self._xvals.max()
    yvals_2d = reshape_to_pdf_size(yvals, -1)
    self._yvals = normalize_interp1d(self._xvals, yvals_2d) if self._check_input else yvals_2d
    self._ycumul = None
    super().__init__(*args, **kwargs)
    for name, value in (("xvals", self._xvals), ("yvals", self._yvals)):
        self._addobjdata(name, value)
    self._addmetadata("check_input", self._check_input)
'''), ("interp_irregular_gen.get_allocation_kwds", '''
@classmethod
def get_allocation_kwds(cls, npdf, **kwargs):
    if "xvals" not in kwargs:  # pragma: no cover
        raise ValueError("required argument xvals not included in kwargs")
    spec = ((npdf, np.shape(kwargs["xvals"])[-1]), "f4")
    return dict(xvals=spec, yvals=spec)
'''))
R("q_pad", "quant_pdf.py", ("pad_quantiles", '''
def pad_quantiles(quants, locs):
    pad_lo = quants[0] > sys.float_info.epsilon
    pad_hi = quants[-1] < 1.0
    if not (pad_lo or pad_hi):
        return quants, locs
    n_vals = quants.size
    offset_lo = int(pad_lo)
    n_out = n_vals + offset_lo + int(pad_hi)
    quants_out = np.zeros(n_out, quants.dtype)
    locs_out = np.zeros((locs.shape[0], n_out), quants.dtype)
    inner = slice(offset_lo, n_vals + offset_lo)
    quants_out[inner] = quants
    locs_out[:, inner] = locs
    if pad_lo:
        slope = (locs[:, 1] - locs[:, 0]) / (quants[1] - quants[0])
        locs_out[:, 0] = locs[:, 0] - quants[0] * slope
    if pad_hi:
        quants_out[-1] = 1.0
        slope = (locs[:, -2] - locs[:, -1]) / (quants[-1] - quants[-2])
        locs_out[:, -1] = locs[:, -1] - (1.0 - quants[-1]) * slope
    return quants_out, locs_out
'''))
R("q_pdf", "quant_pdf.py", ("quant_gen._pdf", '''
def _pdf(self, x, *args):
    xs, row = np.broadcast_arrays(x, args[0])
    xs, row = xs.ravel(), row.ravel()
    order = np.argsort(row, kind="stable")
    rows, starts = np.unique(row[order], return_index=True)
    groups = np.split(order, starts[1:])
    yvals = np.zeros(xs.shape)
    for group, irow in zip(groups, rows):
        values = self._pdf_constructor.construct_pdf(xs[group], np.array([[irow]]))
        yvals[group] = values.ravel()
    return yvals
'''), ("quant_gen._instantiate_pdf_constructor", '''
def _instantiate_pdf_constructor(self):
    constructor_class = PDF_CONSTRUCTORS[self._pdf_constructor_name]
    self._pdf_constructor = constructor_class(self._quants, self._locs)
'''), ("quant_gen._cdf", '''
def _cdf(self, x, row):
    vals = interpolate_multi_x_y(
        x, row, self._locs, self._quants, kind="quadratic", bounds_error=False, fill_value=(0.0, 1)
    )
    return vals.ravel()
'''))
R("q_setter", "quant_pdf.py", ("quant_gen.pdf_constructor_name!", '''
@pdf_constructor_name.setter
def pdf_constructor_name(self, value: str):
    known = PDF_CONSTRUCTORS.keys()
    if value not in known:
        raise ValueError(f"Unknown interpolator provided: '{value}'. Allowed interpolators are {list(known)}")

    if value is not self._pdf_constructor_name:
        self._pdf_constructor_name = value
        self._instantiate_pdf_constructor()
        self._addmetadata("pdf_constructor_name", value)
    else:
        logging.warning("Already using interpolator: '%s'.", value)
'''))
R("q_init", "quant_pdf.py", ("quant_gen.__init__", '''
def __init__(self, quants, locs, *args, **kwargs):
    self._xmin, self._xmax = np.min(locs), np.max(locs)
    shape = locs.shape[:-1]
    self._check_input = kwargs.pop("check_input", True)
    constructor_name = kwargs.pop("pdf_constructor_name", DEFAULT_PDF_CONSTRUCTOR)
    locs_2d = reshape_to_pdf_size(locs, -1)
    if self._check_input:
        quants, locs_2d = pad_quantiles(quants, locs_2d)
    self._quants = np.asarray(quants)
    self._nquants = self._quants.size
    nlocs = locs_2d.shape[-1]
    if nlocs != self._nquants:  # pragma: no cover
        raise ValueError(
            "Number of locations (%i) != number of quantile values (%i)" % (self._nquants, nlocs)
        )
    self._locs = locs_2d
    self._pdf_constructor_name = str(constructor_name)
    self._pdf_constructor = None
    self._instantiate_pdf_constructor()
    kwargs["shape"] = shape
    super().__init__(*args, **kwargs)
    self._addmetadata("quants", self._quants)
    self._addmetadata("pdf_constructor_name", self._pdf_constructor_name)
    self._addmetadata("check_input", self._check_input)
    self._addobjdata("locs", self._locs)
'''))
R("m_eval", "mixmod_pdf.py", ("mixmod_gen._pdf", '''
def _components(self, x, row):
    """Weights and frozen normals for each requested row"""
    if np.ndim(x) > 1:
        x = np.expand_dims(x, -2)
    weights = self._weights[row].swapaxes(-2, -1)
    normals = sps.norm(
        loc=self._means[row].swapaxes(-2, -1), scale=self._stds[row].swapaxes(-2, -1)
    )
    return x, weights, normals

def _pdf(self, x, row):
    x, weights, normals = self._components(x, row)
    return (weights * normals.pdf(x)).sum(axis=0)
'''), ("mixmod_gen._cdf", '''
def _cdf(self, x, row):
    x, weights, normals = self._components(x, row)
    return (weights * normals.cdf(x)).sum(axis=0)
'''))
R("m_ppf", "mixmod_pdf.py", ("mixmod_gen._ppf", '''
def _ppf(self, x, row):
    reach = 6 * self._stds
    lower, upper = np.min(self._means - reach), np.max(self._means + reach)
    grid = np.linspace(lower, upper, 201)
    unique_rows, inverse = np.unique(row, return_inverse=True)
    table = self.cdf(grid, unique_rows[:, np.newaxis])
    table_row = np.reshape(inverse, np.shape(row))
    return interpolate_multi_x_y(
        x, table_row, table, grid, bounds_error=False, fill_value=(lower, upper)
    ).ravel()
'''))
R("m_init", "mixmod_pdf.py", ("mixmod_gen.__init__", '''
def __init__(self, means, stds, weights, *args, **kwargs):
    self._scipy_version_warning()
    self._means, self._stds, self._weights = (
        reshape_to_pdf_size(vals, -1) for vals in (means, stds, weights)
    )
    self._ncomps = means.shape[-1]
    super().__init__(*args, **dict(kwargs, shape=means.shape[:-1]))
    if (self._weights < 0).any():
        raise ValueError("All weights need to be larger than zero")
    totals = np.sum(self._weights, axis=1)
    self._weights = self._weights / totals[:, np.newaxis]
    self._addobjdata("weights", self._weights)
    self._addobjdata("stds", self._stds)
    self._addobjdata("means", self._means)
'''))
R("s_norm", "spline_pdf.py", ("normalize_spline", '''
def normalize_spline(xvals, yvals, limits, **kwargs):
    lower, upper = limits[0], limits[1]

    def row_integral(irow):
        rep = splrep(xvals[irow], yvals[irow])
        return quad(lambda xv: splev(xv, rep), lower, upper, **kwargs)[0]

    rows = np.arange(xvals.shape[0])
    with errstate(all="ignore"):
        integrals = np.vectorize(row_integral)(rows)
    return yvals / integrals[:, np.newaxis]
'''), ("build_splines", '''
def build_splines(xvals, yvals):
    reps = [splrep(xrow, yrow) for xrow, yrow in zip(xvals, yvals)]
    knots, coefs, degrees = zip(*reps)
    return np.vstack(knots), np.vstack(coefs), np.vstack(degrees)
'''))
R("s_init", "spline_pdf.py", ("spline_gen.__init__", '''
def __init__(self, *args, **kwargs):
    splx, sply, spln = (kwargs.pop(name, None) for name in ("splx", "sply", "spln"))
    if splx is None:  # pragma: no cover
        raise ValueError("splx must be provided")
    if splx.shape != sply.shape:  # pragma: no cover
        raise ValueError("Shape of xvals (%s) != shape of yvals (%s)" % (splx.shape, sply.shape))
    kwargs["shape"] = splx.shape[:-1]
    self._xmin, self._xmax = np.min(splx), np.max(splx)
    self._splx = reshape_to_pdf_size(splx, -1)
    self._sply = reshape_to_pdf_size(sply, -1)
    self._spln = reshape_to_pdf_size(spln, -1)
    super().__init__(*args, **kwargs)
    self._addobjdata("splx", self._splx)
    self._addobjdata("sply", self._sply)
    self._addobjdata("spln", self._spln)
'''), ("spline_gen._pdf", '''
def _tck(self, irow):
    return self._splx[irow], self._sply[irow], self._spln[irow].item()

def _pdf(self, x, row):
    def pdf_row(xv, irow):
        return splev(xv, self._tck(irow))

    with errstate(all="ignore"):
        vv = np.vectorize(pdf_row)
    return vv(x, row).ravel()
'''), ("spline_gen._cdf", '''
def _cdf(self, x, row):
    lower = self._xmin

    def cdf_row(xv, irow):
        return splint(lower, xv, self._tck(irow))

    with errstate(all="ignore"):
        vv = np.vectorize(cdf_row)
    return vv(x, row).ravel()
'''), ("spline_gen.create_from_samples", '''
@classmethod
def create_from_samples(cls, xvals, samples, **kwargs):
    options = {k: v for k, v in kwargs.items() if k != "yvals"}
    yvals = evaluate_kdes(xvals, build_kdes(samples))
    nrows = samples.shape[0]
    xvals_expand = (xvals[:, np.newaxis] * np.ones(nrows)).T
    return cls.create_from_xy_vals(xvals_expand, yvals, **options)
'''))
R("sp_init", "sparse_pdf.py", ("sparse_gen.__init__", '''
def __init__(self, xvals, mu, sig, dims, sparse_indices, *args, **kwargs):
    self.sparse_indices = sparse_indices
    self._xvals, self.mu, self.sig, self.dims = xvals, mu, sig, dims
    self._cut = kwargs.pop("cut", 1.0e-5)
    yvals = self._decode()
    kwargs.setdefault("xvals", xvals)
    kwargs.setdefault("yvals", yvals)
    super().__init__(*args, **kwargs)
    self._clearobjdata()
    for name, value in (
        ("xvals", self._xvals), ("mu", self.mu), ("sig", self.sig), ("dims", self.dims), ("cut", self._cut)
    ):
        self._addmetadata(name, value)
    self._addobjdata("sparse_indices", self.sparse_indices)

def _decode(self):
    """Values of the normalized pdfs on the grid"""
    meta = dict(xvals=self._xvals, mu=self.mu, sig=self.sig, dims=self.dims)
    basis = sparse_rep.create_basis(meta, cut=self._cut)
    basis_indices, weights = sparse_rep.decode_sparse_indices(self.sparse_indices)
    y = (basis[:, basis_indices] * weights).sum(axis=-1)
    y /= sciint.trapezoid(y.T, self._xvals)
    return y.T
'''))
R("sp_params", "sparse_pdf.py", ("sparse_gen._updated_ctor_param", '''
def _updated_ctor_param(self):
    dct = super()._updated_ctor_param()
    for name in ("sparse_indices", "mu", "sig", "dims"):
        dct[name] = getattr(self, name)
    dct.update(xvals=self._xvals, cut=self._cut)
    return dct
'''), ("sparse_gen.get_allocation_kwds", '''
@classmethod
def get_allocation_kwds(cls, npdf, **kwargs):
    if "dims" not in kwargs:
        raise ValueError("required argument dims not in kwargs")
    dims = np.ravel(kwargs["dims"])
    return {"sparse_indices": ((npdf, dims[4]), "i8")}
'''))
R("sr_basis", "sparse_rep.py", ("create_voigt_basis", '''
def _basis_column(xvals, mean, sigma, gamma, cut):
    column = voigt_profile(xvals - mean, sigma, gamma)
    column = np.where(column >= cut, column, 0.0)
    return column / sla.norm(column)


def create_voigt_basis(xvals, mu, Nmu, sigma, Nsigma, Nv, cut=1.0e-5):
    means = np.linspace(mu[0], mu[1], Nmu)
    sig = np.linspace(sigma[0], sigma[1], Nsigma)
    gamma = np.linspace(0, 0.5, Nv)
    A = np.zeros((len(xvals), Nmu * Nsigma * Nv))
    column = 0
    for i in range(Nmu):
        for j in range(Nsigma):
            for k in range(Nv):
                A[:, column] = _basis_column(xvals, means[i], sig[j], gamma[k], cut)
                column += 1
    return A
'''), ("create_basis", '''
def create_basis(metadata, cut=1.0e-5):
    Nmu, Nsigma, Nv = (metadata["dims"][i] for i in range(3))
    return create_voigt_basis(
        metadata["xvals"], metadata["mu"], Nmu, metadata["sig"], Nsigma, Nv, cut=cut
    )
'''))
R("sr_shapes", "sparse_rep.py", ("shapes2pdf", '''
def shapes2pdf(wa, ma, sa, ga, meta, cut=1.0e-5):
    x = meta["xvals"]
    total = np.zeros_like(x)
    for weight, mean, sigma, gamma in zip(wa, ma, sa, ga):
        profile = voigt_profile(x - mean, sigma, gamma)
        profile = np.where(profile >= cut, profile, 0.0)
        total += weight * profile / sla.norm(profile)
    total = np.where(total >= cut, total, 0.0)
    return total / sciint.trapezoid(total, x)
'''), ("pdf_from_sparse", '''
def pdf_from_sparse(sparse_indices, A, xvals, cut=1.0e-5):
    indices, weights = decode_sparse_indices(sparse_indices)
    values = np.sum(A[:, indices] * weights, axis=-1)
    values = np.where(values >= cut, values, 0.0)
    return values / sciint.trapezoid(values.T, xvals)
'''))

# ---------------------------------------------------------------- packing
R("k_lin", "packing_utils.py", ("linear_pack_from_rowmax", '''
def linear_pack_from_rowmax(input_array):
    row_max = input_array.max(axis=1)[:, np.newaxis]
    packed = np.round(255 * input_array / row_max)
    return packed.astype(np.uint8), row_max
'''), ("unpack_array", '''
def unpack_array(packing_type, packed_array, **kwargs):
    row_max = kwargs.get("row_max")
    if packing_type == PackingType.log_from_rowmax:
        return log_unpack_from_rowmax(packed_array, row_max=row_max, log_floor=kwargs.get("log_floor", -3))
    if packing_type == PackingType.linear_from_rowmax:
        return linear_unpack_from_rowmax(packed_array, row_max=row_max)
    raise ValueError(f"Unpacking for packing type {packing_type} is not implemetned")
'''))
R("k_log", "packing_utils.py", ("log_pack_from_rowmax", '''
def log_pack_from_rowmax(input_array, log_floor=-3.0):
    neg_log_floor = -log_floor
    tiny = np.power(10.0, 3 * log_floor)
    row_max = np.expand_dims(input_array.max(axis=1), -1)
    decades = np.log10((input_array + tiny) / row_max)
    scaled = np.round(255 * (decades + neg_log_floor) / neg_log_floor)
    return np.clip(scaled, 0.0, 255.0).astype(np.uint8), row_max
'''), ("log_unpack_from_rowmax", '''
def log_unpack_from_rowmax(packed_array, row_max, log_floor=-3.0):
    fraction = packed_array / 255.0
    values = np.power(10, -1.0 * log_floor * (fraction - 1.0))
    values = np.where(packed_array == 0, 0.0, values)
    return row_max * values
'''))
R("k_gen", "packed_interp_pdf.py", ("packed_interp_gen._pdf", '''
def _unpacked(self):
    if self._yvals is None:
        self._unpack()
    return self._yvals

def _pdf(self, x, row):
    return interpolate_x_multi_y(
        x, row, self._xvals, self._unpacked(), bounds_error=False, fill_value=0.0
    ).ravel()
'''), ("packed_interp_gen.custom_generic_moment", '''
def custom_generic_moment(self, m):
    yvals = self._unpacked()
    powers = self._xvals ** np.asarray(m)
    return np.sum(powers * yvals * np.gradient(self._xvals), axis=1)
'''), ("packed_interp_gen._compute_ycumul", '''
def _compute_ycumul(self):
    yvals = self._unpacked()
    dx = self._xvals[1:] - self._xvals[:-1]
    self._ycumul = np.ndarray(yvals.shape)
    self._ycumul[:, 0] = 0.5 * yvals[:, 0] * dx[0]
    self._ycumul[:, 1:] = np.cumsum(dx * 0.5 * (yvals[:, 1:] + yvals[:, :-1]), axis=1)
'''))

# ---------------------------------------------------------------- quantile constructors
R("qc_dual", "quantile_pdf_constructors/dual_spline_average.py", ("DualSplineAverage.prepare_constructor", '''
def prepare_constructor(self) -> None:
    n_rows, n_cols = self._locations.shape
    slopes = 2 * np.diff(self._quantiles) / np.diff(self._locations)
    p_of_zs = np.zeros((n_rows, n_cols))
    for i in range(n_cols - 1):
        p_of_zs[:, i + 1] = np.maximum(0.0, slopes[:, i] - p_of_zs[:, i])
    self._p_of_zs = np.maximum(0.0, p_of_zs)
'''))
R("qc_linear", "quantile_pdf_constructors/piecewise_linear.py", ("PiecewiseLinear.prepare_constructor", '''
def prepare_constructor(self) -> None:
    widths = np.diff(self._locations)
    self._cdf_derivatives = np.diff(self._quantiles) / widths
    self._adjusted_locations = self._locations[:, 1:] - widths / 2
'''))
R("qc_const", "quantile_pdf_constructors/piecewise_constant.py", ("PiecewiseConstant.prepare_constructor", '''
def prepare_constructor(self) -> None:
    shape = self._locations.shape
    widths = self._locations[:, 1:] - self._locations[:, :-1]
    derivatives, second = np.zeros(shape), np.zeros(shape)
    derivatives[:, :-1] = np.diff(self._quantiles) / widths
    second[:, :-1] = derivatives[:, 1:] - derivatives[:, :-1]
    self._cdf_derivatives = derivatives
    self._cdf_2nd_derivatives = second
    self._adjusted_locations = self._locations[:, 1:] - np.diff(self._locations) / 2
'''))
R("qc_spline", "quantile_pdf_constructors/cdf_spline_derivative.py", ("CdfSplineDerivative.construct_pdf", '''
def construct_pdf(self, grid, row=None):
    if self._interpolation_functions is None:
        self.prepare_constructor()
    if row is None:
        functions = self._interpolation_functions
    else:
        functions = [self._interpolation_functions[irow] for irow in np.unique(row)]
    return np.asarray([func(grid) for func in functions])
'''), ("CdfSplineDerivative.prepare_constructor", '''
def prepare_constructor(self, spline_order: int = 3) -> None:
    functions = []
    for locations in self._locations:
        spline = InterpolatedUnivariateSpline(locations, self._quantiles, k=spline_order, ext=1)
        functions.append(spline.derivative())
    self._interpolation_functions = functions
'''))

# ---------------------------------------------------------------- metrics
R("t_brier", "metrics/brier.py", ("Brier._calculate_metric", '''
def _sums_of_squares(self):
    differences = self._prediction - self._truth
    return np.sum(differences**2, axis=self._axis_for_summation)

def _calculate_metric(self):
    return np.mean(self._sums_of_squares())
'''), ("Brier._calculate_metric_for_accumulation", '''
def _calculate_metric_for_accumulation(self):
    return np.sum(self._sums_of_squares())
'''), ("Brier._validate_data", '''
def _validate_data(self):
    for name, array in (("prediction", self._prediction), ("truth", self._truth)):
        if not np.issubdtype(array.dtype, np.number):
            raise TypeError(f"Input {name} array could not be converted to a Numpy array")
    if self._prediction.shape != self._truth.shape:
        raise ValueError("Input prediction and truth arrays do not have the same shape")
    self._axis_for_summation = 1
    if self._prediction.ndim == 1:
        self._axis_for_summation = 0
    totals = np.sum(self._prediction, axis=self._axis_for_summation)
    if not np.allclose(totals, 1.0):
        logging.warning("Input predictions do not sum to 1.")
'''))
R("t_array", "metrics/array_metrics.py", ("quick_kld", '''
def quick_kld(p_eval, q_eval, dx=0.01):
    log_p, log_q = safelog(p_eval), safelog(q_eval)
    return dx * np.sum(p_eval * (log_p - log_q), axis=-1)
'''), ("quick_rmse", '''
def quick_rmse(p_eval, q_eval, N):
    squares = np.square(p_eval - q_eval)
    return np.sqrt(squares.sum(axis=-1) / N)
'''), ("quick_moment", '''
def quick_moment(p_eval, grid_to_N, dx):
    return dx * np.dot(p_eval, grid_to_N)
'''), ("quick_rbpe", '''
def quick_rbpe(pdf_function, integration_bounds, limits=(np.inf, np.inf)):
    lower, upper = integration_bounds[0], integration_bounds[1]

    def calculate_loss(x):
        return 1.0 - (1.0 / (1.0 + (x / 0.15) ** 2))

    def find_z_risk(zp):
        return quad(lambda z: pdf_function(z) * calculate_loss((zp - z) / (1.0 + z)), lower, upper)[0]

    if limits[0] == np.inf:
        result = minimize_scalar(find_z_risk)
    else:
        result = minimize_scalar(find_z_risk, bounds=(limits[0], limits[1]), method="bounded")
    return result.x
'''))
R("t_base", "metrics/base_metric_classes.py", ("PointToPointMetric.eval_from_iterator", '''
def eval_from_iterator(self, estimate, reference):
    self.initialize()
    chunks = zip(estimate, reference)
    return self.finalize([self.accumulate(*chunk) for chunk in chunks])
'''), ("MetricInputType.uses_distribution_for_estimate", '''
def uses_distribution_for_estimate(self) -> bool:
    return self in (
        MetricInputType.dist_to_dist,
        MetricInputType.dist_to_point,
        MetricInputType.single_ensemble,
    )
'''))
R("t_pit", "metrics/pit.py", ("PIT._produce_output_ensemble", '''
@classmethod
def _produce_output_ensemble(cls, data_quants, eval_grid):
    _, first = np.unique(data_quants, return_index=True)
    locs, quants = data_quants[first], eval_grid[first]
    inside = cls._create_quant_mask(locs)
    data = dict(quants=quants[inside], locs=np.atleast_2d(locs[inside]))
    return qp.Ensemble(qp.quant, data=data)
'''), ("PIT._gather_pit_samples", '''
@classmethod
def _gather_pit_samples(cls, qp_ens, true_vals):
    cdfs = qp_ens.cdf(np.vstack(true_vals))
    pit_samples = np.atleast_1d(np.squeeze(cdfs))
    bad = ~np.isfinite(pit_samples)
    pit_samples[bad] = 0
    if bad.any():
        logging.warning("Some PIT samples were `NaN`. They have been replacd with 0.")
    return pit_samples
'''), ("PIT._create_quant_mask", '''
@classmethod
def _create_quant_mask(cls, data_quants):
    return (data_quants > 0.0) & (data_quants < 1)
'''), ("PIT._trim_pit_values", '''
def _trim_pit_values(self, cdf_min, cdf_max):
    samples = self._pit_samps
    kept = samples[(samples >= cdf_min) & (samples <= cdf_max)]
    n_removed = len(samples) - len(kept)
    if n_removed > 0:
        logging.warning("Removed %d PITs from the sample.", n_removed)
    return kept
'''))
R("t_pit_meta", "metrics/pit.py", ("PIT.calculate_pit_meta_metrics", '''
def calculate_pit_meta_metrics(self):
    return {
        "ad": self.evaluate_PIT_anderson_ksamp(),
        "cvm": self.evaluate_PIT_CvM(),
        "ks": self.evaluate_PIT_KS(),
        "outlier_rate": self.evaluate_PIT_outlier_rate(),
    }
'''), ("PIT.evaluate_PIT_anderson_ksamp", '''
def evaluate_PIT_anderson_ksamp(self, pit_min=0.0, pit_max=1.0):
    pits = self._trim_pit_values(pit_min, pit_max)
    return quick_anderson_ksamp(pits, np.linspace(pit_min, pit_max, len(pits)))
'''))
R("t_cde", "metrics/concrete_metric_classes.py", ("CDELossMetric.evaluate", '''
def evaluate(self, estimate, reference):
    grid = self._xvals
    pdfs = estimate.pdf(grid)
    nearest = [np.argmin(np.abs(grid - z)) for z in reference]
    mean_square = np.mean(np.trapz(pdfs**2, x=grid))
    mean_density = np.mean(pdfs[range(estimate.npdf), nearest])
    return mean_square - 2 * mean_density
'''), ("BrierMetric.finalize", '''
def finalize(self, tuples):
    totals = np.atleast_2d(tuples).sum(axis=0)
    numerator, denominator = totals[0], totals[1]
    return numerator / denominator
'''), ("PITMetric.accumulate", '''
def accumulate(self, estimate, reference):
    samples = PIT._gather_pit_samples(estimate, reference)
    return pytdigest.TDigest.compute(samples, compression=self._tdigest_compression).get_centroids()
'''), ("DistToPointMetricDigester.finalize", '''
def finalize(self, centroids: np.ndarray = []):
    combined = None
    for centroid in centroids:
        digest = pytdigest.TDigest.of_centroids(np.array(centroid), compression=self._tdigest_compression)
        combined = digest if combined is None else combined + digest
    return self.compute_from_digest(combined)
'''))
R("t_point", "metrics/point_estimate_metric_classes.py", ("PointOutlierRate.evaluate", '''
def evaluate(self, estimate, reference):
    ez = (estimate - reference) / (1.0 + reference)
    cut = np.maximum(0.06, 3.0 * PointSigmaIQR().evaluate(estimate, reference))
    n_outliers = np.sum(np.abs(ez) > cut)
    return float(n_outliers) / float(len(ez))
'''), ("PointOutlierRate.compute_from_digest", '''
def compute_from_digest(self, digest):
    x75, x25 = digest.inverse_cdf([0.75, 0.25])
    cut = np.maximum(0.06, 3.0 * (x75 - x25) / 1.349)
    centroids = digest.get_centroids()
    means, weights = centroids[:, 0], centroids[:, 1]
    return float(np.sum(weights[np.fabs(means) > cut])) / digest.weight
'''), ("PointSigmaMAD.__init__", '''
def __init__(self, **kwargs) -> None:
    super().__init__(**kwargs)
    self._num_bins = kwargs.get("num_bins", 1_000_000)
'''), ("PointSigmaMAD.evaluate", '''
def evaluate(self, estimate, reference):
    ez = (estimate - reference) / (1.0 + reference)
    deviations = np.abs(ez - np.median(ez))
    return 1.4826 * np.median(deviations)
'''))
R("t_digest", "metrics/point_estimate_metric_classes.py", ("PointSigmaMAD.compute_from_digest", '''
def compute_from_digest(self, digest):
    median, lower, upper = (digest.inverse_cdf(q) for q in (0.5, 0, 1))
    edges = np.linspace(lower, upper, self._num_bins)
    left, right = edges[:-1], edges[1:]
    probs = digest.cdf(right) - digest.cdf(left)
    distances = np.fabs((left + right) / 2.0 - median)
    order = np.argsort(distances)
    half = np.searchsorted(np.cumsum(probs[order]), 0.5)
    return 1.4826 * distances[order][half]
'''), ("PointToPointMetricDigester.finalize", '''
def _to_digest(self, centroid):
    return pytdigest.TDigest.of_centroids(np.array(centroid), compression=self._tdigest_compression)

def finalize(self, centroids: np.ndarray = []):
    return self.compute_from_digest(reduce(add, map(self._to_digest, centroids)))
'''))

if __name__ == "__main__":
    import sys
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    run(names or list(ALL))
