"""Seventh batch of behaviour-preserving rewrites, written without looking at what the machinery makes of them."""
from refactorings import R, run, ALL

ALL.clear()

# ---------------------------------------------------------------- ensemble
R("e_get_split", "ensemble.py", ("Ensemble.__getitem__", '''
_CLASS_KEYS = frozenset(("pdf_name", "pdf_version"))

@staticmethod
def _as_rows(value):
    """A single row gets its leading dimension back"""
    return value if np.ndim(value) >= 2 else np.expand_dims(value, 0)

def __getitem__(self, key):
    data = {
        name: np.squeeze(value)
        for name, value in self.metadata().items()
        if name not in self._CLASS_KEYS
    }
    data.update(
        {name: self._as_rows(value) for name, value in slice_dict(self.objdata(), key).items()}
    )
    ancil = None if self._ancil is None else slice_dict(self._ancil, key)
    return Ensemble(self._gen_obj.create, data, ancil)
'''))
R("e_get_pop", "ensemble.py", ("Ensemble.__getitem__", '''
def __getitem__(self, key):
    settings = self.metadata()
    del settings["pdf_name"], settings["pdf_version"]
    red_data = dict(zip(settings.keys(), map(np.squeeze, settings.values())))
    for k, v in slice_dict(self.objdata(), key).items():
        red_data[k] = v if len(np.shape(v)) > 1 else np.expand_dims(v, 0)
    if self._ancil is None:
        return Ensemble(self._gen_obj.create, data=red_data)
    return Ensemble(self._gen_obj.create, data=red_data, ancil=slice_dict(self._ancil, key))
'''))
R("e_upd_order", "ensemble.py", ("Ensemble.update_objdata", '''
def update_objdata(self, data, ancil=None):
    settings = self.metadata()
    for name in ("pdf_name", "pdf_version"):
        settings.pop(name)
    new_data = {k: np.squeeze(v) for k, v in settings.items()}
    new_data = {**new_data, **self.objdata(), **data}
    self._update_frozen(self._gen_obj.create(**new_data), ancil=ancil)
'''))
R("e_upd_frozen", "ensemble.py", ("Ensemble._update_frozen", '''
def _update_frozen(self, frozen, ancil=None):
    """Replace the frozen object, and drop what was computed from the old one"""
    check_array_shapes(ancil, frozen.npdf)
    self._gridded, self._samples = None, None
    self._frozen, self._gen_obj = frozen, frozen.dist
    self._ancil = ancil
'''))
R("e_meta_copy", "ensemble.py", ("Ensemble.metadata", '''
def metadata(self):
    return dict(self._gen_obj.metadata)
'''), ("Ensemble.objdata", '''
def objdata(self):
    columns = {k: v for k, v in self._frozen.kwds.items() if k != "row"}
    columns.update(self._gen_obj.objdata)
    return columns
'''))
R("e_objdata_merge", "ensemble.py", ("Ensemble.objdata", '''
def objdata(self):
    kwds = dict(self._frozen.kwds)
    if "row" in kwds:
        del kwds["row"]
    return {**kwds, **self._gen_obj.objdata}
'''))
R("e_add_ancil", "ensemble.py", ("Ensemble.add_to_ancil", '''
def add_to_ancil(self, to_add):
    check_array_shapes(to_add, self.npdf)
    self._ancil = {**(self._ancil or {}), **to_add}
'''))
R("e_append_vars", "ensemble.py", ("Ensemble.append", '''
def append(self, other_ens):
    mine, theirs = self.metadata(), other_ens.metadata()
    if compare_dicts([mine, theirs]):
        objdata = concatenate_dicts([ens.objdata() for ens in (self, other_ens)])
        ancil = None
        if not (self._ancil is None or other_ens.ancil is None):
            ancil = concatenate_dicts([self.ancil, other_ens.ancil])
        self.update_objdata(objdata, ancil)
    else:
        raise KeyError("Metadata does not match, can not append")
'''))
R("e_append_all", "ensemble.py", ("Ensemble.append", '''
def append(self, other_ens):
    both = [self, other_ens]
    if not compare_dicts([ens.metadata() for ens in both]):
        raise KeyError("Metadata does not match, can not append")
    full_objdata = concatenate_dicts([ens.objdata() for ens in both])
    full_ancil = None
    if all(ens.ancil is not None for ens in both):
        full_ancil = concatenate_dicts([ens.ancil for ens in both])
    self.update_objdata(full_objdata, full_ancil)
'''))
R("e_tables", "ensemble.py", ("Ensemble.build_tables", '''
def build_tables(self):
    tables = {"meta": self.metadata(), "data": self.objdata()}
    if self._ancil is None:
        return tables
    tables["ancil"] = self._ancil
    return tables
'''))
R("e_gridded_cond", "ensemble.py", ("Ensemble.gridded", '''
def _on_grid(self, grid):
    """True if the cached values belong to this grid"""
    return self._gridded is not None and np.array_equal(self._gridded[0], grid)

def gridded(self, grid):
    if not self._on_grid(grid):
        values = self.pdf(grid)
        self._gridded = (np.array(grid), values)
    return self._gridded
'''))
R("e_gridded_early", "ensemble.py", ("Ensemble.gridded", '''
def gridded(self, grid):
    cached = self._gridded
    if cached is not None:
        if np.array_equal(cached[0], grid):
            return cached
    self._gridded = np.array(grid), self.pdf(grid)
    return self._gridded
'''))
R("e_mode", "ensemble.py", ("Ensemble.mode", '''
def mode(self, grid):
    points, values = self.gridded(grid)
    best = values.argmax(axis=-1)
    return points[best][..., np.newaxis]
'''))
R("e_alloc", "ensemble.py", ("Ensemble._get_allocation_kwds", '''
def _get_allocation_kwds(self, npdf):
    def spec(array):
        return ([npdf] + list(array.shape[1:]), array.dtype)

    return {
        group: {key: spec(array) for key, array in tab.items()}
        for group, tab in self.build_tables().items()
        if group != "meta"
    }
'''))
R("e_alloc_pop", "ensemble.py", ("Ensemble._get_allocation_kwds", '''
def _get_allocation_kwds(self, npdf):
    groups = self.build_tables()
    groups.pop("meta")
    keywords = {}
    for group, columns in groups.items():
        sizes = {}
        for name, column in columns.items():
            shape = list(np.shape(column))
            shape[0] = npdf
            sizes[name] = shape, column.dtype
        keywords[group] = sizes
    return keywords
'''))
R("e_chunk", "ensemble.py", ("Ensemble.writeHdf5Chunk", '''
def writeHdf5Chunk(self, fname, start, end):
    tables = {name: table for name, table in self.build_tables().items() if name != "meta"}
    io.writeDictToHdf5Chunk(fname, tables, start, end)
'''), ("Ensemble.finalizeHdf5Write", '''
def finalizeHdf5Write(self, filename):
    io.finalizeHdf5Write(filename, "meta", **self.metadata())
'''), ("Ensemble.initializeHdf5Write", '''
def initializeHdf5Write(self, filename, npdf, comm=None):
    return io.initializeHdf5Write(filename, comm=comm, **self._get_allocation_kwds(npdf))
'''))
R("e_convert_lookup", "ensemble.py", ("Ensemble.convert_to", '''
def convert_to(self, to_class, **kwargs):
    method = kwargs.pop("method", None)

    def need(func, kind):
        if func is None:
            raise KeyError(
                "Class named %s does not have a %s named %s" % (to_class.name, kind, method)
            )
        return func

    ctor_func = need(to_class.creation_method(method), "creation_method")
    extract_func = need(to_class.extraction_method(method), "extraction_method")
    return Ensemble(ctor_func, data=extract_func(self, **kwargs))
'''))
R("e_moment_partial", "ensemble.py", ("Ensemble.moment_partial", '''
def moment_partial(self, n, limits, dx=0.01):
    span = limits[-1] - limits[0]
    n_points = int(span / dx)
    points = np.linspace(limits[0], limits[1], n_points)
    _, values = self.gridded(points)
    return quick_moment(values, points**n, span / (n_points - 1))
'''))
R("e_integrate", "ensemble.py", ("Ensemble.integrate", '''
def integrate(self, limits):
    upper = self.cdf(limits[1])
    lower = self.cdf(limits[0])
    return upper - lower
'''), ("Ensemble.rvs", '''
def rvs(self, size=None, random_state=None):
    shape = (self.npdf, size)
    return self._frozen.rvs(size=shape, random_state=random_state)
'''))
R("e_init_update", "ensemble.py", ("Ensemble.__init__", '''
def __init__(self, gen_func, data, ancil=None):
    frozen = gen_func(**data)
    self._gen_func = gen_func
    self._gen_class = type(frozen.dist)
    self._update_frozen(frozen, ancil)
'''))

# ---------------------------------------------------------------- dict_utils
R("d_get_val", "dict_utils.py", ("get_val_or_default", '''
def get_val_or_default(in_dict, key):
    for name in (key, None):
        if name in in_dict:
            return in_dict[name]
    return None
'''))
R("d_get_get", "dict_utils.py", ("get_val_or_default", '''
def get_val_or_default(in_dict, key):
    return in_dict[key] if key in in_dict else in_dict.get(None)
'''), ("set_val_or_default", '''
def set_val_or_default(in_dict, key, val):
    return in_dict.setdefault(key, val)
'''))
R("d_check_set", "dict_utils.py", ("check_keys", '''
def check_keys(in_dicts):
    if not in_dicts:
        return
    expected = set(in_dicts[0])
    for other in in_dicts[1:]:
        if set(other) != expected:
            raise ValueError("Keys to not match: %s != %s" % (other.keys(), in_dicts[0].keys()))
'''))
R("d_check_any", "dict_utils.py", ("check_keys", '''
def check_keys(in_dicts):
    if in_dicts:
        master_keys = in_dicts[0].keys()
        bad = [in_dict.keys() for in_dict in in_dicts if in_dict.keys() != master_keys]
        if bad:
            raise ValueError("Keys to not match: %s != %s" % (bad[0], master_keys))
'''))
R("d_concat_zip", "dict_utils.py", ("concatenate_dicts", '''
def concatenate_dicts(in_dicts):
    check_keys(in_dicts)
    if not in_dicts:
        return {}
    keys = list(in_dicts[0])
    columns = [[d[key] for d in in_dicts] for key in keys]
    return {key: np.concatenate(parts) for key, parts in zip(keys, columns)}
'''))
R("d_shapes_len", "dict_utils.py", ("check_array_shapes", '''
def check_array_shapes(in_dict, npdf):
    for key, val in (in_dict or {}).items():
        if npdf == 1 and np.size(val) == 1:
            continue
        n_rows = np.shape(val)[0]
        if n_rows != npdf:
            raise ValueError(
                "First dimension of array %s does not match npdf: %i != %i"
                % (key, n_rows, npdf)
            )
'''))
R("d_two_dicts", "dict_utils.py", ("compare_two_dicts", '''
def _same(v, vv):
    """True if two items are the same, arrays are compared with np.allclose"""
    try:
        differ = bool(v != vv)
    except ValueError:
        differ = not np.allclose(v, vv)
    return not differ


def compare_two_dicts(d1, d2):
    if d1.keys() != d2.keys():
        return False
    return all(_same(d1[k], d2[k]) for k in d1)
'''))
R("d_dicts_any", "dict_utils.py", ("compare_dicts", '''
def compare_dicts(in_dicts):
    return not any(not compare_two_dicts(in_dicts[0], other) for other in in_dicts[1:])
'''))
R("d_slice", "dict_utils.py", ("slice_dict", '''
def slice_dict(in_dict, subslice):
    out_dict = dict(in_dict)
    for key in in_dict:
        try:
            out_dict[key] = in_dict[key][subslice]
        except (TypeError, KeyError):
            pass
    return out_dict
'''))

# ---------------------------------------------------------------- factory
R("f_build", "factory.py", ("Factory._build_data_dict", '''
@staticmethod
def _read_setting(value):
    """Take the leading dimension off"""
    ndim = np.ndim(value)
    if ndim == 1:
        value = value[0]
    elif ndim > 1:
        value = np.squeeze(value)
        if np.ndim(value) == 0:
            value = value.item()
    return value.decode() if isinstance(value, bytes) else value

@staticmethod
def _build_data_dict(md_table, data_table):
    data_dict = {col: Factory._read_setting(val) for col, val in md_table.items()}
    for col, val in data_table.items():
        data_dict[col] = val if len(val.shape) >= 2 else np.expand_dims(val, -1)
    return data_dict
'''))
R("f_from_tables", "factory.py", ("Factory.from_tables", '''
def from_tables(self, tables):
    data = self._build_data_dict(tables["meta"], tables["data"])
    pdf_name, pdf_version = data.pop("pdf_name"), data.pop("pdf_version")
    try:
        the_class = self[pdf_name]
    except KeyError:
        raise KeyError("Class nameed %s is not in factory" % pdf_name)
    reader_convert = the_class.reader_method(pdf_version)
    if reader_convert is not None:
        data = reader_convert(data)
    return Ensemble(the_class.creation_method(None), data=data, ancil=tables.get("ancil", None))
'''))
R("f_read", "factory.py", ("Factory.read", '''
def read(self, filename):
    ext = os.path.splitext(filename)[1]
    options = {"keys": None, "allow_missing_keys": False}
    if ext == ".pq":
        options = {"keys": ["data", "meta", "ancil"], "allow_missing_keys": True}
    return self.from_tables(io.read(filename, NUMPY_DICT, **options))
'''))
R("f_iter_helper", "factory.py", ("Factory.iterator", '''
@staticmethod
def _read_range(group, start, end):
    """Read the rows of all the columns in a group"""
    return OrderedDict(
        (key, io.readHdf5DatasetToArray(val, start, end)) for key, val in group.items()
    )

def iterator(self, filename, chunk_size=100_000, rank=0, parallel_size=1):
    if os.path.splitext(filename)[1] != ".hdf5":
        raise TypeError("Can only use qp.iterator on hdf5 files")
    metadata = io.readHdf5ToDict(filename, "meta")
    pdf_name = metadata.pop("pdf_name")[0].decode()
    metadata.pop("pdf_version")
    if pdf_name not in self:
        raise KeyError("Class nameed %s is not in factory" % pdf_name)
    ctor_func = self[pdf_name].creation_method(None)

    f, infp = io.readHdf5Group(filename, "data")
    ancil_f, ancil_infp = None, None
    try:
        ancil_f, ancil_infp = io.readHdf5Group(filename, "ancil")
    except KeyError:
        pass
    num_rows = io.getGroupInputDataLength(f)
    try:
        for start, end in io.data_ranges_by_rank(num_rows, chunk_size, parallel_size, rank):
            data = self._build_data_dict(metadata, self._read_range(f, start, end))
            ancil = None
            if ancil_f is not None:
                ancil = self._read_range(ancil_f, start, end)
            yield start, end, Ensemble(ctor_func, data=data, ancil=ancil)
    finally:
        for handle in (infp, ancil_infp):
            if handle is not None:
                handle.close()
'''))
R("f_concat_lists", "factory.py", ("Factory.concatenate", '''
@staticmethod
def concatenate(ensembles):
    if not ensembles:
        return None
    metadata_list = [ens.metadata() for ens in ensembles]
    if not compare_dicts(metadata_list):
        raise ValueError("Metadata does not match")
    data = concatenate_dicts([ens.objdata() for ens in ensembles])
    ancil = None
    if all(ens.ancil is not None for ens in ensembles):
        ancil = concatenate_dicts([ens.ancil for ens in ensembles])
    settings = {k: v for k, v in metadata_list[0].items() if k not in ("pdf_name", "pdf_version")}
    data.update({k: np.squeeze(v) for k, v in settings.items()})
    return Ensemble(ensembles[0].gen_obj.create, data, ancil)
'''))
R("f_concat_none", "factory.py", ("Factory.concatenate", '''
@staticmethod
def concatenate(ensembles):
    if not ensembles:
        return None
    ancils = [ens.ancil for ens in ensembles]
    metadata_list = [ens.metadata() for ens in ensembles]
    objdata_list = [ens.objdata() for ens in ensembles]
    if not compare_dicts(metadata_list):
        raise ValueError("Metadata does not match")
    data = concatenate_dicts(objdata_list)
    if any(ancil is None for ancil in ancils):
        ancil = None
    else:
        ancil = concatenate_dicts(ancils)
    metadata = metadata_list[0]
    metadata.pop("pdf_name")
    metadata.pop("pdf_version")
    for name in metadata:
        data[name] = np.squeeze(metadata[name])
    return Ensemble(ensembles[0].gen_obj.create, data=data, ancil=ancil)
'''))
R("f_dicts", "factory.py", ("Factory.write_dict", '''
@staticmethod
def write_dict(filename, ensemble_dict, **kwargs):
    if not all(isinstance(ens, Ensemble) for ens in ensemble_dict.values()):
        raise ValueError("All values in ensemble_dict must be qp.Ensemble")
    tables = {key: ens.build_tables() for key, ens in ensemble_dict.items()}
    io.writeDictsToHdf5(tables, filename, **kwargs)
'''), ("Factory.read_dict", '''
@staticmethod
def _read_group(filename, path):
    """Read one group of a file into a dictionary"""
    group_object, infp = io.readHdf5Group(filename, path)
    try:
        return io.readHdf5GroupToDict(group_object)
    finally:
        infp.close()

@staticmethod
def read_dict(filename):
    results = {}
    for name in io.readHdf5GroupNames(filename):
        tables = {
            key: Factory._read_group(filename, f"{name}/{key}")
            for key in io.readHdf5GroupNames(filename, name)
        }
        results[name] = from_tables(tables)
    return results
'''))
R("f_convert", "factory.py", ("Factory.convert", '''
def convert(self, in_dist, class_name, **kwds):
    method = kwds.pop("method", None)
    if class_name not in self:
        raise KeyError("Class nameed %s is not in factory" % class_name)
    extract_func = self[class_name].extraction_method(method)
    if extract_func is None:
        raise KeyError(
            "Class named %s does not have a extraction_method named %s" % (class_name, method)
        )
    return self.create(class_name, extract_func(in_dist, **kwds), method=method)
'''))
R("f_length", "factory.py", ("Factory.data_length", '''
def data_length(self, filename):
    group, infp = io.readHdf5Group(filename, "data")
    try:
        return io.getGroupInputDataLength(group)
    finally:
        infp.close()
'''), ("Factory.is_qp_file", '''
def is_qp_file(self, filename):
    try:
        tables = io.readNative(filename, keys=["meta"])
        found = len(tables["meta"]["pdf_name"]) > 0
    except Exception as msg:
        print(f"This is not a qp file because {msg}")
        found = False
    return found
'''))

# ---------------------------------------------------------------- pdf_gen
R("g_frozen_base", "pdf_gen.py", ("rv_frozen_rows.__init__", '''
def __init__(self, dist, shape, *args, **kwds):
    npdf = np.prod(shape).astype(int)
    self._shape, self._npdf, self._ndim = shape, npdf, np.size(shape)
    if "row" not in kwds:
        kwds["row"] = np.arange(npdf).reshape(shape)[..., np.newaxis]
    super().__init__(dist, *args, **kwds)
'''))
R("g_hist_diff", "pdf_gen.py", ("rv_frozen_rows.histogramize", '''
def histogramize(self, bins):
    cdf_vals = reshape_to_pdf_size(self.cdf(bins), -1)
    return bins, reshape_to_pdf_shape(np.diff(cdf_vals, axis=1), self._shape, bins.size - 1)
'''), ("rv_frozen_func.histogramize", '''
def histogramize(self, bins):
    cdf_vals = reshape_to_pdf_size(self.cdf(bins), -1)
    bin_vals = np.diff(cdf_vals)
    return bins, reshape_to_pdf_shape(bin_vals, self._shape, bins.size - 1)
'''))
R("g_argcheck", "pdf_gen.py", ("Pdf_rows_gen._argcheck", '''
def _argcheck(self, *args):
    if not args:
        return np.atleast_1d(1)
    row = asarray(args[0])
    return np.atleast_1d((row >= 0) & (row < self._npdf))
'''))
R("g_sliceargs", "pdf_gen.py", ("Pdf_rows_gen._rvs", '''
def _rvs(self, *args, size=None, random_state=None):
    values = self._ppf(random_state.uniform(size=size), *args)
    return values if size is None else values.reshape(size)
'''))

# ---------------------------------------------------------------- hist
R("h_init", "hist_pdf.py", ("hist_gen.__init__", '''
def __init__(self, bins, pdfs, *args, **kwargs):
    """
    Create a new distribution using the given histogram
    """
    self._hbins = np.asarray(bins)
    self._hbin_widths = np.diff(self._hbins)
    self._nbins = self._hbin_widths.size
    self._xmin, self._xmax = self._hbins[0], self._hbins[-1]
    n_values = np.shape(pdfs)[-1]
    if n_values != self._nbins:
        raise ValueError("Number of bins (%i) != number of values (%i)" % (self._nbins, n_values))
    self._check_input = kwargs.pop("check_input", True)
    values = reshape_to_pdf_size(pdfs, -1)
    if self._check_input:
        norms = (values * self._hbin_widths).sum(axis=1, keepdims=True)
        values = values / norms
    self._hpdfs = values
    self._hcdfs = None
    kwargs.update(shape=pdfs.shape[:-1])
    super().__init__(*args, **kwargs)
    self._addobjdata("pdfs", self._hpdfs)
    for name, setting in (("bins", self._hbins), ("check_input", self._check_input)):
        self._addmetadata(name, setting)
'''))
R("h_norm_dot", "hist_pdf.py", (None, ('''            sums = np.sum(pdfs_2d * self._hbin_widths, axis=1)
            self._hpdfs = (pdfs_2d.T / sums).T
''', '''            norms = np.dot(pdfs_2d, self._hbin_widths)
            self._hpdfs = pdfs_2d / norms[:, np.newaxis]
''')))
R("h_cdfs", "hist_pdf.py", ("hist_gen._compute_cdfs", '''
def _compute_cdfs(self):
    masses = self._hpdfs * np.diff(self._hbins)
    start = np.zeros((masses.shape[0], 1))
    self._hcdfs = np.hstack([start, np.cumsum(masses, axis=1)])
'''))
R("h_cdfs_prop", "hist_pdf.py", ("hist_gen._cdf", '''
def _cumulative(self):
    """The cumulative table, made when it is first asked for"""
    if self._hcdfs is None:
        self._compute_cdfs()
    return self._hcdfs

def _cdf(self, x, row):
    options = {"bounds_error": False, "fill_value": (0.0, 1.0)}
    return interpolate_x_multi_y(x, row, self._hbins, self._cumulative(), **options).ravel()
'''), ("hist_gen._ppf", '''
def _ppf(self, x, row):
    limits = self._hbins[0], self._hbins[-1]
    values = interpolate_multi_x_y(
        x, row, self._cumulative(), self._hbins, bounds_error=False, fill_value=limits
    )
    return np.ravel(values)
'''))
R("h_moment", "hist_pdf.py", ("hist_gen._munp", '''
def _munp(self, m, *args):
    with np.errstate(all="ignore"):
        return self.custom_generic_moment(m)
'''), ("hist_gen.custom_generic_moment", '''
def custom_generic_moment(self, m):
    centers = (self._hbins[1:] + self._hbins[:-1]) / 2.0
    masses = self._hpdfs * self._hbin_widths
    return (masses * centers ** np.asarray(m)).sum(axis=1)
'''), ("hist_gen.get_allocation_kwds", '''
@classmethod
def get_allocation_kwds(cls, npdf, **kwargs):
    try:
        bins = kwargs["bins"]
    except KeyError:
        raise ValueError("required argument 'bins' not included in kwargs")
    return {"pdfs": ((npdf, np.size(bins) - 1), "f4")}
'''))

# ---------------------------------------------------------------- interp
R("i_cumul_fn", "interp_pdf.py", ("interp_gen._compute_ycumul", '''
def _compute_ycumul(self):
    dx = np.diff(self._xvals)
    areas = 0.5 * dx * (self._yvals[:, 1:] + self._yvals[:, :-1])
    first = 0.5 * dx[0] * self._yvals[:, :1]
    self._ycumul = np.concatenate([first, np.cumsum(areas, axis=1)], axis=1)
'''))
R("i_init_norm", "interp_pdf.py", ("interp_gen.__init__", '''
def __init__(self, xvals, yvals, *args, **kwargs):
    """
    Create a new distribution by interpolating the given values
    """
    n_x, n_y = np.size(xvals), np.shape(yvals)[-1]
    if n_x != n_y:
        raise ValueError("Shape of xbins in xvals (%s) != shape of xbins in yvals (%s)" % (n_x, n_y))
    self._check_input = kwargs.pop("check_input", True)
    kwargs["shape"] = np.shape(yvals)[:-1]
    self._xvals = np.asarray(xvals)
    self._xmin, self._xmax = self._xvals[0], self._xvals[-1]
    self._yvals = reshape_to_pdf_size(yvals, -1)
    self._ycumul = None
    if self._check_input:
        self._normalize()
    super().__init__(*args, **kwargs)
    self._addmetadata("xvals", self._xvals)
    self._addmetadata("check_input", self._check_input)
    self._addobjdata("yvals", self._yvals)

def _normalize(self):
    self._compute_ycumul()
    totals = self._ycumul[:, -1:]
    self._yvals = self._yvals / totals
    self._ycumul = self._ycumul / totals
'''))
R("i_irr_cumul", "interp_pdf.py", ("interp_irregular_gen._compute_ycumul", '''
def _compute_ycumul(self):
    areas = np.diff(self._xvals, axis=1) * self._yvals[:, 1:]
    self._ycumul = np.zeros(self._yvals.shape)
    self._ycumul[:, 1:] = np.cumsum(areas, axis=1)
'''))
R("i_irr_norm", "utils.py", ("normalize_interp1d", '''
def normalize_interp1d(xvals, yvals):
    """
    Normalize a set of 1D interpolators
    """
    widths = xvals[:, 1:] - xvals[:, :-1]
    integrals = np.sum(widths * yvals[:, 1:], axis=1)
    return yvals / integrals[:, np.newaxis]
'''))
R("i_irr_einsum", "utils.py", ("normalize_interp1d", '''
def normalize_interp1d(xvals, yvals):
    """
    Normalize a set of 1D interpolators
    """
    integrals = (np.diff(xvals, axis=-1) * yvals[:, 1:]).sum(axis=-1, keepdims=True)
    return yvals / integrals
'''))
R("i_eval_common", "interp_pdf.py", ("interp_gen._pdf", '''
def _lookup(self, x, row, table, fill_value):
    """Interpolate a table of values at the grid"""
    return interpolate_x_multi_y(
        x, row, self._xvals, table, bounds_error=False, fill_value=fill_value
    ).ravel()

def _pdf(self, x, row):
    return self._lookup(x, row, self._yvals, 0.0)
'''), ("interp_gen._cdf", '''
def _cdf(self, x, row):
    if self._ycumul is None:
        self._compute_ycumul()
    return self._lookup(x, row, self._ycumul, (0.0, 1.0))
'''))
R("i_moment", "interp_pdf.py", ("interp_gen.custom_generic_moment", '''
def custom_generic_moment(self, m):
    """Compute the mth moment"""
    weights = self._yvals * np.gradient(self._xvals)
    powers = np.power(self._xvals, np.asarray(m))
    return np.sum(powers * weights, axis=1)
'''))
R("i_dct", "interp_pdf.py", ("interp_gen._updated_ctor_param", '''
def _updated_ctor_param(self):
    dct = super()._updated_ctor_param()
    for name in ("xvals", "yvals", "check_input"):
        dct[name] = getattr(self, "_" + name)
    return dct
'''), ("interp_irregular_gen._updated_ctor_param", '''
def _updated_ctor_param(self):
    return dict(
        super()._updated_ctor_param(),
        xvals=self._xvals,
        yvals=self._yvals,
        check_input=self._check_input,
    )
'''))

# ---------------------------------------------------------------- quantiles
R("q_pad_flags", "quant_pdf.py", ("pad_quantiles", '''
def pad_quantiles(quants, locs):
    """Pad the quantiles and locations used to build a quantile representation"""
    pad_lo = int(quants[0] > sys.float_info.epsilon)
    pad_hi = int(quants[-1] < 1.0)
    if not (pad_lo or pad_hi):
        return quants, locs
    n_vals = quants.size
    n_out = n_vals + pad_lo + pad_hi
    quants_out = np.zeros((n_out), quants.dtype)
    locs_out = np.zeros((locs.shape[0], n_out), quants.dtype)
    inner = slice(pad_lo, n_vals + pad_lo)
    quants_out[inner] = quants
    locs_out[:, inner] = locs
    if pad_lo:
        slope = (locs[:, 1] - locs[:, 0]) / (quants[1] - quants[0])
        locs_out[:, 0] = locs[:, 0] - quants[0] * slope
    if pad_hi:
        slope = (locs[:, -2] - locs[:, -1]) / (quants[-1] - quants[-2])
        locs_out[:, -1] = locs[:, -1] - (1.0 - quants[-1]) * slope
        quants_out[-1] = 1.0
    return quants_out, locs_out
'''))
R("q_pdf_loop", "quant_pdf.py", ("quant_gen._pdf", '''
def _pdf(self, x, *args):
    points, row = (np.ravel(vals) for vals in np.broadcast_arrays(x, args[0]))
    yvals = np.zeros(np.shape(points))
    for irow in np.unique(row):
        mine = row == irow
        values = self._pdf_constructor.construct_pdf(points[mine], np.array([[irow]]))
        yvals[mine] = np.ravel(values)
    return yvals
'''))
R("q_pdf_mask", "quant_pdf.py", ("quant_gen._pdf", '''
def _pdf_of_row(self, x, irow):
    """The density of a single distribution"""
    return np.ravel(self._pdf_constructor.construct_pdf(x, np.array([[irow]])))

def _pdf(self, x, *args):
    x, row = np.broadcast_arrays(x, args[0])
    x, row = x.ravel(), row.ravel()
    yvals = np.zeros(x.shape)
    order = np.argsort(row, kind="stable")
    rows, starts = np.unique(row[order], return_index=True)
    groups = np.split(order, starts[1:])
    for irow, members in zip(rows, groups):
        yvals[members] = self._pdf_of_row(x[members], irow)
    return yvals
'''))
R("q_setter", "quant_pdf.py", ("quant_gen._instantiate_pdf_constructor", '''
def _instantiate_pdf_constructor(self):
    constructor_class = PDF_CONSTRUCTORS[self._pdf_constructor_name]
    self._pdf_constructor = constructor_class(self._quants, self._locs)
'''), ("quant_gen._updated_ctor_param", '''
def _updated_ctor_param(self):
    dct = super()._updated_ctor_param()
    dct.update({
        "quants": self.quants,
        "locs": self.locs,
        "pdf_constructor_name": self.pdf_constructor_name,
        "check_input": self._check_input,
    })
    return dct
'''))
R("q_linear", "quantile_pdf_constructors/piecewise_linear.py", ("PiecewiseLinear.prepare_constructor", '''
def prepare_constructor(self) -> None:
    """Compute the derivative of the CDF, and where it belongs"""
    widths = np.diff(self._locations)
    self._cdf_derivatives = np.diff(self._quantiles) / widths
    self._adjusted_locations = self._locations[:, :-1] + widths / 2
'''))
R("q_linear2", "quantile_pdf_constructors/piecewise_linear.py", ("PiecewiseLinear.prepare_constructor", '''
def prepare_constructor(self) -> None:
    """Compute the derivative of the CDF, and where it belongs"""
    left, right = self._locations[:, :-1], self._locations[:, 1:]
    self._cdf_derivatives = (self._quantiles[1:] - self._quantiles[:-1]) / (right - left)
    self._adjusted_locations = 0.5 * (left + right)
'''), ("PiecewiseLinear.construct_pdf", '''
def construct_pdf(self, grid, row=None):
    if self._cdf_derivatives is None:
        self.prepare_constructor()
    rows = np.asarray([0]) if row is None else row
    values = interpolate_multi_x_multi_y(
        grid, rows, self._adjusted_locations, self._cdf_derivatives,
        kind="linear", bounds_error=False, fill_value=(0.0, 0.0),
    )
    return values.ravel()
'''))
R("q_const", "quantile_pdf_constructors/piecewise_constant.py", ("PiecewiseConstant.prepare_constructor", '''
def prepare_constructor(self) -> None:
    """Compute the derivatives of the CDF, and where they belong"""
    gaps = np.diff(self._locations)
    first = np.zeros(self._locations.shape)
    first[:, :-1] = np.diff(self._quantiles) / gaps
    second = np.zeros(self._locations.shape)
    second[:, :-1] = np.diff(first)
    self._cdf_derivatives = first
    self._cdf_2nd_derivatives = second
    self._adjusted_locations = self._locations[:, 1:] - 0.5 * gaps
'''))
R("q_dual", "quantile_pdf_constructors/dual_spline_average.py", ("DualSplineAverage.construct_pdf", '''
@staticmethod
def _splines(locations, values, first):
    """Splines through every second point, beginning with the given one"""
    return [
        interp1d(
            np.squeeze(loc[first::2]), np.squeeze(val[first::2]),
            bounds_error=False, fill_value=0.0, kind="cubic",
        )
        for val, loc in zip(values, locations)
    ]

def construct_pdf(self, grid, row=None):
    if self._p_of_zs is None:
        self.prepare_constructor()
    values, locations = self._p_of_zs, self._locations
    if row is not None:
        rows = np.unique(row)
        values, locations = values[rows], locations[rows]
    self.y1 = np.asarray([func(grid) for func in self._splines(locations, values, 0)])
    self.y2 = np.asarray([func(grid) for func in self._splines(locations, values, 1)])
    return 0.5 * (self.y1 + self.y2)
'''))
R("q_spline", "quantile_pdf_constructors/cdf_spline_derivative.py", ("CdfSplineDerivative.construct_pdf", '''
def construct_pdf(self, grid, row=None):
    if self._interpolation_functions is None:
        self.prepare_constructor()
    functions = self._interpolation_functions
    if row is not None:
        functions = [functions[index] for index in np.unique(row)]
    return np.asarray([function(grid) for function in functions])
'''), ("CdfSplineDerivative.prepare_constructor", '''
def prepare_constructor(self, spline_order: int = 3) -> None:
    """Make the derivative of a spline through each CDF"""
    functions = []
    for locations in self._locations:
        spline = InterpolatedUnivariateSpline(locations, self._quantiles, k=spline_order, ext=1)
        functions.append(spline.derivative())
    self._interpolation_functions = functions
'''))

# ---------------------------------------------------------------- utils
R("u_bin_idx", "utils.py", ("get_bin_indices", '''
def get_bin_indices(bins, x):
    """Return the bin indexes for a set of values"""
    n_bins = np.size(bins) - 1
    widths = np.diff(bins)
    if np.allclose(widths, widths[0]):
        idx = np.floor((x - bins[0]) / widths[0]).astype(int)
    else:
        idx = np.searchsorted(bins, x, side="left") - 1
    idx = np.atleast_1d(idx)
    inside = (idx >= 0) & (idx < n_bins)
    idx = np.where(inside, idx, 0)
    xshape = np.shape(x)
    return idx.reshape(xshape).clip(0, n_bins - 1), inside.reshape(xshape)
'''))
R("u_eval_flat", "utils.py", ("evaluate_hist_x_multi_y_flat", '''
def evaluate_hist_x_multi_y_flat(x, row, bins, vals, derivs=None):
    """
    Evaluate a set of values from histograms
    """
    assert np.ndim(x) < 2 and np.ndim(row) < 2
    idx, mask = get_bin_indices(bins, x)
    if derivs is None:
        values = vals[row, idx]
    else:
        values = vals[row, idx] + (x - bins[idx]) * derivs[row, idx]
    return np.where(mask, values, 0)
'''))
R("u_eval_prod", "utils.py", ("evaluate_hist_x_multi_y_product", '''
def evaluate_hist_x_multi_y_product(x, row, bins, vals, derivs=None):
    """
    Evaluate a set of values from histograms
    """
    idx, inside = get_bin_indices(bins, x)
    mask = np.ones(row.shape) * inside
    rows = np.squeeze(row)
    values = vals[:, idx][rows]
    if derivs is not None:
        values = values + (x - bins[idx]) * derivs[:, idx][rows]
    return np.where(mask, values, 0)
'''))
R("u_prod_rows", "utils.py", ("interpolate_multi_x_y_product", '''
def interpolate_multi_x_y_product(x, row, xvals, yvals, **kwargs):
    """
    Interpolate a set of values
    """
    def evaluate(irow):
        return interp1d(xvals[irow], yvals, **kwargs)(x)

    n_points = np.shape(x)[-1]
    return np.vectorize(evaluate, signature="()->(%i)" % n_points)(np.squeeze(row))
'''), ("interpolate_x_multi_y_product", '''
def interpolate_x_multi_y_product(x, row, xvals, yvals, **kwargs):
    """
    Interpolate a set of values
    """
    selected = yvals[np.squeeze(row)]
    return interp1d(xvals, selected, **kwargs)(x)
'''))
R("u_dispatch", "utils.py", ("interpolate_x_multi_y", '''
def _implementation(case_idx, flat, product, two_d):
    """Choose the implementation for a layout"""
    if case_idx == CASE_2D:
        return two_d
    if case_idx in (CASE_PRODUCT, CASE_FACTOR):
        return product
    return flat


def interpolate_x_multi_y(x, row, xvals, yvals, **kwargs):
    """
    Interpolate a set of values
    """
    case_idx, xx, rr = get_eval_case(x, row)
    func = _implementation(
        case_idx, interpolate_x_multi_y_flat, interpolate_x_multi_y_product, interpolate_x_multi_y_2d
    )
    return func(xx, rr, xvals, yvals, **kwargs)
'''), ("interpolate_multi_x_y", '''
def interpolate_multi_x_y(x, row, xvals, yvals, **kwargs):
    """
    Interpolate a set of values
    """
    case_idx, xx, rr = get_eval_case(x, row)
    func = _implementation(
        case_idx, interpolate_multi_x_y_flat, interpolate_multi_x_y_product, interpolate_multi_x_y_2d
    )
    return func(xx, rr, xvals, yvals, **kwargs)
'''))
R("u_dispatch_tab", "utils.py", ("evaluate_hist_x_multi_y", '''
def evaluate_hist_x_multi_y(x, row, bins, vals, derivs=None):
    """
    Evaluate a set of values from histograms
    """
    case_idx, xx, rr = get_eval_case(x, row)
    implementations = {
        CASE_PRODUCT: evaluate_hist_x_multi_y_product,
        CASE_FACTOR: evaluate_hist_x_multi_y_product,
        CASE_2D: evaluate_hist_x_multi_y_2d,
    }
    func = implementations.get(case_idx, evaluate_hist_x_multi_y_flat)
    return func(xx, rr, bins, vals, derivs)
'''))
R("u_case", "utils.py", ("get_eval_case", '''
def get_eval_case(x, row):
    """Figure out which of the various input formats scipy.stats has passed us"""
    nd_x, nd_row = np.ndim(x), np.ndim(row)
    if nd_x >= 2:
        if nd_row == 1:
            raise ValueError(
                "Dimension mismatch: x(%s), row(%s)" % (np.shape(x), np.shape(row))
            )
        return CASE_2D, x, row
    if nd_row >= 2:
        return CASE_PRODUCT, x, row
    size_x, size_row = np.size(x), np.size(row)
    if size_x == 1 or size_row == 1:
        return CASE_FLAT, x, row
    if size_x != size_row:
        nx = size_x // size_row
    else:
        changes = np.flatnonzero(np.diff(row))
        if np.size(changes):
            nx = changes[0] + 1
        else:
            nx = size_row
    if nx == 0 or size_x % nx != 0 or size_row * nx % size_x != 0:
        return CASE_FLAT, x, row
    xx = np.reshape(x, (-1, nx))
    rr = np.reshape(row, (xx.shape[0], -1))
    same_grid = np.all(xx == xx[0])
    same_row = np.all(rr == rr[:, :1])
    if same_grid and same_row:
        return CASE_FACTOR, xx[0], rr[:, :1]
    return CASE_FLAT, x, row
'''))
R("u_reshape", "utils.py", ("reshape_to_pdf_size", '''
def reshape_to_pdf_size(vals, split_dim):
    """Reshape an array to match the number of PDFs in a distribution"""
    shape = np.shape(vals)
    npdf = np.prod(shape[:split_dim]).astype(int)
    return vals.reshape((npdf, *shape[split_dim:]))
'''), ("reshape_to_pdf_shape", '''
def reshape_to_pdf_shape(vals, pdf_shape, per_pdf):
    """Reshape an array to match the shape of PDFs in a distribution"""
    return vals.reshape(np.hstack([pdf_shape, per_pdf]))
'''))
R("u_profile", "utils.py", ("profile", '''
def profile(x_data, y_data, x_bins, std=True):
    """Make a 'profile' plot"""
    idx, mask = get_bin_indices(x_bins, x_data)
    n_bins = x_bins.size - 1
    vals = np.full(n_bins, np.nan)
    errs = np.full(n_bins, np.nan)
    count = np.zeros(n_bins)
    for i in range(n_bins):
        in_bin = mask & (idx == i)
        count[i] = np.sum(in_bin)
        if not np.any(in_bin):
            continue
        selected = y_data[in_bin]
        vals[i] = np.mean(selected)
        errs[i] = np.std(selected)
    if not std:
        errs = errs / np.sqrt(count)
    return vals, errs
'''))

# ---------------------------------------------------------------- conversions, packing, sparse
R("c_hist", "conversion_funcs.py", ("extract_hist_samples", '''
def extract_hist_samples(in_dist, **kwargs):
    """Convert using a set of values samples that are then histogramed"""
    bins = kwargs.pop("bins", None)
    if bins is None:
        raise ValueError("To convert using extract_hist_samples you must specify bins")
    samples = in_dist.rvs(
        size=kwargs.pop("size", 1000), random_state=kwargs.pop("random_state", None)
    )
    counts = np.apply_along_axis(lambda sample: np.histogram(sample, bins=bins)[0], -1, samples)
    return {"bins": bins, "pdfs": counts / np.diff(bins)}
'''))
R("c_xy", "conversion_funcs.py", ("extract_xy_vals", '''
def extract_xy_vals(in_dist, **kwargs):
    """Convert using a set of x and y values"""
    xvals = kwargs.get("xvals")
    if xvals is None:
        raise ValueError("To convert using extract_xy_vals you must specify xvals")
    yvals = in_dist.pdf(xvals)
    return {"xvals": np.squeeze(xvals) * np.ones(yvals.shape), "yvals": yvals}
'''))
R("c_mixmod", "conversion_funcs.py", ("extract_mixmod_fit_samples", '''
def _fit_mixture(sample, n_comps, random_state):
    """Fit a mixture to the samples of a single distribution"""
    fit = mixture.GaussianMixture(n_components=n_comps, random_state=random_state)
    fit.fit(sample.reshape(-1, 1))
    return fit.weights_, fit.means_[:, 0], np.sqrt(fit.covariances_[:, 0, 0])


def extract_mixmod_fit_samples(in_dist, **kwargs):
    """Convert to a mixture model using a set of values sample from the pdf"""
    n_comps = kwargs.pop("ncomps", 3)
    n_sample = kwargs.pop("nsamples", 1000)
    random_state = kwargs.pop("random_state", None)
    samples = in_dist.rvs(size=n_sample, random_state=random_state)
    if isinstance(random_state, np.random.Generator):
        random_state = np.random.RandomState(random_state.bit_generator)

    vv = np.vectorize(
        lambda sample: np.vstack(_fit_mixture(sample, n_comps, random_state)),
        signature="(%i)->(3,%i)" % (n_sample, n_comps),
    )
    fits = vv(samples)
    return dict(weights=fits[:, 0, :], means=fits[:, 1, :], stds=fits[:, 2, :])
'''))
R("p_pack", "packing_utils.py", ("linear_pack_from_rowmax", '''
def linear_pack_from_rowmax(input_array):
    """Pack an array into 8bit unsigned integers"""
    row_max = input_array.max(axis=1, keepdims=True)
    scaled = 255 * input_array / row_max
    return np.round(scaled).astype(np.uint8), row_max
'''), ("log_unpack_from_rowmax", '''
def log_unpack_from_rowmax(packed_array, row_max, log_floor=-3.0):
    """Unpack an array into 8bit unsigned integers"""
    exponent = -log_floor * (packed_array / 255.0 - 1.0)
    fractions = np.where(packed_array == 0, 0.0, 10 ** exponent)
    return row_max * fractions
'''))
R("p_dispatch", "packing_utils.py", ("unpack_array", '''
def unpack_array(packing_type, packed_array, **kwargs):
    """Unpack an array from 8bit unsigned integers"""
    row_max = kwargs.get("row_max")
    if packing_type == PackingType.linear_from_rowmax:
        return linear_unpack_from_rowmax(packed_array, row_max)
    if packing_type == PackingType.log_from_rowmax:
        log_floor = kwargs.get("log_floor", -3)
        return log_unpack_from_rowmax(packed_array, row_max, log_floor)
    raise ValueError(f"Unpacking for packing type {packing_type} is not implemetned")
'''))
R("p_packed_init", "packed_interp_pdf.py", (None, ('''        if isinstance(packing_type, PackingType):
            self._packing_type = packing_type.value
        else:
            self._packing_type = packing_type
''', '''        self._packing_type = getattr(packing_type, "value", packing_type)
''')), ("packed_interp_gen.custom_generic_moment", '''
def custom_generic_moment(self, m):
    """Compute the mth moment"""
    if self._yvals is None:
        self._unpack()
    xpow = self._xvals ** np.asarray(m)
    return (xpow * self._yvals * np.gradient(self._xvals)).sum(axis=1)
'''))
R("s_decode", "sparse_rep.py", ("decode_sparse_indices", '''
def _fractions(codes, Ncoef):
    """Convert the coefficients to values, the first one is unity"""
    vals = codes * (1.0 / (Ncoef - 1))
    vals[:, 0] = 1.0
    return vals


def decode_sparse_indices(indices):
    """decode sparse indices into basis indices and weigth array"""
    sp_ind = np.array([get_N(packed) for packed in indices])
    return sp_ind[:, 1, :], _fractions(sp_ind[:, 0, :], 32001)
'''))
R("s_shapes", "sparse_rep.py", ("indices2shapes", '''
def indices2shapes(sparse_indices, meta):
    """compute the Voigt shape parameters from the sparse index"""
    Nmu, Nsigma, Nv, Ncoef = meta["dims"][:4]
    mu, sigma = meta["mu"], meta["sig"]
    sp_ind = np.array([get_N(packed) for packed in sparse_indices])
    vals = sp_ind[:, 0, :] * (1.0 / (Ncoef - 1))
    vals[:, 0] = 1.0
    basis = sp_ind[:, 1, :]
    in_mean = basis % (Nsigma * Nv)
    means = np.linspace(mu[0], mu[1], Nmu)[basis // (Nsigma * Nv)]
    sigmas = np.linspace(sigma[0], sigma[1], Nsigma)[in_mean // Nv]
    gammas = np.linspace(0, 0.5, Nv)[in_mean % Nv]
    return vals, means, sigmas, gammas
'''))
R("s_basis", "sparse_rep.py", ("create_voigt_basis", '''
def create_voigt_basis(xvals, mu, Nmu, sigma, Nsigma, Nv, cut=1.0e-5):
    """
    Creates a gaussian-voigt dictionary at the same resolution as the original PDFs
    """
    A = np.zeros((len(xvals), Nmu * Nsigma * Nv))
    column = 0
    for mean in np.linspace(mu[0], mu[1], Nmu):
        for sig in np.linspace(sigma[0], sigma[1], Nsigma):
            for gamma in np.linspace(0, 0.5, Nv):
                profile = voigt_profile(xvals - mean, sig, gamma)
                profile = np.where(profile >= cut, profile, 0.0)
                A[:, column] = profile / sla.norm(profile)
                column += 1
    return A
'''))
R("s_pdf", "sparse_rep.py", ("pdf_from_sparse", '''
def pdf_from_sparse(sparse_indices, A, xvals, cut=1.0e-5):
    """return the array of evaluations at xvals from the sparse indices"""
    indices, vals = decode_sparse_indices(sparse_indices)
    values = np.sum(A[:, indices] * vals, axis=-1)
    values[~(values >= cut)] = 0.0
    return values / sciint.trapezoid(values.T, xvals)
'''))

# ---------------------------------------------------------------- mixture, spline
R("m_eval", "mixmod_pdf.py", ("mixmod_gen._pdf", '''
def _components(self, x, row):
    """Weights and distributions of the components, and the points to evaluate those at"""
    if np.ndim(x) > 1:
        x = np.expand_dims(x, -2)
    weights, means, stds = (
        table[row].swapaxes(-2, -1) for table in (self._weights, self._means, self._stds)
    )
    return weights, sps.norm(loc=means, scale=stds), x

def _pdf(self, x, row):
    weights, parts, points = self._components(x, row)
    return np.sum(weights * parts.pdf(points), axis=0)
'''), ("mixmod_gen._cdf", '''
def _cdf(self, x, row):
    weights, parts, points = self._components(x, row)
    return np.sum(weights * parts.cdf(points), axis=0)
'''))
R("m_init", "mixmod_pdf.py", (None, ('''        if np.any(self._weights < 0):
            raise ValueError('All weights need to be larger than zero')
        self._weights = self._weights / self._weights.sum(axis=1)[:, None]
''' if False else '''        self._weights = self._weights / self._weights.sum(axis=1)[:, None]
''', '''        totals = np.sum(self._weights, axis=1, keepdims=True)
        self._weights = self._weights / totals
''')))
R("m_ppf", "mixmod_pdf.py", ("mixmod_gen._ppf", '''
def _ppf(self, x, row):
    reach = 6 * self._stds
    lowest, highest = np.min(self._means - reach), np.max(self._means + reach)
    grid = np.linspace(lowest, highest, 201)
    rows, index = np.unique(row, return_inverse=True)
    table = self.cdf(grid, rows[:, np.newaxis])
    values = interpolate_multi_x_y(
        x,
        np.reshape(index, np.shape(row)),
        table,
        grid,
        fill_value=(lowest, highest),
        bounds_error=False,
    )
    return values.ravel()
'''))
R("l_rows", "spline_pdf.py", ("build_splines", '''
def build_splines(xvals, yvals):
    """
    Build a set of 1D spline representations
    """
    reps = [splrep(xrow, yrow) for xrow, yrow in zip(xvals, yvals)]
    knots, coefs, orders = zip(*reps)
    return np.vstack(knots), np.vstack(coefs), np.vstack(orders)
'''), ("spline_gen._pdf", '''
def _rep(self, irow):
    """The spline of a single distribution"""
    return self._splx[irow], self._sply[irow], self._spln[irow].item()

def _pdf(self, x, row):
    with errstate(all="ignore"):
        evaluate = np.vectorize(lambda xv, irow: splev(xv, self._rep(irow)))
    return evaluate(x, row).ravel()
'''), ("spline_gen._cdf", '''
def _cdf(self, x, row):
    def cdf_row(xv, irow):
        return splint(self._xmin, xv, self._rep(irow))

    with errstate(all="ignore"):
        evaluate = np.vectorize(cdf_row)
    return evaluate(x, row).ravel()
'''))
R("l_samples", "spline_pdf.py", ("spline_gen.create_from_samples", '''
@classmethod
def create_from_samples(cls, xvals, samples, **kwargs):
    """Create a new distribution using the given samples"""
    options = {key: val for key, val in kwargs.items() if key != "yvals"}
    yvals = evaluate_kdes(xvals, build_kdes(samples))
    grids = np.ones((samples.shape[0], 1)) * np.asarray(xvals)
    return cls.create_from_xy_vals(grids, yvals, **options)
'''))

# ---------------------------------------------------------------- metrics
R("x_cde", "metrics/concrete_metric_classes.py", ("CDELossMetric.evaluate", '''
def _terms(self, estimate, reference):
    """Integral of the squared density, and the density at the reference, per distribution"""
    pdfs = estimate.pdf(self._xvals)
    nearest = [np.argmin(np.abs(self._xvals - z)) for z in reference]
    return np.trapz(pdfs**2, x=self._xvals), pdfs[range(estimate.npdf), nearest]

def evaluate(self, estimate, reference):
    squares, at_reference = self._terms(estimate, reference)
    return np.mean(squares) - 2 * np.mean(at_reference)
'''), ("CDELossMetric.accumulate", '''
def accumulate(self, estimate, reference):
    squares, at_reference = self._terms(estimate, reference)
    return np.sum(squares), np.sum(at_reference), estimate.npdf
'''), ("CDELossMetric.finalize", '''
def finalize(self, tuples):
    squares, at_reference, count = np.sum(np.atleast_2d(tuples), axis=0)
    return squares / count - 2 * at_reference / count
'''))
R("x_cde_fin", "metrics/concrete_metric_classes.py", ("CDELossMetric.finalize", '''
def finalize(self, tuples):
    totals = np.atleast_2d(tuples).sum(axis=0)
    term1, term2 = totals[:2] / totals[2]
    return term1 - 2 * term2
'''), ("BrierMetric.finalize", '''
def finalize(self, tuples):
    total, count = np.atleast_2d(tuples).sum(axis=0)
    return total / count
'''))
R("x_digest", "metrics/concrete_metric_classes.py", ("DistToPointMetricDigester.finalize", '''
def finalize(self, centroids: np.ndarray = []):
    """This function combines all the centroids that were calculated for the input estimate and reference subsets"""
    digest = None
    for centroid in centroids:
        part = pytdigest.TDigest.of_centroids(
            np.array(centroid), compression=self._tdigest_compression
        )
        digest = part if digest is None else digest + part
    return self.compute_from_digest(digest)
'''), ("PITMetric.accumulate", '''
def accumulate(self, estimate, reference):
    samples = PIT._gather_pit_samples(estimate, reference)
    return pytdigest.TDigest.compute(samples, compression=self._tdigest_compression).get_centroids()
'''))
R("x_pitgrid", "metrics/concrete_metric_classes.py", ("PITMetric.compute_from_digest", '''
def compute_from_digest(self, digest):
    eval_grid = self._eval_grid
    total_samples = int(digest.weight)
    if total_samples < len(eval_grid):
        print("Number of pit samples is smaller than the evaluation grid size. Will create a new evaluation grid with size = number of pit samples")
        eval_grid = np.linspace(0, 1, total_samples)
    return PIT._produce_output_ensemble(digest.inverse_cdf(eval_grid), eval_grid)
'''), ("metrics/pit.py::PIT._gather_pit_samples", '''
@classmethod
def _gather_pit_samples(cls, qp_ens, true_vals):
    samples = np.atleast_1d(np.squeeze(qp_ens.cdf(np.vstack(true_vals))))
    good = np.isfinite(samples)
    if not good.all():
        logging.warning("Some PIT samples were `NaN`. They have been replacd with 0.")
    return np.where(good, samples, 0)
'''))
R("x_brier", "metrics/brier.py", ("Brier._calculate_metric", '''
def _squared_distances(self):
    """The squared distance of each prediction from the truth"""
    diff = self._prediction - self._truth
    return np.sum(diff * diff, axis=self._axis_for_summation)

def _calculate_metric(self):
    return np.mean(self._squared_distances())
'''), ("Brier._calculate_metric_for_accumulation", '''
def _calculate_metric_for_accumulation(self):
    return np.sum(self._squared_distances())
'''))
R("x_arrays", "metrics/array_metrics.py", ("quick_kld", '''
def quick_kld(p_eval, q_eval, dx=0.01):
    """Calculates the Kullback-Leibler Divergence"""
    log_ratio = safelog(p_eval) - safelog(q_eval)
    return (p_eval * log_ratio).sum(axis=-1) * dx
'''), ("quick_rmse", '''
def quick_rmse(p_eval, q_eval, N):
    """Calculates the Root Mean Square Error"""
    diff = p_eval - q_eval
    return np.sqrt((diff * diff).sum(axis=-1) / N)
'''), ("quick_moment", '''
def quick_moment(p_eval, grid_to_N, dx):
    """Calculates a moment of an evaluated PDF"""
    return dx * np.dot(p_eval, grid_to_N)
'''))
R("x_gof", "metrics/goodness_of_fit.py", ("_cramer_von_mises", '''
def _cramer_von_mises(dist, data):
    n = data.shape[-1]
    cdfvals = dist.cdf(np.sort(data, axis=-1))
    middles = (np.arange(1, n + 1) - 0.5) / n
    return 1 / (12 * n) + np.sum((cdfvals - middles) ** 2, axis=-1)
'''), ("_anderson_darling", '''
def _anderson_darling(dist, data):
    x = np.sort(data, axis=-1)
    n = data.shape[-1]
    factors = (2 * np.arange(1, n + 1) - 1) / n
    logs = dist.logcdf(x) + dist.logsf(np.flip(x, axis=-1))
    return -n - np.sum(factors * logs, axis=-1)
'''), ("_kolmogorov_smirnov", '''
def _kolmogorov_smirnov(dist, data):
    cdfvals = dist.cdf(np.sort(data, axis=-1))
    return np.maximum(_compute_dplus(cdfvals), _compute_dminus(cdfvals))
'''))
R("x_metrics", "metrics/metrics.py", ("calculate_rmse", '''
def _on_common_grid(p, q, limits, dx):
    """Evaluate both ensembles on the same grid"""
    grid = _calculate_grid_parameters(limits, dx)
    return grid, p.gridded(grid.grid_values)[1], q.gridded(grid.grid_values)[1]


def calculate_rmse(p, q, limits, dx=0.01):
    """Calculates the Root Mean Square Error"""
    if p.shape != q.shape:
        raise ValueError("Cannot calculate RMSE between two ensembles with different shapes")
    grid, pe, qe = _on_common_grid(p, q, limits, dx)
    return array_metrics.quick_rmse(pe, qe, grid.cardinality)
'''), ("calculate_kld", '''
def calculate_kld(p, q, limits, dx=0.01):
    """Calculates the Kullback-Leibler Divergence"""
    if p.shape != q.shape:
        raise ValueError("Cannot calculate KLD between two ensembles with different shapes")
    grid, pn, qn = _on_common_grid(p, q, limits, dx)
    Dpq = array_metrics.quick_kld(pn, qn, grid.resolution)
    if np.any(Dpq < 0.0):
        print("broken KLD: " + str((Dpq, pn, qn, grid.resolution)))
        return epsilon * np.ones(Dpq.shape)
    return Dpq
'''))
R("x_rbpe", "metrics/metrics.py", ("calculate_rbpe", '''
def calculate_rbpe(p, limits=(np.inf, np.inf)):
    """Calculates the risk based point estimates"""
    def evaluate_pdf_at_z(z, dist):
        return dist.pdf(z)[0][0]

    rbpes = []
    for n in range(p.npdf):
        dist = p[n]
        if dist.npdf != 1:
            raise ValueError("quick_rbpe only handles Ensembles with a single PDF")
        bounds = tuple(dist.ppf(level)[0][0] for level in (0.01, 0.99))
        rbpes += [array_metrics.quick_rbpe(partial(evaluate_pdf_at_z, dist=dist), bounds, limits)]
    return np.array(rbpes)
'''), ("calculate_outlier_rate", '''
def calculate_outlier_rate(p, lower_limit=0.0001, upper_limit=0.9999):
    """Fraction of outliers in each distribution"""
    try:
        _check_ensemble_is_not_nested(p)
    except ValueError:
        logging.warning("Each element in the ensemble `p` must be a single distribution.")
    rates = []
    for dist in p:
        below = dist.cdf(lower_limit)
        above = 1.0 - dist.cdf(upper_limit)
        rates.append((below + above)[0][0])
    return np.array(rates)
'''))
R("x_mad", "metrics/point_estimate_metric_classes.py", ("PointSigmaMAD.compute_from_digest", '''
def compute_from_digest(self, digest):
    median = digest.inverse_cdf(0.5)
    bins = np.linspace(digest.inverse_cdf(0), digest.inverse_cdf(1), self._num_bins)
    left, right = bins[:-1], bins[1:]
    masses = digest.cdf(right) - digest.cdf(left)
    distances = np.fabs(0.5 * (left + right) - median)
    order = np.argsort(distances)
    cumulative = np.cumsum(masses[order])
    return 1.4826 * distances[order][np.searchsorted(cumulative, 0.5)]
'''), ("PointSigmaMAD.evaluate", '''
def evaluate(self, estimate, reference):
    ez = (estimate - reference) / (1.0 + reference)
    return 1.4826 * np.median(np.fabs(ez - np.median(ez)))
'''))
R("x_pitout", "metrics/pit.py", ("PIT._produce_output_ensemble", '''
@classmethod
def _produce_output_ensemble(cls, data_quants, eval_grid):
    locs, first = np.unique(data_quants, return_index=True)
    quants = eval_grid[first]
    mask = cls._create_quant_mask(locs)
    data = {"quants": quants[mask], "locs": np.atleast_2d(locs[mask])}
    return qp.Ensemble(qp.quant, data=data)
'''), ("PIT._create_quant_mask", '''
@classmethod
def _create_quant_mask(cls, data_quants):
    return (data_quants > 0.0) & (data_quants < 1)
'''), ("PIT._trim_pit_values", '''
def _trim_pit_values(self, cdf_min, cdf_max):
    samples = self._pit_samps
    kept = samples[np.logical_and(cdf_min <= samples, samples <= cdf_max)]
    n_removed = len(samples) - len(kept)
    if n_removed:
        logging.warning("Removed %d PITs from the sample.", n_removed)
    return kept
'''))
R("x_names", "metrics/factory.py", ("MetricFactory.create_metric", '''
@classmethod
def _known(cls, force_update):
    """The dictionary of metrics, made if need be"""
    if force_update or not cls.metric_dict:
        cls.update_metrics()
    return cls.metric_dict

@classmethod
def create_metric(cls, name, force_update=False, **kwargs):
    metrics = cls._known(force_update)
    if name not in metrics:
        raise KeyError(f"{name} is not in the set of known metrics {str(list(metrics))}")
    return metrics[name](**kwargs)
'''), ("MetricFactory.list_metrics", '''
@classmethod
def list_metrics(cls, force_update=False):
    return list(cls._known(force_update))
'''))
R("x_kinds", "metrics/base_metric_classes.py", ("MetricInputType.uses_point_for_estimate", '''
def uses_point_for_estimate(self) -> bool:
    return self == MetricInputType.point_to_point or self == MetricInputType.point_to_dist
'''), ("MetricInputType.uses_distribution_for_estimate", '''
def uses_distribution_for_estimate(self) -> bool:
    kinds = (MetricInputType.dist_to_dist, MetricInputType.dist_to_point, MetricInputType.single_ensemble)
    return self in kinds
'''))

if __name__ == "__main__":
    import sys
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    run(names or list(ALL))
