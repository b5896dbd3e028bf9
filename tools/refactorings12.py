"""Twelfth batch of behaviour-preserving rewrites: ways in, ways out and first uses of tables - the ensemble's own methods, readers, lookups,
lazily built tables, decoding of sparse codes - each written by another route."""
from refactorings import R, run, ALL

ALL.clear()
E, F, D = "ensemble.py", "factory.py", "dict_utils.py"

R("e_getitem", E, ("Ensemble.__getitem__", '''
def __getitem__(self, key):
    """Build an Ensemble with a sub-set of the distributions"""
    settings = {k: np.squeeze(v) for k, v in self.metadata().items() if k not in ("pdf_name", "pdf_version")}
    columns = slice_dict(self.objdata(), key)
    data = {**settings, **{k: np.expand_dims(v, 0) if np.ndim(v) < 2 else v for k, v in columns.items()}}
    ancil = None if self._ancil is None else slice_dict(self._ancil, key)
    return Ensemble(self._gen_obj.create, data=data, ancil=ancil)
'''))
R("e_update_frozen", E, ("Ensemble._update_frozen", '''
def _update_frozen(self, frozen, ancil=None):
    """Put a new frozen distribution in place"""
    n_new = frozen.npdf
    check_array_shapes(ancil, n_new)
    self._frozen, self._gen_obj = frozen, frozen.dist
    self._gridded = self._samples = None
    self.set_ancil(ancil)
'''))
R("e_update_objdata", E, ("Ensemble.update_objdata", '''
def update_objdata(self, data, ancil=None):
    """Update the object data in the distribution"""
    identity = ("pdf_name", "pdf_version")
    merged = {k: np.squeeze(v) for k, v in self.metadata().items() if k not in identity}
    for table in (self.objdata(), data):
        merged.update(table)
    frozen = self._gen_obj.create(**merged)
    self._update_frozen(frozen, ancil=ancil)
'''))
R("e_add_ancil", E, ("Ensemble.add_to_ancil", '''
def add_to_ancil(self, to_add):
    """Add additional data to the extra table"""
    n = self.npdf
    check_array_shapes(to_add, n)
    held = self._ancil
    if held is None:
        held = {}
    joined = dict(held)
    for name in to_add:
        joined[name] = to_add[name]
    self._ancil = joined
'''))
R("e_convert", E, ("Ensemble.convert_to", '''
def convert_to(self, to_class, **kwargs):
    """Convert a distribution or ensemble"""
    options = dict(kwargs)
    method = options.pop("method") if "method" in options else None
    found = []
    for what, look in (("creation_method", to_class.creation_method), ("extraction_method", to_class.extraction_method)):
        func = look(method)
        if func is None:
            raise KeyError("Class named %s does not have a %s named %s" % (to_class.name, what, method))
        found.append(func)
    make, take = found
    return Ensemble(make, data=take(self, **options))
'''))
R("e_append", E, ("Ensemble.append", '''
def append(self, other_ens):
    """Append another Ensemble to this one"""
    pair = (self, other_ens)
    if not compare_dicts([ens.metadata() for ens in pair]):
        raise KeyError("Metadata does not match, can not append")
    objdata = concatenate_dicts([ens.objdata() for ens in pair])
    extra = None
    if not any(ens.ancil is None for ens in pair):
        extra = concatenate_dicts([ens.ancil for ens in pair])
    self.update_objdata(objdata, extra)
'''))
R("e_gridded", E, ("Ensemble.gridded", '''
def gridded(self, grid):
    """Build, if needed, the values on a grid"""
    known = self._gridded
    if known is not None and np.array_equal(known[0], grid):
        return known
    self._gridded = (np.array(grid), self.pdf(grid))
    return self._gridded
'''))
R("f_from_tables", F, ("Factory.from_tables", '''
def from_tables(self, tables):
    """Build this ensemble from tables"""
    data = self._build_data_dict(tables["meta"], tables["data"])
    name, version = (data.pop(k) for k in ("pdf_name", "pdf_version"))
    try:
        the_class = self[name]
    except KeyError:
        raise KeyError("Class nameed %s is not in factory" % name) from None
    convert = the_class.reader_method(version)
    if convert is not None:
        data = convert(data)
    return Ensemble(the_class.creation_method(None), data=data, ancil=tables.get("ancil"))
'''))
R("f_from_tables2", F, ("Factory.from_tables", '''
def from_tables(self, tables):
    """Build this ensemble from tables"""
    md_table, data_table = tables["meta"], tables["data"]
    data = self._build_data_dict(md_table, data_table)
    pdf_name = data["pdf_name"]
    pdf_version = data["pdf_version"]
    del data["pdf_name"], data["pdf_version"]
    if pdf_name not in self:
        raise KeyError("Class nameed %s is not in factory" % pdf_name)
    cls = self[pdf_name]
    reader = cls.reader_method(version=pdf_version)
    args = data if reader is None else reader(data)
    return Ensemble(cls.creation_method(method=None), args, tables.get("ancil", None))
'''))
R("f_concat", F, ("Factory.concatenate", '''
@staticmethod
def concatenate(ensembles):
    """Concatenate a list of Ensembles"""
    if not ensembles:
        return None
    metadata_list = [ens.metadata() for ens in ensembles]
    if not compare_dicts(metadata_list):
        raise ValueError("Metadata does not match")
    data = concatenate_dicts([ens.objdata() for ens in ensembles])
    ancils = [ens.ancil for ens in ensembles]
    ancil = None if any(a is None for a in ancils) else concatenate_dicts(ancils)
    data.update({k: np.squeeze(v) for k, v in metadata_list[0].items() if k not in ["pdf_name", "pdf_version"]})
    return Ensemble(ensembles[0].gen_obj.create, data, ancil)
'''))
R("f_readdict", F, ("Factory.read_dict", '''
@staticmethod
def read_dict(filename):
    """Read the ensembles in a file"""
    def group_tables(name):
        out = {}
        for key_name in io.readHdf5GroupNames(filename, name):
            group, handle = io.readHdf5Group(filename, f"{name}/{key_name}")
            try:
                out[key_name] = io.readHdf5GroupToDict(group)
            finally:
                handle.close()
        return out

    return {name: from_tables(group_tables(name)) for name in io.readHdf5GroupNames(filename)}
'''))
R("d_slice", D, ("slice_dict", '''
def slice_dict(in_dict, subslice):
    """Create a new `dict` by taking a slice of of every array in a `dict`"""
    def taken(val):
        try:
            return val[subslice]
        except (KeyError, TypeError):
            return val

    return {key: taken(val) for key, val in in_dict.items()}
'''))
R("d_slice2", D, ("slice_dict", '''
def slice_dict(in_dict, subslice):
    """Create a new `dict` by taking a slice of of every array in a `dict`"""
    out_dict = dict(in_dict)
    for key in in_dict:
        try:
            out_dict[key] = in_dict[key][subslice]
        except (TypeError, KeyError):
            pass
    return out_dict
'''))
R("d_check", D, ("check_array_shapes", '''
def check_array_shapes(in_dict, npdf):
    """Check that all of the arrays have one row per PDF"""
    for key, val in (in_dict or {}).items():
        single = npdf == 1 and np.size(val) == 1
        if single:
            continue
        n_rows = np.shape(val)[0]
        if n_rows == npdf:
            continue
        raise ValueError("First dimension of array %s does not match npdf: %i != %i" % (key, n_rows, npdf))
'''))
R("d_compare", D, ("compare_dicts", '''
def compare_dicts(in_dicts):
    """Check that all of the dicts match"""
    if not in_dicts:
        return True
    first, rest = in_dicts[0], in_dicts[1:]
    return all(compare_two_dicts(first, other) for other in rest)
'''))
R("i_lazy", "interp_pdf.py", ("interp_irregular_gen._cdf", '''
def _cdf(self, x, row):
    table = self._cumulative()
    return interpolate_multi_x_multi_y(x, row, self._xvals, table, bounds_error=False, fill_value=(0.0, 1.0)).ravel()

def _cumulative(self):
    if self._ycumul is None:
        self._compute_ycumul()
    return self._ycumul
'''), ("interp_irregular_gen._ppf", '''
def _ppf(self, x, row):
    table = self._cumulative()
    ends = (self._xmin, self._xmax)
    return interpolate_multi_x_multi_y(x, row, table, self._xvals, bounds_error=False, fill_value=ends).ravel()
'''))
R("h_lazy", "hist_pdf.py", ("hist_gen._cdf", '''
def _cdf(self, x, row):
    table = self._hcdfs
    if table is None:
        self._compute_cdfs()
        table = self._hcdfs
    return interpolate_x_multi_y(x, row, self._hbins, table, bounds_error=False, fill_value=(0.0, 1.0)).ravel()
'''), ("hist_gen._ppf", '''
def _ppf(self, x, row):
    if not self._cdfs_there():
        self._compute_cdfs()
    return interpolate_multi_x_y(x, row, self._hcdfs, self._hbins, bounds_error=False, fill_value=(self._xmin, self._xmax)).ravel()

def _cdfs_there(self):
    return self._hcdfs is not None
'''))
R("p_lazy", "packed_interp_pdf.py", ("packed_interp_gen._compute_ycumul", '''
def _compute_ycumul(self):
    if self._yvals is None:
        self._unpack()
    steps = np.diff(self._xvals)
    sums = self._yvals[:, 1:] + self._yvals[:, :-1]
    self._ycumul = np.empty(self._yvals.shape)
    self._ycumul[:, 0] = 0.5 * self._yvals[:, 0] * steps[0]
    self._ycumul[:, 1:] = np.cumsum(steps * 0.5 * sums, axis=1)
'''))
R("q_pdf", "quant_pdf.py", ("quant_gen._pdf", '''
def _pdf(self, x, *args):
    x, row = [np.ravel(vals) for vals in np.broadcast_arrays(x, args[0])]
    order = np.argsort(row, kind="stable")
    ordered = row[order]
    rows, starts = np.unique(ordered, return_index=True)
    groups = np.split(order, starts[1:])
    yvals = np.zeros(x.shape)
    for irow, idx in zip(rows, groups):
        here = self._pdf_constructor.construct_pdf(x[idx], np.array([[irow]]))
        yvals[idx] = np.ravel(here)
    return yvals
'''))
R("q_pdf2", "quant_pdf.py", ("quant_gen._pdf", '''
def _pdf(self, x, *args):
    x, row = (np.ravel(vals) for vals in np.broadcast_arrays(x, args[0]))
    yvals = np.zeros(np.shape(x))
    for irow in np.unique(row):
        here = row == irow
        yvals[here] = np.ravel(self._pdf_constructor.construct_pdf(x[here], np.array([[irow]])))
    return yvals
'''))
R("s_shapes", "sparse_rep.py", ("indices2shapes", '''
def indices2shapes(sparse_indices, meta):
    """Return the shapes of the basis functions"""
    Nmu, Nsigma, Nv, Ncoef = meta['dims'][:4]
    means_array = np.linspace(meta['mu'][0], meta['mu'][1], Nmu)
    sig_array = np.linspace(meta['sig'][0], meta['sig'][1], Nsigma)
    gam_array = np.linspace(0, 0.5, Nv)
    sp_ind = np.array([get_N(row) for row in sparse_indices])
    vals = sp_ind[:, 0, :] * (1.0 / (Ncoef - 1))
    vals[:, 0] = 1.0
    number = sp_ind[:, 1, :]
    imu, rest = number // (Nsigma * Nv), number % (Nsigma * Nv)
    isig, igam = rest // Nv, rest % Nv
    return vals, means_array[imu], sig_array[isig], gam_array[igam]
'''))
R("s_shapes2", "sparse_rep.py", (None, ('''    gammas = gam_array[np.array((Dind2 % (Nsigma * Nv)) % Nv, int)]
''', '''    igam = np.array(Dind2 % Nv, int)
    gammas = gam_array[igam]
''')))
R("u_prod", "utils.py", ("evaluate_hist_x_multi_y_product", '''
def evaluate_hist_x_multi_y_product(x, row, bins, vals, derivs=None):
    """Evaluate a set of values from histograms"""
    idx, inside = get_bin_indices(bins, x)
    mask = np.ones(row.shape) * inside
    rows = np.squeeze(row)
    answer = vals[:, idx][rows]
    if derivs is not None:
        answer = answer + (x - bins[idx]) * derivs[:, idx][rows]
    return np.where(mask == 0, 0, answer)
'''))
R("h_moment", "hist_pdf.py", ("hist_gen.custom_generic_moment", '''
def custom_generic_moment(self, m):
    """Compute the mth moment"""
    lo, hi = self._hbins[:-1], self._hbins[1:]
    mids = (lo + hi) / 2
    weights = self._hpdfs * self._hbin_widths
    return (mids ** np.asarray(m) * weights).sum(axis=1)
'''))
R("sp_param", "sparse_pdf.py", ("sparse_gen._updated_ctor_param", '''
def _updated_ctor_param(self):
    """Set the bins as additional constructor argument"""
    dct = super()._updated_ctor_param()
    dct.update(sparse_indices=self.sparse_indices, xvals=self._xvals, cut=self._cut)
    for name in ("mu", "sig", "dims"):
        dct[name] = getattr(self, name)
    return dct
'''))
R("e_write", E, ("Ensemble.write_to", '''
def write_to(self, filename):
    """Write this ensemble to a file"""
    root, dotted = os.path.splitext(filename)
    io.write(self.build_tables(), root, dotted[1:])
'''))
R("e_alloc", E, ("Ensemble._get_allocation_kwds", '''
def _get_allocation_kwds(self, npdf):
    """Get the shapes and types of the columns"""
    groups = {name: tab for name, tab in self.build_tables().items() if name != "meta"}
    return {name: {key: ([npdf] + list(array.shape)[1:], array.dtype) for key, array in tab.items()} for name, tab in groups.items()}
'''))

if __name__ == "__main__":
    import sys
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    run(names or list(ALL))
