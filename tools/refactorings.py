"""Development tool: behaviour-preserving rewrites, as a maintainer might make them.  Every check has to stay quiet on each.
R(name, file, [(qualified name, new source), ...]) replaces definitions; the new source may define helpers next to it."""
import ast
import os
import shutil
import subprocess
import sys
import tempfile
import textwrap

TMP = tempfile.mkdtemp(prefix="qprf")

ALL = {}


def R(name, file, *subs):
    ALL[name] = (file, subs)


def span(src, qual):
    node = ast.parse(src)
    for part in qual.split("."):
        setter = part.endswith("!")
        part = part.rstrip("!")
        c = [n for n in node.body if getattr(n, "name", None) == part]
        node = c[-1] if setter else c[0]
    first = min([node.lineno] + [d.lineno for d in node.decorator_list])
    return first, node.end_lineno, node.col_offset


def apply(root, file, subs):
    for qual, new in subs:
        if qual and "::" in qual:             # in another file than the others
            other, qual = qual.split("::")
            apply(root, other, [(qual or None, new)])
            continue
        p = os.path.join(root, file)
        src = open(p).read()
        if qual is None:                      # textual replacement
            old, new = new
            assert src.count(old) == 1, (file, old, src.count(old))
            src = src.replace(old, new)
            ast.parse(src)
            open(p, "w").write(src)
            continue
        a, b, off = span(src, qual)
        lines = src.splitlines(keepends=True)
        new = textwrap.indent(textwrap.dedent(new).strip("\n"), " " * off) + "\n"
        src = "".join(lines[:a - 1]) + new + "".join(lines[b:])
        ast.parse(src)
        open(p, "w").write(src)


R("slice_dict_helper", "dict_utils.py", ("slice_dict", '''
def _take(val, subslice):
    """Slice an array, leave anything else alone"""
    try:
        return val[subslice]
    except (KeyError, TypeError):
        return val


def slice_dict(in_dict, subslice):
    return {key: _take(val, subslice) for key, val in in_dict.items()}
'''))
R("concat_comp", "dict_utils.py", ("concatenate_dicts", '''
def concatenate_dicts(in_dicts):
    if len(in_dicts) == 0:
        return {}
    check_keys(in_dicts)
    out_dict = {}
    for key in in_dicts[0]:
        arrays = []
        for in_dict in in_dicts:
            arrays.append(in_dict[key])
        out_dict[key] = np.concatenate(arrays)
    return out_dict
'''))
R("concat_comp2", "dict_utils.py", ("concatenate_dicts", '''
def concatenate_dicts(in_dicts):
    if not in_dicts:
        return {}
    check_keys(in_dicts)
    first = in_dicts[0]
    return {key: np.concatenate([d[key] for d in in_dicts], axis=0) for key in first.keys()}
'''))
R("check_shapes_var", "dict_utils.py", ("check_array_shapes", '''
def check_array_shapes(in_dict, npdf):
    if in_dict is None:
        return
    for key, val in in_dict.items():
        is_scalar_like = np.size(val) == 1
        if npdf == 1 and is_scalar_like:
            continue
        nrow = np.shape(val)[0]
        if nrow == npdf:
            continue
        raise ValueError(
            "First dimension of array %s does not match npdf: %i != %i" % (key, nrow, npdf)
        )
'''))
R("check_shapes_flag", "dict_utils.py", ("check_array_shapes", '''
def check_array_shapes(in_dict, npdf):
    if in_dict is not None:
        for key, val in in_dict.items():
            if not (np.size(val) == 1 and npdf == 1) and np.shape(val)[0] != npdf:
                raise ValueError(
                    "First dimension of array %s does not match npdf: %i != %i"
                    % (key, np.shape(val)[0], npdf)
                )
'''))
R("compare_dicts_all", "dict_utils.py", ("compare_dicts", '''
def compare_dicts(in_dicts):
    if not in_dicts:
        return True
    reference = in_dicts[0]
    return all(compare_two_dicts(reference, other) for other in in_dicts[1:])
'''))
R("compare_two_helper", "dict_utils.py", ("compare_two_dicts", '''
def _differ(v, vv):
    try:
        return bool(v != vv)
    except ValueError:
        return not np.allclose(v, vv)


def compare_two_dicts(d1, d2):
    if d1.keys() != d2.keys():
        return False
    for k, v in d1.items():
        if _differ(v, d2[k]):
            return False
    return True
'''))
R("compare_two_sub", "dict_utils.py", ("compare_two_dicts", '''
def compare_two_dicts(d1, d2):
    if not d1.keys() == d2.keys():
        return False
    for k in d1:
        left, right = d1[k], d2[k]
        try:
            if left != right:
                return False
        except ValueError:
            same = np.allclose(left, right)
            if not same:
                return False
    return True
'''))
R("get_val_get", "dict_utils.py", ("get_val_or_default", '''
def get_val_or_default(in_dict, key):
    for k in (key, None):
        if k in in_dict:
            return in_dict[k]
    return None
'''))
R("get_val_get2", "dict_utils.py", ("get_val_or_default", '''
def get_val_or_default(in_dict, key):
    if key in in_dict:
        return in_dict[key]
    return in_dict.get(None)
'''))
R("set_val_setdefault", "dict_utils.py", ("set_val_or_default", '''
def set_val_or_default(in_dict, key, val):
    return in_dict.setdefault(key, val)
'''))
R("check_keys_any", "dict_utils.py", ("check_keys", '''
def check_keys(in_dicts):
    if not in_dicts:
        return
    master_keys = in_dicts[0].keys()
    for in_dict in in_dicts[1:]:
        keys = in_dict.keys()
        if keys == master_keys:
            continue
        raise ValueError(f"Keys to not match: {keys} != {master_keys}")
'''))
R("bin_widths_diff", "utils.py", ("bin_widths", '''
def bin_widths(edges):
    return np.diff(edges)
'''))
R("edge_center_half", "utils.py", ("edge_to_center", '''
def edge_to_center(edges):
    lower = edges[:-1]
    upper = edges[1:]
    return (lower + upper) / 2.0
'''))
R("get_bin_split", "utils.py", ("get_bin_indices", '''
def _raw_bin_indices(bins, x):
    widths = bin_widths(bins)
    if np.allclose(widths, widths[0]):
        return np.floor((x - bins[0]) / widths[0]).astype(int)
    return np.searchsorted(bins, x, side="left") - 1


def get_bin_indices(bins, x):
    n_bins = np.size(bins) - 1
    idx = np.atleast_1d(_raw_bin_indices(bins, x))
    mask = (idx >= 0) * (idx < n_bins)
    np.putmask(idx, 1 - mask, 0)
    out_shape = np.shape(x)
    return idx.reshape(out_shape).clip(0, n_bins - 1), mask.reshape(out_shape)
'''))
R("get_bin_and", "utils.py", ("get_bin_indices", '''
def get_bin_indices(bins, x):
    widths = bins[1:] - bins[:-1]
    n_bins = bins.size - 1
    uniform = np.allclose(widths, widths[0])
    if uniform:
        idx = np.floor((x - bins[0]) / widths[0]).astype(int)
    else:
        idx = np.searchsorted(bins, x, side="left") - 1
    idx = np.atleast_1d(idx)
    mask = (0 <= idx) & (idx < n_bins)
    idx = np.where(mask, idx, 0)
    xshape = np.shape(x)
    idx = idx.reshape(xshape).clip(0, n_bins - 1)
    return idx, mask.reshape(xshape)
'''))
R("normalize_none", "utils.py", ("normalize_interp1d", '''
def normalize_interp1d(xvals, yvals):
    dx = xvals[:, 1:] - xvals[:, :-1]
    integrals = np.sum(dx * yvals[:, 1:], axis=1)
    return yvals / integrals[:, None]
'''))
R("normalize_var", "utils.py", ("normalize_interp1d", '''
def normalize_interp1d(xvals, yvals):
    upper = yvals[:, 1:]
    areas = xvals[:, 1:] * upper - xvals[:, :-1] * upper
    return np.transpose(yvals.T / areas.sum(axis=1))
'''))
R("kdes_loop", "utils.py", ("build_kdes", '''
def build_kdes(samples, **kwargs):
    kdes = []
    for row in samples:
        kdes.append(sps.gaussian_kde(row, **kwargs))
    return kdes
'''), ("evaluate_kdes", '''
def evaluate_kdes(xvals, kdes):
    rows = []
    for kde in kdes:
        rows.append(kde(xvals))
    return np.vstack(rows)
'''))
R("eval_case_nest", "utils.py", ("get_eval_case", '''
def get_eval_case(x, row):
    nd_x = np.ndim(x)
    nd_row = np.ndim(row)
    if nd_x >= 2:
        if nd_row == 1:
            raise ValueError("Dimension mismatch: x(%s), row(%s)" % (np.shape(x), np.shape(row)))
        return CASE_2D, x, row
    if nd_row >= 2:
        return CASE_PRODUCT, x, row
    n_x, n_row = np.size(x), np.size(row)
    if n_x == 1 or n_row == 1:
        return CASE_FLAT, x, row
    if n_x == n_row:
        changes = np.flatnonzero(np.diff(row))
        nx = changes[0] + 1 if np.size(changes) else n_row
    else:
        nx = n_x // n_row
    if nx == 0 or n_x % nx != 0 or (n_row * nx) % n_x != 0:
        return CASE_FLAT, x, row
    xx = np.reshape(x, (-1, nx))
    rr = np.reshape(row, (np.shape(xx)[0], -1))
    first_row = rr[:, :1]
    if np.all(xx == xx[0]) and np.all(rr == first_row):
        return CASE_FACTOR, xx[0], first_row
    return CASE_FLAT, x, row
'''))
R("eval_case_helper", "utils.py", ("get_eval_case", '''
def _block_length(x, row):
    if np.size(x) != np.size(row):
        return np.size(x) // np.size(row)
    changes = np.flatnonzero(np.diff(row))
    return changes[0] + 1 if np.size(changes) else np.size(row)


def get_eval_case(x, row):
    nd_x = np.ndim(x)
    nd_row = np.ndim(row)
    if nd_x >= 2 and nd_row != 1:
        return CASE_2D, x, row
    if nd_x >= 2 and nd_row == 1:
        raise ValueError("Dimension mismatch: x(%s), row(%s)" % (np.shape(x), np.shape(row)))
    if nd_row >= 2:
        return CASE_PRODUCT, x, row
    if np.size(x) == 1 or np.size(row) == 1:
        return CASE_FLAT, x, row
    nx = _block_length(x, row)
    if nx == 0 or np.size(x) % nx != 0 or (np.size(row) * nx) % np.size(x) != 0:
        return CASE_FLAT, x, row
    xx = np.reshape(x, (-1, nx))
    rr = np.reshape(row, (np.shape(xx)[0], -1))
    if not (np.all(xx == xx[0]) and np.all(rr == rr[:, :1])):
        return CASE_FLAT, x, row
    return CASE_FACTOR, xx[0], rr[:, :1]
'''))
R("hist_flat_ifs", "utils.py", ("evaluate_hist_x_multi_y_flat", '''
def evaluate_hist_x_multi_y_flat(x, row, bins, vals, derivs=None):
    assert np.ndim(x) < 2 and np.ndim(row) < 2
    idx, mask = get_bin_indices(bins, x)
    deltas = np.zeros(idx.shape) if derivs is None else x - bins[idx]

    def evaluate_row(idxv, maskv, rv, delta):
        value = vals[rv, idxv]
        if derivs is not None:
            value = value + delta * derivs[rv, idxv]
        return np.where(maskv, value, 0)

    return np.vectorize(evaluate_row)(idx, mask, row, deltas)
'''))
R("hist_product_branch", "utils.py", ("evaluate_hist_x_multi_y_product", '''
def evaluate_hist_x_multi_y_product(x, row, bins, vals, derivs=None):
    idx, mask0 = get_bin_indices(bins, x)
    mask = np.ones(row.shape) * mask0
    rows = np.squeeze(row)
    out = vals[:, idx][rows]
    if derivs is not None:
        out = out + (x - bins[idx]) * derivs[:, idx][rows]
    return np.where(mask, out, 0)
'''))
R("hist_dispatch_elif", "utils.py", ("evaluate_hist_x_multi_y", '''
def evaluate_hist_x_multi_y(x, row, bins, vals, derivs=None):
    case_idx, xx, rr = get_eval_case(x, row)
    if case_idx == CASE_2D:
        func = evaluate_hist_x_multi_y_2d
    elif case_idx == CASE_PRODUCT or case_idx == CASE_FACTOR:
        func = evaluate_hist_x_multi_y_product
    else:
        func = evaluate_hist_x_multi_y_flat
    return func(xx, rr, bins, vals, derivs)
'''))
R("dispatch_table", "utils.py", ("interpolate_x_multi_y", '''
def _dispatch(case_idx, product, two_d, flat):
    if case_idx in (CASE_PRODUCT, CASE_FACTOR):
        return product
    if case_idx == CASE_2D:
        return two_d
    return flat


def interpolate_x_multi_y(x, row, xvals, yvals, **kwargs):
    case_idx, xx, rr = get_eval_case(x, row)
    func = _dispatch(case_idx, interpolate_x_multi_y_product, interpolate_x_multi_y_2d, interpolate_x_multi_y_flat)
    return func(xx, rr, xvals, yvals, **kwargs)
'''))
R("interp_flat_comp", "utils.py", ("interpolate_multi_x_y_flat", '''
def interpolate_multi_x_y_flat(x, row, xvals, yvals, **kwargs):
    def single_row(xv, rv):
        interpolator = interp1d(xvals[rv], yvals, **kwargs)
        return interpolator(xv)

    return np.vectorize(single_row)(x, row)
'''))
R("interp_flat_lambda", "utils.py", ("interpolate_multi_x_y_flat", '''
def interpolate_multi_x_y_flat(x, row, xvals, yvals, **kwargs):
    vv = np.vectorize(lambda xv, rv: interp1d(xvals[rv], yvals, **kwargs)(xv))
    return vv(x, row)
'''))
R("profile_rewrite", "utils.py", ("profile", '''
def profile(x_data, y_data, x_bins, std=True):
    idx, mask = get_bin_indices(x_bins, x_data)
    nbins = x_bins.size - 1
    count = np.zeros(nbins)
    vals = np.zeros(nbins)
    errs = np.zeros(nbins)
    for i in range(nbins):
        mask_col = mask * (idx == i)
        n_in_bin = mask_col.sum()
        count[i] = n_in_bin
        if n_in_bin == 0:
            vals[i] = np.nan
            errs[i] = np.nan
        else:
            masked_vals = y_data[mask_col]
            vals[i] = masked_vals.mean()
            errs[i] = masked_vals.std()
    if not std:
        errs = errs / np.sqrt(count)
    return vals, errs
'''))
R("reshape_var", "utils.py", ("reshape_to_pdf_size", '''
def reshape_to_pdf_size(vals, split_dim):
    in_shape = np.shape(vals)
    npdf = int(np.prod(in_shape[:split_dim]))
    return vals.reshape(np.hstack([npdf, in_shape[split_dim:]]))
'''))
R("safelog_np", "utils.py", ("safelog", '''
def safelog(arr, threshold=epsilon):
    clipped = np.clip(np.array(arr), threshold, np.inf)
    return np.log(clipped)
'''))
R("getitem_comp", "ensemble.py", ("Ensemble.__getitem__", '''
def __getitem__(self, key):
    md = self.metadata()
    for name in ("pdf_name", "pdf_version"):
        md.pop(name)
    red_data = {k: np.squeeze(v) for k, v in md.items()}
    for k, v in slice_dict(self.objdata(), key).items():
        red_data[k] = np.expand_dims(v, 0) if np.ndim(v) < 2 else v
    ancil = None if self._ancil is None else slice_dict(self._ancil, key)
    return Ensemble(self._gen_obj.create, data=red_data, ancil=ancil)
'''))
R("getitem_helper", "ensemble.py", ("Ensemble.__getitem__", '''
def _ctor_metadata(self):
    """Metadata that are passed to the constructor"""
    md = self.metadata()
    md.pop("pdf_name")
    md.pop("pdf_version")
    return {k: np.squeeze(v) for k, v in md.items()}

def __getitem__(self, key):
    red_data = self._ctor_metadata()
    dd = slice_dict(self.objdata(), key)
    for k, v in dd.items():
        if len(np.shape(v)) >= 2:
            red_data[k] = v
            continue
        red_data[k] = np.expand_dims(v, 0)
    ancil = None
    if self._ancil is not None:
        ancil = slice_dict(self._ancil, key)
    return Ensemble(self._gen_obj.create, data=red_data, ancil=ancil)
'''))
R("getitem_order", "ensemble.py", ("Ensemble.__getitem__", '''
def __getitem__(self, key):
    if self._ancil is not None:
        ancil = slice_dict(self._ancil, key)
    else:
        ancil = None
    red_data = {}
    for k, v in self.metadata().items():
        if k in ("pdf_name", "pdf_version"):
            continue
        red_data[k] = np.squeeze(v)
    for k, v in slice_dict(self.objdata(), key).items():
        if len(np.shape(v)) < 2:
            v = np.expand_dims(v, 0)
        red_data[k] = v
    return Ensemble(self._gen_obj.create, data=red_data, ancil=ancil)
'''))
R("init_order", "ensemble.py", ("Ensemble.__init__", '''
def __init__(self, gen_func, data, ancil=None):
    self._gridded = None
    self._samples = None
    self._ancil = None
    self._gen_func = gen_func
    frozen = gen_func(**data)
    self._frozen = frozen
    self._gen_obj = frozen.dist
    self._gen_class = type(frozen.dist)
    self.set_ancil(ancil)
'''))
R("update_helper", "ensemble.py", ("Ensemble.update", '''
def _reset_caches(self):
    self._gridded = None
    self._samples = None

def update(self, data, ancil=None):
    frozen = self._gen_func(**data)
    check_array_shapes(ancil, frozen.npdf)
    self._frozen = frozen
    self._gen_obj = frozen.dist
    self.set_ancil(ancil)
    self._reset_caches()
'''))
R("update_objdata_comp", "ensemble.py", ("Ensemble.update_objdata", '''
def update_objdata(self, data, ancil=None):
    skip = ("pdf_name", "pdf_version")
    new_data = {k: np.squeeze(v) for k, v in self.metadata().items() if k not in skip}
    new_data.update({**self.objdata(), **data})
    self.update(new_data, ancil)
'''))
R("objdata_ret", "ensemble.py", ("Ensemble.objdata", '''
def objdata(self):
    dd = {k: v for k, v in self._frozen.kwds.items() if k != "row"}
    dd.update(self._gen_obj.objdata)
    return dd
'''), ("Ensemble.metadata", '''
def metadata(self):
    return dict(self._gen_obj.metadata)
'''))
R("append_flip", "ensemble.py", ("Ensemble.append", '''
def append(self, other_ens):
    same_metadata = compare_dicts([self.metadata(), other_ens.metadata()])
    if not same_metadata:
        raise KeyError("Metadata does not match, can not append")
    full_ancil = None
    if self._ancil is not None and other_ens.ancil is not None:
        full_ancil = concatenate_dicts([self._ancil, other_ens.ancil])
    self.update_objdata(concatenate_dicts([self.objdata(), other_ens.objdata()]), full_ancil)
'''))
R("gridded_var", "ensemble.py", ("Ensemble.gridded", '''
def gridded(self, grid):
    cached = self._gridded
    if cached is not None and np.array_equal(cached[0], grid):
        return cached
    self._gridded = (np.array(grid), self.pdf(grid))
    return self._gridded
'''))
R("gridded_helper", "ensemble.py", ("Ensemble.gridded", '''
def _grid_is_cached(self, grid):
    return self._gridded is not None and np.array_equal(self._gridded[0], grid)

def gridded(self, grid):
    if not self._grid_is_cached(grid):
        values = self.pdf(grid)
        self._gridded = (np.array(grid), values)
    return self._gridded
'''))
R("add_ancil_merge", "ensemble.py", ("Ensemble.add_to_ancil", '''
def add_to_ancil(self, to_add):
    check_array_shapes(to_add, self.npdf)
    current = self._ancil if self._ancil is not None else {}
    self._ancil = {**current, **to_add}
'''))
R("mode_var", "ensemble.py", ("Ensemble.mode", '''
def mode(self, grid):
    new_grid, griddata = self.gridded(grid)
    peak = np.argmax(griddata, axis=-1)
    modes = new_grid[peak]
    return modes[..., np.newaxis]
'''))
R("moment_partial_var", "ensemble.py", ("Ensemble.moment_partial", '''
def moment_partial(self, n, limits, dx=0.01):
    width = limits[-1] - limits[0]
    npoint = int(width / dx)
    grid = np.linspace(limits[0], limits[1], npoint)
    spacing = width / (npoint - 1)
    return quick_moment(self.gridded(grid)[1], grid**n, spacing)
'''))
R("integrate_var", "ensemble.py", ("Ensemble.integrate", '''
def integrate(self, limits):
    lower = self.cdf(limits[0])
    upper = self.cdf(limits[1])
    return upper - lower
'''))
R("alloc_comp", "ensemble.py", ("Ensemble._get_allocation_kwds", '''
def _get_allocation_kwds(self, npdf):
    keywords = {}
    for group, tab in self.build_tables().items():
        if group == "meta":
            continue
        keywords[group] = {
            key: ([npdf] + list(array.shape[1:]), array.dtype) for key, array in tab.items()
        }
    return keywords
'''))
R("chunk_comp", "ensemble.py", ("Ensemble.writeHdf5Chunk", '''
def writeHdf5Chunk(self, fname, start, end):
    odict = {group: tab for group, tab in self.build_tables().items() if group != "meta"}
    io.writeDictToHdf5Chunk(fname, odict, start, end)
'''))
R("write_to_var", "ensemble.py", ("Ensemble.write_to", '''
def write_to(self, filename):
    basename, ext = os.path.splitext(filename)
    fmt = ext[1:]
    io.write(self.build_tables(), basename, fmt)
'''))
R("build_tables_lit", "ensemble.py", ("Ensemble.build_tables", '''
def build_tables(self):
    dd = {"meta": self.metadata(), "data": self.objdata()}
    ancil = self._ancil
    if ancil is not None:
        dd["ancil"] = ancil
    return dd
'''))
R("convert_check", "ensemble.py", ("Ensemble.convert_to", '''
def convert_to(self, to_class, **kwargs):
    kwds = dict(kwargs)
    method = kwds.pop("method", None)
    ctor_func = to_class.creation_method(method)
    extract_func = to_class.extraction_method(method)
    for what, func in (("creation_method", ctor_func), ("extraction_method", extract_func)):
        if func is None:
            raise KeyError("Class named %s does not have a %s named %s" % (to_class.name, what, method))
    return Ensemble(ctor_func, data=extract_func(self, **kwds))
'''))
R("fact_build_helper", "factory.py", ("Factory._build_data_dict", '''
@staticmethod
def _metadata_value(col_data):
    ndim = np.ndim(col_data)
    if ndim > 1:
        col_data = np.squeeze(col_data)
        if np.ndim(col_data) == 0:
            col_data = col_data.item()
    elif ndim == 1:
        col_data = col_data[0]
    return col_data.decode() if isinstance(col_data, bytes) else col_data

@staticmethod
def _build_data_dict(md_table, data_table):
    data_dict = {col: Factory._metadata_value(col_data) for col, col_data in md_table.items()}
    for col, col_data in data_table.items():
        data_dict[col] = np.expand_dims(col_data, -1) if len(col_data.shape) < 2 else col_data
    return data_dict
'''))
R("fact_create", "factory.py", ("Factory.create", '''
def create(self, class_name, data, method=None):
    if class_name not in self:
        raise KeyError("Class nameed %s is not in factory" % class_name)
    return Ensemble(self[class_name].creation_method(method), data)
'''))
R("fact_from_tables", "factory.py", ("Factory.from_tables", '''
def from_tables(self, tables):
    data = self._build_data_dict(tables["meta"], tables["data"])
    pdf_name, pdf_version = data.pop("pdf_name"), data.pop("pdf_version")
    if pdf_name not in self:
        raise KeyError("Class nameed %s is not in factory" % pdf_name)
    the_class = self[pdf_name]
    reader_convert = the_class.reader_method(pdf_version)
    if reader_convert is not None:
        data = reader_convert(data)
    return Ensemble(the_class.creation_method(None), data=data, ancil=tables.get("ancil", None))
'''))
R("fact_iter_helper", "factory.py", ("Factory.iterator", '''
@staticmethod
def _read_chunk(group, start, end):
    table = OrderedDict()
    for key, val in group.items():
        table[key] = io.readHdf5DatasetToArray(val, start, end)
    return table

def iterator(self, filename, chunk_size=100_000, rank=0, parallel_size=1):
    extension = os.path.splitext(filename)[1]
    if extension not in [".hdf5"]:  # pragma: no cover
        raise TypeError("Can only use qp.iterator on hdf5 files")

    metadata = io.readHdf5ToDict(filename, "meta")
    pdf_name = metadata.pop("pdf_name")[0].decode()
    _pdf_version = metadata.pop("pdf_version")[0]
    if pdf_name not in self:  # pragma: no cover
        raise KeyError("Class nameed %s is not in factory" % pdf_name)
    ctor_func = self[pdf_name].creation_method(None)

    f, infp = io.readHdf5Group(filename, "data")
    try:
        ancil_f, ancil_infp = io.readHdf5Group(filename, "ancil")
    except KeyError:  # pragma: no cover
        ancil_f, ancil_infp = (None, None)
    num_rows = io.getGroupInputDataLength(f)
    try:
        for start, end in io.data_ranges_by_rank(num_rows, chunk_size, parallel_size, rank):
            data = self._build_data_dict(metadata, self._read_chunk(f, start, end))
            ancil_data = None
            if ancil_f is not None:
                ancil_data = self._read_chunk(ancil_f, start, end)
            yield start, end, Ensemble(ctor_func, data=data, ancil=ancil_data)
    finally:
        infp.close()
        if ancil_infp is not None:
            ancil_infp.close()
'''))
R("fact_iter_comp", "factory.py", (None, ('''                data_table = OrderedDict()
                for key, val in f.items():
                    data_table[key] = io.readHdf5DatasetToArray(val, start, end)
''', '''                data_table = {key: io.readHdf5DatasetToArray(val, start, end) for key, val in f.items()}
''')))
R("fact_convert", "factory.py", ("Factory.convert", '''
def convert(self, in_dist, class_name, **kwds):
    kwds_copy = dict(kwds)
    method = kwds_copy.pop("method", None)
    if class_name not in self:
        raise KeyError("Class nameed %s is not in factory" % class_name)
    extract_func = self[class_name].extraction_method(method)
    if extract_func is None:
        raise KeyError("Class named %s does not have a extraction_method named %s" % (class_name, method))
    return self.create(class_name, extract_func(in_dist, **kwds_copy), method)
'''))
R("fact_concat", "factory.py", ("Factory.concatenate", '''
@staticmethod
def concatenate(ensembles):
    if not ensembles:
        return None
    metadata_list = [ens.metadata() for ens in ensembles]
    objdata_list = [ens.objdata() for ens in ensembles]
    if any(ens.ancil is None for ens in ensembles):
        ancil_list = None
    else:
        ancil_list = [ens.ancil for ens in ensembles]
    gen_func = ensembles[0].gen_obj.create
    if not compare_dicts(metadata_list):
        raise ValueError("Metadata does not match")
    data = concatenate_dicts(objdata_list)
    ancil = None if ancil_list is None else concatenate_dicts(ancil_list)
    for k, v in metadata_list[0].items():
        if k not in ["pdf_name", "pdf_version"]:
            data[k] = np.squeeze(v)
    return Ensemble(gen_func, data, ancil)
'''))
R("fact_concat2", "factory.py", ("Factory.concatenate", '''
@staticmethod
def _collect(ensembles):
    metadata_list = []
    objdata_list = []
    ancil_list = []
    for ensemble in ensembles:
        metadata_list.append(ensemble.metadata())
        objdata_list.append(ensemble.objdata())
        if ancil_list is not None:
            if ensemble.ancil is None:
                ancil_list = None
            else:
                ancil_list.append(ensemble.ancil)
    return metadata_list, objdata_list, ancil_list

@staticmethod
def concatenate(ensembles):
    if not ensembles:
        return None
    metadata_list, objdata_list, ancil_list = Factory._collect(ensembles)
    gen_func = ensembles[0].gen_obj.create
    if not compare_dicts(metadata_list):
        raise ValueError("Metadata does not match")
    metadata = metadata_list[0]
    data = concatenate_dicts(objdata_list)
    ancil = concatenate_dicts(ancil_list) if ancil_list is not None else None
    for k, v in metadata.items():
        if k in ["pdf_name", "pdf_version"]:
            continue
        data[k] = np.squeeze(v)
    return Ensemble(gen_func, data, ancil)
'''))
R("fact_write_dict", "factory.py", ("Factory.write_dict", '''
@staticmethod
def write_dict(filename, ensemble_dict, **kwargs):
    for val in ensemble_dict.values():
        if not isinstance(val, Ensemble):
            raise ValueError("All values in ensemble_dict must be qp.Ensemble")
    output_tables = {key: val.build_tables() for key, val in ensemble_dict.items()}
    io.writeDictsToHdf5(output_tables, filename, **kwargs)
'''))
R("fact_read_dict", "factory.py", ("Factory.read_dict", '''
@staticmethod
def _read_group(filename, path):
    group_object, infp = io.readHdf5Group(filename, path)
    try:
        return io.readHdf5GroupToDict(group_object)
    finally:
        infp.close()

@staticmethod
def read_dict(filename):
    results = {}
    for name in io.readHdf5GroupNames(filename):
        keys = io.readHdf5GroupNames(filename, name)
        tables = {key: Factory._read_group(filename, f"{name}/{key}") for key in keys}
        results[name] = from_tables(tables)
    return results
'''))
R("fact_data_length", "factory.py", ("Factory.data_length", '''
def data_length(self, filename):
    group, infp = io.readHdf5Group(filename, "data")
    try:
        return io.getGroupInputDataLength(group)
    finally:
        infp.close()
'''))
R("fact_read", "factory.py", ("Factory.read", '''
def read(self, filename):
    is_parquet = os.path.splitext(filename)[1] == ".pq"
    keys = ["data", "meta", "ancil"] if is_parquet else None
    tables = io.read(filename, NUMPY_DICT, keys=keys, allow_missing_keys=is_parquet)
    return self.from_tables(tables)
'''))
R("fact_add_class", "factory.py", ("Factory.add_class", '''
def add_class(self, the_class):
    if not hasattr(the_class, "name"):
        raise AttributeError(
            "Can not add class %s to factory because it doesn't have a name attribute" % the_class
        )
    name = the_class.name
    if name in self:
        raise KeyError("Class nameed %s is already in factory, point to %s" % (name, self[name]))
    the_class.add_method_dicts()
    the_class.add_mappings()
    self[name] = the_class
    setattr(self, f"{name}_gen", the_class)
    setattr(self, name, the_class.create)
'''))
R("hist_init_norm", "hist_pdf.py", (None, ('''            pdfs_2d = reshape_to_pdf_size(pdfs, -1)
            sums = np.sum(pdfs_2d * self._hbin_widths, axis=1)
            self._hpdfs = (pdfs_2d.T / sums).T
''', '''            pdfs_2d = reshape_to_pdf_size(pdfs, -1)
            sums = np.sum(pdfs_2d * self._hbin_widths, axis=1)
            self._hpdfs = pdfs_2d / sums[:, np.newaxis]
''')))
R("hist_init_order", "hist_pdf.py", (None, ('''        self._hbin_widths = self._hbins[1:] - self._hbins[:-1]
        self._xmin = self._hbins[0]
''', '''        self._hbin_widths = np.diff(self._hbins)
        self._xmin = self._hbins[0]
''')))
R("hist_cdfs", "hist_pdf.py", ("hist_gen._compute_cdfs", '''
def _compute_cdfs(self):
    nrow, ncol = self._hpdfs.shape
    cdfs = np.zeros((nrow, ncol + 1))
    cdfs[:, 1:] = np.cumsum(self._hpdfs * self._hbin_widths, axis=1)
    self._hcdfs = cdfs
'''))
R("hist_lazy_prop", "hist_pdf.py", ("hist_gen._cdf", '''
def _get_cdfs(self):
    if self._hcdfs is None:
        self._compute_cdfs()
    return self._hcdfs

def _cdf(self, x, row):
    return interpolate_x_multi_y(
        x, row, self._hbins, self._get_cdfs(), bounds_error=False, fill_value=(0.0, 1.0)
    ).ravel()
'''), ("hist_gen._ppf", '''
def _ppf(self, x, row):
    return interpolate_multi_x_y(
        x, row, self._get_cdfs(), self._hbins, bounds_error=False, fill_value=(self._xmin, self._xmax)
    ).ravel()
'''))
R("hist_moment", "hist_pdf.py", ("hist_gen.custom_generic_moment", '''
def custom_generic_moment(self, m):
    power = np.asarray(m)
    lower, upper = self._hbins[:-1], self._hbins[1:]
    centers = (lower + upper) / 2
    weights = self._hpdfs * self._hbin_widths
    return (centers**power * weights).sum(axis=1)
'''))
R("hist_munp", "hist_pdf.py", ("hist_gen._munp", '''
def _munp(self, m, *args):
    with np.errstate(all="ignore"):
        return self.custom_generic_moment(m)
'''))
R("interp_ycumul", "interp_pdf.py", ("interp_gen._compute_ycumul", '''
def _compute_ycumul(self):
    dx = self._xvals[1:] - self._xvals[:-1]
    ycumul = np.empty(self._yvals.shape)
    ycumul[:, 0] = 0.5 * self._yvals[:, 0] * dx[0]
    mid = self._yvals[:, 1:] + self._yvals[:, :-1]
    ycumul[:, 1:] = np.cumsum(0.5 * dx * mid, axis=1)
    self._ycumul = ycumul
'''))
R("interp_norm", "interp_pdf.py", (None, ('''            self._compute_ycumul()
            self._yvals = (self._yvals.T / self._ycumul[:, -1]).T
            self._ycumul = (self._ycumul.T / self._ycumul[:, -1]).T
''', '''            self._compute_ycumul()
            norms = self._ycumul[:, -1]
            self._yvals = (self._yvals.T / norms).T
            self._ycumul = (self._ycumul.T / norms).T
''')))
R("interp_moment", "interp_pdf.py", ("interp_gen.custom_generic_moment", '''
def custom_generic_moment(self, m):
    m = np.asarray(m)
    weighted = self._yvals * np.gradient(self._xvals)
    return np.sum(weighted * self._xvals**m, axis=1)
'''))
R("interp_irr_cumul", "interp_pdf.py", ("interp_irregular_gen._compute_ycumul", '''
def _compute_ycumul(self):
    dx = np.diff(self._xvals, axis=1)
    steps = dx * self._yvals[:, 1:]
    self._ycumul = np.zeros(self._yvals.shape)
    self._ycumul[:, 1:] = np.cumsum(steps, axis=1)
'''))
R("quant_pad", "quant_pdf.py", ("pad_quantiles", '''
def pad_quantiles(quants, locs):
    pad_lo = quants[0] > sys.float_info.epsilon
    pad_hi = quants[-1] < 1.0
    if not pad_lo and not pad_hi:
        return quants, locs
    offset_lo = 1 if pad_lo else 0
    n_vals = quants.size
    n_out = n_vals + offset_lo + (1 if pad_hi else 0)
    quants_out = np.zeros(n_out, quants.dtype)
    locs_out = np.zeros((locs.shape[0], n_out), quants.dtype)
    quants_out[offset_lo : n_vals + offset_lo] = quants
    locs_out[:, offset_lo : n_vals + offset_lo] = locs
    if pad_lo:
        locs_out[:, 0] = locs[:, 0] - quants[0] * (locs[:, 1] - locs[:, 0]) / (quants[1] - quants[0])
    if pad_hi:
        quants_out[-1] = 1.0
        locs_out[:, -1] = locs[:, -1] - (1.0 - quants[-1]) * (locs[:, -2] - locs[:, -1]) / (quants[-1] - quants[-2])
    return quants_out, locs_out
'''))
R("quant_pad_slope", "quant_pdf.py", (None, ('''        locs_out[:, 0] = locs[:, 0] - quants[0] * (locs[:, 1] - locs[:, 0]) / (
            quants[1] - quants[0]
        )
''', '''        slope_lo = (locs[:, 1] - locs[:, 0]) / (quants[1] - quants[0])
        locs_out[:, 0] = locs[:, 0] - quants[0] * slope_lo
''')))
R("quant_setter", "quant_pdf.py", ("quant_gen.pdf_constructor_name!", '''
@pdf_constructor_name.setter
def pdf_constructor_name(self, value: str):
    self._check_constructor_name(value)
    if value is self._pdf_constructor_name:
        logging.warning("Already using interpolator: '%s'.", value)
        return
    self._pdf_constructor_name = value
    self._instantiate_pdf_constructor()
    self._addmetadata("pdf_constructor_name", self._pdf_constructor_name)

@staticmethod
def _check_constructor_name(value):
    if value not in PDF_CONSTRUCTORS:
        raise ValueError(f"Unknown interpolator provided: '{value}'. Allowed interpolators are {list(PDF_CONSTRUCTORS.keys())}")
'''))
R("quant_inst", "quant_pdf.py", ("quant_gen._instantiate_pdf_constructor", '''
def _instantiate_pdf_constructor(self):
    constructor_class = PDF_CONSTRUCTORS[self._pdf_constructor_name]
    self._pdf_constructor = constructor_class(self._quants, self._locs)
'''))
R("quant_pdf_loop", "quant_pdf.py", ("quant_gen._pdf", '''
def _pdf(self, x, *args):
    x, row = (np.ravel(vals) for vals in np.broadcast_arrays(x, args[0]))
    order = np.argsort(row, kind="stable")
    rows, starts = np.unique(row[order], return_index=True)
    groups = np.split(order, starts[1:])
    yvals = np.zeros(np.shape(x))
    for i, irow in enumerate(rows):
        idx = groups[i]
        values = self._pdf_constructor.construct_pdf(x[idx], np.array([[irow]]))
        yvals[idx] = np.ravel(values)
    return yvals
'''))
R("mix_pdf_helper", "mixmod_pdf.py", ("mixmod_gen._pdf", '''
def _components(self, row):
    return sps.norm(
        loc=self._means[row].swapaxes(-2, -1), scale=self._stds[row].swapaxes(-2, -1)
    )

def _pdf(self, x, row):
    if np.ndim(x) > 1:
        x = np.expand_dims(x, -2)
    weights = self.weights[row].swapaxes(-2, -1)
    return (weights * self._components(row).pdf(x)).sum(axis=0)
'''), ("mixmod_gen._cdf", '''
def _cdf(self, x, row):
    if np.ndim(x) > 1:
        x = np.expand_dims(x, -2)
    weights = self.weights[row].swapaxes(-2, -1)
    return (weights * self._components(row).cdf(x)).sum(axis=0)
'''))
R("mix_pdf_merge", "mixmod_pdf.py", ("mixmod_gen._pdf", '''
def _weighted_sum(self, func_name, x, row):
    if np.ndim(x) > 1:
        x = np.expand_dims(x, -2)
    dist = sps.norm(loc=self._means[row].swapaxes(-2, -1), scale=self._stds[row].swapaxes(-2, -1))
    return (self.weights[row].swapaxes(-2, -1) * getattr(dist, func_name)(x)).sum(axis=0)

def _pdf(self, x, row):
    return self._weighted_sum("pdf", x, row)
'''), ("mixmod_gen._cdf", '''
def _cdf(self, x, row):
    return self._weighted_sum("cdf", x, row)
'''))
R("mix_norm", "mixmod_pdf.py", (None, ('''        self._weights = self._weights / self._weights.sum(axis=1)[:, None]
''', '''        self._weights = self._weights / np.sum(self._weights, axis=1, keepdims=True)
''')))
R("mix_ppf", "mixmod_pdf.py", ("mixmod_gen._ppf", '''
def _ppf(self, x, row):
    spread = 6 * self._stds
    min_val = np.min(self._means - spread)
    max_val = np.max(self._means + spread)
    grid = np.linspace(min_val, max_val, 201)
    rows, table_row = np.unique(row, return_inverse=True)
    table_row = table_row.reshape(np.shape(row))
    cdf_vals = self.cdf(grid, np.expand_dims(rows, -1))
    out = interpolate_multi_x_y(
        x, table_row, cdf_vals, grid, bounds_error=False, fill_value=(min_val, max_val)
    )
    return out.ravel()
'''))
R("conv_require", "conversion_funcs.py", ("extract_vals_at_x", '''
def _require(kwargs, name, message):
    value = kwargs.pop(name, None)
    if value is None:
        raise ValueError(message)
    return value


def extract_vals_at_x(in_dist, **kwargs):
    xvals = _require(kwargs, "xvals", "To convert to extract_xy_vals you must specify xvals")
    return dict(xvals=xvals, yvals=in_dist.pdf(xvals))
'''))
R("conv_samples", "conversion_funcs.py", ("extract_samples", '''
def extract_samples(in_dist, **kwargs):
    size = kwargs.pop("size", 1000)
    random_state = kwargs.pop("random_state", None)
    samples = in_dist.rvs(size=size, random_state=random_state)
    return dict(samples=samples, xvals=kwargs.pop("xvals"), yvals=None)
'''))
R("conv_hist_samples", "conversion_funcs.py", ("extract_hist_samples", '''
def extract_hist_samples(in_dist, **kwargs):
    bins = kwargs.pop("bins", None)
    if bins is None:
        raise ValueError("To convert using extract_hist_samples you must specify bins")
    samples = in_dist.rvs(size=kwargs.pop("size", 1000), random_state=kwargs.pop("random_state", None))

    def hist_helper(sample):
        counts, _ = np.histogram(sample, bins=bins)
        return counts

    signature = "(%i)->(%i)" % (samples.shape[-1], bins.size - 1)
    counts = np.vectorize(hist_helper, signature=signature)(samples)
    return dict(bins=bins, pdfs=counts / bin_widths(bins))
'''))
R("conv_mixmod", "conversion_funcs.py", (None, ('''        weights = estimator.weights_
        means = estimator.means_[:, 0]
        stdevs = np.sqrt(estimator.covariances_[:, 0, 0])
        ov = np.vstack([weights, means, stdevs])
        return ov
''', '''        stdevs = np.sqrt(estimator.covariances_[:, 0, 0])
        return np.vstack([estimator.weights_, estimator.means_[:, 0], stdevs])
''')))
R("conv_xy", "conversion_funcs.py", ("extract_xy_vals", '''
def extract_xy_vals(in_dist, **kwargs):
    xvals = kwargs.pop("xvals", None)
    if xvals is None:
        raise ValueError("To convert using extract_xy_vals you must specify xvals")
    yvals = in_dist.pdf(xvals)
    grid = np.squeeze(xvals)
    return {"xvals": grid * np.ones(yvals.shape), "yvals": yvals}
'''))
R("pdfgen_rvs", "pdf_gen.py", ("Pdf_rows_gen._rvs", '''
def _rvs(self, *args, size=None, random_state=None):
    uniform = random_state.uniform(size=size)
    values = self._ppf(uniform, *args)
    return values if size is None else values.reshape(size)
'''))
R("pdfgen_argcheck", "pdf_gen.py", ("Pdf_rows_gen._argcheck", '''
def _argcheck(self, *args):
    if not args:
        return np.atleast_1d(1)
    row = asarray(args[0])
    in_range = np.logical_and(row >= 0, row < self._npdf)
    return np.atleast_1d(np.logical_and(1, in_range))
'''))
R("pdfgen_hist", "pdf_gen.py", ("rv_frozen_rows.histogramize", '''
def histogramize(self, bins):
    cdf_vals = reshape_to_pdf_size(self.cdf(bins), -1)
    upper, lower = cdf_vals[:, 1:], cdf_vals[:, :-1]
    return bins, reshape_to_pdf_shape(upper - lower, self._shape, bins.size - 1)
'''))
R("pdfgen_hist_diff", "pdf_gen.py", ("rv_frozen_rows.histogramize", '''
def histogramize(self, bins):
    cdf_vals = reshape_to_pdf_size(self.cdf(bins), -1)
    bin_vals = np.diff(cdf_vals, axis=1)
    n_bins = bins.size - 1
    return bins, reshape_to_pdf_shape(bin_vals, self._shape, n_bins)
'''))
R("pdfgen_frozen_init", "pdf_gen.py", ("rv_frozen_rows.__init__", '''
def __init__(self, dist, shape, *args, **kwds):
    self._shape = shape
    self._npdf = np.prod(shape).astype(int)
    self._ndim = np.size(shape)
    if self._npdf is not None:
        rows = np.arange(self._npdf).reshape(self._shape)
        kwds.setdefault("row", rows[..., np.newaxis])
    super().__init__(dist, *args, **kwds)
'''))
R("pdfgen_create", "pdf_gen.py", ("Pdf_gen.create_gen", '''
@classmethod
def create_gen(cls, **kwds):
    kwds_copy = dict(kwds)
    name = kwds_copy.pop("name", "dist")
    return cls(name=name), kwds_copy
'''))
R("pack_const", "packing_utils.py", ("linear_pack_from_rowmax", '''
def linear_pack_from_rowmax(input_array):
    row_max = np.expand_dims(np.max(input_array, axis=1), -1)
    scaled = 255 * (input_array / row_max)
    return np.round(scaled).astype(np.uint8), row_max
'''))
R("pdc_linear", "quantile_pdf_constructors/piecewise_linear.py", ("PiecewiseLinear.prepare_constructor", '''
def prepare_constructor(self) -> None:
    delta_q = np.diff(self._quantiles)
    delta_loc = np.diff(self._locations)
    self._cdf_derivatives = delta_q / delta_loc
    self._adjusted_locations = self._locations[:, 1:] - delta_loc / 2
'''))
R("pdc_linear_mid", "quantile_pdf_constructors/piecewise_linear.py", ("PiecewiseLinear.prepare_constructor", '''
def prepare_constructor(self) -> None:
    widths = self._locations[:, 1:] - self._locations[:, :-1]
    self._cdf_derivatives = (self._quantiles[1:] - self._quantiles[:-1]) / widths
    self._adjusted_locations = self._locations[:, 1:] - 0.5 * widths
'''))
R("pdc_const", "quantile_pdf_constructors/piecewise_constant.py", ("PiecewiseConstant.prepare_constructor", '''
def prepare_constructor(self) -> None:
    derivs = np.zeros(self._locations.shape)
    derivs[:, :-1] = np.diff(self._quantiles) / np.diff(self._locations)
    second = np.zeros(self._locations.shape)
    second[:, :-1] = np.diff(derivs)
    self._cdf_derivatives = derivs
    self._cdf_2nd_derivatives = second
    self._adjusted_locations = self._locations[:, 1:] - np.diff(self._locations) / 2
'''))
R("pdc_spline", "quantile_pdf_constructors/cdf_spline_derivative.py", ("CdfSplineDerivative.prepare_constructor", '''
def prepare_constructor(self, spline_order: int = 3) -> None:
    self._interpolation_functions = []
    for locations in self._locations:
        spline = InterpolatedUnivariateSpline(locations, self._quantiles, k=spline_order, ext=1)
        self._interpolation_functions.append(spline.derivative())
'''))
R("pdc_spline_con", "quantile_pdf_constructors/cdf_spline_derivative.py", ("CdfSplineDerivative.construct_pdf", '''
def construct_pdf(self, grid, row=None):
    if self._interpolation_functions is None:
        self.prepare_constructor()
    if row is None:
        selected = self._interpolation_functions
    else:
        selected = [self._interpolation_functions[i] for i in np.unique(row)]
    return np.asarray([func(grid) for func in selected])
'''))
R("pdc_dual", "quantile_pdf_constructors/dual_spline_average.py", ("DualSplineAverage.construct_pdf", '''
@staticmethod
def _build_splines(locations, p_of_zs, offset):
    return [
        interp1d(np.squeeze(loc[offset::2]), np.squeeze(p_of_z[offset::2]), bounds_error=False, fill_value=0.0, kind="cubic")
        for p_of_z, loc in zip(p_of_zs, locations)
    ]

def construct_pdf(self, grid, row=None):
    if self._p_of_zs is None:
        self.prepare_constructor()
    p_of_zs, locations = self._p_of_zs, self._locations
    if row is not None:
        rows = np.unique(row)
        p_of_zs = [self._p_of_zs[i] for i in rows]
        locations = [self._locations[i] for i in rows]
    f1 = self._build_splines(locations, p_of_zs, 0)
    f2 = self._build_splines(locations, p_of_zs, 1)
    self.y1 = np.asarray([func(grid) for func in f1])
    self.y2 = np.asarray([func(grid) for func in f2])
    return (self.y1 + self.y2) / 2
'''))
R("brier_sq", "metrics/brier.py", ("Brier._calculate_metric", '''
def _squared_error(self):
    return np.sum((self._prediction - self._truth) ** 2, axis=self._axis_for_summation)

def _calculate_metric(self):
    return np.mean(self._squared_error())
'''), ("Brier._calculate_metric_for_accumulation", '''
def _calculate_metric_for_accumulation(self):
    return np.sum(self._squared_error())
'''))
R("brier_square", "metrics/brier.py", ("Brier._calculate_metric", '''
def _calculate_metric(self):
    diff = self._truth - self._prediction
    per_object = np.sum(np.square(diff), axis=self._axis_for_summation)
    return per_object.mean()
'''))
R("kld_var", "metrics/array_metrics.py", ("quick_kld", '''
def quick_kld(p_eval, q_eval, dx=0.01):
    log_p, log_q = safelog(p_eval), safelog(q_eval)
    integrand = p_eval * (log_p - log_q)
    return np.sum(integrand, axis=-1) * dx
'''), ("quick_rmse", '''
def quick_rmse(p_eval, q_eval, N):
    residual = p_eval - q_eval
    mean_square = np.sum(residual**2, axis=-1) / N
    return np.sqrt(mean_square)
'''))
R("rbpe_var", "metrics/array_metrics.py", (None, ('''    lower = integration_bounds[0]
    upper = integration_bounds[1]
''', '''    lower, upper = integration_bounds[0], integration_bounds[1]
''')))
R("rbpe_loss", "metrics/array_metrics.py", ("quick_rbpe", '''
def _rbpe_loss(x):
    return 1.0 - (1.0 / (1.0 + (x / 0.15) ** 2))


def quick_rbpe(pdf_function, integration_bounds, limits=(np.inf, np.inf)):
    lower, upper = integration_bounds[0], integration_bounds[1]

    def find_z_risk(zp):
        integral, _ = quad(lambda z: pdf_function(z) * _rbpe_loss((zp - z) / (1.0 + z)), lower, upper)
        return integral

    if limits[0] == np.inf:
        result = minimize_scalar(find_z_risk)
    else:
        result = minimize_scalar(find_z_risk, bounds=(limits[0], limits[1]), method="bounded")
    return result.x
'''))
R("grid_params", "metrics/metrics.py", ("_calculate_grid_parameters", '''
def _calculate_grid_parameters(limits, dx: float = 0.01) -> Grid:
    lower, upper = limits[0], limits[1]
    width = limits[-1] - limits[0]
    cardinality = int(width / dx)
    resolution = width / (cardinality - 1)
    half = resolution / 2
    return Grid(
        grid_values=np.linspace(lower, upper, cardinality),
        cardinality=cardinality,
        resolution=resolution,
        hist_bin_edges=np.histogram_bin_edges((lower - half, upper + half), cardinality),
        limits=limits,
    )
'''))
R("kld_calc", "metrics/metrics.py", ("calculate_kld", '''
def calculate_kld(p, q, limits, dx=0.01):
    if p.shape != q.shape:
        raise ValueError("Cannot calculate KLD between two ensembles with different shapes")
    grid = _calculate_grid_parameters(limits, dx)
    _, pn = p.gridded(grid.grid_values)
    _, qn = q.gridded(grid.grid_values)
    Dpq = array_metrics.quick_kld(pn, qn, grid.resolution)
    if np.any(Dpq < 0.0):
        print("broken KLD: " + str((Dpq, pn, qn, grid.resolution)))
        Dpq = epsilon * np.ones(Dpq.shape)
    return Dpq
'''))
R("rbpe_calc", "metrics/metrics.py", ("calculate_rbpe", '''
def calculate_rbpe(p, limits=(np.inf, np.inf)):
    def evaluate_pdf_at_z(z, dist):
        return dist.pdf(z)[0][0]

    rbpes = []
    for n in range(p.npdf):
        dist = p[n]
        if dist.npdf != 1:
            raise ValueError(
                "quick_rbpe only handles Ensembles with a single PDF "
                "for ensembles with more than one PDF, use the qp.metrics.risk_based_point_estimate function."
            )
        bounds = (dist.ppf(0.01)[0][0], dist.ppf(0.99)[0][0])
        rbpes.append(array_metrics.quick_rbpe(partial(evaluate_pdf_at_z, dist=dist), bounds, limits))
    return np.array(rbpes)
'''))
R("outlier_loop", "metrics/metrics.py", ("calculate_outlier_rate", '''
def calculate_outlier_rate(p, lower_limit=0.0001, upper_limit=0.9999):
    try:
        _check_ensemble_is_not_nested(p)
    except ValueError:
        logging.warning("Each element in the ensemble `p` must be a single distribution.")

    rates = []
    for dist in p:
        below = dist.cdf(lower_limit)
        above = 1.0 - dist.cdf(upper_limit)
        rates.append((below + above)[0][0])
    return np.array(rates)
'''))
R("gof_helper", "metrics/metrics.py", ("_check_ensembles_contain_correct_number_of_distributions", '''
def _check_ensembles_contain_correct_number_of_distributions(estimate, reference):
    if estimate.npdf != reference.npdf and reference.npdf != 1:
        raise ValueError(
            "`reference` should contain either 1 distribution or the same number of distributions as `estimate`."
        )
'''))
R("brier_prep", "metrics/metrics.py", (None, ('''    truth_array = np.array([np.histogram(t, grid.hist_bin_edges)[0] for t in truth])
''', '''    truth_rows = []
    for t in truth:
        counts, _ = np.histogram(t, grid.hist_bin_edges)
        truth_rows.append(counts)
    truth_array = np.array(truth_rows)
''')))
R("pit_gather", "metrics/pit.py", ("PIT._gather_pit_samples", '''
@classmethod
def _gather_pit_samples(cls, qp_ens, true_vals):
    column = np.vstack(true_vals)
    samples = np.atleast_1d(np.squeeze(qp_ens.cdf(column)))
    bad = ~np.isfinite(samples)
    samples[bad] = 0
    if np.any(bad):
        logging.warning("Some PIT samples were `NaN`. They have been replacd with 0.")
    return samples
'''))
R("pit_meta", "metrics/pit.py", ("PIT.calculate_pit_meta_metrics", '''
def calculate_pit_meta_metrics(self):
    return {
        "ad": self.evaluate_PIT_anderson_ksamp(),
        "cvm": self.evaluate_PIT_CvM(),
        "ks": self.evaluate_PIT_KS(),
        "outlier_rate": self.evaluate_PIT_outlier_rate(),
    }
'''))
R("pit_mask", "metrics/pit.py", ("PIT._create_quant_mask", '''
@classmethod
def _create_quant_mask(cls, data_quants):
    return (data_quants > 0.0) & (data_quants < 1)
'''))
R("pit_init_len", "metrics/pit.py", (None, ('''        n_pit = np.min([len(self._pit_samps), len(eval_grid)])
        if n_pit < len(eval_grid):
''', '''        n_pit = min(len(self._pit_samps), len(eval_grid))
        if n_pit < len(eval_grid):
''')))
R("point_iqr", "metrics/point_estimate_metric_classes.py", ("PointSigmaIQR.evaluate", '''
def evaluate(self, estimate, reference):
    ez = (estimate - reference) / (1.0 + reference)
    upper, lower = np.percentile(ez, [75.0, 25.0])
    return (upper - lower) / 1.349
'''))
R("point_outlier", "metrics/point_estimate_metric_classes.py", ("PointOutlierRate.evaluate", '''
def evaluate(self, estimate, reference):
    ez = (estimate - reference) / (1.0 + reference)
    cut_criterion = np.maximum(0.06, 3.0 * PointSigmaIQR().evaluate(estimate, reference))
    outliers = np.abs(ez) > cut_criterion
    return float(np.sum(outliers)) / float(len(ez))
'''))
R("point_mad", "metrics/point_estimate_metric_classes.py", ("PointSigmaMAD.evaluate", '''
def evaluate(self, estimate, reference):
    ez = (estimate - reference) / (1.0 + reference)
    deviation = np.abs(ez - np.median(ez))
    return 1.4826 * np.median(deviation)
'''))
R("point_acc", "metrics/point_estimate_metric_classes.py", ("PointToPointMetricDigester.accumulate", '''
def accumulate(self, estimate, reference):
    ez = (estimate - reference) / (1.0 + reference)
    return pytdigest.TDigest.compute(ez, compression=self._tdigest_compression).get_centroids()
'''))
R("point_final_list", "metrics/point_estimate_metric_classes.py", ("PointToPointMetricDigester.finalize", '''
def finalize(self, centroids=[]):
    digests = [
        pytdigest.TDigest.of_centroids(np.array(centroid), compression=self._tdigest_compression)
        for centroid in centroids
    ]
    return self.compute_from_digest(reduce(add, digests))
'''))
R("base_iter_loop", "metrics/base_metric_classes.py", ("PointToPointMetric.eval_from_iterator", '''
def eval_from_iterator(self, estimate, reference):
    self.initialize()
    centroids = []
    for est, ref in zip(estimate, reference):
        centroids.append(self.accumulate(est, ref))
    return self.finalize(centroids)
'''))
R("base_uses", "metrics/base_metric_classes.py", ("MetricInputType.uses_point_for_estimate", '''
def uses_point_for_estimate(self) -> bool:
    return self in (MetricInputType.point_to_point, MetricInputType.point_to_dist)
'''))


def run(names):
    import concurrent.futures as cf

    def go(n):
        file, subs = ALL[n]
        d = f"{TMP}/{n}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/src")
        shutil.copytree("/repo/src/qp", d + "/src/qp", ignore=shutil.ignore_patterns("__pycache__", "data"))
        try:
            apply(d + "/src/qp", file, subs)
        except Exception as exc:
            return n, f"BAD SPEC {type(exc).__name__} {exc}"
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        r = subprocess.run([sys.executable, "-m", "qpsa.checkall", d], capture_output=True, text=True, cwd=here)
        shutil.rmtree(d)
        return n, r.stdout + r.stderr[-800:]
    n = alarms = und = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for name, out in ex.map(go, names):
            n += 1
            bad = "!" in out or "BAD" in out or "Traceback" in out
            alarms += bad
            und += "?" in out and not bad
            if bad or "-v" in sys.argv and "?" in out:
                print(("ALARM " if bad else "undecided ") + name)
                print("\n".join(x[:700] for x in out.strip().splitlines()))
    print(f"{n} rewrites, {alarms} alarms, {und} undecided")


if __name__ == "__main__":
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    run(names or list(ALL))
