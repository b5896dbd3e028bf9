"""Tenth batch of behaviour-preserving rewrites: whole functions written anew the way a maintainer would (helpers pulled out, loops
turned into comprehensions and back, early returns, statements in another order), near the places the newest rules look at."""
from refactorings import R, run, ALL

ALL.clear()

# ---------------------------------------------------------------- ensemble
R("e_getitem_helper", "ensemble.py", ("Ensemble.__getitem__", '''
    def __getitem__(self, key):
        """Build a qp.Ensemble object for a sub-set of the distributions in this ensemble"""
        settings = self._constructor_settings()
        columns = {name: self._as_rows(col) for name, col in slice_dict(self.objdata(), key).items()}
        ancil = None if self._ancil is None else slice_dict(self._ancil, key)
        return Ensemble(self._gen_obj.create, data={**settings, **columns}, ancil=ancil)

    @staticmethod
    def _as_rows(col):
        return np.expand_dims(col, 0) if np.ndim(col) < 2 else col

    def _constructor_settings(self):
        return {k: np.squeeze(v) for k, v in self.metadata().items() if k not in ("pdf_name", "pdf_version")}
'''))
R("e_getitem_loop", "ensemble.py", ("Ensemble.__getitem__", '''
    def __getitem__(self, key):
        skip = ["pdf_name", "pdf_version"]
        red_data = {}
        for name, value in self.metadata().items():
            if name in skip:
                continue
            red_data[name] = np.squeeze(value)
        for name, value in slice_dict(self.objdata(), key).items():
            if np.ndim(value) >= 2:
                red_data[name] = value
                continue
            red_data[name] = np.expand_dims(value, 0)
        ancil = None
        if self._ancil is not None:
            ancil = slice_dict(self._ancil, key)
        sub = Ensemble(self._gen_obj.create, data=red_data, ancil=ancil)
        return sub
'''))
R("e_getitem_reset", "ensemble.py", (None, ('''        return Ensemble(self._gen_obj.create, data=red_data, ancil=ancil)
''', '''        sub = Ensemble(self._gen_obj.create, data=red_data, ancil=ancil)
        sub._gridded = None
        sub._samples = None
        return sub
''')))
R("e_update_drop", "ensemble.py", ("Ensemble._update_frozen", '''
    def _update_frozen(self, frozen, ancil=None):
        """Replace the frozen distribution, checking the ancillary data against it first"""
        check_array_shapes(ancil, frozen.npdf)
        self._forget()
        self._frozen = frozen
        self._gen_obj = frozen.dist
        self.set_ancil(ancil)

    def _forget(self):
        self._gridded, self._samples = None, None
'''))
R("e_update_objdata", "ensemble.py", ("Ensemble.update_objdata", '''
    def update_objdata(self, data, ancil=None):
        """Update the object data in the ensemble"""
        meta = self.metadata()
        for name in ("pdf_name", "pdf_version"):
            meta.pop(name)
        settings = {k: np.squeeze(v) for k, v in meta.items()}
        make = self._gen_obj.create
        frozen = make(**{**settings, **self.objdata(), **data})
        self._update_frozen(frozen, ancil)
'''))
R("e_meta", "ensemble.py", ("Ensemble.metadata", '''
    def metadata(self):
        return dict(self._gen_obj.metadata.items())
'''))
R("e_objdata", "ensemble.py", ("Ensemble.objdata", '''
    def objdata(self):
        dd = dict(self._frozen.kwds)
        if "row" in dd:
            del dd["row"]
        dd.update(self._gen_obj.objdata)
        return dd
'''))
R("e_objdata2", "ensemble.py", ("Ensemble.objdata", '''
    def objdata(self):
        dd = {k: v for k, v in self._frozen.kwds.items() if k != "row"}
        for k, v in self._gen_obj.objdata.items():
            dd[k] = v
        return dd
'''))
R("e_add", "ensemble.py", ("Ensemble.add_to_ancil", '''
    def add_to_ancil(self, to_add):  # pragma: no cover
        check_array_shapes(to_add, self.npdf)
        merged = dict(self._ancil) if self._ancil is not None else dict()
        for name, column in to_add.items():
            merged[name] = column
        self._ancil = merged
'''))
R("e_append", "ensemble.py", ("Ensemble.append", '''
    def append(self, other_ens):
        ensembles = (self, other_ens)
        if not compare_dicts([ens.metadata() for ens in ensembles]):  # pragma: no cover
            raise KeyError("Metadata does not match, can not append")
        objdata = concatenate_dicts([ens.objdata() for ens in ensembles])
        ancils = [ens.ancil for ens in ensembles]
        ancil = None
        if all(a is not None for a in ancils):  # pragma: no cover
            ancil = concatenate_dicts(ancils)
        self.update_objdata(objdata, ancil)
'''))
R("e_append2", "ensemble.py", ("Ensemble.append", '''
    def append(self, other_ens):
        same = compare_dicts([self.metadata(), other_ens.metadata()])
        if not same:  # pragma: no cover
            raise KeyError("Metadata does not match, can not append")
        new_objdata = concatenate_dicts([self.objdata(), other_ens.objdata()])
        if self._ancil is None or other_ens.ancil is None:
            new_ancil = None
        else:
            new_ancil = concatenate_dicts([self._ancil, other_ens.ancil])
        self.update_objdata(new_objdata, new_ancil)
'''))
R("e_tables", "ensemble.py", ("Ensemble.build_tables", '''
    def build_tables(self):
        tables = {"meta": self.metadata(), "data": self.objdata()}
        ancil = self.ancil
        if ancil is None:
            return tables
        tables["ancil"] = ancil
        return tables
'''))
R("e_mode", "ensemble.py", ("Ensemble.mode", '''
    def mode(self, grid):
        points, values = self.gridded(grid)
        best = np.argmax(values, axis=-1)
        return points[best][..., np.newaxis]
'''))
R("e_mode2", "ensemble.py", ("Ensemble.mode", '''
    def mode(self, grid):
        gridded = self.gridded(grid)
        index = gridded[1].argmax(axis=-1)
        return np.expand_dims(np.take(gridded[0], index), axis=-1)
'''))
R("e_gridded", "ensemble.py", (None, ('''        if self._gridded is None or not np.array_equal(self._gridded[0], grid):
            self._gridded = (np.array(grid), self.pdf(grid))
        return self._gridded
''', '''        known = self._gridded
        if known is not None and np.array_equal(known[0], grid):
            return known
        self._gridded = (np.array(grid), self.pdf(grid))
        return self._gridded
''')))
R("e_convert", "ensemble.py", (None, ('''        kwds = kwargs.copy()
        method = kwds.pop("method", None)
        ctor_func = to_class.creation_method(method)
''', '''        method = kwargs.get("method")
        kwds = {k: v for k, v in kwargs.items() if k != "method"}
        ctor_func = to_class.creation_method(method)
''')))
R("e_ctor", "ensemble.py", (None, ('''        self._gen_func = gen_func
        self._frozen = self._gen_func(**data)
        self._gen_obj = self._frozen.dist
        self._gen_class = type(self._gen_obj)

        self._ancil = None
        self.set_ancil(ancil)

        self._gridded = None
        self._samples = None
''', '''        frozen = gen_func(**data)
        self._gridded = self._samples = self._ancil = None
        self._gen_func, self._frozen = gen_func, frozen
        self._gen_obj = frozen.dist
        self._gen_class = type(frozen.dist)
        self.set_ancil(ancil)
''')))
# ---------------------------------------------------------------- factory
R("f_from_tables", "factory.py", ("Factory.from_tables", '''
    def from_tables(self, tables):
        data = self._build_data_dict(tables["meta"], tables["data"])
        name, version = data.pop("pdf_name"), data.pop("pdf_version")
        the_class = self._lookup(name)
        convert = the_class.reader_method(version)
        if convert is not None:  # pragma: no cover
            data = convert(data)
        return Ensemble(the_class.creation_method(None), data=data, ancil=tables.get("ancil"))

    def _lookup(self, name):
        if name in self:
            return self[name]
        raise KeyError("Class nameed %s is not in factory" % name)
'''))
R("f_create", "factory.py", ("Factory.create", '''
    def create(self, class_name, data, method=None):
        try:
            the_class = self[class_name]
        except KeyError:
            raise KeyError("Class nameed %s is not in factory" % class_name) from None
        return Ensemble(the_class.creation_method(method), data)
'''))
R("f_convert", "factory.py", ("Factory.convert", '''
    def convert(self, in_dist, class_name, **kwds):
        if class_name not in self:  # pragma: no cover
            raise KeyError("Class nameed %s is not in factory" % class_name)
        options = dict(kwds)
        method = options.pop("method", None)
        extract = self[class_name].extraction_method(method)
        if extract is None:  # pragma: no cover
            raise KeyError("Class named %s does not have a extraction_method named %s" % (class_name, method))
        return self.create(class_name, extract(in_dist, **options), method=method)
'''))
R("f_concat", "factory.py", ("Factory.concatenate", '''
    @staticmethod
    def concatenate(ensembles):
        if not ensembles:  # pragma: no cover
            return None
        metas = [ens.metadata() for ens in ensembles]
        if not compare_dicts(metas):  # pragma: no cover
            raise ValueError("Metadata does not match")
        data = concatenate_dicts([ens.objdata() for ens in ensembles])
        for k, v in metas[0].items():
            if k not in ("pdf_name", "pdf_version"):
                data[k] = np.squeeze(v)
        ancils = [ens.ancil for ens in ensembles]
        ancil = None if any(a is None for a in ancils) else concatenate_dicts(ancils)
        return Ensemble(ensembles[0].gen_obj.create, data, ancil)
'''))
R("f_iter_helper", "factory.py", (None, ('''                data_table = OrderedDict()
                for key, val in f.items():
                    data_table[key] = io.readHdf5DatasetToArray(val, start, end)
                data = self._build_data_dict(metadata, data_table)
                if ancil_f is not None:
                    ancil_data = OrderedDict()
                    for key, val in ancil_f.items():
                        ancil_data[key] = io.readHdf5DatasetToArray(val, start, end)
                else:
                    ancil_data = None
''', '''                columns = self._read_rows(f, start, end)
                data = self._build_data_dict(metadata, columns)
                ancil_data = None if ancil_f is None else self._read_rows(ancil_f, start, end)
''')), (None, ('''    def convert(self, in_dist, class_name, **kwds):
''', '''    @staticmethod
    def _read_rows(group, start, end):
        return OrderedDict((key, io.readHdf5DatasetToArray(val, start, end)) for key, val in group.items())

    def convert(self, in_dist, class_name, **kwds):
''')))
R("f_iter_reuse", "factory.py", (None, ('''            for start, end in ranges:
                data_table = OrderedDict()
                for key, val in f.items():
''', '''            data_table = OrderedDict()
            for start, end in ranges:
                data_table = OrderedDict()
                for key, val in f.items():
''')))
R("f_iter_index", "factory.py", (None, ('''            for start, end in ranges:
''', '''            for i_range in range(len(ranges)):
                start, end = ranges[i_range]
''')))
R("f_read", "factory.py", (None, ('''        _, ext = os.path.splitext(filename)
        if ext in [".pq"]:
            keys = ["data", "meta", "ancil"]
            allow_missing_keys = True
        else:
            keys = None
            allow_missing_keys = False
''', '''        is_parquet = os.path.splitext(filename)[-1] == ".pq"
        keys = ["data", "meta", "ancil"] if is_parquet else None
        allow_missing_keys = is_parquet
''')))
R("f_writedict", "factory.py", ("Factory.write_dict", '''
    @staticmethod
    def write_dict(filename, ensemble_dict, **kwargs):
        if not all(isinstance(val, Ensemble) for val in ensemble_dict.values()):
            raise ValueError("All values in ensemble_dict must be qp.Ensemble")  # pragma: no cover
        io.writeDictsToHdf5({key: val.build_tables() for key, val in ensemble_dict.items()}, filename, **kwargs)
'''))
R("f_readdict", "factory.py", ("Factory.read_dict", '''
    @staticmethod
    def read_dict(filename):
        results = {}
        for group in io.readHdf5GroupNames(filename):
            results[group] = from_tables(_read_tables(filename, group))
        return results
'''), (None, ('''_FACTORY = Factory()
''', '''def _read_tables(filename, group):
    tables = {}
    for key_name in io.readHdf5GroupNames(filename, group):
        group_object, infp = io.readHdf5Group(filename, "%s/%s" % (group, key_name))
        try:
            tables[key_name] = io.readHdf5GroupToDict(group_object)
        finally:
            infp.close()
    return tables


_FACTORY = Factory()
''')))
R("f_len", "factory.py", ("Factory.data_length", '''
    def data_length(self, filename):
        group, handle = io.readHdf5Group(filename, "data")
        try:
            return io.getGroupInputDataLength(group)
        finally:
            handle.close()
'''))
R("f_isqp", "factory.py", ("Factory.is_qp_file", '''
    def is_qp_file(self, filename):
        try:
            meta = io.readNative(filename, keys=["meta"])["meta"]
            return not len(meta["pdf_name"]) == 0
        except Exception as msg:
            print(f"This is not a qp file because {msg}")
            return False
'''))
# ---------------------------------------------------------------- dictionaries
R("d_default", "dict_utils.py", ("set_val_or_default", '''
def set_val_or_default(in_dict, key, val):
    return in_dict.setdefault(key, val)
'''))
R("d_default2", "dict_utils.py", ("set_val_or_default", '''
def set_val_or_default(in_dict, key, val):
    if key not in in_dict:
        in_dict[key] = val
    return in_dict[key]
'''))
R("d_default3", "dict_utils.py", ("set_val_or_default", '''
def set_val_or_default(in_dict, key, val):
    try:
        return in_dict[key]
    except KeyError:
        in_dict[key] = val
        return val
'''))
R("d_concat", "dict_utils.py", ("concatenate_dicts", '''
def concatenate_dicts(in_dicts):
    if not in_dicts:  # pragma: no cover
        return {}
    check_keys(in_dicts)
    out = dict()
    for name in in_dicts[0]:
        columns = [d[name] for d in in_dicts]
        out[name] = np.concatenate(columns)
    return out
'''))
R("d_checkkeys", "dict_utils.py", ("check_keys", '''
def check_keys(in_dicts):
    if not in_dicts:  # pragma: no cover
        return
    first = in_dicts[0].keys()
    for other in in_dicts[1:]:
        if other.keys() != first:  # pragma: no cover
            raise ValueError("Keys to not match: %s != %s" % (other.keys(), first))
'''))
R("d_shapes", "dict_utils.py", ("check_array_shapes", '''
def check_array_shapes(in_dict, npdf):
    if in_dict is None:
        return
    for key, val in in_dict.items():
        _check_rows(key, val, npdf)


def _check_rows(key, val, npdf):
    if npdf == 1 and np.size(val) == 1:  # pragma: no cover
        return
    n_rows = np.shape(val)[0]
    if n_rows == npdf:
        return
    raise ValueError("First dimension of array %s does not match npdf: %i != %i" % (key, n_rows, npdf))
'''))
# ---------------------------------------------------------------- generators
R("g_rvs", "pdf_gen.py", (None, ('''        U = random_state.uniform(size=size)
''', '''        uniform = random_state.uniform
        U = uniform(size=size)
''')))
R("g_interp_ppf", "interp_pdf.py", (None, ('''            self._compute_ycumul()
''', '''            self._compute_ycumul()
            assert self._ycumul is not None
'''))) if 0 else None
R("g_mix_grid", "mixmod_pdf.py", (None, ('''        grid = np.linspace(min_val, max_val, 201)
''', '''        n_grid = 201
        grid = np.linspace(min_val, max_val, num=n_grid)
''')), (None, ('''fill_value=(min_val, max_val)''', '''fill_value=(grid[0], grid[-1])''')))
R("g_subclasses", "metrics/factory.py", ("get_all_subclasses", '''
def get_all_subclasses(cls):
    """Get all subclasses of a class, recursively"""
    found = []
    for sub in cls.__subclasses__():
        found += [sub] + get_all_subclasses(sub)
    return found
''')) if 0 else None
R("g_subclasses2", "metrics/factory.py", (None, ('''        all_subclasses.append(subclass)
        all_subclasses.extend(get_all_subclasses(subclass))
''', '''        below = get_all_subclasses(subclass)
        all_subclasses.append(subclass)
        for lower in below:
            all_subclasses.append(lower)
''')))
R("g_round", "sparse_rep.py", (None, ('''np.array(list(map(round, (Dvalm / Da))), dtype="int")''', '''np.array([round(v) for v in Dvalm / Da], dtype=int)''')))
R("g_round2", "sparse_rep.py", (None, ('''np.array(list(map(round, (Dvalm / Da))), dtype="int")''', '''np.rint(Dvalm / Da).astype(int)''')))

# ---------------------------------------------------------------- more of the numerics
R("n_round3", "sparse_rep.py", (None, ("""            index0 = int(round(dval0 / Da))
            index[0] = index0
""", """            index[0] = int(round(dval0 / Da))
""")))
R("n_bins", "utils.py", (None, ("""mask = (idx >= 0) * (idx < bins.size - 1)""", """n_bins = bins.size - 1
    mask = np.logical_and(idx >= 0, idx < n_bins)""")))

if __name__ == "__main__":
    import sys
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    run(names or list(ALL))
